// Package checks holds the monitors that decide the properties and the workloads they watch.
package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/tdewolff/font"

	"verif/core"
	"verif/ref"
	"verif/synth"
)

// SF is the font type of the library.
type SF = font.SFNT

func byTier(quick, thorough int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return thorough
		}
		return quick
	}
}

////////////////////////////////////////////////////////////////
// corpus of real fonts

type corpusFont struct {
	Name string
	Path string
	data []byte
}

const modCache = "/root/go/pkg/mod"

var corpusOnce sync.Once
var corpusAll []*corpusFont

// small reports whether a corpus file is cheap to work with.
func (f *corpusFont) Data() []byte {
	if f.data == nil {
		f.data, _ = os.ReadFile(f.Path)
	}
	return append([]byte{}, f.data...)
}

// corpus lists the real SFNT files that are present; the files of the repository come first.
func corpus() []*corpusFont {
	corpusOnce.Do(func() {
		var paths []string
		for _, g := range []string{"/repo/resources/*.ttf", "/repo/resources/*.otf", "/repo/resources/*.ttc"} {
			m, _ := filepath.Glob(g)
			sort.Strings(m)
			paths = append(paths, m...)
		}
		for _, d := range []string{"github.com/go-fonts", "golang.org/x/image*", "github.com/tdewolff/canvas*", "github.com/go-text"} {
			roots, _ := filepath.Glob(filepath.Join(modCache, d))
			var m []string
			for _, root := range roots {
				filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
					if err == nil && fi.Mode().IsRegular() && fi.Size() < 3<<20 {
						switch strings.ToLower(filepath.Ext(p)) {
						case ".ttf", ".otf", ".ttc":
							m = append(m, p)
						}
					}
					return nil
				})
			}
			sort.Strings(m)
			paths = append(paths, m...)
		}
		seen := map[string]bool{}
		for _, p := range paths {
			b, err := os.ReadFile(p)
			if err != nil || len(b) < 12 || seen[string(b)] {
				continue
			}
			seen[string(b)] = true
			f, err := ref.Parse(b, 0)
			if err != nil {
				continue
			}
			if f.Tables["glyf"] == nil && f.CFF == nil || f.Tables["cmap"] == nil || f.Tables["head"] == nil || f.Tables["hmtx"] == nil {
				continue
			}
			if _, err := f.Cmap(); err != nil {
				continue
			}
			if sf, err := safeParse(b); err != nil || sf == nil {
				continue // the corpus of valid files decides nothing about acceptance
			}
			corpusAll = append(corpusAll, &corpusFont{Name: filepath.Base(p), Path: p})
		}
	})
	return corpusAll
}

func safeParse(b []byte) (sf *SF, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return font.ParseSFNT(b, 0)
}

// repoFont is a corpus font that the repository ships.
func repoFont(name string) []byte {
	b, err := os.ReadFile("/repo/resources/" + name)
	if err != nil {
		return nil
	}
	return b
}

////////////////////////////////////////////////////////////////
// loading

// load parses a valid font with the library and the reference reader.
func load(c *core.Case, what string, b []byte) (*SF, *ref.Font) {
	c.Attach(what+".bin", b)
	rf, err := ref.Parse(b, 0)
	if err != nil {
		c.HarnessError("%s: %v", what, err)
		return nil, nil
	}
	f := parse(c, what, b)
	return f, rf
}

// parse parses a valid font with the library.
func parse(c *core.Case, what string, b []byte) *SF {
	var f *SF
	var err error
	if !c.Try("ParseSFNT", func() { f, err = font.ParseSFNT(b, 0) }) {
		return nil
	}
	if err != nil {
		c.Attach(what+".bin", b)
		c.Fail("rejected:"+errKey(err), "%s: a valid font is rejected: %v", what, err)
		return nil
	}
	return f
}

// refParse reads bytes that the library produced.
func refParse(c *core.Case, what string, b []byte) *ref.Font {
	rf, err := ref.Parse(b, 0)
	if err != nil {
		c.Attach(what+".bin", b)
		c.Fail("written:"+errKey(err), "%s: the written font cannot be read: %v", what, err)
		return nil
	}
	return rf
}

// errKey shortens an error message to its class: digits are dropped.
func errKey(err error) string {
	s := []byte{}
	for _, ch := range []byte(err.Error()) {
		if ch < '0' || ch > '9' {
			s = append(s, ch)
		}
		if len(s) > 60 {
			break
		}
	}
	return string(s)
}

func outline(f *SF, g uint16, x, y, s float64) ([]ref.Seg, error) {
	p := &ref.Path{Limit: 1 << 20}
	err := f.GlyphPath(p, g, 0, x, y, s, font.NoHinting)
	return p.Segs, err
}

func sortedRunes(m map[rune]int) []rune {
	rs := make([]rune, 0, len(m))
	for r := range m {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return rs
}

func sortRunes(rs []rune) []rune {
	out := append([]rune{}, rs...)
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// probeRunes returns code points worth looking up: the mapped ones, their neighbours, and boundaries.
func probeRunes(r *rand.Rand, m map[rune]int, limit int) []rune {
	set := map[rune]bool{}
	rs := sortedRunes(m)
	if limit > 0 && len(rs) > limit {
		r.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
		rs = rs[:limit]
	}
	for _, c := range rs {
		set[c] = true
		set[c-1] = true
		set[c+1] = true
	}
	for _, c := range []rune{-1, 0, 1, 31, 32, 0x7F, 0x80, 0xFF, 0x100, 0xF000, 0xF020, 0xF0FF, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x20000, 0x10FFFF, 0x110000, math.MaxInt32, math.MinInt32} {
		set[c] = true
	}
	for i := 0; i < 60; i++ {
		set[rune(r.Intn(0x10FFFF))] = true
		set[rune(r.Intn(0x3000))] = true
	}
	out := make([]rune, 0, len(set))
	for c := range set {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// probeGlyphs returns all glyphs of a small font or a sample, in order.
func probeGlyphs(r *rand.Rand, n, limit int) []int {
	var gs []int
	if n <= limit {
		for g := 0; g < n; g++ {
			gs = append(gs, g)
		}
		return gs
	}
	set := map[int]bool{0: true, 1: true, n - 1: true}
	for len(set) < limit {
		set[r.Intn(n)] = true
	}
	for g := range set {
		gs = append(gs, g)
	}
	sort.Ints(gs)
	return gs
}

// stamp blanks what Write takes from the clock: head.modified and the checksums that depend on it.
func stamp(b []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) < 12 {
		return b
	}
	n := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < n && 12+16*i+16 <= len(b); i++ {
		e := b[12+16*i:]
		if string(e[:4]) == "head" {
			o := int(binary.BigEndian.Uint32(e[8:]))
			copy(e[4:8], make([]byte, 4))
			if o+36 <= len(b) {
				copy(b[o+8:o+12], make([]byte, 4))
				copy(b[o+28:o+36], make([]byte, 8))
			}
		}
	}
	return b
}

func sameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// canary copies b into memory with guard bytes behind its length, and checks them later.
type canary struct {
	buf  []byte
	orig []byte
}

func newCanary(b []byte) *canary {
	buf := make([]byte, len(b)+16)
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = 0xA5
	}
	return &canary{buf: buf, orig: append([]byte{}, buf...)}
}

// Bytes returns the guarded slice; its capacity extends over the guard.
func (k *canary) Bytes() []byte { return k.buf[:len(k.buf)-16] }

func (k *canary) Check() error {
	for i := range k.buf {
		if k.buf[i] != k.orig[i] {
			if i >= len(k.buf)-16 {
				return fmt.Errorf("memory behind the slice was written (byte %d after the end)", i-(len(k.buf)-16))
			}
			return fmt.Errorf("byte %d changed from %#x to %#x", i, k.orig[i], k.buf[i])
		}
	}
	return nil
}

// randFont makes a synthetic font for a case.
func randFont(c *core.Case, o synth.Opt) *synth.Font {
	f := synth.Random(c.R, o)
	c.Sample("synthetic font: %s", f.Desc)
	return f
}
