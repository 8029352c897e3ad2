package checks

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/andybalholm/brotli"
	"github.com/tdewolff/font"

	"verif/core"
	"verif/mutate"
	"verif/ref"
	"verif/synth"
	"verif/wrap"
)

func init() {
	core.Register(&core.Check{ID: "C01", Cases: byTier(16000, 300000), Run: runC01, CPULimit: 40, Require: []string{"inputs", "accepted", "rejected", "SFNT inputs", "collection inputs", "WOFF inputs", "WOFF2 inputs", "EOT inputs", "AFM inputs", "noise inputs", "structured attacks"},
		Rule: "valid synthetic and real files of every container are damaged in bytes, fields, tables, directories, streams and whole, spliced and truncated, and given to every parsing function; panics, fatal exits, CPU time and results that are neither value nor error are violations; distinct cases are distinct inputs"})
	core.Register(&core.Check{ID: "C02", Cases: byTier(5000, 150000), Run: runC02, CPULimit: 60, Require: []string{"accepted damaged fonts", "embedded fonts", "outlines", "subsets", "merges", "written", "WOFF2 written", "outline errors", "structured attacks"},
		Rule: "fonts that a parser accepts although they were damaged (and intact and embedded fonts with few tables) are exercised with every operation: all queries for glyphs, runes, names and pairs inside and outside the font, subsetting, merging, renaming, writing and re-reading, on the font and on the results; panics, fatal exits, CPU time and endless outlines are violations; distinct cases are distinct accepted fonts"})
	core.Register(&core.Check{ID: "C03", Cases: byTier(2000, 60000), Run: runC03, CPULimit: 60, Workers: 4, Require: []string{"parses measured", "bombs", "bombs refused", "oversized declarations", "shared structures", "accepted"},
		Rule: "bytes allocated by each parsing function are measured on compression bombs, oversized declarations, structures that many references share, damaged and intact files, with different memory limits; more than a fixed multiple of the input plus a multiple of the limit is a violation; distinct cases are distinct inputs"})
	core.Register(&core.Check{ID: "C04", Cases: byTier(5000, 80000), Run: runC04, CPULimit: 60, Require: []string{"histories", "read-only inputs", "read-only arguments", "reopened", "subsets", "merges", "containers", "damaged inputs"},
		Rule: "inputs and argument slices lie in memory that is mapped read-only, with spare capacity, so that any write traps; random histories of parsing, converting, querying, subsetting, merging and writing run on them; afterwards the same bytes must open as the same font and the package's option lists must be unchanged; distinct cases are distinct histories"})
}

////////////////////////////////////////////////////////////////
// inputs

var rawOnce sync.Once
var rawFiles [][]byte // files of all formats that the repository carries, valid or not

func rawCorpus() [][]byte {
	rawOnce.Do(func() {
		var paths []string
		for _, root := range []string{"/repo/testdata", "/repo/tests", "/repo/resources"} {
			filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
				if err != nil || !fi.Mode().IsRegular() || fi.Size() > 300000 || fi.Size() < 4 {
					return nil
				}
				switch strings.ToLower(filepath.Ext(p)) {
				case ".go", ".mod", ".sum", ".md", ".zip", ".txt", ".xht", ".html", ".xml", ".css":
					return nil
				}
				paths = append(paths, p)
				return nil
			})
		}
		sort.Strings(paths)
		for _, p := range paths {
			if b, err := os.ReadFile(p); err == nil {
				rawFiles = append(rawFiles, b)
			}
		}
	})
	return rawFiles
}

type input struct {
	kind string
	desc string
	b    []byte
}

func smallFont(c *core.Case) *ref.Font {
	o := synth.Opt{MaxN: 24}
	if c.R.Intn(5) == 0 {
		o.MaxN = 90
	}
	if c.R.Intn(12) == 0 {
		fs := corpus()
		for k := 0; k < 8 && len(fs) > 0; k++ {
			f := fs[c.R.Intn(len(fs))]
			if d := f.Data(); len(d) < 90000 {
				if rf, err := ref.Parse(d, 0); err == nil {
					return rf
				}
			}
		}
	}
	rf, err := ref.Parse(synth.Random(c.R, o).Bytes, 0)
	if err != nil {
		c.HarnessError("%v", err)
		return nil
	}
	return rf
}

// hostileFont is a damaged font, sometimes intact.
func hostileFont(c *core.Case) *input {
	r := c.R
	if r.Intn(6) == 0 {
		d, b := mutate.Attack(r, false)
		return &input{"SFNT", "attack: " + d, b}
	}
	f := smallFont(c)
	if f == nil {
		return nil
	}
	var other map[string][]byte
	if r.Intn(3) == 0 {
		if g := smallFont(c); g != nil {
			other = g.Tables
		}
	}
	if r.Intn(20) == 0 {
		return &input{"SFNT", "intact", f.Data}
	}
	return &input{"SFNT", "damaged", mutate.SFNT(r, f, other)}
}

// hostile makes an input of any kind.
func hostile(c *core.Case) *input {
	r := c.R
	switch r.Intn(16) {
	case 0: // noise with a signature
		b := make([]byte, r.Intn(200))
		r.Read(b)
		sig := []string{"OTTO", "true", "\x00\x01\x00\x00", "ttcf\x00\x01\x00\x00", "wOFF", "wOF2", "StartFontMetrics 4.1\n", ""}[r.Intn(8)]
		b = append([]byte(sig), b...)
		if len(b) > 36 && r.Intn(8) == 0 {
			b[34], b[35] = 0x4C, 0x50
		}
		return &input{"noise", "noise", b}
	case 1: // files of the repository
		if fs := rawCorpus(); len(fs) > 0 {
			b := fs[r.Intn(len(fs))]
			return &input{"file", "file of the repository", mutate.Bytes(r, b, r.Intn(6))}
		}
	case 2: // collection
		var ms []synth.Member
		for k := 1 + r.Intn(3); k > 0; k-- {
			f := smallFont(c)
			if f == nil {
				return nil
			}
			t := f.Tables
			if r.Intn(2) == 0 {
				t = mutate.Tables(r, t, nil, 1+r.Intn(3))
			}
			ms = append(ms, synth.Member{Version: f.Version, Tables: t})
		}
		b := synth.AssembleTTC(r, ms, r.Intn(2) == 0)
		return &input{"collection", "damaged collection", mutate.Bytes(r, b, r.Intn(4))}
	case 3, 4: // WOFF
		in := hostileFont(c)
		if in == nil {
			return nil
		}
		f, err := ref.Parse(in.b, 0)
		if err != nil || r.Intn(3) == 0 {
			if f = smallFont(c); f == nil {
				return nil
			}
		}
		b, es := wrap.WOFF(r, f)
		for k := r.Intn(3); k > 0 && len(es) > 0; k-- {
			e := es[r.Intn(len(es))]
			o := e.Dir + 4*r.Intn(5)
			x := mutate.Bytes(r, b[o:o+4], 1)
			if len(x) >= 4 {
				copy(b[o:o+4], x)
			}
		}
		if r.Intn(3) == 0 {
			b = mutate.Bytes(r, b, 1+r.Intn(3))
		}
		return &input{"WOFF", "damaged WOFF", b}
	case 5, 6, 7: // WOFF2
		f := smallFont(c)
		if f == nil {
			return nil
		}
		ts, _ := wrap.Tables2(r, f)
		for k := r.Intn(4); k > 0; k-- {
			t := &ts[r.Intn(len(ts))]
			if r.Intn(2) == 0 { // the transformed tables most often
				for i := range ts {
					if ts[i].Tag == []string{"glyf", "hmtx", "loca", "head", "maxp", "hhea"}[r.Intn(6)] {
						t = &ts[i]
					}
				}
			}
			switch r.Intn(8) {
			case 0:
				t.Orig = r.Intn(1 << uint(r.Intn(31)))
			case 1:
				if t.Len >= 0 {
					t.Len = r.Intn(1 << uint(r.Intn(31)))
				} else {
					t.Len = len(t.Data)
				}
			case 2:
				t.Version = r.Intn(4)
			case 3:
				if len(ts) > 1 {
					i := r.Intn(len(ts))
					ts[i], ts[0] = ts[0], ts[i]
				}
			case 4:
				ts = append(ts[:0:0], ts...)
				i := r.Intn(len(ts))
				if r.Intn(2) == 0 && len(ts) > 1 {
					ts = append(ts[:i], ts[i+1:]...)
				} else {
					ts = append(ts, ts[i])
				}
			default:
				n := len(t.Data)
				t.Data = mutate.Bytes(r, t.Data, 1+r.Intn(2))
				if t.Len >= 0 && r.Intn(4) > 0 {
					t.Len = len(t.Data)
				}
				if t.Len < 0 && len(t.Data) != n && r.Intn(4) > 0 {
					t.Orig = len(t.Data)
				}
			}
		}
		b := wrap.Pack2(r, f.Version, ts)
		if r.Intn(3) == 0 {
			b = mutate.Bytes(r, b, 1+r.Intn(3))
		}
		return &input{"WOFF2", "damaged WOFF2", b}
	case 8: // EOT
		in := hostileFont(c)
		if in == nil {
			return nil
		}
		b := wrap.EOT(r, in.b)
		n := min(len(b), 400)
		x := mutate.Bytes(r, b[:n], r.Intn(4))
		b = append(x, b[n:]...)
		if r.Intn(4) == 0 {
			b = b[:r.Intn(len(b)+1)]
		}
		return &input{"EOT", "damaged EOT", b}
	case 9: // AFM
		m := randAFM(r)
		b := joinAFM(r, m.write(r))
		if d, _ := damageAFM(r, b); d != nil && r.Intn(2) == 0 {
			b = d
		}
		return &input{"AFM", "damaged AFM", mutate.Bytes(r, b, r.Intn(5))}
	}
	return hostileFont(c)
}

////////////////////////////////////////////////////////////////
// C01

func countInput(c *core.Case, in *input) {
	c.Count("inputs", 1)
	c.Count(in.kind+" inputs", 1)
	if strings.HasPrefix(in.desc, "attack") {
		c.Count("structured attacks", 1)
	}
	c.FP(in.b)
}

// parsers calls every function that turns bytes into a font.
func parsers(c *core.Case, in *input, each func(name string, f func())) {
	b := in.b
	result := func(name string, ok bool, err error) {
		if ok == (err != nil) {
			c.Fail("result:"+name, "%s returned a result %v and the error %v", name, ok, err)
		}
		if err != nil {
			c.Count("rejected", 1)
		} else {
			c.Count("accepted", 1)
		}
	}
	index := 0
	if in.kind == "collection" || c.R.Intn(8) == 0 {
		index = []int{0, 1, 2, c.R.Intn(4), -1, 1 << 30, -1 << 31}[c.R.Intn(7)]
	}
	each("ParseSFNT", func() { f, err := font.ParseSFNT(b, index); result("ParseSFNT", f != nil, err) })
	each("ParseEmbeddedSFNT", func() {
		f, err := font.ParseEmbeddedSFNT(b, index)
		result("ParseEmbeddedSFNT", f != nil, err)
	})
	one := func(i int) {
		switch i {
		case 0:
			each("ToSFNT", func() { f, err := font.ToSFNT(b); result("ToSFNT", f != nil, err) })
		case 1:
			each("NewSFNTReader", func() {
				f, err := font.NewSFNTReader(bytes.NewReader(b))
				result("NewSFNTReader", f != nil, err)
			})
		case 2:
			each("ParseWOFF", func() { f, err := font.ParseWOFF(b); result("ParseWOFF", f != nil, err) })
		case 3:
			each("ParseWOFF2", func() { f, err := font.ParseWOFF2(b); result("ParseWOFF2", f != nil, err) })
		case 4:
			each("ParseEOT", func() { f, err := font.ParseEOT(b); result("ParseEOT", f != nil || err == nil, err) })
		case 5:
			each("ParseAFM", func() { f, err := font.ParseAFM(b); result("ParseAFM", f != nil, err) })
		case 6:
			each("MediaType", func() { m, err := font.MediaType(b); result("MediaType", m != "", err) })
			each("Extension", func() { font.Extension(b) })
		}
	}
	for i := 0; i < 7; i++ {
		if in.kind == "noise" || in.kind == "file" || c.R.Intn(6) == 0 || i == map[string]int{"WOFF": 2, "WOFF2": 3, "EOT": 4, "AFM": 5, "SFNT": 6, "collection": 6}[in.kind] {
			one(i)
		}
	}
}

func runC01(c *core.Case) {
	for k := 0; k < 10 && !c.Failed(); k++ {
		in := hostile(c)
		if in == nil {
			return
		}
		c.Attach("input.bin", in.b)
		countInput(c, in)
		k := newCanary(in.b)
		in.b = k.Bytes()
		parsers(c, in, func(name string, f func()) { c.Try(name, f) })
	}
}

////////////////////////////////////////////////////////////////
// C02

// eventLimit is more than the events any outline within the limits of the formats can have.
const eventLimit = 5 << 20

type countPather struct {
	n int
}

func (p *countPather) add() {
	if p.n++; p.n > eventLimit {
		panic(endless{})
	}
}

type endless struct{}

func (endless) Stop()          {}
func (endless) String() string { return "endless outline" }

func (p *countPather) MoveTo(x, y float64)                 { p.add() }
func (p *countPather) LineTo(x, y float64)                 { p.add() }
func (p *countPather) QuadTo(cx, cy, x, y float64)         { p.add() }
func (p *countPather) CubeTo(ax, ay, bx, by, x, y float64) { p.add() }
func (p *countPather) Close()                              { p.add() }

func drawGlyph(c *core.Case, f *SF, g uint16) bool {
	p := &countPather{}
	var err error
	ok := func() (ok bool) {
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(endless); !is {
					panic(e)
				}
				c.Fail("endless outline", "GlyphPath(%d) emitted more than %d segments", g, eventLimit)
			}
		}()
		return c.Try("GlyphPath", func() { err = f.GlyphPath(p, g, uint16(c.R.Intn(3)*8), 1, 2, 0.5, font.Hinting(c.R.Intn(2))) })
	}()
	c.Count("outlines", 1)
	if err != nil {
		c.Count("outline errors", 1)
	}
	return ok
}

// exercise calls operations of an accepted font at random. It returns whether all went well.
func exercise(c *core.Case, f *SF, depth int) bool {
	r := c.R
	n := 0
	if !c.Try("NumGlyphs", func() { n = int(f.NumGlyphs()); f.UnitsPerEm(); f.VerticalMetrics() }) {
		return false
	}
	glyphs := []int{n - 1, n, n + 1, 0xFFFF, r.Intn(0x10000), 0x7FFF, 0x8000}
	if n <= 60 {
		for g := 0; g < n; g++ {
			glyphs = append(glyphs, g)
		}
	} else {
		for k := 0; k < 60; k++ {
			glyphs = append(glyphs, r.Intn(n))
		}
	}
	r.Shuffle(len(glyphs), func(i, j int) { glyphs[i], glyphs[j] = glyphs[j], glyphs[i] })
	runes := []rune{0, -1, 0x10FFFF, 0x110000, 0xFFFF, 0x10000, 0x7FFFFFFF, -0x80000000, ' ', 'A', 'x', 0xFFFE, 0xD800}
	for k := 0; k < 60; k++ {
		runes = append(runes, rune(r.Intn(1<<uint(1+r.Intn(21)))))
	}
	randList := func() []uint16 {
		if r.Intn(20) == 0 {
			return nil
		}
		var l []uint16
		for k := r.Intn(20); k >= 0; k-- {
			g := glyphs[r.Intn(len(glyphs))]
			if r.Intn(4) > 0 && n > 0 {
				g = r.Intn(n)
			}
			l = append(l, uint16(g))
		}
		if r.Intn(10) == 0 {
			for g := 0; g < n && g < 3000; g++ {
				l = append(l, uint16(g))
			}
		}
		return l
	}
	var ops []func() bool
	ops = append(ops, func() bool {
		for _, g := range glyphs {
			if !drawGlyph(c, f, uint16(g)) {
				return false
			}
		}
		return true
	}, func() bool {
		return c.Try("queries", func() {
			for _, g := range glyphs {
				u := uint16(g)
				f.GlyphBounds(u)
				f.GlyphAdvance(u)
				f.GlyphVerticalAdvance(u)
				f.FindGlyphName(f.GlyphName(u))
				f.Kerning(u, uint16(glyphs[r.Intn(len(glyphs))]))
			}
			for _, s := range []string{"", ".notdef", "A", "\x00", strings.Repeat("x", 300)} {
				f.FindGlyphName(s)
			}
		})
	}, func() bool {
		return c.Try("lookups", func() {
			for _, x := range runes {
				f.GlyphIndex(x)
			}
			for _, g := range glyphs {
				f.GlyphToUnicode(uint16(g))
			}
		})
	}, func() bool {
		return c.Try("tables", func() {
			for _, g := range glyphs {
				u := uint16(g)
				if f.Glyf != nil {
					f.Glyf.Get(u)
					f.Glyf.IsComposite(u)
					f.Glyf.Dependencies(u)
					if x, err := f.Glyf.Contour(u); err == nil && r.Intn(10) == 0 {
						_ = x.String()
					}
				}
				if f.Loca != nil {
					f.Loca.Get(u)
				}
				if f.Hmtx != nil {
					f.Hmtx.LeftSideBearing(u)
					f.Hmtx.Advance(u)
				}
				if f.Vmtx != nil {
					f.Vmtx.TopSideBearing(u)
					f.Vmtx.Advance(u)
				}
				if f.CFF != nil {
					f.CFF.GlyphName(u)
					f.CFF.PrivateDICT(u)
				}
				if f.Kern != nil {
					f.Kern.Get(u, uint16(glyphs[0]))
				}
				if f.Post != nil {
					f.Post.Get(u)
				}
			}
			if f.Name != nil {
				for k := 0; k < 30; k++ {
					for _, x := range f.Name.Get(font.NameID(k)) {
						_ = x.String()
					}
				}
				for _, x := range f.Name.NameRecord {
					_ = x.String()
				}
				for _, x := range f.Name.LangTag {
					_ = x.String()
				}
			}
			if f.CFF != nil {
				f.CFF.Version()
				f.CFF.TopDICT()
			}
		})
	}, func() bool {
		var b []byte
		if !c.Try("Write", func() { b = f.Write() }) {
			return false
		}
		c.Count("written", 1)
		return c.Try("ParseSFNT", func() { font.ParseSFNT(b, 0) })
	}, func() bool {
		var b []byte
		var err error
		if !c.Try("WriteWOFF2", func() { b, err = f.WriteWOFF2() }) {
			return false
		}
		if err != nil {
			return true
		}
		c.Count("WOFF2 written", 1)
		return c.Try("ParseWOFF2", func() { font.ParseWOFF2(b) })
	}, func() bool {
		names := []string{}
		for k := r.Intn(n + 3); k > 0; k-- {
			names = append(names, []string{"A", ".notdef", "x", "", "space", strings.Repeat("n", r.Intn(300)), fmt.Sprint("g", k)}[r.Intn(7)])
		}
		if r.Intn(6) == 0 {
			names = nil
		}
		return c.Try("SetGlyphNames", func() { f.SetGlyphNames(names) })
	})
	subset := func() bool {
		opt := font.SubsetOptions{}
		switch r.Intn(7) {
		case 0:
			opt.Tables = font.KeepAllTables
		case 1:
			opt.Tables = font.KeepMinTables
		case 2:
			opt.Tables = font.KeepPDFTables
		case 3:
			opt.Tables = []string{[]string{"cmap", "glyf", "zzzz", "kern", "", "CFF ", "head"}[r.Intn(7)]}
		case 4:
			opt.Tables = []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "post", "glyf", "loca", "CFF ", "kern", "OS/2", "vhea", "vmtx"}
		case 5:
			opt.Tables = []string{}
		}
		var s *SF
		var err error
		l := randList()
		if !c.Try("Subset", func() { s, err = f.Subset(l, opt) }) {
			return false
		}
		if (err == nil) != (s != nil) {
			c.Fail("Subset result", "Subset returned %v and %v", s != nil, err)
		}
		if err != nil {
			c.Count("subset errors", 1)
			return true
		}
		c.Count("subsets", 1)
		if depth > 0 {
			return exercise(c, s, depth-1)
		}
		return true
	}
	merge := func() bool {
		var g *SF
		var err error
		in := hostileFont(c)
		if in == nil || !c.Try("ParseSFNT", func() { g, err = font.ParseSFNT(in.b, 0) }) {
			return false
		}
		c.Attach("merged.bin", in.b)
		if err != nil || r.Intn(10) == 0 {
			g = f
		}
		if r.Intn(4) == 0 {
			f, g = g, f
		}
		if !c.Try("Merge", func() { err = f.Merge(g, font.MergeOptions{RearrangeCmap: r.Intn(2) == 0}) }) {
			return false
		}
		if err != nil {
			c.Count("merge errors", 1)
		} else {
			c.Count("merges", 1)
		}
		if depth > 0 {
			return exercise(c, f, depth-1)
		}
		return true
	}
	ops = append(ops, subset, subset, merge)
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	k := len(ops)
	if depth == 0 {
		k = 4
	}
	for _, op := range ops[:k] {
		if !op() || c.Failed() {
			return false
		}
	}
	return true
}

func runC02(c *core.Case) {
	for k := 0; k < 3 && !c.Failed(); k++ {
		var f *SF
		var err error
		for try := 0; try < 10; try++ {
			in := hostileFont(c)
			if in == nil {
				return
			}
			c.Attach("input.bin", in.b)
			embedded := c.R.Intn(5) == 0
			name := "ParseSFNT"
			if !c.Try("parsing", func() {
				if embedded {
					name = "ParseEmbeddedSFNT"
					b := in.b
					if rf, err := ref.Parse(b, 0); err == nil && c.R.Intn(3) > 0 { // few tables
						t := map[string][]byte{}
						for tag, x := range rf.Tables {
							if c.R.Intn(2) == 0 || strings.Contains("glyf head hhea hmtx loca maxp CFF cmap", strings.TrimSpace(tag)) && c.R.Intn(8) > 0 {
								t[tag] = x
							}
						}
						b = synth.Assemble(c.R, rf.Version, t)
						c.Attach("input.bin", b)
					}
					f, err = font.ParseEmbeddedSFNT(b, 0)
				} else {
					f, err = font.ParseSFNT(in.b, 0)
				}
			}) {
				return
			}
			if err == nil {
				if embedded {
					c.Count("embedded fonts", 1)
				}
				if in.desc == "damaged" {
					c.Count("accepted damaged fonts", 1)
				}
				if strings.HasPrefix(in.desc, "attack") {
					c.Count("structured attacks", 1)
				}
				c.FP(name, in.b)
				break
			}
			f = nil
		}
		if f == nil {
			continue
		}
		exercise(c, f, 2)
	}
}

////////////////////////////////////////////////////////////////
// C03

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

var bombOnce sync.Once
var bombZlib, bombBrotli []byte

const bombSize = 160 << 20

// bombs are streams that hold bombSize zeros.
func bombs() ([]byte, []byte) {
	bombOnce.Do(func() {
		zero := make([]byte, 1<<20)
		var z, b bytes.Buffer
		zw := zlib.NewWriter(&z)
		bw := brotli.NewWriterLevel(&b, 1)
		for i := 0; i < bombSize>>20; i++ {
			zw.Write(zero)
			bw.Write(zero)
		}
		zw.Close()
		bw.Close()
		bombZlib, bombBrotli = z.Bytes(), b.Bytes()
	})
	return bombZlib, bombBrotli
}

// declared is a size that a file may claim.
func declared(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0:
		return bombSize
	case 1:
		return 0xFFFFFFFF - r.Intn(70000)
	case 2:
		return 0x7FFFFFFF - r.Intn(3)
	case 3:
		return int(font.MaxMemory) + r.Intn(200) - 100
	case 4:
		return 1 << uint(r.Intn(32))
	}
	return r.Intn(1 << 28)
}

func costly(c *core.Case) *input {
	r := c.R
	z, br := bombs()
	switch r.Intn(9) {
	case 0, 1: // bomb in WOFF
		f := smallFont(c)
		if f == nil {
			return nil
		}
		tags := tagsOf(f.Tables)
		w := &synth.W{}
		w.Str("wOFF")
		w.Str(f.Version)
		w.U32(0)
		w.U16(len(tags))
		w.U16(0)
		total := []int{0, declared(r), 12 + 16*len(tags)}[r.Intn(3)]
		w.U32(total)
		w.U32(0)
		for k := 0; k < 5; k++ {
			w.U32(0)
		}
		at := w.Len() + 20*len(tags)
		body := &synth.W{}
		which := r.Intn(len(tags))
		sum := 12 + 16*len(tags)
		for i, t := range tags {
			d := f.Tables[t]
			n := len(d)
			if i == which || r.Intn(6) == 0 {
				d, n = z, declared(r)
			}
			w.Str(t)
			w.U32(at + body.Len())
			w.U32(len(d))
			w.U32(n)
			w.U32(0)
			sum += (n + 3) &^ 3
			body.Bytes(d)
			body.Pad(4)
		}
		w.Bytes(body.B)
		w.Set32(8, w.Len())
		if r.Intn(2) == 0 {
			w.Set32(16, sum)
		}
		return &input{"WOFF", "bomb", w.B}
	case 2, 3: // bomb in WOFF2
		f := smallFont(c)
		if f == nil {
			return nil
		}
		ts, _ := wrap.Tables2(r, f)
		for k := 1 + r.Intn(2); k > 0; k-- {
			t := &ts[r.Intn(len(ts))]
			if t.Len >= 0 && r.Intn(3) > 0 {
				t.Len = declared(r) & 0x7FFFFFFF
			}
			if r.Intn(3) > 0 {
				t.Orig = declared(r) & 0x7FFFFFFF
			}
		}
		b := wrap.Pack2(r, f.Version, ts)
		// header: signature, flavor, length, tables, reserved, total size, compressed size
		o := binary.BigEndian.Uint32(b[20:])
		if int(o) <= len(b) {
			i := bytes.LastIndex(b, wrapStream(b))
			if i > 0 {
				b = append(append([]byte{}, b[:i]...), br...)
				binary.BigEndian.PutUint32(b[20:], uint32(len(br)))
				for len(b)%4 != 0 {
					b = append(b, 0)
				}
				binary.BigEndian.PutUint32(b[8:], uint32(len(b)))
				if r.Intn(2) == 0 {
					binary.BigEndian.PutUint32(b[16:], uint32(declared(r)))
				}
			}
		}
		return &input{"WOFF2", "bomb", b}
	case 4: // sizes in WOFF and WOFF2 without anything behind them
		if in := hostile(c); in != nil {
			for k := 0; k < 40 && in.kind != "WOFF" && in.kind != "WOFF2" && in.kind != "EOT" && in.kind != "AFM"; k++ {
				if in = hostile(c); in == nil {
					return nil
				}
			}
			b := append([]byte{}, in.b...)
			for k := 1 + r.Intn(4); k > 0 && len(b) > 8; k-- {
				p := 4 * r.Intn(min(len(b)/4, 60))
				binary.BigEndian.PutUint32(b[p:], uint32(declared(r)))
			}
			return &input{in.kind, "oversized", b}
		}
	case 5: // a WOFF2 file that declares many glyphs and holds none
		f := smallFont(c)
		if f == nil {
			return nil
		}
		ts, _ := wrap.Tables2(r, f)
		for i := range ts {
			if d := ts[i].Data; ts[i].Tag == "glyf" && len(d) > 36 && ts[i].Len >= 0 {
				d = append([]byte{}, d...)
				n := 1 << uint(r.Intn(16))
				binary.BigEndian.PutUint16(d[4:], uint16(n))
				binary.BigEndian.PutUint16(d[6:], uint16(r.Intn(2)))
				if r.Intn(2) == 0 { // empty glyphs
					d = d[:36]
					for o := 8; o < 36; o += 4 {
						binary.BigEndian.PutUint32(d[o:], 0)
					}
					binary.BigEndian.PutUint32(d[8:], uint32(2*n))
					binary.BigEndian.PutUint32(d[28:], uint32((n+31)/32*4))
					d = append(d, make([]byte, 2*n+(n+31)/32*4)...)
				}
				ts[i].Data, ts[i].Len = d, len(d)
				ts[i].Orig = declared(r) & 0x7FFFFFFF
			}
			if ts[i].Tag == "loca" && r.Intn(2) == 0 {
				ts[i].Orig = declared(r) & 0x7FFFFFFF
			}
			if ts[i].Tag == "maxp" && len(ts[i].Data) > 6 && r.Intn(2) == 0 {
				ts[i].Data = append([]byte{}, ts[i].Data...)
				binary.BigEndian.PutUint16(ts[i].Data[4:], 0xFFFF)
			}
		}
		return &input{"WOFF2", "oversized", wrap.Pack2(r, f.Version, ts)}
	case 6: // AFM
		w := &bytes.Buffer{}
		fmt.Fprintf(w, "StartFontMetrics 4.1\nFontName A\n")
		switch r.Intn(4) {
		case 0:
			fmt.Fprintf(w, "StartCharMetrics %d\nC 65 ; WX 500 ; N A ;\nEndCharMetrics\n", declared(r))
		case 1:
			fmt.Fprintf(w, "StartCharMetrics 1\nC 65 ; WX 500 ; N A ;\nEndCharMetrics\nStartKernData\nStartKernPairs %d\nKPX A A 1\nEndKernPairs\nEndKernData\n", declared(r))
		case 2:
			fmt.Fprintf(w, "StartCharMetrics 1\nC 65 ; WX 500 ; N A ; B %s\nEndCharMetrics\n", strings.Repeat("1 ", r.Intn(40000)))
		case 3:
			fmt.Fprintf(w, "Comment %s\n%s", strings.Repeat("x", r.Intn(200000)), strings.Repeat("Comment\n", r.Intn(20000)))
		}
		fmt.Fprintf(w, "EndFontMetrics\n")
		return &input{"AFM", "oversized", w.Bytes()}
	case 7, 8:
		for {
			d, b := mutate.Attack(r, true)
			if strings.Contains(d, "share") || strings.Contains(d, "overlap") || strings.Contains(d, "many") || strings.Contains(d, "large") || r.Intn(8) == 0 {
				return &input{"SFNT", "shared", b}
			}
		}
	}
	return hostile(c)
}

// wrapStream finds the compressed stream of an intact WOFF2 file, which is the last thing before the extensions.
func wrapStream(b []byte) []byte {
	n := int(binary.BigEndian.Uint16(b[12:]))
	p := 48
	base := func() int {
		v := 0
		for k := 0; k < 5 && p < len(b); k++ {
			x := b[p]
			p++
			v = v<<7 | int(x&0x7F)
			if x&0x80 == 0 {
				break
			}
		}
		return v
	}
	for i := 0; i < n && p < len(b); i++ {
		flags := b[p]
		p++
		tag := ""
		if flags&0x3F == 0x3F && p+4 <= len(b) {
			tag = string(b[p : p+4])
			p += 4
		} else if flags&0x3F == 10 {
			tag = "glyf"
		} else if flags&0x3F == 11 {
			tag = "loca"
		}
		base()
		if transformed := flags>>6 != 0; (tag == "glyf" || tag == "loca") != transformed {
			base()
		}
	}
	size := int(binary.BigEndian.Uint32(b[20:]))
	if p+size > len(b) || size == 0 {
		return []byte("no stream")
	}
	return b[p : p+size]
}

func runC03(c *core.Case) {
	defer func(v uint32) { font.MaxMemory = v }(font.MaxMemory)
	for k := 0; k < 4 && !c.Failed(); k++ {
		font.MaxMemory = []uint32{64 << 10, 1 << 20, 4 << 20, 30 << 20}[c.R.Intn(4)]
		in := costly(c)
		if in == nil {
			return
		}
		c.Attach("input.bin", in.b)
		c.FP(in.b)
		switch in.desc {
		case "bomb":
			c.Count("bombs", 1)
		case "oversized":
			c.Count("oversized declarations", 1)
		case "shared":
			c.Count("shared structures", 1)
		}
		// the window of a brotli stream is at most 16 MB
		bound := 4<<20 + 100*uint64(len(in.b)) + 6*uint64(font.MaxMemory)
		if in.kind == "WOFF2" || len(in.b) > 3 && string(in.b[:4]) == "wOF2" {
			bound += 36 << 20
		}
		f := newCanary(in.b)
		in.b = f.Bytes()
		bombed := false
		before := c.Observed("rejected")
		parsers(c, in, func(name string, f func()) {
			start := allocated()
			c.Try(name, f)
			n := allocated() - start
			c.Count("parses measured", 1)
			c.Count("MB allocated", int(n>>20))
			if n > bound {
				c.Fail("memory:"+name, "%s of %s (%s, %d bytes) allocated %d bytes with a limit of %d", name, in.kind, in.desc, len(in.b), n, font.MaxMemory)
			}
			if permille := int(1000 * n / bound); permille > 500 {
				c.Count("parses above half the bound", 1)
			}
			bombed = true
		})
		if bombed && in.desc == "bomb" && c.Observed("rejected") > before {
			c.Count("bombs refused", 1)
		}
	}
}

////////////////////////////////////////////////////////////////
// C04

// readOnly is memory that traps when it is written.
type readOnly struct {
	maps [][]byte
}

func (m *readOnly) alloc(n int) []byte {
	size := (n + 64 + 4095) &^ 4095
	b, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	m.maps = append(m.maps, b)
	return b
}

// bytes copies b; the result has spare capacity.
func (m *readOnly) bytes(b []byte) []byte {
	p := m.alloc(len(b))
	copy(p, b)
	syscall.Mprotect(p, syscall.PROT_READ)
	return p[:len(b):len(p)]
}

func (m *readOnly) uint16s(l []uint16) []uint16 {
	p := m.alloc(2 * len(l))
	u := unsafe.Slice((*uint16)(unsafe.Pointer(&p[0])), len(p)/2)
	copy(u, l)
	syscall.Mprotect(p, syscall.PROT_READ)
	return u[:len(l)]
}

// strings makes a list of strings; their text lies in the same memory, which the collector does not look into.
func (m *readOnly) strings(l []string) []string {
	n := 0
	for _, s := range l {
		n += len(s)
	}
	p := m.alloc(16*len(l) + n + 16*8)
	u := unsafe.Slice((*string)(unsafe.Pointer(&p[0])), len(l)+8)
	o := 16 * (len(l) + 8)
	for i, s := range l {
		copy(p[o:], s)
		if len(s) > 0 {
			u[i] = unsafe.String(&p[o], len(s))
		}
		o += len(s)
	}
	syscall.Mprotect(p, syscall.PROT_READ)
	return u[:len(l)]
}

func (m *readOnly) free() {
	for _, b := range m.maps {
		syscall.Munmap(b)
	}
	m.maps = nil
}

// stock is an input of a history and what it was when it was opened first.
type stock struct {
	in     *input
	index  int
	b      []byte // read-only
	failed map[string]bool
	q      *Questions
	snap   *Snap
}

func (s *stock) ask(f *SF, r *rand.Rand) *Snap {
	if s.q == nil {
		q := Questions{Write: true, Tables: true, Runes: []rune{0, 'A', 'x', 0xFFFF, 0x10000}}
		n := int(f.NumGlyphs())
		for k := 0; k < 12; k++ {
			q.Glyphs = append(q.Glyphs, r.Intn(n+2))
		}
		for k := 0; k < 60; k++ {
			q.Runes = append(q.Runes, rune(r.Intn(1<<uint(1+r.Intn(21)))))
		}
		for k := 0; k < 20; k++ {
			q.Pairs = append(q.Pairs, [2]int{r.Intn(n + 1), r.Intn(n + 1)})
		}
		q.Names = []string{"A", ".notdef", ""}
		s.q = &q
	}
	return take(f, *s.q)
}

func runC04(c *core.Case) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	r := c.R
	ro := &readOnly{}
	defer ro.free()
	lists := [3][]string{font.KeepAllTables, font.KeepMinTables, font.KeepPDFTables}
	var stocks []*stock
	for k := 1 + r.Intn(3); k > 0; k-- {
		var in *input
		switch r.Intn(3) {
		case 0:
			in = hostile(c)
		default:
			f := smallFont(c)
			if f == nil {
				return
			}
			switch r.Intn(6) {
			case 0:
				b, _ := wrap.WOFF(r, f)
				in = &input{"WOFF", "intact", b}
			case 1:
				b, _ := wrap.WOFF2(r, f)
				in = &input{"WOFF2", "intact", b}
			case 2:
				in = &input{"EOT", "intact", wrap.EOT(r, f.Data)}
			case 3:
				in = &input{"collection", "intact", synth.AssembleTTC(r, []synth.Member{{Version: f.Version, Tables: f.Tables}}, r.Intn(2) == 0)}
			default:
				in = &input{"SFNT", "intact", f.Data}
			}
		}
		if in == nil {
			return
		}
		c.Attach(fmt.Sprintf("input%d.bin", len(stocks)), in.b)
		c.FP(in.b)
		if in.kind != "SFNT" {
			c.Count("containers", 1)
		}
		if in.desc != "intact" {
			c.Count("damaged inputs", 1)
		}
		s := &stock{in: in, failed: map[string]bool{}}
		s.b = ro.bytes(in.b)
		stocks = append(stocks, s)
		c.Count("read-only inputs", 1)
	}
	open := func(s *stock, embedded bool) *SF {
		var b []byte
		var err error
		var f *SF
		if !c.Try("ToSFNT", func() { b, err = font.ToSFNT(s.b) }) || err != nil {
			return nil
		}
		if !c.Try("parse", func() {
			if embedded {
				f, err = font.ParseEmbeddedSFNT(b, s.index)
			} else {
				f, err = font.ParseSFNT(b, s.index)
			}
		}) {
			return nil
		}
		was, seen := s.failed[fmt.Sprint(embedded)]
		if seen && was != (err != nil) {
			c.Fail("reopened", "%s (%s) is opened and refused in turn: %v", s.in.kind, s.in.desc, err)
		}
		s.failed[fmt.Sprint(embedded)] = err != nil
		if err != nil {
			return nil
		}
		return f
	}
	again := func(s *stock) {
		f := open(s, false)
		if f == nil {
			return
		}
		var snap *Snap
		if !c.Try("queries", func() { snap = s.ask(f, r) }) {
			return
		}
		if s.snap == nil {
			s.snap = snap
			return
		}
		c.Count("reopened", 1)
		if d := s.snap.Diff(snap); d != "" {
			c.Fail("reopened", "%s (%s) opened again: %s", s.in.kind, s.in.desc, d)
		}
	}
	var fonts []*SF
	for _, s := range stocks {
		again(s)
		if f := open(s, r.Intn(6) == 0); f != nil && !c.Failed() {
			fonts = append(fonts, f)
		}
		for k := r.Intn(3); k > 0; k-- {
			parsers(c, &input{s.in.kind, s.in.desc, s.b}, func(name string, f func()) { c.Try(name, f) })
		}
	}
	for k := 4 + r.Intn(10); k > 0 && len(fonts) > 0 && !c.Failed(); k-- {
		i := r.Intn(len(fonts))
		f := fonts[i]
		n := 0
		if !c.Try("NumGlyphs", func() { n = int(f.NumGlyphs()) }) {
			break
		}
		switch r.Intn(8) {
		case 0, 1, 2:
			var l []uint16
			for m := r.Intn(20); m >= 0; m-- {
				l = append(l, uint16(r.Intn(n+1)))
			}
			if r.Intn(3) > 0 && n > 0 {
				l[0] = 0
				for j := range l {
					l[j] %= uint16(min(n, 65535))
				}
			}
			var opt []string
			switch r.Intn(5) {
			case 0:
				opt = font.KeepAllTables
			case 1:
				opt = font.KeepMinTables
			case 2:
				opt = font.KeepPDFTables
			case 3:
				opt = []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "post", "glyf", "loca", "CFF ", "kern", "OS/2", "vhea", "vmtx"}
				r.Shuffle(len(opt), func(i, j int) { opt[i], opt[j] = opt[j], opt[i] })
				opt = opt[:r.Intn(len(opt)+1)]
			case 4:
				opt = [][]string{{"all"}, {"min"}, {"pdf"}}[r.Intn(3)]
			}
			if r.Intn(5) > 0 {
				opt = ro.strings(opt)
			}
			l = ro.uint16s(l)
			var s *SF
			var err error
			c.Try("Subset", func() { s, err = f.Subset(l, font.SubsetOptions{Tables: opt}) })
			c.Count("read-only arguments", 2)
			if err == nil && s != nil {
				c.Count("subsets", 1)
				fonts = append(fonts, s)
			}
		case 3, 4:
			g := fonts[r.Intn(len(fonts))]
			if r.Intn(3) > 0 {
				if o := open(stocks[r.Intn(len(stocks))], false); o != nil {
					g = o
				}
			}
			var err error
			c.Try("Merge", func() { err = f.Merge(g, font.MergeOptions{RearrangeCmap: r.Intn(2) == 0}) })
			if err == nil {
				c.Count("merges", 1)
			}
		case 5:
			var names []string
			for m := r.Intn(n + 2); m > 0 && len(names) < 3000; m-- {
				names = append(names, fmt.Sprint("n", m))
			}
			names = ro.strings(names)
			c.Try("SetGlyphNames", func() { f.SetGlyphNames(names) })
			c.Count("read-only arguments", 1)
		case 6:
			c.Try("Write", func() {
				b := f.Write()
				for i := range b { // belongs to the caller
					b[i] = 0xAA
				}
			})
		case 7:
			c.Try("WriteWOFF2", func() {
				b, err := f.WriteWOFF2()
				for i := range b {
					b[i] = 0xAA
				}
				_ = err
			})
		}
		if r.Intn(3) == 0 && !c.Failed() {
			c.Try("queries", func() {
				for k := 0; k < 10; k++ {
					g := uint16(r.Intn(n + 1))
					f.GlyphBounds(g)
					f.GlyphName(g)
					f.GlyphToUnicode(g)
					f.Kerning(g, uint16(r.Intn(n+1)))
					f.GlyphIndex(rune(r.Intn(0x3000)))
					f.FindGlyphName(f.GlyphName(g))
					p := &countPather{}
					f.GlyphPath(p, g, 0, 0, 0, 1, font.NoHinting)
				}
			})
		}
	}
	for _, s := range stocks {
		if !c.Failed() {
			again(s)
		}
		if !bytes.Equal(s.b, s.in.b) {
			c.Fail("input changed", "%s (%s): the bytes are not what they were", s.in.kind, s.in.desc)
		}
	}
	for i, l := range [3][]string{font.KeepAllTables, font.KeepMinTables, font.KeepPDFTables} {
		if len(l) != 1 || l[0] != []string{"all", "min", "pdf"}[i] || &l[0] != &lists[i][0] {
			c.Fail("options changed", "the list of tables is now %q", l)
		}
	}
	c.Count("histories", 1)
}
