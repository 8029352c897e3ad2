package checks

import (
	"fmt"
	"math/rand"

	"github.com/tdewolff/font"

	"verif/core"
	"verif/mutate"
	"verif/synth"
)

// Fonts whose tables have a size around the largest one that a short format holds.

// brimCmap maps runes so that a format 4 subtable takes about the largest number of bytes that it can state. The glyphs
// of consecutive runes are never consecutive, whatever their numbers.
func brimCmap(r *rand.Rand, n, less int) map[int]int {
	m := map[int]int{}
	if n < 2 {
		return m
	}
	left := 65536 + 2*(r.Intn(9)-4) - 16 - 8 - less // header and last segment
	at := 1
	mean := []int{1, 1, 2, 20, 500}[r.Intn(5)]
	run := func(k int) {
		g := 1 + r.Intn(n-1)
		for i := 0; i < k; i++ {
			m[at] = g
			at++
		}
		at++ // a gap
	}
	for left >= 8 {
		k := 1
		if mean > 1 {
			k += r.Intn(2 * mean)
		}
		for k > 1 && 8+2*k > left || at+k > 0xFFF0 && k > 1 {
			k = 1
		}
		if left < 40 && left >= 12 && left%8 != 0 { // take the rest exactly
			k = (left%8 + 8) / 2
			if k < 2 || 8+2*k > left {
				k = 1
			}
		}
		if at+k > 0xFFF0 {
			break
		}
		run(k)
		if left -= 8; k > 1 {
			left -= 2 * k
		}
	}
	return m
}

// brimGlyphs makes glyphs of so many bytes altogether. Glyph 0 is empty.
func brimGlyphs(r *rand.Rand, n, total int) (glyphs [][]byte, longest int) {
	glyphs = make([][]byte, n)
	total -= 24 * (n - 1)
	for i := 1; i < n; i++ {
		k := total
		if i < n-1 {
			k = r.Intn(2*total/(n-i)+1) &^ 3
		}
		k = min(k, 65532, total)
		if k < 0 {
			k = 0
		}
		total -= k
		b := mutate.Square()
		g := append([]byte{}, b[:12]...)
		g = append(g, byte(k>>8), byte(k))
		for j := 0; j < k; j++ {
			g = append(g, byte(r.Intn(256)))
		}
		glyphs[i] = append(g, b[14:]...)
		longest = max(longest, k)
	}
	return glyphs, longest
}

// brimFont makes a font of which the character map in format 4, the glyph descriptions, or both are about as large as the
// short formats allow, less some bytes.
func brimFont(r *rand.Rand, n, lessCmap, lessGlyf int, cmap bool, shift int) []byte {
	t := mutate.Simple(n, false)
	total := []int{65536, 131072}[r.Intn(2)] + 4*(r.Intn(5)-2) - lessGlyf
	if total < 24*n {
		total = 24 * n
	}
	glyphs, longest := brimGlyphs(r, n, total)
	mutate.TrueType(t, glyphs)
	put16 := func(b []byte, at, v int) { b[at], b[at+1] = byte(v>>8), byte(v) }
	put16(t["maxp"], 26, longest)
	m := map[int]int{65 + shift: 1}
	if cmap {
		m = brimCmap(r, n, lessCmap)
	}
	t["cmap"] = mutate.Cmap12(m)
	t["OS/2"] = make([]byte, 96)
	t["OS/2"][1] = 4
	return synth.Assemble(r, "\x00\x01\x00\x00", t)
}

// runBrim takes all of such a font as a subset, or merges two that are as large together.
func runBrim(c *core.Case, merge bool) {
	n := 3 + c.R.Intn(20)
	var b1, b2 []byte
	if !merge {
		b1 = brimFont(c.R, n, 0, 0, c.R.Intn(3) > 0, 0)
	} else {
		part := (c.R.Intn(60000) + 1000) &^ 3
		b1 = brimFont(c.R, n, 8, part, c.R.Intn(3) > 0, 0)
		n2 := 3 + c.R.Intn(20)
		t := mutate.Simple(n2, false)
		glyphs, longest := brimGlyphs(c.R, n2, max(part, 24*n2))
		mutate.TrueType(t, glyphs)
		t["maxp"][26], t["maxp"][27] = byte(longest>>8), byte(longest)
		t["cmap"] = mutate.Cmap12(map[int]int{0xFFF8: 1})
		b2 = synth.Assemble(c.R, "\x00\x01\x00\x00", t)
	}
	what := "font at the limits"
	c.Attach("input.bin", b1)
	f, rf := load(c, what, b1)
	if f == nil {
		return
	}
	m, err := model(rf)
	if err != nil {
		c.HarnessError("%s: %v", what, err)
		return
	}
	c.Try("derive", func() {
		if !merge {
			list := make([]int, len(m.G))
			for i := range list {
				list[i] = i
			}
			s, sm, _, wr, w := takeSubset(c, what, f, m, list, font.KeepAllTables)
			if sm == nil || c.Failed() {
				return
			}
			c.FP(w)
			brimCount(c, w, wr.Tables)
			validSFNT(c, what, w)
			validTables(c, what, wr, false)
			if !monModel(c, what+" subset", s, sm, wr) {
				return
			}
			if g, _, _ := reparse(c, what, s, false); g != nil {
				monModel(c, what+" subset re-read", g, sm, nil)
			}
			return
		}
		c.Attach("second.bin", b2)
		f2, rf2 := load(c, what, b2)
		if f2 == nil {
			return
		}
		m2, err := model(rf2)
		if err != nil {
			c.HarnessError("%s: %v", what, err)
			return
		}
		want, why := m.merge(m2, false)
		if why != "" {
			c.HarnessError("%s: %s", what, why)
			return
		}
		if err := f.Merge(f2, font.MergeOptions{}); err != nil {
			c.Fail("Merge:"+errKey(err), "%s: %v", what, err)
			return
		}
		g, wr, w := reparse(c, what+" merged", f, false)
		if g == nil {
			return
		}
		c.FP(w)
		brimCount(c, w, wr.Tables)
		monLength(c, what, f, w)
		validSFNT(c, what, w)
		validTables(c, what, wr, false)
		if monModel(c, what+" merged", f, want, wr) {
			monModel(c, what+" merged re-read", g, want, nil)
		}
	})
}

func brimCount(c *core.Case, w []byte, t map[string][]byte) {
	if b := t["cmap"]; len(b) > 22 {
		if f := int(b[20])<<8 | int(b[21]); f == 4 && len(b)-20 > 65500 {
			c.Count(fmt.Sprintf("large format %d", f), 1)
		} else if f == 12 {
			c.Count("past format 4", 1)
		}
	}
	c.Count(fmt.Sprintf("glyph data within %d of a limit", 16), b2i(near(len(t["glyf"]), 65536) || near(len(t["glyf"]), 131072)))
}

func near(a, b int) bool { return b-16 <= a && a <= b+16 }

// brimOutlines makes a font with glyphs of about 65536 points, or with outlines about as large as the short format of loca
// can hold.
func brimOutlines(c *core.Case) []byte {
	r := c.R
	n := 2 + r.Intn(5)
	t := mutate.Simple(n, false)
	if r.Intn(2) == 0 {
		total := []int{131070 + 2*(r.Intn(5)-2), 131072 + r.Intn(100000)}[r.Intn(2)]
		glyphs, longest := brimGlyphs(r, n, total)
		for _, g := range glyphs[1:] { // no description is shorter
			copy(g[len(g)-10:], []byte{0x37, 0x33, 0x35, 0x07, 100, 100, 100, 100, 100, 100})
		}
		mutate.TrueType(t, glyphs)
		t["maxp"][26], t["maxp"][27] = byte(longest>>8), byte(longest)
		if total <= 131070 && r.Intn(4) > 0 {
			t["head"][51] = 0
			loca, glyf := &synth.W{}, &synth.W{}
			for _, g := range glyphs {
				loca.U16(glyf.Len() / 2)
				glyf.Bytes(g)
				glyf.Pad(2)
			}
			loca.U16(glyf.Len() / 2)
			t["loca"], t["glyf"] = loca.B, glyf.B
		}
		return synth.Assemble(r, "\x00\x01\x00\x00", t)
	}
	glyphs := make([][]byte, n)
	for i := 1; i < n; i++ {
		glyphs[i] = mutate.Square()
		if i == 1 || r.Intn(4) == 0 {
			glyphs[i] = manyPoints(r, 65536-r.Intn(4))
		}
	}
	mutate.TrueType(t, glyphs)
	return synth.Assemble(r, "\x00\x01\x00\x00", t)
}

// manyPoints makes a glyph of so many points, of which most lie on the previous one.
func manyPoints(r *rand.Rand, n int) []byte {
	w := &synth.W{}
	k := 1 + r.Intn(3)
	w.U16(k)
	w.U16(0)
	w.U16(0)
	w.U16(10)
	w.U16(20)
	for i := 1; i < k; i++ {
		w.U16(i * (1 + r.Intn(n/4)))
	}
	if k == 3 { // increasing
		a := 1 + r.Intn(n/2)
		w.B = w.B[:len(w.B)-4]
		w.U16(a)
		w.U16(a + 1 + r.Intn(n-a-3))
	}
	w.U16(n - 1)
	w.U16(0)
	w.U8(0x01 | 0x02 | 0x10 | 0x04 | 0x20) // to (10,20)
	for left := n - 1; left > 0; {
		m := min(left, 256)
		w.U8(0x01 | 0x10 | 0x20 | 0x08)
		w.U8(m - 1)
		left -= m
	}
	w.U8(10)
	w.U8(20)
	b := w.B
	b[2], b[3], b[4], b[5] = 0, 10, 0, 20
	return b
}
