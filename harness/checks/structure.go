package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"

	"verif/core"
	"verif/ref"
	"verif/synth"
)

func sortStrings(s []string) { sort.Strings(s) }

// validSFNT checks the container of a written font: directory, alignment, overlap and checksums.
func validSFNT(c *core.Case, what string, b []byte, versions ...string) *ref.Font {
	bad := func(key, f string, a ...any) {
		c.Attach(what+".bin", b)
		c.Fail("SFNT "+key, "%s: %s", what, fmt.Sprintf(f, a...))
	}
	rf, err := ref.Parse(b, 0)
	if err != nil {
		bad("unreadable", "%v", err)
		return nil
	}
	n := len(rf.Dir)
	p, e := 1, 0
	for 2*p <= n {
		p, e = 2*p, e+1
	}
	if n > 0 && rf.Search != [3]int{16 * p, e, 16*n - 16*p} {
		bad("search", "searchRange, entrySelector, rangeShift are %v for %d tables, not %v", rf.Search, n, [3]int{16 * p, e, 16*n - 16*p})
	}
	wantVersion := "\x00\x01\x00\x00"
	if rf.Tables["CFF "] != nil || rf.Tables["CFF2"] != nil {
		wantVersion = "OTTO"
	}
	for _, v := range versions {
		if rf.Version == v && wantVersion != "OTTO" {
			wantVersion = v
		}
	}
	if rf.Version != wantVersion && (rf.Tables["glyf"] != nil || wantVersion == "OTTO") {
		bad("version", "version %q", rf.Version)
	}
	type span struct {
		lo, hi int
		tag    string
	}
	spans := []span{{0, 12 + 16*n, "directory"}}
	for i, d := range rf.Dir {
		if i > 0 && rf.Dir[i-1].Tag >= d.Tag {
			bad("order", "table %q follows %q", d.Tag, rf.Dir[i-1].Tag)
		}
		if d.Offset%4 != 0 {
			bad("alignment", "table %q at offset %d", d.Tag, d.Offset)
		}
		spans = append(spans, span{d.Offset, d.Offset + d.Length, d.Tag})
		t := append([]byte{}, rf.Tables[d.Tag]...)
		if d.Tag == "head" && len(t) >= 12 {
			copy(t[8:12], []byte{0, 0, 0, 0})
		}
		if s := ref.Checksum(t); s != d.Checksum {
			bad("checksum", "checksum of table %q is %08x, not %08x", d.Tag, d.Checksum, s)
		}
	}
	sort.SliceStable(spans, func(i, j int) bool { return spans[i].lo < spans[j].lo })
	for i := 1; i < len(spans); i++ {
		prev := spans[i-1]
		if spans[i].lo < prev.hi && spans[i].lo != spans[i].hi {
			bad("overlap", "table %q overlaps %q", spans[i].tag, prev.tag)
		}
		if spans[i].lo > prev.hi+3 {
			bad("gap", "%d unused bytes before table %q", spans[i].lo-prev.hi, spans[i].tag)
		}
		for k := prev.hi; k < spans[i].lo && k < len(b); k++ {
			if b[k] != 0 {
				bad("padding", "padding before %q is not zero", spans[i].tag)
			}
		}
	}
	if last := spans[len(spans)-1]; len(b) != (last.hi+3)&^3 {
		bad("length", "file of %d bytes, the last table ends at %d", len(b), last.hi)
	}
	if rf.Tables["head"] != nil && len(rf.Tables["head"]) >= 12 {
		if s := ref.Checksum(b); s != 0xB1B0AFBA {
			bad("file checksum", "checksum of the file is %08x", s)
		}
	}
	c.Count("directories validated", 1)
	return rf
}

// validTables checks that the tables of a font agree with each other. bounds tells whether the bounding values of
// head, hhea and maxp are to bound the glyphs, which they only do if those of the source did. src are the fonts of which
// tables may be taken over as they are.
func validTables(c *core.Case, what string, rf *ref.Font, bounds bool, src ...*ref.Font) {
	bad := func(key, f string, a ...any) {
		c.Attach(what+".bin", rf.Data)
		c.Fail("tables "+key, "%s: %s", what, fmt.Sprintf(f, a...))
	}
	T := rf.Tables
	n := rf.NumGlyphs()
	if T["maxp"] == nil || n == 0 {
		return
	}
	// metrics
	for _, m := range [][2]string{{"hhea", "hmtx"}, {"vhea", "vmtx"}} {
		h, t := T[m[0]], T[m[1]]
		if h == nil || t == nil {
			continue
		}
		if len(h) != 36 {
			bad(m[0], "%s has %d bytes", m[0], len(h))
			continue
		}
		k := ref.U16(h, 34)
		if k < 1 || k > n {
			bad(m[0], "%d metrics in %s for %d glyphs", k, m[0], n)
			continue
		}
		if len(t) != 4*k+2*(n-k) {
			bad(m[1], "%s has %d bytes for %d metrics and %d glyphs", m[1], len(t), k, n)
		}
	}
	// outlines
	var box [4]int
	any := false
	hasBox := make([]bool, n)
	boxes := make([][4]int, n)
	if T["glyf"] != nil && T["loca"] != nil && len(T["head"]) >= 54 {
		size := 2
		if f := ref.S16(T["head"], 50); f == 1 {
			size = 4
		} else if f != 0 {
			bad("head", "indexToLocFormat %d", f)
			return
		}
		loca := T["loca"]
		if len(loca) != size*(n+1) {
			bad("loca", "loca has %d bytes for %d glyphs in format %d", len(loca), n, size/4)
			return
		}
		at := func(i int) int {
			if size == 2 {
				return 2 * ref.U16(loca, 2*i)
			}
			return ref.U32(loca, 4*i)
		}
		for i := 0; i < n; i++ {
			if at(i) > at(i+1) || at(i+1) > len(T["glyf"]) {
				bad("loca", "glyph %d spans %d to %d of %d", i, at(i), at(i+1), len(T["glyf"]))
				return
			}
		}
		if at(n) != len(T["glyf"]) || at(0) != 0 {
			bad("loca", "loca covers %d to %d of %d bytes of glyf", at(0), at(n), len(T["glyf"]))
		}
		mx := T["maxp"]
		if len(mx) < 32 {
			bad("maxp", "maxp has %d bytes", len(mx))
			return
		}
		for g := 0; g < n; g++ {
			d, err := rf.Glyph(g)
			if err != nil {
				bad("glyf", "glyph %d: %v", g, err)
				return
			}
			for _, k := range d.Components {
				if k.Glyph >= n {
					bad("glyf", "glyph %d has component %d of %d glyphs", g, k.Glyph, n)
					return
				}
			}
			pts, _, err := rf.Flatten(g)
			if err != nil && err != ref.ErrPointMatch {
				bad("glyf", "glyph %d: %v", g, err)
				return
			}
			if len(pts) > 0 {
				boxes[g], hasBox[g] = d.BBox, true
				if !any {
					box, any = d.BBox, true
				}
				box = [4]int{min(box[0], d.BBox[0]), min(box[1], d.BBox[1]), max(box[2], d.BBox[2]), max(box[3], d.BBox[3])}
			}
			if !bounds || err != nil {
				continue
			}
			conts := 0
			for _, p := range pts {
				if p.End {
					conts++
				}
			}
			lim := func(name string, o, v int) {
				if ref.U16(mx, o) < v {
					bad("maxp", "%s is %d, glyph %d has %d", name, ref.U16(mx, o), g, v)
				}
			}
			if len(d.Components) > 0 {
				lim("maxCompositePoints", 10, len(pts))
				lim("maxCompositeContours", 12, conts)
				lim("maxComponentElements", 28, len(d.Components))
				lim("maxComponentDepth", 30, depth(rf, g, 0))
			} else {
				lim("maxPoints", 6, len(pts))
				lim("maxContours", 8, conts)
			}
			lim("maxSizeOfInstructions", 26, len(d.Instructions))
		}
		c.Count("glyphs validated", n)
	}
	if rf.CFF != nil {
		if len(rf.CFF.CharStrings) != n {
			bad("CFF", "%d charstrings for %d glyphs", len(rf.CFF.CharStrings), n)
			return
		}
		for g := 0; g < n; g++ {
			segs, _, err := rf.CFF.Outline(g)
			if err != nil {
				bad("CFF", "charstring of glyph %d: %v", g, err)
				return
			}
			if x0, y0, x1, y1, ok := ref.TightBox(segs); ok && !beyond(rf, g, segs) {
				b := [4]int{int(math.Ceil(x0)), int(math.Ceil(y0)), int(math.Floor(x1)), int(math.Floor(y1))} // inside the outline
				if !any {
					box, any = b, true
				}
				box = [4]int{min(box[0], b[0]), min(box[1], b[1]), max(box[2], b[2]), max(box[3], b[3])}
			}
		}
		c.Count("glyphs validated", n)
	}
	if h := T["head"]; bounds && any && len(h) >= 54 {
		hb := [4]int{ref.S16(h, 36), ref.S16(h, 38), ref.S16(h, 40), ref.S16(h, 42)}
		if hb[0] > box[0] || hb[1] > box[1] || hb[2] < box[2] || hb[3] < box[3] {
			bad("head", "the font bounding box %v does not enclose the glyphs %v", hb, box)
		}
	}
	if h := T["hhea"]; bounds && h != nil && T["hmtx"] != nil {
		for g := 0; g < n; g++ {
			adv, lsb := rf.HMetric(g)
			if adv > ref.U16(h, 10) {
				bad("hhea", "advanceWidthMax is %d, glyph %d has %d", ref.U16(h, 10), g, adv)
				break
			}
			if hasBox[g] {
				w := boxes[g][2] - boxes[g][0]
				if lsb < ref.S16(h, 12) || lsb+w > ref.S16(h, 16) && lsb+w <= 32767 || adv-lsb-w < ref.S16(h, 14) && adv-lsb-w >= -32768 {
					bad("hhea", "minLeftSideBearing %d, minRightSideBearing %d, xMaxExtent %d, glyph %d has %d, %d, %d", ref.S16(h, 12), ref.S16(h, 14), ref.S16(h, 16), g, lsb, adv-lsb-w, lsb+w)
					break
				}
			}
		}
	}
	// character map
	if t := T["cmap"]; t != nil {
		if err := cmapStructure(t, n); err != nil {
			bad("cmap", "%v", err)
			return
		}
		if _, err := rf.Cmap(); err != nil {
			bad("cmap", "%v", err)
			return
		}
		c.Count("cmaps validated", 1)
	}
	// names
	if t := T["post"]; len(t) >= 4 {
		switch v := ref.U32(t, 0); v {
		case 0x20000:
			if rf.CFF == nil {
				if _, err := rf.GlyphNames(); err != nil {
					bad("post", "%v", err)
				}
			}
		case 0x30000:
			if len(t) != 32 {
				bad("post", "version 3 with %d bytes", len(t))
			}
		case 0x10000:
		default:
			bad("post", "version %#x", v)
		}
	}
	if T["name"] != nil {
		if _, err := rf.Names(); err != nil {
			bad("name", "%v", err)
		}
	}
	if t := T["kern"]; t != nil {
		kept := false // the table of a source, which the library accepts when it is not sorted
		for _, f := range src {
			kept = kept || f != nil && bytes.Equal(t, f.Tables["kern"])
		}
		if err := kernStructure(t, n); err != nil && !kept {
			bad("kern", "%v", err)
		}
	}
}

func depth(rf *ref.Font, g, level int) int {
	d, err := rf.Glyph(g)
	if err != nil || len(d.Components) == 0 || level > 20 {
		return 0
	}
	m := 0
	for _, k := range d.Components {
		m = max(m, depth(rf, k.Glyph, level+1))
	}
	return m + 1
}

// cmapStructure checks what a decoder need not look at: sorted records and segments, search fields, glyph ranges.
func cmapStructure(t []byte, n int) error {
	if len(t) < 4 {
		return fmt.Errorf("%d bytes", len(t))
	}
	k := ref.U16(t, 2)
	if len(t) < 4+8*k {
		return fmt.Errorf("%d bytes for %d records", len(t), k)
	}
	prev := -1
	for i := 0; i < k; i++ {
		id := ref.U32(t, 4+8*i)
		if id <= prev {
			return fmt.Errorf("encoding records are not sorted")
		}
		prev = id
		o := ref.U32(t, 8+8*i)
		if o < 4+8*k || o+8 > len(t) {
			return fmt.Errorf("subtable at %d of %d", o, len(t))
		}
		s := t[o:]
		switch f := ref.U16(s, 0); f {
		case 4:
			l := ref.U16(s, 2)
			if l < 16 || l > len(s) {
				return fmt.Errorf("format 4 length %d of %d", l, len(s))
			}
			x2 := ref.U16(s, 6)
			sc := x2 / 2
			if x2%2 != 0 || sc == 0 || 16+8*sc > l {
				return fmt.Errorf("format 4 segCountX2 %d in %d bytes", x2, l)
			}
			p, e := 1, 0
			for 2*p <= sc {
				p, e = 2*p, e+1
			}
			if ref.U16(s, 8) != 2*p || ref.U16(s, 10) != e || ref.U16(s, 12) != x2-2*p {
				return fmt.Errorf("format 4 search fields %d %d %d for %d segments", ref.U16(s, 8), ref.U16(s, 10), ref.U16(s, 12), sc)
			}
			last := -1
			for j := 0; j < sc; j++ {
				end, start := ref.U16(s, 14+2*j), ref.U16(s, 16+x2+2*j)
				delta, ro := ref.U16(s, 16+2*x2+2*j), ref.U16(s, 16+3*x2+2*j)
				if start > end || start <= last {
					return fmt.Errorf("format 4 segment %d is %#x to %#x after %#x", j, start, end, last)
				}
				last = end
				for r := start; r <= end; r++ {
					g := (r + delta) & 0xFFFF
					if ro != 0 && ro != 0xFFFF {
						a := 16 + 3*x2 + 2*j + ro + 2*(r-start)
						if a+2 > l {
							return fmt.Errorf("format 4 segment %d points outside", j)
						}
						if g = ref.U16(s, a); g != 0 {
							g = (g + delta) & 0xFFFF
						}
					}
					if g >= n {
						return fmt.Errorf("code point %#x maps to glyph %d of %d", r, g, n)
					}
				}
			}
			if last != 0xFFFF {
				return fmt.Errorf("format 4 ends at %#x", last)
			}
		case 12:
			if len(s) < 16 {
				return fmt.Errorf("format 12 truncated")
			}
			l, ng := ref.U32(s, 4), ref.U32(s, 12)
			if l != 16+12*ng || l > len(s) {
				return fmt.Errorf("format 12 length %d for %d groups in %d bytes", l, ng, len(s))
			}
			last := -1
			for j := 0; j < ng; j++ {
				a, b, g := ref.U32(s, 16+12*j), ref.U32(s, 20+12*j), ref.U32(s, 24+12*j)
				if a <= last || b < a || b > 0x10FFFF {
					return fmt.Errorf("format 12 group %d is %#x to %#x after %#x", j, a, b, last)
				}
				if g+b-a >= n {
					return fmt.Errorf("format 12 group %d maps to glyph %d of %d", j, g+b-a, n)
				}
				last = b
			}
		}
	}
	return nil
}

func kernStructure(t []byte, n int) error {
	if len(t) < 4 || ref.U16(t, 0) != 0 {
		return nil // Apple tables are only passed through
	}
	o := 4
	for i := 0; i < ref.U16(t, 2); i++ {
		if len(t) < o+14 {
			return fmt.Errorf("subtable %d truncated", i)
		}
		l, np := ref.U16(t, o+2), ref.U16(t, o+6)
		if t[o+4] != 0 {
			o += l
			continue
		}
		if want := 14 + 6*np; l != want && l != want&0xFFFF || len(t) < o+want {
			return fmt.Errorf("subtable %d has length %d for %d pairs in %d bytes", i, l, np, len(t)-o)
		}
		p, e := 1, 0
		for 2*p <= np {
			p, e = 2*p, e+1
		}
		if np > 0 && (ref.U16(t, o+8) != (6*p)&0xFFFF || ref.U16(t, o+10) != e || ref.U16(t, o+12) != (6*(np-p))&0xFFFF) {
			return fmt.Errorf("subtable %d search fields %d %d %d for %d pairs", i, ref.U16(t, o+8), ref.U16(t, o+10), ref.U16(t, o+12), np)
		}
		prev := -1
		for j := 0; j < np; j++ {
			k := ref.U32(t, o+14+6*j)
			if k <= prev {
				return fmt.Errorf("subtable %d is not sorted", i)
			}
			prev = k
			if k>>16 >= n || k&0xFFFF >= n {
				return fmt.Errorf("subtable %d has pair %d,%d of %d glyphs", i, k>>16, k&0xFFFF, n)
			}
		}
		o += 14 + 6*np
	}
	if o != len(t) {
		return fmt.Errorf("%d bytes after the last subtable", len(t)-o)
	}
	return nil
}

// unicodeBits are the blocks of each bit of ulUnicodeRange.
var unicodeBits = parseBits(`0 0-7F|1 80-FF|2 100-17F|3 180-24F|4 250-2AF 1D00-1D7F 1D80-1DBF|5 2B0-2FF A700-A71F|6 300-36F 1DC0-1DFF|7 370-3FF|8 2C80-2CFF|9 400-4FF 500-52F 2DE0-2DFF A640-A69F|10 530-58F|11 590-5FF|12 A500-A63F|13 600-6FF 750-77F|14 7C0-7FF|15 900-97F|16 980-9FF|17 A00-A7F|18 A80-AFF|19 B00-B7F|20 B80-BFF|21 C00-C7F|22 C80-CFF|23 D00-D7F|24 E00-E7F|25 E80-EFF|26 10A0-10FF 2D00-2D2F|27 1B00-1B7F|28 1100-11FF|29 1E00-1EFF 2C60-2C7F A720-A7FF|30 1F00-1FFF|31 2000-206F 2E00-2E7F|32 2070-209F|33 20A0-20CF|34 20D0-20FF|35 2100-214F|36 2150-218F|37 2190-21FF 27F0-27FF 2900-297F 2B00-2BFF|38 2200-22FF 2A00-2AFF 27C0-27EF 2980-29FF|39 2300-23FF|40 2400-243F|41 2440-245F|42 2460-24FF|43 2500-257F|44 2580-259F|45 25A0-25FF|46 2600-26FF|47 2700-27BF|48 3000-303F|49 3040-309F|50 30A0-30FF 31F0-31FF|51 3100-312F 31A0-31BF|52 3130-318F|53 A840-A87F|54 3200-32FF|55 3300-33FF|56 AC00-D7AF|57 10000-10FFFF|58 10900-1091F|59 4E00-9FFF 2E80-2EFF 2F00-2FDF 2FF0-2FFF 3400-4DBF 20000-2A6DF 3190-319F|60 E000-F8FF|61 31C0-31EF F900-FAFF 2F800-2FA1F|62 FB00-FB4F|63 FB50-FDFF|64 FE20-FE2F|65 FE10-FE1F FE30-FE4F|66 FE50-FE6F|67 FE70-FEFF|68 FF00-FFEF|69 FFF0-FFFF|70 F00-FFF|71 700-74F|72 780-7BF|73 D80-DFF|74 1000-109F|75 1200-137F 1380-139F 2D80-2DDF|76 13A0-13FF|77 1400-167F|78 1680-169F|79 16A0-16FF|80 1780-17FF 19E0-19FF|81 1800-18AF|82 2800-28FF|83 A000-A48F A490-A4CF|84 1700-171F 1720-173F 1740-175F 1760-177F|85 10300-1032F|86 10330-1034F|87 10400-1044F|88 1D000-1D0FF 1D100-1D1FF 1D200-1D24F|89 1D400-1D7FF|90 F0000-FFFFD 100000-10FFFD|91 FE00-FE0F E0100-E01EF|92 E0000-E007F|93 1900-194F|94 1950-197F|95 1980-19DF|96 1A00-1A1F|97 2C00-2C5F|98 2D30-2D7F|99 4DC0-4DFF|100 A800-A82F|101 10000-1007F 10080-100FF 10100-1013F|102 10140-1018F|103 10380-1039F|104 103A0-103DF|105 10450-1047F|106 10480-104AF|107 10800-1083F|108 10A00-10A5F|109 1D300-1D35F|110 12000-123FF 12400-1247F|111 1D360-1D37F|112 1B80-1BBF|113 1C00-1C4F|114 1C50-1C7F|115 A880-A8DF|116 A900-A92F|117 A930-A95F|118 AA00-AA5F|119 10190-101CF|120 101D0-101FF|121 102A0-102DF 10280-1029F 10920-1093F|122 1F030-1F09F 1F000-1F02F`)

func parseBits(s string) map[int][][2]rune {
	m := map[int][][2]rune{}
	for _, e := range strings.Split(s, "|") {
		f := strings.Fields(e)
		var bit int
		fmt.Sscan(f[0], &bit)
		for _, r := range f[1:] {
			var a, b rune
			fmt.Sscanf(r, "%x-%x", &a, &b)
			m[bit] = append(m[bit], [2]rune{a, b})
		}
	}
	return m
}

func init() {
	for bit := 0; bit < 128; bit++ {
		for _, b := range unicodeBits[bit] {
			for _, c := range []rune{b[0] - 1, b[0], b[1], b[1] + 1} {
				if c >= 0 && c < 0x10FFFF && c != 0xFFFF && (c < 0xD800 || c > 0xDFFF) {
					synth.EdgeRunes = append(synth.EdgeRunes, c)
				}
			}
		}
	}
}

// rangeBits returns the bits whose first block has a rune, and those with a rune in any of their blocks.
func rangeBits(m map[rune]int) (must, may [128]bool) {
	for r, g := range m {
		if g == 0 {
			continue
		}
		for bit, blocks := range unicodeBits {
			for i, b := range blocks {
				if b[0] <= r && r <= b[1] {
					may[bit] = true
					if i == 0 {
						must[bit] = true
					}
				}
			}
		}
	}
	return
}

func os2Bit(t []byte, bit int) bool {
	return binary.BigEndian.Uint32(t[42+bit/32*4:])>>(bit%32)&1 != 0
}

// cffText describes the dictionaries of a CFF font without the offsets, with the defaults filled in.
func cffText(f *ref.CFF) map[string]string {
	defaults := map[int][]float64{1203: {-100}, 1204: {50}, 1207: {0.001, 0, 0, 0.001, 0, 0}, 5: {0, 0, 0, 0}}
	priv := map[int][]float64{1209: {0.039625}, 1210: {7}, 1211: {1}, 1218: {0.06}}
	m := map[string]string{"name": f.Name}
	put := func(what string, d, def map[int][]float64, skip ...int) {
		all := map[int][]float64{}
		for op, v := range def {
			all[op] = v
		}
		for op, v := range d {
			all[op] = v
		}
	ops:
		for op, v := range all {
			for _, s := range skip {
				if s == op {
					continue ops
				}
			}
			v = append([]float64{}, v...)
			for i := range v {
				v[i] += 0 // zero has no sign
			}
			text := fmt.Sprint(v)
			switch op {
			case 0, 1, 1200, 2, 3, 4, 1221, 1222:
				if what == "Top" && len(v) > 0 {
					text, _ = f.SID(int(v[len(v)-1]))
				}
			case 1201, 1214:
				text = fmt.Sprint(len(v) > 0 && v[0] != 0)
			}
			if text != "" && text != "[]" && text != "[0]" && text != "false" {
				m[fmt.Sprint(what, " DICT operator ", op)] = text
			}
		}
	}
	put("Top", f.Top, defaults, 15, 16, 17, 18, 1206)
	put("Private", f.FDs[0].Private, priv, 19)
	return m
}

// monDicts checks that the dictionaries of a CFF font that was written again say what those of the source say.
func monDicts(c *core.Case, what string, src, dst *ref.CFF) {
	if src == nil || dst == nil || src.CID || len(src.FDs) != 1 || len(dst.FDs) != 1 {
		return
	}
	a, b := cffText(src), cffText(dst)
	c.Count("dictionaries compared", 1)
	for _, m := range []map[string]string{a, b} {
		for k := range m {
			if a[k] != b[k] {
				c.Fail("CFF "+k, "%s: %s is %q instead of %q", what, k, b[k], a[k])
				return
			}
		}
	}
}
