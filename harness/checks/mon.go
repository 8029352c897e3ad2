package checks

import (
	"fmt"
	"math"
	"time"

	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/unicode"

	"github.com/tdewolff/font"

	"verif/core"
	"verif/ref"
)

// The monitors compare every answer of a library font with the reference reader on the bytes of the font.

// monCmap observes GlyphIndex for the code points.
func monCmap(c *core.Case, what string, f *SF, want map[rune]int, probe []rune) {
	hits := 0
	for _, r := range probe {
		g := int(f.GlyphIndex(r))
		w := want[r]
		if g != w {
			c.Fail("GlyphIndex", "%s: GlyphIndex(%#x) = %d, the character map says %d", what, r, g, w)
			return
		}
		if w != 0 {
			hits++
		}
	}
	c.Count("lookups", len(probe))
	c.Count("mapped", hits)
}

// monInverse observes GlyphToUnicode for the glyphs.
func monInverse(c *core.Case, what string, f *SF, want map[int][]rune, glyphs []int) {
	for _, g := range glyphs {
		got := f.GlyphToUnicode(uint16(g))
		if err := sameRunes(got, want[g]); err != nil {
			c.Fail("GlyphToUnicode", "%s: GlyphToUnicode(%d) = %x, the character map says %x: %v", what, g, trunc(got), trunc(want[g]), err)
			return
		}
		c.Count("reverse lookups", 1)
		c.Count("runes", len(got))
	}
}

func trunc(rs []rune) []rune {
	if len(rs) > 40 {
		return rs[:40]
	}
	return rs
}

func sameRunes(got, want []rune) error {
	g := sortRunes(got)
	w := sortRunes(want)
	for i := 1; i < len(g); i++ {
		if g[i] == g[i-1] {
			return fmt.Errorf("%#x is reported twice", g[i])
		}
	}
	if len(g) != len(w) {
		return fmt.Errorf("%d runes instead of %d", len(g), len(w))
	}
	for i := range g {
		if g[i] != w[i] {
			return fmt.Errorf("%#x and %#x differ", g[i], w[i])
		}
	}
	return nil
}

// refOutline is the outline of a glyph according to the reference reader.
func refOutline(rf *ref.Font, g int) ([]ref.Seg, float64, error) {
	if rf.CFF != nil {
		s, _, err := rf.CFF.Outline(g)
		return s, 1e-6, err
	}
	return rf.Outline(g)
}

// beyond returns whether the outline of a glyph leaves the coordinate range of the formats.
func beyond(rf *ref.Font, g int, segs []ref.Seg) bool {
	x0, y0, x1, y1, _ := ref.ControlBox(segs)
	return len(segs) > 0 && (x0 < -32000 || y0 < -32000 || x1 > 32000 || y1 > 32000) || rf.CFF == nil && rf.Beyond(g)
}

// monOutline observes GlyphPath of a glyph, drawn at a position and scale.
func monOutline(c *core.Case, what string, f *SF, rf *ref.Font, g int, x, y, s float64) bool {
	want, tol, err := refOutline(rf, g)
	if err == ref.ErrPointMatch {
		c.Count("skipped point matching", 1)
		return true
	} else if err != nil {
		c.HarnessError("%s: reference outline of glyph %d: %v", what, g, err)
		return false
	}
	if beyond(rf, g, want) {
		c.Count("skipped beyond the coordinate range", 1)
		return true
	}
	p := &ref.Path{Limit: 1 << 20}
	ok := true
	if !c.Try("GlyphPath", func() { err = f.GlyphPath(p, uint16(g), 0, x, y, s, font.NoHinting) }) {
		return false
	}
	if err != nil {
		c.Fail("outline error:"+errKey(err), "%s: GlyphPath(%d) = %v", what, g, err)
		return false
	}
	same := ref.SamePath
	if tol > 0.4 {
		same = ref.SamePathNear
	}
	if e := same(p.Segs, ref.Transform(want, x, y, s), (tol+1e-4)*math.Abs(s)+1e-6); e != nil {
		c.Fail("outline", "%s: outline of glyph %d at (%v,%v) scale %v: %v", what, g, x, y, s, e)
		ok = false
	}
	c.Count("outlines", 1)
	c.Count("segments", len(p.Segs))
	if len(want) > 0 {
		c.FP("outline", fmt.Sprint(want))
	}
	return ok
}

// monMetrics observes the metrics of a font.
func monMetrics(c *core.Case, what string, f *SF, rf *ref.Font, glyphs []int) {
	if g, w := int(f.NumGlyphs()), rf.NumGlyphs(); g != w {
		c.Fail("NumGlyphs", "%s: NumGlyphs = %d, not %d", what, g, w)
	}
	if g, w := int(f.UnitsPerEm()), rf.UnitsPerEm(); g != w {
		c.Fail("UnitsPerEm", "%s: UnitsPerEm = %d, not %d", what, g, w)
	}
	for _, g := range glyphs {
		adv, lsb := rf.HMetric(g)
		if got := int(f.Hmtx.LeftSideBearing(uint16(g))); got != lsb {
			c.Fail("LeftSideBearing", "%s: LeftSideBearing(%d) = %d, not %d", what, g, got, lsb)
		}
		if got := int(f.GlyphAdvance(uint16(g))); got != adv {
			c.Fail("GlyphAdvance", "%s: GlyphAdvance(%d) = %d, not %d", what, g, got, adv)
		}
		vadv, tsb, ok := rf.VMetric(g)
		if !ok {
			vadv = rf.UnitsPerEm()
		} else if got := int(f.Vmtx.TopSideBearing(uint16(g))); got != tsb {
			c.Fail("TopSideBearing", "%s: TopSideBearing(%d) = %d, not %d", what, g, got, tsb)
		}
		if got := int(f.GlyphVerticalAdvance(uint16(g))); got != vadv {
			c.Fail("GlyphVerticalAdvance", "%s: GlyphVerticalAdvance(%d) = %d, not %d (vmtx %v)", what, g, got, vadv, ok)
		}
		c.Count("advances", 2)
	}
	a, d, l := f.VerticalMetrics()
	wa, wd, wl, rule := lineMetrics(rf)
	if int(a) != wa || int(d) != wd || int(l) != wl {
		c.Fail("VerticalMetrics:"+rule, "%s: VerticalMetrics = %d %d %d, not %d %d %d (rule %s)", what, a, d, l, wa, wd, wl, rule)
	}
	c.Count("line metrics "+rule, 1)
}

// lineMetrics applies the documented rule: win values, or typo values if USE_TYPO_METRICS is set, and hhea values
// when those are zero or absent.
func lineMetrics(rf *ref.Font) (a, d, l int, rule string) {
	h := rf.Tables["hhea"]
	asc, desc, gap := ref.S16(h, 4), ref.S16(h, 6), ref.S16(h, 8)
	a, d, l, rule = max(asc, 0), max(-desc, 0), max(gap, 0), "hhea"
	o := rf.Tables["OS/2"]
	if len(o) < 78 {
		return
	}
	if ref.U16(o, 62)&0x80 != 0 {
		ta, td, tl := ref.S16(o, 68), ref.S16(o, 70), ref.S16(o, 72)
		if ta > 0 && td < 0 {
			return ta, -td, max(tl, 0), "typo"
		}
		return
	}
	wa, wd := ref.U16(o, 74), ref.U16(o, 76)
	if wa != 0 && wd != 0 {
		return wa, wd, min(max(asc-desc+gap-wa-wd, 0), 0xFFFF), "win"
	}
	return
}

// monBounds observes GlyphBounds of a glyph.
func monBounds(c *core.Case, what string, f *SF, rf *ref.Font, g int) {
	x0, y0, x1, y1 := f.GlyphBounds(uint16(g))
	c.Count("bounds", 1)
	if rf.CFF == nil {
		d, err := rf.Glyph(g)
		if err != nil {
			c.HarnessError("%s: %v", what, err)
			return
		}
		w := d.BBox
		if got := [4]int{int(x0), int(y0), int(x1), int(y1)}; got != w {
			if _, _, err := rf.Outline(g); err == ref.ErrPointMatch {
				return
			}
			c.Fail("GlyphBounds", "%s: GlyphBounds(%d) = %v, the glyph header says %v", what, g, got, w)
		}
		return
	}
	segs, _, err := rf.CFF.Outline(g)
	if err != nil {
		c.HarnessError("%s: %v", what, err)
		return
	}
	tx0, ty0, tx1, ty1, ok := ref.TightBox(segs)
	if !ok {
		if x0 != 0 || y0 != 0 || x1 != 0 || y1 != 0 {
			c.Fail("GlyphBounds empty", "%s: GlyphBounds(%d) = %d %d %d %d of a glyph without outline", what, g, x0, y0, x1, y1)
		}
		return
	}
	if beyond(rf, g, segs) {
		c.Count("skipped beyond the coordinate range", 1)
		return
	}
	cx0, cy0, cx1, cy1, _ := ref.ControlBox(segs)
	const e = 1e-3
	in := func(v int16, lo, hi float64) bool { return lo-e <= float64(v) && float64(v) <= hi+e }
	if !in(x0, math.Floor(cx0-e), tx0) || !in(y0, math.Floor(cy0-e), ty0) || !in(x1, tx1, math.Ceil(cx1+e)) || !in(y1, ty1, math.Ceil(cy1+e)) {
		c.Fail("GlyphBounds", "%s: GlyphBounds(%d) = %d %d %d %d, the outline spans %v %v %v %v with control points %v %v %v %v", what, g, x0, y0, x1, y1, tx0, ty0, tx1, ty1, cx0, cy0, cx1, cy1)
	}
}

// monKern observes Kerning for pairs.
func monKern(c *core.Case, what string, f *SF, subs []ref.KernSub, pairs [][2]int) {
	for _, p := range pairs {
		w := ref.KernValue(subs, p[0], p[1])
		if w < -32768 || w > 32767 {
			continue
		}
		if got := int(f.Kerning(uint16(p[0]), uint16(p[1]))); got != w {
			c.Fail("Kerning", "%s: Kerning(%d, %d) = %d, the kerning table says %d", what, p[0], p[1], got, w)
			return
		}
		c.Count("pairs", 1)
		if w != 0 {
			c.Count("kerned pairs", 1)
		}
	}
}

// monNames observes both directions of glyph names. names is nil when the font has none.
func monNames(c *core.Case, what string, f *SF, names []string, glyphs []int, extra []string) {
	first := map[string]int{}
	for g := len(names) - 1; g >= 0; g-- {
		first[names[g]] = g
	}
	for _, g := range glyphs {
		w := ""
		if g > 0xFFFF {
			continue
		}
		if g < len(names) {
			w = names[g]
		}
		if got := f.GlyphName(uint16(g)); got != w {
			c.Fail("GlyphName", "%s: GlyphName(%d) = %q, not %q", what, g, got, w)
			return
		}
		c.Count("names", 1)
		if g >= len(names) {
			continue
		}
		if got := int(f.FindGlyphName(w)); got != first[w] && w != "" {
			c.Fail("FindGlyphName", "%s: FindGlyphName(%q) = %d, not %d", what, w, got, first[w])
			return
		}
	}
	for _, s := range extra {
		if got, w := int(f.FindGlyphName(s)), first[s]; got != w && s != "" {
			c.Fail("FindGlyphName", "%s: FindGlyphName(%q) = %d, not %d", what, s, got, w)
			return
		}
		c.Count("name lookups", 1)
	}
}

var extraNames = []string{".notdef", "A", "space", "nonexistent", "g1", "g99999", "uni0041", "cid00000", "cid99999", "Zcaron", "dcroat", ".null", "a.b", "x"}

// estimated observes a height that old OS/2 tables do not have and that is that of a glyph.
func estimated(c *core.Case, what string, f *SF, rf *ref.Font, field string, g, got int) {
	if g >= rf.NumGlyphs() {
		return
	}
	lo, hi := 0, 0
	if g == 0 {
		// no glyph
	} else if rf.CFF == nil {
		d, err := rf.Glyph(g)
		if err != nil {
			return
		} else if _, _, err := rf.Outline(g); err != nil {
			return
		}
		lo, hi = d.BBox[3], d.BBox[3]
	} else {
		segs, _, err := rf.CFF.Outline(g)
		if err != nil || beyond(rf, g, segs) {
			return
		}
		if _, _, _, ty, ok := ref.TightBox(segs); ok {
			_, _, _, cy, _ := ref.ControlBox(segs)
			lo, hi = int(math.Floor(ty-1e-3)), int(math.Ceil(cy+1e-3))
		}
	}
	if got < lo || hi < got {
		c.Fail("OS/2."+field, "%s: OS/2.%s = %d, the top of glyph %d is at %d to %d", what, field, got, g, lo, hi)
	}
	if g != 0 {
		c.Count("heights estimated", 1)
	}
}

// monCFFDicts observes the dictionaries of a CFF font.
func monCFFDicts(c *core.Case, what string, f *SF, rf *ref.Font) {
	if f.CFF == nil || rf.CFF == nil {
		return
	}
	fd := ref.CFFFD{}
	eq := func(field string, got any, m map[int][]float64, op int, kind byte, def any) {
		v, ok := m[op]
		if ok && len(v) == 0 && kind != 'L' && kind != 'I' {
			return
		}
		want := def
		switch kind {
		case 's':
			if ok {
				var known bool
				if want, known = rf.CFF.SID(int(v[len(v)-1])); !known {
					return
				}
			}
			if fmt.Sprint(want) == fmt.Sprint(got) {
				return
			}
		case 'b':
			if ok {
				want = v[0] != 0
			}
			if want == got {
				return
			}
		default:
			w := def.([]float64)
			if ok {
				w = append([]float64{}, v...)
			}
			var g []float64
			switch x := got.(type) {
			case int:
				g = []float64{float64(x)}
			case float64:
				g = []float64{x}
			case []int:
				for _, y := range x {
					g = append(g, float64(y))
				}
			case []float64:
				g = x
			}
			if kind == 'i' || kind == 'I' {
				for _, y := range w {
					if y != math.Trunc(y) {
						return
					}
				}
			}
			if kind != 'L' && kind != 'I' && len(w) > len(g) {
				w = w[:len(g)]
			}
			same := len(w) == len(g)
			for i := 0; same && i < len(w); i++ {
				same = math.Abs(w[i]-g[i]) <= 1e-9*math.Max(1e-6, math.Abs(w[i]))
			}
			if same {
				return
			}
			want = w
		}
		c.Fail("CFF."+field, "%s: CFF %s = %v, the file says %v", what, field, got, want)
	}
	num := func(v ...float64) []float64 { return v }
	t, m := f.CFF.TopDICT(), rf.CFF.Top
	eq("Version", t.Version, m, 0, 's', "")
	eq("Notice", t.Notice, m, 1, 's', "")
	eq("Copyright", t.Copyright, m, 1200, 's', "")
	eq("FullName", t.FullName, m, 2, 's', "")
	eq("FamilyName", t.FamilyName, m, 3, 's', "")
	eq("Weight", t.Weight, m, 4, 's', "")
	eq("IsFixedPitch", t.IsFixedPitch, m, 1201, 'b', false)
	eq("ItalicAngle", t.ItalicAngle, m, 1202, 'f', num(0))
	eq("UnderlinePosition", t.UnderlinePosition, m, 1203, 'f', num(-100))
	eq("UnderlineThickness", t.UnderlineThickness, m, 1204, 'f', num(50))
	eq("PaintType", t.PaintType, m, 1205, 'i', num(0))
	eq("CharstringType", t.CharstringType, m, 1206, 'i', num(2))
	eq("FontMatrix", t.FontMatrix[:], m, 1207, 'f', num(0.001, 0, 0, 0.001, 0, 0))
	eq("UniqueID", t.UniqueID, m, 13, 'i', num(0))
	eq("FontBBox", t.FontBBox[:], m, 5, 'f', num(0, 0, 0, 0))
	eq("StrokeWidth", t.StrokeWidth, m, 1208, 'f', num(0))
	eq("XUID", t.XUID, m, 14, 'I', num())
	eq("PostScript", t.PostScript, m, 1221, 's', "")
	eq("BaseFontName", t.BaseFontName, m, 1222, 's', "")
	eq("BaseFontBlend", t.BaseFontBlend, m, 1223, 'I', num())
	if rf.CFF.CID {
		if v := m[1230]; len(v) == 3 {
			a, ok1 := rf.CFF.SID(int(v[0]))
			b, ok2 := rf.CFF.SID(int(v[1]))
			if ok1 && ok2 && (t.ROS1 != a || t.ROS2 != b || float64(t.ROS3) != v[2]) || !t.IsCID {
				c.Fail("CFF.ROS", "%s: CFF ROS = %v %q %q %d, the file says %q %q %v", what, t.IsCID, t.ROS1, t.ROS2, t.ROS3, a, b, v[2])
			}
		}
		eq("CIDFontVersion", t.CIDFontVersion, m, 1231, 'i', num(0))
		eq("CIDFontRevision", t.CIDFontRevision, m, 1232, 'i', num(0))
		eq("CIDFontType", t.CIDFontType, m, 1233, 'i', num(0))
		eq("CIDCount", t.CIDCount, m, 1234, 'i', num(8720))
		eq("UIDBase", t.UIDBase, m, 1235, 'i', num(0))
	}
	for _, g := range probeGlyphs(c.R, rf.NumGlyphs(), 40) {
		p, err := f.CFF.PrivateDICT(uint16(g))
		if err != nil {
			c.Fail("CFF.PrivateDICT", "%s: CFF.PrivateDICT(%d): %v", what, g, err)
			return
		}
		k := 0
		if len(rf.CFF.FDSelect) > g {
			k = rf.CFF.FDSelect[g]
		}
		fd = rf.CFF.FDs[k]
		m := fd.Private
		eq("BlueValues", p.BlueValues, m, 6, 'L', num())
		eq("OtherBlues", p.OtherBlues, m, 7, 'L', num())
		eq("FamilyBlues", p.FamilyBlues, m, 8, 'L', num())
		eq("FamilyOtherBlues", p.FamilyOtherBlues, m, 9, 'L', num())
		eq("BlueScale", p.BlueScale, m, 1209, 'f', num(0.039625))
		eq("BlueShift", p.BlueShift, m, 1210, 'f', num(7))
		eq("BlueFuzz", p.BlueFuzz, m, 1211, 'f', num(1))
		eq("StdHW", p.StdHW, m, 10, 'f', num(0))
		eq("StdVW", p.StdVW, m, 11, 'f', num(0))
		eq("StemSnapH", p.StemSnapH, m, 1212, 'L', num())
		eq("StemSnapV", p.StemSnapV, m, 1213, 'L', num())
		eq("ForceBold", p.ForceBold, m, 1214, 'b', false)
		eq("LanguageGroup", p.LanguageGroup, m, 1217, 'i', num(0))
		eq("ExpansionFactor", p.ExpansionFactor, m, 1218, 'f', num(0.06))
		eq("InitialRandomSeed", p.InitialRandomSeed, m, 1219, 'i', num(0))
		eq("DefaultWidthX", p.DefaultWidthX, m, 20, 'f', num(0))
		eq("NominalWidthX", p.NominalWidthX, m, 21, 'f', num(0))
		c.Count("private dictionaries", 1)
	}
	c.Count("top dictionaries", 1)
}

// monGlyphData observes the description of a TrueType glyph and what it refers to.
func monGlyphData(c *core.Case, what string, f *SF, rf *ref.Font, g int) {
	if f.Glyf == nil || f.Loca == nil {
		c.Fail("glyf missing", "%s: no glyf or loca", what)
		return
	}
	u := uint16(g)
	b, err := rf.GlyphData(g)
	if err != nil {
		c.HarnessError("%s: %v", what, err)
		return
	}
	if got := f.Glyf.Get(u); string(got) != string(b) || got == nil {
		c.Fail("glyf.Get", "%s: Glyf.Get(%d) returns %d bytes, the glyph has %d or others", what, g, len(got), len(b))
		return
	}
	d, err := rf.Glyph(g)
	if err != nil {
		c.HarnessError("%s: %v", what, err)
		return
	}
	if got := f.Glyf.IsComposite(u); got != (d.Contours < 0) {
		c.Fail("glyf.IsComposite", "%s: IsComposite(%d) = %v", what, g, got)
	}
	// the glyph and all its direct and indirect components
	want := map[int]bool{}
	var visit func(g, depth int)
	visit = func(g, depth int) {
		if want[g] || depth > 20 {
			return
		}
		want[g] = true
		if d, err := rf.Glyph(g); err == nil {
			for _, x := range d.Components {
				visit(x.Glyph, depth+1)
			}
		}
	}
	visit(g, 0)
	deps, err := f.Glyf.Dependencies(u)
	if err != nil {
		c.Fail("glyf.Dependencies error", "%s: Dependencies(%d): %v", what, g, err)
		return
	}
	got := map[int]bool{}
	for _, x := range deps {
		got[int(x)] = true
	}
	same := len(got) == len(want)
	for x := range want {
		same = same && got[x]
	}
	if !same {
		c.Fail("glyf.Dependencies", "%s: Dependencies(%d) = %v, the glyph uses %v", what, g, deps, want)
		return
	}
	pts, tol, err := rf.Flatten(g)
	if err != nil || rf.Beyond(g) {
		return
	}
	x, err := f.Glyf.Contour(u)
	if err != nil {
		c.Fail("glyf.Contour error", "%s: Contour(%d): %v", what, g, err)
		return
	}
	if len(b) == 0 || d.Contours == 0 {
		if len(x.XCoordinates) != 0 || len(x.EndPoints) != 0 {
			c.Fail("glyf.Contour", "%s: Contour(%d) of a glyph without outline has %d points", what, g, len(x.XCoordinates))
		}
		return
	}
	if int(x.GlyphID) != g || [4]int{int(x.XMin), int(x.YMin), int(x.XMax), int(x.YMax)} != d.BBox || string(x.Instructions) != string(d.Instructions) {
		c.Fail("glyf.Contour header", "%s: Contour(%d) is of glyph %d with bounds %d %d %d %d and %d bytes of instructions, not %v and %d", what, g, x.GlyphID, x.XMin, x.YMin, x.XMax, x.YMax, len(x.Instructions), d.BBox, len(d.Instructions))
		return
	}
	if len(x.XCoordinates) != len(pts) || len(x.YCoordinates) != len(pts) || len(x.OnCurve) != len(pts) || len(x.OverlapSimple) != len(pts) {
		c.Fail("glyf.Contour points", "%s: Contour(%d) has %d, %d, %d and %d points, not %d", what, g, len(x.XCoordinates), len(x.YCoordinates), len(x.OnCurve), len(x.OverlapSimple), len(pts))
		return
	}
	k := 0
	for i, p := range pts {
		if math.Abs(float64(x.XCoordinates[i])-p.X) > tol || math.Abs(float64(x.YCoordinates[i])-p.Y) > tol || x.OnCurve[i] != p.On || x.OverlapSimple[i] != p.Overlap {
			c.Fail("glyf.Contour point", "%s: Contour(%d) point %d = %d,%d %v %v, not %v", what, g, i, x.XCoordinates[i], x.YCoordinates[i], x.OnCurve[i], x.OverlapSimple[i], p)
			return
		}
		if p.End {
			if k >= len(x.EndPoints) || int(x.EndPoints[k]) != i {
				c.Fail("glyf.Contour ends", "%s: Contour(%d) ends at %v, contour %d ends at %d", what, g, x.EndPoints, k, i)
				return
			}
			k++
		}
	}
	if k != len(x.EndPoints) {
		c.Fail("glyf.Contour ends", "%s: Contour(%d) has %d contours, not %d", what, g, len(x.EndPoints), k)
	}
	c.Count("descriptions", 1)
}

// monHeaders observes every exposed header field.
func monHeaders(c *core.Case, what string, f *SF, rf *ref.Font) {
	n := 0
	eq := func(table, field string, got, want any) {
		n++
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Fail(table+"."+field, "%s: %s.%s = %v, the file says %v", what, table, field, got, want)
		}
	}
	u16s := func(table string, t []byte, fields ...any) {
		for i := 0; i+2 < len(fields); i += 3 {
			o := fields[i+1].(int)
			switch fields[i+2].(type) {
			case uint16:
				eq(table, fields[i].(string), fields[i+2], ref.U16(t, o))
			case int16:
				eq(table, fields[i].(string), fields[i+2], ref.S16(t, o))
			case uint32:
				eq(table, fields[i].(string), fields[i+2], uint32(ref.U32(t, o)))
			case uint8:
				eq(table, fields[i].(string), fields[i+2], t[o])
			default:
				panic(table + fields[i].(string))
			}
		}
	}
	eq("SFNT", "Version", f.Version, rf.Version)
	eq("SFNT", "IsCFF", f.IsCFF, rf.Version == "OTTO")
	eq("SFNT", "IsTrueType", f.IsTrueType, rf.Version != "OTTO")
	eq("SFNT", "tables", len(f.Tables), len(rf.Tables))
	for tag, t := range rf.Tables {
		if !sameBytes(f.Tables[tag], t) {
			c.Fail("SFNT.Tables", "%s: the bytes of table %q are not those in the file", what, tag)
		}
	}
	if t := rf.Tables["head"]; f.Head == nil {
		c.Fail("head missing", "%s: no head", what)
	} else {
		u16s("head", t, "FontRevision", 4, f.Head.FontRevision, "UnitsPerEm", 18, f.Head.UnitsPerEm, "XMin", 36, f.Head.XMin, "YMin", 38, f.Head.YMin,
			"XMax", 40, f.Head.XMax, "YMax", 42, f.Head.YMax, "LowestRecPPEM", 46, f.Head.LowestRecPPEM, "FontDirectionHint", 48, f.Head.FontDirectionHint,
			"IndexToLocFormat", 50, f.Head.IndexToLocFormat, "GlyphDataFormat", 52, f.Head.GlyphDataFormat)
		for i := 0; i < 16; i++ {
			eq("head", "Flags", f.Head.Flags[i], ref.U16(t, 16)>>i&1 != 0)
			eq("head", "MacStyle", f.Head.MacStyle[i], ref.U16(t, 44)>>i&1 != 0)
		}
		date := func(o int) string {
			const epoch = -2082844800 // 1904-01-01
			return time.Unix(int64(ref.U32(t, o))<<32+int64(ref.U32(t, o+4))+epoch, 0).UTC().String()
		}
		eq("head", "Created", f.Head.Created.String(), date(20))
		eq("head", "Modified", f.Head.Modified.String(), date(28))
	}
	if t := rf.Tables["hhea"]; f.Hhea == nil {
		c.Fail("hhea missing", "%s: no hhea", what)
	} else {
		h := f.Hhea
		u16s("hhea", t, "Ascender", 4, h.Ascender, "Descender", 6, h.Descender, "LineGap", 8, h.LineGap, "AdvanceWidthMax", 10, h.AdvanceWidthMax,
			"MinLeftSideBearing", 12, h.MinLeftSideBearing, "MinRightSideBearing", 14, h.MinRightSideBearing, "XMaxExtent", 16, h.XMaxExtent,
			"CaretSlopeRise", 18, h.CaretSlopeRise, "CaretSlopeRun", 20, h.CaretSlopeRun, "CaretOffset", 22, h.CaretOffset,
			"MetricDataFormat", 32, h.MetricDataFormat, "NumberOfHMetrics", 34, h.NumberOfHMetrics)
	}
	if t := rf.Tables["vhea"]; t != nil {
		if f.Vhea == nil {
			c.Fail("vhea missing", "%s: no vhea", what)
		} else {
			h := f.Vhea
			u16s("vhea", t, "Ascender", 4, h.Ascender, "Descender", 6, h.Descender, "LineGap", 8, h.LineGap, "AdvanceHeightMax", 10, h.AdvanceHeightMax,
				"MinTopSideBearing", 12, h.MinTopSideBearing, "MinBottomSideBearing", 14, h.MinBottomSideBearing, "YMaxExtent", 16, h.YMaxExtent,
				"CaretSlopeRise", 18, h.CaretSlopeRise, "CaretSlopeRun", 20, h.CaretSlopeRun, "CaretOffset", 22, h.CaretOffset,
				"MetricDataFormat", 32, h.MetricDataFormat, "NumberOfVMetrics", 34, h.NumberOfVMetrics)
		}
	}
	if f.Hmtx == nil {
		c.Fail("hmtx missing", "%s: no hmtx", what)
	} else {
		for g := 0; g < rf.NumGlyphs(); g++ {
			adv, lsb := rf.HMetric(g)
			eq("hmtx", "Advance", f.Hmtx.Advance(uint16(g)), adv)
			eq("hmtx", "LeftSideBearing", f.Hmtx.LeftSideBearing(uint16(g)), lsb)
			if adv, tsb, ok := rf.VMetric(g); ok {
				if f.Vmtx == nil {
					c.Fail("vmtx missing", "%s: no vmtx", what)
					break
				}
				eq("vmtx", "Advance", f.Vmtx.Advance(uint16(g)), adv)
				eq("vmtx", "TopSideBearing", f.Vmtx.TopSideBearing(uint16(g)), tsb)
			}
		}
	}
	if t := rf.Tables["maxp"]; f.Maxp == nil {
		c.Fail("maxp missing", "%s: no maxp", what)
	} else {
		m := f.Maxp
		u16s("maxp", t, "Version", 0, m.Version, "NumGlyphs", 4, m.NumGlyphs)
		if ref.U32(t, 0) == 0x10000 && len(t) >= 32 && f.IsTrueType {
			u16s("maxp", t, "MaxPoints", 6, m.MaxPoints, "MaxContours", 8, m.MaxContours, "MaxCompositePoints", 10, m.MaxCompositePoints,
				"MaxCompositeContours", 12, m.MaxCompositeContours, "MaxZones", 14, m.MaxZones, "MaxTwilightPoints", 16, m.MaxTwilightPoints,
				"MaxStorage", 18, m.MaxStorage, "MaxFunctionDefs", 20, m.MaxFunctionDefs, "MaxInstructionDefs", 22, m.MaxInstructionDefs,
				"MaxStackElements", 24, m.MaxStackElements, "MaxSizeOfInstructions", 26, m.MaxSizeOfInstructions,
				"MaxComponentElements", 28, m.MaxComponentElements, "MaxComponentDepth", 30, m.MaxComponentDepth)
		}
	}
	if t := rf.Tables["OS/2"]; t != nil {
		if f.OS2 == nil {
			c.Fail("OS/2 missing", "%s: no OS/2", what)
		} else {
			o := f.OS2
			u16s("OS/2", t, "Version", 0, o.Version, "XAvgCharWidth", 2, o.XAvgCharWidth, "UsWeightClass", 4, o.UsWeightClass, "UsWidthClass", 6, o.UsWidthClass,
				"FsType", 8, o.FsType, "YSubscriptXSize", 10, o.YSubscriptXSize, "YSubscriptYSize", 12, o.YSubscriptYSize, "YSubscriptXOffset", 14, o.YSubscriptXOffset,
				"YSubscriptYOffset", 16, o.YSubscriptYOffset, "YSuperscriptXSize", 18, o.YSuperscriptXSize, "YSuperscriptYSize", 20, o.YSuperscriptYSize,
				"YSuperscriptXOffset", 22, o.YSuperscriptXOffset, "YSuperscriptYOffset", 24, o.YSuperscriptYOffset, "YStrikeoutSize", 26, o.YStrikeoutSize,
				"YStrikeoutPosition", 28, o.YStrikeoutPosition, "SFamilyClass", 30, o.SFamilyClass, "BFamilyType", 32, o.BFamilyType, "BSerifStyle", 33, o.BSerifStyle,
				"BWeight", 34, o.BWeight, "BProportion", 35, o.BProportion, "BContrast", 36, o.BContrast, "BStrokeVariation", 37, o.BStrokeVariation,
				"BArmStyle", 38, o.BArmStyle, "BLetterform", 39, o.BLetterform, "BMidline", 40, o.BMidline, "BXHeight", 41, o.BXHeight,
				"UlUnicodeRange1", 42, o.UlUnicodeRange1, "UlUnicodeRange2", 46, o.UlUnicodeRange2, "UlUnicodeRange3", 50, o.UlUnicodeRange3, "UlUnicodeRange4", 54, o.UlUnicodeRange4,
				"FsSelection", 62, o.FsSelection, "UsFirstCharIndex", 64, o.UsFirstCharIndex, "UsLastCharIndex", 66, o.UsLastCharIndex)
			eq("OS/2", "AchVendID", string(o.AchVendID[:]), string(t[58:62]))
			if len(t) >= 78 {
				u16s("OS/2", t, "STypoAscender", 68, o.STypoAscender, "STypoDescender", 70, o.STypoDescender, "STypoLineGap", 72, o.STypoLineGap, "UsWinAscent", 74, o.UsWinAscent, "UsWinDescent", 76, o.UsWinDescent)
			}
			v := ref.U16(t, 0)
			if v >= 1 {
				u16s("OS/2", t, "UlCodePageRange1", 78, o.UlCodePageRange1, "UlCodePageRange2", 82, o.UlCodePageRange2)
			}
			if v >= 2 {
				u16s("OS/2", t, "SxHeight", 86, o.SxHeight, "SCapHeight", 88, o.SCapHeight, "UsDefaultChar", 90, o.UsDefaultChar, "UsBreakChar", 92, o.UsBreakChar, "UsMaxContent", 94, o.UsMaxContent)
			}
			if v >= 5 {
				u16s("OS/2", t, "UsLowerOpticalPointSize", 96, o.UsLowerOpticalPointSize, "UsUpperOpticalPointSize", 98, o.UsUpperOpticalPointSize)
			}
			if v <= 1 { // taken from the glyphs
				if subs, err := rf.Cmap(); err == nil {
					m := ref.Lookup(subs)
					estimated(c, what, f, rf, "SxHeight", m['x'], int(o.SxHeight))
					estimated(c, what, f, rf, "SCapHeight", m['H'], int(o.SCapHeight))
				}
			}
			c.Count(fmt.Sprint("OS/2 version ", v), 1)
		}
	}
	if t := rf.Tables["post"]; t != nil {
		if f.Post == nil {
			c.Fail("post missing", "%s: no post", what)
		} else {
			p := f.Post
			u16s("post", t, "UnderlinePosition", 8, p.UnderlinePosition, "UnderlineThickness", 10, p.UnderlineThickness, "IsFixedPitch", 12, p.IsFixedPitch,
				"MinMemType42", 16, p.MinMemType42, "MaxMemType42", 20, p.MaxMemType42, "MinMemType1", 24, p.MinMemType1, "MaxMemType1", 28, p.MaxMemType1)
			if w := float64(int32(ref.U32(t, 4))) / 65536; math.Abs(w-p.ItalicAngle) > 1.0/65536 {
				c.Fail("post.ItalicAngle", "%s: post.ItalicAngle = %v, the file says %v", what, p.ItalicAngle, w)
			}
		}
	}
	if names, err := rf.Names(); err == nil && rf.Tables["name"] != nil {
		if f.Name == nil {
			c.Fail("name missing", "%s: no name", what)
		} else if len(f.Name.NameRecord) != len(names) {
			c.Fail("name.NameRecord", "%s: %d name records, not %d", what, len(f.Name.NameRecord), len(names))
		} else {
			for i, w := range names {
				g := f.Name.NameRecord[i]
				eq("name", "Platform", int(g.Platform), w.Platform)
				eq("name", "Encoding", int(g.Encoding), w.Encoding)
				eq("name", "Language", int(g.Language), w.Language)
				eq("name", "Name", int(g.Name), w.ID)
				eq("name", "Value", string(g.Value), string(w.Raw))
				if s, ok := nameString(w); ok {
					eq("name", "String", g.String(), s)
				}
				k := 0
				for _, r := range f.Name.Get(g.Name) {
					if string(r.Value) == string(g.Value) && r.Platform == g.Platform && r.Encoding == g.Encoding && r.Language == g.Language {
						k++
					}
					if r.Name != g.Name {
						c.Fail("name.Get", "%s: name.Get(%d) returned a record of name %d", what, g.Name, r.Name)
					}
				}
				if k == 0 {
					c.Fail("name.Get", "%s: name.Get(%d) lacks record %d", what, g.Name, i)
				}
			}
			t := rf.Tables["name"]
			if ref.U16(t, 0) == 1 {
				o := 6 + 12*len(names)
				if k := ref.U16(t, o); k != len(f.Name.LangTag) {
					c.Fail("name.LangTag", "%s: %d language tags, not %d", what, len(f.Name.LangTag), k)
				} else {
					so := ref.U16(t, 4)
					for i := 0; i < k; i++ {
						l, off := ref.U16(t, o+2+4*i), ref.U16(t, o+4+4*i)
						raw := t[so+off : so+off+l]
						eq("name", "LangTag.Value", string(f.Name.LangTag[i].Value), string(raw))
						if s, ok := nameString(ref.Name{Platform: 3, Encoding: 1, Raw: raw}); ok {
							eq("name", "LangTag.String", f.Name.LangTag[i].String(), s)
						}
					}
				}
			} else if len(f.Name.LangTag) != 0 {
				c.Fail("name.LangTag", "%s: language tags in version 0", what)
			}
		}
	}
	c.Count("fields", n)
}

// nameString decodes a well-formed name record.
func nameString(n ref.Name) (string, bool) {
	switch {
	case n.Platform == 0 || n.Platform == 3:
		if len(n.Raw)%2 != 0 {
			return "", false
		}
		b, err := unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder().Bytes(n.Raw)
		return string(b), err == nil
	case n.Platform == 1 && n.Encoding == 0:
		b, err := charmap.Macintosh.NewDecoder().Bytes(n.Raw)
		return string(b), err == nil
	}
	return "", false
}
