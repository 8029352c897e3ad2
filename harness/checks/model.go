package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"

	"github.com/tdewolff/font"

	"verif/core"
	"verif/ref"
	"verif/synth"
)

// MGlyph is what a glyph of a derived font has to be.
type MGlyph struct {
	src   *ref.Font // font and glyph that it comes from
	gid   int
	empty bool // emptied .notdef

	segs []ref.Seg
	tol  float64
	skip bool // outline not compared

	adv, lsb   int
	vadv, tsb  int
	name       string
	anyName    bool  // name not compared
	components []int // glyphs of this font that it is composed of
}

// Model is the expected content of a font that was made by subsetting, merging and renaming.
type Model struct {
	TT      bool
	G       []MGlyph
	Cmap    map[rune]int // without glyph 0; nil without table
	Kern    map[[2]int]int
	Names   bool // has names
	NoNames bool // names are not compared
	Vert    bool
	Upm     int
	Lines   [3]int
	Tags    []string
}

// model reads the content of a font.
func model(rf *ref.Font) (*Model, error) {
	m := &Model{TT: rf.CFF == nil, Upm: rf.UnitsPerEm(), Vert: rf.Tables["vhea"] != nil && rf.Tables["vmtx"] != nil}
	names, err := rf.GlyphNames()
	if err != nil {
		return nil, err
	}
	m.Names = names != nil
	m.NoNames = rf.CFF != nil && rf.CFF.CID
	n := rf.NumGlyphs()
	for g := 0; g < n; g++ {
		x := MGlyph{src: rf, gid: g}
		x.segs, x.tol, err = refOutline(rf, g)
		if err == ref.ErrPointMatch {
			x.skip = true
		} else if err != nil {
			return nil, err
		}
		if !x.skip && beyond(rf, g, x.segs) {
			x.skip = true
		}
		x.adv, x.lsb = rf.HMetric(g)
		x.vadv, x.tsb = m.Upm, 0
		if m.Vert {
			x.vadv, x.tsb, _ = rf.VMetric(g)
		}
		if g < len(names) {
			x.name = names[g]
		}
		if m.TT {
			d, err := rf.Glyph(g)
			if err != nil {
				return nil, err
			}
			for _, k := range d.Components {
				x.components = append(x.components, k.Glyph)
			}
		}
		m.G = append(m.G, x)
	}
	subs, err := rf.Cmap()
	if err != nil {
		return nil, err
	}
	m.Cmap = map[rune]int{}
	for r, g := range ref.Lookup(subs) {
		if g != 0 {
			m.Cmap[r] = g
		}
	}
	ks, err := rf.Kern()
	if err != nil {
		return nil, err
	}
	if ks != nil {
		m.Kern = map[[2]int]int{}
		for _, s := range ks {
			for p := range s.Pairs {
				if _, ok := m.Kern[p]; !ok {
					m.Kern[p] = ref.KernValue(ks, p[0], p[1])
				}
			}
		}
	}
	a, d, l, _ := lineMetrics(rf)
	m.Lines = [3]int{a, d, l}
	for t := range rf.Tables {
		m.Tags = append(m.Tags, t)
	}
	sort.Strings(m.Tags)
	return m, nil
}

var minTags = []string{"DSIG", "cmap", "head", "hhea", "hmtx", "maxp", "name", "OS/2", "post", "glyf", "loca", "CFF "}
var pdfTagsTT = []string{"DSIG", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "cvt ", "fpgm", "prep"}
var pdfTagsCFF = []string{"DSIG", "cmap", "CFF ", "head", "hhea", "hmtx", "maxp"}

func has(tags []string, t string) bool {
	for _, x := range tags {
		if x == t {
			return true
		}
	}
	return false
}

// keptTags are the tables that a subset keeps; kern disappears when no pairs are left.
func (m *Model) keptTags(opt []string) []string {
	var want []string
	if len(opt) == 1 && opt[0] == "all" {
		want = m.Tags
	} else if len(opt) == 1 && opt[0] == "min" {
		want = minTags
	} else if len(opt) == 1 && opt[0] == "pdf" {
		want = pdfTagsTT
		if !m.TT {
			want = pdfTagsCFF
		}
	} else {
		want = opt
	}
	var out []string
	for _, t := range m.Tags {
		if has(want, t) {
			out = append(out, t)
		}
	}
	return out
}

// closure returns the glyphs that the listed ones need and that are not listed, sorted.
func (m *Model) closure(list []int) []int {
	seen := map[int]bool{}
	for _, g := range list {
		seen[g] = true
	}
	var extra []int
	var visit func(g int)
	visit = func(g int) {
		for _, k := range m.G[g].components {
			if !seen[k] {
				seen[k] = true
				extra = append(extra, k)
				visit(k)
			} else {
				visit(k)
			}
		}
	}
	for _, g := range list {
		if g != 0 { // .notdef is emptied
			visit(g)
		}
	}
	sort.Ints(extra)
	return extra
}

// usesNotdef returns whether glyph 0 is a component of one of the glyphs.
func (m *Model) usesNotdef(list []int) bool {
	for _, g := range list {
		for _, k := range m.G[g].components {
			if k == 0 {
				return true
			}
		}
	}
	return false
}

// subset is the expected result of subsetting to a list. full is the glyph of m at each glyph of the result.
func (m *Model) subset(full []int, n int, opt []string) *Model {
	s := &Model{TT: m.TT, Upm: m.Upm, Lines: m.Lines, NoNames: m.NoNames, Tags: m.keptTags(opt)}
	keep := false
	for _, g := range full {
		if g != 0 && m.usesNotdef([]int{g}) {
			keep = true
		}
	}
	s.Vert = m.Vert && has(s.Tags, "vhea") && has(s.Tags, "vmtx")
	s.Names = m.Names && !m.TT && has(s.Tags, "CFF ")
	at := map[int]int{}
	all := map[int][]int{}
	for i, g := range full {
		at[g] = i
		all[g] = append(all[g], i)
	}
	for i, g := range full {
		x := m.G[g]
		if g == 0 && !keep {
			x.empty, x.segs, x.skip = true, nil, false
		}
		if !s.Vert {
			x.vadv, x.tsb = m.Upm, 0
		}
		if !s.Names {
			x.name = ""
		} else if i == 0 {
			x.name = ".notdef"
		}
		x.components = nil
		if !x.empty {
			for _, k := range m.G[g].components {
				x.components = append(x.components, at[k])
			}
		}
		s.G = append(s.G, x)
	}
	if m.Cmap != nil && has(s.Tags, "cmap") {
		s.Cmap = map[rune]int{}
		for r, g := range m.Cmap {
			if i, ok := at[g]; ok && g != 0 {
				s.Cmap[r] = i
			}
		}
	}
	if m.Kern != nil && has(s.Tags, "kern") {
		s.Kern = map[[2]int]int{}
		for p, v := range m.Kern {
			if p[0] == 0 || p[1] == 0 {
				continue
			}
			for _, l := range all[p[0]] {
				for _, r := range all[p[1]] {
					s.Kern[[2]int{l, r}] = v
				}
			}
		}
		if len(s.Kern) == 0 {
			s.Kern = nil
			var tags []string
			for _, t := range s.Tags {
				if t != "kern" {
					tags = append(tags, t)
				}
			}
			s.Tags = tags
		}
	}
	return s
}

// tooManySubrs returns whether CFF fonts have more subroutines than can be numbered.
func tooManySubrs(fs ...*SF) bool {
	gs, ls := 0, 0
	for _, f := range fs {
		a, err := ref.Parse(f.Write(), 0)
		if err != nil || a.CFF == nil || len(a.CFF.FDs) != 1 {
			return false
		}
		gs += len(a.CFF.GSubrs)
		ls += len(a.CFF.FDs[0].Subrs)
	}
	return gs > 0xFFFF || ls > 0xFFFF
}

// merge is the expected result of merging m2 into m, or why that must fail.
func (m *Model) merge(m2 *Model, rearrange bool) (*Model, string) {
	if m.TT != m2.TT {
		return nil, "kinds differ"
	}
	n, n2 := len(m.G), len(m2.G)
	if n+n2 > 0xFFFF {
		return nil, "too many glyphs"
	}
	if n2 < 2 {
		return m, ""
	}
	for _, x := range m2.G[1:] {
		for _, k := range x.components {
			if k == 0 {
				return nil, "composite of .notdef"
			}
		}
	}
	s := &Model{TT: m.TT, Upm: m.Upm, Lines: m.Lines, Vert: m.Vert, NoNames: m.NoNames || m2.NoNames, Tags: append([]string{}, m.Tags...)}
	s.Names = m.Names || m2.Names
	if m.TT {
		s.Names = s.Names && has(m.Tags, "post")
	}
	s.G = append(s.G, m.G...)
	for _, x := range m2.G[1:] {
		var cs []int
		for _, k := range x.components {
			cs = append(cs, k+n-1)
		}
		x.components = cs
		if !m.Vert {
			x.vadv, x.tsb = m.Upm, 0
		}
		s.G = append(s.G, x)
	}
	if !s.Names {
		for i := range s.G {
			s.G[i].name = ""
		}
	}
	if m.Cmap != nil {
		s.Cmap = map[rune]int{}
		if rearrange {
			for g := 1; g < len(s.G); g++ {
				s.Cmap[rune(g+32)] = g
			}
		} else {
			for r, g := range m.Cmap {
				if g != 0 {
					s.Cmap[r] = g
				}
			}
			for r, g := range m2.Cmap {
				if g == 0 { // not added
					continue
				}
				if _, ok := s.Cmap[r]; ok {
					return nil, "code points in both"
				}
				s.Cmap[r] = g + n - 1
			}
		}
	}
	if m.Kern != nil || m2.Kern != nil {
		s.Kern = map[[2]int]int{}
		for p, v := range m.Kern {
			s.Kern[p] = v
		}
		for p, v := range m2.Kern {
			if p[0] != 0 && p[1] != 0 {
				s.Kern[[2]int{p[0] + n - 1, p[1] + n - 1}] = v
			}
		}
		if len(s.Kern) == 0 && m.Kern == nil {
			s.Kern = nil
		} else if !has(s.Tags, "kern") {
			s.Tags = append(s.Tags, "kern")
			sort.Strings(s.Tags)
		}
	}
	return s, ""
}

// monModel observes whether a font answers as its model says. wr, when not nil, is an independent reading of the
// font written, which has to contain the same.
func monModel(c *core.Case, what string, f *SF, m *Model, wr *ref.Font) bool {
	n := len(m.G)
	if int(f.NumGlyphs()) != n {
		c.Fail("number of glyphs", "%s: %d glyphs, not %d", what, f.NumGlyphs(), n)
		return false
	}
	fail := false
	bad := func(key, format string, a ...any) {
		c.Fail(key, "%s: "+format, append([]any{what}, a...)...)
		fail = true
	}
	cmp := func(key string, g int, a, b any) {
		if a != b {
			bad(key, "%s of glyph %d is %v, not %v (glyph %d of its source)", key, g, a, b, m.G[g].gid)
		}
	}
	if has(m.Tags, "head") {
		cmp("UnitsPerEm", 0, int(f.UnitsPerEm()), m.Upm)
	}
	for g := 0; g < n && !fail; g++ {
		x := &m.G[g]
		if m.TT && has(m.Tags, "glyf") && has(m.Tags, "loca") || !m.TT && has(m.Tags, "CFF ") {
			if !x.skip {
				segs, err := outline(f, uint16(g), 0, 0, 1)
				if err != nil {
					bad("outline error:"+errKey(err), "outline of glyph %d (glyph %d of its source): %v", g, x.gid, err)
					break
				}
				same := ref.SamePath
				if x.tol > 0.4 {
					same = ref.SamePathNear
				}
				if err := same(segs, x.segs, x.tol+1e-4); err != nil {
					bad("outline", "outline of glyph %d (glyph %d of its source): %v", g, x.gid, err)
					break
				}
				c.Count("outlines", 1)
				c.Count("segments", len(segs))
				if wr != nil {
					if segs, _, err := refOutline(wr, g); err != nil {
						bad("written outline", "written outline of glyph %d (glyph %d of its source): %v", g, x.gid, err)
					} else if err := same(segs, x.segs, x.tol+1e-4); err != nil {
						bad("written outline", "written outline of glyph %d (glyph %d of its source): %v", g, x.gid, err)
					}
				}
			}
			if m.TT && wr != nil {
				compareGlyphs(bad, x, g, wr)
			}
			if x0, y0, x1, y1 := f.GlyphBounds(uint16(g)); !x.skip {
				if m.TT {
					want := [4]int{}
					if d, err := x.src.Glyph(x.gid); err == nil && !x.empty {
						want = d.BBox
						if d.Contours == 0 { // an empty outline has no box worth keeping
							want = [4]int{int(x0), int(y0), int(x1), int(y1)}
						}
					}
					cmp("GlyphBounds", g, [4]int{int(x0), int(y0), int(x1), int(y1)}, want)
				} else if tx0, ty0, tx1, ty1, ok := ref.TightBox(x.segs); ok {
					const e = 1e-3
					if float64(x0) > tx0+e || float64(y0) > ty0+e || float64(x1) < tx1-e || float64(y1) < ty1-e {
						bad("GlyphBounds", "bounds of glyph %d are %d %d %d %d, the outline spans %v %v %v %v", g, x0, y0, x1, y1, tx0, ty0, tx1, ty1)
					}
				}
			}
		}
		if has(m.Tags, "hmtx") && has(m.Tags, "hhea") {
			cmp("GlyphAdvance", g, int(f.GlyphAdvance(uint16(g))), x.adv)
			if f.Hmtx != nil {
				cmp("LeftSideBearing", g, int(f.Hmtx.LeftSideBearing(uint16(g))), x.lsb)
			}
			if wr != nil {
				a, l := wr.HMetric(g)
				cmp("written advance", g, a, x.adv)
				cmp("written left side bearing", g, l, x.lsb)
			}
		}
		if has(m.Tags, "head") {
			cmp("GlyphVerticalAdvance", g, int(f.GlyphVerticalAdvance(uint16(g))), x.vadv)
		}
		if m.Vert {
			if f.Vmtx != nil {
				cmp("TopSideBearing", g, int(f.Vmtx.TopSideBearing(uint16(g))), x.tsb)
			}
			if wr != nil {
				a, t, _ := wr.VMetric(g)
				cmp("written vertical advance", g, a, x.vadv)
				cmp("written top side bearing", g, t, x.tsb)
			}
		}
		if !m.NoNames && !x.anyName && (!m.TT || has(m.Tags, "post")) {
			cmp("GlyphName", g, f.GlyphName(uint16(g)), x.name)
		}
		c.Count("glyphs", 1)
	}
	if fail {
		return false
	}
	if m.Cmap != nil {
		inv := map[int][]rune{}
		for r, g := range m.Cmap {
			if got := int(f.GlyphIndex(r)); got != g {
				bad("GlyphIndex", "GlyphIndex(%#x) = %d, not %d", r, got, g)
				break
			}
			inv[g] = append(inv[g], r)
		}
		for _, r := range probeRunes(c.R, m.Cmap, 50) {
			if got := int(f.GlyphIndex(r)); got != m.Cmap[r] {
				bad("GlyphIndex", "GlyphIndex(%#x) = %d, not %d", r, got, m.Cmap[r])
				break
			}
		}
		c.Count("runes", len(m.Cmap))
		for g := 1; g < n; g++ {
			if err := sameRunes(f.GlyphToUnicode(uint16(g)), inv[g]); err != nil {
				bad("GlyphToUnicode", "GlyphToUnicode(%d) = %#x, not %#x: %v", g, f.GlyphToUnicode(uint16(g)), inv[g], err)
				break
			}
		}
		if wr != nil && has(m.Tags, "cmap") {
			if subs, err := wr.Cmap(); err != nil {
				bad("written cmap", "written cmap: %v", err)
			} else {
				w := ref.Lookup(subs)
				for r, g := range m.Cmap {
					if w[r] != g {
						bad("written cmap", "the written font maps %#x to %d, not %d", r, w[r], g)
						break
					}
				}
				for r, g := range w {
					if g != 0 && m.Cmap[r] != g {
						bad("written cmap", "the written font maps %#x to %d, not %d", r, g, m.Cmap[r])
						break
					}
				}
			}
		}
	}
	{
		pairs := 0
		for p, v := range m.Kern {
			if v < -32768 || v > 32767 || p[0] >= n || p[1] >= n {
				continue
			}
			if got := int(f.Kerning(uint16(p[0]), uint16(p[1]))); got != v {
				bad("Kerning", "Kerning(%d, %d) = %d, not %d", p[0], p[1], got, v)
				break
			}
			if pairs++; pairs >= 20000 {
				break
			}
		}
		c.Count("pairs", pairs)
		for i := 0; i < 60; i++ {
			p := [2]int{c.R.Intn(n), c.R.Intn(n)}
			if v := m.Kern[p]; v >= -32768 && v <= 32767 {
				if got := int(f.Kerning(uint16(p[0]), uint16(p[1]))); got != v {
					bad("Kerning", "Kerning(%d, %d) = %d, not %d", p[0], p[1], got, v)
					break
				}
			}
		}
	}
	if m.Names && !m.NoNames {
		first := map[string]int{}
		unnamed := false
		for g := n - 1; g >= 0; g-- {
			if !m.G[g].anyName {
				first[m.G[g].name] = g
			} else {
				unnamed = true
			}
		}
		if unnamed {
			delete(first, ".notdef")
		}
		for name, g := range first {
			if got := int(f.FindGlyphName(name)); got != g && name != "" {
				bad("FindGlyphName", "FindGlyphName(%q) = %d, not %d", name, got, g)
				break
			}
		}
	}
	if has(m.Tags, "hhea") && has(m.Tags, "OS/2") {
		a, d, l := f.VerticalMetrics()
		if [3]int{int(a), int(d), int(l)} != m.Lines {
			bad("VerticalMetrics", "VerticalMetrics = %d %d %d, not %v", a, d, l, m.Lines)
		}
	}
	return !fail
}

// compareGlyphs compares what a glyph description holds beside the outline.
func compareGlyphs(bad func(key, format string, a ...any), x *MGlyph, g int, wr *ref.Font) {
	d, err := wr.Glyph(g)
	if err != nil {
		bad("written glyph", "written glyph %d: %v", g, err)
		return
	}
	if x.empty {
		if len(d.Points) > 0 || len(d.Components) > 0 {
			bad("written glyph", "written glyph %d is not empty", g)
		}
		return
	}
	s, err := x.src.Glyph(x.gid)
	if err != nil || s.Contours == 0 && d.Contours == 0 {
		return
	}
	if !bytes.Equal(s.Instructions, d.Instructions) {
		bad("written instructions", "glyph %d has %d bytes of instructions, its source (glyph %d) %d", g, len(d.Instructions), x.gid, len(s.Instructions))
	}
	if len(s.Points) != len(d.Points) || len(s.Components) != len(d.Components) {
		bad("written glyph", "glyph %d has %d points and %d components, its source (glyph %d) %d and %d", g, len(d.Points), len(d.Components), x.gid, len(s.Points), len(s.Components))
		return
	}
	for i := range s.Points {
		if s.Points[i] != d.Points[i] {
			bad("written glyph", "point %d of glyph %d is %v, of its source (glyph %d) %v", i, g, d.Points[i], x.gid, s.Points[i])
			return
		}
	}
	for i, k := range d.Components {
		o := s.Components[i]
		if k.Arg1 != o.Arg1 || k.Arg2 != o.Arg2 || k.M != o.M || (k.Flags^o.Flags)&^0x21 != 0 {
			bad("written component", "component %d of glyph %d is %v, of its source (glyph %d) %v", i, g, k, x.gid, o)
			return
		}
		if k.Glyph != x.components[i] {
			bad("written component", "component %d of glyph %d is glyph %d, not %d", i, g, k.Glyph, x.components[i])
			return
		}
	}
}

// resolve finds out which glyphs a subset has after the listed ones, by following the components of its glyphs.
func resolve(c *core.Case, what string, m *Model, list []int, rs *ref.Font) []int {
	extra := m.closure(list)
	if rs.NumGlyphs() != len(list)+len(extra) {
		c.Fail("number of glyphs", "%s: %d glyphs for %d listed and %d components %v", what, rs.NumGlyphs(), len(list), len(extra), trim(extra))
		return nil
	}
	full := make([]int, len(list)+len(extra))
	for i := range full {
		full[i] = -1
	}
	copy(full, list)
	if len(extra) == 0 {
		return full
	}
	if rs.Tables["glyf"] == nil || rs.Tables["loca"] == nil {
		return nil // cannot tell
	}
	for changed := true; changed; {
		changed = false
		for i, g := range full {
			if g < 0 {
				continue
			}
			d, err := rs.Glyph(i)
			if err != nil {
				c.Fail("written glyph", "%s: glyph %d: %v", what, i, err)
				return nil
			}
			want := m.G[g].components
			if g == 0 && len(d.Data) == 0 { // emptied
				continue
			}
			if len(d.Components) != len(want) {
				c.Fail("written component", "%s: glyph %d has %d components, glyph %d of its source %d", what, i, len(d.Components), g, len(want))
				return nil
			}
			for k, comp := range d.Components {
				if comp.Glyph >= len(full) {
					c.Fail("written component", "%s: glyph %d has component %d of %d glyphs", what, i, comp.Glyph, len(full))
					return nil
				}
				if full[comp.Glyph] == -1 {
					full[comp.Glyph] = want[k]
					changed = true
				} else if full[comp.Glyph] != want[k] {
					c.Fail("written component", "%s: component %d of glyph %d is glyph %d (%d of the source), not %d of the source", what, k, i, comp.Glyph, full[comp.Glyph], want[k])
					return nil
				}
			}
		}
	}
	for i, g := range full {
		if g == -1 {
			c.Fail("written component", "%s: glyph %d of %d is not needed", what, i, len(full))
			return nil
		}
	}
	return full
}

func trim(a []int) string {
	if len(a) > 40 {
		return fmt.Sprint(a[:40], "...")
	}
	return fmt.Sprint(a)
}

// tableOption chooses the tables that a subset is to keep. full tells whether the result can be parsed as a font.
func tableOption(r *rand.Rand, m *Model) (opt []string, full bool) {
	need := []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "post"}
	if m.TT {
		need = append(need, "glyf", "loca")
	} else {
		need = append(need, "CFF ")
	}
	switch r.Intn(8) {
	case 0, 1, 2:
		return font.KeepAllTables, true
	case 3, 4:
		return font.KeepMinTables, true
	case 5:
		return font.KeepPDFTables, false
	case 6:
		opt = append([]string{}, need...)
		for _, t := range append(append([]string{}, m.Tags...), "GPOS", "none") {
			if !has(opt, t) && r.Intn(2) == 0 {
				opt = append(opt, t)
			}
		}
		opt = bothVertical(opt, m)
		if r.Intn(4) == 0 { // asked for twice
			opt = append(opt, opt[r.Intn(len(opt))])
		}
		r.Shuffle(len(opt), func(i, j int) { opt[i], opt[j] = opt[j], opt[i] })
		return opt, true
	}
	for _, t := range m.Tags {
		if r.Intn(2) == 0 {
			opt = append(opt, t)
		}
	}
	opt = bothVertical(opt, m)
	r.Shuffle(len(opt), func(i, j int) { opt[i], opt[j] = opt[j], opt[i] })
	full = true
	for _, t := range need {
		full = full && has(opt, t)
	}
	return opt, full
}

// bothVertical adds vhea for vmtx and the other way around, since one is of no use without the other.
func bothVertical(opt []string, m *Model) []string {
	for _, p := range [][2]string{{"vhea", "vmtx"}, {"vmtx", "vhea"}} {
		if has(opt, p[0]) && !has(opt, p[1]) && has(m.Tags, p[1]) {
			opt = append(opt, p[1])
		}
	}
	return opt
}

// reparse writes a font and reads it again.
func reparse(c *core.Case, what string, f *SF, embedded bool) (*SF, *ref.Font, []byte) {
	var w []byte
	if !c.Try("Write", func() { w = f.Write() }) {
		return nil, nil, nil
	}
	c.Attach("written.bin", w)
	wr := refParse(c, what, w)
	if wr == nil {
		return nil, nil, nil
	}
	var g *SF
	var err error
	if !c.Try("ParseSFNT", func() {
		if embedded {
			g, err = font.ParseEmbeddedSFNT(w, 0)
		} else {
			g, err = font.ParseSFNT(w, 0)
		}
	}) {
		return nil, nil, nil
	}
	if err != nil {
		c.Fail("re-read:"+errKey(err), "%s: reading the written font: %v", what, err)
		return nil, nil, nil
	}
	return g, wr, w
}

// withoutRunes makes a font of which the code points are none of the given ones.
func withoutRunes(r *rand.Rand, f *synth.Font, taken map[rune]int) *synth.Font {
	rf := &ref.Font{Tables: f.Tables}
	subs, err := rf.Cmap()
	if err != nil {
		panic(err)
	}
	keep := map[rune]int{}
	high := false
	for c, g := range ref.Lookup(subs) {
		if _, ok := taken[c]; !ok {
			keep[c] = g
			high = high || c >= 0xFFFF
		}
	}
	format, enc := 4, 1
	if high || r.Intn(3) == 0 {
		format, enc = 12, 10
	}
	t := map[string][]byte{}
	for k, v := range f.Tables {
		t[k] = v
	}
	t["cmap"] = synth.EncodeCmap(r, []synth.Sub{{Recs: [][2]int{{3, enc}}, Format: format, Map: keep}})
	g := *f
	g.Tables = t
	g.Bytes = synth.Assemble(r, f.Version, t)
	return &g
}
