package checks

import (
	"fmt"
	"math/rand"

	"github.com/tdewolff/font"

	"verif/core"
	"verif/ref"
	"verif/synth"
)

func init() {
	core.Register(&core.Check{ID: "C05", Cases: byTier(8000, 120000), Run: runC05, Require: []string{"lookups", "mapped", "corpus fonts", "full scans"},
		Rule: "fonts with random code point maps in 15 combinations of subtables (formats 0, 4, 6, 12, 14; platforms Unicode, Macintosh, Windows) plus real fonts; each answer of GlyphIndex for mapped, neighbouring, boundary and random code points, or for all 0x110000, is compared with an independent decoder of the cmap bytes; distinct cases are distinct cmap tables"})
	core.Register(&core.Check{ID: "C06", Cases: byTier(8000, 120000), Run: runC06, Require: []string{"reverse lookups", "runes", "corpus fonts", "round trips"},
		Rule: "fonts as for C05; GlyphToUnicode of every glyph in random order, repeated and interleaved with lookups, before and after writing and parsing again, is compared with the inverse that an independent decoder computes; distinct cases are distinct cmap tables"})
	core.Register(&core.Check{ID: "C07", Cases: byTier(8000, 120000), Run: runC07, Require: []string{"outlines", "segments", "corpus fonts", "composites", "descriptions"},
		Rule: "random TrueType glyph sets (all point encodings, flag repeats, composites with offsets, scales and matrices, nested) plus real fonts; the events GlyphPath emits are compared with the outline an independent decoder derives from glyf bytes, transformed; distinct non-trivial cases are distinct non-empty outlines"})
	core.Register(&core.Check{ID: "C08", Cases: byTier(8000, 120000), Run: runC08, Require: []string{"outlines", "segments", "corpus fonts", "subroutine calls", "hint masks", "flexes"},
		Rule: "random CFF tables (name- and CID-keyed, all path, flex, hint and mask operators, number encodings, nested local and global subroutines of all bias classes) plus real fonts; the events GlyphPath emits are compared with an independent charstring interpreter; distinct non-trivial cases are distinct non-empty outlines"})
	core.Register(&core.Check{ID: "C09", Cases: byTier(8000, 120000), Run: runC09, Require: []string{"advances", "bounds", "line metrics hhea", "line metrics typo", "line metrics win", "corpus fonts"},
		Rule: "random TrueType and CFF fonts with shared trailing advances, with and without vertical metrics and OS/2, all line metric rules, plus real fonts; all metrics of all glyphs are compared with the tables; distinct cases are distinct fonts"})
	core.Register(&core.Check{ID: "C10", Cases: byTier(14000, 120000), Run: runC10, Require: []string{"pairs", "kerned pairs", "round trips", "subset kerned pairs"},
		Rule: "random kern tables (Microsoft and Apple headers, several subtables, minimum, override, vertical, cross-stream, large) plus real fonts; Kerning of all pairs of small fonts and all listed pairs and neighbours of large ones is compared with an independent reading, also after write/parse and after subsetting; distinct cases are distinct kern tables"})
	core.Register(&core.Check{ID: "C11", Cases: byTier(16000, 120000), Run: runC11, Require: []string{"names", "name lookups", "renamings", "round trips", "corpus fonts"},
		Rule: "random post tables of versions 1, 2 and 3 and CFF charsets with standard, custom, repeated and unused names plus real fonts; both directions are compared with an independent reading, then names are assigned several times with lookups in between, written and parsed again; distinct cases are distinct name lists"})
	core.Register(&core.Check{ID: "C28", Cases: byTier(8000, 120000), Run: runC28, Require: []string{"fields", "OS/2 version 0", "OS/2 version 1", "OS/2 version 4", "OS/2 version 5", "rejected damaged", "truncated OS/2", "truncated vhea", "heights estimated", "top dictionaries", "private dictionaries"},
		Rule: "random fonts with all versions of OS/2, post, maxp and name, and random values, plus real fonts; every exposed field is compared with the bytes of the file, and files with a required table removed, truncated or of an unknown version must be rejected; distinct cases are distinct fonts"})
}

// source makes a synthetic font, or for one case in eight takes a real font. It returns nil when there is none.
func source(c *core.Case, o synth.Opt, filter func(*ref.Font) bool) (what string, b []byte) {
	if c.Idx%8 == 7 {
		var fs []*corpusFont
		for _, f := range corpus() {
			if filter == nil {
				fs = append(fs, f)
			} else if rf, err := ref.Parse(f.Data(), 0); err == nil && filter(rf) {
				fs = append(fs, f)
			}
		}
		if len(fs) > 0 {
			f := fs[(c.Idx/8)%len(fs)]
			c.Count("corpus fonts", 1)
			c.Sample("real font %s", f.Name)
			return f.Name, f.Data()
		}
	}
	f := randFont(c, o)
	if f = grown(c, f); filter != nil && c.Idx%growEvery == growAt {
		if rf, err := ref.Parse(f.Bytes, 0); err != nil || !filter(rf) {
			f = randFont(c, o)
		}
	}
	return "synthetic", f.Bytes
}

const growEvery, growAt = 97, 50

// grown makes TrueType fonts with many glyphs out of a few fonts, up to the limit of the format.
func grown(c *core.Case, f *synth.Font) *synth.Font {
	if c.Idx%growEvery != growAt || f.CFF != nil {
		return f
	}
	n := []int{0xFFFF, 0xFFFF, 0xFFFE, 0x8000, 0x7FFF, 0x8001, 1000 + c.R.Intn(0xF000)}[c.R.Intn(7)]
	c.Count("huge fonts", 1)
	return synth.Grow(c.R, f, n)
}

func isTT(f *ref.Font) bool  { return f.CFF == nil }
func isCFF(f *ref.Font) bool { return f.CFF != nil }

func runC05(c *core.Case) {
	o := synth.Opt{CFF: 1, N: 1 + c.R.Intn(40), CmapKind: 1 + c.Idx%synth.NumCmapKinds, NoKern: true, NoExtra: true}
	if c.R.Intn(4) == 0 {
		o.N = 200 + c.R.Intn(800)
	}
	if c.R.Intn(6) == 0 {
		o.CmapSize = 1000 + c.R.Intn(4000)
	}
	what, b := source(c, o, nil)
	f, rf := load(c, what, b)
	if f == nil {
		return
	}
	subs, err := rf.Cmap()
	if err != nil {
		c.HarnessError("%s: %v", what, err)
		return
	}
	want := ref.Lookup(subs)
	c.FP(rf.Tables["cmap"])
	for _, s := range subs {
		c.Count(fmt.Sprint("format ", s.Format), 1)
	}
	c.Try("GlyphIndex", func() {
		if c.Idx%16 == 0 || c.Tier == "thorough" && c.Idx%4 == 0 { // every code point
			all := make([]rune, 0x110000)
			for i := range all {
				all[i] = rune(i)
			}
			monCmap(c, what, f, want, all)
			c.Count("full scans", 1)
		}
		monCmap(c, what, f, want, probeRunes(c.R, want, 3000))
	})
}

func runC06(c *core.Case) {
	o := synth.Opt{CFF: 1, N: 1 + c.R.Intn(60), CmapKind: 1 + c.Idx%synth.NumCmapKinds, NoKern: true, NoExtra: true}
	if c.R.Intn(6) == 0 {
		o.N = 200 + c.R.Intn(300)
	}
	what, b := source(c, o, nil)
	f, rf := load(c, what, b)
	if f == nil {
		return
	}
	subs, err := rf.Cmap()
	if err != nil {
		c.HarnessError("%s: %v", what, err)
		return
	}
	inv := ref.Inverse(subs)
	fwd := ref.Lookup(subs)
	c.FP(rf.Tables["cmap"])
	n := rf.NumGlyphs()
	c.Try("GlyphToUnicode", func() {
		gs := append(probeGlyphs(c.R, n, 400), min(n, 0xFFFF), min(n+1, 0xFFFF), 0xFFFF, 0xFFFE)
		for round := 0; round < 3; round++ {
			c.R.Shuffle(len(gs), func(i, j int) { gs[i], gs[j] = gs[j], gs[i] })
			monInverse(c, what, f, inv, gs)
			if round == 0 && c.R.Intn(2) == 0 {
				monCmap(c, what, f, fwd, probeRunes(c.R, fwd, 100))
			}
			if c.Failed() {
				return
			}
		}
		// what the caller does with the answers must not matter
		for _, g := range gs {
			rs := f.GlyphToUnicode(uint16(g))
			for i := range rs {
				rs[i] = -7
			}
			_ = append(rs, -8)
		}
		monInverse(c, what+" after changing the returned slices", f, inv, gs)
		f2 := parse(c, what+" again", b)
		if f2 == nil {
			return
		}
		if c.R.Intn(2) == 0 {
			f2.GlyphToUnicode(1)
		}
		w := f2.Write()
		f3 := parse(c, what+" written", w)
		if f3 != nil {
			monInverse(c, what+" written", f3, inv, gs)
			monInverse(c, what+" after writing", f2, inv, gs)
			c.Count("round trips", 1)
		}
	})
}

func drawArgs(c *core.Case, i int) (x, y, s float64) {
	switch i % 4 {
	case 0:
		return 0, 0, 1
	case 1:
		return float64(c.R.Intn(2001) - 1000), float64(c.R.Intn(2001) - 1000), 1
	case 2:
		return 0, 0, []float64{0.5, 2, 0.001, -1, 12.0 / 1000, 0}[c.R.Intn(6)]
	}
	return c.R.NormFloat64() * 100, c.R.NormFloat64() * 1000, c.R.NormFloat64()
}

func runC07(c *core.Case) {
	o := synth.Opt{CFF: 1, CmapSize: 5, NoKern: true, NoExtra: true, MaxN: 60}
	o.Glyph.BigPoints = c.R.Intn(4) == 0
	o.Glyph.OddBBox = c.R.Intn(4) == 0
	what, b := source(c, o, isTT)
	f, rf := load(c, what, b)
	if f == nil {
		return
	}
	gs := probeGlyphs(c.R, rf.NumGlyphs(), 600)
	for i, g := range gs {
		if d, err := rf.Glyph(g); err == nil && len(d.Components) > 0 {
			c.Count("composites", 1)
		}
		if i%4 == 0 && !c.Try("glyph data", func() { monGlyphData(c, what, f, rf, g) }) || c.Failed() {
			return
		}
		x, y, s := drawArgs(c, i+c.R.Intn(2))
		if !monOutline(c, what, f, rf, g, x, y, s) {
			return
		}
	}
}

func runC08(c *core.Case) {
	o := synth.Opt{CFF: 2 + c.Idx%5/3, CmapSize: 5, NoKern: true, NoExtra: true, MaxN: 60}
	what, b := source(c, o, isCFF)
	f, rf := load(c, what, b)
	if f == nil {
		return
	}
	gs := probeGlyphs(c.R, rf.NumGlyphs(), 600)
	for i, g := range gs {
		x, y, s := drawArgs(c, i+c.R.Intn(2))
		if !monOutline(c, what, f, rf, g, x, y, s) {
			return
		}
		if _, ci, err := rf.CFF.Outline(g); err == nil && ci != nil {
			c.Count("subroutine calls", ci.Calls)
			c.Count("hint masks", ci.Masks)
			c.Count("flexes", ci.Flexes)
		}
	}
}

func runC09(c *core.Case) {
	o := synth.Opt{CmapSize: 5, NoKern: true, NoExtra: true, MaxN: 80}
	o.Glyph.OddBBox = c.Idx%4 == 0
	if c.Idx%3 == 0 {
		o.Vert = 2
	}
	if c.Idx%10 == 1 {
		o.OS2 = -1
	}
	what, b := source(c, o, nil)
	f, rf := load(c, what, b)
	if f == nil {
		return
	}
	c.FP(rf.Tables["hmtx"], rf.Tables["vmtx"], rf.Tables["OS/2"], rf.Tables["hhea"])
	gs := probeGlyphs(c.R, rf.NumGlyphs(), 2000)
	c.Try("metrics", func() {
		monMetrics(c, what, f, rf, gs)
		if len(gs) > 500 {
			gs = probeGlyphs(c.R, rf.NumGlyphs(), 300)
		}
		for _, g := range gs {
			monBounds(c, what, f, rf, g)
		}
	})
	for i := 0; i < 8 && !c.Failed(); i++ { // the same font with other line metrics
		tab := map[string][]byte{}
		for k, v := range rf.Tables {
			tab[k] = v
		}
		line := func(t string, at int) {
			v := append([]byte{}, tab[t]...)
			for k := 0; k < 3 && at+2*k+2 <= len(v); k++ {
				x := lineValues[c.R.Intn(len(lineValues))]
				switch c.R.Intn(3) {
				case 0:
					x = c.R.Intn(4000) - 2000
				case 1: // as is
					continue
				}
				v[at+2*k], v[at+2*k+1] = byte(x>>8), byte(x)
			}
			tab[t] = v
		}
		line("hhea", 4)
		if tab["OS/2"] != nil {
			line("OS/2", 68)
			if o := tab["OS/2"]; len(o) >= 78 {
				k := 2
				for at := 74; k > 0; k-- {
					if c.R.Intn(2) == 0 {
						x := lineValues[c.R.Intn(len(lineValues))]
						o[at], o[at+1] = byte(x>>8), byte(x)
					}
					at += 2
				}
			}
			o := tab["OS/2"]
			o[63] = o[63]&0x7F | byte(c.R.Intn(2))<<7
		}
		d := synth.Assemble(nil, rf.Version, tab)
		g := parse(c, what+" with other line metrics", d)
		if g == nil {
			return
		}
		c.Attach("line.bin", d)
		c.FP("line", tab["hhea"][4:10], fmt.Sprint(len(tab["OS/2"])))
		c.Try("line metrics", func() { monMetrics(c, what+" with other line metrics", g, &ref.Font{Tables: tab}, nil) })
	}
}

var lineValues = []int{0, 0, 1, -1, 2, -2, 750, -250, 32767, -32767, -32768, 20000, -20000, 33000, 65535}

// probePairs returns all pairs of a small font, or the listed ones with neighbours.
func probePairs(r *rand.Rand, subs []ref.KernSub, n, limit int) [][2]int {
	var out [][2]int
	if n*n <= limit {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				out = append(out, [2]int{i, j})
			}
		}
	} else {
		for _, s := range subs {
			k := 0
			for _, p := range sortedPairs(s.Pairs) {
				if k++; k > limit/4 && r.Intn(8) > 0 {
					continue
				}
				out = append(out, p, [2]int{p[0], p[1] + 1}, [2]int{p[0], p[1] - 1}, [2]int{p[1], p[0]}, [2]int{p[0] + 1, p[1]})
			}
		}
		for i := 0; i < 500; i++ {
			out = append(out, [2]int{r.Intn(n), r.Intn(n)})
		}
	}
	out = append(out, [2]int{0xFFFF, 0xFFFF}, [2]int{n, 0}, [2]int{0, n}, [2]int{0xFFFF, 0})
	for i := range out {
		for k := 0; k < 2; k++ {
			out[i][k] &= 0xFFFF
		}
	}
	return out
}

func sortedPairs(m map[[2]int]int) [][2]int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k[0]<<16|k[1])
	}
	sortInts(ks)
	out := make([][2]int, len(ks))
	for i, k := range ks {
		out[i] = [2]int{k >> 16, k & 0xFFFF}
	}
	return out
}

func runC10(c *core.Case) {
	o := synth.Opt{CFF: 1, CmapSize: 5, Kern: true, NoExtra: true, MaxN: 90}
	if c.Idx%20 == 0 {
		o.N = 106 + c.R.Intn(80)
		o.BigKern = c.Idx%40 == 0
	}
	what, b := source(c, o, func(f *ref.Font) bool { return f.Tables["kern"] != nil })
	f, rf := load(c, what, b)
	if f == nil {
		return
	}
	subs, err := rf.Kern()
	if err != nil {
		c.HarnessError("%s: %v", what, err)
		return
	}
	c.FP(rf.Tables["kern"])
	n := rf.NumGlyphs()
	c.Try("Kerning", func() {
		monKern(c, what, f, subs, probePairs(c.R, subs, n, 30000))
		if c.Failed() {
			return
		}
		w := parse(c, what+" written", f.Write())
		if w == nil {
			return
		}
		monKern(c, what+" written", w, subs, probePairs(c.R, subs, n, 10000))
		c.Count("round trips", 1)
		// subset
		gs := randGlyphList(c.R, n, 1+c.R.Intn(n))
		if c.Idx%3 == 0 {
			gs = randGlyphList(c.R, n, n)
		}
		sub := subset(c, what, f, gs, font.KeepAllTables)
		if sub == nil {
			return
		}
		for _, s := range []*SF{sub, parse(c, what+" subset written", sub.Write())} {
			if s == nil {
				return
			}
			for k := 0; k < 4000; k++ {
				i, j := c.R.Intn(len(gs)), c.R.Intn(len(gs))
				if len(gs) <= 60 {
					if k >= len(gs)*len(gs) {
						break
					}
					i, j = k/len(gs), k%len(gs)
				}
				v := ref.KernValue(subs, gs[i], gs[j])
				if v < -32768 || v > 32767 || gs[i] == 0 || gs[j] == 0 {
					continue
				}
				if got := int(s.Kerning(uint16(i), uint16(j))); got != v {
					c.Fail("Kerning subset", "%s: in the subset of %v Kerning(%d, %d) = %d, the source has %d for (%d, %d)", what, gs, i, j, got, v, gs[i], gs[j])
					return
				}
				if v != 0 {
					c.Count("subset kerned pairs", 1)
				}
			}
		}
	})
}

func tooManyNames(names []string) bool {
	set := map[string]bool{}
	for _, s := range names {
		set[s] = true
	}
	return len(set) > 0x10000-258
}

func runC11(c *core.Case) {
	o := synth.Opt{CmapSize: 5, NoKern: true, NoExtra: true, MaxN: 120}
	if c.Idx%3 == 0 {
		o.CFF = 1
		o.Post = 1 + c.Idx/3%3
	}
	if c.R.Intn(10) == 0 {
		o.N = 200 + c.R.Intn(200)
	}
	what, b := source(c, o, func(f *ref.Font) bool { n, err := f.GlyphNames(); return err == nil && n != nil })
	f, rf := load(c, what, b)
	if f == nil {
		return
	}
	if rf.CFF != nil && rf.CFF.CID {
		c.Count("CID fonts", 1)
		return
	}
	names, err := rf.GlyphNames()
	if err != nil {
		c.HarnessError("%s: %v", what, err)
		return
	}
	n := rf.NumGlyphs()
	gs := append(probeGlyphs(c.R, n, 2000), n, n+1, 0xFFFF)
	c.FP(fmt.Sprint(names))
	c.Try("names", func() {
		if c.R.Intn(3) > 0 {
			monNames(c, what, f, names, gs, extraNames)
		}
		if c.Failed() || n == 0 {
			return
		}
		cur := names
		for round := 0; round < 1+c.R.Intn(3); round++ {
			k := n
			switch c.R.Intn(5) {
			case 0:
				k = c.R.Intn(n + 1)
			case 1:
				k = n + c.R.Intn(5)
			}
			set := synth.RandNames(c.R, k, c.R.Intn(3) == 0)
			if rf.CFF != nil { // the empty name is not a string a charset can refer to; the first is always .notdef
				for i := range set {
					if set[i] == "" {
						set[i] = fmt.Sprint("e", i)
					}
				}
			}
			want := make([]string, n)
			copy(want, set)
			if rf.CFF != nil {
				for i := k; i < n; i++ {
					want[i] = ".notdef"
				}
				want[0] = ".notdef"
			} else {
				for i := k; i < n; i++ {
					want[i] = ".notdef"
				}
			}
			keep := append([]string{}, set...)
			if err := f.SetGlyphNames(set); err != nil && tooManyNames(want) { // a post table cannot refer to all of them
				c.Count("too many names", 1)
				want = cur
			} else if err != nil {
				c.Fail("SetGlyphNames:"+errKey(err), "%s: SetGlyphNames: %v", what, err)
				return
			}
			if fmt.Sprintf("%q", keep) != fmt.Sprintf("%q", set) {
				c.Fail("SetGlyphNames argument", "%s: SetGlyphNames changed its argument", what)
			}
			for i := range set { // the caller goes on using its slice
				set[i] = "clobbered"
			}
			c.Count("renamings", 1)
			cur = want
			if c.R.Intn(2) == 0 {
				monNames(c, what+" renamed", f, cur, gs, append(append(extraNames[:len(extraNames):len(extraNames)], names...), ".notdef"))
			}
			if c.Failed() {
				return
			}
		}
		monNames(c, what+" renamed", f, cur, gs, extraNames)
		w := f.Write()
		wf := parse(c, what+" renamed and written", w)
		wr := refParse(c, what+" renamed and written", w)
		if wf == nil || wr == nil {
			return
		}
		c.Attach("renamed.bin", w)
		monNames(c, what+" renamed and written", wf, cur, gs, extraNames)
		if rn, err := wr.GlyphNames(); err != nil {
			c.Fail("written names", "%s: names of the written font: %v", what, err)
		} else if fmt.Sprintf("%q", rn) != fmt.Sprintf("%q", cur) {
			c.Fail("written names", "%s: names of the written font are not those assigned", what)
		}
		c.Count("round trips", 1)
		if wf.CFF == nil || c.Failed() {
			return
		}
		// the setters of the CFF table itself
		cur = append([]string{}, cur...)
		for i := 0; i < 4; i++ {
			if c.R.Intn(4) == 0 {
				k := c.R.Intn(n + 4)
				set := synth.RandNames(c.R, k, c.R.Intn(3) == 0)
				wf.CFF.SetGlyphNames(set)
				for g := range cur {
					cur[g] = ".notdef"
				}
				copy(cur, set)
				for i := range set {
					set[i] = "clobbered"
				}
			}
			g, name := c.R.Intn(n+2), fmt.Sprint("set.", i)
			wf.CFF.SetGlyphName(uint16(g), name)
			if g < n {
				cur[g] = name
			}
			c.Count("names set in the CFF table", 1)
		}
		monNames(c, what+" renamed in the CFF table", wf, cur, gs, extraNames)
	})
}

func runC28(c *core.Case) {
	o := synth.Opt{CmapSize: 5, NoKern: true, MaxN: 30, OS2: 1 + c.Idx%6}
	what, b := source(c, o, nil)
	f, rf := load(c, what, b)
	if f == nil {
		return
	}
	c.FP(b)
	c.Try("headers", func() {
		monHeaders(c, what, f, rf)
		monCFFDicts(c, what, f, rf)
	})
	if c.Failed() {
		return
	}
	// damage
	req := []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "post"}
	if rf.CFF == nil {
		req = append(req, "glyf", "loca")
	} else {
		req = append(req, "CFF ")
	}
	any := append([]string{}, req...)
	for _, t := range []string{"OS/2", "vhea", "vmtx", "OS/2"} {
		if rf.Tables[t] != nil && (t == "OS/2" || rf.Tables["vhea"] != nil && rf.Tables["vmtx"] != nil) {
			any = append(any, t)
		}
	}
	for i := 0; i < 6; i++ {
		tab := map[string][]byte{}
		for k, v := range rf.Tables {
			tab[k] = v
		}
		t := req[c.R.Intn(len(req))]
		how := c.R.Intn(3)
		if how > 0 {
			t = any[c.R.Intn(len(any))]
		}
		kind := ""
		switch how {
		case 0:
			delete(tab, t)
			kind = "missing"
		case 1: // shorter than the fixed part
			fix := map[string]int{"cmap": 4, "head": 54, "hhea": 36, "hmtx": len(tab["hmtx"]), "vhea": 36, "vmtx": len(tab["vmtx"]), "maxp": 6, "name": 6, "post": 32, "CFF ": 4, "glyf": 0, "OS/2": len(tab["OS/2"])}[t]
			switch v := tab[t]; {
			case t == "maxp" && rf.CFF == nil:
				fix = 32
			case t == "cmap":
				fix += 8 * ref.U16(v, 2)
			case t == "name":
				fix += 12 * ref.U16(v, 2)
			case t == "post" && ref.U16(v, 0) == 2:
				fix += 2 + 2*ref.U16(v, 32)
			}
			if fix == 0 || fix > len(tab[t]) {
				continue
			}
			k := c.R.Intn(fix)
			if c.R.Intn(2) == 0 { // by little
				k = max(0, fix-1-c.R.Intn(12))
			}
			if t == "OS/2" && ref.U16(tab[t], 0) == 0 && k == 68 { // the short form of version 0
				continue
			}
			tab[t] = tab[t][:k]
			kind = "truncated"
		case 2: // unknown version
			v := append([]byte{}, tab[t]...)
			switch t {
			case "OS/2":
				v[0], v[1] = byte(c.R.Intn(2)), byte(6+c.R.Intn(200))
			case "cmap", "name", "head", "hhea", "vhea":
				v[0], v[1] = 0, byte(2+c.R.Intn(200))
			case "maxp", "post":
				v[0], v[1], v[2], v[3] = 0, byte(5+c.R.Intn(100)), byte(c.R.Intn(256)), 0
			case "CFF ":
				v[0] = byte(3 + c.R.Intn(100))
			default:
				continue
			}
			tab[t] = v
			kind = "of unknown version"
		}
		d := synth.Assemble(nil, rf.Version, tab)
		c.Attach("damaged.bin", d)
		_, err := safeParse(d)
		if kind == "truncated" {
			c.Count("truncated "+t, 1)
		}
		if err == nil {
			c.Fail("accepted "+t+" "+kind, "%s: a font whose %s table is %s is accepted", what, t, kind)
		}
		c.Count("rejected damaged", 1)
	}
}
