package checks

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/tdewolff/font"

	"verif/core"
	"verif/mutate"
	"verif/ref"
	"verif/synth"
)

func init() {
	core.Register(&core.Check{ID: "C12", Cases: byTier(9000, 100000), Run: runC12, Require: []string{"directories validated", "glyphs validated", "re-read parsed", "re-read subset", "re-read merged", "re-read renamed", "corpus fonts"},
		Rule: "random and real fonts that are parsed, subset, merged and renamed in random histories; every written file goes through an independent validator of the SFNT container, and all answers of the re-read font are compared with those of the font in memory; distinct cases are distinct written files"})
	core.Register(&core.Check{ID: "C17", Cases: byTier(16000, 250000), Run: runC17, Require: []string{"outlines", "glyphs", "runes", "pairs", "subsets", "subsets of subsets", "components added", "large format 4", "past format 4", "corpus fonts"},
		Rule: "random and real fonts are subset to random glyph lists (orders, duplicates, composites without components, with and without .notdef) and table options, also repeatedly; every answer of the subset, in memory, re-read and according to an independent reader, is compared with a model derived from an independent reading of the source; distinct cases are distinct written subsets"})
	core.Register(&core.Check{ID: "C18", Cases: byTier(16000, 200000), Run: runC18, Require: []string{"glyphs validated", "cmaps validated", "subset fonts", "merged fonts", "Unicode ranges", "single characters", "accepted by x/image", "accepted by freetype", "accepted by go-text", "corpus fonts"},
		Rule: "random and real fonts are subset and merged; an independent validator checks that all tables of the result agree with each other, the kept tables are those asked for, and three independent font readers that accept the source accept the result; distinct cases are distinct results"})
	core.Register(&core.Check{ID: "C19", Cases: byTier(8000, 100000), Run: runC19, Require: []string{"questions", "subsets", "equal subsets", "modified subsets", "corpus fonts"},
		Rule: "all answers and the written bytes of a font are recorded, then subsets are taken, renamed, merged into, queried and written in random histories; afterwards the font must give the recorded answers, and each subset must equal the one taken from a freshly parsed font; distinct cases are distinct recordings"})
	core.Register(&core.Check{ID: "C20", Cases: byTier(9000, 80000), Run: runC20, Require: []string{"outlines", "glyphs", "runes", "pairs", "merges", "merges rearranged", "merges refused", "huge merges", "unnamed", "post tables", "large format 4", "corpus fonts"},
		Rule: "random and real fonts, subsets and renamed fonts are merged, also repeatedly; every answer of the result, in memory, re-read and according to an independent reader, is compared with a model that joins independent readings of both fonts; merges the model rules out must be refused; distinct cases are distinct written results"})
	core.Register(&core.Check{ID: "C21", Cases: byTier(7000, 100000), Run: runC21, Require: []string{"questions", "merges", "failed merges", "modified results"},
		Rule: "all answers and written bytes of both fonts are recorded before merges that succeed or fail; afterwards, also after modifying, subsetting and merging the result again, the added font, and after failure the receiving font, must give the recorded answers; distinct cases are distinct recordings"})
}

// editFont makes the font that a history starts with.
func editFont(c *core.Case, o synth.Opt, small bool) (what string, b []byte) {
	if o.MaxN == 0 {
		o.MaxN = 90
	}
	return source(c, o, func(f *ref.Font) bool {
		if _, err := model0(f); err != nil {
			return false
		}
		return !small || f.NumGlyphs() < 1500
	})
}

func model0(f *ref.Font) (bool, error) {
	if f.CFF != nil && len(f.CFF.FDs) > 1 {
		return false, fmt.Errorf("several font DICTs")
	}
	if f.Tables["post"] == nil || f.Tables["name"] == nil || f.Tables["CFF2"] != nil {
		return false, fmt.Errorf("tables missing")
	}
	return true, nil
}

// cffOpt excludes what the library states it cannot subset.
func subsettable(c *core.Case, kind int) synth.Opt {
	o := synth.Opt{CFF: kind}
	if o.CFF == 0 {
		o.CFF = 1 + c.R.Intn(2)
	}
	if o.CFF == 2 && c.R.Intn(5) == 0 {
		o.CFF = 3
		o.CFFOpt.FDs = 1
	}
	o.Glyph.OddBBox = c.R.Intn(8) == 0
	o.Glyph.BigPoints = c.R.Intn(30) == 0
	if c.R.Intn(60) == 0 {
		o.N, o.BigKern = 106+c.R.Intn(60), true
	}
	return o
}

// subsetList makes a list of glyphs for a subset.
func subsetList(c *core.Case, m *Model) []int {
	n := len(m.G)
	k := 1 + c.R.Intn(min(n, 40))
	switch c.R.Intn(10) {
	case 0:
		k = n
	case 1:
		k = 1
	}
	gs := randGlyphList(c.R, n, k)
	if m.TT && c.R.Intn(2) == 0 { // prefer composites
		var comp []int
		for g, x := range m.G {
			if len(x.components) > 0 && !has2(gs, g) {
				comp = append(comp, g)
			}
		}
		c.R.Shuffle(len(comp), func(i, j int) { comp[i], comp[j] = comp[j], comp[i] })
		gs = append(gs, comp[:min(len(comp), 6)]...)
		if c.R.Intn(2) == 0 {
			c.R.Shuffle(len(gs), func(i, j int) { gs[i], gs[j] = gs[j], gs[i] })
		}
	}
	if c.R.Intn(8) == 0 && n < 65000 { // not more than a font can have
		gs = append(gs, gs[c.R.Intn(len(gs))])
	}
	if len(gs) > 30 && !m.TT && c.R.Intn(2) == 0 {
		gs = gs[:30]
	}
	return gs
}

func has2(a []int, v int) bool {
	for _, x := range a {
		if x == v {
			return true
		}
	}
	return false
}

// takeSubset takes a subset and derives its model. It returns nil after a violation, or when the result cannot be modelled.
func takeSubset(c *core.Case, what string, f *SF, m *Model, list []int, opt []string) (s *SF, sm *Model, full []int, wr *ref.Font, w []byte) {
	keep := toU16(list)
	arg := append([]uint16{}, keep...)
	argT := append([]string{}, opt...)
	var err error
	if !c.Try("Subset", func() { s, err = f.Subset(arg, font.SubsetOptions{Tables: argT}) }) {
		return
	}
	if err != nil {
		c.Fail("Subset error:"+errKey(err), "%s: Subset(%v, %v): %v", what, trim(list), opt, err)
		return nil, nil, nil, nil, nil
	}
	if fmt.Sprint(arg) != fmt.Sprint(keep) || fmt.Sprint(argT) != fmt.Sprint(opt) {
		c.Fail("Subset arguments", "%s: Subset changed its arguments", what)
	}
	for i := range arg { // the caller goes on using its slices
		arg[i] = 0
	}
	if !c.Try("Write", func() { w = s.Write() }) {
		return nil, nil, nil, nil, nil
	}
	c.Attach("subset.bin", w)
	c.Count("subsets", 1)
	monLength(c, what, s, w)
	wr, err = ref.Parse(w, 0)
	if err != nil {
		c.Fail("unreadable subset", "%s: Subset(%v, %v) written: %v", what, trim(list), opt, err)
		return nil, nil, nil, nil, nil
	}
	if wr.Tables["maxp"] == nil || m.TT && (wr.Tables["glyf"] == nil || wr.Tables["loca"] == nil || wr.Tables["head"] == nil) {
		return s, nil, nil, wr, w
	}
	full = resolve(c, what, m, list, wr)
	if full == nil {
		return s, nil, nil, wr, w
	}
	if len(full) > len(list) {
		c.Count("components added", len(full)-len(list))
	}
	return s, m.subset(full, len(list), opt), full, wr, w
}

// monLength observes whether a derived font knows the size of its file.
func monLength(c *core.Case, what string, f *SF, w []byte) {
	if int(f.Length) != len(w) {
		c.Fail("Length", "%s: Length is %d, the written file has %d bytes", what, f.Length, len(w))
	}
}

// monPost observes what the post table of a merged font says about both fonts.
func monPost(c *core.Case, what string, t, a, b []byte, names bool) {
	if len(t) < 32 || len(a) < 32 {
		return
	}
	if len(b) < 32 {
		b = make([]byte, 32)
	}
	for _, at := range []int{4, 8, 10} {
		if ref.U16(t, at) != ref.U16(a, at) {
			c.Fail("post kept", "%s: the 16 bits at %d of post are %#x, not %#x", what, at, ref.U16(t, at), ref.U16(a, at))
		}
	}
	zero := ref.U32(a, 12) == 0 || ref.U32(b, 12) == 0
	if (ref.U32(t, 12) == 0) != zero {
		c.Fail("isFixedPitch", "%s: isFixedPitch is %d, of the merged fonts %d and %d", what, ref.U32(t, 12), ref.U32(a, 12), ref.U32(b, 12))
	}
	c.Count("post tables", 1)
}

func monTags(c *core.Case, what string, f *SF, wr *ref.Font, m *Model) {
	var got []string
	for t := range f.Tables {
		got = append(got, t)
	}
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(m.Tags) {
		c.Fail("tables kept", "%s: tables %q, not %q", what, got, m.Tags)
	}
	got = nil
	for t := range wr.Tables {
		got = append(got, t)
	}
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(m.Tags) {
		c.Fail("tables written", "%s: written tables %q, not %q", what, got, m.Tags)
	}
}

func begin(c *core.Case, o synth.Opt) (what string, b []byte, f *SF, m *Model) {
	what, b = editFont(c, o, false)
	f, rf := load(c, what, b)
	if f == nil {
		return
	}
	m, err := model(rf)
	if err != nil {
		c.HarnessError("%s: %v", what, err)
		return what, b, nil, nil
	}
	return
}

func runC17(c *core.Case) {
	if c.Idx%50 == 49 {
		runBrim(c, false)
		return
	}
	what, _, f, m := begin(c, subsettable(c, 0))
	if f == nil {
		return
	}
	c.Try("subset", func() {
		for level := 0; level < 1+c.R.Intn(3); level++ {
			list := subsetList(c, m)
			opt, full := tableOption(c.R, m)
			desc := fmt.Sprintf("%s subset to %v %v", what, trim(list), opt)
			s, sm, _, wr, w := takeSubset(c, desc, f, m, list, opt)
			if s == nil || sm == nil || c.Failed() {
				return
			}
			c.FP(w)
			if level > 0 {
				c.Count("subsets of subsets", 1)
			}
			if !monModel(c, desc, s, sm, wr) {
				return
			}
			if !full && !(has(sm.Tags, "head") && has(sm.Tags, "hhea") && has(sm.Tags, "hmtx") && has(sm.Tags, "maxp") && (m.TT && has(sm.Tags, "glyf") && has(sm.Tags, "loca") || has(sm.Tags, "cmap") && has(sm.Tags, "CFF "))) {
				return
			}
			g, _, _ := reparse(c, desc, s, !full)
			if g == nil || !monModel(c, desc+" re-read", g, sm, nil) {
				return
			}
			if !full {
				return
			}
			f, m, what = s, sm, desc
			if c.R.Intn(2) == 0 {
				f = g
			}
			if len(what) > 300 {
				what = what[:300]
			}
		}
	})
}

func runC18(c *core.Case) {
	if c.Idx < 0x110000/0x4000 {
		runRanges(c)
		return
	}
	if c.Idx%3 == 2 {
		runC18merge(c)
		return
	}
	what, b, f, m := begin(c, subsettable(c, 0))
	if f == nil {
		return
	}
	bounds := what == "synthetic"
	c.Try("subset", func() {
		list := subsetList(c, m)
		opt, full := tableOption(c.R, m)
		desc := fmt.Sprintf("%s subset to %v %v", what, trim(list), opt)
		s, sm, _, wr, w := takeSubset(c, desc, f, m, list, opt)
		if s == nil || sm == nil || c.Failed() {
			return
		}
		c.FP(w)
		c.Count("subset fonts", 1)
		monTags(c, desc, s, wr, sm)
		validSFNT(c, desc, w)
		validTables(c, desc, wr, bounds)
		monRanges(c, desc, wr, sm.Cmap, true)
		if full {
			readers(c, desc, w, b)
		}
	})
}

// runRanges observes what OS/2 says about fonts of one character, for every character.
func runRanges(c *core.Case) {
	m, rs := map[int]int{}, []rune{}
	add := func(r rune) {
		if r < 0xD800 || 0xDFFF < r && r != 0xFFFF && r < 0x10FFFF {
			if m[int(r)] == 0 {
				rs = append(rs, r)
				m[int(r)] = len(rs)
			}
		}
	}
	for r := c.Idx * 0x4000; r < (c.Idx+1)*0x4000; r++ {
		add(rune(r))
	}
	if len(rs) == 0 {
		return
	}
	t := mutate.Simple(len(rs)+1, false)
	t["cmap"] = mutate.Cmap12(m)
	glyphs := make([][]byte, len(rs)+1)
	for i := range glyphs {
		glyphs[i] = mutate.Square()
	}
	mutate.TrueType(t, glyphs)
	t["OS/2"] = make([]byte, 96)
	t["OS/2"][1] = 4
	for i := 42; i < 58; i++ {
		t["OS/2"][i] = byte(c.R.Intn(256))
	}
	b := synth.Assemble(c.R, "\x00\x01\x00\x00", t)
	c.Attach("input.bin", b)
	f, err := font.ParseSFNT(b, 0)
	if err != nil {
		c.Fail("rejected:"+errKey(err), "font of %d characters: %v", len(rs), err)
		return
	}
	for i, r := range rs {
		var s *SF
		if !c.Try("Subset", func() {
			s, err = f.Subset([]uint16{0, uint16(i + 1)}, font.SubsetOptions{Tables: font.KeepAllTables})
		}) {
			return
		}
		if err != nil {
			c.Fail("Subset:"+errKey(err), "subset to %U: %v", r, err)
			return
		}
		monRanges(c, fmt.Sprintf("subset to %U", r), &ref.Font{Tables: s.Tables}, map[rune]int{r: 1}, true)
		if c.Failed() {
			return
		}
		c.Count("single characters", 1)
	}
}

// monRanges observes what OS/2 says about the characters of the font.
func monRanges(c *core.Case, what string, wr *ref.Font, m map[rune]int, bits bool) {
	t := wr.Tables["OS/2"]
	if len(t) < 68 || m == nil || wr.Tables["cmap"] == nil {
		return
	}
	if len(m) > 0 {
		lo, hi := rune(0x10FFFF), rune(0)
		for r := range m {
			lo, hi = min(lo, r), max(hi, r)
		}
		lo, hi = min(lo, 0xFFFF), min(hi, 0xFFFF)
		if ref.U16(t, 64) != int(lo) || ref.U16(t, 66) != int(hi) {
			c.Fail("character range", "%s: usFirstCharIndex %#x and usLastCharIndex %#x, the character map spans %#x to %#x", what, ref.U16(t, 64), ref.U16(t, 66), lo, hi)
			return
		}
		c.Count("character ranges", 1)
	}
	if !bits {
		return
	}
	ones := map[rune]int{}
	for r := range m {
		ones[r] = 1
	}
	must, may := rangeBits(ones)
	for i := 0; i < 128; i++ {
		if b := os2Bit(t, i); b && !may[i] || !b && must[i] {
			c.Fail("Unicode ranges", "%s: bit %d of the Unicode ranges is %v, the font has runes %s", what, i, b, fmt.Sprintf("%x", trunc(sortedRunes(m))))
			return
		}
	}
	c.Count("Unicode ranges", 1)
}

func runC18merge(c *core.Case) {
	p := mergePair(c, true)
	if p == nil {
		return
	}
	c.Try("merge", func() {
		re := c.R.Intn(2) == 0
		want, why := p.m1.merge(p.m2, re)
		err := p.f1.Merge(p.f2, font.MergeOptions{RearrangeCmap: re})
		if why != "" || err != nil {
			if (err == nil) != (why == "") && !tooManySubrs(p.f1, p.f2) {
				c.Fail("Merge:"+why+errKey(err), "%s: Merge = %v, expected %q", p.what, err, why)
			}
			return
		} else if len(p.m2.G) < 2 { // nothing was added
			return
		}
		w := p.f1.Write()
		c.Attach("merged.bin", w)
		wr := refParse(c, p.what, w)
		if wr == nil {
			return
		}
		c.FP(w)
		c.Count("merged fonts", 1)
		monTags(c, p.what, p.f1, wr, want)
		validSFNT(c, p.what, w)
		validTables(c, p.what, wr, p.synthetic, refParse(c, p.what, p.b1))
		runes := map[rune]int{}
		for r, g := range want.Cmap {
			if g != 0 {
				runes[r] = g
			}
		}
		monRanges(c, p.what, wr, runes, false)
		readers(c, p.what, w, p.b1, p.b2)
	})
}

// pair is two fonts to merge.
type pair struct {
	what      string
	b1, b2    []byte
	f1, f2    *SF
	m1, m2    *Model
	synthetic bool
}

// mergePair makes two fonts that can mostly be merged.
// mergePair makes two fonts to be merged. The names of one may be removed after it is read.
func mergePair(c *core.Case, unnamed bool) *pair {
	kind := 1 + c.R.Intn(2)
	p := &pair{synthetic: true}
	o := subsettable(c, kind)
	o.CmapSize = []int{5, 30}[c.R.Intn(2)]
	what, b, f, m := begin(c, o)
	if f == nil {
		return nil
	}
	p.what, p.b1, p.f1, p.m1 = what, b, f, m
	if what != "synthetic" {
		p.synthetic = false
	}
	if m.TT {
		kind = 1
	} else {
		kind = 2
	}
	if c.R.Intn(25) == 0 {
		kind = 3 - kind
	}
	o = subsettable(c, kind)
	o.CmapSize = []int{5, 30}[c.R.Intn(2)]
	o.MaxN = 90
	o.Glyph.NoNotdef = c.R.Intn(8) > 0
	sf := synth.Random(c.R, o)
	if c.R.Intn(5) > 0 {
		sf = withoutRunes(c.R, sf, m.Cmap)
	}
	if n := len(m.G); n >= 900 && sf.CFF == nil && m.TT { // around the largest number of glyphs
		sf = synth.Grow(c.R, sf, []int{0xFFFE - n, 0xFFFF - n, 0x10000 - n, 0x10001 - n, 0x10002 - n, 2*0x10000 - n, 0xFFFF, 2000}[c.R.Intn(8)])
		c.Count("huge merges", 1)
	}
	f2, rf2 := load(c, "second", sf.Bytes)
	if f2 == nil {
		return nil
	}
	m2, err := model(rf2)
	if err != nil {
		c.HarnessError("second: %v", err)
		return nil
	}
	p.b2, p.f2, p.m2 = sf.Bytes, f2, m2
	p.what += " + synthetic"
	// also fonts that were made by subsetting
	ok := c.Try("subset", func() {
		if c.R.Intn(3) == 0 {
			list := subsetList(c, p.m1)
			if s, sm, _, _, _ := takeSubset(c, "first", p.f1, p.m1, list, font.KeepAllTables); sm != nil {
				p.f1, p.m1 = s, sm
				p.what = "subset " + p.what
			}
		}
		if c.R.Intn(3) == 0 {
			list := subsetList(c, p.m2)
			if s, sm, _, _, _ := takeSubset(c, "second", p.f2, p.m2, list, font.KeepAllTables); sm != nil {
				p.f2, p.m2 = s, sm
				p.what += " subset"
			}
		}
	})
	if !ok || c.Failed() {
		return nil
	}
	// also fonts without names
	if k := c.R.Intn(10); unnamed && !p.m1.TT && !p.m2.TT && k < 2 { // not both, since large fonts without names cannot be written
		if k == 0 {
			unname(p.f1, p.m1)
			p.what = "unnamed " + p.what
		} else {
			unname(p.f2, p.m2)
			p.what += " unnamed"
		}
		c.Count("unnamed", 1)
	}
	return p
}

// unname removes the glyph names of a CFF font.
func unname(f *SF, m *Model) {
	f.CFF.SetGlyphNames(nil)
	for g := range m.G {
		m.G[g].anyName = true
	}
}

func runC20(c *core.Case) {
	if c.Idx%50 == 49 {
		runBrim(c, true)
		return
	}
	p := mergePair(c, true)
	if p == nil {
		return
	}
	c.Try("merge", func() {
		for round := 0; round < 1+c.R.Intn(3); round++ {
			re := c.R.Intn(3) == 0
			want, why := p.m1.merge(p.m2, re)
			post1 := append([]byte{}, p.f1.Tables["post"]...)
			err := p.f1.Merge(p.f2, font.MergeOptions{RearrangeCmap: re})
			desc := fmt.Sprintf("%s merge %d (rearrange %v)", p.what, round, re)
			if why != "" {
				if err == nil {
					c.Fail("merged:"+why, "%s: succeeded in spite of %s", desc, why)
				}
				c.Count("merges refused", 1)
				return
			} else if err != nil {
				if tooManySubrs(p.f1, p.f2) {
					c.Count("merges refused", 1)
					return
				}
				c.Fail("Merge:"+errKey(err), "%s: %v", desc, err)
				return
			}
			c.Count("merges", 1)
			if len(p.m2.G) < 2 { // nothing was added
				return
			}
			if re {
				c.Count("merges rearranged", 1)
			}
			g, wr, w := reparse(c, desc, p.f1, false)
			if g == nil {
				return
			}
			c.FP(w)
			monLength(c, desc, p.f1, w)
			monPost(c, desc, wr.Tables["post"], post1, p.f2.Tables["post"], want.Names)
			if !monModel(c, desc, p.f1, want, wr) || !monModel(c, desc+" re-read", g, want, nil) {
				return
			}
			p.m1 = want
			if c.R.Intn(2) == 0 {
				p.f1 = g
			}
			// another font to add
			o := subsettable(c, map[bool]int{true: 1, false: 2}[want.TT])
			o.MaxN, o.CmapSize, o.Glyph.NoNotdef = 30, 5, true
			sf := synth.Random(c.R, o)
			if c.R.Intn(8) > 0 {
				sf = withoutRunes(c.R, sf, want.Cmap)
			}
			f2, rf2 := load(c, "next", sf.Bytes)
			if f2 == nil {
				return
			}
			m2, err := model(rf2)
			if err != nil {
				c.HarnessError("next: %v", err)
				return
			}
			p.f2, p.m2 = f2, m2
		}
	})
}

// disturb modifies a font that was derived from others.
func disturb(c *core.Case, f *SF) {
	n := int(f.NumGlyphs())
	for i := 0; i < 1+c.R.Intn(4); i++ {
		switch c.R.Intn(6) {
		case 0:
			if _, ok := f.Tables["post"]; ok || f.IsCFF {
				f.SetGlyphNames(synth.RandNames(c.R, n, true))
			}
		case 1:
			f.Write()
		case 2:
			o := subsettable(c, map[bool]int{true: 1, false: 2}[f.IsTrueType])
			o.MaxN = 20
			if g, err := font.ParseSFNT(synth.Random(c.R, o).Bytes, 0); err == nil {
				f.Merge(g, font.MergeOptions{RearrangeCmap: c.R.Intn(2) == 0})
				n = int(f.NumGlyphs())
			}
		case 3:
			if s, err := f.Subset(toU16(randGlyphList(c.R, n, 1+c.R.Intn(n))), font.SubsetOptions{Tables: font.KeepAllTables}); err == nil {
				f.Merge(s, font.MergeOptions{RearrangeCmap: true})
				n = int(f.NumGlyphs())
			}
		case 4:
			for g := 0; g < n; g++ {
				f.GlyphName(uint16(g))
				f.GlyphToUnicode(uint16(g))
				outline(f, uint16(g), 0, 0, 1)
			}
			f.FindGlyphName("A")
		case 5: // the fields are exported
			for _, t := range tagsOf(f.Tables) {
				switch t {
				case "glyf", "loca", "CFF ", "cmap", "hmtx", "kern", "head", "hhea", "OS/2", "post", "name", "maxp", "vhea", "vmtx": // derived by the library
					delete(f.Tables, t)
				}
				break
			}
		}
	}
}

func runC19(c *core.Case) {
	what, b := editFont(c, subsettable(c, 0), true)
	f, rf := load(c, what, b)
	if f == nil {
		return
	}
	m, err := model(rf)
	if err != nil {
		c.HarnessError("%s: %v", what, err)
		return
	}
	q := questions(c.R, rf, 120)
	c.Try("subset", func() {
		fresh, err := font.ParseSFNT(append([]byte{}, b...), 0)
		if err != nil {
			c.HarnessError("%v", err)
			return
		}
		warm := c.R.Intn(2) == 0
		before := take(fresh, q)
		if warm {
			take(f, q)
		}
		c.Count("questions", len(before.keys))
		c.FP(before.vals["Write"], before.vals["Kerning"])
		type job struct {
			list []int
			opt  []string
			s    *SF
			w    []byte
		}
		var jobs []*job
		for i := 0; i < 1+c.R.Intn(3); i++ {
			j := &job{list: subsetList(c, m)}
			j.opt, _ = tableOption(c.R, m)
			var err error
			j.s, err = f.Subset(toU16(j.list), font.SubsetOptions{Tables: j.opt})
			if err != nil {
				c.Fail("Subset error:"+errKey(err), "%s: Subset(%v, %v): %v", what, trim(j.list), j.opt, err)
				return
			}
			c.Count("subsets", 1)
			j.w = stamp(j.s.Write())
			jobs = append(jobs, j)
			if c.R.Intn(2) == 0 {
				disturb(c, j.s)
				c.Count("modified subsets", 1)
			}
		}
		if d := before.Diff(take(f, q)); d != "" {
			c.Fail("source changed", "%s: after %d subsets: %s", what, len(jobs), d)
			return
		}
		for _, j := range jobs {
			disturb(c, j.s)
			c.Count("modified subsets", 1)
		}
		if d := before.Diff(take(f, q)); d != "" {
			c.Fail("source changed", "%s: after modifying %d subsets: %s", what, len(jobs), d)
			return
		}
		for _, k := range c.R.Perm(len(jobs)) {
			j := jobs[k]
			g, err := font.ParseSFNT(append([]byte{}, b...), 0)
			if err != nil {
				c.HarnessError("%v", err)
				return
			}
			s, err := g.Subset(toU16(j.list), font.SubsetOptions{Tables: j.opt})
			if err != nil {
				c.Fail("Subset error:"+errKey(err), "%s: Subset(%v, %v): %v", what, trim(j.list), j.opt, err)
				return
			}
			s2, err := f.Subset(toU16(j.list), font.SubsetOptions{Tables: j.opt})
			if err != nil {
				c.Fail("Subset error:"+errKey(err), "%s: Subset(%v, %v) again: %v", what, trim(j.list), j.opt, err)
				return
			}
			w, w2 := stamp(s.Write()), stamp(s2.Write())
			if !bytes.Equal(w, j.w) || !bytes.Equal(w2, j.w) {
				c.Attach("fresh.bin", w)
				c.Attach("used.bin", j.w)
				c.Fail("subset depends on history", "%s: Subset(%v, %v) of a freshly parsed font differs (%d bytes, %d bytes, again %d bytes)", what, trim(j.list), j.opt, len(w), len(j.w), len(w2))
				return
			}
			c.Count("equal subsets", 1)
		}
	})
}

func runC21(c *core.Case) {
	p := mergePair(c, true)
	if p == nil {
		return
	}
	c.Try("merge", func() {
		if c.R.Intn(2) == 0 { // failing merges
			switch c.R.Intn(3) {
			case 0: // a composite that uses .notdef
			case 1: // kinds differ
				o := subsettable(c, map[bool]int{true: 2, false: 1}[p.f1.IsTrueType])
				o.MaxN = 30
				sf := synth.Random(c.R, o)
				if f2 := parse(c, "other kind", sf.Bytes); f2 != nil {
					p.f2 = f2
				}
			case 2: // same code points: the font itself
				if f2 := parse(c, "again", p.b1); f2 != nil {
					p.f2 = f2
				}
			}
		}
		w1, w2 := refParse(c, "first", p.f1.Write()), refParse(c, "second", p.f2.Write())
		if w1 == nil || w2 == nil {
			return
		}
		q1, q2 := questions(c.R, w1, 100), questions(c.R, w2, 100)
		s1, s2 := take(p.f1, q1), take(p.f2, q2)
		c.Count("questions", len(s1.keys)+len(s2.keys))
		c.FP(s1.vals["Write"], s2.vals["Write"])
		for round := 0; round < 1+c.R.Intn(3); round++ {
			if round > 0 {
				s1 = take(p.f1, q1)
			}
			err := p.f1.Merge(p.f2, font.MergeOptions{RearrangeCmap: c.R.Intn(3) == 0})
			if d := s2.Diff(take(p.f2, q2)); d != "" {
				c.Fail("added font changed", "%s: after merging (error %v): %s", p.what, err, d)
				return
			}
			if err != nil {
				c.Count("failed merges", 1)
				if d := s1.Diff(take(p.f1, q1)); d != "" {
					c.Fail("receiving font changed", "%s: after failing to merge (%v): %s", p.what, err, d)
					return
				}
			} else {
				c.Count("merges", 1)
			}
			if c.R.Intn(2) == 0 {
				disturb(c, p.f1)
				c.Count("modified results", 1)
				if d := s2.Diff(take(p.f2, q2)); d != "" {
					c.Fail("added font changed", "%s: after modifying the merged font: %s", p.what, d)
					return
				}
			}
		}
	})
}

func runC12(c *core.Case) {
	o := synth.Opt{}
	if c.R.Intn(3) > 0 {
		o = subsettable(c, 0)
	}
	what, b := editFont(c, o, false)
	f, rf := load(c, what, b)
	if f == nil {
		return
	}
	c.Try("history", func() {
		kind, desc := "parsed", what
		for step := 0; step < 1+c.R.Intn(4); step++ {
			n := int(f.NumGlyphs())
			if step > 0 || c.R.Intn(2) == 0 {
				switch c.R.Intn(4) {
				case 0:
					opt := font.KeepAllTables
					if c.R.Intn(3) == 0 {
						opt = font.KeepMinTables
					}
					list := randGlyphList(c.R, n, 1+c.R.Intn(min(n, 60)))
					if s, err := f.Subset(toU16(list), font.SubsetOptions{Tables: opt}); err == nil {
						f, kind = s, "subset"
						desc += fmt.Sprintf(" subset to %v %v", trim(list), opt)
					}
				case 1:
					o := subsettable(c, map[bool]int{true: 1, false: 2}[f.IsTrueType])
					o.MaxN, o.Glyph.NoNotdef = 60, true
					re := c.R.Intn(2) == 0
					if g, err := font.ParseSFNT(synth.Random(c.R, o).Bytes, 0); err == nil {
						if err := f.Merge(g, font.MergeOptions{RearrangeCmap: re}); err == nil {
							kind = "merged"
							desc += fmt.Sprintf(" merged with %d glyphs (rearrange %v)", g.NumGlyphs(), re)
						}
					}
				case 2:
					names := synth.RandNames(c.R, n, c.R.Intn(3) == 0)
					if f.IsCFF {
						for i := range names {
							if names[i] == "" {
								names[i] = fmt.Sprint("e", i)
							}
						}
					}
					if err := f.SetGlyphNames(names); err == nil {
						kind = "renamed"
						desc += " renamed"
					}
				case 3:
					take(f, questions(c.R, rf, 20))
				}
			}
			var w []byte
			if !c.Try("Write", func() { w = f.Write() }) {
				return
			}
			wr := validSFNT(c, desc, w)
			if wr == nil || c.Failed() {
				return
			}
			validTables(c, desc, wr, false, rf)
			monDicts(c, desc, rf.CFF, wr.CFF)
			c.FP(stamp(w))
			if rf.CFF == nil && c.R.Intn(2) == 0 {
				if tt, err := freetypeParse(w); err == nil {
					var x []byte
					if !c.Try("FromGoFreetype", func() { x = font.FromGoFreetype(tt) }) {
						return
					}
					validSFNT(c, desc+" converted from golang/freetype", x)
					c.Count("converted", 1)
				}
			}
			for _, t := range tagsOf(f.Tables) {
				if t != "head" && !bytes.Equal(wr.Tables[t], f.Tables[t]) || len(wr.Tables) != len(f.Tables) {
					c.Attach("written.bin", w)
					c.Fail("written tables", "%s: table %q is written as %d bytes instead of %d, %d tables instead of %d", desc, t, len(wr.Tables[t]), len(f.Tables[t]), len(wr.Tables), len(f.Tables))
					return
				}
			}
			g, err := font.ParseSFNT(w, 0)
			if err != nil {
				c.Attach("written.bin", w)
				c.Fail("re-read:"+errKey(err), "%s: reading the written font: %v", desc, err)
				return
			}
			q := questions(c.R, wr, 200)
			before, after := take(f, q), take(g, q)
			if d := before.Diff(after); d != "" {
				c.Attach("written.bin", w)
				c.Fail("re-read differs", "%s: the re-read font differs: %s", desc, d)
				return
			}
			c.Count("questions", len(before.keys))
			c.Count("re-read "+kind, 1)
			if c.R.Intn(3) == 0 {
				f = g
			}
		}
	})
}
