package checks

import (
	"math/rand"
	"sort"

	"github.com/tdewolff/font"

	"verif/core"
)

func sortInts(a []int) { sort.Ints(a) }

// randGlyphList returns k distinct glyphs in random order; it often starts with glyph 0.
func randGlyphList(r *rand.Rand, n, k int) []int {
	p := r.Perm(n)
	if k > n {
		k = n
	}
	gs := append([]int{}, p[:k]...)
	switch r.Intn(4) {
	case 0:
		sort.Ints(gs)
	case 1, 2:
		out := []int{0}
		for _, g := range gs {
			if g != 0 {
				out = append(out, g)
			}
		}
		return out
	}
	return gs
}

func toU16(gs []int) []uint16 {
	out := make([]uint16, len(gs))
	for i, g := range gs {
		out[i] = uint16(g)
	}
	return out
}

// subset takes a subset that must succeed.
func subset(c *core.Case, what string, f *SF, gs []int, tables []string) *SF {
	var s *SF
	var err error
	if !c.Try("Subset", func() { s, err = f.Subset(toU16(gs), font.SubsetOptions{Tables: tables}) }) {
		return nil
	}
	if err != nil {
		c.Fail("Subset error:"+errKey(err), "%s: Subset(%v, %v) = %v", what, gs, tables, err)
		return nil
	}
	return s
}
