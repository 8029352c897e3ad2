package checks

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"strings"
	"time"

	"verif/ref"
)

// Snap is the recorded answers of a font to a fixed list of questions.
type Snap struct {
	keys []string
	vals map[string]string
}

func (s *Snap) put(k, v string) {
	if _, ok := s.vals[k]; !ok {
		s.keys = append(s.keys, k)
	}
	s.vals[k] = v
}

// Diff returns the first difference, or an empty string.
func (s *Snap) Diff(t *Snap) string {
	for _, k := range s.keys {
		v, ok := t.vals[k]
		if !ok {
			return fmt.Sprintf("%s: no answer", k)
		}
		if v != s.vals[k] {
			a, b := s.vals[k], v
			i := 0
			for i < len(a) && i < len(b) && a[i] == b[i] {
				i++
			}
			cut := func(x string) string {
				x = x[max(0, min(i-20, len(x))):]
				if len(x) > 120 {
					x = x[:120] + "..."
				}
				return x
			}
			return fmt.Sprintf("%s: before ...%q, after ...%q", k, cut(a), cut(b))
		}
	}
	if len(s.keys) != len(t.keys) {
		return "different questions"
	}
	return ""
}

// Questions is what a snapshot asks.
type Questions struct {
	Glyphs []int
	Runes  []rune
	Pairs  [][2]int
	Names  []string
	Write  bool
	Tables bool
}

// questions makes a list of questions for a font.
func questions(r *rand.Rand, rf *ref.Font, limit int) Questions {
	n := rf.NumGlyphs()
	q := Questions{Write: true, Tables: true}
	q.Glyphs = append(probeGlyphs(r, n, limit), n, 0xFFFF)
	if subs, err := rf.Cmap(); err == nil {
		q.Runes = probeRunes(r, ref.Lookup(subs), limit)
	}
	if subs, err := rf.Kern(); err == nil && subs != nil {
		q.Pairs = probePairs(r, subs, n, min(2*limit, 4000))
	}
	if names, err := rf.GlyphNames(); err == nil {
		for _, g := range q.Glyphs {
			if g < len(names) && len(q.Names) < 100 {
				q.Names = append(q.Names, names[g])
			}
		}
	}
	q.Names = append(q.Names, extraNames...)
	return q
}

// plainJSON writes the fields of a value; an absent list is an empty one.
func plainJSON(v any) string {
	b, err := json.Marshal(v)
	return strings.ReplaceAll(string(b)+fmt.Sprint(err), ":null", ":[]")
}

// kernFields lists the subtables of the kern table; one that continues the previous one (as when too many pairs for a
// subtable are written) is joined to it.
func kernFields(f *SF) any {
	if f.Kern == nil {
		return nil
	}
	type pair struct {
		Key   uint32
		Value int16
	}
	type sub struct {
		Coverage [8]bool
		Pairs    []pair
	}
	subs := []sub{}
	for i := range f.Kern.Subtables {
		st := &f.Kern.Subtables[i]
		var ps []pair
		for _, p := range st.Pairs {
			ps = append(ps, pair{p.Key, p.Value})
		}
		if k := len(subs) - 1; k >= 0 && subs[k].Coverage == st.Coverage && len(ps) > 0 && len(subs[k].Pairs) > 0 && subs[k].Pairs[len(subs[k].Pairs)-1].Key < ps[0].Key {
			subs[k].Pairs = append(subs[k].Pairs, ps...)
			continue
		}
		subs = append(subs, sub{st.Coverage, ps})
	}
	return subs
}

func short(s string) string {
	if len(s) < 300 {
		return s
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%s...%016x", s[:200], h.Sum64())
}

// take asks the questions.
func take(f *SF, q Questions) *Snap {
	s := &Snap{vals: map[string]string{}}
	s.put("NumGlyphs", fmt.Sprint(f.NumGlyphs()))
	s.put("UnitsPerEm", fmt.Sprint(f.UnitsPerEm()))
	a, d, l := f.VerticalMetrics()
	s.put("VerticalMetrics", fmt.Sprint(a, d, l))
	s.put("Version", fmt.Sprint(f.IsCFF, f.IsTrueType))
	for _, g := range q.Glyphs {
		segs, err := outline(f, uint16(g), 0, 0, 1)
		s.put(fmt.Sprintf("GlyphPath(%d)", g), short(fmt.Sprint(segs, err)))
		x0, y0, x1, y1 := f.GlyphBounds(uint16(g))
		s.put(fmt.Sprintf("metrics and names of %d", g), fmt.Sprintf("%d %d bounds %d %d %d %d name %q runes %x", f.GlyphAdvance(uint16(g)), f.GlyphVerticalAdvance(uint16(g)), x0, y0, x1, y1, f.GlyphName(uint16(g)), f.GlyphToUnicode(uint16(g))))
	}
	var b strings.Builder
	for _, r := range q.Runes {
		fmt.Fprintf(&b, "%x=%d ", r, f.GlyphIndex(r))
	}
	s.put("GlyphIndex", b.String())
	b.Reset()
	for _, p := range q.Pairs {
		fmt.Fprintf(&b, "%d,%d=%d ", p[0], p[1], f.Kerning(uint16(p[0]), uint16(p[1])))
	}
	s.put("Kerning", b.String())
	b.Reset()
	for _, n := range q.Names {
		fmt.Fprintf(&b, "%q=%d ", n, f.FindGlyphName(n))
	}
	s.put("FindGlyphName", b.String())
	if q.Tables {
		head := f.Head
		if head != nil {
			h := *head
			h.Modified = time.Time{}
			head = &h
		}
		os2 := f.OS2
		if os2 != nil && os2.Version < 2 { // estimated from outlines
			o := *os2
			o.SxHeight, o.SCapHeight = 0, 0
			os2 = &o
		}
		for name, v := range map[string]any{"Cmap": f.Cmap, "Head": head, "Hhea": f.Hhea, "Hmtx": f.Hmtx, "Maxp": f.Maxp, "Name": f.Name, "OS2": os2, "Post": f.Post, "Kern": kernFields(f), "Vhea": f.Vhea, "Vmtx": f.Vmtx} {
			s.put("fields of "+name, short(plainJSON(v)))
		}
		b.Reset()
		for _, t := range tagsOf(f.Tables) {
			h := fnv.New64a()
			if x := f.Tables[t]; t == "head" && len(x) >= 36 { // Write sets the modification time and the checksum
				h.Write(x[:8])
				h.Write(x[12:28])
				h.Write(x[36:])
			} else {
				h.Write(x)
			}
			fmt.Fprintf(&b, "%q:%d:%x ", t, len(f.Tables[t]), h.Sum64())
		}
		s.put("Tables", b.String())
	}
	if q.Write {
		w := stamp(f.Write())
		h := fnv.New64a()
		h.Write(w)
		s.put("Write", fmt.Sprintf("%d bytes %x", len(w), h.Sum64()))
	}
	return s
}

func tagsOf(t map[string][]byte) []string {
	var out []string
	for k := range t {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}
