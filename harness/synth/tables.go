package synth

import (
	"fmt"
	"math/rand"
	"sort"
	"unicode/utf16"

	"verif/ref"
)

// Pairs is a set of kerning pairs.
type Pairs map[[2]int]int

func (p Pairs) sorted() [][3]int {
	var out [][3]int
	for k, v := range p {
		out = append(out, [3]int{k[0], k[1], v})
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i][0] < out[j][0] || out[i][0] == out[j][0] && out[i][1] < out[j][1]
	})
	return out
}

// RandPairs makes kerning pairs of n glyphs.
func RandPairs(r *rand.Rand, n, k int) Pairs {
	p := Pairs{}
	hot := r.Intn(n)
	for i := 0; i < k; i++ {
		l, rt := r.Intn(n), r.Intn(n)
		switch r.Intn(6) {
		case 0:
			l = hot
		case 1:
			rt = hot
		case 2:
			l, rt = n-1, n-1-r.Intn(n)
		}
		v := r.Intn(401) - 200
		switch r.Intn(12) {
		case 0:
			v = 0
		case 1:
			v = r.Intn(8001) - 4000
		}
		p[[2]int{l, rt}] = v
	}
	return p
}

func kernBody(w *W, p Pairs) {
	ps := p.sorted()
	n := len(ps)
	s, e := 1, 0
	for 2*s <= n {
		s *= 2
		e++
	}
	if n == 0 {
		s = 0
	}
	w.U16(n)
	w.U16(6 * s)
	w.U16(e)
	w.U16(6 * (n - s))
	for _, q := range ps {
		w.U16(q[0])
		w.U16(q[1])
		w.U16(q[2])
	}
}

// KernSub is a kerning subtable.
type KernSub struct {
	Flags int // Microsoft coverage bits 0-3 or the Apple high byte
	Pairs Pairs
	Slack int // unused bytes after the pairs
	Mix   int // pairs in an order that the format does not allow: 1 any, 2 only of the right glyphs
}

// body writes the pairs.
func (s KernSub) body(w *W) {
	o := w.Len() + 8
	kernBody(w, s.Pairs)
	n := len(s.Pairs)
	key := func(i int) int { return int(ref.U32(w.B, o+6*i)) }
	swap := func(i, j int) {
		for k := 0; k < 6; k++ {
			w.B[o+6*i+k], w.B[o+6*j+k] = w.B[o+6*j+k], w.B[o+6*i+k]
		}
	}
	switch s.Mix {
	case 1:
		for i := 1; i < n; i++ {
			swap(i, (i*i*7+i*3)%(i+1))
		}
	case 2: // reverse the right glyphs of each left glyph
		for i := 0; i < n; {
			k := i
			for k < n && key(k)>>16 == key(i)>>16 {
				k++
			}
			for a, b := i, k-1; a < b; a, b = a+1, b-1 {
				swap(a, b)
			}
			i = k
		}
	}
	for i := 0; i < s.Slack; i++ {
		w.U8(0xFF - i)
	}
}

func EncodeKern(subs []KernSub, apple bool) []byte {
	w := &W{}
	if apple {
		w.U32(0x10000)
		w.U32(len(subs))
		for _, s := range subs {
			o := w.Len()
			w.U32(0)
			w.U8(s.Flags)
			w.U8(0)
			w.U16(0)
			s.body(w)
			w.Set32(o, w.Len()-o)
		}
		return w.B
	}
	w.U16(0)
	w.U16(len(subs))
	for _, s := range subs {
		o := w.Len()
		w.U16(0)
		w.U16(0)
		w.U8(0)
		w.U8(s.Flags)
		s.body(w)
		w.Set16(o+2, w.Len()-o)
	}
	return w.B
}

// BigKern makes a kerning table of which the last subtable, or any subtable of the Apple format, has about as many pairs
// as a 16-bit length can express (10920) or more; larger lengths are stored modulo 65536, as real fonts do.
func BigKern(r *rand.Rand, n int) []byte {
	big := func() Pairs {
		k := 10917 + r.Intn(8)
		switch r.Intn(3) {
		case 0:
			k = 10900 + r.Intn(14000)
		case 1:
			k = 21838 + r.Intn(6)
		}
		k = min(k, n*n)
		p := Pairs{}
		for _, x := range r.Perm(n * n)[:k] {
			p[[2]int{x / n, x % n}] = r.Intn(401) - 200
		}
		return p
	}
	var subs []KernSub
	for i := r.Intn(3); i > 0; i-- {
		subs = append(subs, KernSub{Flags: 1, Pairs: RandPairs(r, n, 1+r.Intn(100))})
	}
	if r.Intn(4) == 0 {
		for i := range subs {
			subs[i].Flags = 0
		}
		for i := 0; i <= r.Intn(2); i++ {
			subs = append(subs, KernSub{Pairs: big()})
		}
		return EncodeKern(append(subs, KernSub{Pairs: RandPairs(r, n, 20)}), true)
	}
	return EncodeKern(append(subs, KernSub{Flags: []int{1, 1, 1, 3, 9, 0}[r.Intn(6)], Pairs: big(), Mix: r.Intn(6) / 5}), false)
}

// RandKern makes a kerning table for n glyphs.
func RandKern(r *rand.Rand, n int) []byte {
	k := 1 + r.Intn(60)
	if r.Intn(4) == 0 {
		k = 300
	}
	odd := r.Intn(3) == 0
	slack := func() int {
		if !odd || r.Intn(3) > 0 {
			return 0
		}
		return 1 + r.Intn(40)
	}
	mix := func() int {
		if !odd || r.Intn(3) > 0 {
			return 0
		}
		return 1 + r.Intn(2)
	}
	if r.Intn(5) == 0 {
		var subs []KernSub
		for i := 0; i <= r.Intn(3); i++ {
			subs = append(subs, KernSub{Flags: []int{0, 0, 0, 0x80, 0x40, 0xC0}[r.Intn(6)], Pairs: RandPairs(r, n, k), Slack: slack(), Mix: mix()})
		}
		return EncodeKern(subs, true)
	}
	var subs []KernSub
	base := RandPairs(r, n, k)
	for i := 0; i <= r.Intn(4); i++ {
		p := RandPairs(r, n, 1+r.Intn(k))
		for _, q := range base.sorted() { // overlap between subtables
			if r.Intn(2) == 0 {
				p[[2]int{q[0], q[1]}] = r.Intn(401) - 200
			}
		}
		if i == 0 {
			p = base
		}
		fl := []int{1, 1, 1, 1, 3, 9, 0, 5}[r.Intn(8)]
		if r.Intn(12) == 0 {
			p = Pairs{}
		}
		subs = append(subs, KernSub{Flags: fl, Pairs: p, Slack: slack(), Mix: mix()})
	}
	return EncodeKern(subs, false)
}

////////////////////////////////////////////////////////////////

var nameAlphabet = []string{"alpha", "uni0041", "A.sc", "f_f_i", "a", "B", "glyph", "x.alt", "Zcaron", "space", "uni20AC", "u1F600", "zero.tnum", ".notdef", "dcroat", "longnamelongnamelongnamelongnamelongnamelongnamelongnamelongnam"}

// RandNames makes n glyph names. Distinct unless dup.
func RandNames(r *rand.Rand, n int, dup bool) []string {
	out := make([]string, n)
	seen := map[string]bool{}
	custom := n > 200 && r.Intn(2) == 0 // no standard names, in long ranges
	for i := range out {
		var s string
		k := r.Intn(5)
		if custom {
			k = 2
		}
		switch k {
		case 0:
			s = ref.MacNames[r.Intn(258)]
		case 1:
			s = nameAlphabet[r.Intn(len(nameAlphabet))]
		case 2:
			s = fmt.Sprintf("g%d", i)
		case 3:
			s = fmt.Sprintf("%s%d", nameAlphabet[r.Intn(15)], r.Intn(2*n+1))
		case 4:
			s = fmt.Sprintf("cid%05d", r.Intn(n*3+1))
			if dup && r.Intn(6) == 0 {
				s = ""
			}
		}
		if i == 0 && r.Intn(4) != 0 {
			s = ".notdef"
		}
		if !dup && seen[s] {
			s = fmt.Sprintf("u.%d", i)
		}
		if len(s) > 63 {
			s = s[:63]
		}
		seen[s] = true
		out[i] = s
	}
	return out
}

// EncodePost encodes a post table. version is 1, 2 or 3.
func EncodePost(r *rand.Rand, version int, names []string) []byte {
	w := &W{}
	w.U32(version << 16)
	w.U32(int(int32(r.Intn(40*65536) - 20*65536)))
	w.U16(r.Intn(400) - 300)
	w.U16(r.Intn(200))
	w.U32(r.Intn(2))
	for i := 0; i < 4; i++ {
		w.U32(r.Intn(1 << 20))
	}
	if version != 2 {
		return w.B
	}
	w.U16(len(names))
	std := map[string]int{}
	for i, s := range ref.MacNames {
		std[s] = i
	}
	var strs []string
	at := map[string]int{}
	reuse := r.Intn(2) == 0
	if r.Intn(8) == 0 {
		strs = append(strs, "unused")
	}
	for _, s := range names {
		if k, ok := std[s]; ok && r.Intn(12) != 0 {
			w.U16(k)
			continue
		}
		if k, ok := at[s]; ok && reuse {
			w.U16(258 + k)
			continue
		}
		at[s] = len(strs)
		w.U16(258 + len(strs))
		strs = append(strs, s)
	}
	for _, s := range strs {
		w.U8(len(s))
		w.Str(s)
	}
	return w.B
}

// UTF16 encodes text as big-endian UTF-16.
func UTF16(s string) []byte {
	w := &W{}
	for _, u := range utf16.Encode([]rune(s)) {
		w.U16(int(u))
	}
	return w.B
}

var nameTexts = []string{"Example", "Bold", "Éxample Größe", "日本語フォント", "😀 emoji", "", "Version 1.000", "A", "Семейство", "Example Sans", "\uFEFFBOM", "\uFFFE\u4100", "\uFFFD \uFFFF", "\U00010000\U0010FFFF", "a\x00b", "\uFEFF"}

// NameRec is a name record.
type NameRec struct {
	P, E, L, ID int
	Raw         []byte
}

// EncodeName encodes a name table.
func EncodeName(r *rand.Rand, recs []NameRec, langs []string) []byte {
	sort.SliceStable(recs, func(i, j int) bool {
		a, b := recs[i], recs[j]
		if a.P != b.P {
			return a.P < b.P
		}
		if a.E != b.E {
			return a.E < b.E
		}
		if a.L != b.L {
			return a.L < b.L
		}
		return a.ID < b.ID
	})
	v := 0
	so := 6 + 12*len(recs)
	if langs != nil {
		v = 1
		so += 2 + 4*len(langs)
	}
	st := &W{}
	at := map[string]int{}
	share := r.Intn(2) == 0
	put := func(b []byte) int {
		if o, ok := at[string(b)]; ok && share {
			return o
		}
		o := st.Len()
		at[string(b)] = o
		st.Bytes(b)
		return o
	}
	w := &W{}
	w.U16(v)
	w.U16(len(recs))
	w.U16(so)
	for _, rc := range recs {
		w.U16(rc.P)
		w.U16(rc.E)
		w.U16(rc.L)
		w.U16(rc.ID)
		w.U16(len(rc.Raw))
		w.U16(put(rc.Raw))
	}
	if langs != nil {
		w.U16(len(langs))
		for _, l := range langs {
			b := UTF16(l)
			w.U16(len(b))
			w.U16(put(b))
		}
	}
	w.Bytes(st.B)
	return w.B
}

// RandName makes a name table.
func RandName(r *rand.Rand) []byte {
	var recs []NameRec
	n := r.Intn(14)
	type key struct{ p, e, l, id int }
	seen := map[key]bool{}
	for i := 0; i < n; i++ {
		rc := NameRec{P: 3, E: 1, L: 0x409, ID: r.Intn(26)}
		txt := nameTexts[r.Intn(len(nameTexts))]
		switch r.Intn(5) {
		case 0:
			rc.P, rc.E, rc.L = 0, 3, 0
		case 1:
			rc.P, rc.E, rc.L = 1, 0, 0
			rc.Raw = []byte([]string{"Example", "Gr\x9a\xa7e", "\xa9 1999 \xcaX", ""}[r.Intn(4)])
		case 2:
			rc.E = []int{0, 1, 10}[r.Intn(3)]
			rc.L = []int{0x409, 0x407, 0x411}[r.Intn(3)]
		}
		if rc.P != 1 {
			rc.Raw = UTF16(txt)
		}
		k := key{rc.P, rc.E, rc.L, rc.ID}
		if !seen[k] {
			seen[k] = true
			recs = append(recs, rc)
		}
	}
	var langs []string
	if r.Intn(4) == 0 {
		langs = []string{}
		for i := 0; i < r.Intn(3); i++ {
			langs = append(langs, []string{"en", "de-AT", "ja", "en", "de", "", "\uFEFFen", "\uFFFE\u4100", "日本"}[r.Intn(9)])
		}
	}
	return EncodeName(r, recs, langs)
}

// RandOS2 makes an OS/2 table; version -1 is random.
func RandOS2(r *rand.Rand, version, first, last int) []byte {
	w := &W{}
	if version < 0 {
		version = r.Intn(6)
	}
	w.U16(version)
	w.U16(r.Intn(1200))
	w.U16(100 * (1 + r.Intn(9)))
	w.U16(1 + r.Intn(9))
	w.U16([]int{0, 2, 4, 8, 0x100}[r.Intn(5)])
	for i := 0; i < 10; i++ {
		w.U16(r.Intn(1500) - 500)
	}
	w.U16(r.Intn(3000))
	w.Bytes(randBytes(r, 10))
	w.Bytes(randBytes(r, 16))
	w.Str([]string{"TEST", "ABCD", "    "}[r.Intn(3)])
	w.U16(r.Intn(0x400)) // fsSelection
	w.U16(first)
	w.U16(last)
	if version == 0 && r.Intn(3) == 0 {
		return w.B // 68 bytes
	}
	zero := r.Intn(5) == 0
	for i := 0; i < 5; i++ {
		v := r.Intn(1500)
		switch {
		case zero && (i == 0 || i == 1):
			v = 0
		case i == 1:
			v = -v / 3
		case i == 2:
			v = r.Intn(4) * r.Intn(100)
			if r.Intn(8) == 0 {
				v = -v
			}
		case i > 2 && r.Intn(5) == 0:
			v = 0
		}
		w.U16(v)
	}
	if version == 0 {
		return w.B
	}
	w.Bytes(randBytes(r, 8))
	if version == 1 {
		return w.B
	}
	w.U16(r.Intn(800))
	w.U16(r.Intn(900))
	w.U16(r.Intn(100))
	w.U16(32)
	w.U16(r.Intn(10))
	if version == 5 {
		w.U16(r.Intn(1000))
		w.U16(1000 + r.Intn(1000))
	}
	return w.B
}
