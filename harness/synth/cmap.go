package synth

import (
	"math/rand"
	"sort"

	"golang.org/x/text/encoding/charmap"
)

var specialRunes = []rune{0, 1, 9, 13, 31, 32, 'A', 'a', 'z', 0x7F, 0x80, 0xA0, 0xFF, 0x100, 0x2126, 0x3A9, 0x7FFF, 0x8000, 0xD7FF, 0xE000, 0xF0A0, 0xFFFD, 0xFFFE, 0xFFFF, 0xFFFF}
var highRunes = []rune{0x10000, 0x10001, 0x1F600, 0x1FFFF, 0x20000, 0x2FA1D, 0xE0001, 0xF0000, 0x10FFFE, 0x10FFFF}

// EdgeRunes are code points at the edges of Unicode blocks.
var EdgeRunes []rune

// RandMap makes a random code point to glyph map. max is the largest code point. size is a rough size.
func RandMap(r *rand.Rand, n int, max rune, size int) map[rune]int {
	m := map[rune]int{}
	for len(m) < size {
		switch r.Intn(7) {
		case 0: // contiguous codes and glyphs
			c := rune(r.Intn(int(max)))
			if r.Intn(2) == 0 {
				c = rune(r.Intn(400))
			}
			g := r.Intn(n)
			k := 1 + r.Intn(40)
			for i := 0; i < k && c <= max && g < n; i++ {
				m[c] = g
				c++
				g++
			}
		case 1: // contiguous codes, random glyphs
			c := rune(r.Intn(0x3000))
			k := 1 + r.Intn(30)
			for i := 0; i < k && c <= max; i++ {
				m[c] = r.Intn(n)
				c++
			}
		case 2: // contiguous codes, partly contiguous glyphs
			c := rune(0x20 + r.Intn(0x500))
			for b := 0; b < 3; b++ {
				k, g := 1+r.Intn(14), r.Intn(n)
				for i := 0; i < k && g < n && c <= max; i++ {
					m[c] = g
					c++
					g++
				}
			}
		case 3: // every other code
			c := rune(r.Intn(0x2000))
			for i := 0; i < 1+r.Intn(10) && c <= max; i++ {
				m[c] = r.Intn(n)
				c += 2
			}
		case 4: // several codes of one glyph
			g := r.Intn(n)
			for i := 0; i < 2+r.Intn(3); i++ {
				m[rune(r.Intn(int(max)+1))] = g
			}
		case 5:
			m[specialRunes[r.Intn(len(specialRunes))]%(max+1)] = r.Intn(n)
			for i := 0; i < 3 && len(EdgeRunes) > 0; i++ {
				if c := EdgeRunes[r.Intn(len(EdgeRunes))]; c <= max {
					m[c] = r.Intn(n)
				}
			}
		case 6:
			if max > 0xFFFF {
				c := highRunes[r.Intn(len(highRunes))]
				g := r.Intn(n)
				for i := 0; i < 1+r.Intn(6) && c <= max; i++ {
					m[c] = g
					c++
					if r.Intn(3) > 0 {
						g = (g + 1) % n
					}
				}
			}
		}
	}
	if r.Intn(3) == 0 { // the characters from which heights are taken
		m['x'], m['H'] = r.Intn(n), r.Intn(n)
	}
	for c := rune(0xD800); c < 0xE000 && len(m) > 0; c++ { // no surrogates
		delete(m, c)
	}
	return m
}

func sortedRunes(m map[rune]int) []rune {
	rs := make([]rune, 0, len(m))
	for c := range m {
		rs = append(rs, c)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return rs
}

// Sub is a character map subtable to encode.
type Sub struct {
	Recs   [][2]int // platform and encoding of the records that refer to it
	Format int
	Map    map[rune]int // by character code of the encoding
}

// EncodeSub encodes one subtable with random choices; codes the format cannot hold are dropped.
func EncodeSub(r *rand.Rand, s Sub) []byte {
	w := &W{}
	switch s.Format {
	case 0:
		w.U16(0)
		w.U16(262)
		w.U16(0)
		for c := rune(0); c < 256; c++ {
			g := s.Map[c]
			if g > 255 {
				g = 0
			}
			w.U8(g)
		}
	case 4:
		type seg struct {
			s, e rune
			ids  []int // nil when delta
			d    int
		}
		var segs []seg
		rs := sortedRunes(s.Map)
		for len(rs) > 0 && rs[len(rs)-1] >= 0xFFFF {
			rs = rs[:len(rs)-1]
		}
		style := r.Intn(4)
		for i := 0; i < len(rs); {
			j := i + 1
			gap := rune(1)
			if style == 1 {
				gap = rune(1 + r.Intn(5)) // arrays that include unmapped codes as glyph 0
			}
			for j < len(rs) && rs[j]-rs[j-1] <= gap && j-i < 2000 && !(style == 2 && r.Intn(10) == 0) {
				j++
			}
			contig := true
			for k := i + 1; k < j; k++ {
				if rs[k] != rs[k-1]+1 || s.Map[rs[k]] != s.Map[rs[k-1]]+1 {
					contig = false
					if style == 3 && rs[k] == rs[k-1]+1 { // split at discontinuities
						j = k
						contig = true
						break
					}
				}
			}
			sg := seg{s: rs[i], e: rs[j-1]}
			if contig && r.Intn(4) != 0 {
				sg.d = s.Map[rs[i]] - int(rs[i])
			} else {
				if r.Intn(2) == 0 {
					sg.d = r.Intn(65536)
				}
				for c := sg.s; c <= sg.e; c++ {
					g := s.Map[c]
					if g != 0 {
						g = (g - sg.d) & 0xFFFF
						if g == 0 { // cannot be expressed with this delta
							sg.d, sg.ids = 0, nil
							c = sg.s - 1
							continue
						}
					}
					sg.ids = append(sg.ids, g)
				}
			}
			segs = append(segs, sg)
			i = j
		}
		segs = append(segs, seg{s: 0xFFFF, e: 0xFFFF, d: 1})
		n := len(segs)
		p, e := 1, 0
		for 2*p <= n {
			p *= 2
			e++
		}
		w.U16(4)
		w.U16(0)
		w.U16(0)
		w.U16(2 * n)
		w.U16(2 * p)
		w.U16(e)
		w.U16(2 * (n - p))
		for _, sg := range segs {
			w.U16(int(sg.e))
		}
		w.U16(0)
		for _, sg := range segs {
			w.U16(int(sg.s))
		}
		for _, sg := range segs {
			w.U16(sg.d)
		}
		var arr []int
		if r.Intn(6) == 0 {
			arr = append(arr, 0) // unused leading element
		}
		for i, sg := range segs {
			if sg.ids == nil {
				w.U16(0)
				continue
			}
			at := -1
			for k := 0; k+len(sg.ids) <= len(arr) && at < 0; k++ { // share
				at = k
				for q := range sg.ids {
					if arr[k+q] != sg.ids[q] {
						at = -1
						break
					}
				}
			}
			if at < 0 {
				at = len(arr)
				arr = append(arr, sg.ids...)
			}
			w.U16(2 * (n - i + at))
		}
		for _, v := range arr {
			w.U16(v)
		}
		if w.Len() > 0xFFFF {
			return nil
		}
		w.Set16(2, w.Len())
	case 6:
		rs := sortedRunes(s.Map)
		if len(rs) == 0 {
			rs = []rune{0}
		}
		first := rs[0]
		k := len(rs)
		for k > 1 && (rs[k-1] > 0xFFFF || rs[k-1]-first > 3000) {
			k--
		}
		cnt := int(rs[k-1]-first) + 1
		w.U16(6)
		w.U16(10 + 2*cnt)
		w.U16(0)
		w.U16(int(first))
		w.U16(cnt)
		for i := 0; i < cnt; i++ {
			w.U16(s.Map[first+rune(i)])
		}
	case 12:
		rs := sortedRunes(s.Map)
		w.U16(12)
		w.U16(0)
		w.U32(0)
		w.U32(0)
		w.U32(0)
		split := r.Intn(3) == 0
		n := 0
		for i := 0; i < len(rs); {
			j := i + 1
			for j < len(rs) && rs[j] == rs[j-1]+1 && s.Map[rs[j]] == s.Map[rs[j-1]]+1 && !(split && r.Intn(4) == 0) {
				j++
			}
			w.U32(int(rs[i]))
			w.U32(int(rs[j-1]))
			w.U32(s.Map[rs[i]])
			n++
			i = j
		}
		w.Set32(4, w.Len())
		w.Set32(12, n)
	case 14:
		w.U16(14)
		w.U32(10)
		w.U32(0)
	}
	return w.B
}

// EncodeCmap encodes a character map table; the subtables are laid out in random order.
func EncodeCmap(r *rand.Rand, subs []Sub) []byte {
	type rec struct{ p, e, s int }
	var recs []rec
	for i, s := range subs {
		for _, pe := range s.Recs {
			recs = append(recs, rec{pe[0], pe[1], i})
		}
	}
	sort.SliceStable(recs, func(i, j int) bool {
		return recs[i].p < recs[j].p || recs[i].p == recs[j].p && recs[i].e < recs[j].e
	})
	w := &W{}
	w.U16(0)
	w.U16(len(recs))
	for range recs {
		w.U32(0)
		w.U32(0)
	}
	off := make([]int, len(subs))
	for _, i := range r.Perm(len(subs)) {
		b := EncodeSub(r, subs[i])
		if b == nil {
			s := subs[i]
			s.Map = map[rune]int{}
			b = EncodeSub(r, s)
		}
		off[i] = w.Len()
		w.Bytes(b)
		if r.Intn(2) == 0 {
			w.Pad(4)
		} else {
			w.Pad(2)
		}
	}
	for i, rc := range recs {
		w.Set16(4+8*i, rc.p)
		w.Set16(6+8*i, rc.e)
		w.Set32(8+8*i, off[rc.s])
	}
	return w.B
}

func macCodes(m map[rune]int) map[rune]int {
	out := map[rune]int{}
	for c, g := range m {
		if b, ok := charmap.Macintosh.EncodeRune(c); ok {
			out[rune(b)] = g
		}
	}
	return out
}

func mutateMap(r *rand.Rand, m map[rune]int, n int, max rune) map[rune]int {
	out := map[rune]int{}
	for _, c := range sortedRunes(m) {
		switch r.Intn(6) {
		case 0:
		case 1:
			out[c] = r.Intn(n)
		default:
			out[c] = m[c]
		}
	}
	for c, g := range RandMap(r, n, max, 5) {
		out[c] = g
	}
	return out
}

// RandCmap makes a character map for n glyphs. kind selects the combination of subtables, -1 is random.
func RandCmap(r *rand.Rand, n, kind, size int) []byte {
	if kind < 0 {
		kind = r.Intn(NumCmapKinds)
	}
	bmp := RandMap(r, n, 0xFFFF, size)
	full := RandMap(r, n, 0x10FFFF, size)
	merged := map[rune]int{}
	for c, g := range bmp {
		merged[c] = g
	}
	for c, g := range full {
		if c > 0xFFFF {
			merged[c] = g
		}
	}
	low := RandMap(r, n, 0xFF, 30)
	var subs []Sub
	switch kind {
	case 0:
		subs = []Sub{{[][2]int{{3, 1}}, 4, bmp}}
	case 1:
		subs = []Sub{{[][2]int{{0, 3}, {3, 1}}, 4, bmp}}
	case 2:
		subs = []Sub{{[][2]int{{0, 3}, {3, 1}}, 4, bmp}, {[][2]int{{0, 4}, {3, 10}}, 12, merged}}
	case 3:
		subs = []Sub{{[][2]int{{1, 0}}, 0, macCodes(bmp)}, {[][2]int{{3, 1}}, 4, bmp}}
	case 4:
		subs = []Sub{{[][2]int{{1, 0}}, 6, macCodes(low)}, {[][2]int{{3, 1}}, 4, bmp}, {[][2]int{{3, 10}}, 12, full}}
	case 5:
		sym := map[rune]int{}
		for c, g := range low {
			sym[0xF000+c] = g
		}
		subs = []Sub{{[][2]int{{3, 0}}, 4, sym}}
		if r.Intn(2) == 0 {
			subs = append(subs, Sub{[][2]int{{1, 0}}, 0, low})
		}
	case 6:
		subs = []Sub{{[][2]int{{0, 3}}, 6, bmp}}
	case 7:
		subs = []Sub{{[][2]int{{0, 0}}, 0, low}}
	case 8:
		subs = []Sub{{[][2]int{{1, 0}}, []int{0, 6, 4}[r.Intn(3)], low}}
	case 9:
		subs = []Sub{{[][2]int{{0, 4}}, 12, full}, {[][2]int{{0, 5}}, 14, nil}}
	case 10:
		subs = []Sub{{[][2]int{{3, 10}}, 12, full}}
	case 11: // subtables that disagree
		subs = []Sub{{[][2]int{{0, 3}}, 4, bmp}, {[][2]int{{3, 1}}, 4, mutateMap(r, bmp, n, 0xFFFF)}, {[][2]int{{3, 10}}, 12, mutateMap(r, merged, n, 0x10FFFF)}}
	case 12: // Mac and Unicode sharing a subtable
		ascii := map[rune]int{}
		for c, g := range low {
			ascii[c] = g
		}
		f := []int{0, 4, 6}[r.Intn(3)]
		subs = []Sub{{[][2]int{{0, 3}, {1, 0}, {3, 1}}, f, ascii}}
	case 13:
		subs = []Sub{{[][2]int{{3, 1}}, 6, bmp}, {[][2]int{{0, 3}}, 12, full}}
	case 14:
		subs = []Sub{{[][2]int{{3, 1}}, 4, map[rune]int{}}}
		if r.Intn(2) == 0 {
			subs = nil
		}
	}
	return EncodeCmap(r, subs)
}

const NumCmapKinds = 15
