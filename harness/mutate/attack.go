package mutate

import (
	"math/rand"
	"sort"

	"verif/synth"
)

// Simple returns the tables that a font of n glyphs needs besides its outlines.
func Simple(n int, cff bool) map[string][]byte {
	t := map[string][]byte{}
	w := &synth.W{}
	w.U16(1)
	w.U16(0)
	w.U32(0x10000)
	w.U32(0)
	w.U32(0x5F0F3CF5)
	w.U16(0)
	w.U16(1000)
	w.U32(0)
	w.U32(1 << 28)
	w.U32(0)
	w.U32(1 << 28)
	for _, v := range []int{0, 0, 1000, 1000, 0, 8, 2, 1, 0} { // long loca
		w.U16(v)
	}
	t["head"] = w.B
	w = &synth.W{}
	for _, v := range []int{1, 0, 800, -200, 0, 1000, 0, 0, 1000, 1, 0, 0, 0, 0, 0, 0, 0, 1} {
		w.U16(v)
	}
	t["hhea"] = w.B
	w = &synth.W{}
	w.U16(500)
	for i := 0; i < n; i++ {
		w.U16(0)
	}
	t["hmtx"] = w.B
	w = &synth.W{}
	if cff {
		w.U32(0x5000)
		w.U16(n)
	} else {
		w.U32(0x10000)
		w.U16(n)
		for k := 0; k < 13; k++ {
			w.U16(8)
		}
	}
	t["maxp"] = w.B
	w = &synth.W{}
	w.U16(0)
	w.U16(0)
	w.U16(6)
	t["name"] = w.B
	w = &synth.W{}
	w.U32(0x30000)
	for k := 0; k < 7; k++ {
		w.U32(0)
	}
	t["post"] = w.B
	t["cmap"] = Cmap12(map[int]int{65: min(1, n-1)})
	return t
}

// Cmap12 makes a cmap table with one group per rune.
func Cmap12(m map[int]int) []byte {
	w := &synth.W{}
	w.U16(0)
	w.U16(1)
	w.U16(3)
	w.U16(10)
	w.U32(12)
	w.U16(12)
	w.U16(0)
	w.U32(16 + 12*len(m))
	w.U32(0)
	w.U32(len(m))
	var xs []int
	for x := range m {
		xs = append(xs, x)
	}
	sort.Ints(xs)
	for _, x := range xs {
		w.U32(x)
		w.U32(x)
		w.U32(m[x])
	}
	return w.B
}

// TrueType puts glyphs in a font.
func TrueType(t map[string][]byte, glyphs [][]byte) {
	w, l := &synth.W{}, &synth.W{}
	for _, g := range glyphs {
		l.U32(w.Len())
		w.Bytes(g)
		w.Pad(4)
	}
	l.U32(w.Len())
	t["glyf"], t["loca"] = w.B, l.B
}

// Ref is a reference of a composite glyph.
type Ref struct{ G, Flags, X, Y int }

// Composite makes a composite glyph.
func Composite(r *rand.Rand, refs []Ref) []byte {
	w := &synth.W{}
	w.U16(-1)
	for k := 0; k < 4; k++ {
		w.U16(0)
	}
	for i, x := range refs {
		f := x.Flags
		if i+1 < len(refs) {
			f |= 0x20
		} else {
			f &^= 0x20
		}
		w.U16(f)
		w.U16(x.G)
		if f&1 != 0 {
			w.U16(x.X)
			w.U16(x.Y)
		} else {
			w.U8(x.X)
			w.U8(x.Y)
		}
		k := 0
		switch {
		case f&0x08 != 0:
			k = 1
		case f&0x40 != 0:
			k = 2
		case f&0x80 != 0:
			k = 4
		}
		for ; k > 0; k-- {
			w.U16([]int{0x4000, 0x7FFF, -0x8000, r.Intn(0x10000)}[r.Intn(4)])
		}
		if f&0x100 != 0 && i+1 == len(refs) {
			w.U16(0)
		}
	}
	return w.B
}

// Square is a simple glyph.
func Square() []byte {
	w := &synth.W{}
	for _, v := range []int{1, 0, 0, 100, 100, 3, 0} {
		w.U16(v)
	}
	w.Bytes([]byte{0x37, 0x33, 0x35, 0x23, 0, 100, 100, 100, 100, 100})
	return w.B
}

// Dense is a simple glyph of n points in c contours that is stored in few bytes.
func Dense(n, c int) []byte {
	w := &synth.W{}
	w.U16(c)
	for k := 0; k < 4; k++ {
		w.U16(0)
	}
	for i := 1; i <= c; i++ {
		w.U16(i*n/c - 1)
	}
	w.U16(0)
	for k := n; k > 0; {
		x := min(k, 256)
		w.U8(0x39)
		w.U8(x - 1)
		k -= x
	}
	return w.B
}

// CFF is what a simple CFF table is made of.
type CFF struct {
	Chars, Global, Local [][]byte
	Strings              [][]byte
	SIDs                 []int  // of the glyphs from 1, nil is 391 and on
	Top, Private         []byte // further operators
	FDs                  int    // number of Font DICTs, 0 is a font that is not CID-keyed
	Select               []byte
	FontDict             []byte // further operators of Font DICTs
}

// Num encodes an operand in five bytes.
func Num(v int) []byte {
	return []byte{29, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// CSNum encodes an operand of a charstring.
func CSNum(v int) []byte {
	if v >= -107 && v <= 107 {
		return []byte{byte(v + 139)}
	}
	return []byte{28, byte(v >> 8), byte(v)}
}

// Index encodes an INDEX.
func Index(items [][]byte) []byte {
	w := &synth.W{}
	w.U16(len(items))
	if len(items) == 0 {
		return w.B
	}
	n := 1
	for _, b := range items {
		n += len(b)
	}
	sz := 1
	for n>>(8*sz) != 0 {
		sz++
	}
	w.U8(sz)
	o := 1
	put := func() {
		for i := sz - 1; i >= 0; i-- {
			w.U8(o >> (8 * i))
		}
	}
	put()
	for _, b := range items {
		o += len(b)
		put()
	}
	for _, b := range items {
		w.Bytes(b)
	}
	return w.B
}

// Bias is what is subtracted from subroutine numbers in an INDEX of n.
func Bias(n int) int {
	if n < 1240 {
		return 107
	} else if n < 33900 {
		return 1131
	}
	return 32768
}

// Encode makes the table.
func (f *CFF) Encode() []byte {
	var charset, private, local, fdarray []byte
	w := &synth.W{}
	w.U8(0)
	for i := 1; i < len(f.Chars); i++ {
		if f.SIDs != nil {
			w.U16(f.SIDs[min(i-1, len(f.SIDs)-1)])
		} else {
			w.U16(390 + i)
		}
	}
	charset = w.B
	private = append([]byte{}, f.Private...)
	if f.Local != nil {
		local = Index(f.Local)
		private = append(private, Num(len(private)+6)...)
		private = append(private, 19)
	}
	chars := Index(f.Chars)
	var b []byte
	off := map[string]int{}
	for pass := 0; pass < 2; pass++ {
		top := &synth.W{}
		if f.FDs > 0 {
			for _, v := range []int{391, 391, 0} {
				top.Bytes(Num(v))
			}
			top.Bytes([]byte{12, 30})
		}
		top.Bytes(Num(off["charset"]))
		top.U8(15)
		top.Bytes(Num(off["chars"]))
		top.U8(17)
		if f.FDs > 0 {
			top.Bytes(Num(off["fdarray"]))
			top.Bytes([]byte{12, 36})
			top.Bytes(Num(off["select"]))
			top.Bytes([]byte{12, 37})
			d := append(append(append(append([]byte{}, f.FontDict...), Num(len(private))...), Num(off["private"])...), 18)
			var ds [][]byte
			for k := 0; k < f.FDs; k++ {
				ds = append(ds, d)
			}
			fdarray = Index(ds)
		} else {
			top.Bytes(Num(len(private)))
			top.Bytes(Num(off["private"]))
			top.U8(18)
		}
		top.Bytes(f.Top)
		w := &synth.W{}
		w.Bytes([]byte{1, 0, 4, 4})
		w.Bytes(Index([][]byte{[]byte("Attack")}))
		w.Bytes(Index([][]byte{top.B}))
		w.Bytes(Index(f.Strings))
		w.Bytes(Index(f.Global))
		off["charset"] = w.Len()
		w.Bytes(charset)
		off["chars"] = w.Len()
		w.Bytes(chars)
		off["private"] = w.Len()
		w.Bytes(private)
		w.Bytes(local)
		if f.FDs > 0 {
			off["fdarray"] = w.Len()
			w.Bytes(fdarray)
			off["select"] = w.Len()
			if f.Select != nil {
				w.Bytes(f.Select)
			} else {
				w.U8(0)
				w.Bytes(make([]byte, len(f.Chars)))
			}
		}
		b = w.B
	}
	return b
}

var csOps = []byte{1, 3, 4, 5, 6, 7, 8, 10, 11, 14, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 29, 30, 31, 12}

// soup makes a charstring of operators and operands without sense.
func soup(r *rand.Rand, nsubr int) []byte {
	var b []byte
	if r.Intn(3) > 0 {
		b = append(append(b, CSNum(5)...), append(CSNum(5), 21)...)
	}
	for k := 1 + r.Intn(12); k > 0; k-- {
		n := []int{0, 1, 2, 3, 4, 5, 6, 8, 9, 11, 12, 13, 24, 47, 48, 49}[r.Intn(16)]
		for ; n > 0; n-- {
			switch r.Intn(8) {
			case 0:
				b = append(b, 255, byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)))
			case 1:
				b = append(b, CSNum([]int{32767, -32768}[r.Intn(2)])...)
			case 2:
				b = append(b, CSNum(r.Intn(2*nsubr+3)-nsubr-1-Bias(nsubr))...)
			default:
				b = append(b, CSNum(r.Intn(200)-100)...)
			}
		}
		o := csOps[r.Intn(len(csOps))]
		b = append(b, o)
		if o == 12 {
			b = append(b, byte(r.Intn(40)))
		}
		if o == 19 || o == 20 {
			x := make([]byte, r.Intn(4))
			r.Read(x)
			b = append(b, x...)
		}
	}
	if r.Intn(4) > 0 {
		b = append(b, []byte{14, 11}[r.Intn(2)])
	}
	return b
}

// dictSoup makes DICT data without sense.
func dictSoup(r *rand.Rand) []byte {
	var b []byte
	for k := 1 + r.Intn(8); k > 0; k-- {
		for n := r.Intn(4) * r.Intn(4) * (1 + r.Intn(6)); n > 0; n-- {
			switch r.Intn(6) {
			case 0:
				b = append(b, 30)
				for m := r.Intn(12); m > 0; m-- {
					b = append(b, byte(r.Intn(256)))
				}
				b = append(b, 0xFF)
			case 1:
				b = append(b, Num(int(int32(r.Uint32())))...)
			case 2:
				b = append(b, 28, byte(r.Intn(256)), byte(r.Intn(256)))
			case 3:
				b = append(b, Num(r.Intn(400))...)
			default:
				b = append(b, byte(32+r.Intn(215)))
			}
		}
		o := r.Intn(28)
		b = append(b, byte(o))
		if o == 12 {
			b = append(b, byte(r.Intn(40)))
		}
	}
	return b
}

func call(n, of int, op byte) []byte { return append(CSNum(n-Bias(of)), op) }

// Attack makes a font whose structures refer to each other in ways that cost a careless reader time, memory or stack.
// big allows large files.
func Attack(r *rand.Rand, big bool) (string, []byte) {
	scale := 1
	if big {
		scale = 4
	}
	size := func(n int) int { return 1 + r.Intn(n*scale) }
	n := 2 + r.Intn(40)
	version := "\x00\x01\x00\x00"
	var t map[string][]byte
	squares := func() [][]byte {
		var gs [][]byte
		for i := 0; i < n; i++ {
			gs = append(gs, Square())
		}
		return gs
	}
	plain := func() {
		t = Simple(n, false)
		TrueType(t, squares())
	}
	end := []byte{14}
	cff := func(f *CFF) {
		version = "OTTO"
		for len(f.Chars) < n {
			f.Chars = append(f.Chars, end)
		}
		if f.Strings == nil {
			for i := range f.Chars {
				f.Strings = append(f.Strings, []byte{'g', byte('a' + i%26), byte('a' + i/26%26), byte('a' + i/676)})
			}
		}
		t = Simple(len(f.Chars), true)
		t["CFF "] = f.Encode()
	}
	desc := ""
	flags := func() int {
		f := 2 | r.Intn(2)
		f |= []int{0, 0, 8, 0x40, 0x80}[r.Intn(5)]
		return f | []int{0, 0, 0, 0x10, 0x100, 0x200, 0x400, 0x800, 0x1000}[r.Intn(9)]
	}
	switch r.Intn(24) {
	case 0:
		desc = "cyclic composites"
		t = Simple(n, false)
		gs := squares()
		k := 1 + r.Intn(n-1)
		for i := 0; i < k; i++ {
			var rs []Ref
			for m := 1 + r.Intn(3); m > 0; m-- {
				rs = append(rs, Ref{(i + 1) % k, flags(), r.Intn(100), r.Intn(100)})
			}
			gs[i] = Composite(r, rs)
		}
		TrueType(t, gs)
	case 1:
		desc = "composites that fan out"
		t = Simple(n, false)
		gs := squares()
		k := []int{2, 3, 10, 100, 1000}[r.Intn(5)]
		for i := 0; i+1 < min(n, 2+r.Intn(12)); i++ {
			var rs []Ref
			for m := 0; m < k; m++ {
				rs = append(rs, Ref{i + 1, 3, m, m})
			}
			gs[i] = Composite(r, rs)
		}
		TrueType(t, gs)
	case 2:
		desc = "composite of dense glyphs"
		t = Simple(n, false)
		gs := squares()
		gs[n-1] = Dense(1+r.Intn(65535), 1+r.Intn(3))
		for i := 0; i+1 < n; i++ {
			var rs []Ref
			for m := r.Intn(60); m >= 0; m-- {
				rs = append(rs, Ref{i + 1 + r.Intn(n-i-1), 3, m, m})
			}
			if r.Intn(3) == 0 {
				rs = []Ref{{n - 1, 3, 0, 0}}
			}
			gs[i] = Composite(r, rs)
		}
		TrueType(t, gs)
	case 3:
		desc = "dense glyph"
		t = Simple(n, false)
		gs := squares()
		for i := range gs {
			if r.Intn(4) == 0 {
				m := 1 + r.Intn(65536)
				gs[i] = Dense(m, 1+r.Intn(min(m, 40000)))
			}
		}
		TrueType(t, gs)
	case 4:
		desc = "chain of composites"
		n = 2 + size(3000)
		t = Simple(n, false)
		gs := squares()
		for i := 0; i+1 < n; i++ {
			gs[i] = Composite(r, []Ref{{i + 1, flags(), r.Intn(256), r.Intn(256)}})
		}
		if r.Intn(2) == 0 {
			gs[n-1] = Composite(r, []Ref{{r.Intn(0x10000), 3, 0, 0}})
		}
		TrueType(t, gs)
	case 5:
		desc = "composites without sense"
		t = Simple(n, false)
		gs := squares()
		for i := range gs {
			if r.Intn(2) == 0 {
				var rs []Ref
				for m := r.Intn(4); m >= 0; m-- {
					rs = append(rs, Ref{r.Intn(n + 1), r.Intn(0x2000), r.Intn(0x10000), r.Intn(0x10000)})
				}
				gs[i] = Composite(r, rs)
				if r.Intn(4) == 0 {
					gs[i] = Bytes(r, gs[i], 1)
				}
			}
		}
		TrueType(t, gs)
	case 6:
		desc = "glyphs without sense"
		t = Simple(n, false)
		gs := squares()
		for i := range gs {
			b := make([]byte, r.Intn(40))
			r.Read(b)
			if len(b) > 2 {
				b[0], b[1] = byte([]int{0, 0, 0xFF, 0x7F}[r.Intn(4)]), byte(r.Intn(4))
			}
			gs[i] = b
		}
		TrueType(t, gs)
	case 7:
		desc = "subroutines that fan out"
		f := &CFF{}
		d, k := 1+r.Intn(12), []int{2, 5, 20, 200}[r.Intn(4)]
		global := r.Intn(2) == 0
		var subrs [][]byte
		o := byte(10)
		if global {
			o = 29
		}
		for i := 0; i < d; i++ {
			var b []byte
			for m := 0; m < k; m++ {
				if i+1 < d {
					b = append(b, call(i+1, d, o)...)
				} else {
					b = append(b, append(append(CSNum(1), CSNum(1)...), 5)...)
				}
			}
			subrs = append(subrs, append(b, 11))
		}
		if global {
			f.Global = subrs
		} else {
			f.Local = subrs
		}
		for i := 0; i < n; i++ {
			b := append(append(CSNum(1), CSNum(1)...), 21)
			f.Chars = append(f.Chars, append(append(b, call(r.Intn(d), d, o)...), 14))
		}
		cff(f)
	case 8:
		desc = "recursive subroutines"
		f := &CFF{Private: nil}
		k := 1 + r.Intn(5)
		for i := 0; i < k; i++ {
			var b []byte
			for m := r.Intn(3); m >= 0; m-- {
				b = append(b, call(r.Intn(k), k, []byte{10, 29}[r.Intn(2)])...)
			}
			f.Local = append(f.Local, append(b, 11))
			f.Global = append(f.Global, append(b, 11))
		}
		for i := 0; i < n; i++ {
			f.Chars = append(f.Chars, append(call(r.Intn(k), k, []byte{10, 29}[r.Intn(2)]), 14))
		}
		cff(f)
	case 9, 10:
		desc = "charstrings without sense"
		f := &CFF{}
		k := r.Intn(6)
		for i := 0; i < k; i++ {
			f.Local = append(f.Local, soup(r, k))
			f.Global = append(f.Global, soup(r, k))
		}
		for i := 0; i < n; i++ {
			f.Chars = append(f.Chars, soup(r, k))
		}
		cff(f)
	case 11:
		desc = "long charstrings"
		f := &CFF{}
		unit := []byte{}
		switch r.Intn(4) {
		case 0:
			unit = append(append(CSNum(32767), CSNum(32767)...), 5)
		case 1:
			unit = append(append(CSNum(1), CSNum(1)...), 21)
		case 2:
			unit = []byte{139, 22}
		case 3:
			for m := 0; m < 48; m++ {
				unit = append(unit, 140)
			}
			unit = append(unit, 8)
		}
		b := append(append(CSNum(1), CSNum(1)...), 21)
		for m := r.Intn(70000) * scale / (len(unit)); m > 0; m-- {
			b = append(b, unit...)
		}
		f.Chars = [][]byte{append(b, 14)}
		cff(f)
	case 12:
		desc = "Font DICTs that share their Private DICT"
		f := &CFF{FDs: []int{1, 2, 255, 256, 257, size(3000)}[r.Intn(6)]}
		m := size(4000)
		for i := 0; i < m; i++ {
			f.Local = append(f.Local, []byte{11})
		}
		if r.Intn(3) == 0 {
			f.Private = dictSoup(r)
		}
		if r.Intn(3) == 0 {
			f.Select = []byte{3, 0, 1, 0, 0, byte(r.Intn(3)), 0, byte(n)}
		}
		cff(f)
	case 13:
		desc = "glyph names that share a long string"
		n = size(8000)
		f := &CFF{SIDs: []int{391}, Strings: [][]byte{make([]byte, size(60000))}}
		cff(f)
	case 14:
		desc = "DICTs without sense"
		f := &CFF{FDs: r.Intn(3)}
		switch r.Intn(3) {
		case 0:
			f.Top = dictSoup(r)
		case 1:
			f.Private = dictSoup(r)
		case 2:
			f.FontDict = dictSoup(r)
		}
		f.Local = [][]byte{{11}}
		cff(f)
	case 15:
		desc = "cmap with large groups"
		n = []int{100, 5000, 65535}[r.Intn(3)]
		t = Simple(n, false)
		t["loca"] = make([]byte, 4*n+4)
		t["glyf"] = nil
		w := &synth.W{}
		k := 1 + r.Intn(200)
		w.U16(0)
		w.U16(1)
		w.U16(3)
		w.U16(10)
		w.U32(12)
		w.U16(12)
		w.U16(0)
		w.U32(16 + 12*k)
		w.U32(0)
		w.U32(k)
		at := 0
		for i := 0; i < k; i++ {
			w.U32(at)
			m := 1 + r.Intn(n)
			w.U32(min(at+m-1, 0x10FFFF))
			w.U32(r.Intn(n - m + 1))
			at += m + r.Intn(3)
		}
		t["cmap"] = w.B
	case 16:
		desc = "cmap with subtables that overlap"
		plain()
		k := size(3000)
		w := &synth.W{}
		w.U16(0)
		w.U16(k)
		step := []int{10, 10, 12, 2}[r.Intn(4)]
		for i := 0; i < k; i++ {
			w.U16(3)
			w.U16(1)
			w.U32(4 + 8*k + step*i)
		}
		for i := 0; i < k; i++ {
			w.U16(6)
			w.U16(min(65535, step*(k-i)))
			w.U16(0)
			w.U16(i)
			w.U16(min(32760, max(0, step*(k-i)-10)/2))
			for m := 10; m < step; m++ {
				w.U8(0)
			}
		}
		t["cmap"] = w.B
	case 17:
		desc = "cmap with many subtables"
		plain()
		k := []int{1000, 10000, 65535}[r.Intn(3)]
		if !big {
			k = size(3000)
		}
		same := r.Intn(2) == 0
		w := &synth.W{}
		w.U16(0)
		w.U16(k)
		for i := 0; i < k; i++ {
			w.U16(0)
			w.U16(5)
			if same {
				w.U32(4 + 8*k)
			} else {
				w.U32(4 + 8*k + 10*i)
			}
		}
		for i := 0; i < k; i++ {
			w.U16(14)
			w.U32(10)
			w.U32(0)
		}
		t["cmap"] = w.B
	case 18:
		desc = "cmap format 4 that covers everything"
		n = 65535
		t = Simple(n, false)
		t["loca"] = make([]byte, 4*n+4)
		t["glyf"] = nil
		w := &synth.W{}
		k := 1 + r.Intn(4000)
		w.U16(0)
		w.U16(1)
		w.U16(3)
		w.U16(1)
		w.U32(12)
		w.U16(4)
		w.U16(16 + 8*k)
		w.U16(0)
		w.U16(2 * k)
		w.U16(0)
		w.U16(0)
		w.U16(0)
		for i := 1; i < k; i++ {
			w.U16(i*65534/k - 1)
		}
		w.U16(0xFFFF)
		w.U16(0)
		for i := 1; i < k; i++ {
			w.U16((i - 1) * 65534 / k)
		}
		w.U16(0xFFFF)
		for i := 0; i < k; i++ {
			w.U16(r.Intn(65536))
		}
		for i := 0; i < k; i++ {
			w.U16(0)
		}
		t["cmap"] = w.B
	case 19:
		desc = "kern with many subtables"
		plain()
		k := size(8000)
		w := &synth.W{}
		w.U16(0)
		w.U16(k)
		pairs := r.Intn(3)
		for i := 0; i < k; i++ {
			w.U16(0)
			w.U16(14 + 6*pairs)
			w.U16(1 | r.Intn(16)&^2)
			w.U16(pairs)
			w.U16(0)
			w.U16(0)
			w.U16(0)
			for j := 0; j < pairs; j++ {
				w.U16(0)
				w.U16(j)
				w.U16(32767)
			}
		}
		t["kern"] = w.B
	case 20:
		desc = "names that share their text"
		plain()
		k := size(1200)
		w := &synth.W{}
		w.U16(0)
		w.U16(k)
		w.U16(6 + 12*k)
		text := size(16000)
		for i := 0; i < k; i++ {
			w.U16([]int{0, 1, 3}[r.Intn(3)])
			w.U16(r.Intn(12))
			w.U16(r.Intn(0x1000))
			w.U16(r.Intn(20))
			w.U16(r.Intn(text))
			w.U16(0)
		}
		x := make([]byte, text)
		r.Read(x)
		w.Bytes(x)
		t["name"] = w.B
	case 21:
		desc = "glyph names that share an index"
		plain()
		n = 1 + r.Intn(40000)
		t = Simple(n, false)
		t["loca"] = make([]byte, 4*n+4)
		t["glyf"] = nil
		w := &synth.W{}
		w.U32(0x20000)
		for k := 0; k < 7; k++ {
			w.U32(0)
		}
		w.U16(n)
		for i := 0; i < n; i++ {
			w.U16([]int{258, 0, 257, 258 + r.Intn(3)}[r.Intn(4)])
		}
		for k := 0; k < 3; k++ {
			w.U8(63)
			x := make([]byte, 63)
			r.Read(x)
			w.Bytes(x)
		}
		t["post"] = w.B
	case 22:
		desc = "many tables"
		plain()
		for k := size(2000); k > 0; k-- {
			x := make([]byte, 4)
			for i := range x {
				x[i] = byte(32 + r.Intn(95))
			}
			t[string(x)] = nil
		}
	case 23:
		desc = "numbers of glyphs that differ"
		plain()
		if r.Intn(2) == 0 {
			cff(&CFF{})
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			v := []int{0, 1, n - 1, n + 1, 2 * n, 0x7FFF, 0x8000, 0xFFFF}[r.Intn(8)]
			switch r.Intn(5) {
			case 0:
				t["maxp"][4], t["maxp"][5] = byte(v>>8), byte(v)
			case 1:
				t["hhea"][34], t["hhea"][35] = byte(v>>8), byte(v)
			case 2:
				t["hmtx"] = make([]byte, 2*v+[]int{0, 2, 2, 2}[r.Intn(4)])
			case 3:
				t["loca"] = make([]byte, 4*v+4)
			case 4:
				t["head"][51] = byte(r.Intn(3))
			}
		}
	}
	if r.Intn(5) == 0 {
		t = Tables(r, t, nil, 1+r.Intn(2))
		desc += ", damaged"
	}
	return desc, synth.Assemble(r, version, t)
}
