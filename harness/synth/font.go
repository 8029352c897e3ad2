package synth

import (
	"fmt"
	"math/rand"

	"verif/ref"
)

// Opt selects what a random font contains; the zero value is everything, at random.
type Opt struct {
	CFF       int // 0 random, 1 TrueType, 2 CFF, 3 CID-keyed CFF
	N         int // number of glyphs, 0 random
	MaxN      int // limit of the random number, 0 is 120
	CmapKind  int // k+1
	CmapSize  int
	OS2       int // version+1, -1 none
	Post      int // version
	NoKern    bool
	Kern      bool
	BigKern   bool // a kerning subtable with about as many pairs as its length field can express, or more
	Vert      int  // 1 no, 2 yes
	UniqNames bool
	Glyph     GlyphOpt
	PlainBBox bool // head and hhea hold correct maxima (always), glyph boxes are exact
	NoExtra   bool
	UPM       int
	CFFOpt    CFFOpt
}

// Font is a synthetic font.
type Font struct {
	Version string
	Tables  map[string][]byte
	Bytes   []byte
	N       int
	Desc    string
	Glyphs  *GlyphSet
	CFF     *CFFModel
}

func sizeOf(r *rand.Rand, max int) int {
	if max == 0 {
		max = 120
	}
	switch r.Intn(8) {
	case 0:
		return 1 + r.Intn(3)
	case 1:
		return []int{31, 32, 33, 63, 64, 65, 16, 96}[r.Intn(8)]
	case 2:
		return 1 + r.Intn(max)
	}
	return 2 + r.Intn(max/3+1)
}

// Random makes a font.
func Random(r *rand.Rand, o Opt) *Font {
	f := &Font{Tables: map[string][]byte{}}
	n := o.N
	cff := o.CFF
	if cff == 0 {
		cff = []int{1, 1, 1, 2, 2, 3}[r.Intn(6)]
	}
	if n == 0 {
		n = sizeOf(r, o.MaxN)
		if (o.MaxN == 0 || o.MaxN >= 60) && cff > 1 && r.Intn(30) == 0 {
			// around the limits of the predefined charset and of the ranges of charsets
			n = []int{229, 230, 256, 257, 258, 258, 259}[r.Intn(7)]
			o.CFFOpt.Simple = r.Intn(3) > 0
			o.CFFOpt.MaxOps = 2
		}
	}
	f.N = n
	upm := o.UPM
	if upm == 0 {
		upm = []int{1000, 2048, 1024, 16, 16384, 750}[r.Intn(6)]
	}
	box := make([][4]int, n)
	has := make([]bool, n)
	long := false
	if cff == 1 {
		f.Version = "\x00\x01\x00\x00"
		if r.Intn(6) == 0 {
			f.Version = "true"
		}
		f.Glyphs = RandGlyphs(r, n, o.Glyph)
		box, has, long = f.Glyphs.Box, f.Glyphs.Has, f.Glyphs.Long
		f.Tables["glyf"], f.Tables["loca"] = f.Glyphs.Glyf, f.Glyphs.Loca
		if r.Intn(3) == 0 {
			f.Tables["cvt "] = randBytes(r, 2*(1+r.Intn(10)))
			f.Tables["fpgm"] = randBytes(r, 1+r.Intn(30))
			f.Tables["prep"] = randBytes(r, 1+r.Intn(30))
		}
		if r.Intn(12) == 0 && n < 300 {
			w := &W{}
			w.U16(0)
			k := 1 + r.Intn(2)
			w.U16(k)
			w.U32((n + 5) &^ 3)
			for i := 0; i < k; i++ {
				w.Bytes(randBytes(r, n+2))
				w.Pad(4)
			}
			f.Tables["hdmx"] = w.B
		}
		w := &W{}
		s := f.Glyphs
		w.U32(0x10000)
		w.U16(n)
		for _, v := range []int{s.Points, s.Contours, s.CompPoints, s.CompContours, 1 + r.Intn(2), r.Intn(10), r.Intn(20), r.Intn(50), 0, 100 + r.Intn(400), s.Instr, s.CompElems, s.Depth} {
			w.U16(v)
		}
		f.Tables["maxp"] = w.B
	} else {
		f.Version = "OTTO"
		f.CFF = RandCFF(r, n, cff == 3, o)
		f.Tables["CFF "] = f.CFF.Bytes
		w := &W{}
		w.U32(0x5000)
		w.U16(n)
		f.Tables["maxp"] = w.B
		if rc, err := ref.ParseCFF(f.CFF.Bytes); err == nil {
			for i := range box {
				segs, _, err := rc.Outline(i)
				if err != nil {
					panic(fmt.Sprint("synth: ", err))
				}
				if x0, y0, x1, y1, ok := ref.ControlBox(segs); ok {
					box[i], has[i] = [4]int{floor(x0), floor(y0), ceil(x1), ceil(y1)}, true
				}
			}
		} else {
			panic(fmt.Sprint("synth: ", err))
		}
	}
	f.metrics(r, o, upm, box, has, long)
	size := o.CmapSize
	if size == 0 {
		size = []int{5, 30, 80, 200}[r.Intn(4)]
	}
	f.Tables["cmap"] = RandCmap(r, n, o.CmapKind-1, size)
	if subs, err := (&ref.Font{Tables: f.Tables}).Cmap(); err != nil {
		panic(fmt.Sprint("synth: ", err))
	} else if o.OS2 >= 0 && (o.OS2 > 0 || r.Intn(8) > 0) {
		first, last := 0xFFFF, 0
		for c := range ref.Lookup(subs) {
			k := int(c)
			if k > 0xFFFF {
				k = 0xFFFF
			}
			if k < first {
				first = k
			}
			if k > last {
				last = k
			}
		}
		f.Tables["OS/2"] = RandOS2(r, o.OS2-1, first, last)
	}
	if o.BigKern {
		f.Tables["kern"] = BigKern(r, n)
	} else if o.Kern || !o.NoKern && r.Intn(3) > 0 {
		f.Tables["kern"] = RandKern(r, n)
	}
	f.Tables["name"] = RandName(r)
	pv := 3
	if cff == 1 {
		pv = o.Post
		if pv == 0 {
			pv = []int{1, 2, 2, 2, 3}[r.Intn(5)]
		}
	}
	f.Tables["post"] = EncodePost(r, pv, RandNames(r, n, !o.UniqNames))
	if !o.NoExtra {
		if r.Intn(3) == 0 {
			f.Tables["gasp"] = []byte{0, 1, 0, 1, 0xFF, 0xFF, 0, 15}
		}
		if r.Intn(4) == 0 {
			f.Tables["TEST"] = randBytes(r, r.Intn(30))
		}
		if r.Intn(6) == 0 {
			f.Tables["zzzz"] = []byte{}
		}
	}
	f.Desc = fmt.Sprintf("%d glyphs kind %d post %d tables %v", n, cff, pv, Tags(f.Tables))
	f.Bytes = Assemble(r, f.Version, f.Tables)
	return f
}

func (f *Font) metrics(r *rand.Rand, o Opt, upm int, box [][4]int, has []bool, long bool) {
	n := f.N
	advs := make([]int, n)
	fixed := r.Intn(6) == 0
	wide := r.Intn(12) == 0 // advances are unsigned
	for i := range advs {
		advs[i] = r.Intn(2 * upm)
		if wide && r.Intn(3) == 0 {
			advs[i] = []int{32767, 32768, 40000, 65535, 65534, 20000 + r.Intn(45000)}[r.Intn(6)]
		}
		if fixed && i > 0 {
			advs[i] = advs[0]
		}
		if r.Intn(30) == 0 {
			advs[i] = 0
		}
	}
	flags := r.Intn(2) * 2
	odd := r.Intn(4) == 0 // side bearings that differ from the outline
	lsb := make([]int, n)
	for i := range lsb {
		if has[i] {
			lsb[i] = box[i][0]
		}
		if odd && r.Intn(3) == 0 {
			lsb[i] = r.Intn(200) - 100
			if wide && r.Intn(4) == 0 {
				lsb[i] = []int{-32768, 32767, -20000, 30000}[r.Intn(4)]
			}
		}
	}
	if odd {
		flags = 0
	}
	nh := n
	if r.Intn(2) == 0 {
		nh = 1 + r.Intn(n)
		for i := nh; i < n; i++ {
			advs[i] = advs[nh-1]
		}
	}
	w := &W{}
	maxAdv, minL, minR, maxE := 0, 32767, 32767, -32768
	hb := [4]int{32767, 32767, -32768, -32768}
	for i := 0; i < n; i++ {
		if i < nh {
			w.U16(advs[i])
		}
		w.U16(lsb[i])
		if advs[i] > maxAdv {
			maxAdv = advs[i]
		}
		if has[i] {
			b := box[i]
			hb = min4(min4(hb, b[0], b[1]), b[2], b[3])
			wd := b[2] - b[0]
			minL = min(minL, lsb[i])
			minR = min(minR, advs[i]-lsb[i]-wd)
			maxE = max(maxE, lsb[i]+wd)
		}
	}
	if hb[0] == 32767 && hb[2] == -32768 {
		hb = [4]int{}
		minL, minR, maxE = 0, 0, 0
	}
	minR = min(max(minR, -32768), 32767)
	maxE = min(maxE, 32767)
	f.Tables["hmtx"] = w.B
	w = &W{}
	w.U16(1)
	w.U16(0)
	w.U16(upm * 8 / 10)
	w.U16(-upm * 2 / 10)
	w.U16(r.Intn(upm/4 + 1))
	w.U16(maxAdv)
	w.U16(minL)
	w.U16(minR)
	w.U16(maxE)
	w.U16(1)
	w.U16(r.Intn(3))
	w.U16(r.Intn(20) - 10)
	w.U32(0)
	w.U32(0)
	w.U16(0)
	w.U16(nh)
	f.Tables["hhea"] = w.B
	if o.Vert == 2 || o.Vert == 0 && r.Intn(3) == 0 {
		nv := n
		if r.Intn(2) == 0 {
			nv = 1 + r.Intn(n)
		}
		w = &W{}
		mx := 0
		for i := 0; i < n; i++ {
			if i < nv {
				a := r.Intn(2 * upm)
				if wide && r.Intn(3) == 0 {
					a = 20000 + r.Intn(45536)
				}
				mx = max(mx, a)
				w.U16(a)
			}
			w.U16(r.Intn(400) - 200)
		}
		f.Tables["vmtx"] = w.B
		w = &W{}
		w.U16(1)
		w.U16([]int{0, 0x1000}[r.Intn(2)])
		w.U16(upm / 2)
		w.U16(-upm / 2)
		w.U16(0)
		w.U16(mx)
		for i := 0; i < 3; i++ {
			w.U16(r.Intn(400) - 200)
		}
		w.U16(0)
		w.U16(1)
		w.U16(0)
		w.U32(0)
		w.U32(0)
		w.U16(0)
		w.U16(nv)
		f.Tables["vhea"] = w.B
	}
	w = &W{}
	w.U32(0x10000)
	w.U32(r.Intn(1 << 24))
	w.U32(0)
	w.U32(0x5F0F3CF5)
	w.U16(flags | r.Intn(2) | r.Intn(2)<<3 | r.Intn(2)<<11)
	w.U16(upm)
	w.U32(0)
	w.U32(3000000000 + r.Intn(1<<29))
	w.U32(0)
	w.U32(3100000000 + r.Intn(1<<29))
	for _, v := range hb { // outlines beyond the range are left out of account
		v = min(max(v, -32768), 32767)
		w.U16(v)
	}
	w.U16(r.Intn(4))
	w.U16(3 + r.Intn(20))
	w.U16(2)
	if long {
		w.U16(1)
	} else {
		w.U16(0)
	}
	w.U16(0)
	f.Tables["head"] = w.B
}
