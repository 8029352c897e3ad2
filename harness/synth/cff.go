package synth

import (
	"fmt"
	"math/rand"
	"strconv"

	"verif/ref"
)

// CFFModel is a synthetic CFF table.
type CFFModel struct {
	Bytes []byte
	N     int
	CID   bool
	FDs   int
	NumL  []int // local subroutines by FD
	NumG  int
	Names []string // nil for CID fonts
}

// CFFOpt selects what a random CFF table contains.
type CFFOpt struct {
	FDs      int // number of FDs of CID fonts, 0 random
	NumL     int // number of local subroutines+1, 0 random
	NumG     int
	Names    []string
	Simple   bool // no subroutines
	Huge     bool // allow the largest subroutine class
	Frac     bool // fractional coordinates are allowed
	MaxOps   int
	TinyData bool
}

type subrs struct {
	b    [][]byte // nil is unused
	free []int
}

func newSubrs(r *rand.Rand, n int) *subrs {
	s := &subrs{b: make([][]byte, n)}
	// use the extremes of the index range and random ones
	p := r.Perm(n)
	s.free = p
	if n > 400 || n > 100 && r.Intn(2) == 0 {
		// prefer indices around the changes of the number encodings
		bi := cffBias(n)
		var pref []int
		for _, v := range []int{-1131, -1132, -108, -107, 107, 108, 1131, 1132, 0, -1, 1} {
			if k := v + bi; k >= 0 && k < n {
				pref = append(pref, k)
			}
		}
		pref = append(pref, 0, n-1, n/2)
		seen := map[int]bool{}
		out := []int{}
		for _, k := range append(pref, p...) {
			if !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
		m := min(len(out), 200)
		out = out[:m]
		r.Shuffle(m, func(i, j int) { out[i], out[j] = out[j], out[i] })
		s.free = out
	}
	return s
}

func cffBias(n int) int {
	if n < 1240 {
		return 107
	}
	if n < 33900 {
		return 1131
	}
	return 32768
}

func (s *subrs) alloc() int {
	if len(s.free) == 0 {
		return -1
	}
	k := s.free[len(s.free)-1]
	s.free = s.free[:len(s.free)-1]
	return k
}

type tok struct {
	b     []byte
	depth int
	end   bool
}

type csGen struct {
	r      *rand.Rand
	o      CFFOpt
	g      *subrs
	l      *subrs // of the FD
	multi  bool
	fragL  []tok
	fragG  []tok
	sumAbs float64
	frac   bool
	big    bool
}

// num encodes a charstring number given in 1/65536.
func (c *csGen) num(v int) []byte { return csNum(c.r, v) }

func csNum(r *rand.Rand, v int) []byte {
	w := &W{}
	if v&0xFFFF != 0 || r.Intn(40) == 0 {
		w.U8(255)
		w.U32(v)
		return w.B
	}
	return csInt(r, v>>16, r.Intn(25) == 0)
}

func csInt(r *rand.Rand, n int, long bool) []byte {
	w := &W{}
	switch {
	case long:
		w.U8(28)
		w.U16(n)
	case n >= -107 && n <= 107:
		w.U8(n + 139)
	case n >= 108 && n <= 1131:
		w.U8((n-108)>>8 + 247)
		w.U8(n - 108)
	case n <= -108 && n >= -1131:
		w.U8((-n-108)>>8 + 251)
		w.U8(-n - 108)
	default:
		w.U8(28)
		w.U16(n)
	}
	return w.B
}

func (c *csGen) delta() int {
	m := 300
	if c.big {
		m = 6000
	}
	var v int
	switch c.r.Intn(8) {
	case 0:
		v = 0
	case 1:
		v = c.r.Intn(2*m+1) - m
	case 2:
		v = []int{107, 108, -107, -108, 1131, 1132, -1131, -1132}[c.r.Intn(8)]
	default:
		v = c.r.Intn(215) - 107
	}
	v <<= 16
	if c.frac && c.r.Intn(3) == 0 {
		v += c.r.Intn(1 << 16)
	}
	f := float64(v) / 65536
	if f < 0 {
		f = -f
	}
	c.sumAbs += f
	return v
}

func (c *csGen) args(n int) []tok {
	out := make([]tok, 0, n+1)
	for i := 0; i < n; i++ {
		out = append(out, tok{b: c.num(c.delta())})
	}
	return out
}

func op(b ...byte) tok { return tok{b: b} }

// pathOp makes one path operator after a moveto.
func (c *csGen) pathOp() []tok {
	r := c.r
	few := func(max int) int { // how often an operator repeats
		switch r.Intn(10) {
		case 0:
			return max
		case 1:
			return 1 + r.Intn(max)
		}
		return 1 + r.Intn(min(3, max))
	}
	if r.Intn(25) == 0 { // as many operands as fit, in one token as no subroutine number can come on top
		k := r.Intn(9)
		n := []int{48, 48, 48, 48, 44, 48, 48, 48, 48}[k]
		a := append(c.args(n), op([]byte{5, 6, 7, 8, 24, 25, 26, 27, byte(30 + r.Intn(2))}[k]))
		return []tok{{b: joinToks(a)}}
	}
	switch r.Intn(15) {
	case 0:
		return append(c.args(2*few(23)), op(5))
	case 1:
		return append(c.args(few(46)), op(6))
	case 2:
		return append(c.args(few(46)), op(7))
	case 3:
		return append(c.args(6*few(7)), op(8))
	case 4:
		return append(c.args(6*few(7)+2), op(24))
	case 5:
		return append(c.args(2*few(20)+6), op(25))
	case 6, 7:
		return append(c.args(4*few(11)+r.Intn(2)), op(byte(26+r.Intn(2))))
	case 8, 9, 10:
		return append(c.args(4*few(11)+r.Intn(2)), op(byte(30+r.Intn(2))))
	case 11:
		a := c.args(12)
		a = append(a, tok{b: csInt(r, 50, false)})
		return append(a, op(12, 35))
	case 12:
		return append(c.args(7), op(12, 34))
	case 13:
		return append(c.args(9), op(12, 36))
	}
	return append(c.args(11), op(12, 37))
}

func (c *csGen) moveOp() []tok {
	switch c.r.Intn(4) {
	case 0:
		return append(c.args(1), op(22))
	case 1:
		return append(c.args(1), op(4))
	}
	return append(c.args(2), op(21))
}

// glyph makes the tokens of a charstring; the first stack clearing operator gets a width.
func (c *csGen) glyph(width int, hasWidth bool, allowMask bool) []tok {
	r := c.r
	c.sumAbs = 0
	c.frac = c.o.Frac && r.Intn(3) == 0
	var t []tok
	first := true
	add := func(ts []tok) {
		if first && hasWidth {
			t = append(t, tok{b: c.num(width << 16)})
		}
		first = false
		t = append(t, ts...)
	}
	stemArgs := func(n int) []tok {
		var a []tok
		for i := 0; i < n; i++ {
			a = append(a, tok{b: csInt(r, r.Intn(400)-150, false)}, tok{b: csInt(r, 1+r.Intn(150), false)})
		}
		return a
	}
	stems := 0
	masked := false
	if allowMask && r.Intn(25) == 0 {
		// as many hints as allowed, or nearly
		total := 96 - []int{0, 0, 0, 1, 7, 8}[r.Intn(6)]
		o := byte(18)
		for {
			n := min(total-stems, 1+r.Intn(23))
			if total-stems <= 23 {
				n = total - stems
			}
			stems += n
			if stems == total && r.Intn(2) == 0 {
				m := op(byte(19 + r.Intn(2)))
				m.b = append(m.b, randBytes(r, (stems+7)/8)...)
				add(append(stemArgs(n), m))
				break
			}
			add(append(stemArgs(n), op(o)))
			if stems == total {
				break
			}
			if r.Intn(3) == 0 {
				o = 23
			}
		}
		masked = true
	} else if allowMask && r.Intn(2) == 0 {
		hm := r.Intn(2) == 0
		many := r.Intn(8) == 0
		cnt := func() int {
			if many {
				return 1 + r.Intn(22)
			}
			return 1 + r.Intn(4)
		}
		if r.Intn(4) > 0 {
			k := 1
			if many {
				k = 1 + r.Intn(2)
			}
			for ; k > 0; k-- {
				n := cnt()
				stems += n
				add(append(stemArgs(n), op(map[bool]byte{false: 1, true: 18}[hm])))
			}
		}
		implicit := hm && r.Intn(2) == 0
		if implicit {
			n := cnt()
			stems += n
			o := byte(19 + r.Intn(2))
			m := op(o)
			m.b = append(m.b, randBytes(r, (stems+7)/8)...)
			add(append(stemArgs(n), m))
		} else {
			if r.Intn(3) > 0 {
				n := cnt()
				stems += n
				add(append(stemArgs(n), op(map[bool]byte{false: 3, true: 23}[hm])))
			}
			if hm && stems > 0 && r.Intn(2) == 0 {
				m := op(byte(19 + r.Intn(2)))
				m.b = append(m.b, randBytes(r, (stems+7)/8)...)
				add([]tok{m})
			}
		}
		masked = hm && stems > 0
	}
	nc := []int{0, 1, 1, 1, 2, 2, 3, 5}[r.Intn(8)]
	c.big = r.Intn(12) == 0
	maxOps := c.o.MaxOps
	if maxOps == 0 {
		maxOps = 9
	}
	for i := 0; i < nc && c.sumAbs < 14000; i++ {
		add(c.moveOp())
		for k := r.Intn(maxOps); k > 0 && c.sumAbs < 14000; k-- {
			if masked && r.Intn(8) == 0 {
				m := op(19)
				m.b = append(m.b, randBytes(r, (stems+7)/8)...)
				t = append(t, m)
			}
			if r.Intn(6) == 0 && !c.big && (len(c.fragL) > 0 || len(c.fragG) > 0) && c.sumAbs < 6000 {
				if len(c.fragL) > 0 && (r.Intn(2) == 0 || len(c.fragG) == 0) {
					t = append(t, c.fragL[r.Intn(len(c.fragL))])
				} else {
					t = append(t, c.fragG[r.Intn(len(c.fragG))])
				}
				c.sumAbs += 2500
				continue
			}
			t = append(t, c.pathOp()...)
		}
	}
	add([]tok{{b: []byte{14}, end: true}})
	return t
}

// call puts tokens in a new subroutine, or returns them when there is no place.
func (c *csGen) call(ts []tok, global bool) ([]tok, bool) {
	s := c.l
	o := byte(10)
	if global {
		s, o = c.g, 29
	}
	k := s.alloc()
	if k < 0 {
		return ts, false
	}
	var b []byte
	depth := 0
	for _, t := range ts {
		b = append(b, t.b...)
		depth = max(depth, t.depth)
	}
	end := len(ts) > 0 && ts[len(ts)-1].end
	if !end {
		b = append(b, 11)
	}
	s.b[k] = b
	cb := csInt(c.r, k-cffBias(len(s.b)), c.r.Intn(15) == 0)
	if c.r.Intn(40) == 0 && k-cffBias(len(s.b)) < 32768 {
		w := &W{}
		w.U8(255)
		w.U32((k - cffBias(len(s.b))) << 16)
		cb = w.B
	}
	return []tok{{b: append(cb, o), depth: depth + 1, end: end}}, true
}

// local tokens must not get into global subroutines of fonts with several FDs
func (c *csGen) factor(ts []tok, level int, global bool) []tok {
	if level > 4 {
		return ts
	}
	for k := c.r.Intn(3); k > 0; k-- {
		if len(ts) < 2 {
			return ts
		}
		i := c.r.Intn(len(ts))
		j := i + 1 + c.r.Intn(len(ts)-i)
		if c.r.Intn(10) == 0 {
			i, j = 0, len(ts)
		}
		d := 0
		for _, t := range ts[i:j] {
			d = max(d, t.depth)
		}
		if d+level > 8 {
			continue
		}
		gl := global || c.r.Intn(2) == 0
		if gl && c.multi && !global {
			// tokens may call local subroutines
			for _, t := range ts[i:j] {
				if t.depth > 0 {
					gl = false
				}
			}
		}
		part := c.factor(append([]tok{}, ts[i:j]...), level+1, gl && c.multi)
		if sub, ok := c.call(part, gl); ok {
			ts = append(append(append([]tok{}, ts[:i]...), sub...), ts[j:]...)
		}
	}
	return ts
}

func maxDepth(ts []tok) int {
	d := 0
	for _, t := range ts {
		d = max(d, t.depth)
	}
	return d
}

func joinToks(ts []tok) []byte {
	var b []byte
	for _, t := range ts {
		b = append(b, t.b...)
	}
	return b
}

func cffIndex(r *rand.Rand, items [][]byte) []byte {
	w := &W{}
	w.U16(len(items))
	if len(items) == 0 {
		return w.B
	}
	n := 1
	for _, b := range items {
		n += len(b)
	}
	sz := 1
	for n>>(8*sz) != 0 {
		sz++
	}
	if r.Intn(6) == 0 {
		sz += r.Intn(5 - sz)
	}
	w.U8(sz)
	put := func(v int) {
		for i := sz - 1; i >= 0; i-- {
			w.U8(v >> (8 * i))
		}
	}
	o := 1
	put(o)
	for _, b := range items {
		o += len(b)
		put(o)
	}
	for _, b := range items {
		w.Bytes(b)
	}
	return w.B
}

type dict struct {
	r *rand.Rand
	W
}

func (d *dict) int(v int) {
	switch {
	case d.r.Intn(10) == 0:
		d.U8(29)
		d.U32(v)
	case v >= -107 && v <= 107:
		d.U8(v + 139)
	case v >= 108 && v <= 1131:
		d.U8((v-108)>>8 + 247)
		d.U8(v - 108)
	case v <= -108 && v >= -1131:
		d.U8((-v-108)>>8 + 251)
		d.U8(-v - 108)
	case v >= -32768 && v <= 32767:
		d.U8(28)
		d.U16(v)
	default:
		d.U8(29)
		d.U32(v)
	}
}

func (d *dict) off(v int) {
	d.U8(29)
	d.U32(v)
}

func (d *dict) real(s string) {
	var nib []byte
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case ch >= '0' && ch <= '9':
			nib = append(nib, ch-'0')
		case ch == '.':
			nib = append(nib, 10)
		case ch == '-':
			nib = append(nib, 14)
		case ch == 'E' && i+1 < len(s) && s[i+1] == '-':
			nib = append(nib, 12)
			i++
		case ch == 'E':
			nib = append(nib, 11)
			if i+1 < len(s) && s[i+1] == '+' {
				i++
			}
		}
	}
	nib = append(nib, 15)
	if len(nib)%2 == 1 {
		nib = append(nib, 15)
	}
	d.U8(30)
	for i := 0; i < len(nib); i += 2 {
		d.U8(int(nib[i])<<4 | int(nib[i+1]))
	}
}

func (d *dict) num(f float64) {
	if f == float64(int(f)) && d.r.Intn(8) > 0 {
		d.int(int(f))
		return
	}
	fm := byte('f')
	if d.r.Intn(3) == 0 {
		fm = 'E'
	}
	d.real(strconv.FormatFloat(f, fm, -1, 64))
}

func (d *dict) op(o int) {
	if o >= 1200 {
		d.U8(12)
		o -= 1200
	}
	d.U8(o)
}

func (d *dict) entry(o int, vals ...float64) {
	for _, v := range vals {
		d.num(v)
	}
	d.op(o)
}

func randReal(r *rand.Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return float64(r.Intn(4001)-2000) / 8
	case 1:
		return float64(r.Intn(2000001)-1000000) / 1e6
	case 2:
		return float64(r.Intn(1 << 17))
	case 3:
		return 0.0375 + float64(r.Intn(10000))/1e8
	}
	return float64(r.Intn(2001) - 1000)
}

func privateDict(r *rand.Rand, def, nom float64) func(subrsOff int) []byte {
	seed := r.Int63()
	kind := r.Intn(6)
	return func(subrsOff int) []byte {
		r := rand.New(rand.NewSource(seed))
		d := &dict{r: r}
		deltas := func(n int) []float64 {
			out := make([]float64, n)
			for i := range out {
				out[i] = float64(r.Intn(200))
				if kind == 5 && r.Intn(3) == 0 {
					out[i] += 0.5
				}
			}
			return out
		}
		if kind > 0 {
			if r.Intn(2) == 0 {
				d.entry(6, deltas(2*(1+r.Intn(7)))...)
			}
			if r.Intn(3) == 0 {
				d.entry(7, deltas(2*(1+r.Intn(5)))...)
			}
			if r.Intn(4) == 0 {
				d.entry(8, deltas(2*(1+r.Intn(7)))...)
			}
			if r.Intn(4) == 0 {
				d.entry(9, deltas(2*(1+r.Intn(5)))...)
			}
			if r.Intn(3) == 0 {
				d.entry(1209, float64(r.Intn(100000))/1e6)
			}
			if r.Intn(3) == 0 {
				d.entry(1210, float64(r.Intn(12)))
			}
			if r.Intn(3) == 0 {
				d.entry(1211, float64(r.Intn(3)))
			}
			if r.Intn(3) == 0 {
				d.entry(10, float64(r.Intn(2000))/8)
			}
			if r.Intn(3) == 0 {
				d.entry(11, float64(r.Intn(200)))
			}
			if r.Intn(3) == 0 {
				d.entry(1212, deltas(1+r.Intn(12))...)
			}
			if r.Intn(3) == 0 {
				d.entry(1213, deltas(1+r.Intn(12))...)
			}
			if r.Intn(4) == 0 {
				d.entry(1214, float64(r.Intn(2)))
			}
			if r.Intn(4) == 0 {
				d.entry(1217, float64(r.Intn(2)))
			}
			if r.Intn(4) == 0 {
				d.entry(1218, float64(r.Intn(1000))/1e4)
			}
			if r.Intn(4) == 0 {
				d.entry(1219, float64(r.Intn(1000)))
			}
		}
		if def != 0 || r.Intn(2) == 0 {
			d.entry(20, def)
		}
		if nom != 0 || r.Intn(2) == 0 {
			d.entry(21, nom)
		}
		if subrsOff != 0 {
			d.off(subrsOff)
			d.op(19)
		}
		return d.B
	}
}

// RandCFF makes a CFF table of n glyphs.
func RandCFF(r *rand.Rand, n int, cid bool, fo Opt) *CFFModel {
	o := fo.CFFOpt
	m := &CFFModel{N: n, CID: cid, FDs: 1}
	if cid {
		m.FDs = o.FDs
		if m.FDs == 0 {
			m.FDs = 1 + r.Intn(4)*r.Intn(2)
		}
	}
	count := func(opt int) int {
		if o.Simple {
			return 0
		}
		if opt > 0 {
			return opt - 1
		}
		switch r.Intn(12) {
		case 0, 1:
			return 0
		case 2:
			return []int{1239, 1240, 1241, 1300, 2500}[r.Intn(5)]
		case 3:
			if o.Huge || r.Intn(10) == 0 {
				return []int{33899, 33900, 33901, 34010, 65535}[r.Intn(5)]
			}
		case 4:
			return 1 + r.Intn(3)
		case 5:
			return []int{107, 108, 109, 214, 215, 216, 217, 1132, 1133}[r.Intn(9)]
		case 6:
			return 60 + r.Intn(300)
		}
		return 1 + r.Intn(150)
	}
	gs := newSubrs(r, count(o.NumG))
	m.NumG = len(gs.b)
	gens := make([]*csGen, m.FDs)
	for i := range gens {
		nl := count(o.NumL)
		gens[i] = &csGen{r: r, o: o, g: gs, l: newSubrs(r, nl), multi: m.FDs > 1}
		m.NumL = append(m.NumL, nl)
	}
	// fragments that several glyphs call
	if !o.Simple {
		for k := r.Intn(4); k > 0; k-- {
			for _, g := range gens {
				gl := r.Intn(2) == 0
				var ts []tok
				for j := 1 + r.Intn(2); j > 0; j-- {
					g.sumAbs = 0
					if p := g.pathOp(); g.sumAbs < 1200 {
						ts = append(ts, p...)
					}
				}
				if len(ts) == 0 {
					continue
				}
				if r.Intn(3) == 0 {
					if gl {
						ts = g.factorIn(ts, true)
					} else {
						ts = g.factorIn(ts, false)
					}
				}
				if c, ok := g.call(ts, gl); ok {
					if gl {
						for _, h := range gens {
							h.fragG = append(h.fragG, c[0])
						}
					} else {
						g.fragL = append(g.fragL, c[0])
					}
				}
			}
		}
	}
	fdOf := make([]int, n)
	for i := range fdOf {
		if i > 0 && r.Intn(3) > 0 {
			fdOf[i] = fdOf[i-1]
		} else {
			fdOf[i] = r.Intn(m.FDs)
		}
	}
	cs := make([][]byte, n)
	for i := range cs {
		g := gens[fdOf[i]]
		ts := g.glyph(r.Intn(1000)-300, r.Intn(3) > 0, true)
		if i == 0 && r.Intn(3) > 0 {
			ts = []tok{{b: []byte{14}, end: true}}
		}
		if !o.Simple && r.Intn(3) > 0 {
			ts = g.factor(ts, 0, false)
			if r.Intn(25) == 0 {
				// nest as deeply as allowed
				for maxDepth(ts) < 10 {
					gl := !g.multi && r.Intn(2) == 0
					sub, ok := g.call(ts, gl)
					if !ok {
						break
					}
					ts = sub
				}
			}
		}
		cs[i] = joinToks(ts)
	}
	fill := func(s *subrs) [][]byte {
		for i, b := range s.b {
			if b == nil {
				s.b[i] = []byte{11}
			}
		}
		return s.b
	}

	// strings and charset
	var strs [][]byte
	sidOf := map[string]int{}
	for i, s := range ref.CFFStrings {
		sidOf[s] = i
	}
	sid := func(s string) int {
		if k, ok := sidOf[s]; ok {
			return k
		}
		k := len(ref.CFFStrings) + len(strs)
		strs = append(strs, []byte(s))
		sidOf[s] = k
		return k
	}
	if r.Intn(2) == 0 {
		for k := r.Intn(4); k > 0; k-- {
			strs = append(strs, randBytes(r, r.Intn(9))) // not used
		}
	}
	var charset []byte
	charsetOff := -1
	sids := make([]int, n)
	if cid {
		c := 0
		for i := 1; i < n; i++ {
			c += 1
			if r.Intn(6) == 0 {
				c += r.Intn(20)
			}
			sids[i] = c
		}
		if r.Intn(3) == 0 {
			r.Shuffle(n-1, func(i, j int) { sids[i+1], sids[j+1] = sids[j+1], sids[i+1] })
		}
	} else if o.Names == nil && n <= 229 && r.Intn(6) == 0 {
		charsetOff = 0
		for i := range sids {
			sids[i] = i
		}
	} else {
		names := o.Names
		if names == nil {
			names = RandNames(r, n, false)
		}
		for i := 1; i < n; i++ {
			sids[i] = sid(names[i])
		}
	}
	if !cid {
		m.Names = make([]string, n)
	}
	if charsetOff < 0 {
		w := &W{}
		f := r.Intn(3)
		w.U8(f)
		for i := 1; i < n; {
			j := i + 1
			if f > 0 {
				lim := 256
				if f == 2 {
					lim = 65536
				}
				for j < n && sids[j] == sids[j-1]+1 && j-i < lim && r.Intn(200) > 0 {
					j++
				}
			}
			w.U16(sids[i])
			if f == 1 {
				w.U8(j - i - 1)
			} else if f == 2 {
				w.U16(j - i - 1)
			}
			i = j
		}
		charset = w.B
	}

	// Top DICT
	topSeed := r.Int63()
	type ent struct {
		op   int
		vals []float64
	}
	var ents []ent
	addS := func(op int, s string) {
		if r.Intn(3) == 0 {
			ents = append(ents, ent{op, []float64{float64(sid(s))}})
		}
	}
	addS(0, []string{"1.0", "001.001", "2.5b"}[r.Intn(3)])
	addS(1, "Notice "+strconv.Itoa(r.Intn(100)))
	addS(1200, "Copyright (c)")
	addS(2, "Full Name")
	addS(3, []string{"Family", "Family Sans"}[r.Intn(2)])
	addS(4, []string{"Bold", "Light", "Strange"}[r.Intn(3)])
	addS(1221, "<< >>")
	addS(1222, "BaseFont")
	addN := func(op int, v ...float64) {
		if r.Intn(3) == 0 {
			ents = append(ents, ent{op, v})
		}
	}
	addN(1201, float64(r.Intn(2)))
	addN(1202, -float64(r.Intn(300))/10)
	addN(1203, randReal(r))
	addN(1204, randReal(r))
	addN(1205, float64(2*r.Intn(2)))
	addN(1206, 2)
	addN(1207, 0.00048828125, 0, 0, 0.00048828125, 0, 0)
	addN(13, float64(r.Intn(1<<24)))
	addN(5, -float64(r.Intn(1000)), -float64(r.Intn(1000)), float64(r.Intn(2000)), randReal(r))
	addN(1208, randReal(r))
	addN(1223, float64(r.Intn(500)), float64(r.Intn(500)))
	addN(14, float64(r.Intn(10000)), 2, float64(r.Intn(1<<20)))
	if cid {
		addN(1231, float64(r.Intn(3)))
		addN(1232, 0)
		addN(1233, 0)
		addN(1235, float64(r.Intn(10000)))
		ents = append(ents, ent{1234, []float64{float64(sids[n-1] + 70000)}})
	}
	r.Shuffle(len(ents), func(i, j int) { ents[i], ents[j] = ents[j], ents[i] })
	ros := [2]int{}
	if cid {
		ros = [2]int{sid("Adobe"), sid("Identity")}
	}
	var offs struct{ charset, cs, fdarray, fdselect, priv, privLen int }
	top := func() []byte {
		r := rand.New(rand.NewSource(topSeed))
		d := &dict{r: r}
		if cid {
			d.int(ros[0])
			d.int(ros[1])
			d.int(0)
			d.op(1230)
		}
		for _, e := range ents {
			d.entry(e.op, e.vals...)
		}
		if charsetOff < 0 {
			d.off(offs.charset)
			d.op(15)
		} else if r.Intn(2) == 0 {
			d.int(0)
			d.op(15)
		}
		d.off(offs.cs)
		d.op(17)
		if cid {
			d.off(offs.fdarray)
			d.op(1236)
			d.off(offs.fdselect)
			d.op(1237)
		} else {
			d.off(offs.privLen)
			d.off(offs.priv)
			d.op(18)
		}
		return d.B
	}
	fontName := []byte("SynthFont-" + strconv.Itoa(r.Intn(1000)))
	fdNames := sid("FDName")

	// layout
	gsB := cffIndex(r, fill(gs))
	csB := cffIndex(r, cs)
	strB := cffIndex(r, strs)
	nameB := cffIndex(r, [][]byte{fontName})
	privs := make([]func(int) []byte, m.FDs)
	locs := make([][]byte, m.FDs)
	for i, g := range gens {
		def, nom := float64(r.Intn(1000)), float64(r.Intn(1000))
		if r.Intn(4) == 0 {
			def, nom = 0, 0
		}
		privs[i] = privateDict(r, def, nom)
		if len(g.l.b) > 0 {
			locs[i] = cffIndex(r, fill(g.l))
		} else if r.Intn(4) == 0 {
			locs[i] = []byte{0, 0}
		}
	}
	fdHasName := r.Intn(2) == 0
	fdSeed := r.Int63()
	privOff := make([]int, m.FDs)
	privLen := make([]int, m.FDs)
	fdarray := func() []byte {
		r := rand.New(rand.NewSource(fdSeed))
		var items [][]byte
		for i := range privs {
			d := &dict{r: r}
			if fdHasName {
				d.int(fdNames)
				d.op(1238)
			}
			if r.Intn(4) == 0 { // the usual place of the matrix in a CID-keyed font
				for _, s := range []string{"0.001", "0", "0", "0.001", "0", "0"} {
					if s == "0" {
						d.int(0)
					} else {
						d.real(s)
					}
				}
				d.op(1207)
			}
			d.off(privLen[i])
			d.off(privOff[i])
			d.op(18)
			items = append(items, d.B)
		}
		return cffIndex(r, items)
	}
	var fdsel []byte
	if cid {
		w := &W{}
		if r.Intn(2) == 0 {
			w.U8(0)
			for _, f := range fdOf {
				w.U8(f)
			}
		} else {
			w.U8(3)
			p := w.Len()
			w.U16(0)
			k := 0
			for i := range fdOf {
				if i == 0 || fdOf[i] != fdOf[i-1] || r.Intn(10) == 0 {
					w.U16(i)
					w.U8(fdOf[i])
					k++
				}
			}
			w.U16(n)
			w.Set16(p, k)
		}
		fdsel = w.B
	}
	order := r.Perm(4)
	gap := 0
	if r.Intn(5) == 0 {
		gap = r.Intn(5)
	}
	topIdxSeed := r.Int63()
	var w *W
	for pass := 0; pass < 2; pass++ {
		w = &W{}
		w.U8(1)
		w.U8(0)
		w.U8(4)
		w.U8(4)
		w.Bytes(nameB)
		w.Bytes(cffIndex(rand.New(rand.NewSource(topIdxSeed)), [][]byte{top()}))
		w.Bytes(strB)
		w.Bytes(gsB)
		for _, k := range order {
			w.Bytes(make([]byte, gap))
			switch k {
			case 0:
				offs.charset = w.Len()
				w.Bytes(charset)
			case 1:
				offs.cs = w.Len()
				w.Bytes(csB)
			case 2:
				offs.fdselect = w.Len()
				w.Bytes(fdsel)
			case 3:
				for i, p := range privs {
					privOff[i] = w.Len()
					so := 0
					if locs[i] != nil {
						so = len(p(1)) + gap
					}
					b := p(so)
					privLen[i] = len(b)
					w.Bytes(b)
					if locs[i] != nil {
						w.Bytes(make([]byte, gap))
						w.Bytes(locs[i])
					}
				}
				offs.priv, offs.privLen = privOff[0], privLen[0]
				if cid {
					offs.fdarray = w.Len()
					w.Bytes(fdarray())
				}
			}
		}
	}
	m.Bytes = w.B
	if !cid {
		for i, s := range sids {
			if s < len(ref.CFFStrings) {
				m.Names[i] = ref.CFFStrings[s]
			} else {
				m.Names[i] = string(strs[s-len(ref.CFFStrings)])
			}
		}
	}
	if len(m.Bytes) == 0 {
		panic(fmt.Sprint("synth: no data"))
	}
	return m
}

// factorIn splits the tokens of a subroutine; those of a global subroutine only call global ones.
func (c *csGen) factorIn(ts []tok, global bool) []tok {
	i := c.r.Intn(len(ts))
	j := i + 1 + c.r.Intn(len(ts)-i)
	sub, ok := c.call(append([]tok{}, ts[i:j]...), global || c.r.Intn(2) == 0)
	if !ok {
		return ts
	}
	return append(append(append([]tok{}, ts[:i]...), sub...), ts[j:]...)
}
