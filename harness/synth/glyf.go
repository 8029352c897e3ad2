package synth

import (
	"math/rand"
)

// Pt is a point of a simple glyph.
type Pt struct {
	X, Y int
	On   bool
}

// Comp is a component of a composite glyph.
type Comp struct {
	Glyph  int
	DX, DY int
	Scale  int // 0 none, 1 one scale, 2 two scales, 4 matrix
	M      [4]int
	Flags  int // extra flags
}

// Glyph is a TrueType glyph.
type Glyph struct {
	Contours [][]Pt
	Comps    []Comp
	Instr    []byte
	BBox     *[4]int // explicit bounding box
	Overlap  bool
	Trailing int // zero bytes after the description
}

// Empty tells whether the glyph has no description.
func (g *Glyph) Empty() bool { return g.Contours == nil && g.Comps == nil }

func min4(b [4]int, x, y int) [4]int {
	if x < b[0] {
		b[0] = x
	}
	if y < b[1] {
		b[1] = y
	}
	if x > b[2] {
		b[2] = x
	}
	if y > b[3] {
		b[3] = y
	}
	return b
}

// EncodeGlyph encodes a glyph description with random choices. box is used for composites.
func EncodeGlyph(r *rand.Rand, g *Glyph, box [4]int) []byte {
	w := &W{}
	if g.Empty() {
		return nil
	}
	if g.BBox != nil {
		box = *g.BBox
	}
	if g.Comps != nil {
		w.U16(0xFFFF)
		for _, v := range box {
			w.U16(v)
		}
		which := r.Intn(len(g.Comps)) // has the flag for instructions, the others may
		if r.Intn(3) == 0 {
			which = len(g.Comps) - 1
		}
		for i, c := range g.Comps {
			fl := c.Flags | 2
			words := c.DX < -128 || 127 < c.DX || c.DY < -128 || 127 < c.DY || r.Intn(4) == 0
			if words {
				fl |= 1
			}
			switch c.Scale {
			case 1:
				fl |= 0x08
			case 2:
				fl |= 0x40
			case 4:
				fl |= 0x80
			}
			if i+1 < len(g.Comps) {
				fl |= 0x20
			}
			if len(g.Instr) > 0 && (i == which || r.Intn(4) == 0) {
				fl |= 0x100
			}
			w.U16(fl)
			w.U16(c.Glyph)
			if words {
				w.U16(c.DX)
				w.U16(c.DY)
			} else {
				w.U8(c.DX)
				w.U8(c.DY)
			}
			switch c.Scale {
			case 1:
				w.U16(c.M[0])
			case 2:
				w.U16(c.M[0])
				w.U16(c.M[3])
			case 4:
				for _, m := range c.M {
					w.U16(m)
				}
			}
		}
		if len(g.Instr) > 0 {
			w.U16(len(g.Instr))
			w.Bytes(g.Instr)
		}
		for i := 0; i < g.Trailing; i++ {
			w.U8(0)
		}
		return w.B
	}
	w.U16(len(g.Contours))
	for _, v := range box {
		w.U16(v)
	}
	n := 0
	var pts []Pt
	for _, c := range g.Contours {
		n += len(c)
		w.U16(n - 1)
		pts = append(pts, c...)
	}
	w.U16(len(g.Instr))
	w.Bytes(g.Instr)
	var flags []byte
	xs, ys := &W{}, &W{}
	px, py := 0, 0
	lazy := r.Intn(4) == 0 // sometimes a less compact encoding
	enc := func(o *W, d int, short, same byte) byte {
		if d == 0 && !(lazy && r.Intn(2) == 0) {
			return same
		}
		if -255 <= d && d <= 255 && !(lazy && r.Intn(2) == 0) {
			if d < 0 {
				o.U8(-d)
				return short
			}
			o.U8(d)
			return short | same
		}
		o.U16(d)
		return 0
	}
	for i, p := range pts {
		var f byte
		if p.On {
			f = 1
		}
		f |= enc(xs, p.X-px, 2, 16)
		f |= enc(ys, p.Y-py, 4, 32)
		if i == 0 && g.Overlap {
			f |= 0x40
		}
		px, py = p.X, p.Y
		flags = append(flags, f)
	}
	rep := r.Intn(4)
	for i := 0; i < len(flags); {
		k := 1
		for i+k < len(flags) && flags[i+k] == flags[i] && k < 256 {
			k++
		}
		if rep != 0 && (k > 2 || k > 1 && rep == 1 || rep == 2 && r.Intn(5) == 0) {
			if rep == 1 && k > 3 && r.Intn(2) == 0 {
				k = 1 + r.Intn(k)
			}
			w.U8(int(flags[i]) | 8)
			w.U8(k - 1)
			i += k
		} else {
			w.U8(int(flags[i]))
			i++
		}
	}
	w.Bytes(xs.B)
	w.Bytes(ys.B)
	for i := 0; i < g.Trailing; i++ {
		w.U8(0)
	}
	return w.B
}

func coord(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return r.Intn(32001) - 16000
	case 1:
		return r.Intn(11) - 5
	}
	return r.Intn(2601) - 600
}

// RandContour makes a contour with a random mix of on- and off-curve points.
func RandContour(r *rand.Rand, n int) []Pt {
	c := make([]Pt, n)
	mode := r.Intn(6)
	for i := range c {
		c[i] = Pt{X: coord(r), Y: coord(r)}
		if i > 0 {
			switch r.Intn(8) {
			case 0:
				c[i].X = c[i-1].X
			case 1:
				c[i].Y = c[i-1].Y
			case 2:
				c[i].X = c[i-1].X + r.Intn(513) - 256
				c[i].Y = c[i-1].Y + r.Intn(513) - 256
			case 3:
				if r.Intn(8) == 0 {
					c[i].X, c[i].Y = c[i-1].X, c[i-1].Y
				}
			}
		}
		switch mode {
		case 0:
			c[i].On = true
		case 1:
			c[i].On = false
		case 2:
			c[i].On = i%2 == 0
		case 3:
			c[i].On = i%2 == 1
		default:
			c[i].On = r.Intn(3) != 0
		}
	}
	return c
}

// RandRun makes a contour with n points of which the flags can all be equal.
func RandRun(r *rand.Rand, n int) []Pt {
	c := make([]Pt, n)
	sx, sy, on := r.Intn(3)-1, r.Intn(3)-1, r.Intn(3) > 0
	step := 5800/n + 1
	if 400 < step {
		step = 400
	}
	x, y := -sx*2900, -sy*2900
	for i := range c {
		d := step/2 + r.Intn(step/2+1) // steps stay visible when a composite scales them
		x += sx * d
		y += sy * d
		c[i] = Pt{x, y, on}
	}
	return c
}

// tame limits coordinates so that composites of the glyph do not leave the 16-bit range.
func (g *Glyph) tame() {
	for _, c := range g.Contours {
		for i := range c {
			c[i].X %= 3000
			c[i].Y %= 3000
		}
	}
}

// GlyphSet is the outline data of a TrueType font.
type GlyphSet struct {
	Glyphs []*Glyph
	Box    [][4]int // of each glyph, as encoded
	Has    []bool   // has an outline
	// maxima
	Points, Contours, CompPoints, CompContours, CompElems, Depth, Instr int
	Glyf, Loca                                                          []byte
	Long                                                                bool
	HasTransform                                                        bool
}

type flat struct{ pts, cts, depth int }

// GlyphOpt selects the shapes of a glyph set.
type GlyphOpt struct {
	NoComposites, NoTransforms bool
	Long                       int // 0 random, 1 long, 2 short
	BigPoints                  bool
	OddBBox                    bool // some explicit bounding boxes that are not the ones of the outline
	NoTrailing                 bool
	NoInstr                    bool
	NoNotdef                   bool // .notdef is not used as a component
}

// RandGlyphs makes n glyphs.
func RandGlyphs(r *rand.Rand, n int, o GlyphOpt) *GlyphSet {
	s := &GlyphSet{Glyphs: make([]*Glyph, n), Box: make([][4]int, n), Has: make([]bool, n)}
	level := make([]int, n)
	var byLevel [9][]int
	kind := r.Intn(4)
	deep := r.Intn(6) == 0 // composites of composites, as deep as allowed
	if deep && kind > 0 {
		kind = 7
	}
	for i := range level {
		if !o.NoComposites && i > 0 && kind > 0 && r.Intn(3) == 0 {
			level[i] = 1 + r.Intn(kind+1)
		}
		byLevel[level[i]] = append(byLevel[level[i]], i)
	}
	flats := make([]flat, n)
	fpts := make([][][2]float64, n)
	for lv := 0; lv < len(byLevel); lv++ {
		for _, i := range byLevel[lv] {
			g := &Glyph{}
			s.Glyphs[i] = g
			if lv == 0 {
				if r.Intn(6) == 0 {
					continue // empty
				}
				nc := 1 + r.Intn(3)
				for c := 0; c < nc; c++ {
					np := 1 + r.Intn(12)
					if r.Intn(12) == 0 {
						np = 1
					} else if np < 3 {
						np = 3
					}
					if o.BigPoints && r.Intn(20) == 0 {
						np = 200 + r.Intn(400)
					}
					if r.Intn(60) == 0 {
						g.Contours = append(g.Contours, RandRun(r, 3+r.Intn(30)+[]int{0, 240, 255, 256, 510, 700}[r.Intn(6)]))
						continue
					}
					g.Contours = append(g.Contours, RandContour(r, np))
				}
				if r.Intn(150) == 0 { // many contours
					for k := 50 + r.Intn(300); k > 0; k-- {
						g.Contours = append(g.Contours, RandContour(r, 1+r.Intn(3)))
					}
				}
				g.Overlap = r.Intn(5) == 0
				if n > 1 {
					g.tame()
				}
				if !o.NoInstr && r.Intn(4) == 0 {
					g.Instr = randBytes(r, 1+r.Intn(20))
					if r.Intn(6) == 0 {
						g.Instr = randBytes(r, 250+r.Intn(600))
					}
				}
				f := flat{cts: len(g.Contours)}
				box := [4]int{1 << 20, 1 << 20, -1 << 20, -1 << 20}
				for _, c := range g.Contours {
					f.pts += len(c)
					for _, p := range c {
						box = min4(box, p.X, p.Y)
						fpts[i] = append(fpts[i], [2]float64{float64(p.X), float64(p.Y)})
					}
				}
				flats[i] = f
				s.Box[i], s.Has[i] = box, true
				if f.pts > s.Points {
					s.Points = f.pts
				}
				if f.cts > s.Contours {
					s.Contours = f.cts
				}
			} else {
				var cand []int
				for l := 0; l < lv; l++ {
					cand = append(cand, byLevel[l]...)
				}
				if o.NoNotdef && len(cand) > 1 {
					for k := len(cand) - 1; k >= 0; k-- {
						if cand[k] == 0 {
							cand = append(cand[:k], cand[k+1:]...)
						}
					}
				}
				nc := 1 + r.Intn(3)
				if deep {
					nc = 1 + r.Intn(2)
				}
				f := flat{}
				box := [4]int{1 << 20, 1 << 20, -1 << 20, -1 << 20}
				for k := 0; k < nc; k++ {
					c := Comp{Glyph: cand[r.Intn(len(cand))], DX: r.Intn(401) - 200, DY: r.Intn(1201) - 600}
					if below := byLevel[lv-1]; k == 0 && deep && len(below) > 0 {
						if b := below[r.Intn(len(below))]; b > 0 || !o.NoNotdef {
							c.Glyph = b
						}
					}
					if r.Intn(3) == 0 {
						c.DX, c.DY = 0, 0
					}
					if len(fpts[c.Glyph]) > 3000 || f.pts > 6000 {
						c.Glyph = cand[0]
					}
					wide := false
					for _, v := range s.Box[c.Glyph] {
						wide = wide || v < -9000 || v > 9000
					}
					if !o.NoTransforms && r.Intn(4) == 0 && !wide {
						c.Scale = []int{1, 2, 4}[r.Intn(3)]
						q := func() int { return (r.Intn(2)*2 - 1) * (0x1800 + r.Intn(0x3000)) }
						c.M = [4]int{q(), q() / 2, q() / 2, q()}
						switch c.Scale {
						case 1:
							c.M = [4]int{c.M[0], 0, 0, c.M[0]}
						case 2:
							c.M[1], c.M[2] = 0, 0
						}
						s.HasTransform = true
					} else {
						c.M = [4]int{0x4000, 0, 0, 0x4000}
					}
					c.Flags = []int{0, 0x4, 0x200, 0x204, 0x1000, 0x400}[r.Intn(6)]
					g.Comps = append(g.Comps, c)
					f.pts += flats[c.Glyph].pts
					f.cts += flats[c.Glyph].cts
					if d := flats[c.Glyph].depth + 1; d > f.depth {
						f.depth = d
					}
					for _, p := range fpts[c.Glyph] {
						m := func(k int) float64 { return float64(c.M[k]) / 16384 }
						q := [2]float64{p[0]*m(0) + p[1]*m(2) + float64(c.DX), p[0]*m(1) + p[1]*m(3) + float64(c.DY)}
						fpts[i] = append(fpts[i], q)
						box = min4(box, floor(q[0]), floor(q[1]))
						box = min4(box, ceil(q[0]), ceil(q[1]))
					}
				}
				if !o.NoInstr && r.Intn(3) == 0 {
					g.Instr = randBytes(r, 1+r.Intn(12))
				}
				flats[i] = f
				s.Has[i] = len(fpts[i]) > 0
				if !s.Has[i] {
					box = [4]int{}
				}
				s.Box[i] = box
				if f.pts > s.CompPoints {
					s.CompPoints = f.pts
				}
				if f.cts > s.CompContours {
					s.CompContours = f.cts
				}
				if len(g.Comps) > s.CompElems {
					s.CompElems = len(g.Comps)
				}
				if f.depth > s.Depth {
					s.Depth = f.depth
				}
			}
			if len(g.Instr) > s.Instr {
				s.Instr = len(g.Instr)
			}
			if o.OddBBox && r.Intn(5) == 0 && !g.Empty() {
				b := s.Box[i]
				b[r.Intn(4)] += r.Intn(21) - 10
				g.BBox = &b
				s.Box[i] = b
			}
			if !o.NoTrailing && r.Intn(12) == 0 {
				g.Trailing = 1 + r.Intn(3)
			}
		}
	}
	s.Encode(r, o.Long)
	return s
}

// Encode makes the glyf and loca tables.
func (s *GlyphSet) Encode(r *rand.Rand, long int) {
	gw := &W{}
	offs := []int{0}
	pad := []int{1, 2, 4}[r.Intn(3)]
	s.Long = long == 1 || long == 0 && r.Intn(2) == 0
	if !s.Long && pad == 1 {
		pad = 2
	}
	for i, g := range s.Glyphs {
		gw.Bytes(EncodeGlyph(r, g, s.Box[i]))
		gw.Pad(pad)
		offs = append(offs, gw.Len())
	}
	if !s.Long && gw.Len() > 131070 {
		s.Long = true
	}
	lw := &W{}
	for _, o := range offs {
		if s.Long {
			lw.U32(o)
		} else {
			lw.U16(o / 2)
		}
	}
	s.Glyf, s.Loca = gw.B, lw.B
	if s.Glyf == nil {
		s.Glyf = []byte{}
	}
}

func floor(v float64) int {
	i := int(v)
	if float64(i) > v {
		i--
	}
	return i
}
func ceil(v float64) int { return -floor(-v) }

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}
