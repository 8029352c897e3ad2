package ref

import (
	"fmt"
	"math"
)

// Point is a point of a TrueType outline.
type Point struct {
	X, Y        float64
	On, Overlap bool
	End         bool // last point of a contour
}

// Component is a component record of a composite glyph.
type Component struct {
	Flags, Glyph int
	Arg1, Arg2   int
	M            [4]float64 // xscale, scale01, scale10, yscale
	RawM         [4]int
}

// Glyph is a decoded glyph description.
type Glyph struct {
	Data         []byte
	Contours     int // -1 for composites, 0 also for empty
	BBox         [4]int
	Points       []Point // simple
	Components   []Component
	Instructions []byte
	Trailing     int // bytes after the description
}

// GlyphData returns the raw bytes of the glyph description.
func (f *Font) GlyphData(g int) ([]byte, error) {
	loca, glyf := f.Tables["loca"], f.Tables["glyf"]
	if g < 0 || g >= f.NumGlyphs() {
		return nil, fmt.Errorf("ref: bad glyph %d", g)
	}
	var s, e int
	if S16(f.Tables["head"], 50) == 0 {
		if !have(loca, 2*g+4) {
			return nil, fmt.Errorf("ref: short loca")
		}
		s, e = 2*U16(loca, 2*g), 2*U16(loca, 2*g+2)
	} else {
		if !have(loca, 4*g+8) {
			return nil, fmt.Errorf("ref: short loca")
		}
		s, e = U32(loca, 4*g), U32(loca, 4*g+4)
	}
	if e < s || len(glyf) < e {
		return nil, fmt.Errorf("ref: bad loca for %d: %d-%d of %d", g, s, e, len(glyf))
	}
	return glyf[s:e], nil
}

// Glyph decodes a glyph description.
func (f *Font) Glyph(g int) (*Glyph, error) {
	b, err := f.GlyphData(g)
	if err != nil {
		return nil, err
	}
	return DecodeGlyph(b)
}

// DecodeGlyph decodes the bytes of a glyph description.
func DecodeGlyph(b []byte) (*Glyph, error) {
	gl := &Glyph{Data: b}
	if len(b) == 0 {
		return gl, nil
	}
	bad := fmt.Errorf("ref: bad glyph")
	if len(b) < 10 {
		return nil, bad
	}
	gl.Contours = S16(b, 0)
	gl.BBox = [4]int{S16(b, 2), S16(b, 4), S16(b, 6), S16(b, 8)}
	o := 10
	if gl.Contours < 0 {
		instr := false
		for {
			if !have(b, o+4) {
				return nil, bad
			}
			c := Component{Flags: U16(b, o), Glyph: U16(b, o+2)}
			o += 4
			if c.Flags&1 != 0 {
				if !have(b, o+4) {
					return nil, bad
				}
				if c.Flags&2 != 0 {
					c.Arg1, c.Arg2 = S16(b, o), S16(b, o+2)
				} else {
					c.Arg1, c.Arg2 = U16(b, o), U16(b, o+2)
				}
				o += 4
			} else {
				if !have(b, o+2) {
					return nil, bad
				}
				if c.Flags&2 != 0 {
					c.Arg1, c.Arg2 = s8(b, o), s8(b, o+1)
				} else {
					c.Arg1, c.Arg2 = int(b[o]), int(b[o+1])
				}
				o += 2
			}
			c.RawM = [4]int{0x4000, 0, 0, 0x4000}
			n := 0
			if c.Flags&0x08 != 0 {
				n = 1
			} else if c.Flags&0x40 != 0 {
				n = 2
			} else if c.Flags&0x80 != 0 {
				n = 4
			}
			if !have(b, o+2*n) {
				return nil, bad
			}
			switch n {
			case 1:
				c.RawM[0] = S16(b, o)
				c.RawM[3] = c.RawM[0]
			case 2:
				c.RawM[0], c.RawM[3] = S16(b, o), S16(b, o+2)
			case 4:
				for i := range c.RawM {
					c.RawM[i] = S16(b, o+2*i)
				}
			}
			o += 2 * n
			for i := range c.M {
				c.M[i] = float64(c.RawM[i]) / 16384
			}
			if c.Flags&0x100 != 0 {
				instr = true
			}
			gl.Components = append(gl.Components, c)
			if c.Flags&0x20 == 0 {
				break
			}
		}
		if instr {
			if !have(b, o+2) || !have(b, o+2+U16(b, o)) {
				return nil, bad
			}
			gl.Instructions = b[o+2 : o+2+U16(b, o)]
			o += 2 + len(gl.Instructions)
		}
		gl.Trailing = len(b) - o
		return gl, nil
	}
	if !have(b, o+2*gl.Contours+2) {
		return nil, bad
	}
	ends := make([]int, gl.Contours)
	prev := -1
	for i := range ends {
		ends[i] = U16(b, o)
		if ends[i] <= prev {
			return nil, bad
		}
		prev = ends[i]
		o += 2
	}
	il := U16(b, o)
	o += 2
	if !have(b, o+il) {
		return nil, bad
	}
	gl.Instructions = b[o : o+il]
	o += il
	n := prev + 1
	flags := make([]byte, 0, n)
	for len(flags) < n {
		if !have(b, o+1) {
			return nil, bad
		}
		fl := b[o]
		o++
		flags = append(flags, fl)
		if fl&8 != 0 {
			if !have(b, o+1) {
				return nil, bad
			}
			for k := int(b[o]); k > 0; k-- {
				flags = append(flags, fl)
			}
			o++
		}
	}
	if len(flags) != n {
		return nil, bad
	}
	gl.Points = make([]Point, n)
	coord := func(short, same byte, set func(i, v int)) error {
		v := 0
		for i := 0; i < n; i++ {
			if flags[i]&short != 0 {
				if !have(b, o+1) {
					return bad
				}
				if flags[i]&same != 0 {
					v += int(b[o])
				} else {
					v -= int(b[o])
				}
				o++
			} else if flags[i]&same == 0 {
				if !have(b, o+2) {
					return bad
				}
				v += S16(b, o)
				o += 2
			}
			set(i, v)
		}
		return nil
	}
	if err := coord(2, 16, func(i, v int) { gl.Points[i].X = float64(v) }); err != nil {
		return nil, err
	}
	if err := coord(4, 32, func(i, v int) { gl.Points[i].Y = float64(v) }); err != nil {
		return nil, err
	}
	for i := range flags {
		gl.Points[i].On = flags[i]&1 != 0
		gl.Points[i].Overlap = flags[i]&0x40 != 0
	}
	for _, e := range ends {
		gl.Points[e].End = true
	}
	gl.Trailing = len(b) - o
	return gl, nil
}

// Flatten returns the points of the glyph with all components in place, without rounding, and how far integer
// rounding after each transformation (other than translation) may move them.
func (f *Font) Flatten(g int) (pts []Point, tol float64, err error) { return f.flatten(g, 0, nil) }

// Beyond returns whether coordinates on the way to the final outline of a glyph leave the range of the format.
func (f *Font) Beyond(g int) bool {
	b := false
	f.flatten(g, 0, &b)
	return b
}

// ErrPointMatch is returned for composites that attach components by point number.
var ErrPointMatch = fmt.Errorf("ref: point matching")

func (f *Font) flatten(g, depth int, beyond *bool) ([]Point, float64, error) {
	if depth > 16 {
		return nil, 0, fmt.Errorf("ref: too deep")
	}
	gl, err := f.Glyph(g)
	if err != nil {
		return nil, 0, err
	}
	if gl.Contours >= 0 {
		return gl.Points, 0, nil
	}
	var out []Point
	tol := 0.0
	for _, c := range gl.Components {
		sub, t, err := f.flatten(c.Glyph, depth+1, beyond)
		if err != nil {
			return nil, 0, err
		}
		if c.Flags&2 == 0 {
			return nil, 0, ErrPointMatch
		}
		if c.RawM != [4]int{0x4000, 0, 0, 0x4000} {
			t = 1.01 + t*math.Max(math.Abs(c.M[0])+math.Abs(c.M[2]), math.Abs(c.M[1])+math.Abs(c.M[3]))
		}
		tol = math.Max(tol, t)
		for _, p := range sub {
			q := p
			q.X = p.X*c.M[0] + p.Y*c.M[2] + float64(c.Arg1)
			q.Y = p.X*c.M[1] + p.Y*c.M[3] + float64(c.Arg2)
			if beyond != nil {
				for _, v := range [...]float64{p.X, p.Y, q.X, q.Y, p.X * c.M[0], p.Y * c.M[2], p.X * c.M[1], p.Y * c.M[3], q.X - float64(c.Arg1), q.Y - float64(c.Arg2)} {
					if math.Abs(v) > 32000 {
						*beyond = true
					}
				}
			}
			out = append(out, q)
		}
	}
	return out, tol, nil
}

// PointsToPath draws quadratic contours.
func PointsToPath(pts []Point) []Seg {
	p := &Path{}
	for i := 0; i < len(pts); {
		j := i
		for !pts[j].End {
			j++
		}
		c := pts[i : j+1]
		i = j + 1
		n := len(c)
		// expand implied points
		type pt struct {
			x, y float64
			on   bool
		}
		var e []pt
		for k := 0; k < n; k++ {
			a, b := c[k], c[(k+1)%n]
			e = append(e, pt{a.X, a.Y, a.On})
			if !a.On && !b.On {
				e = append(e, pt{(a.X + b.X) / 2, (a.Y + b.Y) / 2, true})
			}
		}
		s := 0
		for !e[s].on {
			s++
		}
		m := len(e)
		p.MoveTo(e[s].x, e[s].y)
		for k := 1; k <= m; k++ {
			q := e[(s+k)%m]
			if q.on {
				p.LineTo(q.x, q.y)
			} else {
				r := e[(s+k+1)%m]
				p.QuadTo(q.x, q.y, r.x, r.y)
				k++
			}
		}
		p.Close()
	}
	return p.Segs
}

// Outline returns the path of a glyph and the tolerance with which transformed composites may be rounded.
func (f *Font) Outline(g int) ([]Seg, float64, error) {
	if f.CFF != nil {
		segs, _, err := f.CFF.Outline(g)
		return segs, 0, err
	}
	pts, tol, err := f.Flatten(g)
	if err != nil {
		return nil, 0, err
	}
	return PointsToPath(pts), tol, nil
}
