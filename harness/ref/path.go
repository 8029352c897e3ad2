package ref

import (
	"fmt"
	"math"
)

// Seg is one path segment: 'M' (2 numbers), 'L' (2), 'Q' (4), 'C' (6) or 'Z' (0).
type Seg struct {
	Op byte
	P  [6]float64
}

// Path is a list of path events. It implements the Pather interface of the library and counts its events.
type Path struct {
	Segs  []Seg
	Limit int // when > 0, panics with TooManySegs beyond this many events
	Bad   string
}

// TooManySegs is the value a Path panics with beyond its limit.
type TooManySegs struct{ N int }

func (p *Path) add(op byte, v ...float64) {
	s := Seg{Op: op}
	copy(s.P[:], v)
	for _, x := range v {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			p.Bad = "non-finite coordinate"
		}
	}
	p.Segs = append(p.Segs, s)
	if p.Limit > 0 && len(p.Segs) > p.Limit {
		panic(TooManySegs{len(p.Segs)})
	}
}

func (p *Path) MoveTo(x, y float64)             { p.add('M', x, y) }
func (p *Path) LineTo(x, y float64)             { p.add('L', x, y) }
func (p *Path) QuadTo(a, b, x, y float64)       { p.add('Q', a, b, x, y) }
func (p *Path) CubeTo(a, b, c, d, x, y float64) { p.add('C', a, b, c, d, x, y) }
func (p *Path) Close()                          { p.add('Z') }

func (s Seg) String() string {
	n := map[byte]int{'M': 2, 'L': 2, 'Q': 4, 'C': 6, 'Z': 0}[s.Op]
	return fmt.Sprintf("%c%v", s.Op, s.P[:n])
}

func (s Seg) end() (float64, float64) {
	switch s.Op {
	case 'M', 'L':
		return s.P[0], s.P[1]
	case 'Q':
		return s.P[2], s.P[3]
	}
	return s.P[4], s.P[5]
}

// Contour is a canonical closed contour: segments without the initial move, without degenerate lines and with
// the closing line explicit.
type Contour struct {
	X, Y float64
	Segs []Seg
}

// Contours converts events to canonical contours and reports ill-formed event sequences.
func Contours(segs []Seg) ([]Contour, error) {
	var out []Contour
	var cur *Contour
	var x, y float64
	const eps = 1e-9
	closeCur := func() {
		if math.Abs(x-cur.X) > eps || math.Abs(y-cur.Y) > eps {
			cur.Segs = append(cur.Segs, Seg{Op: 'L', P: [6]float64{cur.X, cur.Y}})
		}
		if len(cur.Segs) > 0 {
			out = append(out, *cur)
		}
		cur = nil
	}
	for i, s := range segs {
		switch s.Op {
		case 'M':
			if cur != nil {
				return nil, fmt.Errorf("contour before event %d is not closed", i)
			}
			x, y = s.P[0], s.P[1]
			cur = &Contour{X: x, Y: y}
		case 'Z':
			if cur == nil {
				continue // closing nothing draws nothing
			}
			closeCur()
		default:
			if cur == nil {
				return nil, fmt.Errorf("drawing without open contour at event %d", i)
			}
			nx, ny := s.end()
			if s.Op == 'L' && math.Abs(nx-x) <= eps && math.Abs(ny-y) <= eps {
				continue
			}
			if s.Op == 'Q' && math.Abs(nx-x)+math.Abs(ny-y)+math.Abs(s.P[0]-x)+math.Abs(s.P[1]-y) <= eps {
				continue // a single off-curve point
			}
			cur.Segs = append(cur.Segs, s)
			x, y = nx, ny
		}
	}
	if cur != nil {
		return nil, fmt.Errorf("last contour is not closed")
	}
	return out, nil
}

func segEq(a, b Seg, tol float64) bool {
	if a.Op != b.Op {
		return false
	}
	for i := range a.P {
		if math.Abs(a.P[i]-b.P[i]) > tol {
			return false
		}
	}
	return true
}

// degenerate reports whether the segment from (x,y) stays within tol of it.
func degenerate(x, y float64, s Seg, tol float64) bool {
	n := map[byte]int{'L': 2, 'Q': 4, 'C': 6}[s.Op]
	for k := 0; k < n; k += 2 {
		if math.Abs(s.P[k]-x) > tol || math.Abs(s.P[k+1]-y) > tol {
			return false
		}
	}
	return true
}

// fine reports whether most segments of a long contour are tiny, so that many of them can be absent after rounding.
func fine(a Contour, tol float64) bool {
	if len(a.Segs) < 25 {
		return false
	}
	n := 0
	x, y := a.X, a.Y
	for _, s := range a.Segs {
		if degenerate(x, y, s, tol) {
			n++
		}
		x, y = s.end()
	}
	return 2*n > len(a.Segs)
}

// along reports whether the points of a are within tol of the segments of b, taken as lines.
func along(a, b Contour, tol float64) bool {
	for i := -1; i < len(a.Segs); i++ {
		px, py := a.X, a.Y
		if i >= 0 {
			px, py = a.Segs[i].end()
		}
		near := false
		x, y := b.X, b.Y
		for _, s := range b.Segs {
			ex, ey := s.end()
			dx, dy, t := ex-x, ey-y, 0.0
			if l := dx*dx + dy*dy; l > 0 {
				t = math.Min(1, math.Max(0, ((px-x)*dx+(py-y)*dy)/l))
			}
			if math.Hypot(x+t*dx-px, y+t*dy-py) <= tol {
				near = true
				break
			}
			x, y = ex, ey
		}
		if !near {
			return false
		}
	}
	return true
}

// contourNear compares contours of which the points were rounded: tiny segments may be absent in either.
func contourNear(a, b Contour, tol float64) bool {
	n, m := len(a.Segs), len(b.Segs)
	starts := m
	if starts == 0 {
		starts = 1
	}
	const band = 24 // segments that may be absent
	ok := make([][2*band + 1]bool, n+1)
	for k := 0; k < starts; k++ {
		end := func(c Contour, i, k int) (float64, float64) { // end of the segment before i
			if len(c.Segs) == 0 || k == 0 && i == 0 {
				return c.X, c.Y
			}
			return c.Segs[(i+k+len(c.Segs)-1)%len(c.Segs)].end()
		}
		// ok[i][j-i+band] tells whether the first i and j segments can be matched
		for i := range ok {
			ok[i] = [2*band + 1]bool{}
		}
		ok[0][band] = true
		any := true
		for i := 0; i <= n && any; i++ {
			any = false
			for d := 0; d <= 2*band; d++ {
				j := i + d - band
				if j < 0 || m < j || !ok[i][d] {
					continue
				}
				any = true
				if i < n && j < m && segEq(a.Segs[i], b.Segs[(j+k)%m], tol) {
					ok[i+1][d] = true
				}
				if i < n && 0 < d {
					if x, y := end(a, i, 0); degenerate(x, y, a.Segs[i], 2*tol) {
						ok[i+1][d-1] = true
					}
				}
				if j < m && d < 2*band {
					if x, y := end(b, j, k); degenerate(x, y, b.Segs[(j+k)%m], 2*tol) {
						ok[i][d+1] = true
					}
				}
			}
		}
		if d := m - n + band; 0 <= d && d <= 2*band && ok[n][d] {
			return true
		}
	}
	return fine(a, 4*tol) && fine(b, 4*tol) && along(a, b, 4*tol) && along(b, a, 4*tol)
}

func contourEq(a, b Contour, tol float64) bool {
	if len(a.Segs) != len(b.Segs) {
		return false
	}
	n := len(a.Segs)
rot:
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if !segEq(a.Segs[i], b.Segs[(i+k)%n], tol) {
				continue rot
			}
		}
		return true
	}
	return n == 0
}

// SamePath compares two event sequences as sequences of closed contours, independent of the start point of each
// contour, of explicit or implicit closing lines and of zero-length lines.
func SamePath(got, want []Seg, tol float64) error { return samePath(got, want, tol, false) }

// SamePathNear is SamePath for outlines of which the points were rounded, so that tiny segments and contours may
// have vanished.
func SamePathNear(got, want []Seg, tol float64) error { return samePath(got, want, tol, true) }

func samePath(got, want []Seg, tol float64, near bool) error {
	g, err := Contours(got)
	if err != nil {
		return err
	}
	w, err := Contours(want)
	if err != nil {
		return fmt.Errorf("reference: %v", err)
	}
	diff := func(i, j int) error {
		return fmt.Errorf("contour %d differs: got (%v,%v) %v want (%v,%v) %v", j, g[i].X, g[i].Y, trunc(g[i].Segs), w[j].X, w[j].Y, trunc(w[j].Segs))
	}
	if near { // rounding may have made contours vanish
		i, j := 0, 0
		for i < len(g) || j < len(w) {
			switch {
			case i < len(g) && j < len(w) && (contourEq(g[i], w[j], tol) || contourNear(g[i], w[j], tol)):
				i++
				j++
			case i < len(g) && tiny(g[i], 4*tol):
				i++
			case j < len(w) && tiny(w[j], 4*tol):
				j++
			case i < len(g) && j < len(w):
				return diff(i, j)
			default:
				return fmt.Errorf("%d contours instead of %d", len(g), len(w))
			}
		}
		return nil
	}
	if len(g) != len(w) {
		return fmt.Errorf("%d contours instead of %d", len(g), len(w))
	}
	for i := range g {
		if !contourEq(g[i], w[i], tol) {
			return diff(i, i)
		}
	}
	return nil
}

func tiny(c Contour, size float64) bool {
	for _, s := range c.Segs {
		if !degenerate(c.X, c.Y, s, size) {
			return false
		}
	}
	return true
}

func trunc(s []Seg) string {
	if len(s) > 12 {
		return fmt.Sprint(s[:12]) + fmt.Sprintf("...(%d)", len(s))
	}
	return fmt.Sprint(s)
}

// Transform applies scale and translation.
func Transform(segs []Seg, x, y, f float64) []Seg {
	out := make([]Seg, len(segs))
	for i, s := range segs {
		out[i].Op = s.Op
		n := map[byte]int{'M': 2, 'L': 2, 'Q': 4, 'C': 6, 'Z': 0}[s.Op]
		for k := 0; k < n; k++ {
			if k%2 == 0 {
				out[i].P[k] = x + f*s.P[k]
			} else {
				out[i].P[k] = y + f*s.P[k]
			}
		}
	}
	return out
}

// ControlBox returns the bounding box of all end and control points, ok is false for an empty path.
func ControlBox(segs []Seg) (x0, y0, x1, y1 float64, ok bool) {
	x0, y0, x1, y1 = math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for _, s := range segs {
		n := map[byte]int{'M': 2, 'L': 2, 'Q': 4, 'C': 6, 'Z': 0}[s.Op]
		for k := 0; k < n; k += 2 {
			ok = true
			x0, x1 = math.Min(x0, s.P[k]), math.Max(x1, s.P[k])
			y0, y1 = math.Min(y0, s.P[k+1]), math.Max(y1, s.P[k+1])
		}
	}
	return
}

// TightBox returns the bounding box of the curves themselves.
func TightBox(segs []Seg) (x0, y0, x1, y1 float64, ok bool) {
	x0, y0, x1, y1 = math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	add := func(x, y float64) {
		ok = true
		x0, x1 = math.Min(x0, x), math.Max(x1, x)
		y0, y1 = math.Min(y0, y), math.Max(y1, y)
	}
	var px, py float64
	for _, s := range segs {
		switch s.Op {
		case 'M', 'L':
			add(s.P[0], s.P[1])
		case 'Q':
			add(s.P[2], s.P[3])
			for d := 0; d < 2; d++ {
				a, b, c := px, s.P[0], s.P[2]
				if d == 1 {
					a, b, c = py, s.P[1], s.P[3]
				}
				if den := a - 2*b + c; den != 0 {
					if t := (a - b) / den; t > 0 && t < 1 {
						add(quad(px, s.P[0], s.P[2], t), quad(py, s.P[1], s.P[3], t))
					}
				}
			}
		case 'C':
			add(s.P[4], s.P[5])
			for d := 0; d < 2; d++ {
				p0, p1, p2, p3 := px, s.P[0], s.P[2], s.P[4]
				if d == 1 {
					p0, p1, p2, p3 = py, s.P[1], s.P[3], s.P[5]
				}
				a := -p0 + 3*p1 - 3*p2 + p3
				b := 2 * (p0 - 2*p1 + p2)
				c := p1 - p0
				var ts []float64
				if math.Abs(a) < 1e-12 {
					if b != 0 {
						ts = append(ts, -c/b)
					}
				} else if disc := b*b - 4*a*c; disc >= 0 {
					q := math.Sqrt(disc)
					ts = append(ts, (-b+q)/(2*a), (-b-q)/(2*a))
				}
				for _, t := range ts {
					if t > 0 && t < 1 {
						add(cube(px, s.P[0], s.P[2], s.P[4], t), cube(py, s.P[1], s.P[3], s.P[5], t))
					}
				}
			}
		}
		if s.Op != 'Z' {
			px, py = s.end()
		}
	}
	return
}

func quad(a, b, c, t float64) float64 { u := 1 - t; return u*u*a + 2*u*t*b + t*t*c }
func cube(a, b, c, d, t float64) float64 {
	u := 1 - t
	return u*u*u*a + 3*u*u*t*b + 3*u*t*t*c + t*t*t*d
}
