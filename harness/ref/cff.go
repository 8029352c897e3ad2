package ref

import (
	"fmt"
	"math"
	"strconv"
)

// CFF is a decoded CFF font set with one font.
type CFF struct {
	Data              []byte
	Name              string
	Top               map[int][]float64 // operator (12 x is 1200+x) to operands
	Strings           [][]byte
	GSubrs            [][]byte
	CharStrings       [][]byte
	CharsetSID        []int // string IDs (or CIDs) by glyph
	CID               bool
	FDs               []CFFFD
	FDSelect          []int
	PredefinedCharset int
}

// CFFFD is a font dictionary with its private data.
type CFFFD struct {
	Top     map[int][]float64
	Private map[int][]float64
	Subrs   [][]byte
}

type cffErr string

func (e cffErr) Error() string { return "ref: CFF: " + string(e) }

// readIndex reads an INDEX at o and returns its entries and the offset after it.
func readIndex(b []byte, o int) ([][]byte, int, error) {
	if o < 0 || !have(b, o+2) {
		return nil, 0, cffErr("INDEX out of range")
	}
	n := U16(b, o)
	if n == 0 {
		return nil, o + 2, nil
	}
	if !have(b, o+3) {
		return nil, 0, cffErr("INDEX truncated")
	}
	sz := int(b[o+2])
	if sz < 1 || sz > 4 || !have(b, o+3+sz*(n+1)) {
		return nil, 0, cffErr("INDEX offsets truncated")
	}
	off := func(i int) int {
		v := 0
		for k := 0; k < sz; k++ {
			v = v<<8 | int(b[o+3+sz*i+k])
		}
		return v
	}
	base := o + 3 + sz*(n+1) - 1
	if off(0) != 1 {
		return nil, 0, cffErr("INDEX first offset is not 1")
	}
	out := make([][]byte, n)
	for i := 0; i < n; i++ {
		s, e := off(i), off(i+1)
		if e < s || !have(b, base+e) {
			return nil, 0, cffErr(fmt.Sprintf("INDEX entry %d of %d out of range (%d-%d)", i, n, s, e))
		}
		out[i] = b[base+s : base+e]
	}
	return out, base + off(n), nil
}

func readDict(b []byte) (map[int][]float64, error) {
	m := map[int][]float64{}
	var st []float64
	for i := 0; i < len(b); {
		c := int(b[i])
		i++
		need := func(n int) bool { return i+n <= len(b) }
		switch {
		case c <= 21:
			if c == 12 {
				if !need(1) {
					return nil, cffErr("DICT truncated")
				}
				c = 1200 + int(b[i])
				i++
			}
			m[c] = st
			st = nil
		case c == 28:
			if !need(2) {
				return nil, cffErr("DICT truncated")
			}
			st = append(st, float64(S16(b, i)))
			i += 2
		case c == 29:
			if !need(4) {
				return nil, cffErr("DICT truncated")
			}
			st = append(st, float64(int32(U32(b, i))))
			i += 4
		case c == 30:
			s := ""
			done := false
			for !done {
				if !need(1) {
					return nil, cffErr("DICT real truncated")
				}
				for _, nb := range []byte{b[i] >> 4, b[i] & 15} {
					switch {
					case done:
					case nb < 10:
						s += string(rune('0' + nb))
					case nb == 10:
						s += "."
					case nb == 11:
						s += "E"
					case nb == 12:
						s += "E-"
					case nb == 14:
						s += "-"
					case nb == 15:
						done = true
					default:
						return nil, cffErr("bad real")
					}
				}
				i++
			}
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				return nil, cffErr("bad real " + s)
			}
			st = append(st, f)
		case c >= 32 && c <= 246:
			st = append(st, float64(c-139))
		case c >= 247 && c <= 254:
			if !need(1) {
				return nil, cffErr("DICT truncated")
			}
			v := (c-247)*256 + int(b[i]) + 108
			if c >= 251 {
				v = -(c-251)*256 - int(b[i]) - 108
			}
			st = append(st, float64(v))
			i++
		default:
			return nil, cffErr("reserved DICT byte")
		}
	}
	if len(st) != 0 {
		return nil, cffErr("operands without operator")
	}
	return m, nil
}

func dint(m map[int][]float64, op, i, def int) int {
	if v, ok := m[op]; ok && i < len(v) {
		return int(v[i])
	}
	return def
}

func (c *CFF) private(m map[int][]float64) (CFFFD, error) {
	fd := CFFFD{Top: m, Private: map[int][]float64{}}
	v, ok := m[18]
	if !ok {
		return fd, nil
	}
	if len(v) != 2 || v[0] < 0 || v[1] < 0 || !have(c.Data, int(v[0]+v[1])) {
		return fd, cffErr("bad Private")
	}
	sz, off := int(v[0]), int(v[1])
	p, err := readDict(c.Data[off : off+sz])
	if err != nil {
		return fd, err
	}
	fd.Private = p
	if s := dint(p, 19, 0, 0); s != 0 {
		fd.Subrs, _, err = readIndex(c.Data, off+s)
		if err != nil {
			return fd, err
		}
	}
	return fd, nil
}

// ParseCFF reads a CFF table.
func ParseCFF(b []byte) (*CFF, error) {
	if len(b) < 4 || b[0] != 1 {
		return nil, cffErr("bad header")
	}
	c := &CFF{Data: b}
	names, o, err := readIndex(b, int(b[2]))
	if err != nil {
		return nil, err
	}
	tops, o, err := readIndex(b, o)
	if err != nil {
		return nil, err
	}
	if len(names) != 1 || len(tops) != 1 {
		return nil, cffErr("not one font")
	}
	c.Name = string(names[0])
	c.Strings, o, err = readIndex(b, o)
	if err != nil {
		return nil, err
	}
	c.GSubrs, _, err = readIndex(b, o)
	if err != nil {
		return nil, err
	}
	c.Top, err = readDict(tops[0])
	if err != nil {
		return nil, err
	}
	c.CharStrings, _, err = readIndex(b, dint(c.Top, 17, 0, -1))
	if err != nil {
		return nil, err
	}
	n := len(c.CharStrings)
	_, c.CID = c.Top[1230]
	cs := dint(c.Top, 15, 0, 0)
	c.CharsetSID = make([]int, n)
	if cs <= 2 {
		c.PredefinedCharset = cs
		if cs != 0 {
			return nil, cffErr("predefined expert charset")
		}
		if n > 229 && !c.CID {
			return nil, cffErr("ISOAdobe charset with too many glyphs")
		}
		for i := range c.CharsetSID {
			c.CharsetSID[i] = i
		}
	} else {
		o := cs
		if !have(b, o+1) {
			return nil, cffErr("charset out of range")
		}
		format := b[o]
		o++
		for i := 1; i < n; {
			k, l := 0, 0
			switch format {
			case 0:
				k, l = 2, 0
			case 1:
				k = 3
			case 2:
				k = 4
			default:
				return nil, cffErr("charset format")
			}
			if !have(b, o+k) {
				return nil, cffErr("charset truncated")
			}
			s := U16(b, o)
			if k == 3 {
				l = int(b[o+2])
			} else if k == 4 {
				l = U16(b, o+2)
			}
			o += k
			for ; l >= 0 && i < n; l-- {
				c.CharsetSID[i] = s
				s++
				i++
			}
			if l >= 0 {
				return nil, cffErr("charset range beyond the glyphs")
			}
		}
	}
	c.FDSelect = make([]int, n)
	if !c.CID {
		fd, err := c.private(c.Top)
		if err != nil {
			return nil, err
		}
		c.FDs = []CFFFD{fd}
		return c, nil
	}
	fds, _, err := readIndex(b, dint(c.Top, 1236, 0, -1))
	if err != nil {
		return nil, err
	}
	for _, d := range fds {
		m, err := readDict(d)
		if err != nil {
			return nil, err
		}
		fd, err := c.private(m)
		if err != nil {
			return nil, err
		}
		c.FDs = append(c.FDs, fd)
	}
	so := dint(c.Top, 1237, 0, -1)
	if so < 0 || !have(b, so+1) {
		return nil, cffErr("FDSelect out of range")
	}
	switch b[so] {
	case 0:
		if !have(b, so+1+n) {
			return nil, cffErr("FDSelect truncated")
		}
		for i := range c.FDSelect {
			c.FDSelect[i] = int(b[so+1+i])
		}
	case 3:
		if !have(b, so+3) || !have(b, so+3+3*U16(b, so+1)+2) {
			return nil, cffErr("FDSelect truncated")
		}
		k := U16(b, so+1)
		for i := 0; i < k; i++ {
			f, fd, l := U16(b, so+3+3*i), int(b[so+5+3*i]), U16(b, so+6+3*i)
			for g := f; g < l && g < n; g++ {
				c.FDSelect[g] = fd
			}
		}
	default:
		return nil, cffErr("FDSelect format")
	}
	for _, fd := range c.FDSelect {
		if fd >= len(c.FDs) {
			return nil, cffErr("FDSelect value")
		}
	}
	return c, nil
}

// SID returns the text of a string ID.
func (c *CFF) SID(i int) (string, bool) {
	if i < len(CFFStrings) {
		return CFFStrings[i], true
	}
	if i -= len(CFFStrings); i < len(c.Strings) {
		return string(c.Strings[i]), true
	}
	return "", false
}

// GlyphNames returns the names by glyph (nil for CID fonts).
func (c *CFF) GlyphNames() []string {
	if c.CID {
		return nil
	}
	out := make([]string, len(c.CharsetSID))
	for i, s := range c.CharsetSID {
		out[i], _ = c.SID(s)
	}
	return out
}

func bias(n int) int {
	if n < 1240 {
		return 107
	}
	if n < 33900 {
		return 1131
	}
	return 32768
}

// CharInfo is what interpreting a charstring reveals besides the path.
type CharInfo struct {
	Width                float64 // nominal or default width included
	HasWidth             bool
	Stems                int
	LSubr, GSubr         map[int]bool // called subroutines
	MaxDepth             int
	Calls, Masks, Flexes int
}

// Outline interprets the charstring of a glyph.
func (c *CFF) Outline(g int) ([]Seg, *CharInfo, error) {
	if g < 0 || g >= len(c.CharStrings) {
		return nil, nil, cffErr("bad glyph")
	}
	fd := c.FDs[c.FDSelect[g]]
	info := &CharInfo{LSubr: map[int]bool{}, GSubr: map[int]bool{}}
	nominal, def := 0.0, 0.0
	if v := fd.Private[21]; len(v) > 0 {
		nominal = v[0]
	}
	if v := fd.Private[20]; len(v) > 0 {
		def = v[0]
	}
	info.Width = def
	p := &Path{}
	var st []float64
	var x, y float64
	open, first := false, true
	steps := 0
	width := func(odd bool) {
		if first {
			first = false
			if odd {
				if len(st) > 0 {
					info.Width, info.HasWidth = nominal+st[0], true
					st = st[1:]
				}
			}
		}
	}
	move := func(dx, dy float64) {
		if open {
			p.Close()
		}
		open = true
		x, y = x+dx, y+dy
		p.MoveTo(x, y)
	}
	line := func(dx, dy float64) { x, y = x+dx, y+dy; p.LineTo(x, y) }
	curve := func(a, b, cc, d, e, f float64) {
		x1, y1 := x+a, y+b
		x2, y2 := x1+cc, y1+d
		x, y = x2+e, y2+f
		p.CubeTo(x1, y1, x2, y2, x, y)
	}
	var run func(b []byte, depth int) (bool, error)
	run = func(b []byte, depth int) (bool, error) {
		if depth > 10 {
			return false, cffErr("nesting")
		}
		if depth > info.MaxDepth {
			info.MaxDepth = depth
		}
		for i := 0; i < len(b); {
			if steps++; steps > 5000000 {
				return false, cffErr("too long")
			}
			op := int(b[i])
			i++
			if op == 28 {
				if i+2 > len(b) {
					return false, cffErr("truncated")
				}
				st = append(st, float64(S16(b, i)))
				i += 2
				continue
			} else if op >= 32 {
				switch {
				case op < 247:
					st = append(st, float64(op-139))
				case op < 255:
					if i+1 > len(b) {
						return false, cffErr("truncated")
					}
					v := (op-247)*256 + int(b[i]) + 108
					if op >= 251 {
						v = -(op-251)*256 - int(b[i]) - 108
					}
					st = append(st, float64(v))
					i++
				default:
					if i+4 > len(b) {
						return false, cffErr("truncated")
					}
					st = append(st, float64(int32(U32(b, i)))/65536)
					i += 4
				}
				if len(st) > 48 {
					return false, cffErr("stack overflow")
				}
				continue
			}
			if op == 12 {
				if i >= len(b) {
					return false, cffErr("truncated")
				}
				op = 1200 + int(b[i])
				i++
			}
			switch op {
			case 1, 3, 18, 23:
				width(len(st)%2 == 1)
				info.Stems += len(st) / 2
				st = st[:0]
			case 19, 20:
				info.Masks++
				width(len(st)%2 == 1)
				info.Stems += len(st) / 2
				st = st[:0]
				i += (info.Stems + 7) / 8
				if i > len(b) {
					return false, cffErr("mask truncated")
				}
			case 21:
				width(len(st) > 2)
				if len(st) != 2 {
					return false, cffErr("rmoveto")
				}
				move(st[0], st[1])
				st = st[:0]
			case 22, 4:
				width(len(st) > 1)
				if len(st) != 1 {
					return false, cffErr("moveto")
				}
				if op == 22 {
					move(st[0], 0)
				} else {
					move(0, st[0])
				}
				st = st[:0]
			case 5:
				if len(st)%2 != 0 {
					return false, cffErr("rlineto")
				}
				for k := 0; k < len(st); k += 2 {
					line(st[k], st[k+1])
				}
				st = st[:0]
			case 6, 7:
				h := op == 6
				for _, v := range st {
					if h {
						line(v, 0)
					} else {
						line(0, v)
					}
					h = !h
				}
				st = st[:0]
			case 8:
				if len(st)%6 != 0 {
					return false, cffErr("rrcurveto")
				}
				for k := 0; k < len(st); k += 6 {
					curve(st[k], st[k+1], st[k+2], st[k+3], st[k+4], st[k+5])
				}
				st = st[:0]
			case 24:
				n := len(st)
				if n < 8 || (n-2)%6 != 0 {
					return false, cffErr("rcurveline")
				}
				k := 0
				for ; k < n-2; k += 6 {
					curve(st[k], st[k+1], st[k+2], st[k+3], st[k+4], st[k+5])
				}
				line(st[k], st[k+1])
				st = st[:0]
			case 25:
				n := len(st)
				if n < 8 || (n-6)%2 != 0 {
					return false, cffErr("rlinecurve")
				}
				k := 0
				for ; k < n-6; k += 2 {
					line(st[k], st[k+1])
				}
				curve(st[k], st[k+1], st[k+2], st[k+3], st[k+4], st[k+5])
				st = st[:0]
			case 26, 27:
				n := len(st)
				if n < 4 || n%4 > 1 {
					return false, cffErr("hhcurveto")
				}
				k, e := 0, 0.0
				if n%4 == 1 {
					e, k = st[0], 1
				}
				for ; k < n; k += 4 {
					if op == 27 {
						curve(st[k], e, st[k+1], st[k+2], st[k+3], 0)
					} else {
						curve(e, st[k], st[k+1], st[k+2], 0, st[k+3])
					}
					e = 0
				}
				st = st[:0]
			case 30, 31:
				n := len(st)
				if n < 4 || n%4 > 1 {
					return false, cffErr("hvcurveto")
				}
				h := op == 31
				for k := 0; k+4 <= n; k += 4 {
					e := 0.0
					if k+5 == n {
						e = st[k+4]
					}
					if h {
						curve(st[k], 0, st[k+1], st[k+2], e, st[k+3])
					} else {
						curve(0, st[k], st[k+1], st[k+2], st[k+3], e)
					}
					h = !h
				}
				st = st[:0]
			case 1235:
				info.Flexes++
				if len(st) != 13 {
					return false, cffErr("flex")
				}
				curve(st[0], st[1], st[2], st[3], st[4], st[5])
				curve(st[6], st[7], st[8], st[9], st[10], st[11])
				st = st[:0]
			case 1234:
				info.Flexes++
				if len(st) != 7 {
					return false, cffErr("hflex")
				}
				curve(st[0], 0, st[1], st[2], st[3], 0)
				curve(st[4], 0, st[5], -st[2], st[6], 0)
				st = st[:0]
			case 1236:
				info.Flexes++
				if len(st) != 9 {
					return false, cffErr("hflex1")
				}
				curve(st[0], st[1], st[2], st[3], st[4], 0)
				curve(st[5], 0, st[6], st[7], st[8], -(st[1] + st[3] + st[7]))
				st = st[:0]
			case 1237:
				info.Flexes++
				if len(st) != 11 {
					return false, cffErr("flex1")
				}
				dx := st[0] + st[2] + st[4] + st[6] + st[8]
				dy := st[1] + st[3] + st[5] + st[7] + st[9]
				curve(st[0], st[1], st[2], st[3], st[4], st[5])
				if math.Abs(dx) > math.Abs(dy) {
					curve(st[6], st[7], st[8], st[9], st[10], -dy)
				} else {
					curve(st[6], st[7], st[8], st[9], -dx, st[10])
				}
				st = st[:0]
			case 10, 29:
				if len(st) == 0 {
					return false, cffErr("callsubr")
				}
				subrs, set := fd.Subrs, info.LSubr
				if op == 29 {
					subrs, set = c.GSubrs, info.GSubr
				}
				k := int(st[len(st)-1]) + bias(len(subrs))
				st = st[:len(st)-1]
				if k < 0 || k >= len(subrs) {
					return false, cffErr(fmt.Sprintf("subroutine %d of %d", k, len(subrs)))
				}
				set[k] = true
				info.Calls++
				end, err := run(subrs[k], depth+1)
				if err != nil || end {
					return end, err
				}
			case 11:
				return false, nil
			case 14:
				width(len(st) == 1 || len(st) == 5)
				if len(st) != 0 {
					return false, cffErr("endchar operands")
				}
				if open {
					p.Close()
				}
				return true, nil
			default:
				return false, cffErr(fmt.Sprintf("operator %d", op))
			}
		}
		return false, nil
	}
	end, err := run(c.CharStrings[g], 0)
	if err != nil {
		return nil, nil, err
	}
	if !end {
		return nil, nil, cffErr("no endchar")
	}
	return p.Segs, info, nil
}
