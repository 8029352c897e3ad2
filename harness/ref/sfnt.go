// Package ref is an independent reader of the font formats that tdewolff/font handles, written from the
// OpenType, CFF, WOFF and WOFF2 specifications. It shares no code with the library under test and is the
// reference model that observed answers are compared with. It favours clarity over speed and reports
// problems as errors.
package ref

import (
	"encoding/binary"
	"fmt"
	"sort"

	"golang.org/x/text/encoding/charmap"
)

func U16(b []byte, o int) int   { return int(binary.BigEndian.Uint16(b[o:])) }
func S16(b []byte, o int) int   { return int(int16(binary.BigEndian.Uint16(b[o:]))) }
func U32(b []byte, o int) int   { return int(binary.BigEndian.Uint32(b[o:])) }
func s8(b []byte, o int) int    { return int(int8(b[o])) }
func have(b []byte, n int) bool { return n >= 0 && len(b) >= n }

// DirEntry is one record of the table directory.
type DirEntry struct {
	Tag            string
	Checksum       uint32
	Offset, Length int
}

// Font is an SFNT split into its tables.
type Font struct {
	Data    []byte
	Version string
	Dir     []DirEntry
	Tables  map[string][]byte
	Search  [3]int // searchRange, entrySelector, rangeShift
	CFF     *CFF
}

// Parse reads the table directory of an SFNT or of member index of a collection.
func Parse(b []byte, index int) (*Font, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("ref: too short")
	}
	base := 0
	if string(b[:4]) == "ttcf" {
		n := U32(b, 8)
		if index < 0 || n <= index || len(b) < 12+4*n {
			return nil, fmt.Errorf("ref: bad index")
		}
		base = U32(b, 12+4*index)
		if len(b) < base+12 {
			return nil, fmt.Errorf("ref: bad offset")
		}
	} else if index != 0 {
		return nil, fmt.Errorf("ref: bad index")
	}
	f := &Font{Data: b, Version: string(b[base : base+4]), Tables: map[string][]byte{}}
	n := U16(b, base+4)
	f.Search = [3]int{U16(b, base+6), U16(b, base+8), U16(b, base+10)}
	if len(b) < base+12+16*n {
		return nil, fmt.Errorf("ref: directory truncated")
	}
	for i := 0; i < n; i++ {
		o := base + 12 + 16*i
		e := DirEntry{string(b[o : o+4]), uint32(U32(b, o+4)), U32(b, o+8), U32(b, o+12)}
		if e.Offset+e.Length > len(b) {
			return nil, fmt.Errorf("ref: table %s out of range", e.Tag)
		}
		f.Dir = append(f.Dir, e)
		f.Tables[e.Tag] = b[e.Offset : e.Offset+e.Length : e.Offset+e.Length]
	}
	if t, ok := f.Tables["CFF "]; ok {
		c, err := ParseCFF(t)
		if err != nil {
			return nil, err
		}
		f.CFF = c
	}
	return f, nil
}

func Checksum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var w [4]byte
		copy(w[:], b[i:])
		s += binary.BigEndian.Uint32(w[:])
	}
	return s
}

func (f *Font) NumGlyphs() int {
	if t := f.Tables["maxp"]; len(t) >= 6 {
		return U16(t, 4)
	}
	return 0
}

func (f *Font) IsCFF() bool { return f.CFF != nil }

func (f *Font) UnitsPerEm() int { return U16(f.Tables["head"], 18) }

func metric(t []byte, n, g int) (adv, sb int) {
	if n == 0 || g < 0 {
		return 0, 0
	}
	if g < n {
		if !have(t, 4*g+4) {
			return 0, 0
		}
		return U16(t, 4*g), S16(t, 4*g+2)
	}
	if !have(t, 4*n) {
		return 0, 0
	}
	adv = U16(t, 4*(n-1))
	if o := 4*n + 2*(g-n); have(t, o+2) {
		sb = S16(t, o)
	}
	return
}

// HMetric returns the advance and left side bearing of a glyph in range.
func (f *Font) HMetric(g int) (int, int) {
	return metric(f.Tables["hmtx"], U16(f.Tables["hhea"], 34), g)
}

// VMetric returns the vertical advance and top side bearing of a glyph in range; ok is false when there is no vmtx.
func (f *Font) VMetric(g int) (int, int, bool) {
	if f.Tables["vhea"] == nil || f.Tables["vmtx"] == nil {
		return 0, 0, false
	}
	a, b := metric(f.Tables["vmtx"], U16(f.Tables["vhea"], 34), g)
	return a, b, true
}

////////////////////////////////////////////////////////////////
// cmap

// CmapSub is one distinct character map subtable.
type CmapSub struct {
	Platform, Encoding, Format int
	Offset                     int
	Map                        map[rune]int // covered code points, including those mapped to glyph 0
}

// Cmap returns the distinct subtables in order of their first encoding record.
func (f *Font) Cmap() ([]CmapSub, error) {
	t := f.Tables["cmap"]
	if len(t) < 4 {
		return nil, fmt.Errorf("ref: no cmap")
	}
	n := U16(t, 2)
	if len(t) < 4+8*n {
		return nil, fmt.Errorf("ref: short cmap")
	}
	var subs []CmapSub
	seen := map[[2]int]bool{}
	for i := 0; i < n; i++ {
		o := U32(t, 4+8*i+4)
		mac := 0
		if U16(t, 4+8*i) == 1 && U16(t, 4+8*i+2) == 0 {
			mac = 1
		}
		if seen[[2]int{o, mac}] {
			continue
		}
		seen[[2]int{o, mac}] = true
		if len(t) < o+8 {
			return nil, fmt.Errorf("ref: cmap subtable out of range")
		}
		s := CmapSub{Platform: U16(t, 4+8*i), Encoding: U16(t, 4+8*i+2), Format: U16(t, o), Offset: o}
		m, err := cmapSub(t[o:])
		if err != nil {
			return nil, err
		}
		if m == nil {
			continue // not a rune to glyph map
		}
		if mac == 1 { // character codes are Mac Roman
			mm := map[rune]int{}
			for c, g := range m {
				if c < 256 {
					mm[charmap.Macintosh.DecodeByte(byte(c))] = g
				}
			}
			m = mm
		}
		s.Map = m
		subs = append(subs, s)
	}
	return subs, nil
}

func cmapSub(t []byte) (map[rune]int, error) {
	m := map[rune]int{}
	bad := fmt.Errorf("ref: bad cmap subtable")
	switch U16(t, 0) {
	case 0:
		if len(t) < 262 {
			return nil, bad
		}
		for i := 0; i < 256; i++ {
			m[rune(i)] = int(t[6+i])
		}
	case 4:
		if len(t) < 16 {
			return nil, bad
		}
		length := U16(t, 2)
		n := U16(t, 6) / 2
		if length < 16+8*n || len(t) < length {
			return nil, bad
		}
		t = t[:length]
		for i := 0; i < n; i++ {
			end := U16(t, 14+2*i)
			start := U16(t, 16+2*n+2*i)
			delta := U16(t, 16+4*n+2*i)
			pro := 16 + 6*n + 2*i
			ro := U16(t, pro)
			for c := start; c <= end; c++ {
				if _, ok := m[rune(c)]; ok {
					continue // first segment whose endCode >= c decides
				}
				if c == 0xFFFF {
					m[rune(c)] = 0 // last segment, value may be garbage
					continue
				}
				if ro == 0 {
					m[rune(c)] = (c + delta) & 0xFFFF
				} else {
					o := pro + ro + 2*(c-start)
					if len(t) < o+2 {
						return nil, bad
					}
					g := U16(t, o)
					if g != 0 {
						g = (g + delta) & 0xFFFF
					}
					m[rune(c)] = g
				}
			}
		}
	case 6:
		if len(t) < 10 {
			return nil, bad
		}
		first, n := U16(t, 6), U16(t, 8)
		if len(t) < 10+2*n {
			return nil, bad
		}
		for i := 0; i < n; i++ {
			m[rune(first+i)] = U16(t, 10+2*i)
		}
	case 12:
		if len(t) < 16 {
			return nil, bad
		}
		n := U32(t, 12)
		if len(t) < 16+12*n {
			return nil, bad
		}
		for i := 0; i < n; i++ {
			s, e, g := U32(t, 16+12*i), U32(t, 20+12*i), U32(t, 24+12*i)
			if e > 0x10FFFF || e < s {
				return nil, bad
			}
			for c := s; c <= e; c++ {
				m[rune(c)] = g + c - s
			}
		}
	case 14:
		return nil, nil
	default:
		return nil, fmt.Errorf("ref: cmap format %d", U16(t, 0))
	}
	return m, nil
}

// Lookup returns the combined forward map: the first subtable that covers the code point decides.
func Lookup(subs []CmapSub) map[rune]int {
	m := map[rune]int{}
	for i := len(subs) - 1; i >= 0; i-- {
		for r, g := range subs[i].Map {
			m[r] = g
		}
	}
	return m
}

// Inverse returns for each glyph the code points that some subtable assigns to it, sorted.
func Inverse(subs []CmapSub) map[int][]rune {
	set := map[int]map[rune]bool{}
	for _, s := range subs {
		for r, g := range s.Map {
			if set[g] == nil {
				set[g] = map[rune]bool{}
			}
			set[g][r] = true
		}
	}
	inv := map[int][]rune{}
	for g, rs := range set {
		for r := range rs {
			inv[g] = append(inv[g], r)
		}
		sort.Slice(inv[g], func(i, j int) bool { return inv[g][i] < inv[g][j] })
	}
	return inv
}

////////////////////////////////////////////////////////////////
// kern

// KernSub is one format 0 kerning subtable.
type KernSub struct {
	Horizontal, Minimum, Cross, Override bool
	Pairs                                map[[2]int]int
}

// Kern returns all kerning subtables with format 0, in order. Both the Microsoft and the Apple header are read.
func (f *Font) Kern() ([]KernSub, error) {
	t := f.Tables["kern"]
	if t == nil {
		return nil, nil
	}
	bad := fmt.Errorf("ref: bad kern")
	if len(t) < 4 {
		return nil, bad
	}
	var subs []KernSub
	if U16(t, 0) == 0 {
		n := U16(t, 2)
		o := 4
		for i := 0; i < n; i++ {
			if len(t) < o+6 {
				return nil, bad
			}
			length := U16(t, o+2)
			format, cov := int(t[o+4]), int(t[o+5])
			if U16(t, o) == 0 && format == 0 {
				if len(t) < o+14 {
					return nil, bad
				}
				np := U16(t, o+6)
				if len(t) < o+14+6*np {
					return nil, bad
				}
				subs = append(subs, KernSub{cov&1 != 0, cov&2 != 0, cov&4 != 0, cov&8 != 0, kernPairs(t[o+14:], np)})
				if i+1 == n {
					break
				}
			}
			if length < 6 {
				return nil, bad
			}
			o += length
		}
		return subs, nil
	}
	if len(t) < 8 || U32(t, 0) != 0x00010000 {
		return nil, bad
	}
	n := U32(t, 4)
	o := 8
	for i := 0; i < n; i++ {
		if len(t) < o+8 {
			return nil, bad
		}
		length, cov, format := U32(t, o), int(t[o+4]), int(t[o+5])
		if format == 0 {
			if len(t) < o+16 {
				return nil, bad
			}
			np := U16(t, o+8)
			if len(t) < o+16+6*np {
				return nil, bad
			}
			// Apple: 0x80 vertical, 0x40 cross-stream, 0x20 variation
			if cov&0x20 == 0 {
				subs = append(subs, KernSub{cov&0x80 == 0, false, cov&0x40 != 0, false, kernPairs(t[o+16:], np)})
			}
		}
		if length < 8 {
			return nil, bad
		}
		o += length
	}
	return subs, nil
}

func kernPairs(t []byte, n int) map[[2]int]int {
	m := map[[2]int]int{}
	for i := 0; i < n; i++ {
		k := [2]int{U16(t, 6*i), U16(t, 6*i+2)}
		if _, ok := m[k]; !ok {
			m[k] = S16(t, 6*i+4)
		}
	}
	return m
}

// KernValue combines the subtables for one pair.
func KernValue(subs []KernSub, l, r int) int {
	k := 0
	for _, s := range subs {
		if !s.Horizontal || s.Cross {
			continue
		}
		v, ok := s.Pairs[[2]int{l, r}]
		if !ok {
			continue
		}
		if s.Minimum {
			if k < v {
				k = v
			}
		} else if s.Override {
			k = v
		} else {
			k += v
		}
	}
	return k
}

////////////////////////////////////////////////////////////////
// post and name

// GlyphNames returns the glyph names of the post table (nil when it has none) or the CFF charset.
func (f *Font) GlyphNames() ([]string, error) {
	if f.CFF != nil {
		return f.CFF.GlyphNames(), nil
	}
	t := f.Tables["post"]
	if len(t) < 32 {
		return nil, nil
	}
	n := f.NumGlyphs()
	switch U32(t, 0) {
	case 0x00010000:
		if n > 258 {
			n = 258
		}
		return append([]string{}, MacNames[:n]...), nil
	case 0x00020000:
		if len(t) < 34 || len(t) < 34+2*n || U16(t, 32) != n {
			return nil, fmt.Errorf("ref: bad post")
		}
		var strs []string
		o := 34 + 2*n
		for o < len(t) {
			l := int(t[o])
			if len(t) < o+1+l {
				return nil, fmt.Errorf("ref: bad post string")
			}
			strs = append(strs, string(t[o+1:o+1+l]))
			o += 1 + l
		}
		names := make([]string, n)
		for i := range names {
			k := U16(t, 34+2*i)
			if k < 258 {
				names[i] = MacNames[k]
			} else if k-258 < len(strs) {
				names[i] = strs[k-258]
			} else {
				return nil, fmt.Errorf("ref: bad post index")
			}
		}
		return names, nil
	}
	return nil, nil
}

// Name is a decoded record of the name table.
type Name struct {
	Platform, Encoding, Language, ID int
	Raw                              []byte
}

func (f *Font) Names() ([]Name, error) {
	t := f.Tables["name"]
	if len(t) < 6 {
		return nil, fmt.Errorf("ref: bad name")
	}
	n, so := U16(t, 2), U16(t, 4)
	var out []Name
	for i := 0; i < n; i++ {
		o := 6 + 12*i
		if len(t) < o+12 {
			return nil, fmt.Errorf("ref: bad name")
		}
		l, off := U16(t, o+8), so+U16(t, o+10)
		if len(t) < off+l {
			return nil, fmt.Errorf("ref: bad name")
		}
		out = append(out, Name{U16(t, o), U16(t, o+2), U16(t, o+4), U16(t, o+6), t[off : off+l]})
	}
	return out, nil
}
