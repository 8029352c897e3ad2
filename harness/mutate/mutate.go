// Package mutate damages files: bytes, fields and tables.
package mutate

import (
	"encoding/binary"
	"math/rand"

	"verif/ref"
	"verif/synth"
)

// value makes a field value that is likely to be near a limit.
func value(r *rand.Rand, bits uint, n, pos int) uint64 {
	m := uint64(1)<<bits - 1
	switch r.Intn(10) {
	case 0:
		return uint64(r.Intn(4))
	case 1:
		return m - uint64(r.Intn(4))
	case 2:
		return (m>>1 + uint64(r.Intn(3)) - 1) & m
	case 3:
		return uint64(n+r.Intn(9)-4) & m
	case 4:
		return uint64(n-pos+r.Intn(9)-4) & m
	case 5:
		return uint64(1) << uint(r.Intn(int(bits)))
	case 6:
		return (uint64(1)<<uint(r.Intn(int(bits))) - 1) & m
	case 7:
		return uint64(r.Intn(n + 1))
	case 8:
		return uint64(r.Intn(256))
	}
	return r.Uint64() & m
}

func place(r *rand.Rand, n int) int {
	switch r.Intn(5) {
	case 0:
		return r.Intn(min(n, 16))
	case 1:
		return r.Intn(min(n, 80))
	case 2:
		return n - 1 - r.Intn(min(n, 40))
	}
	return r.Intn(n)
}

// Bytes makes k random changes to b.
func Bytes(r *rand.Rand, b []byte, k int) []byte {
	b = append([]byte{}, b...)
	for ; k > 0; k-- {
		n := len(b)
		if n == 0 {
			return append(b, byte(r.Intn(256)))
		}
		p := place(r, n)
		switch r.Intn(20) {
		case 0:
			b[p] ^= 1 << r.Intn(8)
		case 1:
			b[p] = byte(value(r, 8, n, p))
		case 2, 3, 4, 5, 6:
			p &^= r.Intn(2)
			if p+2 <= n {
				v := uint16(value(r, 16, n, p))
				if r.Intn(3) == 0 {
					v = binary.BigEndian.Uint16(b[p:]) + uint16(r.Intn(9)-4)
				}
				binary.BigEndian.PutUint16(b[p:], v)
			}
		case 7, 8, 9:
			p &^= r.Intn(4)
			if p+4 <= n {
				v := uint32(value(r, 32, n, p))
				if r.Intn(3) == 0 {
					v = binary.BigEndian.Uint32(b[p:]) + uint32(r.Intn(9)-4)
				}
				binary.BigEndian.PutUint32(b[p:], v)
			}
		case 10:
			b = b[:p]
		case 11:
			b = b[:max(0, n-1-r.Intn(8))]
		case 12:
			x := make([]byte, 1+r.Intn(12))
			r.Read(x)
			b = append(b, x...)
		case 13: // delete
			e := min(n, p+1+r.Intn(8))
			b = append(b[:p], b[e:]...)
		case 14: // insert
			x := make([]byte, 1+r.Intn(8))
			if r.Intn(2) == 0 {
				r.Read(x)
			}
			b = append(b[:p:p], append(x, b[p:]...)...)
		case 15: // repeat
			e := min(n, p+1+r.Intn(32))
			for j := r.Intn(4); j >= 0; j-- {
				b = append(b[:p:p], append(append([]byte{}, b[p:e]...), b[p:]...)...)
			}
		case 16: // copy to elsewhere
			q := r.Intn(n)
			copy(b[q:], append([]byte{}, b[p:min(n, p+1+r.Intn(32))]...))
		case 17: // fill
			v := []byte{0, 0xFF, 0x80, 0x7F, byte(r.Intn(256))}[r.Intn(5)]
			for j := p; j < min(n, p+1+r.Intn(40)); j++ {
				b[j] = v
			}
		case 18: // noise
			for j := p; j < min(n, p+1+r.Intn(20)); j++ {
				b[j] = byte(r.Intn(256))
			}
		case 19: // swap
			q := r.Intn(n)
			if p+2 <= n && q+2 <= n {
				var t [2]byte
				copy(t[:], b[p:])
				copy(b[p:p+2], append([]byte{}, b[q:q+2]...))
				copy(b[q:q+2], t[:])
			}
		}
		if len(b) > 4<<20 {
			b = b[:4<<20]
		}
	}
	return b
}

var often = []string{"cmap", "glyf", "loca", "head", "hhea", "hmtx", "maxp", "post", "name", "OS/2", "kern", "vhea", "vmtx", "CFF ", "CFF ", "glyf", "cmap", "kern", "CFF2"}

// Tables makes k changes to a set of tables; other is a second font to take tables from.
func Tables(r *rand.Rand, tables, other map[string][]byte, k int) map[string][]byte {
	t := map[string][]byte{}
	for x, b := range tables {
		t[x] = b
	}
	for ; k > 0; k-- {
		tag := often[r.Intn(len(often))]
		if t[tag] == nil {
			tag = often[r.Intn(len(often))]
		}
		if _, ok := t[tag]; !ok && r.Intn(4) > 0 {
			k++
			if r.Intn(50) == 0 {
				return t
			}
			continue
		}
		switch r.Intn(30) {
		case 27, 28, 29:
			Counts(r, t)
		case 24, 25, 26:
			Cut(r, t, []string{"cmap", "cmap", "cmap", "glyf", "glyf", "kern", tag}[r.Intn(7)])
		case 0:
			delete(t, tag)
		case 1:
			t[tag] = nil
		case 2:
			if other != nil && other[tag] != nil {
				t[tag] = other[tag]
			}
		case 3:
			if b := field(r, tag, t[tag], t); b != nil {
				t[tag] = b
			}
		case 4, 5, 6, 7, 8:
			tag = []string{"maxp", "hhea", "vhea", "head", "cmap", "post", "loca"}[r.Intn(7)]
			if b := field(r, tag, t[tag], t); b != nil {
				t[tag] = b
			}
		default:
			t[tag] = Bytes(r, t[tag], 1)
		}
	}
	return t
}

// field changes a field that other tables depend on.
func field(r *rand.Rand, tag string, b []byte, t map[string][]byte) []byte {
	b = append([]byte{}, b...)
	p := -1
	switch tag {
	case "maxp":
		p = 4
	case "hhea", "vhea":
		p = 34
	case "head":
		p = []int{50, 50, 18, 16}[r.Intn(4)]
	case "post":
		p = []int{0, 2, 32}[r.Intn(3)]
	case "cmap":
		if len(b) > 12 {
			p = 2 + 2*r.Intn(min(20, len(b)/2-1))
		}
	case "loca":
		if len(b) > 4 {
			p = 2 * r.Intn(len(b)/2)
		}
	}
	if p < 0 || p+2 > len(b) {
		return nil
	}
	v := uint16(value(r, 16, len(b), p))
	if r.Intn(2) == 0 {
		v = binary.BigEndian.Uint16(b[p:]) + uint16(r.Intn(7)-3)
	}
	if tag == "head" && p == 50 {
		v = uint16(r.Intn(3))
	}
	binary.BigEndian.PutUint16(b[p:], v)
	return b
}

// SFNT damages a font in its tables, its directory or anywhere.
func SFNT(r *rand.Rand, f *ref.Font, other map[string][]byte) []byte {
	t := f.Tables
	if r.Intn(10) > 0 {
		t = Tables(r, t, other, 1+r.Intn(4))
	}
	b := synth.Assemble(r, f.Version, t)
	if r.Intn(8) == 0 {
		b = Dir(r, b)
	}
	if r.Intn(8) == 0 {
		b = Bytes(r, b, 1+r.Intn(3))
	}
	return b
}

// Dir damages the directory of an SFNT file.
func Dir(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	n := int(binary.BigEndian.Uint16(b[4:]))
	if n == 0 || len(b) < 12+16*n {
		return b
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		i := 12 + 16*r.Intn(n)
		j := 12 + 16*r.Intn(n)
		switch r.Intn(8) {
		case 0:
			binary.BigEndian.PutUint32(b[i+8:], uint32(value(r, 32, len(b), i)))
		case 1:
			binary.BigEndian.PutUint32(b[i+12:], uint32(value(r, 32, len(b), i)))
		case 2: // the same data under two tags
			copy(b[i+8:i+16], b[j+8:j+16])
		case 3:
			copy(b[i:i+4], b[j:j+4])
		case 4:
			copy(b[i:i+4], "\x00\x01\xff ")
		case 5:
			binary.BigEndian.PutUint16(b[4:], uint16(value(r, 16, n, 0)))
		case 6:
			copy(b, []string{"OTTO", "true", "\x00\x01\x00\x00", "ttcf", "typ1", "wOFF", "wOF2"}[r.Intn(7)])
		case 7:
			binary.BigEndian.PutUint32(b[i+12:], binary.BigEndian.Uint32(b[i+12:])+uint32(r.Intn(9)-4))
		}
	}
	return b
}

// Cut shortens a structure of a table and makes the lengths that enclose it agree, so that only its own content is incomplete.
func Cut(r *rand.Rand, t map[string][]byte, tag string) {
	b := t[tag]
	be := binary.BigEndian
	shorter := func(n int) int { // the remaining length
		switch r.Intn(4) {
		case 0:
			return r.Intn(n)
		case 1:
			return max(0, n-2*(1+r.Intn(16)))
		}
		return max(0, n-1-r.Intn(12))
	}
	switch tag {
	case "cmap":
		if len(b) < 4 {
			return
		}
		n := int(be.Uint16(b[2:]))
		if n == 0 || len(b) < 4+8*n {
			return
		}
		rec := b[4+8*r.Intn(n):][:8]
		o := int(be.Uint32(rec[4:]))
		if o < 0 || o+8 > len(b) {
			return
		}
		at, l := 2, int(be.Uint16(b[o+2:]))
		if f := be.Uint16(b[o:]); f >= 8 && f != 14 {
			at, l = 4, int(be.Uint32(b[o+4:]))
		}
		if l < 8 || o+l > len(b) {
			return
		}
		sub := append([]byte{}, b[o:o+l]...)
		if r.Intn(2) == 0 && be.Uint16(sub) == 4 && l >= 16 {
			// few segments: the arrays end the subtable
			k := 1 + r.Intn(3)
			w := &synth.W{}
			for _, v := range []int{4, 16 + 8*k, 0, 2 * k, 2, 0, 0} {
				w.U16(v)
			}
			for a := 0; a < 4; a++ {
				for i := 0; i < k; i++ {
					v := [4]int{0x20 + 2*i, 0x20 + 2*i, 1, 2 * r.Intn(2*k)}[a]
					if i == k-1 {
						v = [4]int{0xFFFF, 0xFFFF, 1, 0}[a]
					}
					w.U16(v)
				}
				if a == 0 {
					w.U16(0)
				}
			}
			sub = w.B
			l = len(sub)
		}
		sub = sub[:max(8, shorter(l))]
		if r.Intn(6) > 0 {
			if at == 2 {
				be.PutUint16(sub[2:], uint16(len(sub)))
			} else {
				be.PutUint32(sub[4:], uint32(len(sub)))
			}
		}
		w := &synth.W{}
		w.U16(0)
		w.U16(1)
		w.Bytes(rec[:4])
		w.U32(12)
		w.Bytes(sub)
		t[tag] = w.B
	case "kern":
		if len(b) < 20 || be.Uint16(b) != 0 {
			return
		}
		l := int(be.Uint16(b[6:]))
		if l < 14 || 4+l > len(b) {
			return
		}
		c := append([]byte{}, b[:4+max(6, shorter(l))]...)
		be.PutUint16(c[2:], 1)
		if r.Intn(6) > 0 {
			be.PutUint16(c[6:], uint16(len(c)-4))
		}
		t[tag] = c
	case "glyf":
		loca, head := t["loca"], t["head"]
		if len(head) < 54 {
			return
		}
		long := be.Uint16(head[50:]) == 1
		size := 2
		if long {
			size = 4
		}
		n := len(loca)/size - 1
		if n < 1 {
			return
		}
		offs := make([]int, n+1)
		for i := range offs {
			if long {
				offs[i] = int(be.Uint32(loca[4*i:]))
			} else {
				offs[i] = 2 * int(be.Uint16(loca[2*i:]))
			}
			if offs[i] > len(b) || i > 0 && offs[i] < offs[i-1] {
				return
			}
		}
		for try := 0; try < 20; try++ {
			i := r.Intn(n)
			l := offs[i+1] - offs[i]
			if l == 0 {
				continue
			}
			k := shorter(l)
			if !long {
				k &^= 1
			}
			g := append([]byte{}, b[:offs[i]+k]...)
			g = append(g, b[offs[i+1]:]...)
			w := &synth.W{}
			for j, o := range offs {
				if j > i {
					o -= l - k
				}
				if long {
					w.U32(o)
				} else {
					w.U16(o / 2)
				}
			}
			t["glyf"], t["loca"] = g, w.B
			return
		}
	default:
		if len(b) > 0 {
			t[tag] = b[:shorter(len(b))]
		}
	}
}

// Counts changes a number that several tables share and makes the lengths of the others agree, as far as r wants it to.
func Counts(r *rand.Rand, t map[string][]byte) {
	be := binary.BigEndian
	maxp := t["maxp"]
	if len(maxp) < 6 {
		return
	}
	n := int(be.Uint16(maxp[4:]))
	set := func(tag string, at, v int) bool {
		b := append([]byte{}, t[tag]...)
		if len(b) < at+2 {
			return false
		}
		be.PutUint16(b[at:], uint16(v))
		t[tag] = b
		return true
	}
	size := func(tag string, l int) {
		b := append([]byte{}, t[tag]...)
		for len(b) < l {
			b = append(b, byte(r.Intn(256)))
		}
		t[tag] = b[:max(0, l)]
	}
	near := func(v int) int {
		return max(0, min(0xFFFF, []int{0, 0, 1, v - 1, v + 1, v, v + 1 + r.Intn(20), r.Intn(v + 1), 0xFFFF}[r.Intn(9)]))
	}
	metrics := func(h, m string, k, n int) {
		if t[h] != nil && set(h, 34, k) {
			size(m, 4*k+2*max(0, n-k))
		}
	}
	count := func(h string) int {
		if len(t[h]) < 36 {
			return 0
		}
		return int(be.Uint16(t[h][34:]))
	}
	switch r.Intn(6) {
	case 0:
		metrics("hhea", "hmtx", near(n), n)
	case 1:
		if t["vhea"] == nil {
			t["vhea"] = append([]byte{}, t["hhea"]...)
		}
		metrics("vhea", "vmtx", near(n), n)
	case 2: // another number of glyphs
		k := near(n)
		set("maxp", 4, k)
		metrics("hhea", "hmtx", min(k, count("hhea")), k)
		if t["vhea"] != nil {
			metrics("vhea", "vmtx", min(k, count("vhea")), k)
		}
		if head := t["head"]; len(head) >= 54 && t["loca"] != nil && r.Intn(4) > 0 {
			// the last offset again and again
			s := 2 + 2*int(be.Uint16(head[50:])&1)
			l := append([]byte{}, t["loca"]...)
			for len(l) >= s && len(l) < s*(k+1) {
				l = append(l, l[len(l)-s:]...)
			}
			t["loca"] = l[:min(len(l), s*(k+1))]
		}
		if p := t["post"]; len(p) >= 34 && be.Uint32(p) == 0x00020000 {
			switch r.Intn(3) {
			case 0:
				set("post", 32, k)
			case 1: // without names
				p = append([]byte{}, p[:32]...)
				be.PutUint32(p, 0x00030000)
				t["post"] = p
			}
		}
	case 3: // the other format of offsets
		if head := t["head"]; len(head) >= 54 && len(t["loca"]) > 0 {
			w := &synth.W{}
			if l := t["loca"]; be.Uint16(head[50:]) == 0 {
				for ; len(l) >= 2; l = l[2:] {
					w.U32(2 * int(be.Uint16(l)))
				}
				set("head", 50, 1)
			} else {
				for ; len(l) >= 4; l = l[4:] {
					w.U16(int(be.Uint32(l) / 2))
				}
				set("head", 50, 0)
			}
			t["loca"] = w.B
		}
	case 4: // versions with their sizes
		v := r.Intn(6)
		if set("OS/2", 0, v) {
			size("OS/2", []int{78, 86, 96, 96, 96, 100}[v]+[]int{0, 0, -10, -1, 1, 8}[r.Intn(6)])
		}
		if r.Intn(2) == 0 {
			v := r.Intn(2)
			set("maxp", 0, v)
			set("maxp", 2, 0x5000*(1-v))
			size("maxp", []int{6, 32}[v])
		}
	case 5: // few name records
		if b := t["name"]; len(b) >= 6 {
			c := int(be.Uint16(b[2:]))
			o := int(be.Uint16(b[4:]))
			if o == 6+12*c && o <= len(b) {
				k := r.Intn(c + 1)
				x := append([]byte{}, b[:6+12*k]...)
				x = append(x, b[o:]...)
				t["name"] = x
				set("name", 2, k)
				set("name", 4, 6+12*k)
				if k > 0 {
					at := 6 + 12*r.Intn(k) + 2*r.Intn(6)
					set("name", at, int(value(r, 16, len(x), at)))
				}
			}
		}
	}
}
