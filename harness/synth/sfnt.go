// Package synth makes fonts: valid, varied files in every format the library reads, with the choices that the
// formats leave to an encoder taken at random.
package synth

import (
	"encoding/binary"
	"math/rand"
	"sort"
)

// W is a big-endian byte buffer.
type W struct{ B []byte }

func (w *W) U8(v int)       { w.B = append(w.B, byte(v)) }
func (w *W) U16(v int)      { w.B = append(w.B, byte(v>>8), byte(v)) }
func (w *W) U24(v int)      { w.B = append(w.B, byte(v>>16), byte(v>>8), byte(v)) }
func (w *W) U32(v int)      { w.B = append(w.B, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
func (w *W) Bytes(b []byte) { w.B = append(w.B, b...) }
func (w *W) Str(s string)   { w.B = append(w.B, s...) }
func (w *W) Len() int       { return len(w.B) }
func (w *W) Pad(n int) {
	for len(w.B)%n != 0 {
		w.B = append(w.B, 0)
	}
}
func (w *W) Set16(o, v int) { binary.BigEndian.PutUint16(w.B[o:], uint16(v)) }
func (w *W) Set32(o, v int) { binary.BigEndian.PutUint32(w.B[o:], uint32(v)) }

func sum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var x [4]byte
		copy(x[:], b[i:])
		s += binary.BigEndian.Uint32(x[:])
	}
	return s
}

// Tags returns the sorted table tags.
func Tags(tables map[string][]byte) []string {
	var tags []string
	for t := range tables {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	return tags
}

func dir(w *W, version string, tags []string) int {
	n := len(tags)
	p, e := 1, 0
	for 2*p <= n {
		p *= 2
		e++
	}
	w.Str(version)
	w.U16(n)
	w.U16(16 * p)
	w.U16(e)
	w.U16(16 * (n - p))
	o := w.Len()
	for _, t := range tags {
		w.Str(t)
		w.U32(0)
		w.U32(0)
		w.U32(0)
	}
	return o
}

// Assemble builds an SFNT with correct checksums. The tables are put in random order when r is not nil.
func Assemble(r *rand.Rand, version string, tables map[string][]byte) []byte {
	tags := Tags(tables)
	w := &W{}
	o := dir(w, version, tags)
	order := append([]string{}, tags...)
	if r != nil {
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	headAt := -1
	pos := map[string]int{}
	for _, t := range order {
		w.Pad(4)
		pos[t] = w.Len()
		if t == "head" {
			headAt = w.Len()
			b := append([]byte{}, tables[t]...)
			if len(b) >= 12 {
				copy(b[8:12], []byte{0, 0, 0, 0})
			} else {
				headAt = -1
			}
			w.Bytes(b)
		} else {
			w.Bytes(tables[t])
		}
	}
	w.Pad(4)
	for i, t := range tags {
		e := o + 16*i
		n := len(tables[t])
		w.Set32(e+4, int(sum(w.B[pos[t]:pos[t]+n])))
		w.Set32(e+8, pos[t])
		w.Set32(e+12, n)
	}
	if headAt >= 0 {
		w.Set32(headAt+8, int(0xB1B0AFBA-sum(w.B)))
	}
	return w.B
}

// Member is a font of a collection.
type Member struct {
	Version string
	Tables  map[string][]byte
}

// AssembleTTC builds a collection in which equal tables are shared.
func AssembleTTC(r *rand.Rand, ms []Member, v2 bool) []byte {
	w := &W{}
	w.Str("ttcf")
	if v2 {
		w.U16(2)
	} else {
		w.U16(1)
	}
	w.U16(0)
	w.U32(len(ms))
	offs := w.Len()
	for range ms {
		w.U32(0)
	}
	if v2 {
		w.U32(0)
		w.U32(0)
		w.U32(0)
	}
	dirs := make([]int, len(ms))
	share := map[string]int{}
	place := func(m Member, d int) {
		for i, t := range Tags(m.Tables) {
			b := m.Tables[t]
			p, ok := share[string(b)]
			if !ok {
				w.Pad(4)
				p = w.Len()
				w.Bytes(b)
				w.Pad(4)
				share[string(b)] = p
			}
			e := d + 16*i
			w.Set32(e+4, int(sum(b)))
			w.Set32(e+8, p)
			w.Set32(e+12, len(b))
		}
	}
	inter := r.Intn(2) == 0 // directories interleaved with tables or all first
	for i, m := range ms {
		w.Pad(4)
		w.Set32(offs+4*i, w.Len())
		dirs[i] = dir(w, m.Version, Tags(m.Tables))
		if inter {
			place(m, dirs[i])
		}
	}
	if !inter {
		for i, m := range ms {
			place(m, dirs[i])
		}
	}
	w.Pad(4)
	return w.B
}
