// Package wrap puts fonts in containers (WOFF, WOFF2, EOT), with the choices that the formats leave to an encoder
// taken at random, and decodes WOFF2 independently of the library.
package wrap

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"math/rand"
	"sort"

	"verif/ref"
	"verif/synth"
)

func le16(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8)) }
func le32(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24)) }

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func deflate(b []byte, level int) []byte {
	var buf bytes.Buffer
	w, _ := zlib.NewWriterLevel(&buf, level)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

// WOFFEntry is the place of a table in a WOFF file.
type WOFFEntry struct {
	Tag               string
	Dir, Off, Len, Ol int // offset of the directory entry, of the data, its length, and the original length
}

// WOFF encodes a plain SFNT.
func WOFF(r *rand.Rand, f *ref.Font) ([]byte, []WOFFEntry) {
	dir := append([]ref.DirEntry{}, f.Dir...)
	sort.Slice(dir, func(i, j int) bool { return dir[i].Tag < dir[j].Tag })
	n := len(dir)
	w := &synth.W{}
	w.Str("wOFF")
	w.Str(f.Version)
	w.U32(0)
	w.U16(n)
	w.U16(0)
	total := 12 + 16*n
	for _, e := range dir {
		total += (e.Length + 3) &^ 3
	}
	w.U32(total)
	w.U16(r.Intn(3))
	w.U16(r.Intn(100))
	for i := 0; i < 5; i++ {
		w.U32(0)
	}
	for _, e := range dir {
		w.Str(e.Tag)
		w.U32(0)
		w.U32(0)
		w.U32(e.Length)
		w.U32(int(e.Checksum))
	}
	order := r.Perm(n)
	if r.Intn(2) == 0 {
		sort.Ints(order)
	}
	mode := r.Intn(4) // 0 all stored, 1 all compressed, else mixed
	entries := make([]WOFFEntry, n)
	for _, i := range order {
		e := dir[i]
		data := f.Tables[e.Tag]
		if mode == 1 || mode > 1 && r.Intn(3) > 0 {
			z := deflate(data, []int{1, 6, 9, -1, 0, -2}[r.Intn(6)])
			if len(z) < len(data) {
				data = z
			}
		}
		w.Pad(4)
		d := 44 + 20*i
		w.Set32(d+4, w.Len())
		w.Set32(d+8, len(data))
		entries[i] = WOFFEntry{e.Tag, d, w.Len(), len(data), e.Length}
		w.Bytes(data)
	}
	w.Pad(4)
	if r.Intn(3) == 0 {
		meta := []byte("<?xml version=\"1.0\"?><metadata version=\"1.0\"><uniqueid id=\"x\"/></metadata>")
		z := deflate(meta, 9)
		w.Set32(24, w.Len())
		w.Set32(28, len(z))
		w.Set32(32, len(meta))
		w.Bytes(z)
	}
	if r.Intn(3) == 0 {
		w.Pad(4)
		p := randBytes(r, 1+r.Intn(50))
		w.Set32(36, w.Len())
		w.Set32(40, len(p))
		w.Bytes(p)
	}
	w.Set32(8, w.Len())
	return w.B, entries
}

// EOT encodes a font uncompressed.
func EOT(r *rand.Rand, sfnt []byte) []byte {
	version := []int{0x00010000, 0x00020001, 0x00020002}[r.Intn(3)]
	flags := []int{0, 1, 0x10, 0x11, 0x20, 0x40, 0x80, 0xF1}[r.Intn(8)]
	data := append([]byte{}, sfnt...)
	if r.Intn(2) == 0 {
		flags |= 0x10000000
		for i := range data {
			data[i] ^= 0x50
		}
	}
	b := le32(nil, 0)
	b = le32(b, len(data))
	b = le32(b, version)
	b = le32(b, flags)
	b = append(b, randBytes(r, 10)...) // PANOSE
	b = append(b, byte(r.Intn(2)), byte(r.Intn(2)))
	b = le32(b, 400)
	b = le16(b, 0)
	b = le16(b, 0x504C)
	b = append(b, randBytes(r, 24)...)
	b = le32(b, int(r.Uint32()))
	b = append(b, make([]byte, 16)...)
	str := func(max int) {
		n := 2 * r.Intn(max)
		if r.Intn(40) == 0 {
			n = 2 * r.Intn(32768)
		}
		if r.Intn(4) == 0 {
			n = 0
		}
		b = le16(b, 0)
		b = le16(b, n)
		for i := 0; i < n; i += 2 {
			b = le16(b, 32+r.Intn(90))
		}
	}
	for i := 0; i < 4; i++ {
		str(40)
	}
	if version > 0x00010000 {
		str(60)
	}
	if version == 0x00020002 {
		b = le32(b, int(r.Uint32()))
		b = le32(b, 0)
		b = le16(b, 0)
		n := r.Intn(30)
		if r.Intn(20) == 0 {
			n = r.Intn(65536)
		}
		b = le16(b, n)
		b = append(b, randBytes(r, n)...)
		b = le32(b, 0)
		n = r.Intn(30)
		if r.Intn(20) == 0 {
			n = 65000 + r.Intn(70000)
		}
		b = le32(b, n)
		b = append(b, randBytes(r, n)...)
	}
	b = append(b, data...)
	binary.LittleEndian.PutUint32(b, uint32(len(b)))
	return b
}
