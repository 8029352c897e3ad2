package wrap

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"sort"

	"github.com/andybalholm/brotli"

	"verif/ref"
	"verif/synth"
)

var known = []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "OS/2", "post", "cvt ", "fpgm", "glyf", "loca", "prep", "CFF ", "VORG", "EBDT", "EBLC", "gasp", "hdmx", "kern", "LTSH", "PCLT", "VDMX", "vhea", "vmtx", "BASE", "GDEF", "GPOS", "GSUB", "EBSC", "JSTF", "MATH", "CBDT", "CBLC", "COLR", "CPAL", "SVG ", "sbix", "acnt", "avar", "bdat", "bloc", "bsln", "cvar", "fdsc", "feat", "fmtx", "fvar", "gvar", "hsty", "just", "lcar", "mort", "morx", "opbd", "prop", "trak", "Zapf", "Silf", "Glat", "Gloc", "Feat", "Sill"}

// Choices says which choices an encoding made.
type Choices struct {
	Transformed, Hmtx, Overlap bool
	HmtxFlags                  int
	Triplets                   [5]int
	Explicit, Implicit         int
	Wide255                    int
	Desc                       string
}

type enc2 struct {
	r *rand.Rand
	c *Choices
}

func base128(w *synth.W, v int) {
	var b []byte
	for {
		b = append([]byte{byte(v & 0x7F)}, b...)
		v >>= 7
		if v == 0 {
			break
		}
	}
	for i := range b[:len(b)-1] {
		b[i] |= 0x80
	}
	w.Bytes(b)
}

func (e *enc2) u255(w *synth.W, v int) {
	form := e.r.Intn(6)
	switch {
	case form == 0 || v >= 762:
		w.U8(253)
		w.U16(v)
		e.c.Wide255++
	case v < 253:
		w.U8(v)
	case v >= 506 && (form < 3 || v >= 509):
		w.U8(254)
		w.U8(v - 506)
	default:
		w.U8(255)
		w.U8(v - 253)
	}
}

func abs(v int) int {
	if v < 0 {
		return -v
	}
	return v
}

// triplet encodes a delta in one of the forms that can hold it.
func (e *enc2) triplet(flags, glyph *synth.W, dx, dy int, on bool) {
	ax, ay := abs(dx), abs(dy)
	var forms []int
	if dx == 0 && ay < 1280 {
		forms = append(forms, 0)
	}
	if dy == 0 && ax < 1280 {
		forms = append(forms, 1)
	}
	if ax >= 1 && ay >= 1 && ax <= 64 && ay <= 64 {
		forms = append(forms, 2)
	}
	if ax >= 1 && ay >= 1 && ax <= 768 && ay <= 768 {
		forms = append(forms, 3)
	}
	if ax < 4096 && ay < 4096 {
		forms = append(forms, 4)
	}
	forms = append(forms, 5)
	form := forms[0]
	if e.r.Intn(3) == 0 {
		form = forms[e.r.Intn(len(forms))]
	}
	sx, sy := 0, 0 // set for positive; free for zero
	if dx > 0 || dx == 0 && e.r.Intn(2) == 0 {
		sx = 1
	}
	if dy > 0 || dy == 0 && e.r.Intn(2) == 0 {
		sy = 1
	}
	fl := 0
	switch form {
	case 0:
		fl = ay>>8<<1 | sy
		glyph.U8(ay & 0xFF)
	case 1:
		fl = 10 + (ax>>8<<1 | sx)
		glyph.U8(ax & 0xFF)
	case 2:
		fl = 20 + (ax-1)>>4<<4 + (ay-1)>>4<<2 + sy<<1 + sx
		glyph.U8((ax-1)&15<<4 | (ay-1)&15)
	case 3:
		fl = 84 + (ax-1)>>8*12 + (ay-1)>>8<<2 + sy<<1 + sx
		glyph.U8((ax - 1) & 0xFF)
		glyph.U8((ay - 1) & 0xFF)
	case 4:
		fl = 120 + sy<<1 + sx
		glyph.U8(ax >> 4)
		glyph.U8(ax&15<<4 | ay>>8)
		glyph.U8(ay & 0xFF)
	case 5:
		fl = 124 + sy<<1 + sx
		glyph.U16(ax)
		glyph.U16(ay)
	}
	if form > 0 {
		e.c.Triplets[form-1]++
	}
	if !on {
		fl |= 0x80
	}
	flags.U8(fl)
}

// glyf transforms the outline tables. It returns false when a glyph cannot be transformed.
func (e *enc2) glyf(f *ref.Font) ([]byte, []int, bool) {
	n := f.NumGlyphs()
	var nc, np, fl, gl, co, bb, in synth.W
	bits := make([]byte, (n+31)/32*4)
	over := make([]byte, (n+31)/32*4)
	hasOver := false
	xmin := make([]int, n)
	always := e.r.Intn(4) == 0
	for g := 0; g < n; g++ {
		d, err := f.Glyph(g)
		if err != nil {
			return nil, nil, false
		}
		if len(d.Data) == 0 || d.Contours == 0 {
			nc.U16(0)
			continue
		}
		xmin[g] = d.BBox[0]
		explicit := true
		if d.Contours < 0 {
			nc.U16(0xFFFF)
			o := 10
			for _, c := range d.Components {
				l := 6
				if c.Flags&1 != 0 {
					l += 2
				}
				if c.Flags&8 != 0 {
					l += 2
				} else if c.Flags&0x40 != 0 {
					l += 4
				} else if c.Flags&0x80 != 0 {
					l += 8
				}
				co.Bytes(d.Data[o : o+l])
				o += l
			}
			inst := false
			for _, c := range d.Components {
				inst = inst || c.Flags&0x100 != 0
			}
			if inst {
				e.u255(&gl, len(d.Instructions))
				in.Bytes(d.Instructions)
			}
		} else {
			nc.U16(d.Contours)
			last := -1
			if len(d.Points) > 65535 {
				return nil, nil, false
			}
			for i, p := range d.Points {
				if p.End {
					e.u255(&np, i-last)
					last = i
				}
			}
			x, y := 0, 0
			box := [4]int{1 << 20, 1 << 20, -1 << 20, -1 << 20}
			for _, p := range d.Points {
				px, py := int(p.X), int(p.Y)
				if abs(px-x) > 32767 || abs(py-y) > 32767 || abs(px) > 32767 || abs(py) > 32767 {
					return nil, nil, false
				}
				e.triplet(&fl, &gl, px-x, py-y, p.On)
				x, y = px, py
				box = [4]int{min(box[0], x), min(box[1], y), max(box[2], x), max(box[3], y)}
				if p.Overlap {
					hasOver = true
					over[g>>3] |= 0x80 >> (g & 7)
				}
			}
			e.u255(&gl, len(d.Instructions))
			in.Bytes(d.Instructions)
			explicit = box != d.BBox || always || e.r.Intn(10) == 0
		}
		if explicit {
			e.c.Explicit++
			bits[g>>3] |= 0x80 >> (g & 7)
			for _, v := range d.BBox {
				bb.U16(v)
			}
		} else {
			e.c.Implicit++
		}
	}
	w := &synth.W{}
	w.U16(0)
	e.c.Overlap = hasOver || e.r.Intn(4) == 0
	if e.c.Overlap {
		w.U16(1)
	} else {
		w.U16(0)
	}
	w.U16(n)
	w.U16(ref.U16(f.Tables["head"], 50))
	for _, l := range []int{nc.Len(), np.Len(), fl.Len(), gl.Len(), co.Len(), len(bits) + bb.Len(), in.Len()} {
		w.U32(l)
	}
	for _, b := range [][]byte{nc.B, np.B, fl.B, gl.B, co.B, bits, bb.B, in.B} {
		w.Bytes(b)
	}
	if e.c.Overlap {
		w.Bytes(over)
	}
	return w.B, xmin, true
}

// hmtx transforms the metrics. It returns nil when there is nothing to omit.
func (e *enc2) hmtx(f *ref.Font, xmin []int) []byte {
	t := f.Tables["hmtx"]
	n, nh := len(xmin), ref.U16(f.Tables["hhea"], 34)
	if nh == 0 || n < nh || len(t) != 2*n+2*nh {
		return nil
	}
	prop, mono := true, true
	for g := 0; g < n; g++ {
		if g < nh {
			prop = prop && ref.S16(t, 4*g+2) == xmin[g]
		} else {
			mono = mono && ref.S16(t, 4*nh+2*(g-nh)) == xmin[g]
		}
	}
	fl := 0
	if prop && (e.r.Intn(4) > 0 || !mono) {
		fl |= 1
	}
	if mono && (e.r.Intn(4) > 0 || fl == 0) {
		fl |= 2
	}
	if fl == 0 {
		return nil
	}
	w := &synth.W{}
	w.U8(fl)
	for g := 0; g < nh; g++ {
		w.Bytes(t[4*g : 4*g+2])
	}
	if fl&1 == 0 {
		for g := 0; g < nh; g++ {
			w.Bytes(t[4*g+2 : 4*g+4])
		}
	}
	if fl&2 == 0 {
		w.Bytes(t[4*nh:])
	}
	e.c.Hmtx = true
	e.c.HmtxFlags = fl
	return w.B
}

// Table2 is the place of a table in the decompressed stream.
type Table2 struct {
	Tag       string
	Version   int
	Orig, Len int // Len is -1 when no transformed length is written
	Data      []byte
}

// WOFF2 encodes a plain SFNT.
func WOFF2(r *rand.Rand, f *ref.Font) ([]byte, *Choices) {
	ts, c := Tables2(r, f)
	return Pack2(r, f.Version, ts), c
}

// Tables2 makes the table directory and data of an encoding.
func Tables2(r *rand.Rand, f *ref.Font) ([]Table2, *Choices) {
	c := &Choices{}
	e := &enc2{r, c}
	tags := []string{}
	for t := range f.Tables {
		if t != "DSIG" && t != "loca" {
			tags = append(tags, t)
		}
	}
	sort.Strings(tags)
	if r.Intn(2) == 0 {
		r.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
	}
	var glyf, hmtx []byte
	if f.Tables["glyf"] != nil && f.Tables["loca"] != nil && r.Intn(6) > 0 {
		if b, xmin, ok := e.glyf(f); ok {
			glyf = b
			c.Transformed = true
			if r.Intn(5) > 0 && f.Tables["hmtx"] != nil && f.Tables["hhea"] != nil {
				hmtx = e.hmtx(f, xmin)
			}
		}
	}
	var ts []Table2
	for _, t := range tags {
		b := f.Tables[t]
		x := Table2{Tag: t, Orig: len(b), Len: -1, Data: b}
		switch {
		case t == "head":
			b = append([]byte{}, b...)
			b[16] |= 8
			if r.Intn(2) == 0 {
				copy(b[8:12], []byte{0, 0, 0, 0})
			}
			x.Data = b
		case t == "glyf" && glyf != nil:
			x.Data, x.Len = glyf, len(glyf)
		case t == "glyf":
			x.Version = 3
		case t == "hmtx" && hmtx != nil:
			x.Data, x.Len, x.Version = hmtx, len(hmtx), 1
		}
		ts = append(ts, x)
		if t == "glyf" {
			l := f.Tables["loca"]
			y := Table2{Tag: "loca", Orig: len(l), Len: -1, Data: l, Version: 3}
			if glyf != nil {
				y.Orig = (f.NumGlyphs() + 1) * 2
				if ref.U16(f.Tables["head"], 50) != 0 {
					y.Orig *= 2
				}
				y.Version, y.Len, y.Data = 0, 0, nil
			}
			ts = append(ts, y)
		}
	}
	c.Desc = fmt.Sprintf("glyf transformed %v, hmtx %d, overlap bitmap %v, explicit %d implicit %d boxes, %d tables", c.Transformed, c.HmtxFlags, c.Overlap, c.Explicit, c.Implicit, len(ts))
	return ts, c
}

// Pack2 writes the file.
func Pack2(r *rand.Rand, version string, ts []Table2) []byte {
	w := &synth.W{}
	w.Str("wOF2")
	w.Str(version)
	w.U32(0)
	w.U16(len(ts))
	w.U16(0)
	total := 12 + 16*len(ts)
	for _, t := range ts {
		total += (t.Orig + 3) &^ 3
	}
	w.U32(total)
	w.U32(0)
	w.U16(r.Intn(3))
	w.U16(r.Intn(100))
	for i := 0; i < 5; i++ {
		w.U32(0)
	}
	var stream []byte
	for _, t := range ts {
		idx := 63
		for i, k := range known {
			if k == t.Tag {
				idx = i
			}
		}
		w.U8(t.Version<<6 | idx)
		if idx == 63 {
			w.Str(t.Tag)
		}
		base128(w, t.Orig)
		if t.Len >= 0 {
			base128(w, t.Len)
		}
		stream = append(stream, t.Data...)
	}
	z := Compress2(r, stream)
	w.Set32(20, len(z))
	w.Bytes(z)
	tail := r.Intn(3)
	if tail > 0 {
		w.Pad(4)
	}
	if tail == 2 && r.Intn(2) == 0 {
		meta := []byte("<?xml version=\"1.0\"?><metadata version=\"1.0\"><uniqueid id=\"x\"/></metadata>")
		m := Compress2(r, meta)
		w.Set32(28, w.Len())
		w.Set32(32, len(m))
		w.Set32(36, len(meta))
		w.Bytes(m)
	}
	if tail == 2 && r.Intn(2) == 0 {
		w.Pad(4)
		p := randBytes(r, 1+r.Intn(50))
		w.Set32(40, w.Len())
		w.Set32(44, len(p))
		w.Bytes(p)
	}
	w.Set32(8, w.Len())
	return w.B
}

// Compress2 compresses with brotli.
func Compress2(r *rand.Rand, b []byte) []byte {
	var buf bytes.Buffer
	bw := brotli.NewWriterOptions(&buf, brotli.WriterOptions{Quality: []int{0, 1, 2, 4, 5}[r.Intn(5)], LGWin: []int{0, 10, 16, 22}[r.Intn(4)]})
	for len(b) > 0 {
		n := len(b)
		if r.Intn(3) == 0 {
			n = 1 + r.Intn(n)
		}
		bw.Write(b[:n])
		b = b[n:]
		if len(b) > 0 && r.Intn(3) == 0 {
			bw.Flush()
		}
	}
	bw.Close()
	return buf.Bytes()
}

////////////////////////////////////////////////////////////////
// independent decoder

// Glyph2 is a glyph of a transformed glyf table.
type Glyph2 struct {
	Contours     int
	BBox         [4]int
	Points       []ref.Point
	Composite    []byte
	Instructions []byte
	HasInstr     bool
	Overlap      bool
	Explicit     bool
}

// Font2 is a decoded WOFF2 file. Glyphs is nil if the outlines are not transformed.
type Font2 struct {
	Version     string
	Total       int
	OrigTotal   int
	Tags        []string
	Tables      map[string][]byte // untransformed tables
	Glyphs      []Glyph2
	IndexFormat int
	LocaLength  int
	Advances    []int // of a transformed hmtx
	Lsbs        []int
	HmtxFlags   int
	GlyfOption  int
}

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) take(n int) []byte {
	if n < 0 || len(r.b) < n {
		r.bad = true
		return make([]byte, max(n, 0)&0xFFFF)
	}
	b := r.b[:n]
	r.b = r.b[n:]
	return b
}
func (r *rd) u8() int { return int(r.take(1)[0]) }
func (r *rd) u16() int {
	return ref.U16(r.take(2), 0)
}
func (r *rd) s16() int { return int(int16(r.u16())) }
func (r *rd) u32() int { return ref.U32(r.take(4), 0) }
func (r *rd) b128() int {
	v := 0
	for i := 0; i < 5; i++ {
		c := r.u8()
		if i == 0 && c == 0x80 {
			r.bad = true
		}
		v = v<<7 | c&0x7F
		if c < 0x80 {
			if v > 0xFFFFFFFF {
				r.bad = true
			}
			return v
		}
	}
	r.bad = true
	return 0
}
func (r *rd) u255() int {
	switch c := r.u8(); c {
	case 253:
		return r.u16()
	case 254:
		return 506 + r.u8()
	case 255:
		return 253 + r.u8()
	default:
		return c
	}
}

// Decode2 decodes a WOFF2 file and is strict about its structure.
func Decode2(b []byte) (*Font2, error) {
	bad := func(f string, a ...any) (*Font2, error) { return nil, fmt.Errorf("WOFF2: "+f, a...) }
	r := &rd{b: b}
	if string(r.take(4)) != "wOF2" {
		return bad("signature")
	}
	f := &Font2{Tables: map[string][]byte{}}
	f.Version = string(r.take(4))
	if r.u32() != len(b) {
		return bad("length is not the file size")
	}
	n := r.u16()
	if r.u16() != 0 || n == 0 {
		return bad("number of tables or reserved field")
	}
	f.Total = r.u32()
	zlen := r.u32()
	r.take(4)
	meta := [3]int{r.u32(), r.u32(), r.u32()}
	priv := [2]int{r.u32(), r.u32()}
	type ent struct {
		tag           string
		ver, orig, ln int
		data          []byte
	}
	var es []ent
	at := map[string]int{}
	size := 0
	f.OrigTotal = 12 + 16*n
	for i := 0; i < n; i++ {
		fl := r.u8()
		e := ent{ver: fl >> 6}
		if fl&63 == 63 {
			e.tag = string(r.take(4))
			for _, k := range known {
				if k == e.tag {
					return bad("known tag %s is spelled out", k)
				}
			}
		} else {
			e.tag = known[fl&63]
		}
		e.orig = r.b128()
		e.ln = e.orig
		f.OrigTotal += (e.orig + 3) &^ 3
		outline := e.tag == "glyf" || e.tag == "loca"
		switch {
		case outline && e.ver == 0 || e.tag == "hmtx" && e.ver == 1:
			e.ln = r.b128()
		case outline && e.ver == 3 || !outline && e.ver == 0:
		default:
			return bad("transformation %d of %s", e.ver, e.tag)
		}
		if _, ok := at[e.tag]; ok {
			return bad("table %s twice", e.tag)
		}
		if e.tag == "loca" {
			if j, ok := at["glyf"]; !ok || es[j].ver != e.ver {
				return bad("loca without glyf before it")
			}
			if e.ver == 0 && e.ln != 0 {
				return bad("transformed loca has data")
			}
			f.LocaLength = e.orig
		}
		at[e.tag] = i
		size += e.ln
		es = append(es, e)
		f.Tags = append(f.Tags, e.tag)
	}
	if r.bad {
		return bad("directory is truncated or has bad numbers")
	}
	if _, ok := at["DSIG"]; ok {
		return bad("DSIG table")
	}
	comp := r.take(zlen)
	if r.bad {
		return bad("compressed data is truncated")
	}
	end := len(b) - len(r.b)
	switch {
	case meta[0] == 0 && (meta[1] != 0 || meta[2] != 0), meta[0] != 0 && (meta[0] < end || meta[1] == 0 || len(b)-meta[0] < meta[1]):
		return bad("metadata block %v", meta)
	case priv[0] == 0 && priv[1] != 0, priv[0] != 0 && (priv[0] < end || priv[1] == 0 || len(b)-priv[0] < priv[1]):
		return bad("private block %v", priv)
	}
	if meta[0] == 0 && priv[0] == 0 {
		if len(r.b) > 3 || len(bytes.Trim(r.b, "\x00")) != 0 {
			return bad("data after the compressed data")
		}
	}
	data, err := io.ReadAll(io.LimitReader(brotli.NewReader(bytes.NewReader(comp)), int64(size)+1))
	if err != nil {
		return bad("brotli: %v", err)
	}
	if len(data) != size {
		return bad("decompressed size %d instead of %d", len(data), size)
	}
	for i := range es {
		es[i].data = data[:es[i].ln:es[i].ln]
		data = data[es[i].ln:]
	}
	for _, e := range es {
		switch {
		case e.tag == "loca" && e.ver == 0:
		case e.tag == "glyf" && e.ver == 0:
			if _, ok := at["loca"]; !ok {
				return bad("transformed glyf without loca")
			}
			if err := f.glyf(e.data); err != nil {
				return nil, err
			}
			f.Tables["glyf"] = nil
		case e.tag == "hmtx" && e.ver == 1:
		default:
			f.Tables[e.tag] = e.data
		}
	}
	if h := f.Tables["head"]; len(h) < 54 || h[16]&8 == 0 {
		return bad("bit 11 of the flags is not set")
	}
	if f.Glyphs != nil {
		size := 2 * (len(f.Glyphs) + 1)
		if f.IndexFormat != 0 {
			size *= 2
		}
		if f.LocaLength != size {
			return bad("loca length %d for %d glyphs", f.LocaLength, len(f.Glyphs))
		}
		if f.IndexFormat != ref.U16(f.Tables["head"], 50) || len(f.Tables["maxp"]) < 6 || len(f.Glyphs) != ref.U16(f.Tables["maxp"], 4) {
			return bad("glyf disagrees with head or maxp")
		}
	}
	if i, ok := at["hmtx"]; ok && es[i].ver == 1 {
		if f.Glyphs == nil || len(f.Tables["hhea"]) < 36 {
			return bad("transformed hmtx without transformed glyf or hhea")
		}
		r := &rd{b: es[i].data}
		fl := r.u8()
		if fl == 0 || fl > 3 {
			return bad("flags of hmtx %#x", fl)
		}
		nh := ref.U16(f.Tables["hhea"], 34)
		ng := len(f.Glyphs)
		f.Lsbs = make([]int, ng)
		for g := 0; g < nh; g++ {
			f.Advances = append(f.Advances, r.u16())
		}
		for g := 0; g < ng; g++ {
			if g < nh && fl&1 == 0 || g >= nh && fl&2 == 0 {
				f.Lsbs[g] = r.s16()
			} else {
				f.Lsbs[g] = f.Glyphs[g].BBox[0]
			}
		}
		if r.bad || len(r.b) != 0 {
			return bad("length of hmtx")
		}
		f.HmtxFlags = fl
	}
	return f, nil
}

func (f *Font2) glyf(b []byte) error {
	r := &rd{b: b}
	res := r.u16()
	f.GlyfOption = r.u16()
	n := r.u16()
	f.IndexFormat = r.u16()
	var sizes [7]int
	for i := range sizes {
		sizes[i] = r.u32()
	}
	if r.bad || res != 0 || f.GlyfOption&^1 != 0 || f.IndexFormat > 1 {
		return fmt.Errorf("WOFF2: header of glyf")
	}
	var s [7]*rd
	for i := range s {
		s[i] = &rd{b: r.take(sizes[i])}
	}
	bm := (n + 31) / 32 * 4
	var over []byte
	if f.GlyfOption&1 != 0 {
		over = r.take(bm)
	}
	if r.bad || len(r.b) != 0 {
		return fmt.Errorf("WOFF2: streams of glyf do not add up")
	}
	nc, np, fl, gl, co, bb, in := s[0], s[1], s[2], s[3], s[4], s[5], s[6]
	bits := bb.take(bm)
	if bb.bad || sizes[0] != 2*n {
		return fmt.Errorf("WOFF2: contour stream or bitmap of glyf")
	}
	f.Glyphs = make([]Glyph2, n)
	for g := 0; g < n; g++ {
		d := &f.Glyphs[g]
		d.Contours = nc.s16()
		d.Explicit = bits[g>>3]&(0x80>>(g&7)) != 0
		d.Overlap = over != nil && over[g>>3]&(0x80>>(g&7)) != 0
		switch {
		case d.Contours == 0:
			if d.Explicit {
				return fmt.Errorf("WOFF2: glyph %d is empty and has a bounding box", g)
			}
			continue
		case d.Contours < -1:
			return fmt.Errorf("WOFF2: glyph %d has %d contours", g, d.Contours)
		case d.Contours < 0:
			if !d.Explicit {
				return fmt.Errorf("WOFF2: glyph %d is composite without bounding box", g)
			}
			for {
				c := co.take(2)
				k := ref.U16(c, 0)
				l := 4
				if k&1 != 0 {
					l += 2
				}
				if k&8 != 0 {
					l += 2
				} else if k&0x40 != 0 {
					l += 4
				} else if k&0x80 != 0 {
					l += 8
				}
				d.Composite = append(append(d.Composite, c...), co.take(l)...)
				d.HasInstr = d.HasInstr || k&0x100 != 0
				if k&0x20 == 0 || co.bad {
					break
				}
			}
			if d.HasInstr {
				d.Instructions = in.take(gl.u255())
			}
		default:
			total := 0
			ends := map[int]bool{}
			for i := 0; i < d.Contours; i++ {
				total += np.u255()
				ends[total-1] = true
			}
			if np.bad || total > 65535 || len(ends) != d.Contours {
				return fmt.Errorf("WOFF2: glyph %d: points of contours", g)
			}
			x, y := 0, 0
			for i := 0; i < total; i++ {
				t := fl.u8()
				off := t&0x80 != 0
				t &= 0x7F
				dx, dy := 0, 0
				switch {
				case t < 10:
					dy = t/2*256 + gl.u8()
				case t < 20:
					dx = (t-10)/2*256 + gl.u8()
				case t < 84:
					v := gl.u8()
					dx = (t-20)/16*16 + 1 + v>>4
					dy = (t-20)/4%4*16 + 1 + v&15
				case t < 120:
					dx = (t-84)/12*256 + 1 + gl.u8()
					dy = (t-84)/4%3*256 + 1 + gl.u8()
				case t < 124:
					v := gl.u8()<<16 | gl.u16()
					dx, dy = v>>12, v&0xFFF
				default:
					dx, dy = gl.u16(), gl.u16()
				}
				if t < 10 {
					if t&1 == 0 {
						dy = -dy
					}
				} else {
					if t&1 == 0 {
						dx = -dx
					}
					if t >= 20 && t&2 == 0 {
						dy = -dy
					}
				}
				x, y = x+dx, y+dy
				if x < -32768 || y < -32768 || x > 32767 || y > 32767 {
					return fmt.Errorf("WOFF2: glyph %d: coordinates overflow", g)
				}
				d.Points = append(d.Points, ref.Point{X: float64(x), Y: float64(y), On: !off, End: ends[i]})
				if i == 0 {
					d.BBox = [4]int{x, y, x, y}
				}
				d.BBox = [4]int{min(d.BBox[0], x), min(d.BBox[1], y), max(d.BBox[2], x), max(d.BBox[3], y)}
			}
			d.Instructions = in.take(gl.u255())
			d.HasInstr = true
		}
		if d.Explicit {
			d.BBox = [4]int{bb.s16(), bb.s16(), bb.s16(), bb.s16()}
		}
		for i, t := range s {
			if t.bad {
				return fmt.Errorf("WOFF2: glyph %d: stream %d is too short", g, i)
			}
		}
	}
	for i, t := range s {
		if len(t.b) != 0 {
			return fmt.Errorf("WOFF2: stream %d of glyf has %d bytes left", i, len(t.b))
		}
	}
	return nil
}
