package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"sort"
	"testing/iotest"

	"github.com/golang/freetype/truetype"
	"github.com/tdewolff/font"
	"golang.org/x/image/font/sfnt"

	"verif/core"
	"verif/ref"
	"verif/synth"
	"verif/wrap"
)

func init() {
	core.Register(&core.Check{ID: "C13", Cases: byTier(12000, 120000), Run: runC13, Require: []string{"tables compared", "byte-identical files", "damages", "damages rejected", "truncations rejected", "corpus fonts"},
		Rule: "random and real fonts are encoded as WOFF with random compression, table order, metadata and private data; the decoded file is compared table by table, or byte by byte when the original has the canonical layout; then single fields, bytes and streams are damaged, and every damage must be rejected or leave all tables as they were; distinct cases are distinct WOFF files"})
	core.Register(&core.Check{ID: "C14", Cases: byTier(15000, 150000), Run: runC14, Require: []string{"tables compared", "glyphs compared", "transformed hmtx", "overlap bitmaps", "explicit boxes", "implicit boxes", "triplets of form 1", "triplets of form 2", "triplets of form 3", "triplets of form 4", "triplets of form 5", "wide 255UInt16", "outlines at the limits", "side bearings like outlines", "damages rejected", "corpus fonts"},
		Rule: "random and real fonts are encoded as WOFF2 by an independent encoder that takes every choice of the format at random; the decoded file is compared table by table, glyph by glyph and metric by metric with the original; then structural damages that the format forbids must be rejected; distinct cases are distinct WOFF2 files"})
	core.Register(&core.Check{ID: "C15", Cases: byTier(12000, 120000), Run: runC15, Require: []string{"tables compared", "glyphs compared", "transformed glyf", "transformed hmtx", "outlines at the limits", "side bearings like outlines", "subset fonts", "merged fonts", "composites with instructions", "overlap glyphs", "corpus fonts"},
		Rule: "random and real fonts, subsets, merged and renamed fonts are written as WOFF2; the file is decoded by an independent strict decoder and by the library, and both results are compared table by table and glyph by glyph with the font; distinct cases are distinct WOFF2 files"})
	core.Register(&core.Check{ID: "C16", Cases: byTier(12000, 150000), Run: runC16, Require: []string{"decoded", "truncations rejected", "unsupported rejected", "corpus fonts"},
		Rule: "random and real fonts are encoded as EOT of all versions with random strings, flags and XOR; the decoded bytes must be the font; truncated, compressed and damaged files must be rejected; distinct cases are distinct EOT files"})
	core.Register(&core.Check{ID: "C26", Cases: byTier(5000, 50000), Run: runC26, Require: []string{"containers", "collection members", "bad indices", "freetype conversions", "x/image conversions", "x/image collection members", "corpus fonts"},
		Rule: "the answers of a font opened as plain SFNT are compared with those of the same font as member of a collection, in WOFF, WOFF2 and EOT, through ToSFNT and NewSFNTReader with readers that return short reads, and through the converters from other font types; media types, extensions and bad indices are checked; distinct cases are distinct fonts"})
}

// plainSource makes a font with correct checksums.
func plainSource(c *core.Case, o synth.Opt) (string, *ref.Font) {
	what, b := source(c, o, func(f *ref.Font) bool {
		return string(f.Data[:4]) != "ttcf" && len(f.Data) < 400000 && checksumsRight(f)
	})
	c.Attach("font.bin", b)
	f, err := ref.Parse(b, 0)
	if err != nil {
		c.HarnessError("%v", err)
		return what, nil
	}
	if !checksumsRight(f) {
		c.HarnessError("synthetic font with bad checksums")
		return what, nil
	}
	return what, f
}

func checksumsRight(f *ref.Font) bool {
	for _, d := range f.Dir {
		t := append([]byte{}, f.Tables[d.Tag]...)
		if d.Tag == "head" && len(t) >= 12 {
			copy(t[8:12], []byte{0, 0, 0, 0})
		}
		if ref.Checksum(t) != d.Checksum {
			return false
		}
	}
	return true
}

// What may change in the head table, besides the checksum of the font.
const (
	headSame     = iota
	headLossless // bit 11 of flags
	headWritten  // and the time of modification
)

func maskHead(tag string, b []byte, mode int) []byte {
	if tag != "head" || len(b) < 18 {
		return b
	}
	b = append([]byte{}, b...)
	copy(b[8:12], []byte{0, 0, 0, 0})
	if mode >= headLossless {
		b[16] |= 8
	}
	if mode >= headWritten && len(b) >= 36 {
		copy(b[28:36], make([]byte, 8))
	}
	return b
}

// sameTables compares the tables of two fonts.
func sameTables(got, want map[string][]byte, mode int, except ...string) error {
	skip := map[string]bool{}
	for _, t := range except {
		skip[t] = true
	}
	for _, t := range tagsOf(want) {
		if skip[t] {
			continue
		}
		g, ok := got[t]
		if !ok {
			return fmt.Errorf("table %q is lost", t)
		}
		a, b := maskHead(t, g, mode), maskHead(t, want[t], mode)
		if !bytes.Equal(a, b) {
			i := 0
			for i < len(a) && i < len(b) && a[i] == b[i] {
				i++
			}
			return fmt.Errorf("table %q of %d bytes differs at byte %d, the original has %d bytes", t, len(a), i, len(b))
		}
	}
	for _, t := range tagsOf(got) {
		if _, ok := want[t]; !ok && !skip[t] {
			return fmt.Errorf("table %q appears", t)
		}
	}
	return nil
}

func canonical(f *ref.Font) []byte {
	return synth.Assemble(nil, f.Version, f.Tables)
}

////////////////////////////////////////////////////////////////
// WOFF

func decodeWOFF(c *core.Case, b []byte) (got []byte, err error, ok bool) {
	k := newCanary(b)
	ok = c.Try("ParseWOFF", func() { got, err = font.ParseWOFF(k.Bytes()) })
	if ok {
		if e := k.Check(); e != nil {
			c.Fail("input", "ParseWOFF changed its input: %v", e)
		}
		if err != nil && got != nil {
			c.Fail("error with data", "ParseWOFF returned data and the error %v", err)
		}
	}
	return
}

func runC13(c *core.Case) {
	what, f := plainSource(c, synth.Opt{})
	if f == nil {
		return
	}
	same := c.R.Intn(2) == 0
	if same {
		f, _ = ref.Parse(canonical(f), 0)
	}
	w, es := wrap.WOFF(c.R, f)
	c.Attach("font.woff", w)
	c.FP(w)
	got, err, ok := decodeWOFF(c, w)
	if !ok {
		return
	}
	if err != nil {
		c.Fail("rejected:"+errKey(err), "%s: a valid WOFF file is rejected: %v", what, err)
		return
	}
	if same {
		if !bytes.Equal(got, f.Data) {
			c.Fail("bytes", "%s: the decoded WOFF file differs from the font although its layout is canonical: %v", what, firstDiff(got, f.Data))
		}
		c.Count("byte-identical files", 1)
	}
	wf := validSFNT(c, what+" decoded", got, "true")
	if wf == nil {
		return
	}
	if wf.Version != f.Version {
		c.Fail("version", "%s: version %q becomes %q", what, f.Version, wf.Version)
	}
	if err := sameTables(wf.Tables, f.Tables, headSame); err != nil {
		c.Fail("tables", "%s: decoded WOFF: %v", what, err)
	}
	c.Count("tables compared", len(f.Tables))

	// damages
	n := len(es)
	for k := 0; k < 12 && !c.Failed(); k++ {
		d := append([]byte{}, w...)
		must := false
		desc := ""
		e := es[c.R.Intn(n)]
		put32 := func(o, v int) { binary.BigEndian.PutUint32(d[o:], uint32(v)) }
		vals := []int{0, 1, 2, 3, 4, e.Ol, e.Ol + 1, e.Ol - 1, e.Len, e.Len + 1, e.Len - 1, e.Off, e.Off + 1, e.Off - 1, e.Off + 4, len(w), len(w) - 1, len(w) + 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFC, -e.Off, -e.Len, 44, 44 + 20*n, c.R.Int() & 0xFFFFFFFF}
		val := vals[c.R.Intn(len(vals))]
		switch c.R.Intn(16) {
		case 0:
			d = d[:c.R.Intn(len(d))]
			must, desc = true, fmt.Sprintf("truncated to %d of %d bytes", len(d), len(w))
		case 1:
			d = append(d, make([]byte, 1+c.R.Intn(8))...)
			must, desc = true, "bytes appended"
		case 2, 3:
			i := c.R.Intn(len(d))
			if i >= 4 && i < 8 || i >= 44 && i < 44+20*n && (i-44)%20 < 4 {
				continue // version and tags are not protected
			}
			d[i] ^= 1 << c.R.Intn(8)
			desc = fmt.Sprintf("byte %d changed", i)
		case 4:
			put32(e.Dir+4, val)
			desc = fmt.Sprintf("offset of %q set to %#x", e.Tag, uint32(val))
		case 5:
			put32(e.Dir+8, val)
			desc = fmt.Sprintf("length of %q set to %#x", e.Tag, uint32(val))
			must = e.Len > 0 && uint32(val) > uint32(e.Ol)
		case 6:
			put32(e.Dir+12, val)
			desc = fmt.Sprintf("original length of %q set to %#x", e.Tag, uint32(val))
			must = uint32(val) != uint32(e.Ol)
		case 7:
			d[e.Dir+16+c.R.Intn(4)] ^= 1 << c.R.Intn(8)
			must, desc = true, fmt.Sprintf("checksum of %q changed", e.Tag)
		case 8:
			i := c.R.Intn(8)
			switch i {
			case 0:
				d[14+c.R.Intn(2)] ^= 1 << c.R.Intn(8)
				desc = "reserved field set"
			case 1:
				binary.BigEndian.PutUint16(d[12:], []uint16{0, 1, uint16(n - 1), uint16(n + 1), 0xFFFF, 0x8000}[c.R.Intn(6)])
				desc = "number of tables changed"
			case 2:
				put32(8, val)
				desc = "file length changed"
			case 3:
				put32(16, val)
				desc = "total size changed"
			default:
				d[c.R.Intn(4)] ^= 1 << c.R.Intn(8)
				desc = "signature changed"
			}
			if bytes.Equal(d, w) {
				continue
			}
			must = true
		case 9:
			if n < 2 {
				continue
			}
			i := c.R.Intn(n - 1)
			a, b := d[44+20*i:44+20*i+20], d[64+20*i:84+20*i]
			t := append([]byte{}, a...)
			copy(a, b)
			copy(b, t)
			must, desc = true, "directory not sorted"
		case 10:
			x := es[c.R.Intn(n)]
			if x.Tag == e.Tag || x.Len == 0 || e.Len == 0 {
				continue
			}
			o := x.Off + c.R.Intn(x.Len)
			if o+e.Len > len(w) {
				o = x.Off
			}
			put32(e.Dir+4, o)
			must = o+e.Len <= len(w)
			desc = fmt.Sprintf("table %q overlaps %q", e.Tag, x.Tag)
		case 11, 12: // a byte of a table
			if e.Len == 0 {
				continue
			}
			i := c.R.Intn(e.Len)
			d[e.Off+i] ^= 1 << c.R.Intn(8)
			must = e.Len == e.Ol && !(e.Tag == "head" && i >= 8 && i < 12)
			desc = fmt.Sprintf("byte %d of the data of %q changed", i, e.Tag)
		case 13: // another stream: shorter, longer or other content
			t := append([]byte{}, f.Tables[e.Tag]...)
			if len(t) < 40 {
				continue
			}
			switch c.R.Intn(3) {
			case 0:
				t = t[:len(t)-1-c.R.Intn(20)]
				desc = "stream too short for " + e.Tag
			case 1:
				t = append(t, make([]byte, 1+c.R.Intn(40))...)
				desc = "stream too long for " + e.Tag
			case 2:
				t[12+c.R.Intn(len(t)-12)] ^= 1 << c.R.Intn(8)
				desc = "stream with another content for " + e.Tag
			}
			g := &ref.Font{Version: f.Version, Dir: append([]ref.DirEntry{}, f.Dir...), Tables: map[string][]byte{}}
			for k, v := range f.Tables {
				g.Tables[k] = v
			}
			g.Tables[e.Tag] = t
			x, es2 := wrap.WOFF(c.R, g) // writes the original length of the directory
			for _, e2 := range es2 {
				if e2.Tag == e.Tag && e2.Len >= e2.Ol {
					x = nil // would be a stored table of the wrong length
				}
			}
			if x == nil {
				continue
			}
			d, must = x, true
		case 14: // stored table marked as compressed and the other way around
			if e.Len == e.Ol && e.Len > 2 {
				put32(e.Dir+8, e.Len-1)
				must, desc = true, fmt.Sprintf("stored table %q one byte shorter", e.Tag)
			} else {
				put32(e.Dir+12, e.Len)
				must, desc = true, fmt.Sprintf("compressed table %q marked as stored", e.Tag)
				if e.Len == e.Ol {
					continue
				}
			}
		case 15: // without head
			g := &ref.Font{Version: f.Version, Tables: f.Tables}
			for _, e := range f.Dir {
				if e.Tag != "head" {
					g.Dir = append(g.Dir, e)
				}
			}
			if len(g.Dir) == 0 {
				continue
			}
			d, _ = wrap.WOFF(c.R, g)
			must, desc = true, "no head table"
		}
		c.Count("damages", 1)
		c.Attach("damaged.woff", d)
		got, err, ok := decodeWOFF(c, d)
		if !ok {
			return
		}
		if err != nil {
			c.Count("damages rejected", 1)
			if len(d) < len(w) {
				c.Count("truncations rejected", 1)
			}
			continue
		}
		if must {
			c.Fail("accepted", "%s: damaged WOFF accepted: %s", what, desc)
			return
		}
		x, err := ref.Parse(got, 0)
		if err == nil {
			err = sameTables(x.Tables, f.Tables, headSame)
		}
		if err != nil {
			c.Fail("altered", "%s: damaged WOFF (%s) decodes to altered content: %v", what, desc, err)
			return
		}
	}
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("%d and %d bytes, differ at byte %d", len(a), len(b), i)
}

////////////////////////////////////////////////////////////////
// WOFF2

func decodeWOFF2(c *core.Case, b []byte) (got []byte, err error, ok bool) {
	k := newCanary(b)
	ok = c.Try("ParseWOFF2", func() { got, err = font.ParseWOFF2(k.Bytes()) })
	if ok {
		if e := k.Check(); e != nil {
			c.Fail("input", "ParseWOFF2 changed its input: %v", e)
		}
		if err != nil && got != nil {
			c.Fail("error with data", "ParseWOFF2 returned data and the error %v", err)
		}
	}
	return
}

func sameGlyph(g *ref.Glyph, w *ref.Glyph) error {
	wc := w.Contours
	if len(w.Data) == 0 || wc == 0 {
		if len(g.Data) != 0 && g.Contours != 0 {
			return fmt.Errorf("an empty glyph has %d contours", g.Contours)
		}
		return nil
	}
	if len(g.Data) == 0 {
		return fmt.Errorf("the glyph is empty")
	}
	if g.Contours != wc && !(g.Contours < 0 && wc < 0) {
		return fmt.Errorf("%d contours instead of %d", g.Contours, wc)
	}
	if g.BBox != w.BBox {
		return fmt.Errorf("bounding box %v instead of %v", g.BBox, w.BBox)
	}
	if !bytes.Equal(g.Instructions, w.Instructions) {
		return fmt.Errorf("instructions %x instead of %x", g.Instructions, w.Instructions)
	}
	if err := samePoints(g.Points, w.Points); err != nil {
		return err
	}
	if len(g.Points) > 0 {
		ov := false
		for _, p := range w.Points {
			ov = ov || p.Overlap
		}
		if g.Points[0].Overlap != ov {
			return fmt.Errorf("overlap flag %v instead of %v", g.Points[0].Overlap, ov)
		}
	}
	if fmt.Sprint(g.Components) != fmt.Sprint(w.Components) {
		return fmt.Errorf("components %v instead of %v", g.Components, w.Components)
	}
	return nil
}

func samePoints(g, w []ref.Point) error {
	if len(g) != len(w) {
		return fmt.Errorf("%d points instead of %d", len(g), len(w))
	}
	for i := range w {
		a, b := g[i], w[i]
		a.Overlap, b.Overlap = false, false
		if a != b {
			return fmt.Errorf("point %d is %v instead of %v", i, a, b)
		}
	}
	return nil
}

// monDecoded compares a decoded SFNT with the font it was encoded from.
func monDecoded(c *core.Case, what string, got []byte, f *ref.Font, want map[string][]byte, mode int) {
	wf := validSFNT(c, what, got, "true")
	if wf == nil {
		return
	}
	if wf.Version != f.Version && !(mode == headWritten && f.CFF == nil && wf.Version == "true") {
		c.Fail("version", "%s: version %q becomes %q", what, f.Version, wf.Version)
	}
	tables := map[string][]byte{}
	for t, b := range want {
		if t != "DSIG" {
			tables[t] = b
		}
	}
	if err := sameTables(wf.Tables, tables, mode, "glyf", "loca"); err != nil {
		c.Fail("tables", "%s: %v", what, err)
		return
	}
	c.Count("tables compared", len(tables))
	if tables["glyf"] == nil || tables["loca"] == nil || tables["head"] == nil || tables["maxp"] == nil {
		if err := sameTables(wf.Tables, tables, mode); err != nil {
			c.Fail("tables", "%s: %v", what, err)
		}
		return
	}
	if wf.Tables["glyf"] == nil || wf.Tables["loca"] == nil {
		c.Fail("tables", "%s: no glyf or loca table", what)
		return
	}
	for g := 0; g < f.NumGlyphs(); g++ {
		w, err := f.Glyph(g)
		if err != nil {
			c.HarnessError("%s: %v", what, err)
			return
		}
		d, err := wf.Glyph(g)
		if err == nil {
			err = sameGlyph(d, w)
		}
		if err != nil {
			c.Fail("glyph", "%s: glyph %d: %v", what, g, err)
			return
		}
		c.Count("glyphs compared", 1)
	}
}

// outlineFont makes a font whose outlines stress the transformation.
func outlineFont(c *core.Case) (string, *ref.Font) {
	o := synth.Opt{}
	o.Glyph.OddBBox = c.R.Intn(3) == 0
	o.Glyph.BigPoints = c.R.Intn(4) == 0
	switch c.R.Intn(10) {
	case 0, 1, 2:
		o.N = []int{1, 31, 32, 33, 64, 63, 65, 96, 128}[c.R.Intn(9)]
	case 3:
		if c.R.Intn(4) == 0 {
			o.N = 300 + c.R.Intn(600)
		}
	}
	if c.R.Intn(5) > 0 {
		o.CFF = 1
	}
	if c.R.Intn(80) == 0 {
		b := brimOutlines(c)
		c.Attach("font.bin", b)
		f, err := ref.Parse(b, 0)
		if err != nil {
			c.HarnessError("%v", err)
			return "", nil
		}
		c.Count("outlines at the limits", 1)
		return "outlines at the limits", f
	}
	what, f := plainSource(c, o)
	if f == nil || f.CFF != nil || what != "synthetic" || c.R.Intn(3) > 0 {
		return what, f
	}
	// stretch the points to the limits of the format, and let side bearings agree with the outlines
	f2 := stretch(c, f)
	c.Attach("font.bin", f2.Data)
	return what + " stretched", f2
}

// smallest returns the size of the shortest description of a simple glyph, padded to two bytes, and less for other glyphs.
func smallest(g *ref.Glyph) int {
	if g.Contours <= 0 {
		return 0
	}
	n := 12 + 2*g.Contours + len(g.Instructions)
	x, y := 0, 0
	run := 0
	last := -1
	for _, p := range g.Points {
		f := b2i(p.On)
		for k, d := range []int{int(p.X) - x, int(p.Y) - y} {
			switch {
			case d == 0:
				f |= 16 << k
			case -256 < d && d < 256:
				f |= 2 << k
				if d > 0 {
					f |= 16 << k
				}
				n++
			default:
				n += 2
			}
		}
		x, y = int(p.X), int(p.Y)
		if f == last && run < 256 {
			if run++; run == 2 {
				n++
			}
		} else {
			last, run = f, 1
			n++
		}
	}
	return (n + 1) &^ 1
}

// reach limits the difference to the previous coordinate to one that the format can hold, or takes the farthest.
func reach(prev, v, lowest int, far bool) int {
	switch {
	case far && prev+lowest >= -32768:
		return prev + lowest
	case far && prev+32767 <= 32767:
		return prev + 32767
	case v-prev > 32767 || v-prev < lowest:
		return prev
	}
	return v
}

// stretch replaces simple glyphs by ones with far points.
func stretch(c *core.Case, f *ref.Font) *ref.Font {
	r := c.R
	n := f.NumGlyphs()
	var glyf, loca synth.W
	m := 1 + r.Intn(7)
	impossible := -1 // a glyph that cannot be transformed
	if r.Intn(3) == 0 {
		impossible = r.Intn(n)
	}
	for g := 0; g < n; g++ {
		loca.U32(glyf.Len())
		d, err := f.GlyphData(g)
		if err != nil {
			return f
		}
		x, _ := f.Glyph(g)
		if x != nil && x.Contours > 0 && (g == impossible || r.Intn(3) == 0) {
			bad, badX := -1, r.Intn(2) == 0
			if g == impossible {
				bad = r.Intn(min(len(x.Points), 2))
			}
			gl := &synth.Glyph{Instr: x.Instructions, Overlap: len(x.Points) > 0 && x.Points[0].Overlap}
			var ct []synth.Pt
			box := [4]int{1 << 20, 1 << 20, -1 << 20, -1 << 20}
			for k, p := range x.Points {
				lim := []int{64, 65, 256, 768, 769, 1279, 1280, 4095, 4096, 16000, 32767}[r.Intn(4+m)]
				q := synth.Pt{X: r.Intn(2*lim+1) - lim, Y: r.Intn(2*lim+1) - lim, On: p.On}
				if r.Intn(3) == 0 {
					q.X = []int{lim, -lim, 0}[r.Intn(3)]
				}
				if r.Intn(3) == 0 {
					q.Y = []int{lim, -lim, 0}[r.Intn(3)]
				}
				if k := len(ct); k > 0 && r.Intn(3) == 0 {
					q.X = ct[k-1].X
				}
				if k := len(ct); k > 0 && r.Intn(3) == 0 {
					q.Y = ct[k-1].Y
				}
				var prev synth.Pt
				if k := len(ct); k > 0 {
					prev = ct[k-1]
				} else if k := len(gl.Contours); k > 0 {
					prev = gl.Contours[k-1][len(gl.Contours[k-1])-1]
				}
				far := r.Intn(4) == 0
				q.X = reach(prev.X, q.X, -32767, far && r.Intn(2) == 0)
				q.Y = reach(prev.Y, q.Y, -32767, far && r.Intn(2) == 0)
				if k == bad-1 { // room for it
					q.X, q.Y = r.Intn(32768), r.Intn(32768)
				} else if k == bad && badX {
					q.X = reach(prev.X, q.X, -32768, true)
				} else if k == bad {
					q.Y = reach(prev.Y, q.Y, -32768, true)
				}
				ct = append(ct, q)
				box = [4]int{min(box[0], q.X), min(box[1], q.Y), max(box[2], q.X), max(box[3], q.Y)}
				if p.End {
					gl.Contours = append(gl.Contours, ct)
					ct = nil
				}
			}
			ok := true
			px, py := 0, 0
			for _, ct := range gl.Contours {
				for _, p := range ct {
					ok = ok && p.X-px <= 32767 && p.X-px >= -32768 && p.Y-py <= 32767 && p.Y-py >= -32768
					px, py = p.X, p.Y
				}
			}
			if ok && len(gl.Contours) == x.Contours {
				d = synth.EncodeGlyph(r, gl, box)
			}
		}
		glyf.Bytes(d)
		glyf.Pad(4)
	}
	loca.U32(glyf.Len())
	t := map[string][]byte{}
	for k, v := range f.Tables {
		t[k] = v
	}
	if r.Intn(4) == 0 { // more entries than needed
		for k := 1 + r.Intn(3); k > 0; k-- {
			loca.U32(glyf.Len())
		}
	}
	t["glyf"], t["loca"] = glyf.B, loca.B
	h := append([]byte{}, t["head"]...)
	h[50], h[51] = 0, 1
	t["head"] = h
	if len(glyf.B) < 131072 && r.Intn(2) == 0 {
		h[51] = 0
		s := &synth.W{}
		for i := 0; i < len(loca.B); i += 4 {
			s.U16(ref.U32(loca.B, i) / 2)
		}
		t["loca"] = s.B
	}
	out, err := ref.Parse(synth.Assemble(r, f.Version, t), 0)
	if err != nil {
		return f
	}
	// side bearings
	if hm, hh := t["hmtx"], t["hhea"]; hm != nil && len(hh) >= 36 && r.Intn(3) > 0 {
		hm = append([]byte{}, hm...)
		nh := ref.U16(hh, 34)
		mode := r.Intn(3)
		pick := []int{0, 0, 0, 1, 2, 3, 4, 5}[r.Intn(8)]
		c.Count("side bearings like outlines", 1)
		for g := 0; g < n; g++ {
			x, err := out.Glyph(g)
			if err != nil {
				break
			}
			xm := 0
			if x.Contours != 0 && len(x.Data) > 0 {
				xm = x.BBox[0]
				switch pick { // not what the transformation leaves out
				case 1:
					xm = x.BBox[2]
				case 2:
					xm = x.BBox[1]
				case 3:
					if x.Contours < 0 {
						xm = 0
					}
				case 5:
					if x.Contours < 0 {
						xm = x.BBox[2]
					}
				case 4:
					if len(x.Points) > 0 {
						xm = int(x.Points[0].X)
					}
				}
			}
			o := 4*g + 2
			if g >= nh {
				o = 4*nh + 2*(g-nh)
			}
			if o+2 <= len(hm) && (mode == 0 || mode == 1 && g < nh || mode == 2 && g >= nh) {
				binary.BigEndian.PutUint16(hm[o:], uint16(xm))
			}
		}
		t["hmtx"] = hm
		if o2, err := ref.Parse(synth.Assemble(r, f.Version, t), 0); err == nil {
			out = o2
		}
	}
	return out
}

func runC14(c *core.Case) {
	what, f := outlineFont(c)
	if f == nil {
		return
	}
	ts, ch := wrap.Tables2(c.R, f)
	w := wrap.Pack2(c.R, f.Version, ts)
	c.Attach("font.woff2", w)
	c.FP(w)
	c.Sample("%s: %s", what, ch.Desc)
	if _, err := wrap.Decode2(w); err != nil {
		c.HarnessError("the encoder wrote a bad file: %v", err)
		return
	}
	got, err, ok := decodeWOFF2(c, w)
	if !ok {
		return
	}
	if err != nil {
		c.Fail("rejected:"+errKey(err), "%s (%s): a valid WOFF2 file is rejected: %v", what, ch.Desc, err)
		return
	}
	monDecoded(c, what+" decoded from WOFF2 ("+ch.Desc+")", got, f, f.Tables, headLossless)
	c.Count("transformed hmtx", b2i(ch.Hmtx))
	c.Count("overlap bitmaps", b2i(ch.Overlap))
	c.Count("explicit boxes", ch.Explicit)
	c.Count("implicit boxes", ch.Implicit)
	c.Count("wide 255UInt16", ch.Wide255)
	for i, n := range ch.Triplets {
		c.Count(fmt.Sprintf("triplets of form %d", i+1), n)
	}
	for k := 0; k < 4 && !c.Failed(); k++ {
		kind := c.R.Intn(29)
		if k == 0 && what == "outlines at the limits" {
			kind = 28
		}
		d, desc := damage2(c, kind, f, ts, w)
		if d == nil {
			continue
		}
		c.Attach("damaged.woff2", d)
		_, err, ok := decodeWOFF2(c, d)
		if !ok {
			return
		}
		if err == nil {
			c.Fail("accepted", "%s: damaged WOFF2 accepted: %s", what, desc)
			return
		}
		c.Count("damages rejected", 1)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// damage2 makes a file the format forbids. It returns nil when the damage does not apply.
func damage2(c *core.Case, kind int, f *ref.Font, ts []wrap.Table2, w []byte) ([]byte, string) {
	r := c.R
	ts = append([]wrap.Table2{}, ts...)
	at := map[string]int{}
	for i, t := range ts {
		ts[i].Data = append([]byte{}, t.Data...)
		at[t.Tag] = i
	}
	pack := func() []byte { return wrap.Pack2(r, f.Version, ts) }
	hd := func(o, n, v int) []byte {
		d := append([]byte{}, w...)
		for i := 0; i < n; i++ {
			d[o+i] = byte(v >> (8 * (n - 1 - i)))
		}
		if bytes.Equal(d, w) {
			return nil
		}
		return d
	}
	g, hasG := at["glyf"]
	trans := hasG && ts[g].Version == 0
	h, hasH := at["hmtx"]
	transH := hasH && ts[h].Version == 1
	var ng, flags int
	var sizes [7]int
	var offs [8]int
	if trans {
		b := ts[g].Data
		flags, ng = ref.U16(b, 2), ref.U16(b, 4)
		o := 36
		for i := range sizes {
			sizes[i] = ref.U32(b, 8+4*i)
			offs[i] = o
			o += sizes[i]
		}
		offs[7] = o
	}
	setLen := func(i int, b []byte) { ts[i].Data, ts[i].Len = b, len(b) }
	switch kind {
	case 26: // more entries than glyphs
		if !trans {
			return nil, ""
		}
		b := ts[g].Data
		x := append(append(append([]byte{}, b[:offs[1]]...), 0, 0), b[offs[1]:]...)
		binary.BigEndian.PutUint32(x[8:], uint32(sizes[0]+2))
		setLen(g, x)
		return pack(), "more numbers of contours than glyphs"
	case 27: // a first contour without points
		if !trans {
			return nil, ""
		}
		b := ts[g].Data
		at := offs[1]
		for i := 0; i < ng; i++ {
			k := ref.S16(b, offs[0]+2*i)
			if k > 0 && r.Intn(4) == 0 {
				x := append(append(append([]byte{}, b[:at]...), 0), b[at:]...)
				binary.BigEndian.PutUint16(x[offs[0]+2*i:], uint16(k+1))
				binary.BigEndian.PutUint32(x[12:], uint32(sizes[1]+1))
				setLen(g, x)
				return pack(), "first contour without points"
			}
			for ; k > 0; k-- {
				switch b[at] {
				case 253:
					at += 3
				case 254, 255:
					at += 2
				default:
					at++
				}
			}
		}
	case 28: // outlines larger than the short format of loca can hold
		if !trans || ref.U16(ts[g].Data, 6) == 0 {
			return nil, ""
		}
		rb := 0
		for i := 0; i < ng; i++ {
			gl, err := f.Glyph(i)
			if err != nil {
				return nil, ""
			}
			rb += smallest(gl)
		}
		if rb <= 131070 {
			return nil, ""
		}
		ts[g].Data[7] = 0
		ts[at["loca"]].Orig = 2*ng + 2
		return pack(), "outlines too large for the short format of loca"
	case 0:
		return w[:r.Intn(len(w))], "truncated"
	case 1:
		return append(append([]byte{}, w...), make([]byte, 1+r.Intn(8))...), "bytes appended"
	case 2:
		return hd(12, 2, []int{0, len(ts) + 1, 0xFFFF}[r.Intn(3)]), "number of tables"
	case 3:
		return hd(14, 2, 1+r.Intn(0xFFFF)), "reserved field"
	case 4:
		return hd(r.Intn(4), 1, r.Intn(256)), "signature"
	case 5:
		return hd(8, 4, []int{0, len(w) - 1, len(w) + 1, 0x7FFFFFFF, 0xFFFFFFFF}[r.Intn(5)]), "file length"
	case 6:
		return hd(20, 4, []int{0, len(w), 0x7FFFFFFF, 0xFFFFFFFF, ref.U32(w, 20) - 1 - r.Intn(3)}[r.Intn(5)]), "compressed length"
	case 7:
		i := at["head"]
		ts[i].Data[16] &^= 8
		return pack(), "bit 11 of the flags not set"
	case 8:
		ts = append(ts, wrap.Table2{Tag: "DSIG", Orig: 8, Len: -1, Data: make([]byte, 8)})
		return pack(), "DSIG table"
	case 9:
		t := ts[r.Intn(len(ts))]
		if t.Tag == "loca" {
			return nil, ""
		}
		ts = append(ts, t)
		return pack(), "table " + t.Tag + " twice"
	case 10:
		if !hasG {
			return nil, ""
		}
		ts[g], ts[at["loca"]] = ts[at["loca"]], ts[g]
		return pack(), "loca before glyf"
	case 11:
		if !hasG {
			return nil, ""
		}
		k := r.Intn(2)
		ts = append(ts[:g+k], ts[g+k+1:]...)
		return pack(), "only one of glyf and loca"
	case 12:
		i := r.Intn(len(ts))
		if tag := ts[i].Tag; tag == "glyf" || tag == "loca" || tag == "hmtx" {
			return nil, ""
		}
		ts[i].Version = 1 + r.Intn(3)
		return pack(), "unknown transformation of " + ts[i].Tag
	case 13: // streams of the wrong size
		i := r.Intn(len(ts))
		if ts[i].Tag == "loca" || len(ts[i].Data) == 0 || ts[i].Len >= 0 {
			return nil, ""
		}
		if r.Intn(2) == 0 {
			ts[i].Data = ts[i].Data[:len(ts[i].Data)-1]
		} else {
			ts[i].Data = append(ts[i].Data, 0)
		}
		return pack(), "decompressed size is not the sum of the lengths"
	case 14:
		if !trans {
			return nil, ""
		}
		i := at["loca"]
		ts[i].Orig += []int{-1, 1, 2, -2, 4, -4}[r.Intn(6)]
		if ts[i].Orig < 0 {
			return nil, ""
		}
		return pack(), "length of loca"
	case 15:
		if !trans {
			return nil, ""
		}
		i := at["loca"]
		ts[i].Data, ts[i].Len = []byte{0}, 1
		return pack(), "transformed loca with data"
	case 16:
		if !hasG {
			return nil, ""
		}
		i := at["loca"]
		if trans {
			ts[i].Version, ts[i].Len = 3, -1
			ts[i].Data = make([]byte, ts[i].Orig)
		} else {
			ts[i].Version, ts[i].Len, ts[i].Data = 0, 0, nil
		}
		return pack(), "only one of glyf and loca transformed"
	case 17: // glyf cut off
		if !trans {
			return nil, ""
		}
		b := ts[g].Data
		setLen(g, b[:r.Intn(len(b))])
		if len(ts[g].Data) == 0 {
			return nil, ""
		}
		return pack(), "glyf cut off"
	case 18: // a stream one byte shorter
		if !trans {
			return nil, ""
		}
		s := 1 + r.Intn(6)
		if sizes[s] == 0 || s == 5 && sizes[s] <= (ng+31)/32*4 {
			return nil, ""
		}
		b := ts[g].Data
		e := offs[s] + sizes[s]
		x := append(append([]byte{}, b[:e-1]...), b[e:]...)
		binary.BigEndian.PutUint32(x[8+4*s:], uint32(sizes[s]-1))
		setLen(g, x)
		return pack(), fmt.Sprintf("stream %d of glyf too short", s)
	case 19: // stream sizes
		if !trans {
			return nil, ""
		}
		s := r.Intn(7)
		x := ts[g].Data
		v := []int{0x7FFFFFFF, 0xFFFFFFFF, 0x80000000, len(x), len(x) + 1}[r.Intn(5)]
		binary.BigEndian.PutUint32(x[8+4*s:], uint32(v))
		return pack(), fmt.Sprintf("size of stream %d of glyf set to %#x", s, v)
	case 20: // bounding box of an empty glyph
		if !trans {
			return nil, ""
		}
		x := ts[g].Data
		for i := 0; i < ng; i++ {
			if ref.U16(x, offs[0]+2*i) == 0 {
				x[offs[5]+i>>3] |= 0x80 >> (i & 7)
				return pack(), "bounding box of an empty glyph"
			}
		}
	case 21: // composite without
		if !trans {
			return nil, ""
		}
		x := ts[g].Data
		for i := 0; i < ng; i++ {
			if ref.S16(x, offs[0]+2*i) < 0 {
				x[offs[5]+i>>3] &^= 0x80 >> (i & 7)
				return pack(), "composite without bounding box"
			}
		}
	case 22:
		if !transH {
			return nil, ""
		}
		ts[h].Data[0] = []byte{0, 4, 0x81, 0xFF, 7}[r.Intn(5)]
		return pack(), "flags of hmtx"
	case 23:
		if !transH {
			return nil, ""
		}
		b := ts[h].Data
		if r.Intn(2) == 0 {
			b = b[:len(b)-1]
		} else {
			b = append(b, 0)
		}
		setLen(h, b)
		return pack(), "length of hmtx"
	case 24:
		if !transH {
			return nil, ""
		}
		t := []string{"head", "maxp", "hhea"}[r.Intn(3)]
		i := at[t]
		ts = append(ts[:i], ts[i+1:]...)
		return pack(), "transformed hmtx without " + t
	case 25:
		if !trans || flags&1 == 0 || (ng+31)/32 == 0 {
			return nil, ""
		}
		setLen(g, ts[g].Data[:len(ts[g].Data)-1-r.Intn((ng+31)/32*4)])
		return pack(), "overlap bitmap cut off"
	}
	return nil, ""
}

func runC15(c *core.Case) {
	var what string
	var b []byte
	hist := c.R.Intn(3)
	if hist == 0 {
		w, f := outlineFont(c)
		if f == nil {
			return
		}
		what, b = w, f.Data
	} else {
		o := subsettable(c, 0)
		o.Glyph.OddBBox = c.R.Intn(4) == 0
		what, b = editFont(c, o, true)
	}
	f := parse(c, what, b)
	if f == nil {
		return
	}
	if hist > 0 {
		what = disturbForWOFF2(c, what, f, &f)
		if f == nil {
			return
		}
	}
	var plain, after, w []byte
	var err error
	if !c.Try("Write", func() { plain = f.Write() }) {
		return
	}
	c.Attach("font.bin", plain)
	rf, err := ref.Parse(plain, 0)
	if err != nil {
		c.Count("skipped unreadable", 1) // decided by C12
		return
	}
	if !c.Try("WriteWOFF2", func() { w, err = f.WriteWOFF2() }) {
		return
	}
	if err != nil {
		c.Fail("error", "%s: WriteWOFF2: %v", what, err)
		return
	}
	c.Attach("font.woff2", w)
	c.FP(w)
	if !c.Try("Write", func() { after = f.Write() }) {
		return
	}
	if !bytes.Equal(stamp(plain), stamp(after)) {
		c.Fail("changed", "%s: WriteWOFF2 changed the font", what)
	}
	if rf.Tables["head"] == nil {
		return
	}
	// the independent decoder
	d, err := wrap.Decode2(w)
	if err != nil {
		c.Fail("strict:"+errKey(err), "%s: the written file is refused by a strict decoder: %v", what, err)
		return
	}
	monWritten(c, what, d, rf)
	// the library
	got, err, ok := decodeWOFF2(c, w)
	if !ok {
		return
	}
	if err != nil {
		c.Fail("rejected:"+errKey(err), "%s: the written WOFF2 file is rejected: %v", what, err)
		return
	}
	monDecoded(c, what+" written and decoded as WOFF2", got, rf, rf.Tables, headWritten)
}

func monWritten(c *core.Case, what string, d *wrap.Font2, rf *ref.Font) {
	if d.Version != rf.Version && !(rf.CFF == nil && d.Version == "true") {
		c.Fail("version", "%s: version %q instead of %q", what, d.Version, rf.Version)
	}
	total := 12
	want := map[string][]byte{}
	for t, b := range rf.Tables {
		if t != "DSIG" {
			want[t] = b
			total += 16 + (len(b)+3)&^3
		}
	}
	if d.Total != total && d.Total != d.OrigTotal {
		c.Fail("total size", "%s: totalSfntSize %d, the font has %d bytes", what, d.Total, total)
	}
	except := []string{}
	if d.Glyphs != nil {
		except = append(except, "glyf", "loca")
	}
	if d.Lsbs != nil {
		except = append(except, "hmtx")
	}
	if err := sameTables(d.Tables, want, headWritten, except...); err != nil {
		c.Fail("tables", "%s written as WOFF2: %v", what, err)
		return
	}
	if !sort.StringsAreSorted(d.Tags) {
		c.Count("unsorted directories", 1)
	}
	c.Count("tables compared", len(want))
	if len(d.Tags) != len(want) {
		c.Fail("tables", "%s written as WOFF2: %d tables instead of %d", what, len(d.Tags), len(want))
	}
	if d.Glyphs == nil {
		return
	}
	c.Count("transformed glyf", 1)
	for g, x := range d.Glyphs {
		w, err := rf.Glyph(g)
		if err != nil {
			c.HarnessError("%s: %v", what, err)
			return
		}
		y := &ref.Glyph{Data: []byte{0}, Contours: x.Contours, BBox: x.BBox, Points: x.Points, Instructions: x.Instructions}
		if x.Contours == 0 {
			y.Data = nil
		}
		if len(y.Points) > 0 {
			y.Points[0].Overlap = x.Overlap
		}
		if x.Contours < 0 && w.Contours < 0 {
			if n := len(x.Composite); n > len(w.Data)-10 || !bytes.Equal(x.Composite, w.Data[10:10+n]) {
				err = fmt.Errorf("other components")
			}
			y.Components = w.Components
			if len(x.Instructions) > 0 {
				c.Count("composites with instructions", 1)
			}
		}
		if x.Overlap {
			c.Count("overlap glyphs", 1)
		}
		if err == nil {
			err = sameGlyph(y, w)
		}
		if err != nil {
			c.Fail("glyph", "%s written as WOFF2: glyph %d: %v", what, g, err)
			return
		}
		c.Count("glyphs compared", 1)
	}
	if d.Lsbs != nil {
		c.Count("transformed hmtx", 1)
		hm, nh := rf.Tables["hmtx"], ref.U16(rf.Tables["hhea"], 34)
		for g := range d.Lsbs {
			o := 4*g + 2
			if g >= nh {
				o = 4*nh + 2*(g-nh)
			}
			if len(hm) < o+2 || d.Lsbs[g] != ref.S16(hm, o) || g < nh && d.Advances[g] != ref.U16(hm, 4*g) {
				c.Fail("hmtx", "%s written as WOFF2: metrics of glyph %d differ", what, g)
				return
			}
		}
	}
}

// disturbForWOFF2 subsets, merges and renames a font.
func disturbForWOFF2(c *core.Case, what string, f *SF, out **SF) string {
	for i := 1 + c.R.Intn(2); i > 0; i-- {
		switch c.R.Intn(4) {
		case 0, 1:
			n := int(f.NumGlyphs())
			list := randGlyphList(c.R, n, 1+c.R.Intn(min(n, 60)))
			opt := []string{}
			if c.R.Intn(3) > 0 {
				opt = [][]string{font.KeepAllTables, font.KeepMinTables, font.KeepPDFTables}[c.R.Intn(3)]
			}
			var s *SF
			var err error
			if !c.Try("Subset", func() { s, err = f.Subset(toU16(list), font.SubsetOptions{Tables: opt}) }) {
				*out = nil
				return what
			}
			if err == nil {
				f = s
				what += " subset"
				c.Count("subset fonts", 1)
			}
		case 2:
			kind := 1
			if f.IsCFF {
				kind = 2
			}
			o := synth.Opt{CFF: kind, MaxN: 60}
			x := randFont(c, o)
			f2 := parse(c, "added", x.Bytes)
			if f2 == nil {
				*out = nil
				return what
			}
			var err error
			if !c.Try("Merge", func() { err = f.Merge(f2, font.MergeOptions{RearrangeCmap: true}) }) {
				*out = nil
				return what
			}
			if err == nil {
				what += " merged"
				c.Count("merged fonts", 1)
			}
		case 3:
			names := make([]string, f.NumGlyphs())
			for i := range names {
				names[i] = fmt.Sprintf("g%d", i)
			}
			if c.Try("SetGlyphNames", func() { f.SetGlyphNames(names) }) {
				what += " renamed"
			}
		}
		if c.Failed() {
			*out = nil
			return what
		}
	}
	*out = f
	return what
}

////////////////////////////////////////////////////////////////
// EOT

func decodeEOT(c *core.Case, b []byte) (got []byte, err error, ok bool) {
	k := newCanary(b)
	ok = c.Try("ParseEOT", func() { got, err = font.ParseEOT(k.Bytes()) })
	if ok {
		if e := k.Check(); e != nil {
			c.Fail("input", "ParseEOT changed its input: %v", e)
		}
		if err != nil && got != nil {
			c.Fail("error with data", "ParseEOT returned data and the error %v", err)
		}
	}
	return
}

func runC16(c *core.Case) {
	what, b := source(c, synth.Opt{MaxN: 30}, func(f *ref.Font) bool { return len(f.Data) < 300000 })
	if c.R.Intn(10) == 0 {
		b = b[:c.R.Intn(len(b))] // the decoder does not look inside
	}
	w := wrap.EOT(c.R, b)
	c.Attach("font.eot", w)
	c.FP(w)
	got, err, ok := decodeEOT(c, w)
	if !ok {
		return
	}
	if err != nil {
		c.Fail("rejected:"+errKey(err), "%s: a valid EOT file is rejected: %v", what, err)
		return
	}
	if !bytes.Equal(got, b) {
		c.Fail("bytes", "%s: the decoded font differs: %s", what, firstDiff(got, b))
		return
	}
	c.Count("decoded", 1)
	for k := 0; k < 4; k++ {
		d := append([]byte{}, w...)
		desc := ""
		le := func(o int, v uint32) { binary.LittleEndian.PutUint32(d[o:], v) }
		switch c.R.Intn(6) {
		case 0, 1:
			n := c.R.Intn(len(d))
			if c.R.Intn(2) == 0 {
				n = c.R.Intn(min(len(d), 300))
			}
			if len(b) == 0 {
				n = c.R.Intn(len(d))
			}
			d = d[:n]
			desc = "truncated"
		case 2:
			d[12] |= 4
			desc = "compressed"
		case 3:
			i := 34 + c.R.Intn(2)
			d[i] ^= 1 << c.R.Intn(8)
			desc = "magic number"
		case 4:
			le(8, []uint32{0, 0x00010001, 0x00020000, 0x00020003, 0x00030000, 0x01000000, 0xFFFFFFFF}[c.R.Intn(7)])
			desc = "version"
		case 5:
			le(4, uint32(len(b))+[]uint32{1, 2, 100, 0x7FFFFFFF, 0x80000000, uint32(len(w))}[c.R.Intn(6)])
			desc = "data size beyond the file"
		}
		c.Attach("damaged.eot", d)
		_, err, ok := decodeEOT(c, d)
		if !ok {
			return
		}
		if err == nil {
			c.Fail("accepted", "%s: damaged EOT accepted: %s", what, desc)
			return
		}
		if desc == "truncated" {
			c.Count("truncations rejected", 1)
		} else {
			c.Count("unsupported rejected", 1)
		}
	}
}

////////////////////////////////////////////////////////////////
// containers

func opened(c *core.Case, what string, b []byte, index int) *SF {
	var f *SF
	var err error
	k := newCanary(b)
	if !c.Try("ParseSFNT", func() { f, err = font.ParseSFNT(k.Bytes(), index) }) {
		return nil
	}
	if err != nil {
		c.Attach("container.bin", b)
		c.Fail("rejected:"+errKey(err), "%s: rejected: %v", what, err)
		return nil
	}
	if e := k.Check(); e != nil {
		c.Fail("input", "%s: opening changed the input: %v", what, e)
	}
	return f
}

func refused(c *core.Case, what string, b []byte, index int) {
	var f *SF
	var err error
	if !c.Try("ParseSFNT", func() { f, err = font.ParseSFNT(b, index) }) {
		return
	}
	if err == nil {
		c.Attach("container.bin", b)
		c.Fail("bad index", "%s: index %d is accepted: %v", what, index, f != nil)
	}
	c.Count("bad indices", 1)
}

func kindOf(c *core.Case, what string, b []byte, media, ext string) {
	var m string
	var err error
	if !c.Try("MediaType", func() { m, err = font.MediaType(b) }) {
		return
	}
	if err != nil || m != media {
		c.Fail("media type", "%s: MediaType = %q, %v instead of %q", what, m, err, media)
	}
	if e := font.Extension(b); e != ext {
		c.Fail("extension", "%s: Extension = %q instead of %q", what, e, ext)
	}
}

func runC26(c *core.Case) {
	what, rf := plainSource(c, synth.Opt{MaxN: 60})
	if rf == nil {
		return
	}
	b := rf.Data
	c.FP(b)
	f := opened(c, what, b, 0)
	if f == nil {
		return
	}
	q := questions(c.R, rf, 60)
	q.Write = false
	s := take(f, q)
	q2 := q
	q2.Tables = false
	s2 := take(f, q2)
	same := func(what string, g *SF, q Questions, s *Snap) {
		if g == nil {
			return
		}
		var t *Snap
		if !c.Try("queries", func() { t = take(g, q) }) {
			return
		}
		if d := s.Diff(t); d != "" {
			c.Fail("differs", "%s: the font gives other answers than the plain font: %s", what, d)
		}
		c.Count("containers", 1)
	}
	media, ext := "font/truetype", ".ttf"
	if rf.Version == "OTTO" {
		media, ext = "font/opentype", ".otf"
	}
	kindOf(c, what, b, media, ext)
	refused(c, what, b, 1)
	refused(c, what, b, -1)
	var e *SF
	var err error
	if c.Try("ParseEmbeddedSFNT", func() { e, err = font.ParseEmbeddedSFNT(b, 0) }) {
		if err != nil {
			c.Fail("embedded", "%s: ParseEmbeddedSFNT: %v", what, err)
		} else {
			same(what+" opened as embedded font", e, q, s)
		}
	}

	// containers
	wo, _ := wrap.WOFF(c.R, rf)
	kindOf(c, "WOFF", wo, "font/woff", ".woff")
	same(what+" in WOFF", opened(c, what+" in WOFF", wo, 0), q, s)
	if c.R.Intn(4) == 0 {
		refused(c, "WOFF", wo, 1)
	}
	w2, ch := wrap.WOFF2(c.R, rf)
	kindOf(c, "WOFF2", w2, "font/woff2", ".woff2")
	c.Attach("font.woff2", w2)
	same(what+" in WOFF2 ("+ch.Desc+")", opened(c, what+" in WOFF2", w2, 0), q2, s2)
	eo := wrap.EOT(c.R, b)
	kindOf(c, "EOT", eo, "application/vnd.ms-fontobject", ".eot")
	same(what+" in EOT", opened(c, what+" in EOT", eo, 0), q, s)

	// the reader
	for _, x := range [][]byte{b, wo, w2, eo} {
		want, err := font.ToSFNT(append([]byte{}, x...))
		if err != nil {
			c.Fail("ToSFNT", "%s: ToSFNT: %v", what, err)
			continue
		}
		var rd io.Reader = bytes.NewReader(x)
		switch c.R.Intn(3) {
		case 0:
			rd = iotest.HalfReader(rd)
		case 1:
			rd = iotest.DataErrReader(rd)
		}
		var got *bytes.Reader
		if !c.Try("NewSFNTReader", func() { got, err = font.NewSFNTReader(rd) }) {
			return
		}
		if err != nil {
			c.Fail("NewSFNTReader", "%s: NewSFNTReader: %v", what, err)
			continue
		}
		gb, _ := io.ReadAll(got)
		if !bytes.Equal(gb, want) {
			c.Fail("NewSFNTReader", "%s: NewSFNTReader and ToSFNT differ", what)
		}
		if _, err := font.NewSFNTReader(iotest.TimeoutReader(bytes.NewReader(x))); err == nil {
			c.Fail("NewSFNTReader", "%s: NewSFNTReader ignores a read error", what)
		}
	}

	// collections
	ms := []synth.Member{{Version: rf.Version, Tables: rf.Tables}}
	singles := [][]byte{b}
	for i := c.R.Intn(4); i > 0; i-- {
		o := synth.Opt{MaxN: 30}
		if rf.CFF == nil {
			o.CFF = 1
		}
		x := synth.Random(c.R, o)
		t := map[string][]byte{}
		for k, v := range x.Tables {
			t[k] = v
		}
		if c.R.Intn(2) == 0 { // shared tables
			for _, k := range []string{"name", "OS/2"} {
				if rf.Tables[k] != nil && t[k] != nil && k == "name" {
					t[k] = rf.Tables[k]
				}
			}
		}
		at := c.R.Intn(len(ms) + 1)
		ms = append(ms[:at], append([]synth.Member{{Version: x.Version, Tables: t}}, ms[at:]...)...)
		singles = append(singles[:at], append([][]byte{synth.Assemble(nil, x.Version, t)}, singles[at:]...)...)
	}
	ttc := synth.AssembleTTC(c.R, ms, c.R.Intn(2) == 0)
	c.Attach("collection.ttc", ttc)
	kindOf(c, "collection", ttc, "font/truetype", ".ttf")
	for i := range ms {
		single := opened(c, "member alone", singles[i], 0)
		srf, err := ref.Parse(singles[i], 0)
		if single == nil || err != nil {
			return
		}
		qm := questions(c.R, srf, 40)
		qm.Write = false
		sm := take(single, qm)
		w := fmt.Sprintf("member %d of a collection of %d fonts", i, len(ms))
		same(w, opened(c, w, ttc, i), qm, sm)
		c.Count("collection members", 1)
	}
	for _, i := range []int{len(ms), len(ms) + 1, -1, 1 << 30, -1 << 31, 1 << 32} {
		refused(c, "collection", ttc, i)
	}

	// converters
	if tt, err := freetypeParse(b); err == nil {
		var x []byte
		if !c.Try("FromGoFreetype", func() { x = font.FromGoFreetype(tt) }) {
			return
		}
		validSFNT(c, what+" from freetype", x)
		c.Attach("freetype.bin", x)
		g := opened(c, what+" from freetype", x, 0)
		if g != nil {
			monConverted(c, what+" from freetype", g, f, q)
			c.Count("freetype conversions", 1)
		}
		if tt2, err := freetypeParse(b); err == nil && fmt.Sprintf("%v", *tt2) != fmt.Sprintf("%v", *tt) {
			c.Fail("freetype changed", "%s: FromGoFreetype changed the font", what)
		}
	}
	if gs, err := sfnt.Parse(b); err == nil {
		var x []byte
		if !c.Try("FromGoSFNT", func() { x = font.FromGoSFNT(gs) }) {
			return
		}
		same(what+" from x/image", opened(c, what+" from x/image", x, 0), q, s)
		c.Count("x/image conversions", 1)
	}
	if co, err := sfnt.ParseCollection(ttc); err == nil {
		for i := 0; i < co.NumFonts(); i++ {
			gs, err := co.Font(i)
			if err != nil {
				continue
			}
			var x []byte
			if !c.Try("FromGoSFNT", func() { x = font.FromGoSFNT(gs) }) {
				return
			}
			w := fmt.Sprintf("member %d of a collection from x/image", i)
			g := opened(c, w, x, 0)
			m := opened(c, w, ttc, i)
			if g == nil || m == nil {
				return
			}
			srf, _ := ref.Parse(singles[i], 0)
			qm := questions(c.R, srf, 30)
			qm.Write, qm.Tables = false, false
			same(w, g, qm, take(m, qm))
			c.Count("x/image collection members", 1)
		}
	}
}

func freetypeParse(b []byte) (f *truetype.Font, err error) {
	err = guard(func() error {
		var e error
		f, e = truetype.Parse(b)
		return e
	})
	return
}

// monConverted compares the answers that survive a conversion which keeps only some tables.
func monConverted(c *core.Case, what string, g, f *SF, q Questions) {
	if g.NumGlyphs() != f.NumGlyphs() || g.UnitsPerEm() != f.UnitsPerEm() {
		c.Fail("converted", "%s: %d glyphs, %d units instead of %d, %d", what, g.NumGlyphs(), g.UnitsPerEm(), f.NumGlyphs(), f.UnitsPerEm())
		return
	}
	for _, t := range []string{"cmap", "cvt ", "fpgm", "glyf", "hdmx", "hhea", "hmtx", "kern", "loca", "maxp", "name", "OS/2", "prep"} {
		if !bytes.Equal(g.Tables[t], f.Tables[t]) {
			c.Fail("converted table", "%s: table %q has %d bytes instead of %d or other ones", what, t, len(g.Tables[t]), len(f.Tables[t]))
			return
		}
	}
	for _, x := range q.Glyphs {
		i := uint16(x)
		a, e1 := outline(g, i, 0, 0, 1)
		b, e2 := outline(f, i, 0, 0, 1)
		if fmt.Sprint(a, e1) != fmt.Sprint(b, e2) || g.GlyphAdvance(i) != f.GlyphAdvance(i) {
			c.Fail("converted", "%s: glyph %d has another outline or advance", what, x)
			return
		}
		if fmt.Sprint(sortRunes(g.GlyphToUnicode(i))) != fmt.Sprint(sortRunes(f.GlyphToUnicode(i))) {
			c.Fail("converted", "%s: glyph %d has other runes", what, x)
			return
		}
	}
	for _, r := range q.Runes {
		if g.GlyphIndex(r) != f.GlyphIndex(r) {
			c.Fail("converted", "%s: rune %x has another glyph", what, r)
			return
		}
	}
	for _, p := range q.Pairs {
		if g.Kerning(uint16(p[0]), uint16(p[1])) != f.Kerning(uint16(p[0]), uint16(p[1])) {
			c.Fail("converted", "%s: pair %v has another kerning", what, p)
			return
		}
	}
	a1, d1, l1 := g.VerticalMetrics()
	a2, d2, l2 := f.VerticalMetrics()
	if a1 != a2 || d1 != d2 || l1 != l2 {
		c.Fail("converted", "%s: other line metrics", what)
	}
}
