
func be16(b []byte, i int) int { return int(binary.BigEndian.Uint16(b[i:])) }
func be32(b []byte, i int) int { return int(binary.BigEndian.Uint32(b[i:])) }

// be appends the values as big-endian 16-bit numbers.
func be(v ...int) (b []byte) {
	for _, x := range v {
		b = append(b, byte(x>>8), byte(x))
	}
	return
}

func be4(v ...int) (b []byte) {
	for _, x := range v {
		b = append(b, be(x>>16, x)...)
	}
	return
}

// split returns copies of the tables of a font.
func split(b []byte) map[string][]byte {
	t := map[string][]byte{}
	for i := 0; i < be16(b, 4); i++ {
		e := b[12+16*i:]
		t[string(e[:4])] = append([]byte{}, b[be32(e, 8):be32(e, 8)+be32(e, 12)]...)
	}
	return t
}

func checksum(b []byte) (sum uint32) {
	for i := 0; i < len(b); i += 4 {
		var w [4]byte
		copy(w[:], b[i:])
		sum += binary.BigEndian.Uint32(w[:])
	}
	return
}

// join builds a font.
func join(t map[string][]byte) []byte {
	var tags []string
	for tag := range t {
		tags = append(tags, tag)
	}
	sort.Strings(tags)
	version := be4(0x10000)
	if t["CFF "] != nil {
		version = []byte("OTTO")
	}
	n, sel := len(tags), 0
	for 2<<sel <= n {
		sel++
	}
	out := append(version, be(n, 16<<sel, sel, n*16-16<<sel)...)
	var body []byte
	head := 0
	for _, tag := range tags {
		d := append([]byte{}, t[tag]...)
		if tag == "head" {
			copy(d[8:], make([]byte, 4))
			head = 12 + 16*n + len(body)
		}
		out = append(out, tag...)
		out = append(out, be4(int(checksum(d)), 12+16*n+len(body), len(d))...)
		body = append(body, d...)
		for len(body)%4 != 0 {
			body = append(body, 0)
		}
	}
	out = append(out, body...)
	binary.BigEndian.PutUint32(out[head+8:], 0xB1B0AFBA-checksum(out))
	return out
}

// base returns the tables of a test font.
func base(t *testing.T, name string) map[string][]byte {
	b, err := os.ReadFile("resources/" + name)
	if err != nil {
		t.Fatal(err)
	}
	return split(b)
}

// open parses the font.
func open(t *testing.T, b []byte) *font.SFNT {
	f, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	return f
}

// setGlyph replaces the data of a glyph of a font with a long loca table.
func setGlyph(t map[string][]byte, id int, data []byte) {
	for len(data)%4 != 0 {
		data = append(data, 0)
	}
	loca := t["loca"]
	a, b := be32(loca, 4*id), be32(loca, 4*id+4)
	glyf := append(append(append([]byte{}, t["glyf"][:a]...), data...), t["glyf"][b:]...)
	for i := 4 * (id + 1); i < len(loca); i += 4 {
		copy(loca[i:], be4(be32(loca, i)+len(data)-(b-a)))
	}
	t["glyf"] = glyf
}

// rec records an outline.
type rec []string

func (p *rec) MoveTo(x, y float64) { *p = append(*p, fmt.Sprint("M", x, y)) }
func (p *rec) LineTo(x, y float64)         { *p = append(*p, fmt.Sprint("L", x, y)) }
func (p *rec) QuadTo(a, b, x, y float64)   { *p = append(*p, fmt.Sprint("Q", a, b, x, y)) }
func (p *rec) CubeTo(a, b, c, d, x, y float64) { *p = append(*p, fmt.Sprint("C", a, b, c, d, x, y)) }
func (p *rec) Close()                      { *p = append(*p, "z") }

// path returns the outline of a glyph as text.
func path(t *testing.T, f *font.SFNT, id uint16) string {
	p := &rec{}
	if err := f.GlyphPath(p, id, 0, 0, 0, 1, font.NoHinting); err != nil {
		t.Fatal(err)
	}
	return fmt.Sprint(*p)
}

var _, _, _, _ = fmt.Sprint, os.ReadFile, sort.Strings, binary.BigEndian
