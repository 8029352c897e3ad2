
// index builds a CFF INDEX with offsets of size bytes.
func index(size int, items ...[]byte) []byte {
	b := be(len(items))
	if len(items) == 0 {
		return b
	}
	b = append(b, byte(size))
	at := 1
	for i := 0; i <= len(items); i++ {
		b = append(b, be4(at)[4-size:]...)
		if i < len(items) {
			at += len(items[i])
		}
	}
	for _, x := range items {
		b = append(b, x...)
	}
	return b
}

// num encodes a number of a DICT in five bytes.
func num(v int) []byte { return append([]byte{29}, be4(v)...) }

// cs builds a charstring from numbers (int) and operators (byte).
func cs(tokens ...interface{}) (b []byte) {
	for _, x := range tokens {
		switch x := x.(type) {
		case byte:
			b = append(b, x)
		case int:
			switch {
			case -107 <= x && x <= 107:
				b = append(b, byte(x+139))
			case 108 <= x && x <= 1131:
				b = append(b, byte((x-108)>>8+247), byte(x-108))
			case -1131 <= x && x <= -108:
				b = append(b, byte((-x-108)>>8+251), byte(-x-108))
			default:
				b = append(b, append([]byte{28}, be(x)...)...)
			}
		case []byte:
			b = append(b, x...)
		}
	}
	return
}

const (
	rmoveto, rlineto, callsubr, ret, callgsubr, endchar = byte(21), byte(5), byte(10), byte(11), byte(29), byte(14)
	hintmask, hstemhm, vstemhm, hlineto, vlineto        = byte(19), byte(18), byte(23), byte(6), byte(7)
)

// cffFont returns the tables of a CFF font with the charstrings as glyphs, mapped from '@'. All glyphs have the advance
// 1000 and the names are used from glyph 1.
func cffFont(t *testing.T, charstrings, global, local [][]byte, names ...string) map[string][]byte {
	tab := base(t, "EBGaramond12-Regular.otf")
	n := len(charstrings)
	strs := [][]byte{}
	charset := []byte{0}
	for i := 1; i < n; i++ {
		name := fmt.Sprintf("glyph-%d", i)
		if i <= len(names) {
			name = names[i-1]
		}
		strs = append(strs, []byte(name))
		charset = append(charset, be(390+i)...)
	}
	head := append(be(0x100, 0x404), index(1, []byte("Test"))...)
	top := func(charset, chars, priv, size int) []byte {
		b := append(append(num(charset), 15), append(num(chars), 17)...)
		return append(b, append(append(num(size), num(priv)...), 18)...)
	}
	tail := append(index(4, strs...), index(4, global...)...)
	o := len(head) + len(index(1, top(0, 0, 0, 0))) + len(tail)
	chars := index(4, charstrings...)
	priv := []byte{}
	if len(local) > 0 {
		priv = append(num(6), 19)
	}
	b := append(head, index(1, top(o, o+len(charset), o+len(charset)+len(chars), len(priv)))...)
	b = append(append(append(append(b, tail...), charset...), chars...), priv...)
	if len(local) > 0 {
		b = append(b, index(4, local...)...)
	}
	out := map[string][]byte{"CFF ": b}
	for _, tag := range []string{"head", "hhea", "OS/2", "name", "post", "maxp"} {
		out[tag] = tab[tag]
	}
	copy(out["maxp"][4:], be(n))
	copy(out["hhea"][34:], be(1))
	out["hmtx"] = append(be(1000), make([]byte, 2*n)...)
	m := be(0, 1, 3, 1, 0, 12, 6, 10+2*n, 0, '@', n)
	for i := 0; i < n; i++ {
		m = append(m, be(i)...)
	}
	out["cmap"] = m
	return out
}
