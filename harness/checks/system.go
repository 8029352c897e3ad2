package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"

	"github.com/tdewolff/font"

	"verif/core"
	"verif/synth"
)

func init() {
	core.Register(&core.Check{ID: "C24", Cases: byTier(6000, 80000), Run: runC24, Require: []string{"scans", "fonts found", "lookups found", "lookups not found", "generic lookups", "nearest weights", "saved and loaded", "malformed files", "unusual directories", "typographic names", "names in other languages", "default directories", "truncated indexes"},
		Rule: "directory trees of fonts with random name tables (platforms, languages, versions, legacy and typographic names, order of records) among malformed files and odd directories are scanned and compared with what was written; histories of additions, lookups and saving of an index are compared with a model; distinct cases are distinct trees and distinct histories"})
}

var weights = []font.Style{font.Thin, font.ExtraLight, font.Light, font.Regular, font.Medium, font.SemiBold, font.Bold, font.ExtraBold, font.Black}

// styleTexts has the names of the weights that fonts state.
var styleTexts = map[font.Style][]string{
	font.Thin: {"Thin", "Hairline"}, font.ExtraLight: {"ExtraLight", "UltraLight", "Extra Light"}, font.Light: {"Light", "Light", "Lt", "SemiLight"}, font.Regular: {"Regular", "Normal", "Roman", "Book", "Reg", "Text"},
	font.Medium: {"Medium", "Med"}, font.SemiBold: {"SemiBold", "Semi Bold", "Demi", "Semibold"}, font.Bold: {"Bold", "Bold", "Bol"}, font.ExtraBold: {"ExtraBold", "Extra Bold"}, font.Black: {"Black", "Heavy"},
}

func randStyle(r *rand.Rand) (font.Style, string) {
	w := weights[r.Intn(len(weights))]
	if r.Intn(3) == 0 {
		w = []font.Style{font.Regular, font.Bold}[r.Intn(2)]
	}
	ts := styleTexts[w]
	t := ts[r.Intn(len(ts))]
	if r.Intn(2) == 0 {
		return w, t
	}
	it := []string{"Italic", "Oblique"}[r.Intn(2)]
	if w == font.Regular && r.Intn(2) == 0 {
		return w | font.Italic, it
	}
	return w | font.Italic, t + []string{" ", " ", "", "-"}[r.Intn(4)] + it
}

var familyTexts = []string{"Example", "Example Sans", "Exämple", "明朝", "Noto Serif", "DejaVu Sans", "Courier", "A", "😀 Face", "example", "Example Sans Mono", "Times New Roman", "E-x_a.m(p)le", "0"}

// fontName makes a name table that states a family and a style.
func fontName(c *core.Case, family, style string) []byte {
	r := c.R
	var recs []synth.NameRec
	lang := 0x409
	var langs []string
	if r.Intn(4) == 0 {
		langs = []string{}
		for i := r.Intn(12); i > 0; i-- {
			langs = append(langs, []string{"en", "de-AT", "ja", "en-GB"}[r.Intn(4)])
		}
	}
	add := func(p, e, l, id int, s string) {
		for _, x := range recs {
			if x.P == p && x.E == e && x.L == l && x.ID == id {
				return
			}
		}
		raw := []byte(s)
		if p != 1 {
			raw = synth.UTF16(s)
		}
		recs = append(recs, synth.NameRec{P: p, E: e, L: l, ID: id, Raw: raw})
	}
	enc := []int{1, 1, 1, 0, 10}[r.Intn(5)]
	legacy := func(l int, fam, sub string, sure bool) {
		switch r.Intn(4) {
		case 0: // also typographic names
			add(3, enc, l, 1, fam+" "+sub)
			add(3, enc, l, 2, []string{"Regular", "Bold", "Italic"}[r.Intn(3)])
			add(3, enc, l, 16, fam)
			add(3, enc, l, 17, sub)
			c.Count("typographic names", 1)
		case 1:
			add(3, enc, l, 1, fam+" Legacy")
			add(3, enc, l, 2, sub)
			add(3, enc, l, 16, fam)
			c.Count("typographic names", 1)
		case 2:
			add(3, enc, l, 1, fam)
			add(3, enc, l, 2, []string{"Regular", "Bold Italic"}[r.Intn(2)])
			add(3, enc, l, 17, sub)
			c.Count("typographic names", 1)
		default:
			add(3, enc, l, 1, fam)
			add(3, enc, l, 2, sub)
		}
	}
	other := r.Intn(8) == 0 // names only in another language
	if other {
		lang = []int{0x411, 0x407, 0xC0A, 0x804, 0x401}[r.Intn(5)]
	} else if r.Intn(8) == 0 {
		lang = []int{0x809, 0xC09, 0x1409}[r.Intn(3)]
	}
	legacy(lang, family, style, true)
	if !other {
		for i := r.Intn(4); i > 0; i-- {
			l := []int{0x401, 0x411, 0x407, 0xC0A, 0x804, 0x41E, 0x2C0A}[r.Intn(7)]
			if langs != nil && r.Intn(2) == 0 {
				l = 0x8000 + r.Intn(12)
			}
			legacy(l, []string{"別名", "Beispiel", "Ejemplo"}[r.Intn(3)], []string{"Fett", "Negrita", "標準", "Thin"}[r.Intn(4)], false)
			c.Count("names in other languages", 1)
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		for _, id := range []int{1, 2, 16, 17} {
			if r.Intn(2) == 0 {
				add(1, 0, []int{0, 0, 11, 9, 0x109}[r.Intn(5)], id, []string{"Mac Family", "Mac", "Bold", "Macintosh"}[r.Intn(4)])
			}
		}
	}
	if r.Intn(2) == 0 {
		add(0, 3, 0, 1, "Unicode Family")
		add(0, 3, 0, 2, "Black")
		add(0, 4, 0, 16, "Unicode Family 2")
	}
	for i := r.Intn(6); i > 0; i-- {
		add(3, enc, lang, []int{0, 3, 4, 5, 6, 18, 19, 21, 22, 25, 256, 257, 272}[r.Intn(13)], []string{"Version 1.0", "Wrong", "Bold", "Light Italic"}[r.Intn(4)])
	}
	b := synth.EncodeName(r, recs, langs)
	if r.Intn(3) == 0 { // records in another order
		rs := b[6 : 6+12*len(recs)]
		r.Shuffle(len(recs), func(i, j int) {
			var t [12]byte
			copy(t[:], rs[12*i:])
			copy(rs[12*i:12*i+12], rs[12*j:12*j+12])
			copy(rs[12*j:12*j+12], t[:])
		})
	}
	return b
}

// fontWithName makes a font file around a name table.
func fontWithName(c *core.Case, name []byte) []byte {
	r := c.R
	if r.Intn(6) == 0 {
		f := randFont(c, synth.Opt{MaxN: 6})
		f.Tables["name"] = name
		return synth.Assemble(r, f.Version, f.Tables)
	}
	ts := map[string][]byte{"name": name}
	for i := r.Intn(8); i > 0; i-- {
		b := make([]byte, r.Intn(300))
		r.Read(b)
		ts[[]string{"OS/2", "cmap", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "post", "zzzz", "name2"[:4], "NAME"}[r.Intn(12)]] = b
	}
	ts["name"] = name
	return synth.Assemble(r, []string{"\x00\x01\x00\x00", "OTTO", "true"}[r.Intn(3)], ts)
}

type fkey struct {
	family string
	style  font.Style
}

func runC24(c *core.Case) {
	dir := filepath.Join(c.Dir, fmt.Sprintf("c24-%d", c.Idx))
	if err := os.Mkdir(dir, 0o755); err != nil {
		c.HarnessError("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	styleNames(c)
	var s *font.SystemFonts
	if c.Idx%2 == 0 {
		if s = scan(c, dir); s == nil || c.Failed() {
			return
		}
	}
	indexHistory(c, dir, s)
}

// styleNames compares the parsing of a style with what it was written from.
func styleNames(c *core.Case) {
	r := c.R
	st, txt := randStyle(r)
	if r.Intn(4) == 0 {
		txt = " " + txt + " "
	}
	if got := font.ParseStyle(txt); got != st {
		c.Fail("ParseStyle", "ParseStyle(%q) = %d (%v), not %d (%v)", txt, got, got, st, st)
	}
	w := st &^ font.Italic
	if st.Weight() != w || st.Italic() != (st != w) {
		c.Fail("Style", "style %d has weight %d, italic %v", st, st.Weight(), st.Italic())
	}
	if got := font.ParseStyle(st.String()); got != st {
		c.Fail("Style.String", "style %d is %q, which is parsed as %d", st, st.String(), got)
	}
	css := r.Intn(1200) - 100
	if r.Intn(3) == 0 {
		css = 100 * (1 + r.Intn(9))
	}
	it := r.Intn(2) == 0
	near := func(x int) font.Style {
		if x < 1 {
			x = 1
		} else if x > 9 {
			x = 9
		}
		s := weights[x-1]
		if it {
			s |= font.Italic
		}
		return s
	}
	a, b := near((css+10049)/100-100), near((css+10050)/100-100)
	if got := font.ParseStyleCSS(css, it); got != a && got != b {
		c.Fail("ParseStyleCSS", "ParseStyleCSS(%d, %v) = %v, not %v", css, it, got, b)
	}
	c.Count("styles", 1)
}

// scan makes a tree of directories and compares what is found with what is there.
func scan(c *core.Case, root string) *font.SystemFonts {
	r := c.R
	var all []string // directories
	names := []string{"truetype", "Open Type", "föntß", "dir.ttf", ".hidden", "a", "b", "字体"}
	mk := func(p string) string {
		if err := os.MkdirAll(p, 0o755); err != nil {
			c.HarnessError("%v", err)
		}
		all = append(all, p)
		return p
	}
	mk(filepath.Join(root, "fonts"))
	for i := r.Intn(6); i > 0; i-- {
		mk(filepath.Join(all[r.Intn(len(all))], names[r.Intn(len(names))]))
	}
	second := mk(filepath.Join(root, "more"))
	if r.Intn(2) == 0 {
		mk(filepath.Join(second, names[r.Intn(len(names))]))
	}
	odd := ""
	if r.Intn(3) == 0 { // not a name that io/fs accepts
		odd = filepath.Join(all[r.Intn(len(all))], "a\xffb")
		if os.Mkdir(odd, 0o755) != nil {
			odd = ""
		} else {
			c.Count("unusual directories", 1)
		}
	}
	want := map[fkey]map[string]bool{}
	maybe := map[string]bool{} // families of files that may or may not be found
	under := map[string][]string{}
	n := 0
	put := func(d, ext string, b []byte) string {
		n++
		p := filepath.Join(d, []string{"font", "Fönt ", "x.y", ".dot"}[r.Intn(4)]+fmt.Sprint(n)+ext)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			c.HarnessError("%v", err)
		}
		under[d] = append(under[d], p)
		return p
	}
	ext := func() string { return []string{".ttf", ".otf", ".ttf", ".otf", ".TTF", ".Otf"}[r.Intn(6)] }
	type entry struct {
		k    fkey
		path string
	}
	var good []entry
	for i := 1 + r.Intn(10); i > 0; i-- {
		st, txt := randStyle(r)
		fam := familyTexts[r.Intn(len(familyTexts))]
		b := fontWithName(c, fontName(c, fam, txt))
		d := all[r.Intn(len(all))]
		if odd != "" && r.Intn(6) == 0 {
			put(odd, ext(), fontWithName(c, fontName(c, fmt.Sprintf("Odd %d", i), txt)))
			maybe[fmt.Sprintf("Odd %d", i)] = true
		}
		p := put(d, ext(), b)
		c.FP(b)
		good = append(good, entry{fkey{fam, st}, p})
	}
	// files that are not fonts or not readable
	for i := r.Intn(6); i > 0; i-- {
		d := all[r.Intn(len(all))]
		fam := fmt.Sprintf("Bad %d", i)
		_, txt := randStyle(r)
		name := fontName(c, fam, txt)
		b := fontWithName(c, name)
		c.Count("malformed files", 1)
		switch r.Intn(12) {
		case 0:
			b = nil
		case 1:
			b = []byte("this is not a font\n")
		case 2:
			b = make([]byte, r.Intn(4000))
			r.Read(b)
		case 3: // cut off within the directory or the name data
			at := bytes.Index(b, name)
			b = b[:r.Intn(at+6+12)]
		case 4: // cut off anywhere
			b = b[:r.Intn(len(b))]
			maybe[fam] = true
		case 5: // no name table
			b = synth.Assemble(r, "OTTO", map[string][]byte{"head": make([]byte, 54), "zzzz": name})
		case 6: // too many names
			at := bytes.Index(b, name)
			b[at+2], b[at+3] = 0xFF, 0xFF
			b = b[:at+len(name)]
		case 7: // text beyond the end
			at := bytes.Index(b, name)
			b = b[:at+len(name)]
			b[at+4], b[at+5] = 0xFF, 0xFF
		case 8:
			b = fontWithName(c, synth.EncodeName(r, nil, nil))
		case 9:
			b = fontWithName(c, fontName(c, fam, "Fancy Swash"))
			maybe[fam] = true
		case 10:
			b = append([]byte("ttcf\x00\x01\x00\x00\x00\x00\x00\x01\x00\x00\x00\x10"), b...)
			maybe[fam] = true
		case 11:
			n++
			p := filepath.Join(d, fmt.Sprintf("odd%d.ttf", n))
			switch r.Intn(4) {
			case 0:
				os.Symlink("/nonexistent/file.ttf", p)
			case 1:
				os.Symlink(p, p)
			case 2:
				os.Symlink(d, p)
			default:
				syscall.Mkfifo(p, 0o644)
			}
			continue
		}
		put(d, ext(), b)
	}
	for i := r.Intn(3); i > 0; i-- {
		fam := fmt.Sprintf("Other %d", i)
		put(all[r.Intn(len(all))], []string{".txt", ".ttf.bak", "", ".woff", ".pfb", ".ttc"}[r.Intn(6)], fontWithName(c, fontName(c, fam, "Bold")))
		maybe[fam] = true
	}
	// the directories to scan
	var dirs []string
	scanned := map[string]bool{}
	for _, d := range []string{filepath.Join(root, "fonts"), second} {
		if r.Intn(4) > 0 {
			dirs = append(dirs, d)
			scanned[d] = true
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		d := all[r.Intn(len(all))]
		scanned[d] = true
		if r.Intn(3) == 0 {
			d += "/"
		} else if r.Intn(6) == 0 {
			d = filepath.Dir(d) + "/./" + filepath.Base(d)
		}
		dirs = append(dirs, d)
	}
	file := put(all[0], ".txt", []byte("x"))
	for i := r.Intn(3); i > 0; i-- {
		c.Count("unusual directories", 1)
		dirs = append(dirs, []string{filepath.Join(root, "missing"), file, file + "/sub", filepath.Join(root, strings.Repeat("x", 300)), "", root + "\x00"}[r.Intn(6)])
	}
	r.Shuffle(len(dirs), func(i, j int) { dirs[i], dirs[j] = dirs[j], dirs[i] })
	for _, g := range good {
		for d := range scanned {
			if strings.HasPrefix(g.path, d+"/") {
				if want[g.k] == nil {
					want[g.k] = map[string]bool{}
				}
				want[g.k][g.path] = true
			}
		}
	}
	dirs0 := append([]string{}, dirs...)
	var s *font.SystemFonts
	var err error
	if !c.Try("FindSystemFonts", func() { s, err = font.FindSystemFonts(dirs) }) {
		return nil
	}
	if err != nil {
		c.Fail("scan fails", "FindSystemFonts(%q) fails: %v", dirs, err)
		return nil
	}
	if fmt.Sprintf("%q", dirs) != fmt.Sprintf("%q", dirs0) {
		c.Fail("dirs changed", "FindSystemFonts changed its argument")
	}
	c.Count("scans", 1)
	for k, ps := range want {
		got, ok := s.Fonts[k.family][k.style]
		if !ok {
			var p string
			for p = range ps {
			}
			if b, err := os.ReadFile(p); err == nil {
				c.Attach("font.bin", b)
			}
			c.Fail("not found", "the font %s of family %q and style %v is not found in %q: %v", p, k.family, k.style, dirs, s.Fonts)
			return nil
		}
		if got.Family != k.family || got.Style != k.style || !ps[filepath.Clean(got.Filename)] {
			c.Fail("wrong data", "found %+v for family %q and style %v, which is in %v", got, k.family, k.style, ps)
		}
		c.Count("fonts found", 1)
	}
	for fam, m := range s.Fonts {
		for st, md := range m {
			if want[fkey{fam, st}] == nil && !maybe[fam] {
				b, _ := os.ReadFile(md.Filename)
				c.Attach("font.bin", b)
				c.Fail("unexpected", "found %+v as %q %v, which no font states; want %v", md, fam, st, want)
				return nil
			}
		}
	}
	if !reflect.DeepEqual(s.Generics, font.DefaultGenericFonts()) {
		c.Fail("generics", "the scanned index has generic fonts %v", s.Generics)
	}
	if r.Intn(8) == 0 {
		defaultDirs(c, root, want)
	}
	return s
}

// defaultDirs checks that fonts in the directories named by the environment are looked for.
func defaultDirs(c *core.Case, root string, want map[fkey]map[string]bool) {
	r := c.R
	base := filepath.Join(root, "env")
	old := map[string]string{}
	set := func(k, v string) { old[k] = os.Getenv(k); os.Setenv(k, v) }
	defer func() {
		for k, v := range old {
			os.Setenv(k, v)
		}
	}()
	home, dataHome := filepath.Join(base, "home"), filepath.Join(base, "data")
	dirs := []string{filepath.Join(home, ".fonts"), filepath.Join(home, ".local/share/fonts"), filepath.Join(dataHome, "fonts")}
	var list []string
	for i := r.Intn(4); i > 0; i-- {
		d := filepath.Join(base, fmt.Sprintf("share %d", i))
		list = append(list, d)
		dirs = append(dirs, filepath.Join(d, "fonts"))
		if r.Intn(4) == 0 {
			list = append(list, "")
		}
	}
	set("HOME", home)
	set("XDG_DATA_HOME", dataHome)
	set("XDG_DATA_DIRS", strings.Join(list, ":"))
	got := font.DefaultFontDirs()
	var scratch []string
	for _, d := range got {
		if !filepath.IsAbs(d) {
			c.Fail("default directories", "DefaultFontDirs() = %q with HOME=%s XDG_DATA_HOME=%s XDG_DATA_DIRS=%s: %q depends on the current directory", got, home, dataHome, strings.Join(list, ":"), d)
			return
		}
		if strings.HasPrefix(d, base) {
			scratch = append(scratch, d)
		}
	}
	expect := map[string]bool{}
	for i, d := range dirs {
		os.MkdirAll(d, 0o755)
		fam := fmt.Sprintf("Home %d", i)
		expect[fam] = true
		os.WriteFile(filepath.Join(d, "f.ttf"), fontWithName(c, fontName(c, fam, "Regular")), 0o644)
	}
	s, err := font.FindSystemFonts(scratch)
	if err != nil {
		c.Fail("scan fails", "FindSystemFonts(%q) fails: %v", scratch, err)
		return
	}
	for fam := range expect {
		if _, ok := s.Fonts[fam]; !ok {
			c.Fail("default directories", "DefaultFontDirs() = %q with HOME=%s XDG_DATA_HOME=%s XDG_DATA_DIRS=%s, not all of %q", got, home, dataHome, strings.Join(list, ":"), dirs)
			return
		}
	}
	c.Count("default directories", len(dirs))
}

// index is the model of an index.
type index struct {
	generics map[string][]string
	fonts    map[fkey]font.FontMetadata
}

func (x *index) match(name string, st font.Style) (font.FontMetadata, bool, string) {
	var list []string
	kind := "plain"
	for _, f := range strings.Split(name, ",") {
		f = strings.TrimSpace(f)
		if g, ok := x.generics[f]; ok {
			list = append(list, g...)
			kind = "generic"
		} else {
			list = append(list, f)
		}
	}
	fam, found := "", false
	for _, f := range list {
		for k := range x.fonts {
			if k.family == f {
				fam, found = f, true
			}
		}
		if found {
			break
		}
	}
	if !found {
		return font.FontMetadata{}, false, kind
	}
	w, slant := int(st&0xFF), st&font.Italic
	best, cost := font.FontMetadata{}, 1000
	for i, cand := range weights {
		md, ok := x.fonts[fkey{fam, cand | slant}]
		if !ok {
			continue
		}
		at := 0
		for j, v := range weights {
			if int(v) == w {
				at = j
			}
		}
		// the order of CSS: Regular and Medium stand in for each other, light weights prefer lighter ones
		// and heavy weights prefer heavier ones
		d := i - at
		k := d
		switch {
		case d == 0:
			k = 0
		case at == 3 && i == 4 || at == 4 && i == 3:
			k = 1
		case at <= 4 && d < 0, at > 4 && d > 0:
			k = 10
			if d < 0 {
				k -= d
			} else {
				k += d
			}
		case d < 0:
			k = 100 - d
		default:
			k = 100 + d
		}
		if k < cost {
			best, cost = md, k
		}
	}
	if cost > 0 && cost < 1000 && kind == "plain" {
		kind = "nearest"
	}
	return best, cost < 1000, kind
}

func (x *index) equal(s *font.SystemFonts) error {
	n := 0
	for fam, m := range s.Fonts {
		for st, md := range m {
			n++
			if w, ok := x.fonts[fkey{fam, st}]; !ok || w != md {
				return fmt.Errorf("has %+v for %q %v, not %+v", md, fam, st, w)
			}
		}
	}
	if n != len(x.fonts) {
		return fmt.Errorf("has %d fonts, not %d", n, len(x.fonts))
	}
	if len(s.Generics) != len(x.generics) {
		return fmt.Errorf("has %d generic families, not %d", len(s.Generics), len(x.generics))
	}
	for k, v := range x.generics {
		if fmt.Sprintf("%q", s.Generics[k]) != fmt.Sprintf("%q", v) {
			return fmt.Errorf("has generic family %q: %q, not %q", k, s.Generics[k], v)
		}
	}
	return nil
}

func indexHistory(c *core.Case, dir string, s *font.SystemFonts) {
	r := c.R
	x := &index{generics: map[string][]string{}, fonts: map[fkey]font.FontMetadata{}}
	var pool []string
	if s == nil {
		s = &font.SystemFonts{Fonts: map[string]map[font.Style]font.FontMetadata{}, Generics: map[string][]string{}}
		// generic families that are parts of one list
		list := append([]string{}, familyTexts...)
		r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		for i, at := 0, 0; i < r.Intn(5) && at < len(list); i++ {
			k := r.Intn(4)
			if at+k > len(list) {
				k = len(list) - at
			}
			g := []string{"serif", "sans-serif", "monospace", "my font", "cursive"}[i]
			s.Generics[g] = list[at : at+k]
			at += k
			if r.Intn(4) == 0 { // a family of the same name is one of them
				l := append([]string{}, s.Generics[g]...)
				l = append(l, g)
				j := r.Intn(len(l))
				l[j], l[len(l)-1] = l[len(l)-1], l[j]
				s.Generics[g] = l
			}
		}
	} else {
		for fam, m := range s.Fonts {
			for st, md := range m {
				x.fonts[fkey{fam, st}] = md
			}
			pool = append(pool, fam)
		}
		sort.Strings(pool)
	}
	for k, v := range s.Generics {
		x.generics[k] = append([]string{}, v...)
	}
	var gens []string
	for k := range x.generics {
		gens = append(gens, k)
	}
	sort.Strings(gens)
	var log []string
	type ask struct {
		name string
		st   font.Style
	}
	var asked []ask
	for step := 0; step < 40 && !c.Failed(); step++ {
		switch op := r.Intn(12); {
		case op < 3:
			st, _ := randStyle(r)
			md := font.FontMetadata{Filename: fmt.Sprintf("/f/%d.ttf", step), Family: familyTexts[r.Intn(len(familyTexts))], Style: st}
			if len(gens) > 0 && r.Intn(6) == 0 {
				md.Family = gens[r.Intn(len(gens))]
			}
			log = append(log, fmt.Sprintf("Add(%q, %v)", md.Family, md.Style))
			c.Try("Add", func() { s.Add(md) })
			x.fonts[fkey{md.Family, md.Style}] = md
			pool = append(pool, md.Family)
			asked = nil
		case op < 10:
			a := ask{}
			if len(asked) > 0 && r.Intn(4) == 0 {
				a = asked[r.Intn(len(asked))]
			} else {
				var l []string
				for i := r.Intn(4); i >= 0; i-- {
					f := []string{"Missing", "", "missing sans", "serif "}[r.Intn(4)]
					switch k := r.Intn(5); {
					case k < 2 && len(pool) > 0:
						f = pool[r.Intn(len(pool))]
					case k == 2 && len(gens) > 0:
						f = gens[r.Intn(len(gens))]
					case k == 3:
						f = familyTexts[r.Intn(len(familyTexts))]
					}
					l = append(l, []string{"", " ", "\t"}[r.Intn(3)]+f+[]string{"", " "}[r.Intn(2)])
				}
				a.name = strings.Join(l, ",")
				a.st, _ = randStyle(r)
			}
			asked = append(asked, a)
			log = append(log, fmt.Sprintf("Match(%q, %v)", a.name, a.st))
			want, ok, kind := x.match(a.name, a.st)
			var got font.FontMetadata
			var gok bool
			if !c.Try("Match", func() { got, gok = s.Match(a.name, a.st) }) {
				return
			}
			if got != want || gok != ok {
				c.Fail("Match:"+kind, "after %v: found %+v %v, want %+v %v; generics %q, fonts %v", log, got, gok, want, ok, x.generics, x.fonts)
				return
			}
			if ok {
				c.Count("lookups found", 1)
			} else {
				c.Count("lookups not found", 1)
			}
			c.Count(map[string]string{"generic": "generic lookups", "nearest": "nearest weights", "plain": "exact lookups"}[kind], 1)
		case op == 10:
			_ = s.String()
		default:
			log = append(log, "Save, Load")
			p := filepath.Join(dir, "index")
			if r.Intn(4) == 0 {
				os.WriteFile(p, bytes.Repeat([]byte("junk"), 5000), 0o644)
			}
			if err := s.Save(p); err != nil {
				c.Fail("Save", "saving fails after %v: %v", log, err)
				return
			}
			t, err := font.LoadSystemFonts(p)
			if err != nil {
				c.Fail("Load", "loading fails after %v: %v", log, err)
				return
			}
			if err := x.equal(t); err != nil {
				c.Fail("saved index", "after %v the loaded index %v", log, err)
				return
			}
			if b, err := os.ReadFile(p); err == nil && len(b) > 0 {
				cut := r.Intn(len(b))
				os.WriteFile(p, b[:cut], 0o644)
				if _, err := font.LoadSystemFonts(p); err == nil {
					c.Fail("truncated index", "an index cut off at byte %d of %d is loaded", cut, len(b))
				}
				c.Count("truncated indexes", 1)
			}
			if err := s.Save(filepath.Join(dir, "no such dir", "index")); err == nil {
				c.Fail("Save error", "saving in a missing directory succeeds")
			}
			if _, err := font.LoadSystemFonts(filepath.Join(dir, "missing")); err == nil {
				c.Fail("Load error", "loading a missing file succeeds")
			}
			c.Count("saved and loaded", 1)
			if r.Intn(2) == 0 {
				s = t
			}
		}
		if err := x.equal(s); err != nil {
			c.Fail("index changed", "after %v the index %v", log, err)
		}
	}
	c.FP(fmt.Sprint(log))
	c.Sample("%v", log)
}
