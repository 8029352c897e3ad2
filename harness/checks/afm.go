package checks

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/tdewolff/font"

	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Check{ID: "C23", Cases: byTier(12000, 200000), Run: runC23, Require: []string{"files", "real files", "glyphs", "kerning pairs", "ligatures", "negative numbers", "fractional numbers", "damages rejected", "truncations rejected", "names without code point"},
		Rule: "AFM files are written from a random model with every choice of the format (order, comments, white space, line endings, key variants, directions, numbers); each answer of the parsed file is compared with the model; the AFM files of the repository are compared with an independent reading of their lines; damaged files must give an error; distinct cases are distinct files"})
}

// afmGlyph is a line of the character metrics.
type afmGlyph struct {
	name  string
	code  int
	width float64
	box   [4]float64
	ligs  [][2]string
}

type afmModel struct {
	text   map[string]string
	num    map[string]float64
	box    [4]float64
	fixed  bool
	cw     [2]float64
	glyphs []afmGlyph
	kern   map[[2]string]float64
	order  [][2]string
}

func round1(v float64, got float64) bool { return math.Abs(v-got) <= 0.5 }

func monAFM(c *core.Case, what string, m *afmModel, f *font.AFM) {
	bad := func(key, s string, a ...any) { c.Fail(key, "%s: %s", what, fmt.Sprintf(s, a...)) }
	agl, _ := ref.AGL()
	for k, got := range map[string]string{"FontName": f.FontName, "FullName": f.FullName, "FamilyName": f.FamilyName, "Weight": f.Weight} {
		if got != m.text[k] {
			bad(k, "%s = %q, the file has %q", k, got, m.text[k])
		}
	}
	for k, got := range map[string]float64{"CapHeight": float64(f.CapHeight), "XHeight": float64(f.XHeight), "Ascender": float64(f.Ascender), "Descender": float64(f.Descender), "UnderlinePosition": float64(f.UnderlinePosition), "UnderlineThickness": float64(f.UnderlineThickness)} {
		if !round1(m.num[k], got) {
			bad(k, "%s = %v, the file has %v", k, got, m.num[k])
		}
		c.Count("fields", 1)
		if m.num[k] < 0 {
			c.Count("negative numbers", 1)
		}
		if m.num[k] != math.Floor(m.num[k]) {
			c.Count("fractional numbers", 1)
		}
	}
	if f.ItalicAngle != m.num["ItalicAngle"] {
		bad("ItalicAngle", "ItalicAngle = %v, the file has %v", f.ItalicAngle, m.num["ItalicAngle"])
	}
	for i := range m.box {
		if !round1(m.box[i], float64(f.FontBBox[i])) {
			bad("FontBBox", "FontBBox = %v, the file has %v", f.FontBBox, m.box)
		}
	}
	if f.IsFixedPitch != m.fixed {
		bad("IsFixedPitch", "IsFixedPitch = %v", f.IsFixedPitch)
	}
	for i := range m.cw {
		if !round1(m.cw[i], float64(f.CharWidth[i])) {
			bad("CharWidth", "CharWidth = %v, the file has %v", f.CharWidth, m.cw)
		}
	}
	n := len(m.glyphs)
	if int(f.NumGlyphs()) != n || len(f.CharMetrics) != n {
		bad("NumGlyphs", "%d glyphs, the file has %d", f.NumGlyphs(), n)
		return
	}
	id := map[string]int{}
	byRune := map[rune][]int{}
	for i, g := range m.glyphs {
		id[g.name] = i
		if r, ok := agl[g.name]; ok {
			byRune[r] = append(byRune[r], i)
		} else {
			c.Count("names without code point", 1)
		}
	}
	ligs := 0
	for i, g := range m.glyphs {
		u := uint16(i)
		if f.GlyphName(u) != g.name || f.CharMetrics[i].Name != g.name {
			bad("GlyphName", "GlyphName(%d) = %q, the file has %q", i, f.GlyphName(u), g.name)
		}
		if int(f.FindGlyphName(g.name)) != i {
			bad("FindGlyphName", "FindGlyphName(%q) = %d, not %d", g.name, f.FindGlyphName(g.name), i)
		}
		if !round1(g.width, float64(f.GlyphAdvance(u))) || !round1(g.width, float64(f.CharMetrics[i].Width)) {
			bad("GlyphAdvance", "GlyphAdvance(%d) = %d, the file has %v", i, f.GlyphAdvance(u), g.width)
		}
		x0, y0, x1, y1 := f.GlyphBounds(u)
		for k, v := range []int16{x0, y0, x1, y1} {
			if !round1(g.box[k], float64(v)) {
				bad("GlyphBounds", "GlyphBounds(%d) = %d %d %d %d, the file has %v", i, x0, y0, x1, y1, g.box)
			}
			if g.box[k] < 0 {
				c.Count("negative numbers", 1)
			}
		}
		if f.CharMetrics[i].CharacterCode != g.code {
			bad("CharacterCode", "the code of glyph %d is %d, the file has %d", i, f.CharMetrics[i].CharacterCode, g.code)
		}
		for _, l := range g.ligs {
			ligs++
			if got, ok := f.Ligatures[[2]uint16{u, uint16(id[l[0]])}]; !ok || int(got) != id[l[1]] {
				bad("Ligatures", "the ligature of %q and %q is %d, not %q", g.name, l[0], got, l[1])
			}
		}
	}
	if len(f.Ligatures) != ligs {
		bad("Ligatures", "%d ligatures, the file has %d", len(f.Ligatures), ligs)
	}
	for r, is := range byRune {
		got, ok := int(f.GlyphIndex(r)), false
		for _, i := range is {
			ok = ok || i == got
		}
		if !ok {
			bad("GlyphIndex", "GlyphIndex(%x) = %d, not one of %v", r, got, is)
		}
	}
	for k := 0; k < 300; k++ {
		r := rune(c.R.Intn(0x3000))
		if k < 20 {
			r = rune(c.R.Intn(0x110000))
		}
		if byRune[r] == nil && f.GlyphIndex(r) != 0 {
			bad("GlyphIndex", "GlyphIndex(%x) = %d although no name stands for it", r, f.GlyphIndex(r))
		}
	}
	for p, v := range m.kern {
		if got := f.Kerning(uint16(id[p[0]]), uint16(id[p[1]])); !round1(v, float64(got)) {
			bad("Kerning", "Kerning(%q, %q) = %d, the file has %v", p[0], p[1], got, v)
		}
	}
	if len(f.KernPairs) != len(m.kern) {
		bad("KernPairs", "%d kerning pairs, the file has %d", len(f.KernPairs), len(m.kern))
	}
	for k := 0; k < 100 && n > 0; k++ {
		a, b := c.R.Intn(n), c.R.Intn(n)
		v := m.kern[[2]string{m.glyphs[a].name, m.glyphs[b].name}]
		if got := f.Kerning(uint16(a), uint16(b)); !round1(v, float64(got)) {
			bad("Kerning", "Kerning(%d, %d) = %d, the file has %v", a, b, got, v)
		}
	}
	for _, g := range []int{n, n + 1, 0xFFFF} {
		u := uint16(g)
		x0, y0, x1, y1 := f.GlyphBounds(u)
		if g < 0x10000 && g >= n && (f.GlyphName(u) != "" || f.GlyphAdvance(u) != 0 || x0 != 0 || y0 != 0 || x1 != 0 || y1 != 0) {
			bad("no glyph", "glyph %d does not exist but has name %q, advance %d or bounds", g, f.GlyphName(u), f.GlyphAdvance(u))
		}
	}
	if g := f.FindGlyphName("no such name"); g != 0 {
		bad("FindGlyphName", "FindGlyphName of an absent name is %d", g)
	}
	c.Count("glyphs", n)
	c.Count("kerning pairs", len(m.kern))
	c.Count("ligatures", ligs)
}

func afmNumber(r *rand.Rand, lo, hi float64) float64 {
	v := lo + r.Float64()*(hi-lo)
	switch r.Intn(6) {
	case 0:
		v = lo + r.Float64()*(hi-lo)/100
	case 1:
		v = 0
	case 2:
		v = []float64{lo, hi}[r.Intn(2)]
	}
	switch r.Intn(3) {
	case 0:
		v = math.Round(v*100) / 100
	default:
		v = math.Round(v)
	}
	return min(max(v, lo), hi)
}

func afmText(r *rand.Rand, v float64) string {
	s := strconv.FormatFloat(v, 'f', -1, 64)
	switch r.Intn(12) {
	case 0:
		if !strings.Contains(s, ".") {
			s += []string{".", ".0", ".000"}[r.Intn(3)]
		}
	case 1:
		if strings.HasPrefix(s, "0.") {
			s = s[1:]
		} else if strings.HasPrefix(s, "-0.") {
			s = "-" + s[2:]
		}
	case 2:
		if !strings.HasPrefix(s, "-") {
			s = "0" + s
		}
	}
	return s
}

func randAFM(r *rand.Rand) *afmModel {
	agl, names := ref.AGL()
	m := &afmModel{text: map[string]string{}, num: map[string]float64{}, kern: map[[2]string]float64{}}
	words := []string{"Times", "Helvetica", "Bold", "x", "Sans-Serif", "3", "StartKernData", ";", "é", "Ünicode"}
	for _, k := range []string{"FontName", "FullName", "FamilyName", "Weight"} {
		n := 1 + r.Intn(3)
		if k == "FontName" {
			n = 1
		}
		var ws []string
		for ; n > 0; n-- {
			ws = append(ws, words[r.Intn(len(words))])
		}
		m.text[k] = strings.Join(ws, " ")
	}
	for _, k := range []string{"CapHeight", "XHeight", "UnderlineThickness"} {
		m.num[k] = afmNumber(r, 0, 2000)
	}
	for _, k := range []string{"Ascender", "Descender", "UnderlinePosition"} {
		m.num[k] = afmNumber(r, -1200, 1200)
	}
	m.num["ItalicAngle"] = afmNumber(r, -45, 45)
	for i := range m.box {
		m.box[i] = afmNumber(r, -3000, 3000)
	}
	m.fixed = r.Intn(3) == 0
	if m.fixed && r.Intn(2) == 0 {
		m.cw = [2]float64{afmNumber(r, 1, 1000), afmNumber(r, 0, 1000)}
	}
	n := r.Intn(60)
	if r.Intn(10) == 0 {
		n = r.Intn(400)
	}
	used := map[string]bool{}
	if n > 0 && r.Intn(3) == 0 {
		m.glyphs = append(m.glyphs, afmGlyph{name: ".notdef"})
		used[".notdef"] = true
	}
	for len(m.glyphs) < n {
		name := names[r.Intn(len(names))]
		if r.Intn(2) == 0 {
			name = string(rune('A' + r.Intn(26) + 32*r.Intn(2)))
		}
		switch r.Intn(20) {
		case 0:
			name = fmt.Sprintf("g%d", r.Intn(1000))
		case 1:
			name += ".alt"
		case 2:
			name = fmt.Sprintf("a%d", r.Intn(207))
		}
		if used[name] {
			continue
		}
		used[name] = true
		m.glyphs = append(m.glyphs, afmGlyph{name: name})
	}
	_ = agl
	for i := range m.glyphs {
		g := &m.glyphs[i]
		g.code = -1
		if r.Intn(2) == 0 {
			g.code = r.Intn(256)
		}
		g.width = afmNumber(r, 0, 2000)
		if r.Intn(50) == 0 {
			g.width = afmNumber(r, 0, 65535)
		}
		for k := range g.box {
			g.box[k] = afmNumber(r, -2000, 2000)
			if r.Intn(100) == 0 {
				g.box[k] = afmNumber(r, -32768, 32767)
			}
		}
		seen := map[string]bool{}
		for k := r.Intn(8) - 5; k > 0; k-- {
			s := m.glyphs[r.Intn(n)].name
			if !seen[s] {
				seen[s] = true
				g.ligs = append(g.ligs, [2]string{s, m.glyphs[r.Intn(n)].name})
			}
		}
	}
	if n > 0 && r.Intn(4) > 0 {
		for k := r.Intn(60); k > 0; k-- {
			p := [2]string{m.glyphs[r.Intn(n)].name, m.glyphs[r.Intn(n)].name}
			if _, ok := m.kern[p]; ok {
				continue
			}
			m.kern[p] = afmNumber(r, -300, 300)
			m.order = append(m.order, p)
		}
	}
	return m
}

// write makes the lines of the file.
func (m *afmModel) write(r *rand.Rand) []string {
	var out []string
	noise := func() {
		switch r.Intn(30) {
		case 0:
			out = append(out, "")
		case 1:
			out = append(out, "Comment StartCharMetrics 7 ; WX 3")
		case 2:
			out = append(out, "Comment")
		}
	}
	sp := func() string { return []string{" ", " ", " ", "  ", "\t", " \t "}[r.Intn(6)] }
	end := func() string { return []string{"", "", "", " ", "\t"}[r.Intn(5)] }
	add := func(ws ...string) {
		noise()
		s := ws[0]
		for _, w := range ws[1:] {
			s += sp() + w
		}
		out = append(out, s+end())
	}
	out = append(out, "StartFontMetrics "+[]string{"4.1", "2.0", "3.0", "4.0"}[r.Intn(4)])
	nums := func(v ...float64) (s []string) {
		for _, x := range v {
			s = append(s, afmText(r, x))
		}
		return
	}
	var head [][]string
	for _, k := range []string{"FontName", "FullName", "FamilyName", "Weight"} {
		head = append(head, []string{k, m.text[k]})
	}
	for _, k := range []string{"CapHeight", "XHeight", "Ascender", "Descender"} {
		if m.num[k] != 0 || r.Intn(2) == 0 {
			head = append(head, append([]string{k}, nums(m.num[k])...))
		}
	}
	head = append(head, append([]string{"FontBBox"}, nums(m.box[:]...)...))
	head = append(head, []string{"Notice", "Copyright ; EndFontMetrics"}, []string{"EncodingScheme", "FontSpecific"}, []string{"StdHW", "84"}, []string{"Version", "003.000"}, []string{"CharacterSet", "ExtendedRoman"}, []string{"Characters", strconv.Itoa(len(m.glyphs))}, []string{"IsBaseFont", "true"})
	r.Shuffle(len(head), func(i, j int) { head[i], head[j] = head[j], head[i] })
	var dir [][]string
	for _, k := range []string{"UnderlinePosition", "UnderlineThickness", "ItalicAngle"} {
		dir = append(dir, append([]string{k}, nums(m.num[k])...))
	}
	if m.fixed || r.Intn(2) == 0 {
		dir = append(dir, []string{"IsFixedPitch", strconv.FormatBool(m.fixed)})
	}
	hasCW := m.cw != [2]float64{}
	if hasCW {
		dir = append(dir, append([]string{"CharWidth"}, nums(m.cw[:]...)...))
	}
	r.Shuffle(len(dir), func(i, j int) { dir[i], dir[j] = dir[j], dir[i] })
	for _, h := range head {
		add(h...)
	}
	switch r.Intn(4) {
	case 0:
		add("MetricsSets", "2")
		one := func() {
			add("StartDirection", "1")
			add("UnderlinePosition", "-77")
			add("UnderlineThickness", "77")
			add("ItalicAngle", "7")
			add("CharWidth", "0", "777")
			add("IsFixedPitch", strconv.FormatBool(!m.fixed))
			add("EndDirection")
		}
		first := r.Intn(2) == 0
		if first {
			one()
		}
		add("StartDirection", []string{"0", "2"}[r.Intn(2)])
		for _, h := range dir {
			add(h...)
		}
		add("EndDirection")
		if !first {
			one()
		}
	default:
		for _, h := range dir {
			add(h...)
		}
	}
	add("StartCharMetrics", strconv.Itoa(len(m.glyphs)))
	for i := range m.glyphs {
		g := &m.glyphs[i]
		noise()
		var parts []string
		if r.Intn(6) == 0 && g.code >= 0 {
			parts = append(parts, fmt.Sprintf([]string{"CH%s<%02X>", "CH%s<%02x>", "CH%s<%X>", "CH%s<%x>", "CH%s<%04X>"}[r.Intn(5)], sp(), g.code))
		} else {
			parts = append(parts, "C"+sp()+strconv.Itoa(g.code))
		}
		w := afmText(r, g.width)
		var opt []string
		switch r.Intn(8) {
		case 0:
			opt = append(opt, "W0X"+sp()+w)
		case 1:
			opt = append(opt, "W"+sp()+w+sp()+afmText(r, afmNumber(r, -100, 100)))
		case 2:
			opt = append(opt, "W0"+sp()+w+sp()+"0")
		case 3:
			if hasCW {
				g.width = m.cw[0]
				break
			}
			fallthrough
		default:
			opt = append(opt, "WX"+sp()+w)
		}
		if r.Intn(10) == 0 {
			opt = append(opt, []string{"WY 33", "W0Y 0", "W1X -3", "W1Y 1000", "W1 0 -1000", "VV 250 -880.5"}[r.Intn(6)])
		}
		opt = append(opt, "N"+sp()+g.name)
		if g.box != [4]float64{} || r.Intn(2) == 0 {
			opt = append(opt, "B"+sp()+strings.Join(nums(g.box[:]...), sp()))
		}
		for _, l := range g.ligs {
			opt = append(opt, "L"+sp()+l[0]+sp()+l[1])
		}
		if r.Intn(4) == 0 {
			r.Shuffle(len(opt), func(i, j int) { opt[i], opt[j] = opt[j], opt[i] })
		}
		parts = append(parts, opt...)
		s := ""
		for k, p := range parts {
			s += p
			if k < len(parts)-1 {
				s += sp() + ";" + sp()
			}
		}
		out = append(out, s+[]string{" ;", " ;", " ; ", "\t;", ""}[r.Intn(5)])
	}
	add("EndCharMetrics")
	if len(m.kern) > 0 || r.Intn(3) == 0 {
		add("StartKernData")
		if r.Intn(4) == 0 {
			add("StartTrackKern", "2")
			add("TrackKern", "-1", "14", "0", "72", "1.89")
			add("TrackKern", "-2", "8", "0", "72", "3.2")
			add("EndTrackKern")
		}
		vert := func() {
			if r.Intn(6) == 0 && len(m.glyphs) > 0 {
				n := 1 + r.Intn(4)
				add("StartKernPairs1", strconv.Itoa(n))
				for i := 0; i < n; i++ {
					a, b := m.glyphs[r.Intn(len(m.glyphs))].name, m.glyphs[r.Intn(len(m.glyphs))].name
					switch r.Intn(4) {
					case 0: // has no bearing on horizontal text
						add("KPX", a, b, "-998")
					case 1:
						add("KP", a, b, "-997", "-996")
					default:
						add("KPY", a, b, "-999")
					}
				}
				add("EndKernPairs")
			}
		}
		vert()
		kpy := 0
		if r.Intn(6) == 0 && len(m.glyphs) > 0 {
			kpy = 1
		}
		if len(m.order)+kpy > 0 || r.Intn(2) == 0 {
			add([]string{"StartKernPairs", "StartKernPairs0"}[r.Intn(2)], strconv.Itoa(len(m.order)+kpy))
			if kpy > 0 {
				add("KPY", m.glyphs[0].name, m.glyphs[0].name, "-999")
			}
			for _, p := range m.order {
				if r.Intn(10) == 0 {
					add("KP", p[0], p[1], afmText(r, m.kern[p]), "0")
				} else {
					add("KPX", p[0], p[1], afmText(r, m.kern[p]))
				}
			}
			add("EndKernPairs")
		}
		vert()
		add("EndKernData")
	}
	if r.Intn(5) == 0 {
		add("StartComposites", "1")
		add("CC Aacute 2 ; PCC A 0 0 ; PCC acute 194 214 ;")
		add("EndComposites")
	}
	add("EndFontMetrics")
	return out
}

// readAFM reads the lines of a well-formed file.
func readAFM(b []byte) *afmModel {
	m := &afmModel{text: map[string]string{}, num: map[string]float64{}, kern: map[[2]string]float64{}}
	f := func(s string) float64 { v, _ := strconv.ParseFloat(s, 64); return v }
	for _, l := range strings.Split(strings.ReplaceAll(string(b), "\r", "\n"), "\n") {
		w := strings.Fields(l)
		if len(w) == 0 {
			continue
		}
		switch w[0] {
		case "FontName", "FullName", "FamilyName", "Weight":
			m.text[w[0]] = strings.TrimSpace(l[len(w[0]):])
		case "CapHeight", "XHeight", "Ascender", "Descender", "UnderlinePosition", "UnderlineThickness", "ItalicAngle":
			m.num[w[0]] = f(w[1])
		case "FontBBox":
			for i := range m.box {
				m.box[i] = f(w[1+i])
			}
		case "IsFixedPitch":
			m.fixed = w[1] == "true"
		case "C":
			g := afmGlyph{}
			for _, p := range strings.Split(l, ";") {
				w := strings.Fields(p)
				if len(w) == 0 {
					continue
				}
				switch w[0] {
				case "C":
					g.code = int(f(w[1]))
				case "WX":
					g.width = f(w[1])
				case "N":
					g.name = w[1]
				case "B":
					for i := range g.box {
						g.box[i] = f(w[1+i])
					}
				case "L":
					g.ligs = append(g.ligs, [2]string{w[1], w[2]})
				}
			}
			m.glyphs = append(m.glyphs, g)
		case "KPX":
			m.kern[[2]string{w[1], w[2]}] = f(w[3])
		}
	}
	return m
}

func parseAFM(c *core.Case, b []byte) (f *font.AFM, err error, ok bool) {
	k := newCanary(b)
	ok = c.Try("ParseAFM", func() { f, err = font.ParseAFM(k.Bytes()) })
	if ok {
		if e := k.Check(); e != nil {
			c.Fail("input", "ParseAFM changed its input: %v", e)
		}
		if (err == nil) != (f != nil) {
			c.Fail("error with font", "ParseAFM returned font %v and error %v", f != nil, err)
		}
	}
	return
}

func runC23(c *core.Case) {
	var b []byte
	var m *afmModel
	what := "random AFM file"
	if paths, _ := filepath.Glob("/repo/resources/pdfcorefonts/*.afm"); c.Idx%40 == 39 && len(paths) > 0 {
		sort.Strings(paths)
		p := paths[c.Idx/40%len(paths)]
		b, _ = os.ReadFile(p)
		m = readAFM(b)
		what = filepath.Base(p)
		c.Count("real files", 1)
	} else {
		m = randAFM(c.R)
		lines := m.write(c.R)
		b = joinAFM(c.R, lines)
	}
	c.Attach("font.afm", b)
	c.FP(b)
	f, err, ok := parseAFM(c, b)
	if !ok {
		return
	}
	if err != nil {
		c.Fail("rejected:"+errKey(err), "%s is rejected: %v", what, err)
		return
	}
	c.Count("files", 1)
	monAFM(c, what, m, f)
	for k := 0; k < 6 && !c.Failed(); k++ {
		d, desc := damageAFM(c.R, b)
		if d == nil {
			continue
		}
		c.Attach("damaged.afm", d)
		_, err, ok := parseAFM(c, d)
		if !ok {
			return
		}
		if err == nil {
			c.Fail("accepted:"+desc, "%s: damaged file accepted: %s", what, desc)
			return
		}
		c.Count("damages rejected", 1)
		if desc == "truncated" {
			c.Count("truncations rejected", 1)
		}
	}
}

func joinAFM(r *rand.Rand, lines []string) []byte {
	nl := []string{"\n", "\n", "\r\n", "\r"}[r.Intn(4)]
	s := strings.Join(lines, nl)
	if r.Intn(4) > 0 {
		s += nl
	}
	return []byte(s)
}

// damageAFM makes a file that must not be accepted.
func damageAFM(r *rand.Rand, b []byte) ([]byte, string) {
	s := strings.ReplaceAll(strings.ReplaceAll(string(b), "\r\n", "\n"), "\r", "\n")
	lines := strings.Split(s, "\n")
	// lines by kind
	var chars, kerns, nums []int
	charsAt, kernAt := -1, -1
	vertical := false
	for i, l := range lines {
		w := strings.Fields(l)
		if len(w) == 0 {
			continue
		}
		switch w[0] {
		case "StartDirection":
			vertical = w[1] == "1"
		case "EndDirection":
			vertical = false
		case "C", "CH":
			chars = append(chars, i)
		case "KPX":
			if strings.Fields(lines[kernAt])[0] != "StartKernPairs1" {
				kerns = append(kerns, i)
			}
		case "StartCharMetrics":
			charsAt = i
		case "StartKernPairs", "StartKernPairs0", "StartKernPairs1":
			kernAt = i
		case "CapHeight", "XHeight", "Ascender", "Descender", "UnderlinePosition", "UnderlineThickness", "ItalicAngle", "FontBBox":
			if !vertical {
				nums = append(nums, i)
			}
		}
	}
	edit := func(i int, old, new string) bool {
		l := strings.Replace(lines[i], old, new, 1)
		if l == lines[i] {
			return false
		}
		lines[i] = l
		return true
	}
	token := func(i, k int, f func(string) string) bool {
		w := strings.Fields(lines[i])
		if k >= len(w) {
			return false
		}
		x := f(w[k])
		if x == w[k] {
			return false
		}
		w[k] = x
		lines[i] = strings.Join(w, " ")
		return true
	}
	join := func() []byte { return []byte(strings.Join(lines, "\n")) }
	badNum := func(string) string {
		return []string{"x", "--5", "1..2", "", "12a", "NaN", "Inf", "-", "99999", "-99999", "1e9", ";"}[r.Intn(12)]
	}
	switch r.Intn(12) {
	case 0, 1: // truncation, before the last line is complete
		i := strings.LastIndex(s, "EndFontMetrics")
		n := r.Intn(i + len("EndFontMetrics"))
		// a text of a comment may hold the word
		return []byte(s[:n]), "truncated"
	case 2:
		return []byte(s[1:]), "first line"
	case 3, 4:
		i, desc := charsAt, "number of char metrics"
		if r.Intn(2) == 0 {
			i, desc = kernAt, "number of kerning pairs"
		}
		if i < 0 {
			return nil, ""
		}
		if token(i, 1, func(s string) string {
			v, _ := strconv.Atoi(s)
			return []string{strconv.Itoa(v + 1), strconv.Itoa(v + 1 + r.Intn(100)), strconv.Itoa(max(0, v-1)), "-1", "x", "", "65536", "2147483647", "-2147483648", "9223372036854775807", "99999999999999999999", "1.5"}[r.Intn(12)]
		}) {
			return join(), desc
		}
	case 5:
		if len(chars) == 0 {
			return nil, ""
		}
		i := chars[r.Intn(len(chars))]
		if edit(i, ";", "") {
			return join(), "semicolon removed"
		}
	case 6:
		if len(chars) == 0 {
			return nil, ""
		}
		i := chars[r.Intn(len(chars))]
		w := strings.Fields(lines[i])
		for k, x := range w {
			if k > 0 && w[k-1] == ";" && (x == "WX" || x == "B") {
				if token(i, k+1, badNum) {
					return join(), "number of " + x
				}
			}
		}
	case 7:
		if len(chars) == 0 {
			return nil, ""
		}
		i := chars[r.Intn(len(chars))]
		switch r.Intn(4) {
		case 0:
			lines[i] += " ; QQ 3"
		case 1:
			lines[i] += " ; L nosuchname nosuchname"
		case 2:
			lines[i] = "X" + lines[i]
		case 3:
			lines[i] += " ; junk"
		}
		return join(), "bad char metrics"
	case 8:
		if len(kerns) == 0 {
			return nil, ""
		}
		i := kerns[r.Intn(len(kerns))]
		if token(i, 3, badNum) {
			return join(), "kerning value"
		}
	case 9:
		if len(kerns) == 0 {
			return nil, ""
		}
		i := kerns[r.Intn(len(kerns))]
		if token(i, 1+r.Intn(2), func(string) string { return "nosuchname" }) {
			return join(), "kerning of an unknown name"
		}
	case 10:
		if len(nums) == 0 {
			return nil, ""
		}
		i := nums[r.Intn(len(nums))]
		angle := strings.HasPrefix(lines[i], "ItalicAngle")
		if token(i, 1, func(s string) string {
			x := badNum(s)
			for angle && strings.Contains(x, "99999") || angle && x == "1e9" {
				x = "x"
			}
			return x
		}) {
			return join(), "font metrics"
		}
	case 11: // a line removed
		i := -1
		switch r.Intn(4) {
		case 0:
			if len(chars) > 0 {
				i = chars[r.Intn(len(chars))]
			}
		case 1:
			if len(kerns) > 0 {
				i = kerns[r.Intn(len(kerns))]
			}
		case 2:
			for k, l := range lines {
				if strings.HasPrefix(l, "EndCharMetrics") || strings.HasPrefix(l, "EndKernPairs") || strings.HasPrefix(l, "EndKernData") {
					i = k
				}
			}
		}
		if i >= 0 {
			lines = append(lines[:i], lines[i+1:]...)
			return join(), "line removed"
		}
	}
	return nil, ""
}
