package checks

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"image"
	_ "image/gif"
	_ "image/jpeg"
	_ "image/png"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/tdewolff/font"
	_ "golang.org/x/image/tiff"

	"verif/core"
	"verif/ref"
	"verif/synth"
	"verif/wrap"
)

func init() {
	core.Register(&core.Check{ID: "C25", Cases: byTier(6000, 80000), Run: runC25, Workers: 8,
		Require: []string{"runs", "outputs judged", "selected glyphs", "by glyph ID", "by character", "by name", "by code point", "by Unicode class", "renamed glyphs", "errors expected", "files kept", "hostile option values", "merges", "CSS rules", "tables listed", "pixels", "images", "prompts", "stdin", "stdout", "WOFF2 outputs", "base64 outputs", "collections"},
		Rule:    "the built tool runs on generated command lines in a scratch directory: option values are composed together with the set of glyphs that they stand for, every file that it writes is decoded and compared with the model of the selected glyphs (or of the merged fonts, the CSS rules, the table directory, the rasterized outline); invalid values must give an error and leave all files as they were; distinct cases are distinct command lines"})
}

// cli is a scratch directory in which the tool runs.
type cli struct {
	c   *core.Case
	dir string
}

// ran is what a run of the tool left.
type ran struct {
	args        []string
	code        int
	out, err    string
	before, now map[string]string
	desc        string
}

func (t *cli) files() map[string]string {
	m := map[string]string{}
	es, _ := os.ReadDir(t.dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(t.dir, e.Name()))
		m[e.Name()] = string(b)
	}
	return m
}

func (t *cli) write(name string, b []byte) {
	if err := os.WriteFile(filepath.Join(t.dir, name), b, 0644); err != nil {
		t.c.HarnessError("%v", err)
	}
}

// run runs the tool. It returns nil after a violation. A CPU limit, far above what any of the runs takes, decides hangs.
func (t *cli) run(stdin []byte, args ...string) *ran {
	c := t.c
	r := &ran{args: args, before: t.files()}
	for i, a := range args {
		if i > 0 {
			r.desc += " "
		}
		if len(a) > 120 {
			a = a[:120] + "..."
		}
		r.desc += strconv.Quote(a)
	}
	bin := filepath.Join(os.Getenv("VERIF_BIN"), "fontcmd")
	cmd := exec.Command("/bin/bash", append([]string{"-c", `ulimit -t 100; ulimit -c 0; exec "$@"`, "fontcmd", bin}, args...)...)
	cmd.Dir = t.dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + t.dir, "GOMAXPROCS=2"}
	var out, er bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(stdin), &out, &er
	if err := cmd.Start(); err != nil {
		c.HarnessError("%v", err)
		return nil
	}
	timer := time.AfterFunc(600*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	r.out, r.err, r.now = out.String(), er.String(), t.files()
	c.Count("runs", 1)
	c.FP(strings.Join(args, "\x00"))
	if e, ok := err.(*exec.ExitError); ok {
		r.code = e.ExitCode()
		ws := e.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			key := "killed"
			if ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL {
				key = "hang"
			}
			c.Fail(key, "fontcmd %s: %v after %v of CPU time; %s", r.desc, ws.Signal(), cmd.ProcessState.UserTime(), tailOf(r.err))
			return nil
		}
	} else if err != nil {
		c.HarnessError("%v", err)
		return nil
	}
	for _, s := range []string{"panic: ", "fatal error: ", "goroutine ", "runtime error"} {
		if strings.Contains(r.err, s) {
			c.Fail("crash:"+crashFrame(r.err), "fontcmd %s: %s", r.desc, tailOf(r.err))
			return nil
		}
	}
	if u, ok := cmd.ProcessState.SysUsage().(*syscall.Rusage); ok && u.Maxrss > 5<<20 {
		c.Fail("memory", "fontcmd %s: used %d MB", r.desc, u.Maxrss>>10)
		return nil
	}
	return r
}

var reFrame = regexp.MustCompile(`(?m)^(main\.|github.com/tdewolff/font\.)[^\n]*?\n\s+\S*/([^/\s]+\.go):\d+`)

func crashFrame(s string) string {
	if m := reFrame.FindStringSubmatch(s); m != nil {
		return m[2]
	}
	return ""
}

func tailOf(s string) string {
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// wantError observes that a run failed and left no trace.
func (t *cli) wantError(r *ran, why string) bool {
	if r == nil {
		return false
	}
	t.c.Count("errors expected", 1)
	if r.code == 0 {
		t.c.Fail("accepted:"+why, "fontcmd %s: exit status 0 in spite of %s; it says %q", r.desc, why, clipText(r.out+r.err))
		return false
	}
	if strings.TrimSpace(r.err) == "" {
		t.c.Fail("no message", "fontcmd %s: exit status %d without message (%s)", r.desc, r.code, why)
		return false
	}
	return t.wantFiles(r, nil)
}

// wantFiles observes that the files are as before, except for those named.
func (t *cli) wantFiles(r *ran, except []string) bool {
	ok := true
	for n, b := range r.now {
		if has(except, n) {
			continue
		}
		if o, was := r.before[n]; !was {
			t.c.Fail("stray file", "fontcmd %s: exit status %d, but there is a file %s of %d bytes", r.desc, r.code, n, len(b))
			ok = false
		} else if o != b {
			t.c.Fail("file changed", "fontcmd %s: exit status %d, but file %s was changed", r.desc, r.code, n)
			ok = false
		} else {
			t.c.Count("files kept", 1)
		}
	}
	for n := range r.before {
		if _, is := r.now[n]; !is {
			t.c.Fail("file removed", "fontcmd %s: exit status %d, but file %s is gone", r.desc, r.code, n)
			ok = false
		}
	}
	return ok
}

func (t *cli) wantSuccess(r *ran) bool {
	if r == nil {
		return false
	}
	if r.code != 0 {
		key := r.err
		if i := strings.Index(key, "ERROR: "); i >= 0 {
			key = key[i+7:]
		}
		t.c.Fail("refused:"+errKey(fmt.Errorf("%s", strings.SplitN(key, "\n", 2)[0])), "fontcmd %s: exit status %d: %s", r.desc, r.code, clipText(r.err))
		return false
	}
	return true
}

func clipText(s string) string {
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// option returns an option in one of the forms that the tool takes.
func option(r *rand.Rand, short, long, val string) []string {
	k := r.Intn(5)
	if short == "" {
		k = 3 + r.Intn(2)
	}
	switch {
	case k == 1 && val != "" && val[0] != '=':
		return []string{"-" + short + val}
	case k == 2 && val != "":
		return []string{"-" + short + "=" + val}
	case k == 3 && val != "":
		return []string{"--" + long + "=" + val}
	case k == 4:
		return []string{"--" + long, val}
	}
	if short == "" {
		return []string{"--" + long, val}
	}
	return []string{"-" + short, val}
}

// selection composes options with the glyphs that they stand for.
type selection struct {
	r    *rand.Rand
	m    *Model
	want map[int]bool
	args [][]string
	kind []string
}

func (s *selection) add(short, long string, vals []string, kind string) {
	if len(vals) == 0 {
		return
	}
	s.kind = append(s.kind, kind)
	if len(vals) > 1 && s.r.Intn(2) == 0 {
		for _, v := range vals {
			s.args = append(s.args, option(s.r, short, long, v))
		}
		return
	}
	s.args = append(s.args, option(s.r, short, long, strings.Join(vals, ",")))
}

func (s *selection) keepRune(r rune) {
	if g, ok := s.m.Cmap[r]; ok {
		s.want[g] = true
	}
}

func (s *selection) glyphs() {
	n := len(s.m.G)
	var vals []string
	for i := 1 + s.r.Intn(4); i > 0; i-- {
		a := s.r.Intn(n)
		if s.r.Intn(8) == 0 {
			a = n - 1
		}
		if s.r.Intn(2) == 0 {
			b := a + s.r.Intn(min(n-a, 12))
			if s.r.Intn(10) == 0 {
				b = a + s.r.Intn(n-a)
			}
			for g := a; g <= b; g++ {
				s.want[g] = true
			}
			vals = append(vals, fmt.Sprintf("%d-%d", a, b))
			continue
		}
		s.want[a] = true
		vals = append(vals, fmt.Sprint(a))
	}
	s.add("g", "glyph", vals, "by glyph ID")
}

// someRune is mapped, or close to a mapped one, or any.
func (s *selection) someRune(rs []rune) rune {
	for {
		var c rune
		switch {
		case len(rs) > 0 && s.r.Intn(5) > 0:
			c = rs[s.r.Intn(len(rs))]
			if s.r.Intn(6) == 0 {
				c += rune(s.r.Intn(3) - 1)
			}
		case s.r.Intn(3) == 0:
			c = rune(s.r.Intn(0x110000))
		default:
			c = rune(s.r.Intn(0x3000))
		}
		if c >= 0 && c <= unicode.MaxRune {
			return c
		}
	}
}

var simpleEscapes = map[rune]string{7: `\a`, 8: `\b`, 9: `\t`, 10: `\n`, 11: `\v`, 12: `\f`, 13: `\r`, '"': `\"`, '\'': `\'`, ',': `\,`, '-': `\-`, '\\': `\\`}

// char writes a character for the option -c.
func (s *selection) char(c rune) string {
	esc, hasEsc := simpleEscapes[c]
	var forms []string
	if hasEsc {
		forms = append(forms, esc, esc)
	}
	if c <= 0xFF {
		forms = append(forms, fmt.Sprintf(`\x%02x`, c))
	}
	if c <= 0xFFFF {
		forms = append(forms, fmt.Sprintf([]string{`\u%04x`, `\u%04X`}[s.r.Intn(2)], c))
	}
	forms = append(forms, fmt.Sprintf(`\U%08x`, c))
	literal := c != 0 && c != ',' && c != '-' && c != '\\' && c != '[' && c != '{' && utf8.ValidRune(c)
	if literal && s.r.Intn(4) > 0 {
		return string(c)
	}
	return forms[s.r.Intn(len(forms))]
}

// near returns an end for a range that starts at a.
func (s *selection) near(a rune, rs []rune) rune {
	b := a + rune(s.r.Intn(60))
	if len(rs) > 0 && s.r.Intn(2) == 0 { // up to a mapped one
		i := sort.Search(len(rs), func(i int) bool { return rs[i] >= a })
		if i += s.r.Intn(6); i < len(rs) && rs[i]-a < 20000 {
			b = rs[i]
		}
	}
	if b > unicode.MaxRune {
		b = unicode.MaxRune
	}
	return b
}

func (s *selection) chars(rs []rune) {
	var vals []string
	for i := 1 + s.r.Intn(3); i > 0; i-- {
		v := ""
		if s.r.Intn(10) == 0 { // a leading dash is a character
			v = "-"
			s.keepRune('-')
			if s.r.Intn(2) == 0 {
				v += s.charAfter('-', rs)
			}
		}
		afterChar := false
		for k := 1 + s.r.Intn(5); k > 0; k-- {
			a := s.someRune(rs)
			if s.r.Intn(3) == 0 {
				b := s.near(a, rs)
				v += s.char(a) + "-" + s.char(b)
				for c := a; c <= b; c++ {
					s.keepRune(c)
				}
				afterChar = false
				if s.r.Intn(8) == 0 { // a dash after a range is a character, and so is what follows
					v += "-" + s.charAfter('-', rs)
					s.keepRune('-')
				}
				continue
			}
			v += s.char(a)
			s.keepRune(a)
			afterChar = true
		}
		if s.r.Intn(10) == 0 { // and so is a trailing dash
			v += "-"
			s.keepRune('-')
		}
		_ = afterChar
		vals = append(vals, v)
	}
	// a backslash before the comma would hide it
	for i := 0; i+1 < len(vals); i++ {
		if strings.HasSuffix(vals[i], `\`) {
			vals[i] += `\x41`
			s.keepRune('A')
		}
	}
	s.add("c", "char", vals, "by character")
}

// charAfter makes a character that does not continue a range.
func (s *selection) charAfter(prev rune, rs []rune) string {
	a := s.someRune(rs)
	s.keepRune(a)
	return s.char(a)
}

var rePlain = regexp.MustCompile(`^[A-Za-z0-9_.]+$`)

func (s *selection) names() {
	if !s.m.Names || s.m.NoNames {
		return
	}
	var vals []string
	for i := 1 + s.r.Intn(4); i > 0; i-- {
		name := s.m.G[s.r.Intn(len(s.m.G))].name
		if s.r.Intn(10) == 0 {
			name = "nosuchglyph"
		}
		if !rePlain.MatchString(name) || name == ".notdef" {
			continue
		}
		for g := range s.m.G {
			if s.m.G[g].name == name {
				s.want[g] = true
				break
			}
		}
		vals = append(vals, name)
	}
	s.add("n", "name", vals, "by name")
}

func (s *selection) unicodes(rs []rune) {
	var vals []string
	for i := 1 + s.r.Intn(4); i > 0; i-- {
		a := s.someRune(rs)
		f := []string{"%x", "%X", "%04x", "%06X"}[s.r.Intn(4)]
		if s.r.Intn(2) == 0 {
			b := s.near(a, rs)
			for c := a; c <= b; c++ {
				s.keepRune(c)
			}
			vals = append(vals, fmt.Sprintf(f+"-"+f, a, b))
			continue
		}
		s.keepRune(a)
		vals = append(vals, fmt.Sprintf(f, a))
	}
	s.add("u", "unicode", vals, "by code point")
}

var classNames []string

func (s *selection) classes() {
	if classNames == nil {
		for n := range unicode.Categories {
			classNames = append(classNames, n)
		}
		for n := range unicode.Scripts {
			classNames = append(classNames, n)
		}
		sort.Strings(classNames)
	}
	var vals []string
	for i := 1 + s.r.Intn(3); i > 0; i-- {
		n := classNames[s.r.Intn(len(classNames))]
		if s.r.Intn(2) == 0 {
			n = []string{"Lu", "Ll", "Nd", "Latin", "Cyrillic", "Po", "Zs", "Greek", "Han", "Common", "L", "P", "Co"}[s.r.Intn(13)]
		}
		tab := unicode.Categories[n]
		if tab == nil {
			tab = unicode.Scripts[n]
		}
		for c, g := range s.m.Cmap {
			if unicode.Is(tab, c) {
				s.want[g] = true
			}
		}
		vals = append(vals, n)
	}
	s.add("r", "range", vals, "by Unicode class")
}

func (s *selection) list() []int {
	s.want[0] = true
	var out []int
	for g := range s.want {
		out = append(out, g)
	}
	sort.Ints(out)
	return out
}

// flat shuffles option groups and joins them.
func flat(r *rand.Rand, groups [][]string) []string {
	r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	var out []string
	for _, g := range groups {
		out = append(out, g...)
	}
	return out
}

// input writes a font in one of the file types that the tool reads.
// It returns the file name, the options that it needs, the media type and the number of bytes.
func (t *cli) input(rf *ref.Font, b []byte, base string) (name string, opts []string, media string, size int) {
	c := t.c
	r := c.R
	media = "font/truetype"
	name = base + ".ttf"
	if rf.CFF != nil {
		media, name = "font/opentype", base+".otf"
	}
	if string(b[:4]) == "ttcf" {
		return name, nil, "font/truetype", t.put(name, b)
	}
	plain := checksumsRight(rf) && len(b) < 400000
	k := r.Intn(9)
	if !plain {
		k = 0
	}
	switch k {
	case 1:
		b, _ = wrap.WOFF(r, rf)
		name, media = base+".woff", "font/woff"
	case 2:
		b, _ = wrap.WOFF2(r, rf)
		name, media = base+".woff2", "font/woff2"
	case 3:
		b = wrap.EOT(r, b)
		name, media = base+".eot", "application/vnd.ms-fontobject"
	case 4:
		other := synth.Random(r, synth.Opt{MaxN: 12})
		ms := []synth.Member{{Version: other.Version, Tables: other.Tables}}
		idx := r.Intn(3)
		for i := 0; i < idx; i++ {
			o := synth.Random(r, synth.Opt{MaxN: 12})
			ms = append(ms, synth.Member{Version: o.Version, Tables: o.Tables})
		}
		idx = r.Intn(len(ms) + 1)
		me := synth.Member{Version: rf.Version, Tables: rf.Tables}
		ms = append(ms[:idx], append([]synth.Member{me}, ms[idx:]...)...)
		b = synth.AssembleTTC(r, ms, r.Intn(2) == 0)
		name, media = base+".ttc", "font/truetype"
		opts = []string{"-i", fmt.Sprint(idx)}
		c.Count("collections", 1)
	}
	if r.Intn(4) == 0 {
		name = base + ".dat" // the content decides
	}
	return name, opts, media, t.put(name, b)
}

func (t *cli) put(name string, b []byte) int {
	t.write(name, b)
	t.c.Attach(name, b)
	return len(b)
}

// decodeOutput undoes encoding and compression of what the tool wrote.
func (t *cli) decodeOutput(r *ran, name string, data []byte, b64 bool, media string) ([]byte, bool) {
	c := t.c
	c.Attach("output-"+filepath.Base(name), data)
	if b64 {
		d, err := base64.StdEncoding.Strict().DecodeString(string(data))
		if err != nil {
			c.Fail("base64", "fontcmd %s: %s: not base64: %v", r.desc, name, err)
			return nil, false
		}
		c.Count("base64 outputs", 1)
		data = d
	}
	sig := map[string]string{"font/truetype": "\x00\x01\x00\x00", "font/opentype": "OTTO", "font/woff2": "wOF2"}[media]
	if !bytes.HasPrefix(data, []byte(sig)) {
		c.Fail("output format", "fontcmd %s: %s: starts with %q, not %q", r.desc, name, clipText(string(data[:min(len(data), 8)])), sig)
		return nil, false
	}
	if media == "font/woff2" {
		var err error
		var d []byte
		if !c.Try("ToSFNT", func() { d, err = font.ToSFNT(append([]byte{}, data...)) }) {
			return nil, false
		}
		if err != nil {
			c.Fail("output", "fontcmd %s: %s: %v", r.desc, name, err)
			return nil, false
		}
		c.Count("WOFF2 outputs", 1)
		data = d
	}
	return data, true
}

// judge compares a font that the tool wrote with its model. The model depends on what the font has at the places
// behind the listed glyphs, hence a function.
func (t *cli) judge(r *ran, name string, data []byte, media string, model func(wr *ref.Font) *Model) (*SF, bool) {
	c := t.c
	wr, err := ref.Parse(data, 0)
	if err != nil {
		c.Fail("output", "fontcmd %s: %s: %v", r.desc, name, err)
		return nil, false
	}
	want := model(wr)
	if want == nil {
		return nil, false
	}
	var f *SF
	if !c.Try("ParseSFNT", func() { f, err = font.ParseSFNT(data, 0) }) {
		return nil, false
	}
	if err != nil {
		c.Fail("output", "fontcmd %s: %s: %v", r.desc, name, err)
		return nil, false
	}
	if media == "font/woff2" {
		wr = nil // the encoding changes flags of points
	}
	ok := false
	c.Try("queries", func() { ok = monModel(c, "fontcmd "+r.desc+": "+name, f, want, wr) })
	if ok {
		c.Count("outputs judged", 1)
	}
	return f, ok
}

func runC25(c *core.Case) {
	dir := filepath.Join(c.Dir, fmt.Sprintf("cli-%d", c.Idx))
	if err := os.MkdirAll(dir, 0755); err != nil {
		c.HarnessError("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	t := &cli{c, dir}
	switch k := c.Idx % 16; {
	case k < 7:
		t.subset()
	case k < 9:
		t.errors()
	case k < 11:
		t.merge()
	case k < 13:
		t.css()
	case k < 14:
		t.info()
	default:
		t.draw()
	}
}

func (t *cli) font() (what string, rf *ref.Font, m *Model) {
	c := t.c
	o := subsettable(c, 0)
	if c.R.Intn(12) == 0 {
		o.N = 200 + c.R.Intn(120) // around the size of the predefined CFF charset
	}
	what, b := editFont(c, o, c.R.Intn(3) > 0)
	_, rf = load(c, what, b)
	if rf == nil || c.Failed() {
		return what, nil, nil
	}
	m, err := model(rf)
	if err != nil {
		c.HarnessError("%s: %v", what, err)
		return what, nil, nil
	}
	return
}

func (t *cli) selection(m *Model) *selection {
	r := t.c.R
	s := &selection{r: r, m: m, want: map[int]bool{}}
	rs := sortedRunes(m.Cmap)
	for i := r.Intn(4); i >= 0; i-- {
		switch r.Intn(9) {
		case 0, 1:
			s.glyphs()
		case 2, 3, 4:
			s.chars(rs)
		case 5:
			s.names()
		case 6, 7:
			s.unicodes(rs)
		case 8:
			s.classes()
		}
	}
	return s
}

type output struct {
	name  string
	media string
	b64   bool
}

func (t *cli) subset() {
	c := t.c
	r := c.R
	what, rf, m := t.font()
	if m == nil {
		return
	}
	b := rf.Data
	in, groupIn, media, size := t.input(rf, b, "in")
	s := t.selection(m)
	list := s.list()
	for _, k := range s.kind {
		c.Count(k, 1)
	}
	c.Count("selected glyphs", len(list))
	args := append([][]string{}, s.args...)
	if groupIn != nil {
		args = append(args, groupIn)
	}

	// the output
	plainMedia, plainExt := "font/truetype", []string{".ttf", ".ttf", ".ttc"}
	if !m.TT {
		plainMedia, plainExt = "font/opentype", []string{".otf", ".otf", ".otc"}
	}
	b64 := r.Intn(6) == 0
	if b64 {
		args = append(args, option(r, "e", "encoding", "base64"))
	}
	force := r.Intn(2) == 0
	quiet := r.Intn(3) == 0
	var outs []output
	typ := ""
	if r.Intn(3) == 0 {
		typ = []string{plainMedia, "font/woff2"}[r.Intn(2)]
		args = append(args, option(r, "t", "type", typ))
	}
	var stdin []byte
	arg := in
	if r.Intn(8) == 0 {
		arg = "-"
		stdin, _ = os.ReadFile(filepath.Join(t.dir, in))
		c.Count("stdin", 1)
	}
	exists := false
	answer := ""
	inPlace := typ != "" && arg != "-" && r.Intn(8) == 0
	if inPlace {
		outs = append(outs, output{in, typ, b64})
		exists = true
	} else {
		for i := 0; i < 1 || r.Intn(4) == 0; i++ {
			o := output{fmt.Sprintf("out%d", i), typ, b64}
			switch {
			case typ != "":
				o.name += []string{"", ".ttf", ".otf", ".woff", ".woff2", ".x"}[r.Intn(6)]
			case (media == plainMedia || media == "font/woff2") && groupIn == nil && r.Intn(4) == 0: // the type of the input
				o.name += []string{"", ".x"}[r.Intn(2)]
				o.media = media
			case r.Intn(3) == 0:
				o.name += ".woff2"
				o.media = "font/woff2"
			default:
				o.name += plainExt[r.Intn(3)]
				o.media = plainMedia
			}
			if i == 0 && r.Intn(5) == 0 {
				t.write(o.name, []byte("previous content"))
				exists = true
			}
			outs = append(outs, o)
		}
		if typ != "" && r.Intn(6) == 0 && !exists {
			outs = append(outs, output{"-", typ, b64})
			quiet = true
			c.Count("stdout", 1)
		}
		var names []string
		for _, o := range outs {
			names = append(names, o.name)
		}
		if r.Intn(2) == 0 {
			args = append(args, option(r, "o", "outputs", strings.Join(names, ",")))
		} else {
			var g []string
			for _, n := range names {
				g = append(g, option(r, "o", "outputs", n)...)
			}
			args = append(args, g)
		}
	}
	if exists && arg == "-" {
		force = true
	}
	if force {
		args = append(args, []string{[]string{"-f", "--force"}[r.Intn(2)]})
	} else if exists {
		answer = []string{"y\n", "n\n", "", "yes\n", "YES\n", "no\n", "what\n"}[r.Intn(7)]
		stdin = []byte(answer)
		c.Count("prompts", 1)
	}
	if quiet {
		args = append(args, []string{[]string{"-q", "--quiet"}[r.Intn(2)]})
	}
	pattern := ""
	if r.Intn(3) == 0 {
		parts := []string{"%i", "%n", "%u", "%%", "g", "uni", "-", "x.alt", "é"}
		for i := 1 + r.Intn(3); i > 0; i-- {
			p := parts[r.Intn(len(parts))]
			if p == "%n" && (!m.Names || m.NoNames) {
				p = "%i"
			}
			pattern += p
		}
		args = append(args, option(r, "", "glyph-name", pattern))
	}
	args = append(args, []string{arg})
	line := append([]string{"subset"}, flat(r, args)...)
	for i, a := range line[1:] { // an option with a missing value would take the next
		if a == "" && i+2 == len(line) {
			return
		}
	}
	c.Sample("%s: fontcmd %q", what, line)
	run := t.run(stdin, line...)
	if run == nil {
		return
	}
	if cidNames := pattern != "" && m.NoNames; cidNames {
		// the names of CID-keyed fonts cannot be set
		if run.code != 0 {
			t.wantFiles(run, nil)
			return
		}
	}
	if exists && !force && !strings.HasPrefix(strings.ToLower(answer), "y") {
		t.wantError(run, "an existing file")
		return
	}
	if run.code != 0 && strings.Contains(run.err, "glyph name too long") && strings.Contains(pattern, "%n") && longName(m, list) {
		t.wantFiles(run, nil)
		return
	}
	if !t.wantSuccess(run) {
		return
	}
	var names []string
	for _, o := range outs {
		names = append(names, o.name)
	}
	if !t.wantFiles(run, names) {
		return
	}
	if quiet && !(exists && !force) {
		if run.err != "" || run.out != "" && !has(names, "-") {
			c.Fail("not quiet", "fontcmd %s: prints %q", run.desc, clipText(run.out+run.err))
			return
		}
	}
	for _, o := range outs {
		data, ok := run.now[o.name]
		if o.name == "-" {
			data, ok = run.out, true
		}
		if !ok {
			c.Fail("no output", "fontcmd %s: %s was not written", run.desc, o.name)
			return
		}
		d, ok := t.decodeOutput(run, o.name, []byte(data), o.b64, o.media)
		if !ok {
			return
		}
		var full []int
		var sm *Model
		enc := o.media
		if media == "font/woff2" {
			enc = media
		}
		f, ok := t.judge(run, o.name, d, enc, func(wr *ref.Font) *Model {
			if full = resolve(c, "fontcmd "+run.desc+": "+o.name, m, list, wr); full == nil {
				return nil
			}
			sm = m.subset(full, len(list), []string{"min"})
			sm.NoNames = true
			return sm
		})
		if !ok {
			return
		}
		if has(sm.Tags, "post") || !m.TT {
			t.names(run, f, m, list, full, pattern)
		}
		if !quiet && o.name != "-" && !c.Failed() {
			want := fmt.Sprintf("%s:  %d => %d glyphs,", filepath.Base(o.name), len(m.G), len(full))
			if !strings.Contains(run.out, want) {
				c.Fail("summary", "fontcmd %s: prints %q without %q", run.desc, clipText(run.out), want)
			}
		}
	}
	_ = size
}

func longName(m *Model, list []int) bool {
	for _, g := range list {
		if len(m.G[g].name) > 40 {
			return true
		}
	}
	return false
}

// names observes the names that were given to the glyphs of a subset.
func (t *cli) names(run *ran, f *SF, m *Model, list, full []int, pattern string) {
	c := t.c
	if m.NoNames {
		return
	}
	inv := map[int][]rune{}
	if pattern != "" {
		subs, err := m.G[0].src.Cmap()
		if err != nil {
			c.HarnessError("%v", err)
			return
		}
		inv = ref.Inverse(subs)
	}
	for i, g := range full {
		got := f.GlyphName(uint16(i))
		var want []string
		if pattern == "" {
			if m.TT && got != "" { // CFF gets the names of the predefined charset
				c.Fail("names kept", "fontcmd %s: glyph %d (glyph %d of the source) is named %q", run.desc, i, g, got)
				return
			}
			continue
		} else if i < len(list) {
			// the code point must be the same everywhere in the pattern
			us := []string{""}
			if strings.Contains(strings.ReplaceAll(pattern, "%%", ""), "%u") {
				us = nil
				for _, r := range inv[g] {
					us = append(us, fmt.Sprintf("%x", r))
				}
			}
			named := true
			for _, u := range us {
				s := ""
				for k := 0; k < len(pattern); k++ {
					if pattern[k] != '%' || k+1 == len(pattern) {
						s += pattern[k : k+1]
						continue
					}
					k++
					switch pattern[k] {
					case '%':
						s += "%"
					case 'i':
						s += fmt.Sprint(g)
					case 'n':
						s += m.G[g].name
						named = named && m.G[g].name != ""
					case 'u':
						s += u
					}
				}
				want = append(want, s)
			}
			if len(us) == 0 || !named {
				continue // without name
			}
		} else {
			continue
		}
		if !m.TT && i == 0 {
			want = []string{".notdef"}
		}
		if !has(want, got) {
			c.Fail("glyph name", "fontcmd %s: glyph %d (glyph %d of the source) is named %q, not %q", run.desc, i, g, got, want)
			return
		}
		c.Count("renamed glyphs", 1)
	}
}

// errors are command lines that must be refused, and hostile ones that must not crash the tool.
func (t *cli) errors() {
	c := t.c
	r := c.R
	_, rf, m := t.font()
	if m == nil {
		return
	}
	b := rf.Data
	name, other, wrong := "in.ttf", ".otf", "font/opentype"
	if !m.TT {
		name, other, wrong = "in.otf", ".ttf", "font/truetype"
	}
	t.put(name, b)
	out := []string{"-o", "out" + name[2:]}
	if r.Intn(2) == 0 {
		t.write(out[1], []byte("previous content"))
		out = append(out, "-f")
	}
	n := len(m.G)
	why, args := "", []string{"subset"}
	in := name
	switch k := r.Intn(32); k {
	case 0:
		a := 1 + r.Intn(50000)
		why, args = "a reversed range of glyph IDs", append(args, option(r, "g", "glyph", fmt.Sprintf("%d-%d", a, r.Intn(a)))...)
	case 1:
		why, args = "a glyph ID that the font does not have", append(args, option(r, "g", "glyph", fmt.Sprint(n+r.Intn(65536-n)))...)
	case 2:
		why, args = "an invalid glyph ID", append(args, option(r, "g", "glyph", []string{"65536", "-1", "x", "1-", "-", "0x10", "1.5", "0-65536", "1-2-3", "99999999999999999999", "65535-65537", "--", "4294967297", "-5-3", "0-99999999", ""}[r.Intn(15)])...)
	case 3:
		a := 1 + r.Intn(0x10FFFE)
		why, args = "a reversed range of code points", append(args, option(r, "u", "unicode", fmt.Sprintf("%x-%x", a, r.Intn(a)))...)
	case 4:
		why, args = "an invalid code point", append(args, option(r, "u", "unicode", []string{"U+0041", "xyz", "41-", "-41", "ffffffffff", "110000-110001", "10ffff-110000", "0-7fffffff", "-1", "41-42-43", "0x41"}[r.Intn(11)])...)
	case 5:
		why, args = "an unknown class", append(args, option(r, "r", "range", []string{"Klingon", "latin", "LATIN", "X", "L1", "Any"}[r.Intn(6)])...)
	case 6:
		why, args = "the wrong kind of outlines", append(args, "-t", wrong)
	case 7:
		why, out = "the wrong kind of outlines", []string{"--outputs", "out" + other}
	case 8:
		why, args = "an unsupported type", append(args, "-t", []string{"font/woff", "application/vnd.ms-fontobject", "x", "font/ttf", "woff2"}[r.Intn(5)])
	case 9:
		why, out = "an unsupported extension", []string{"-o", "out" + []string{".woff", ".eot"}[r.Intn(2)]}
	case 10:
		why, args = "an unknown encoding", append(args, option(r, "e", "encoding", []string{"base32", "BASE64", "hex", "none"}[r.Intn(4)])...)
		if r.Intn(2) == 0 {
			out = []string{"-f"} // in place
		}
	case 11:
		why, in = "a missing file", "missing.ttf"
	case 12:
		why, in = "a malformed file", "bad.ttf"
		bad := append([]byte{}, b[:r.Intn(min(len(b), 200))]...)
		if r.Intn(3) == 0 {
			bad = []byte("not a font at all, whatever its name")
		}
		t.write(in, bad)
	case 13:
		why, args = "a bad index", append(args, option(r, "i", "index", []string{"1", "-1", "100000", "4294967296"}[r.Intn(4)])...)
		if string(b[:4]) == "ttcf" {
			return
		}
	case 14:
		why, args = "an unknown option", append(args, []string{"-z", "--nosuch", "--nosuch=1", "-g1 -z"}[r.Intn(3)])
	case 15:
		why, args = "extra arguments", append(args, "in.extra")
		t.write("in.extra", []byte("extra"))
	case 16:
		if r.Intn(2) == 0 {
			why, args = "a reversed range of characters", append(args, option(r, "c", "char", []string{"z-a", "b-a", `\x41-\x40`, "é-e", `9-\U00000030`}[r.Intn(5)])...)
		} else {
			why, args = "a directory", append(args, "-g0")
			out = []string{"-f", "-o", "."}
			if m.TT {
				args = append(args, "-t", "font/truetype")
			} else {
				args = append(args, "-t", "font/opentype")
			}
		}
	case 17:
		why, args = "a full device", append(args, "-g", "0", "-t", map[bool]string{true: "font/truetype", false: "font/opentype"}[m.TT])
		out = []string{"-f", "-o", "/dev/full"}
	case 18:
		why, out = "a missing directory", []string{"-o", "nodir/" + out[1]}
	case 19: // other commands
		switch r.Intn(6) {
		case 0:
			why, args, out = "no output", []string{"merge"}, nil
		case 1:
			why, args, out, in = "no input", []string{"merge"}, []string{"-o", out[1]}, ""
		case 2:
			why, args, out = "no output", []string{"css"}, nil
		case 3:
			why, args, out, in = "a missing file", []string{"info"}, nil, "missing.ttf"
		case 4:
			why, args, out, in = "a missing file", []string{"css"}, []string{"-o", "x.css"}, "missing.ttf"
		case 5:
			why, args, in = "a missing file", []string{"merge", name}, "missing.ttf"
		}
	case 20:
		why, args = "an unknown encoding", []string{"merge", "-e", "hex"}
	case 21:
		why, args, in = "a missing file", []string{"css"}, "missing.ttf"
		out = []string{"-o", "x.css"}
		t.write("x.css", []byte("previous content"))
		args = append(args, []string{"-f", "-a"}[r.Intn(2)])
	default:
		t.hostile(m, name, out)
		return
	}
	line := append(args, out...)
	if in != "" {
		line = append(line, in)
	}
	c.Sample("fontcmd %q: %s", line, why)
	t.wantError(t.run(nil, line...), why)
}

// hostile runs the tool with arbitrary option values: no crash, and either an error without file or a readable font.
func (t *cli) hostile(m *Model, name string, out []string) {
	c := t.c
	r := c.R
	toks := []string{"-", "-", `\`, `\x`, `\u`, `\U`, `\x4`, `\u004`, `\U0010FFFF`, `\U00110000`, `\UFFFFFFFF`, `\uD800`, "a", "z", "0", ",", "[", "]", "{", "}", "=", " ", "é", "\U0001F600", "\xff", `\"`, `\-`, `\\`, "A-Z", "--", "%", "\n", `\a`, `\x00`, "9999999999", "ffff"}
	args := []string{"subset"}
	for i := 1 + r.Intn(3); i > 0; i-- {
		v := ""
		for k := r.Intn(7); k > 0; k-- {
			v += toks[r.Intn(len(toks))]
		}
		o := [][2]string{{"c", "char"}, {"c", "char"}, {"c", "char"}, {"u", "unicode"}, {"g", "glyph"}, {"r", "range"}, {"n", "name"}, {"", "glyph-name"}}[r.Intn(8)]
		args = append(args, option(r, o[0], o[1], v)...)
	}
	args = append(args, out...)
	args = append(args, name)
	c.Count("hostile option values", 1)
	c.Sample("fontcmd %q", args)
	run := t.run(nil, args...)
	if run == nil {
		return
	}
	if run.code != 0 {
		t.wantFiles(run, nil)
		return
	}
	for n, b := range run.now {
		if run.before[n] == b {
			continue
		}
		// the value may have swallowed other options, but every file that is written is a font
		if _, err := ref.Parse([]byte(b), 0); err != nil && !strings.HasPrefix(b, "wOF2") {
			c.Attach("output", []byte(b))
			c.Fail("output", "fontcmd %s: %s: %v", run.desc, n, err)
		}
	}
}

func (t *cli) merge() {
	c := t.c
	r := c.R
	p := mergePair(c, false)
	if p == nil {
		return
	}
	if len(p.m2.G) < 2 { // adds nothing
		return
	}
	var w1, w2 []byte
	if !c.Try("Write", func() { w1, w2 = p.f1.Write(), p.f2.Write() }) {
		return
	}
	rearrange := r.Intn(3) == 0
	want, why := p.m1.merge(p.m2, rearrange)
	t.put("a.dat", w1)
	t.put("b.dat", w2)
	files := []string{"a.dat", "b.dat"}
	var stdin []byte
	if r.Intn(10) == 0 {
		files[r.Intn(2)] = "-"
		stdin = w1
		if files[1] == "-" {
			stdin = w2
		}
		c.Count("stdin", 1)
	}
	all := []*SF{p.f1, p.f2}
	if why == "" && r.Intn(4) == 0 { // three
		o := subsettable(c, map[bool]int{true: 1, false: 2}[want.TT])
		o.MaxN, o.CmapSize, o.Glyph.NoNotdef = 30, 5, true
		sf := synth.Random(r, o)
		if r.Intn(8) > 0 {
			sf = withoutRunes(r, sf, want.Cmap)
		}
		rf3, err := ref.Parse(sf.Bytes, 0)
		if err != nil {
			c.HarnessError("third: %v", err)
			return
		}
		m3, err := model(rf3)
		if err != nil {
			c.HarnessError("third: %v", err)
			return
		}
		want, why = want.merge(m3, rearrange)
		if f3, err := safeParse(sf.Bytes); err == nil {
			all = append(all, f3)
		}
		t.put("c.dat", sf.Bytes)
		files = append(files, "c.dat")
	}
	if r.Intn(12) == 0 {
		one := *p.m1
		one.Cmap = nil // as it was, possibly in several subtables
		want, why, rearrange = &one, "", false
		files = files[:1]
	}
	media, ext := "font/truetype", ".ttf"
	if !p.m1.TT {
		media, ext = "font/opentype", ".otf"
	}
	out := "out" + ext
	groups := [][]string{files}
	if r.Intn(4) == 0 {
		out, media = "out.woff2", "font/woff2"
	} else if r.Intn(4) == 0 {
		out = "out"
		groups = append(groups, option(r, "t", "type", media))
	}
	b64 := r.Intn(6) == 0
	if b64 {
		groups = append(groups, option(r, "e", "encoding", "base64"))
	}
	groups = append(groups, option(r, "o", "outputs", out))
	if rearrange {
		groups = append(groups, []string{"--rearrange-cmap"})
	}
	if r.Intn(2) == 0 {
		groups = append(groups, []string{"-q"})
	}
	if r.Intn(4) == 0 {
		t.write(out, []byte("previous content"))
		groups = append(groups, []string{"-f"})
	}
	line := append([]string{"merge"}, flat(r, groups)...)
	c.Sample("%s: fontcmd %q", p.what, line)
	run := t.run(stdin, line...)
	if run == nil {
		return
	}
	if why != "" {
		t.wantError(run, why)
		return
	}
	if run.code != 0 && tooManySubrs(all...) {
		return
	}
	if !t.wantSuccess(run) || !t.wantFiles(run, []string{out}) {
		return
	}
	d, ok := t.decodeOutput(run, out, []byte(run.now[out]), b64, media)
	if !ok {
		return
	}
	if _, ok := t.judge(run, out, d, media, func(*ref.Font) *Model { return want }); ok {
		c.Count("merges", 1)
	}
}

func (t *cli) css() {
	c := t.c
	r := c.R
	_, rf, m := t.font()
	if m == nil {
		return
	}
	in, opts, _, _ := t.input(rf, rf.Data, "in")
	pattern := ".%n"
	args := [][]string{{in}}
	if opts != nil {
		args = append(args, opts)
	}
	if r.Intn(2) == 0 || m.NoNames {
		pattern = []string{".g%i", "%%x%i", ".icon-%n", "#u%u", "a[name=%n]", ".%u-%i", "%"}[r.Intn(7)]
		if m.NoNames && strings.Contains(pattern, "%n") {
			pattern = ".g%i"
		}
		args = append(args, option(r, "", "selector", pattern))
	}
	args = append(args, option(r, "o", "output", "out.css"))
	previous, answer, force, app := "", "", false, false
	if r.Intn(2) == 0 {
		previous = "/* previous content */\n" + strings.Repeat("x", r.Intn(3)*4000)
		t.write("out.css", []byte(previous))
		switch r.Intn(3) {
		case 0:
			force = true
			args = append(args, []string{"-f"})
		case 1:
			app = true
			args = append(args, []string{"-a"})
		default:
			answer = []string{"y\n", "n\n", "yes\n", ""}[r.Intn(4)]
			c.Count("prompts", 1)
		}
	}
	if r.Intn(3) == 0 {
		args = append(args, []string{"-q"})
	}
	line := append([]string{"css"}, flat(r, args)...)
	c.Sample("fontcmd %q", line)
	run := t.run([]byte(answer), line...)
	if run == nil {
		return
	}
	if previous != "" && !force && !app && !strings.HasPrefix(answer, "y") {
		t.wantFiles(run, nil)
		return
	}
	if !t.wantSuccess(run) || !t.wantFiles(run, []string{"out.css"}) {
		return
	}
	got := run.now["out.css"]
	c.Attach("out.css", []byte(got))
	if app {
		if !strings.HasPrefix(got, previous) {
			c.Fail("append", "fontcmd %s: the previous content is gone", run.desc)
			return
		}
		got = got[len(previous):]
	}
	subs, err := rf.Cmap()
	if err != nil {
		c.HarnessError("%v", err)
		return
	}
	inv := ref.Inverse(subs)
	for g := 1; g < len(m.G); g++ {
		if len(inv[g]) == 0 || m.G[g].name == "" && strings.Contains(pattern, "%n") {
			continue
		}
		found := ""
		for _, u := range inv[g] {
			s := strings.NewReplacer("%%", "%", "%i", fmt.Sprint(g), "%n", m.G[g].name, "%u", fmt.Sprintf("%x", u)).Replace(pattern)
			if l := fmt.Sprintf("%s{content:\"\\%x\"}\n", s, u); strings.HasPrefix(got, l) {
				found = l
				break
			}
		}
		if found == "" {
			c.Fail("CSS rule", "fontcmd %s: no rule for glyph %d named %q with code points %#x, but %q", run.desc, g, m.G[g].name, trunc(inv[g]), clipText(strings.SplitN(got, "\n", 2)[0]))
			return
		}
		got = got[len(found):]
		c.Count("CSS rules", 1)
	}
	if got != "" {
		c.Fail("CSS rule", "fontcmd %s: more rules than glyphs: %q", run.desc, clipText(got))
	}
}

var reTable = regexp.MustCompile(`(?m)^ +(\d+)  (.{4})  checksum=0x([0-9A-F]{8})  offset= *(\d+)  length= *(\d+)$`)

func (t *cli) info() {
	c := t.c
	r := c.R
	_, rf, m := t.font()
	if m == nil {
		return
	}
	b := rf.Data
	dirs := []map[string]ref.DirEntry{nil}
	exact, version := true, map[bool]string{true: "TrueType", false: "CFF"}[m.TT]
	name := "in.ttf"
	k := r.Intn(6)
	if !checksumsRight(rf) || len(b) > 400000 || string(b[:4]) == "ttcf" {
		k = 5
	}
	switch k {
	case 0:
		b, _ = wrap.WOFF(r, rf)
		exact = false
	case 1:
		b, _ = wrap.WOFF2(r, rf)
		exact = false
	case 2:
		b = wrap.EOT(r, b)
	case 3:
		ms := []synth.Member{{Version: rf.Version, Tables: rf.Tables}}
		for i := r.Intn(3); i > 0; i-- {
			o := synth.Random(r, synth.Opt{MaxN: 12})
			ms = append(ms, synth.Member{Version: o.Version, Tables: o.Tables})
		}
		b = synth.AssembleTTC(r, ms, r.Intn(2) == 0)
		dirs = make([]map[string]ref.DirEntry, len(ms))
		version = "Collection"
		c.Count("collections", 1)
	case 4: // truncated
		t.put(name, b[:r.Intn(min(len(b), 12+16*len(rf.Dir)))])
		t.wantError(t.run(nil, "info", name), "a truncated table directory")
		return
	case 5:
		if string(b[:4]) == "ttcf" {
			return
		}
	}
	t.put(name, b)
	run := t.run(nil, "info", name)
	if !t.wantSuccess(run) || !t.wantFiles(run, nil) {
		return
	}
	if !strings.Contains(run.out, "("+version+")") {
		c.Fail("info version", "fontcmd %s: prints %q without version %s", run.desc, clipText(run.out), version)
	}
	sections := strings.Split(run.out, "Table directory:")[1:]
	if len(sections) != len(dirs) {
		c.Fail("info fonts", "fontcmd %s: %d table directories for %d fonts", run.desc, len(sections), len(dirs))
		return
	}
	for i, s := range sections {
		f := rf
		if version == "Collection" {
			var err error
			if f, err = ref.Parse(b, i); err != nil {
				c.HarnessError("%v", err)
				return
			}
		}
		rows := reTable.FindAllStringSubmatch(s, -1)
		if len(rows) != len(f.Dir) {
			c.Fail("info tables", "fontcmd %s: %d tables of %d: %s", run.desc, len(rows), len(f.Dir), clipText(s))
			return
		}
		seen := map[string]bool{}
		for _, row := range rows {
			ok := false
			for _, d := range f.Dir {
				if d.Tag != row[2] {
					continue
				}
				ok = !exact || row[3] == fmt.Sprintf("%08X", d.Checksum) && row[4] == fmt.Sprint(d.Offset) && row[5] == fmt.Sprint(d.Length)
			}
			if !ok || seen[row[2]] {
				c.Fail("info tables", "fontcmd %s: prints %q for table %q", run.desc, row[0], row[2])
				return
			}
			seen[row[2]] = true
			c.Count("tables listed", 1)
		}
	}
}

// inkOf says for the centre of a pixel whether it is inside of the outline, and whether the outline is far from it.
func inkOf(segs []ref.Seg, x, y, margin float64) (inside, sure bool) {
	w := 0
	sure = true
	edge := func(x0, y0, x1, y1 float64) {
		// distance
		dx, dy := x1-x0, y1-y0
		k := 0.0
		if l := dx*dx + dy*dy; l > 0 {
			k = math.Max(0, math.Min(1, ((x-x0)*dx+(y-y0)*dy)/l))
		}
		if math.Hypot(x-x0-k*dx, y-y0-k*dy) < margin {
			sure = false
		}
		if (y0 <= y) != (y1 <= y) {
			if xi := x0 + (y-y0)/(y1-y0)*(x1-x0); xi > x {
				if y1 > y0 {
					w++
				} else {
					w--
				}
			}
		}
	}
	var cx, cy, sx, sy float64
	for _, s := range segs {
		switch s.Op {
		case 'M':
			if cx != sx || cy != sy {
				edge(cx, cy, sx, sy)
			}
			cx, cy = s.P[0], s.P[1]
			sx, sy = cx, cy
		case 'L':
			edge(cx, cy, s.P[0], s.P[1])
			cx, cy = s.P[0], s.P[1]
		case 'Q', 'C':
			// so many pieces that the distance to the curve is a fraction of the margin
			dev := math.Hypot(cx-2*s.P[0]+s.P[2], cy-2*s.P[1]+s.P[3])
			if s.Op == 'C' {
				dev = math.Max(dev, math.Hypot(s.P[0]-2*s.P[2]+s.P[4], s.P[1]-2*s.P[3]+s.P[5]))
			}
			n := min(5000, 24+int(math.Sqrt(7.5*dev/margin)))
			px, py := cx, cy
			for i := 1; i <= n; i++ {
				k := float64(i) / float64(n)
				var qx, qy float64
				u := 1 - k
				if s.Op == 'Q' {
					qx = u*u*cx + 2*u*k*s.P[0] + k*k*s.P[2]
					qy = u*u*cy + 2*u*k*s.P[1] + k*k*s.P[3]
				} else {
					qx = u*u*u*cx + 3*u*u*k*s.P[0] + 3*u*k*k*s.P[2] + k*k*k*s.P[4]
					qy = u*u*u*cy + 3*u*u*k*s.P[1] + 3*u*k*k*s.P[3] + k*k*k*s.P[5]
				}
				edge(px, py, qx, qy)
				px, py = qx, qy
			}
			cx, cy = px, py
		case 'Z':
			edge(cx, cy, sx, sy)
			cx, cy = sx, sy
		}
	}
	return w != 0, sure
}

func (t *cli) draw() {
	c := t.c
	r := c.R
	_, rf, m := t.font()
	if m == nil {
		return
	}
	in, opts, _, _ := t.input(rf, rf.Data, "in")
	subs, err := rf.Cmap()
	if err != nil {
		c.HarnessError("%v", err)
		return
	}
	inv := ref.Inverse(subs)
	args := [][]string{{in}}
	if opts != nil {
		args = append(args, opts)
	}
	// the glyph
	g := r.Intn(len(m.G))
	for i := 0; i < 20 && len(m.G[g].segs) == 0; i++ {
		g = r.Intn(len(m.G))
	}
	rs := sortedRunes(m.Cmap)
	why := ""
	switch k := r.Intn(4); {
	case k == 0 && len(rs) > 0:
		u := rs[r.Intn(len(rs))]
		g = m.Cmap[u]
		if u == 0 || !utf8.ValidRune(u) {
			args = append(args, option(r, "g", "glyph", fmt.Sprint(g)))
			break
		}
		args = append(args, option(r, "c", "char", string(u)))
	case k == 1 && len(rs) > 0:
		u := rs[r.Intn(len(rs))]
		g = m.Cmap[u]
		args = append(args, option(r, "u", "unicode", fmt.Sprintf("%x", u)))
	default:
		args = append(args, option(r, "g", "glyph", fmt.Sprint(g)))
	}
	hhea := rf.Tables["hhea"]
	asc, desc := ref.S16(hhea, 4), -ref.S16(hhea, 6)
	upm := m.Upm
	adv := m.G[g].adv

	ppem, scale, ratio := 40, 4, 0.0
	if r.Intn(2) == 0 {
		ppem = 1 + r.Intn(120)
		args = append(args, option(r, "", "ppem", fmt.Sprint(ppem)))
	}
	if r.Intn(2) == 0 {
		scale = 1 + r.Intn(4)
		args = append(args, option(r, "", "scale", fmt.Sprint(scale)))
	}
	if r.Intn(3) == 0 {
		ratio = []float64{1, 2, 0.5, 1.25, 3}[r.Intn(5)]
		args = append(args, option(r, "", "ratio", fmt.Sprint(ratio)))
	}
	ext := []string{".png", ".png", ".png", ".jpg", ".jpeg", ".gif", ".tiff", "", ""}[r.Intn(9)]
	out := ""
	if ext != "" {
		out = "out" + ext
		args = append(args, option(r, "o", "output", out))
		if r.Intn(4) == 0 {
			t.write(out, []byte("previous content"))
		}
	} else if r.Intn(3) == 0 {
		args = append(args, []string{"-o", "-"})
	}
	free := false // the size is not predicted
	byWidth := false
	if why == "" && r.Intn(5) == 0 && adv > 0 && out != "" {
		w := 1 + r.Intn(300)
		if p := w * upm / adv; 0 < p && p < 65535 {
			// the largest size at which the glyph is that wide, rounding is free
			byWidth, ppem = true, p
			args = append(args, option(r, "", "width", fmt.Sprint(w)))
		}
	}
	k := r.Intn(24)
	if byWidth && k >= 3 && k <= 5 {
		k = 23
	}
	switch k {
	case 0:
		v := []string{"0", "-1", "x", "1.5", ""}[r.Intn(4)]
		why, args = "a bad scale", append(args, []string{"--scale=" + v})
	case 1:
		v := []string{"-1", "NaN", "Inf", "x", "-0.5", "1e300"}[r.Intn(6)]
		why, args = "a bad ratio", append(args, []string{"--ratio=" + v})
	case 2:
		if out != "" {
			why = "an unknown image type"
			args = append(args, []string{"-o", "out" + []string{".bmp", "", ".PNG", ".svg"}[r.Intn(4)]})
		}
	case 3:
		why, args = "a bad width", append(args, []string{"--width=" + []string{"-1", "x", "99999999999999999999", "1000000000"}[r.Intn(4)]})
	case 4:
		w := 1 + r.Intn(60)
		args = append(args, option(r, "", "width", fmt.Sprint(w)))
		if adv == 0 {
			why = "the width of a glyph without advance"
		} else if p := w * upm / adv; p > 65535 {
			why = "a width that is too large"
		} else {
			ppem = p
		}
		free = true
	case 5:
		free = true
		v := []int{0, 65535, 1, 1000, 5000, 65536, 70000}[r.Intn(7)]
		if p := float64(v&0xFFFF) / float64(upm) * 3; p*p*float64(adv+1)*math.Abs(float64(asc+desc)) > 1e7 && p*float64(adv) < 8000 {
			v = 1 // large, but not too large
		}
		args = append(args, []string{fmt.Sprintf("--ppem=%d", v)})
	case 6:
		free = true
		args = append(args, []string{"--scale=" + []string{"100000", "2147483647", "9223372036854775807"}[r.Intn(3)]})
	case 7:
		free = true
		args = append(args, []string{"-u", []string{"110000", "x", "-1", "7fffffff", "10ffff", "ffffffffff"}[r.Intn(6)]})
	case 8:
		free = true
		args = append(args, []string{"-g", fmt.Sprint(len(m.G) + r.Intn(3))})
	}
	line := append([]string{"draw"}, flat(r, args)...)
	c.Sample("fontcmd %q", line)
	run := t.run(nil, line...)
	if run == nil {
		return
	}
	// a value that is given twice: either may count
	if why != "" || free {
		if run.code != 0 {
			c.Count("errors expected", 1)
			t.wantFiles(run, nil)
		} else if out != "" {
			t.image(run, run.now)
		}
		return
	}
	width := int(float64(ppem)*float64(adv)/float64(upm) + 0.5)
	height := int(float64(ppem)*float64(asc+desc)/float64(upm) + 0.5)
	xpad := int(float64(width)*0.2 + 0.5)
	ypad := xpad
	if out == "" {
		ypad = 0
	}
	if width > 2048 || asc+desc < 0 || out == "" && width > 80 {
		t.wantError(run, "impossible dimensions")
		return
	}
	W, H := width+2*xpad, height+2*ypad
	if out == "" && ratio == 0 {
		ratio = 2
	} else if ratio == 0 {
		ratio = 1
	}
	if ratio != 1 {
		W = int(float64(W)*ratio + 0.5)
	}
	if out == "" {
		scale = 1
	}
	W, H = W*scale, H*scale
	if float64(W)*float64(H) > 1e8 || W == 0 || H == 0 || m.G[g].skip {
		if run.code != 0 {
			t.wantFiles(run, nil)
		}
		return
	}
	if W > 65535 || H > 65535 { // the image formats cannot hold it
		if run.code != 0 {
			t.wantFiles(run, nil)
		}
		return
	}
	if !t.wantSuccess(run) {
		return
	}
	if out != "" && !t.wantFiles(run, []string{out}) || out == "" && !t.wantFiles(run, nil) {
		return
	}
	// what is printed
	text := run.out
	head := fmt.Sprintf("GlyphID: %d\n", g)
	if !strings.HasPrefix(text, head) {
		c.Fail("draw glyph", "fontcmd %s: prints %q, not glyph %d", run.desc, clipText(text), g)
		return
	}
	text = text[len(head):]
	var us []rune
	for strings.HasPrefix(text, "Char: ") {
		l := text
		if i := strings.IndexByte(l[6:], '('); i >= 0 { // the character may be anything, also a line break
			l = l[6+i+1:]
			if strings.HasPrefix(text[6:], "( (") {
				l = text[6+3:]
			}
		}
		n := 0
		for n < len(l) && l[n] >= '0' && l[n] <= '9' {
			n++
		}
		u, _ := strconv.Atoi(l[:n])
		us = append(us, rune(u))
		i := strings.IndexByte(l, '\n')
		if i < 0 {
			break
		}
		text = l[i+1:]
	}
	if err := sameRunes(us, inv[g]); err != nil && g != 0 {
		c.Fail("draw characters", "fontcmd %s: characters %#x of glyph %d, not %#x", run.desc, us, g, inv[g])
		return
	}
	if !m.NoNames && m.G[g].name != "" {
		l := "Name: " + m.G[g].name + "\n"
		if !strings.HasPrefix(text, l) {
			c.Fail("draw name", "fontcmd %s: no %q in %q", run.desc, l, clipText(text))
			return
		}
		text = text[len(l):]
	}
	if m.NoNames && strings.HasPrefix(text, "Name: ") {
		text = text[strings.IndexByte(text, '\n')+1:]
	}
	segs := m.G[g].segs
	f := float64(ppem) / float64(upm)
	wrong := map[[2]int]bool{}
	check := func(px, py int, dark, light bool, what string) bool {
		x := (float64(px-xpad) + 0.5) / f
		y := (float64(height-(py-ypad))-0.5)/f - float64(desc)
		box := px >= xpad && px < xpad+width && py >= ypad && py < ypad+height
		inside, sure := false, true
		if box {
			inside, sure = inkOf(segs, x, y, 1.5/f+m.G[g].tol)
		}
		if !sure {
			return true
		}
		c.Count("pixels", 1)
		if inside && !dark || !inside && !light {
			if wrong[[2]int{px, py}] = true; len(wrong) < 3 { // the rasterizer may be off where edges cancel
				return true
			}
			c.Fail("pixel", "fontcmd %s: pixel %d,%d (%.0f,%.0f in the font) is inside: %v, but %s", run.desc, px, py, x, y, inside, what)
			return false
		}
		return true
	}
	if out == "" {
		rows := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
		if len(rows) != H {
			c.Fail("drawn rows", "fontcmd %s: %d rows instead of %d", run.desc, len(rows), H)
			return
		}
		for y, row := range rows {
			if len(row) != W {
				c.Fail("drawn columns", "fontcmd %s: row %d has %d columns instead of %d", run.desc, y, len(row), W)
				return
			}
			for x := 0; x < W && ratio == 1; x++ {
				if !check(x, y, row[x] == '$', row[x] == ' ', fmt.Sprintf("%q", row[x])) {
					return
				}
			}
		}
		c.Count("images", 1)
		return
	}
	img, format := t.image(run, run.now)
	if img == nil {
		return
	}
	if want := map[string]string{".png": "png", ".jpg": "jpeg", ".jpeg": "jpeg", ".gif": "gif", ".tiff": "tiff"}[ext]; format != want {
		c.Fail("image format", "fontcmd %s: %s instead of %s", run.desc, format, want)
		return
	}
	if d := img.Bounds().Size(); byWidth && (d.X != W || d.Y != H) {
		// one size larger, also in the dimensions
		w1 := int(float64(ppem+1)*float64(adv)/float64(upm) + 0.5)
		h1 := int(float64(ppem+1)*float64(asc+desc)/float64(upm) + 0.5)
		p1 := int(float64(w1)*0.2 + 0.5)
		X, Y := w1+2*p1, h1+2*p1
		if ratio != 1 {
			X = int(float64(X)*ratio + 0.5)
		}
		if d.X < W || X*scale < d.X || d.Y < H || Y*scale < d.Y {
			c.Fail("image width", "fontcmd %s: %dx%d pixels instead of %dx%d", run.desc, d.X, d.Y, W, H)
		}
		return
	} else if d.X != W || d.Y != H {
		c.Fail("image size", "fontcmd %s: %dx%d pixels instead of %dx%d", run.desc, d.X, d.Y, W, H)
		return
	}
	if ratio != 1 || ext != ".png" && ext != ".tiff" {
		return
	}
	b := img.Bounds().Min
	for i := 0; i < 600; i++ {
		x, y := r.Intn(W/scale), r.Intn(H/scale)
		v, _, _, _ := img.At(b.X+x*scale+r.Intn(scale), b.Y+y*scale+r.Intn(scale)).RGBA()
		if !check(x, y, v>>8 < 40, v>>8 > 215, fmt.Sprintf("has value %d", v>>8)) {
			return
		}
	}
}

// image decodes the image that was written.
func (t *cli) image(run *ran, files map[string]string) (image.Image, string) {
	for n, b := range files {
		if !strings.HasPrefix(n, "out") || run.before[n] == b {
			continue
		}
		cfg, _, err := image.DecodeConfig(strings.NewReader(b))
		if err == nil && cfg.Width*cfg.Height > 1<<26 {
			return nil, ""
		}
		img, format, err := image.Decode(strings.NewReader(b))
		if err != nil {
			t.c.Attach(n, []byte(b))
			t.c.Fail("image", "fontcmd %s: %s cannot be decoded: %v", run.desc, n, err)
			return nil, ""
		}
		t.c.Count("images", 1)
		return img, format
	}
	return nil, ""
}
