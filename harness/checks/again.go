package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tdewolff/font"
	"golang.org/x/image/font/sfnt"

	"verif/core"
	"verif/ref"
	"verif/synth"
	"verif/wrap"
)

func init() {
	core.Register(&core.Check{ID: "C27", Cases: byTier(1000, 30000), Run: runC27, Require: []string{"outputs", "repetitions", "subset outputs", "merge outputs", "rename outputs", "converted outputs", "WOFF2 outputs", "repetitions after queries", "outputs in another process", "repetitions at another time"},
		Rule: "random histories of subset, merge, rename, conversion from other libraries, write and WOFF2 encoding on random and real fonts are executed repeatedly: in the same process, with random queries and other work in between, at another time, and in other processes with other environments; all outputs, after blanking the modification time and the checksums that cover it, must be the same bytes; distinct cases are distinct outputs"})
	core.Register(&core.Check{ID: "C22", Cases: byTier(300, 10000), Run: runC22, Race: true, Require: []string{"answers", "goroutines", "concurrent subsets", "concurrent writes", "concurrent WOFF2", "concurrent merges", "concurrent parses", "concurrent texts", "interleavings", "corpus fonts"},
		Rule: "a freshly parsed font is queried, subset, written and merged into other fonts by many goroutines that start at once in different orders with injected yields and delays, under the race detector; every answer must equal the one of a separately parsed font that is asked sequentially; distinct cases are distinct orders in which the goroutines finished their operations"})
	core.Child["C27"] = childC27
}

// history executes a random history on a font and returns the outputs. noise, when not nil, makes queries in between.
func history(seed int64, b []byte, noise *rand.Rand) (names []string, outs [][]byte) {
	r := rand.New(rand.NewSource(seed))
	add := func(name string, out []byte) {
		names = append(names, name)
		outs = append(outs, out)
	}
	f, err := font.ParseSFNT(b, 0)
	if err != nil {
		add("error "+err.Error(), nil)
		return
	}
	rf, err := ref.Parse(b, 0)
	if err != nil {
		panic(err)
	}
	stir := func(f *SF) {
		if noise == nil {
			return
		}
		for i := noise.Intn(3); i >= 0; i-- {
			switch noise.Intn(7) {
			case 0:
				take(f, questions(noise, rf, 20))
			case 1:
				f.Write()
			case 2:
				f.WriteWOFF2()
			case 3:
				n := int(f.NumGlyphs())
				if s, err := f.Subset(toU16(randGlyphList(noise, n, 1+noise.Intn(n))), font.SubsetOptions{Tables: font.KeepAllTables}); err == nil {
					s.SetGlyphNames(synth.RandNames(noise, int(s.NumGlyphs()), true))
					s.Write()
				}
			case 4:
				for g := 0; g < int(f.NumGlyphs()); g++ {
					f.GlyphToUnicode(uint16(g))
				}
			case 5:
				f.FindGlyphName("A")
				f.FindGlyphName("none")
			case 6:
				font.ParseSFNT(b, 0)
			}
		}
	}
	stir(f)
	if tt, err := freetypeParse(b); err == nil {
		for i := 0; i < 3; i++ { // the order of a map is another one each time
			add("converted", stamp(font.FromGoFreetype(tt)))
		}
	}
	if gs, err := sfnt.Parse(b); err == nil {
		add("converted", stamp(font.FromGoSFNT(gs)))
	}
	add("parsed", stamp(f.Write()))
	for i := 1 + r.Intn(4); i > 0; i-- {
		n := int(f.NumGlyphs())
		op := ""
		var err error
		sub := r.Int63()
		rr := rand.New(rand.NewSource(sub))
		switch rr.Intn(6) {
		case 0, 1, 2:
			op = "subset"
			list := toU16(randGlyphList(rr, n, 1+rr.Intn(n)))
			opt := [][]string{font.KeepAllTables, font.KeepAllTables, font.KeepMinTables, font.KeepPDFTables}[rr.Intn(4)]
			var s *SF
			if s, err = f.Subset(list, font.SubsetOptions{Tables: opt}); err == nil {
				if len(opt) == 1 && opt[0] == "pdf" {
					stir(f)
					add("subset pdf", stamp(s.Write()))
					break
				}
				f = s
			}
		case 3, 4:
			op = "merge"
			o := synth.Opt{CFF: 1, MaxN: 60}
			if f.IsCFF {
				o.CFF = 2
			}
			o.Glyph.NoNotdef = true
			var g *SF
			if g, err = font.ParseSFNT(synth.Random(rr, o).Bytes, 0); err == nil {
				err = f.Merge(g, font.MergeOptions{RearrangeCmap: rr.Intn(2) == 0})
			}
		case 5:
			op = "rename"
			err = f.SetGlyphNames(synth.RandNames(rr, n, rr.Intn(2) == 0))
		}
		if err != nil {
			add(op+" error "+err.Error(), nil)
			continue
		}
		stir(f)
		add(op, stamp(f.Write()))
		if rr.Intn(3) == 0 {
			w, err := f.WriteWOFF2()
			if err != nil {
				add("WOFF2 error "+err.Error(), nil)
			} else {
				add("WOFF2", w)
			}
		}
	}
	// the answers depend on nothing else either
	s := take(f, Questions{Glyphs: probeGlyphs(rand.New(rand.NewSource(1)), int(f.NumGlyphs()), 40), Names: extraNames, Tables: true})
	var keys []string
	keys = append(keys, s.keys...)
	sort.Strings(keys)
	var a strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&a, "%s: %s\n", k, s.vals[k])
	}
	add("answers", []byte(a.String()))
	return
}

// caseC27 makes the font and history of a case.
func caseC27(c *core.Case) (what string, b []byte, seed int64) {
	o := subsettable(c, 0)
	o.MaxN = 60
	what, b = editFont(c, o, true)
	return what, b, c.R.Int63()
}

func digest(names []string, outs [][]byte) string {
	h := fnv.New128a()
	for i := range names {
		fmt.Fprintf(h, "%s %d\n", names[i], len(outs[i]))
		h.Write(outs[i])
	}
	return hex.EncodeToString(h.Sum(nil))
}

const batchC27 = 20

func childC27(args []string) {
	var tier string
	var seed int64
	var first, n int
	fmt.Sscan(args[0], &tier)
	fmt.Sscan(args[1], &seed)
	fmt.Sscan(args[2], &first)
	fmt.Sscan(args[3], &n)
	for i := 0; i < n; i++ {
		c := core.NewCase(first+i, tier, seed, "")
		_, b, s := caseC27(c)
		fmt.Println(digest(history(s, b, nil)))
	}
}

func runC27(c *core.Case) {
	what, b, seed := caseC27(c)
	c.Attach("font.bin", b)
	compare := func(how string, n1, n2 []string, o1, o2 [][]byte) bool {
		if strings.Join(n1, "\n") != strings.Join(n2, "\n") {
			c.Fail("different outcome", "%s: history %q becomes %q %s", what, n1, n2, how)
			return false
		}
		for i := range o1 {
			if !bytes.Equal(o1[i], o2[i]) {
				c.Attach("first.bin", o1[i])
				c.Attach("second.bin", o2[i])
				k := 0
				for k < len(o1[i]) && k < len(o2[i]) && o1[i][k] == o2[i][k] {
					k++
				}
				c.Fail("different "+n1[i], "%s: output %d of history %q differs %s: %d and %d bytes, first at %d", what, i, n1, how, len(o1[i]), len(o2[i]), k)
				return false
			}
		}
		return true
	}
	if !c.Try("history", func() {
		n1, o1 := history(seed, append([]byte{}, b...), nil)
		for i, o := range o1 {
			c.FP(o)
			c.Count("outputs", 1)
			if o != nil {
				c.Count(strings.Fields(n1[i])[0]+" outputs", 1)
			}
		}
		k := 2
		if c.Tier == "thorough" {
			k = 4
		}
		for i := 0; i < k; i++ {
			n2, o2 := history(seed, append([]byte{}, b...), nil)
			c.Count("repetitions", 1)
			if !compare("when repeated", n1, n2, o1, o2) {
				return
			}
		}
		n2, o2 := history(seed, append([]byte{}, b...), c.R)
		c.Count("repetitions after queries", 1)
		if !compare("with queries in between", n1, n2, o1, o2) {
			return
		}
		if c.Idx%400 == 0 {
			time.Sleep(1100 * time.Millisecond)
			n2, o2 := history(seed, append([]byte{}, b...), nil)
			c.Count("repetitions at another time", 1)
			compare("at another time", n1, n2, o1, o2)
		}
	}) {
		return
	}
	if c.Idx%batchC27 == 0 {
		n := min(batchC27, core.Get("C27").Cases(c.Tier)-c.Idx)
		cmd := exec.Command(os.Args[0], "-child", "C27", c.Tier, fmt.Sprint(c.Seed), fmt.Sprint(c.Idx), fmt.Sprint(n))
		cmd.Dir = c.Dir
		cmd.Env = append(os.Environ(), "TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "GOMAXPROCS="+fmt.Sprint(1+c.R.Intn(4)), "GOGC=20", "HOME=/nonexistent")
		out, err := cmd.Output()
		lines := strings.Fields(string(out))
		if err != nil || len(lines) != n {
			c.HarnessError("child: %v, %d lines", err, len(lines))
			return
		}
		for i := 0; i < n; i++ {
			d := core.NewCase(c.Idx+i, c.Tier, c.Seed, "")
			what, b, s := caseC27(d)
			names, outs := history(s, b, nil)
			c.Count("outputs in another process", len(outs))
			if x := digest(names, outs); x != lines[i] {
				c.Attach("font.bin", b)
				c.Fail("different in another process", "%s (case %d): the outputs of history %q differ in another process", what, c.Idx+i, names)
				return
			}
		}
	}
}

////////////////////////////////////////////////////////////////

// ask is an operation on a shared font with an answer.
type ask struct {
	name string
	do   func(f *SF) string
}

func hash(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d bytes %x", len(b), h.Sum64())
}

func asks(c *core.Case, rf *ref.Font) []ask {
	q := questions(c.R, rf, 24)
	var as []ask
	add := func(name string, do func(f *SF) string) { as = append(as, ask{name, do}) }
	for _, g := range q.Glyphs {
		g := uint16(g)
		add(fmt.Sprint("GlyphPath ", g), func(f *SF) string {
			segs, err := outline(f, g, 0, 0, 1)
			return short(fmt.Sprint(segs, err))
		})
		add(fmt.Sprint("metrics ", g), func(f *SF) string {
			x0, y0, x1, y1 := f.GlyphBounds(g)
			return fmt.Sprint(f.GlyphAdvance(g), f.GlyphVerticalAdvance(g), x0, y0, x1, y1)
		})
		add(fmt.Sprint("GlyphName ", g), func(f *SF) string { return f.GlyphName(g) })
		add(fmt.Sprint("GlyphToUnicode ", g), func(f *SF) string { return fmt.Sprint(f.GlyphToUnicode(g)) })
	}
	for i := 0; i+4 <= len(q.Runes); i += 4 {
		rs := q.Runes[i : i+4]
		add(fmt.Sprint("GlyphIndex ", rs), func(f *SF) string {
			s := ""
			for _, r := range rs {
				s += fmt.Sprint(f.GlyphIndex(r), " ")
			}
			return s
		})
	}
	for _, n := range q.Names {
		n := n
		add("FindGlyphName "+n, func(f *SF) string { return fmt.Sprint(f.FindGlyphName(n)) })
	}
	for i := 0; i+8 <= len(q.Pairs) && i < 400; i += 8 {
		ps := q.Pairs[i : i+8]
		add(fmt.Sprint("Kerning ", ps), func(f *SF) string {
			s := ""
			for _, p := range ps {
				s += fmt.Sprint(f.Kerning(uint16(p[0]), uint16(p[1])), " ")
			}
			return s
		})
	}
	n := rf.NumGlyphs()
	for i := 0; i < 3; i++ {
		list := toU16(randGlyphList(c.R, n, 1+c.R.Intn(min(n, 50))))
		opt := [][]string{font.KeepAllTables, font.KeepMinTables}[c.R.Intn(2)]
		add(fmt.Sprint("Subset ", len(list), opt), func(f *SF) string {
			s, err := f.Subset(list, font.SubsetOptions{Tables: opt})
			if err != nil {
				return err.Error()
			}
			return hash(stamp(s.Write()))
		})
	}
	list0 := toU16(randGlyphList(c.R, n, 1+c.R.Intn(min(n, 50))))
	for i := 0; i < 3; i++ {
		add(fmt.Sprint("texts ", i), func(f *SF) string {
			s := ""
			if f.Name != nil {
				for _, x := range f.Name.NameRecord {
					s += x.String() + "|"
				}
				for _, x := range f.Name.LangTag {
					s += x.String() + "|"
				}
				for k := 0; k < 20; k++ {
					s += fmt.Sprint(len(f.Name.Get(font.NameID(k))), " ")
				}
			}
			return short(s)
		})
	}
	for _, g := range q.Glyphs {
		g := uint16(g)
		add(fmt.Sprint("tables ", g), func(f *SF) string {
			s := ""
			if f.Glyf != nil {
				deps, err := f.Glyf.Dependencies(g)
				s = fmt.Sprint(hash(f.Glyf.Get(g)), f.Glyf.IsComposite(g), deps, err)
				if x, err := f.Glyf.Contour(g); err == nil {
					s += hash([]byte(x.String()))
				}
			}
			if f.CFF != nil {
				p, err := f.CFF.PrivateDICT(g)
				s += fmt.Sprint(p, err, *f.CFF.TopDICT())
			}
			return short(s)
		})
	}
	{ // other work in the same process
		var w []byte
		switch b := rf.Data; c.R.Intn(4) {
		case 0:
			w, _ = wrap.WOFF(c.R, rf)
		case 1:
			w, _ = wrap.WOFF2(c.R, rf)
		case 2:
			w = wrap.EOT(c.R, b)
		default:
			w = b
		}
		if len(w) < 1<<18 {
			for i := 0; i < 2; i++ {
				add(fmt.Sprint("Parse ", i), func(*SF) string {
					b, err := font.ToSFNT(append([]byte{}, w...))
					if err != nil {
						return err.Error()
					}
					g, err := font.ParseSFNT(b, 0)
					if err != nil {
						return err.Error()
					}
					return hash(stamp(g.Write()))
				})
			}
		}
		add("Subset and rename", func(f *SF) string {
			s, err := f.Subset(list0, font.SubsetOptions{Tables: font.KeepAllTables})
			if err != nil {
				return err.Error()
			}
			names := make([]string, s.NumGlyphs())
			for i := range names {
				names[i] = fmt.Sprint("renamed", i)
			}
			names[0] = ".notdef"
			if err := s.SetGlyphNames(names); err != nil {
				return err.Error()
			}
			return hash(stamp(s.Write())) + s.GlyphName(1)
		})
	}
	add("Write", func(f *SF) string { return hash(stamp(f.Write())) })
	add("lines", func(f *SF) string {
		a, d, l := f.VerticalMetrics()
		return fmt.Sprint(f.NumGlyphs(), f.UnitsPerEm(), a, d, l)
	})
	if n < 300 {
		add("WriteWOFF2", func(f *SF) string {
			w, err := f.WriteWOFF2()
			if err != nil {
				return err.Error()
			}
			return hash(w)
		})
		o := synth.Opt{CFF: 1, MaxN: 20, CmapSize: 5}
		if rf.CFF != nil {
			o.CFF = 2
		}
		o.Glyph.NoNotdef = true
		b := withoutRunes(c.R, synth.Random(c.R, o), func() map[rune]int {
			subs, _ := rf.Cmap()
			return ref.Lookup(subs)
		}()).Bytes
		add("Merge", func(f *SF) string {
			g, err := font.ParseSFNT(append([]byte{}, b...), 0)
			if err != nil {
				return err.Error()
			}
			if err := g.Merge(f, font.MergeOptions{RearrangeCmap: true}); err != nil {
				return err.Error()
			}
			return hash(stamp(g.Write()))
		})
	}
	return as
}

func runC22(c *core.Case) {
	o := synth.Opt{MaxN: 70}
	what, b := source(c, o, func(f *ref.Font) bool { return f.NumGlyphs() < 1500 && len(f.Data) < 1<<19 })
	alone, rf := load(c, what, b)
	if alone == nil {
		return
	}
	if c.R.Intn(3) == 0 && rf.Tables["post"] != nil && rf.Tables["name"] != nil { // fonts made by the library have caches as well
		b2 := b
		n := rf.NumGlyphs()
		list := toU16(randGlyphList(c.R, n, 1+c.R.Intn(n)))
		mk := func() *SF {
			f, err := font.ParseSFNT(append([]byte{}, b2...), 0)
			if err != nil {
				return nil
			}
			s, err := f.Subset(list, font.SubsetOptions{Tables: font.KeepAllTables})
			if err != nil {
				return nil
			}
			return s
		}
		if s := mk(); s != nil {
			if sr, err := ref.Parse(s.Write(), 0); err == nil {
				what += " subset"
				rf = sr
				alone = s
				shared(c, what, rf, alone, mk())
				return
			}
		}
	}
	f := parse(c, what, append([]byte{}, b...))
	if f == nil {
		return
	}
	shared(c, what, rf, alone, f)
}

func shared(c *core.Case, what string, rf *ref.Font, alone, f *SF) {
	as := asks(c, rf)
	want := make([]string, len(as))
	if !c.Try("queries", func() {
		for i, a := range as {
			want[i] = a.do(alone)
		}
	}) {
		return
	}
	G := 3 + c.R.Intn(8)
	var wg sync.WaitGroup
	var ready, clock int32
	type ev struct{ t, g, a int32 }
	evs := make([][]ev, G)
	type diff struct{ key, msg string }
	diffs := make([]*diff, G)
	focus := c.R.Intn(len(as)) // all begin with the same operation
	mode := c.R.Intn(3)
	for g := 0; g < G; g++ {
		g := g
		order := c.R.Perm(len(as))
		if mode == 0 {
			for i, a := range order {
				if a == focus {
					order[0], order[i] = order[i], order[0]
				}
			}
		} else if mode == 1 { // operations of one kind first
			kind := strings.Fields(as[focus].name)[0]
			sort.SliceStable(order, func(i, j int) bool {
				return strings.HasPrefix(as[order[i]].name, kind) && !strings.HasPrefix(as[order[j]].name, kind)
			})
		}
		delay := rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					where, _ := core.PanicFrame(e)
					diffs[g] = &diff{"panic:" + where, fmt.Sprintf("panicked: %v", e)}
				}
			}()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < int32(G) {
				runtime.Gosched()
			}
			for _, a := range order {
				switch delay.Intn(8) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(delay.Intn(50)) * time.Microsecond)
				}
				got := as[a].do(f)
				evs[g] = append(evs[g], ev{atomic.AddInt32(&clock, 1), int32(g), int32(a)})
				if got != want[a] && diffs[g] == nil {
					diffs[g] = &diff{"answer " + strings.Fields(as[a].name)[0], fmt.Sprintf("%s answers %q, alone %q", as[a].name, cut(got), cut(want[a]))}
				}
			}
		}()
	}
	wg.Wait()
	for _, d := range diffs {
		if d != nil {
			c.Fail(d.key, "%s with %d goroutines: %s", what, G, d.msg)
		}
	}
	var all []ev
	for _, e := range evs {
		all = append(all, e...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].t < all[j].t })
	switches := 0
	h := fnv.New64a()
	for i, e := range all {
		fmt.Fprint(h, e.g, e.a, " ")
		if i > 0 && all[i-1].g != e.g {
			switches++
		}
	}
	c.FP(h.Sum64())
	c.Count("interleavings", switches)
	c.Count("answers", len(all))
	c.Count("goroutines", G)
	for _, e := range all {
		switch strings.Fields(as[e.a].name)[0] {
		case "Subset":
			c.Count("concurrent subsets", 1)
		case "Write":
			c.Count("concurrent writes", 1)
		case "WriteWOFF2":
			c.Count("concurrent WOFF2", 1)
		case "Merge":
			c.Count("concurrent merges", 1)
		case "Parse":
			c.Count("concurrent parses", 1)
		case "texts":
			c.Count("concurrent texts", 1)
		}
	}
}

func cut(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}
