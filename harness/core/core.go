// Package core runs the case lists of the checks in worker processes and turns what the monitors observed into
// verdicts and evidence.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

// Check decides one property.
type Check struct {
	ID       string
	Rule     string // how cases are made and what makes one non-trivial
	Cases    func(tier string) int
	Run      func(c *Case)
	CPULimit int      // CPU seconds one case may take, default 60
	MemLimit int      // address space limit of a worker in MB, default 6144, -1 is none
	Workers  int      // default 8
	Require  []string // counters that must be positive at the end, or the run observed nothing
	Assume   []string
	Race     bool // run by a binary built with the race detector
	Setup    func() error
}

// Child has functions that a check executes in another process.
var Child = map[string]func(args []string){}

var checks = map[string]*Check{}

func Register(c *Check) { checks[c.ID] = c }

func Get(id string) *Check { return checks[id] }

// IDs lists the checks.
func IDs() []string {
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Case is the execution of one case: its random source and what was observed.
type Case struct {
	Idx   int
	Tier  string
	Seed  int64
	R     *rand.Rand
	Dir   string // scratch directory, shared by the cases of a worker and removed at the end
	res   Result
	files map[string][]byte
}

// Result is what a worker reports for a case.
type Result struct {
	Idx    int              `json:"i"`
	Counts map[string]int64 `json:"c,omitempty"`
	FPs    []uint64         `json:"f,omitempty"`
	Viol   []Violation      `json:"v,omitempty"`
	Sample string           `json:"s,omitempty"`
	Error  string           `json:"e,omitempty"` // harness error
}

// Violation is an observed violation: Key identifies what fails, Msg describes this occurrence.
type Violation struct {
	Key   string            `json:"k"`
	Msg   string            `json:"m"`
	Idx   int               `json:"i"`
	Files map[string]string `json:"f,omitempty"` // name to path in the spool directory
}

// Count adds n observations of a kind.
func (c *Case) Count(name string, n int) {
	if n != 0 {
		c.res.Counts[name] += int64(n)
	}
}

// Observed returns how many observations of a kind the case made so far.
func (c *Case) Observed(name string) int64 { return c.res.Counts[name] }

// FP records a fingerprint of a non-trivial thing that was observed.
func (c *Case) FP(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprintf(h, "%v", p)
		}
		h.Write([]byte{0xfe})
	}
	if len(c.res.FPs) < 4096 {
		c.res.FPs = append(c.res.FPs, h.Sum64())
	}
}

// Sample describes the case for the evidence file.
func (c *Case) Sample(format string, a ...any) {
	if c.res.Sample == "" {
		c.res.Sample = fmt.Sprintf(format, a...)
	}
}

// Attach stores a file that is kept when the case reports a violation.
func (c *Case) Attach(name string, b []byte) { c.files[name] = b }

// Fail reports a violation.
func (c *Case) Fail(key, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 2000 {
		msg = msg[:2000] + "..."
	}
	c.Count("violations", 1)
	for _, v := range c.res.Viol {
		if v.Key == key {
			return
		}
	}
	if len(c.res.Viol) < 20 {
		c.res.Viol = append(c.res.Viol, Violation{Key: key, Msg: msg, Idx: c.Idx})
	}
}

// Failed returns whether the case reported a violation.
func (c *Case) Failed() bool { return len(c.res.Viol) > 0 }

// HarnessError reports that the check itself is broken.
func (c *Case) HarnessError(format string, a ...any) {
	if c.res.Error == "" {
		c.res.Error = fmt.Sprintf(format, a...)
	}
}

// Try runs f and reports a panic that comes out of the library as a violation named what. It returns false
// when f panicked.
func (c *Case) Try(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if stop, is := e.(interface{ Stop() }); is {
				_ = stop
				panic(e)
			}
			where, lib := PanicFrame(e)
			if !lib {
				panic(e)
			}
			c.Fail("panic:"+where, "%s panicked: %v (in %s)", what, e, where)
			ok = false
		}
	}()
	f()
	return true
}

const libPkg = "github.com/tdewolff/font."

// PanicFrame finds the innermost frame of the library on the stack of a recovered panic. lib is false when the
// library was not executing.
func PanicFrame(e any) (string, bool) {
	pc := make([]uintptr, 200)
	n := runtime.Callers(2, pc)
	fr := runtime.CallersFrames(pc[:n])
	started := false
	for {
		f, more := fr.Next()
		if f.Function == "runtime.gopanic" || strings.HasPrefix(f.Function, "runtime.panic") || f.Function == "runtime.sigpanic" {
			started = true
		} else if started {
			if strings.HasPrefix(f.Function, libPkg) {
				return strings.TrimPrefix(f.Function, libPkg), true
			}
			if strings.HasPrefix(f.Function, "verif/") || strings.HasPrefix(f.Function, "main.") {
				return f.Function, false
			}
		}
		if !more {
			break
		}
	}
	return "?", false
}

func (c *Case) run(ch *Check) {
	defer func() {
		if e := recover(); e != nil {
			where, lib := PanicFrame(e)
			if lib {
				c.Fail("panic:"+where, "panicked: %v (in %s)", e, where)
			} else {
				buf := make([]byte, 4096)
				buf = buf[:runtime.Stack(buf, false)]
				c.HarnessError("case %d: harness panic: %v\n%s", c.Idx, e, buf)
			}
		}
	}()
	ch.Run(c)
}

// NewCase prepares a case.
func NewCase(idx int, tier string, seed int64, dir string) *Case {
	return &Case{Idx: idx, Tier: tier, Seed: seed, R: rand.New(rand.NewSource(seed*1000003 + int64(idx)*7919 + 17)), Dir: dir,
		res: Result{Idx: idx, Counts: map[string]int64{}}, files: map[string][]byte{}}
}

// RunCase executes one case in this process. spool is where files of violations are put.
func RunCase(ch *Check, idx int, tier string, seed int64, dir, spool string) Result {
	c := NewCase(idx, tier, seed, dir)
	c.run(ch)
	if len(c.res.Viol) > 0 && spool != "" {
		d := filepath.Join(spool, fmt.Sprintf("case-%d", idx))
		os.MkdirAll(d, 0o755)
		names := make([]string, 0, len(c.files))
		for n := range c.files {
			names = append(names, n)
		}
		sort.Strings(names)
		fm := map[string]string{}
		for _, n := range names {
			p := filepath.Join(d, n)
			if os.WriteFile(p, c.files[n], 0o644) == nil {
				fm[n] = p
			}
		}
		for i := range c.res.Viol {
			c.res.Viol[i].Files = fm
		}
	}
	return c.res
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
