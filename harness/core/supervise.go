package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Options struct {
	Verif    string
	Tier     string
	Seed     int64
	Only     int // run only this case when >= 0
	First, N int
}

// Worker executes the cases whose numbers arrive on stdin.
func Worker(ch *Check, o Options, dir, spool string) {
	if ch.MemLimit >= 0 && !ch.Race {
		mb := ch.MemLimit
		if mb == 0 {
			mb = 6144
		}
		lim := syscall.Rlimit{Cur: uint64(mb) << 20, Max: uint64(mb) << 20}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		debug.SetMemoryLimit(int64(mb) << 19)
	}
	debug.SetMaxStack(256 << 20)
	if ch.Setup != nil {
		if err := ch.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			os.Exit(3)
		}
	}
	out := bufio.NewWriter(os.Stdout)
	os.Stdout = os.Stderr // what the library prints is not part of the protocol
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		idx, err := strconv.Atoi(sc.Text())
		if err != nil {
			os.Exit(3)
		}
		r := RunCase(ch, idx, o.Tier, o.Seed, dir, spool)
		out.Write(mustJSON(r))
		out.WriteByte('\n')
		out.Flush()
	}
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 { // keep the head, that is where the cause is
		t.b = t.b[:1<<20]
	}
	return len(p), nil
}

func (t *tail) take() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.b)
	t.b = nil
	return s
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

func cpuTime(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 13 {
			u, _ := strconv.ParseFloat(f[11], 64)
			k, _ := strconv.ParseFloat(f[12], 64)
			return (u + k) / 100
		}
	}
	return 0
}

var frameRe = regexp.MustCompile(`(?m)^github\.com/tdewolff/font\.([^\s(]*(?:\(\*?\w+\)[^\s(]*)?)`)

// crashKey names a crash after the kind of fatal error and the innermost library frame.
func crashKey(log string) string {
	kind := "exit"
	for _, l := range strings.Split(log, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "runtime: out of memory") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			kind = l
			if len(kind) > 60 {
				kind = kind[:60]
			}
			if strings.HasPrefix(l, "fatal error: ") {
				break
			}
		}
	}
	fn := "?"
	if m := frameRe.FindStringSubmatch(log); m != nil {
		fn = m[1]
	}
	return "crash:" + strings.TrimSpace(kind) + ":" + fn
}

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

// Supervise runs all cases of the check and returns the exit code.
func Supervise(ch *Check, o Options) int {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "vrun-"+ch.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	spool := filepath.Join(scratch, "spool")
	os.MkdirAll(spool, 0o755)

	n := ch.Cases(o.Tier)
	var todo []int
	for i := 0; i < n; i++ {
		if o.Only >= 0 && i != o.Only {
			continue
		}
		if o.First > 0 && i < o.First || o.N > 0 && i >= o.First+o.N {
			continue
		}
		todo = append(todo, i)
	}
	workers := ch.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}
	if workers > len(todo) {
		workers = len(todo)
	}
	limit := float64(ch.CPULimit)
	if limit == 0 {
		limit = 60
	}

	spawn := func(w int) (*proc, error) {
		dir := filepath.Join(scratch, fmt.Sprintf("w%d", w))
		os.MkdirAll(dir, 0o755)
		cmd := exec.Command(os.Args[0], "-worker", "-prop", ch.ID, "-tier", o.Tier, "-seed", fmt.Sprint(o.Seed), "-verif", o.Verif, "-dir", dir, "-spool", spool)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
		if ch.Race {
			cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 history_size=3")
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		p := &proc{cmd: cmd, err: &tail{}}
		cmd.Stderr = p.err
		var err error
		if p.in, err = cmd.StdinPipe(); err != nil {
			return nil, err
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			return nil, err
		}
		p.out = bufio.NewReaderSize(out, 1<<20)
		return p, cmd.Start()
	}

	var mu sync.Mutex
	next := 0
	counts := map[string]int64{}
	fps := map[uint64]bool{}
	var samples []string
	byKey := map[string]Violation{}
	keyCount := map[string]int{}
	var keys []string
	known := map[string]finding{}
	for _, f := range loadFindings(filepath.Join(o.Verif, "known_findings.json")) {
		if f.Property == ch.ID {
			known[f.Key] = f
		}
	}
	done, hangs := 0, 0
	var harness []string
	// enough tells that the verdict is certain and that going on would only cost time; mu must be held
	enough := func() bool {
		fresh := false
		for _, k := range keys {
			if _, ok := known[k]; !ok {
				fresh = true
			}
		}
		if !fresh {
			return false
		}
		return os.Getenv("VERIF_STOP") != "" || 3 <= hangs || o.Tier == "quick" && 300*time.Second < time.Since(start)
	}
	addViol := func(v Violation) {
		keyCount[v.Key]++
		if _, ok := byKey[v.Key]; !ok {
			byKey[v.Key] = v
			keys = append(keys, v.Key)
		} else if v.Idx < byKey[v.Key].Idx {
			byKey[v.Key] = v
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			runtime.LockOSThread() // Pdeathsig is tied to the thread
			var p *proc
			defer func() {
				if p != nil {
					p.in.Close()
					p.cmd.Wait()
				}
			}()
			for {
				mu.Lock()
				if next >= len(todo) || len(harness) > 0 || enough() {
					mu.Unlock()
					return
				}
				idx := todo[next]
				next++
				mu.Unlock()
				if p == nil {
					var err error
					if p, err = spawn(w); err != nil {
						mu.Lock()
						harness = append(harness, "cannot start worker: "+err.Error())
						mu.Unlock()
						return
					}
				}
				base := cpuTime(p.cmd.Process.Pid)
				wall := time.Now()
				fmt.Fprintf(p.in, "%d\n", idx)
				type line struct {
					b   []byte
					err error
				}
				got := make(chan line, 1)
				go func(r *bufio.Reader) {
					b, err := r.ReadBytes('\n')
					got <- line{b, err}
				}(p.out)
				hang, stuck := false, false
				var l line
				tick := time.NewTicker(500 * time.Millisecond)
			wait:
				for {
					select {
					case l = <-got:
						break wait
					case <-tick.C:
						if hang || stuck {
							if time.Since(wall) > 30*time.Second {
								p.cmd.Process.Kill()
							}
						} else if cpuTime(p.cmd.Process.Pid)-base > limit {
							hang = true
							wall = time.Now()
							p.cmd.Process.Signal(syscall.SIGQUIT)
						} else if time.Since(wall) > 780*time.Second {
							stuck = true
							wall = time.Now()
							p.cmd.Process.Signal(syscall.SIGQUIT)
						}
					}
				}
				tick.Stop()
				var r Result
				if l.err == nil && json.Unmarshal(l.b, &r) == nil {
					race := ""
					if ch.Race {
						race = p.err.take()
					}
					mu.Lock()
					done++
					for k, v := range r.Counts {
						counts[k] += v
					}
					for _, f := range r.FPs {
						fps[f] = true
					}
					if r.Sample != "" && len(samples) < 5 {
						samples = append(samples, fmt.Sprintf("case %d: %s", r.Idx, r.Sample))
					}
					for _, v := range r.Viol {
						addViol(v)
					}
					if r.Error != "" {
						harness = append(harness, r.Error)
					}
					if race != "" {
						for _, v := range parseRaces(race, idx) {
							counts["race_reports"]++
							addViol(v)
						}
					}
					mu.Unlock()
					continue
				}
				p.in.Close()
				werr := p.cmd.Wait()
				log := p.err.take()
				p = nil
				mu.Lock()
				done++
				if stuck && !hang {
					harness = append(harness, fmt.Sprintf("case %d made no progress (inconclusive)\n%s", idx, log))
				} else if hang {
					hangs++
					key := "hang"
					if m := frameRe.FindStringSubmatch(mainStack(log)); m != nil {
						key += ":" + m[1]
					}
					addViol(Violation{Key: key, Idx: idx, Msg: fmt.Sprintf("case used more than %v seconds of CPU time\n%s", limit, clip(mainStack(log), 3000))})
				} else if strings.Contains(log, "setup:") && !strings.Contains(log, "fatal error") {
					harness = append(harness, log)
				} else {
					addViol(Violation{Key: crashKey(log), Idx: idx, Msg: fmt.Sprintf("process ended: %v\n%s", werr, clip(log, 4000))})
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()

	// verdict
	sort.Strings(keys)
	nviol := 0
	seenKnown := map[string]bool{}
	for _, k := range keys {
		v := byKey[k]
		if _, ok := known[k]; ok {
			seenKnown[k] = true
			continue
		}
		nviol++
		dir := filepath.Join(o.Verif, "replay", fmt.Sprintf("%s-%s-%d-%d", ch.ID, o.Tier, o.Seed, v.Idx))
		os.MkdirAll(dir, 0o755)
		for name, src := range v.Files {
			if b, err := os.ReadFile(src); err == nil {
				os.WriteFile(filepath.Join(dir, name), b, 0o644)
			}
		}
		var txt bytes.Buffer
		fmt.Fprintf(&txt, "property %s\nkey %s\noccurrences %d\ncase %d tier %s seed %d\nreplay: bash /verif/check.sh %s %s -seed %d -only %d\n\n%s\n", ch.ID, k, keyCount[k], v.Idx, o.Tier, o.Seed, ch.ID, o.Tier, o.Seed, v.Idx, v.Msg)
		name := filepath.Join(dir, fmt.Sprintf("violation-%d.txt", nviol))
		os.WriteFile(name, txt.Bytes(), 0o644)
		if nviol <= 20 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, name)
			fmt.Printf("  key=%s occurrences=%d case=%d\n  %s\n", k, keyCount[k], v.Idx, clip(strings.ReplaceAll(v.Msg, "\n", "\n  "), 1200))
		}
	}
	kk := make([]string, 0)
	for k := range seenKnown {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, known[k].What)
	}
	cov := map[string]any{
		"evaluations":         done,
		"distinct_nontrivial": len(fps),
		"rule":                ch.Rule,
		"samples":             samples,
		"observed":            counts,
	}
	if len(kk) > 0 {
		cov["known_findings_observed"] = kk
	}
	ev := map[string]any{
		"property": ch.ID, "tier": o.Tier, "seed": o.Seed, "level": "exploration",
		"coverage": cov, "assumptions": ch.Assume, "wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	if ch.Assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(o.Verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if o.Only < 0 && o.N == 0 {
		if err := os.WriteFile(filepath.Join(o.Verif, "evidence", ch.ID+".json"), append(b, '\n'), 0o644); err != nil {
			harness = append(harness, err.Error())
		}
	} else {
		fmt.Println(string(b))
	}
	names := make([]string, 0)
	for k := range counts {
		names = append(names, k)
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, k := range names {
		fmt.Fprintf(&sb, " %s=%d", k, counts[k])
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct,%s; %d violations in %.1fs\n", ch.ID, o.Tier, o.Seed, done, len(fps), sb.String(), nviol, time.Since(start).Seconds())
	if nviol > 0 {
		return 1
	}
	if len(harness) > 0 {
		for i, h := range harness {
			if i < 5 {
				fmt.Fprintln(os.Stderr, "HARNESS ERROR:", clip(h, 6000))
			}
		}
		return 2
	}
	if o.Only < 0 && o.N == 0 {
		for _, k := range ch.Require {
			if counts[k] <= 0 {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: nothing observed for %q\n", k)
				return 2
			}
		}
		if done == 0 || len(fps) == 0 {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE: nothing observed")
			return 2
		}
	}
	return 0
}

func loadFindings(name string) []finding {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil
	}
	var d struct {
		Known []finding `json:"known"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		return nil
	}
	return d.Known
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// mainStack returns the stack of the goroutine that executed the case.
func mainStack(log string) string {
	for _, g := range strings.Split(log, "\n\n") {
		if strings.Contains(g, "core.RunCase") {
			return g
		}
	}
	return log
}

var raceFn = regexp.MustCompile(`(?m)^  (github\.com/tdewolff/font\.\S+)\(`)

// parseRaces extracts race detector reports, one per pair of accesses.
func parseRaces(log string, idx int) []Violation {
	var out []Violation
	for _, r := range strings.Split(log, "==================") {
		if !strings.Contains(r, "WARNING: DATA RACE") {
			continue
		}
		var fns []string
		for _, part := range strings.Split(r, "\n\n") {
			if strings.Contains(part, " at 0x") || strings.Contains(part, "revious ") {
				if m := raceFn.FindStringSubmatch(part); m != nil {
					fns = append(fns, strings.TrimPrefix(m[1], "github.com/tdewolff/font."))
				}
			}
		}
		if len(fns) == 0 {
			continue // not in the library
		}
		sort.Strings(fns)
		out = append(out, Violation{Key: "race:" + strings.Join(fns, "+"), Idx: idx, Msg: clip(r, 4000)})
	}
	return out
}
