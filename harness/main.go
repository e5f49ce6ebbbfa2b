// Command verifharness runs cases of a property against the code in /repo
// and compares what can be observed with the reference.
//
//	verifharness -p C10 -t 10s -seed 1 -out replay.json [-j 6]
//	verifharness -replay replay.json
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/go-latex/latex/verifharness/cs"
	"github.com/go-latex/latex/verifharness/drive"
	"github.com/go-latex/latex/verifharness/driveref"
	"github.com/go-latex/latex/verifharness/gen"
)

var (
	prop    = flag.String("p", "", "property")
	dur     = flag.Duration("t", 8*time.Second, "time to spend")
	seed    = flag.Int64("seed", 1, "seed")
	out     = flag.String("out", "", "replay file to write when a case fails")
	replay  = flag.String("replay", "", "replay file to run")
	jobs    = flag.Int("j", 6, "processes")
	maxN    = flag.Int("n", 1<<30, "cases")
	child   = flag.Int("child", -1, "internal: child number")
	state   = flag.String("state", "", "internal: file the child notes its progress in")
	hangSec = flag.Int("hang", 20, "seconds after which a case counts as not terminating")
)

// Result is what a run reports.
type Result struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Cases    int64    `json:"cases"`
	Distinct int      `json:"distinct_outcomes"`
	Scan     bool     `json:"scanner_observed"`
	Failed   bool     `json:"failed"`
	What     string   `json:"what,omitempty"`
	Case     *cs.Case `json:"case,omitempty"`
	Got      cs.Obs   `json:"got,omitempty"`
	Want     cs.Obs   `json:"want,omitempty"`
}

func main() {
	flag.Parse()
	switch {
	case *replay != "":
		raw, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var res Result
		if err := json.Unmarshal(raw, &res); err != nil || res.Case == nil {
			fmt.Fprintln(os.Stderr, "no case in", *replay)
			os.Exit(2)
		}
		limits()
		what, _, _ := check(res.Case)
		if what != "" {
			fmt.Println("FAILS:", what)
			os.Exit(1)
		}
		fmt.Println("passes")
	case *child >= 0:
		runChild()
	default:
		parent()
	}
}

func limits() {
	debug.SetMaxStack(256 << 20)
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(100 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 2<<30 {
				fmt.Fprintln(os.Stderr, "out of memory: more than 2 GB in use")
				os.Exit(97)
			}
		}
	}()
}

// check runs one case; what is empty if it passes.
func check(c *cs.Case) (what string, got, want cs.Obs) {
	type res struct{ o cs.Obs }
	done := make(chan cs.Obs, 1)
	go func() { done <- drive.Observe(c) }()
	select {
	case got = <-done:
	case <-time.After(time.Duration(*hangSec) * time.Second):
		return fmt.Sprintf("does not terminate (no result after %d s)", *hangSec), nil, nil
	}
	want = driveref.Observe(c)
	return diff(got, want), got, want
}

func diff(got, want cs.Obs) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("observation %d: got nothing, want %s", i, ctx(want, i))
		case i >= len(want):
			return fmt.Sprintf("observation %d: got %s, want nothing", i, ctx(got, i))
		case !eq(got[i], want[i]):
			s := fmt.Sprintf("observation %d: got %s, want %s", i, ctx(got, i), ctx(want, i))
			if got[i] == "panic" || got[i] == "error" {
				s += " (" + drive.Last + ")"
			}
			return s
		}
	}
	return ""
}

func ctx(o cs.Obs, i int) string {
	lo, hi := i-4, i+3
	if lo < 0 {
		lo = 0
	}
	if hi > len(o) {
		hi = len(o)
	}
	var sb strings.Builder
	for k := lo; k < hi; k++ {
		if k == i {
			sb.WriteString(" >>")
		}
		s := fmt.Sprintf("%q", fmt.Sprint(o[k]))
		if len(s) > 200 {
			s = s[:200] + "…"
		}
		sb.WriteString(" " + s)
	}
	return "[" + sb.String() + " ]"
}

func eq(a, b any) bool {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 != ok2 {
		return false
	}
	if !ok1 {
		return a == b
	}
	if x == y || (math.IsNaN(x) && math.IsNaN(y)) {
		return true
	}
	if math.IsInf(x, 0) || math.IsInf(y, 0) {
		return false
	}
	return math.Abs(x-y) <= 1e-9*(1+math.Abs(x)+math.Abs(y))
}

func runChild() {
	limits()
	f, err := os.OpenFile(*state, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		os.Exit(2)
	}
	end := time.Now().Add(*dur)
	var b [16]byte
	var n int64
	seen := map[uint64]struct{}{}
	for i := *child; i < *maxN && time.Now().Before(end); i += *jobs {
		binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
		binary.LittleEndian.PutUint64(b[8:], uint64(n))
		f.WriteAt(b[:], 0)
		c := gen.Case(*prop, *seed, i)
		what, got, want := check(c)
		n++
		if len(seen) < 1<<18 {
			seen[fingerprint(got)] = struct{}{}
		}
		if what != "" {
			if again, _, _ := check(c); again == "" {
				what += " (not on every run)"
			}
			c = shrink(c, func(c *cs.Case) bool { w, _, _ := check(c); return w != "" }, end.Add(5*time.Second))
			if w, g, v := check(c); w != "" {
				what, got, want = w, g, v
			}
			emit(&Result{Property: *prop, Seed: *seed, Cases: n, Failed: true, What: what, Case: c, Got: clean(got), Want: clean(want)})
			os.Exit(1)
		}
	}
	emit(&Result{Property: *prop, Seed: *seed, Cases: n, Distinct: len(seen)})
}

func clean(o cs.Obs) cs.Obs {
	var p cs.Obs
	for _, x := range o {
		if v, ok := x.(float64); ok && (math.IsInf(v, 0) || math.IsNaN(v)) {
			x = fmt.Sprint(v)
		}
		p = append(p, x)
	}
	return p
}

func fingerprint(o cs.Obs) uint64 {
	x := uint64(14695981039346656037)
	for _, v := range o {
		if s, ok := v.(string); ok {
			for i := 0; i < len(s); i++ {
				x = (x ^ uint64(s[i])) * 1099511628211
			}
		} else {
			x = (x ^ math.Float64bits(v.(float64))) * 1099511628211
		}
		x = (x ^ 255) * 1099511628211
	}
	return x
}

func emit(r *Result) {
	raw, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%s\n", raw)
}

// shrink makes a failing case smaller: shorter sources, fewer nodes.
func shrink(c *cs.Case, bad func(*cs.Case) bool, end time.Time) *cs.Case {
	for again := true; again; {
		again = false
		for i, s := range c.S {
			for w := len(s) / 2; w >= 1; w /= 2 {
				for p := 0; p+w <= len(c.S[i]); {
					if time.Now().After(end) {
						return c
					}
					d := *c
					d.S = append([]string(nil), c.S...)
					d.S[i] = c.S[i][:p] + c.S[i][p+w:]
					if ok(bad, &d) {
						*c = d
						again = true
					} else {
						p += w
					}
				}
			}
		}
		for _, t := range c.T {
			var walk func(n *cs.N)
			walk = func(n *cs.N) {
				for i := 0; i < len(n.C); {
					if time.Now().After(end) {
						return
					}
					old := n.C
					n.C = append(append([]*cs.N(nil), old[:i]...), old[i+1:]...)
					if ok(bad, c) {
						again = true
						continue
					}
					n.C = old
					i++
				}
				for _, x := range n.C {
					walk(x)
				}
			}
			walk(t)
		}
	}
	return c
}

func ok(bad func(*cs.Case) bool, c *cs.Case) (r bool) {
	defer func() {
		if recover() != nil {
			r = false // the case no longer makes sense
		}
	}()
	return bad(c)
}

func parent() {
	res := &Result{Property: *prop, Seed: *seed, Scan: drive.ScanOn}
	dir, err := os.MkdirTemp("", "verifharness")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	type kid struct {
		cmd   *exec.Cmd
		out   strings.Builder
		err   strings.Builder
		state string
	}
	var (
		mu   sync.Mutex
		wg   sync.WaitGroup
		fail []*Result
		self = "/proc/self/exe"
	)
	if p, err := os.Executable(); err == nil {
		self = p
	}
	kids := make([]*kid, *jobs)
	for j := range kids {
		k := &kid{state: filepath.Join(dir, fmt.Sprint(j))}
		kids[j] = k
		k.cmd = exec.Command(self, "-p", *prop, "-t", dur.String(), "-seed", fmt.Sprint(*seed), "-j", fmt.Sprint(*jobs), "-n", fmt.Sprint(*maxN),
			"-child", fmt.Sprint(j), "-state", k.state, "-hang", fmt.Sprint(*hangSec))
		k.cmd.Stdout, k.cmd.Stderr = &k.out, &limited{w: &k.err}
		k.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := k.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			timer := time.AfterFunc(*dur+time.Duration(4**hangSec)*time.Second, func() { k.cmd.Process.Kill() })
			err := k.cmd.Wait()
			timer.Stop()
			mu.Lock()
			defer mu.Unlock()
			var r Result
			if json.Unmarshal([]byte(k.out.String()), &r) == nil && r.Property != "" {
				res.Cases += r.Cases
				res.Distinct += r.Distinct
				if r.Failed {
					fail = append(fail, &r)
				}
				return
			}
			// the process died on a case
			raw, _ := os.ReadFile(k.state)
			if len(raw) < 16 {
				fmt.Fprintln(os.Stderr, "harness process failed:", err, k.err.String())
				return
			}
			i := int(binary.LittleEndian.Uint64(raw)) - 1
			n := int64(binary.LittleEndian.Uint64(raw[8:]))
			res.Cases += n
			msg := k.err.String()
			if p := strings.Index(msg, "fatal error"); p > 0 {
				msg = msg[p:]
			}
			if len(msg) > 400 {
				msg = msg[:400]
			}
			c := gen.Case(*prop, *seed, i)
			// make sure, alone in a process
			f := filepath.Join(dir, fmt.Sprintf("again%d.json", i))
			raw, _ = json.Marshal(&Result{Property: *prop, Case: c})
			os.WriteFile(f, raw, 0o644)
			again := exec.Command(self, "-replay", f, "-hang", fmt.Sprint(*hangSec))
			o, e := again.CombinedOutput()
			if e == nil {
				fmt.Fprintf(os.Stderr, "harness process died on case %d, which passes alone: %v %s\n", i, err, msg)
				if strings.Contains(msg, "fatal error") {
					fail = append(fail, &Result{Property: *prop, Seed: *seed, Failed: true, What: "the process crashes, not on every run: " + msg, Case: c})
				}
				return
			}
			if len(o) > 400 {
				o = o[:400]
			}
			fail = append(fail, &Result{Property: *prop, Seed: *seed, Failed: true, What: "the process crashes: " + msg + " / " + string(o), Case: c})
		}()
	}
	wg.Wait()
	if len(fail) > 0 {
		sort.Slice(fail, func(i, j int) bool { return size(fail[i].Case) < size(fail[j].Case) })
		r := fail[0]
		r.Cases, r.Scan = res.Cases, res.Scan
		if *out != "" {
			raw, _ := json.MarshalIndent(r, "", " ")
			if err := os.WriteFile(*out, append(raw, '\n'), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
		}
		r.Got, r.Want = nil, nil
		emit(r)
		os.Exit(1)
	}
	if res.Cases == 0 {
		fmt.Fprintln(os.Stderr, "no case was run")
		os.Exit(2)
	}
	emit(res)
}

func size(c *cs.Case) int {
	raw, _ := json.Marshal(c)
	return len(raw)
}

type limited struct {
	w *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n < 1<<16 {
		l.w.Write(p)
		l.n += len(p)
	}
	return len(p), nil
}
