package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

var repo = "/repo"

var patterns = []string{".", "./ast", "./token", "./tex", "./mtex/...", "./font/...", "./drawtex/...", "./internal/..."}

type report struct {
	Load    float64   `json:"load_seconds"`
	Results []*Result `json:"results"`
	Errors  []string  `json:"errors,omitempty"`
	Assumed []string  `json:"assumed_contracts,omitempty"`
}

func main() {
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "only contracts of this property")
	name := flag.String("func", "", "only contracts whose name contains this")
	out := flag.String("json", "", "write a report")
	verbose := flag.Bool("v", false, "show every obligation")
	jobs := flag.Int("j", runtime.NumCPU(), "parallel verifications")
	limit := flag.Duration("limit", 120*time.Second, "time limit per function")
	flag.StringVar(&repo, "repo", repo, "source tree")
	flag.Parse()
	t0 := time.Now()
	db, err := LoadSpecs(*dir)
	if err != nil {
		fmt.Println("contracts:", err)
		os.Exit(3)
	}
	type job struct {
		ct  *Contract
		idx int
	}
	var cts []*Contract
	for _, ct := range db.Contracts {
		if *prop != "" && !contains(ct.Props, *prop) {
			continue
		}
		if *name != "" && !strings.Contains(ct.Name, *name) {
			continue
		}
		cts = append(cts, ct)
	}
	rep := &report{}
	var mu sync.Mutex
	if *jobs > len(cts)+len(db.keepList) {
		*jobs = len(cts) + len(db.keepList)
	}
	p, err := Load(repo, patterns)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(3)
	}
	p.scanOwned(db)
	p.prepareFrozen(db)
	if err := newEngine(p, db, nil).prepare(); err != nil {
		fmt.Println("contracts:", err)
		os.Exit(3)
	}
	if f, err := os.Create(os.Getenv("GOVC_PROF")); err == nil {
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	ch := make(chan func(e *Engine))
	var wg sync.WaitGroup
	for i := 0; i < *jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sv := []*Solver{NewSolver("z3"), NewSolver("cvc5"), NewSolver("z3-new")}
			e := newEngine(p, db, sv)
			e.only = *prop
			for f := range ch {
				f(e)
			}
			for _, s := range sv {
				s.Close()
			}
		}()
	}
	e0 := newEngine(p, db, nil)
	for _, ct := range cts {
		ct := ct
		n := 0
		if ts, err := e0.Targets(ct); err != nil {
			mu.Lock()
			rep.Results = append(rep.Results, &Result{Target: ct.Name, Props: ct.Props, Err: err.Error()})
			mu.Unlock()
		} else {
			n = len(ts)
		}
		for i := 0; i < n; i++ {
			ch <- func(e *Engine) {
				ts, err := e.Targets(e.S.byKey(ct))
				var r *Result
				if err != nil || i >= len(ts) {
					r = &Result{Target: ct.Name, Props: ct.Props, Err: "cannot list the functions under this contract"}
				} else {
					r = e.Verify(ts[i], *limit)
				}
				mu.Lock()
				rep.Results = append(rep.Results, r)
				mu.Unlock()
			}
		}
	}
	for _, k := range db.keepList {
		if *prop != "" && !contains(k.Props, *prop) || *name != "" && !strings.Contains(k.name(), *name) {
			continue
		}
		ch <- func(e *Engine) {
			r := e.Lemma(e.S.keeps[k.Fn+"@O:"+k.Field], *limit)
			mu.Lock()
			rep.Results = append(rep.Results, r)
			mu.Unlock()
		}
	}
	close(ch)
	wg.Wait()
	for _, f := range db.frames {
		if (*prop == "" || contains(f.Props, *prop)) && (*name == "" || *name == "frame") {
			rep.Results = append(rep.Results, newFramer(p, f).run()...)
			rep.Assumed = append(rep.Assumed, f.ReadOnly...)
		}
	}
	for _, w := range db.writers {
		if (*prop == "" || contains(w.Props, *prop)) && (*name == "" || *name == "writers") {
			rep.Results = append(rep.Results, p.checkWriters(w))
		}
	}
	rep.Load = time.Since(t0).Seconds()
	sort.Slice(rep.Results, func(i, j int) bool { return rep.Results[i].Target < rep.Results[j].Target })
	for _, ct := range cts {
		if ct.Assumed {
			rep.Assumed = append(rep.Assumed, ct.Name)
		}
	}
	bad := len(rep.Errors)
	for _, e := range rep.Errors {
		fmt.Println("error:", e)
	}
	for _, r := range rep.Results {
		st := "ok  "
		if !r.ok() {
			st = "FAIL"
			bad++
		}
		fmt.Printf("%s %-60s %3d/%3d obligations %2d paths %d loops %.1fs %v\n", st, r.Target, r.Proved, r.Total, r.Paths, r.Loops, r.Time, r.Props)
		if r.Err != "" {
			fmt.Println("     error:", r.Err)
		}
		for _, f := range r.Failed {
			fmt.Println("     failed", f)
		}
		if *verbose {
			for _, o := range r.Obls {
				fmt.Printf("       %s %s %s %s [%s] %v\n", o.Status, o.Kind, o.Label, o.Pos, o.By, o.Time.Round(time.Millisecond))
			}
		}
	}
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
	}
	if bad > 0 {
		pprof.StopCPUProfile()
		os.Exit(1)
	}
}

// byKey finds a contract read in another database.
func (db *SpecDB) byKey(ct *Contract) *Contract {
	for _, x := range db.Contracts {
		if x.File == ct.File && x.Line == ct.Line && x.Name == ct.Name {
			return x
		}
	}
	return nil
}
