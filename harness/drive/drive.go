// Package drive runs a case against go-latex/latex and reports what can be
// observed from outside.  The same text, against the reference packages, is
// generated as package driveref (build.sh).
package drive

import (
	"fmt"
	"io"
	"log"

	"github.com/go-latex/latex/verifharness/cs"
)

func init() { log.SetOutput(io.Discard) }

type rec struct{ o cs.Obs }

func (r *rec) add(xs ...any) {
	for _, x := range xs {
		switch v := x.(type) {
		case int:
			r.o = append(r.o, fmt.Sprint(v))
		case bool:
			r.o = append(r.o, fmt.Sprint(v))
		case float64, string:
			r.o = append(r.o, v)
		default:
			r.o = append(r.o, fmt.Sprintf("%v", v))
		}
	}
}

// try runs f; a panic is an observation.
func (r *rec) try(f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			Last = fmt.Sprint(e)
			r.add("panic")
			ok = false
		}
	}()
	f()
	return true
}

// Last is the last panic value or error seen, for reports.
var Last string

var runs = map[string]func(r *rec, c *cs.Case){
	"source": runSource, "tree": runTree,
	"pack": runPack, "glue": runPack, "kern": runKern, "size": runSize, "ship": runShip, "chars": runChars, "auto": runAuto,
	"ListOf": runLists, "HListOf": runLists, "HListOf-kern": runLists, "VListOf": runLists, "HCentered": runLists, "VCentered": runLists,
	"typeset": runTypeset, "render": runRender, "metrics": runMetrics, "symbol": runSymbol, "canvas": runCanvas,
	"sets": runSets, "kinds": runKinds, "many": runMany, "fonts": runFonts,
}

// Observe runs the case.
func Observe(c *cs.Case) cs.Obs {
	r := &rec{}
	f := runs[c.K]
	if f == nil {
		panic("harness: unknown kind " + c.K)
	}
	f(r, c)
	return r.o
}
