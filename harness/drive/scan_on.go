//go:build !noscan

package drive

import "github.com/go-latex/latex"

const ScanOn = true

func (r *rec) scan(src string) {
	r.try(func() {
		toks, end := latex.VerifScan(src, len(src)+16)
		for _, t := range toks {
			r.add(t.Kind, t.Pos, t.Text)
		}
		r.add(len(toks) > len(src)+16)
		r.add("end", end.Kind, end.Pos)
	})
}

func (r *rec) scanOnly(src string) {
	r.try(func() {
		toks, _ := latex.VerifScan(src, len(src)+16)
		r.add(len(toks) > len(src)+16)
	})
}
