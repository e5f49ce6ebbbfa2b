package latex

import "sort"

// VerifMacros lists the names the parser knows.
func VerifMacros() []string {
	p := newParser("")
	var o []string
	for k := range p.macros {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
