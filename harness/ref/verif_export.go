package latex

import (
	"strings"

	gotoken "go/token"
)

// VerifTok is a token as the scanner reports it.
type VerifTok struct {
	Kind string
	Pos  int
	Text string
}

// VerifScan runs the scanner over src, up to max tokens.  It uses only what
// the repository's own scanner tests use.
func VerifScan(src string, max int) (toks []VerifTok, end VerifTok) {
	sc := newScanner(strings.NewReader(src))
	for sc.Next() {
		t := sc.Token()
		toks = append(toks, VerifTok{t.Kind.String(), int(gotoken.Pos(t.Pos)), t.Text})
		if len(toks) > max {
			break
		}
	}
	t := sc.Token()
	return toks, VerifTok{t.Kind.String(), int(t.Pos), t.Text}
}
