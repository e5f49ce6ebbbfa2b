package main

import "strconv"

// format is the text fmt.Sprintf makes: the literal parts of a constant format
// are kept as such, each verb is an uninterpreted function of its argument,
// except that %s and %v of a string are the string and strconv.Quote is %q.
func (e *Engine) format(s *State, f *Term, args *Term) *Term {
	c := e.C
	unknown := func() *Term { return c.NewSym("formatted", SStr) }
	var as []*Term
	q := args
	for q.Op == "snoc" {
		as = append([]*Term{q.Args[1]}, as...)
		q = q.Args[0]
	}
	if q.Op != "seqnil" {
		return unknown()
	}
	for _, a := range as {
		if a.Op != "vbox" {
			return unknown()
		}
		for _, x := range a.Args {
			if x.Sort != SStr && x.Sort != SInt && x.Sort != SF && x.Sort != SBool {
				return unknown()
			}
		}
	}
	if f.Op != "str" {
		return c.App("fmt.Sprintf", SStr, append([]*Term{f}, as...)...)
	}
	var parts []*Term
	txt := f.Name
	lit := ""
	k := 0
	for i := 0; i < len(txt); i++ {
		if txt[i] != '%' {
			lit += string(txt[i])
			continue
		}
		j := i + 1
		for j < len(txt) && (txt[j] >= '0' && txt[j] <= '9' || txt[j] == '.' || txt[j] == '+' || txt[j] == '-' || txt[j] == '#' || txt[j] == ' ') {
			j++
		}
		if j >= len(txt) || txt[j] == '[' || txt[j] == '*' {
			return unknown()
		}
		if txt[j] == '%' && j == i+1 {
			lit += "%"
			i = j
			continue
		}
		if k >= len(as) {
			return unknown()
		}
		parts = append(parts, c.Str(lit), e.verb(txt[i:j+1], as[k]))
		lit = ""
		k++
		i = j
	}
	if k != len(as) {
		return unknown()
	}
	return c.SCat(append(parts, c.Str(lit))...)
}

func (e *Engine) verb(v string, a *Term) *Term {
	c := e.C
	id := 0
	for i, x := range e.C.tagTy {
		if x == "string" {
			id = i
		}
	}
	if a.Op == "vbox" && a.Name == strconv.Itoa(id) && id > 0 {
		switch v {
		case "%s", "%v":
			return a.Args[0]
		case "%q":
			return c.App("ext:strconv.Quote#0", SStr, a.Args[0])
		}
	}
	if v == "%d" && a.Op == "vbox" {
		for i, x := range e.C.tagTy {
			if (x == "int" || x == "int64") && a.Name == strconv.Itoa(i) {
				return c.App("ext:strconv.FormatInt#0", SStr, a.Args[0], c.Int(10))
			}
		}
	}
	return c.App("fmt."+v, SStr, a)
}
