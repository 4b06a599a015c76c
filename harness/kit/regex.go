package kit

import (
	"strconv"
	"strings"

	"verifharness/sym"
)

// Search tells whether a regular expression finds itself in an ASCII text. It reads the part of the
// syntax the harnesses use (characters, escapes, classes, . | * + ? {n} {n,} {n,m}, groups, the flag i, ^ and $) and
// decides without branching on the text.
func Search(re, s string, fold bool) bool {
	p := &reParser{s: re, fold: fold}
	n := p.alt()
	if p.i != len(re) {
		panic("no reference for constraint " + re)
	}
	row := make([]bool, len(s)+1)
	for i := range row {
		row[i] = true
	}
	r := false
	for _, b := range n(s, row) {
		r = sym.Or(r, b)
	}
	return r
}

// an reNode takes the positions where a match of it may begin to the positions where it may end
type reNode func(s string, row []bool) []bool

type reParser struct {
	s    string
	i    int
	fold bool
}

func orRows(a, b []bool) []bool {
	r := make([]bool, len(a))
	for i := range r {
		r[i] = sym.Or(a[i], b[i])
	}
	return r
}

func (p *reParser) more() bool { return p.i < len(p.s) }

func (p *reParser) alt() reNode {
	n := p.concat()
	for p.more() && p.s[p.i] == '|' {
		p.i++
		a, b := n, p.concat()
		n = func(s string, row []bool) []bool { return orRows(a(s, row), b(s, row)) }
	}
	return n
}

func (p *reParser) concat() reNode {
	n := reNode(func(s string, row []bool) []bool { return row })
	for p.more() && p.s[p.i] != '|' && p.s[p.i] != ')' {
		a, b := n, p.repeat()
		n = func(s string, row []bool) []bool { return b(s, a(s, row)) }
	}
	return n
}

func (p *reParser) repeat() reNode {
	n := p.atom()
	for p.more() {
		lo, hi := 0, -1
		switch p.s[p.i] {
		case '*':
		case '+':
			lo = 1
		case '?':
			hi = 1
		case '{':
			end := strings.IndexByte(p.s[p.i:], '}') + p.i
			a, b, two := strings.Cut(p.s[p.i+1:end], ",")
			lo, _ = strconv.Atoi(a)
			if !two {
				hi = lo
			} else if b != "" {
				hi, _ = strconv.Atoi(b)
			}
			p.i = end
		default:
			return n
		}
		p.i++
		once := n
		n = func(s string, row []bool) []bool {
			for k := 0; k < lo; k++ {
				row = once(s, row)
			}
			most := hi - lo
			if hi < 0 {
				most = len(s)
			}
			sum := row
			for k := 0; k < most; k++ {
				row = once(s, row)
				sum = orRows(sum, row)
			}
			return sum
		}
	}
	return n
}

func (p *reParser) atom() reNode {
	c := p.s[p.i]
	p.i++
	switch c {
	case '^':
		return func(s string, row []bool) []bool {
			r := make([]bool, len(row))
			r[0] = row[0]
			return r
		}
	case '$':
		return func(s string, row []bool) []bool {
			r := make([]bool, len(row))
			r[len(s)] = row[len(s)]
			return r
		}
	case '(':
		before := p.fold
		if p.s[p.i] == '?' { // (?:x) (?i:x) (?i)
			for p.i++; p.s[p.i] != ':' && p.s[p.i] != ')'; p.i++ {
				if p.s[p.i] == 'i' {
					p.fold = true
				} else {
					panic("no reference for constraint " + p.s)
				}
			}
			p.i++
			if p.s[p.i-1] == ')' { // for what remains of the group around it
				return func(s string, row []bool) []bool { return row }
			}
		}
		n := p.alt()
		p.i++
		p.fold = before
		return n
	case '.':
		return p.one(func(b byte) bool { return b != '\n' })
	case '[':
		not := false
		if p.s[p.i] == '^' {
			not = true
			p.i++
		}
		set := func(b byte) bool { return false }
		for p.s[p.i] != ']' {
			lo := p.s[p.i]
			p.i++
			prev := set
			if lo == '\\' {
				esc := escape(p.s[p.i])
				p.i++
				set = func(b byte) bool { return sym.Or(prev(b), esc(b)) }
				continue
			}
			hi := lo
			if p.s[p.i] == '-' && p.s[p.i+1] != ']' {
				hi = p.s[p.i+1]
				p.i += 2
			}
			set = func(b byte) bool { return sym.Or(prev(b), sym.And(b >= lo, b <= hi)) }
		}
		p.i++
		in := p.folded(set)
		if not {
			return p.raw(func(b byte) bool { return sym.Not(in(b)) })
		}
		return p.raw(in)
	case '\\':
		esc := escape(p.s[p.i])
		p.i++
		return p.one(esc)
	}
	return p.one(func(b byte) bool { return b == c })
}

func escape(c byte) func(b byte) bool {
	digit := func(b byte) bool { return sym.And(b >= '0', b <= '9') }
	word := func(b byte) bool {
		l := Lower(b)
		return sym.Or(sym.Or(digit(b), b == '_'), sym.And(l >= 'a', l <= 'z'))
	}
	switch c {
	case 'd':
		return digit
	case 'D':
		return func(b byte) bool { return sym.Not(digit(b)) }
	case 'w':
		return word
	case 'W':
		return func(b byte) bool { return sym.Not(word(b)) }
	case 's', 'S':
		space := func(b byte) bool {
			return sym.Or(sym.Or(b == ' ', b == '\t'), sym.Or(b == '\n', sym.Or(b == '\r', b == '\f')))
		}
		if c == 'S' {
			return func(b byte) bool { return sym.Not(space(b)) }
		}
		return space
	}
	if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
		panic("no reference for the escape " + string(rune(c)))
	}
	return func(b byte) bool { return b == c }
}

// folded is the set closed under the case of letters, where case does not matter.
func (p *reParser) folded(set func(b byte) bool) func(b byte) bool {
	if !p.fold {
		return set
	}
	return func(b byte) bool {
		l := Lower(b)
		letter := sym.And(l >= 'a', l <= 'z')
		return sym.Or(set(b), sym.And(letter, sym.Or(set(l), set(l-32))))
	}
}

func (p *reParser) one(set func(b byte) bool) reNode { return p.raw(p.folded(set)) }

func (p *reParser) raw(set func(b byte) bool) reNode {
	return func(s string, row []bool) []bool {
		r := make([]bool, len(row))
		for i := 0; i < len(s); i++ {
			r[i+1] = sym.And(row[i], set(s[i]))
		}
		return r
	}
}
