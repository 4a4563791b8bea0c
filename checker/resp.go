package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reply grammar: the text of a push to the reply list is split into constant characters and symbolic pieces and
// parsed as protocol messages.

type tok struct {
	ch byte
	t  *Term // nil: constant character
}

func toksOf(t *Term) []tok {
	var out []tok
	var add func(t *Term)
	add = func(t *Term) {
		if s, ok := t.strVal(); ok {
			for i := 0; i < len(s); i++ {
				out = append(out, tok{ch: s[i]})
			}
			return
		}
		if t.op == "concat" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		out = append(out, tok{t: t})
	}
	add(t)
	return out
}

type respMsg struct {
	kind  byte // '+', '-', ':', '$', 'n' (null), '*'
	count *Term
	text  []tok // line or payload
}

func crlfAt(ts []tok, i int) bool {
	return i+1 < len(ts) && ts[i].t == nil && ts[i].ch == '\r' && ts[i+1].t == nil && ts[i+1].ch == '\n'
}

// intOf reads the decimal number written by the tokens.
func intOf(ts []tok) *Term {
	if len(ts) == 1 && ts[0].t != nil && ts[0].t.op == "app" && ts[0].t.aux == "itoa" {
		return ts[0].t.args[0]
	}
	s := ""
	for _, k := range ts {
		if k.t != nil {
			return nil
		}
		s += string(k.ch)
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(v, 10) != s {
		return nil
	}
	return mkInt(v)
}

func tokLen(st *State, ts []tok) *Term {
	n := tZero
	for _, k := range ts {
		if k.t == nil {
			n = tAdd(n, tOne)
		} else {
			n = tAdd(n, lenOf(k.t))
		}
	}
	return n
}

// crlfFree: the text contains neither CR nor LF, whatever the data.
func (m *monitor) crlfFree(st *State, t *Term) bool {
	return m.noChar(t, '\r') && m.noChar(t, '\n')
}

func (m *monitor) noChar(t *Term, ch byte) bool {
	if s, ok := t.strVal(); ok {
		return strings.IndexByte(s, ch) < 0
	}
	if t.op == "concat" {
		for _, a := range t.args {
			if !m.noChar(a, ch) {
				return false
			}
		}
		return true
	}
	if t.op == "app" {
		switch t.aux {
		case "itoa", "strconv.FormatFloat", "strconv.FormatInt", "strconv.FormatBool", "fmt:%d", "fmt:%q", "strconv.Quote", "fmt:%f", "fmt:%g", "fmt:%t", "fmt:%x":
			return true
		case "replace":
			return m.cleanReplacer(t.args[0])
		case "strings.ReplaceAll":
			if old, ok := t.args[1].strVal(); ok {
				if m.noChar(t.args[2], ch) && (old == string(ch) || m.noChar(t.args[0], ch)) {
					return true
				}
			}
		case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
			return m.noChar(t.args[0], ch)
		}
	}
	return false
}

// parseMsg reads one message; ok is false (with a reason) if the text is not a well-formed message.
func (m *monitor) parseMsg(st *State, ts []tok) (msg *respMsg, rest []tok, why string) {
	if len(ts) == 0 {
		return nil, nil, "the reply text is empty"
	}
	if ts[0].t != nil {
		return nil, nil, "the reply does not start with a constant type character but with " + ts[0].t.String()
	}
	kind := ts[0].ch
	if !strings.ContainsRune("+-:$*", rune(kind)) {
		return nil, nil, "the reply starts with " + strconv.Quote(string(kind)) + ", which is no reply type"
	}
	i := 1
	for i < len(ts) && !crlfAt(ts, i) {
		if ts[i].t == nil && (ts[i].ch == '\r' || ts[i].ch == '\n') {
			return nil, nil, "a line of the reply contains a bare line break"
		}
		i++
	}
	if i >= len(ts) {
		return nil, nil, "the reply line is not terminated by CRLF"
	}
	line := ts[1:i]
	rest = ts[i+2:]
	switch kind {
	case '+', '-':
		for _, k := range line {
			if k.t != nil && !m.crlfFree(st, k.t) {
				return nil, nil, "the single-line reply contains text that may hold a line break: " + k.t.String()
			}
		}
		return &respMsg{kind: kind, text: line}, rest, ""
	case ':':
		if intOf(line) == nil {
			return nil, nil, "the integer reply does not contain a decimal integer"
		}
		return &respMsg{kind: kind, text: line, count: intOf(line)}, rest, ""
	case '*':
		n := intOf(line)
		if n == nil {
			return nil, nil, "the array header does not contain a decimal count"
		}
		if v, ok := n.intVal(); ok && v == -1 {
			return &respMsg{kind: 'n'}, rest, ""
		}
		return &respMsg{kind: '*', count: n}, rest, ""
	}
	n := intOf(line)
	if n == nil {
		return nil, nil, "the bulk header does not contain a decimal length"
	}
	if v, ok := n.intVal(); ok && v == -1 {
		return &respMsg{kind: 'n'}, rest, ""
	}
	for j := 0; j <= len(rest); j++ {
		if crlfAt(rest, j) && st.provesEqInt(tokLen(st, rest[:j]), n) {
			return &respMsg{kind: '$', count: n, text: rest[:j]}, rest[j+2:], ""
		}
	}
	return nil, nil, "the announced bulk length " + n.String() + " is not the length of the text that follows"
}

// cleanReplacer: a package-level replacer whose initialiser maps CR and LF to text without line breaks.
func (m *monitor) cleanReplacer(t *Term) bool {
	if t.op != "init" && t.op != "gconst" {
		return false
	}
	name := t.aux
	if t.op == "init" {
		if t.args[0].op != "global" {
			return false
		}
		name = t.args[0].aux
	}
	if v, ok := m.replacers[name]; ok {
		return v
	}
	v := m.p.replacerClean(name)
	m.replacers[name] = v
	return v
}

// replacerClean inspects the initialiser of a package-level *strings.Replacer.
func (p *Prog) replacerClean(name string) bool {
	found := false
	for fn := range p.allFns {
		if fn.Name() != "init" || !inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || globalName(g) != name || !p.roGlob[g] {
					continue
				}
				c, ok := s.Val.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().String() != "strings.NewReplacer" {
					return false
				}
				strs, ok := constStrings(c.Common().Args[0])
				if !ok || len(strs)%2 != 0 {
					return false
				}
				cr, lf := false, false
				for i := 0; i < len(strs); i += 2 {
					if strings.ContainsAny(strs[i+1], "\r\n") {
						return false
					}
					cr = cr || strs[i] == "\r"
					lf = lf || strs[i] == "\n"
				}
				if !cr || !lf {
					return false
				}
				found = true
			}
		}
	}
	return found
}

// constStrings returns the elements of a slice literal of constant strings.
func constStrings(v ssa.Value) ([]string, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]string, arr.Len())
	n := 0
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := constTermOf(ia.Index)
		if !ok {
			return nil, false
		}
		for _, u := range *ia.Referrers() {
			st, ok := u.(*ssa.Store)
			if !ok {
				continue
			}
			c, ok := st.Val.(*ssa.Const)
			if !ok {
				return nil, false
			}
			s, ok := constTerm(c).strVal()
			if !ok || i < 0 || i >= int64(len(out)) {
				return nil, false
			}
			out[i] = s
			n++
		}
	}
	return out, n == len(out)
}

func constTermOf(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok {
		return 0, false
	}
	return constTerm(c).intVal()
}
