package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type typeT = types.Type

// Term is an interned, immutable abstract value or address.
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	lin  *Lin // op == "lin" and "int"
	typ  types.Type
	obj  any // op-specific payload (ssa function, closure site ...)
	syms []*Term
}

// Lin is a linear expression c + sum coef*atom over integer atoms.
type Lin struct {
	key string // cached coefficient vector
	uid int32  // cached identity
	c   int64
	at  []linAtom
}

type linAtom struct {
	t *Term
	k int64
}

var interner = map[string]*Term{}
var allTerms []*Term

func mk(op, aux string, args ...*Term) *Term {
	return mkFull(op, aux, nil, nil, nil, args...)
}

func mkFull(op, aux string, typ types.Type, obj any, lin *Lin, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('\x00')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('\x01')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if lin != nil {
		sb.WriteByte('\x02')
		sb.WriteString(strconv.FormatInt(lin.c, 10))
		for _, a := range lin.at {
			fmt.Fprintf(&sb, "+%d*%d", a.k, a.t.id)
		}
	}
	k := sb.String()
	if t, ok := interner[k]; ok {
		if t.typ == nil {
			t.typ = typ
		}
		return t
	}
	t := &Term{id: len(allTerms), op: op, aux: aux, args: args, lin: lin, typ: typ, obj: obj}
	seen := map[*Term]bool{}
	add := func(u *Term) {
		for _, s := range u.syms {
			if !seen[s] {
				seen[s] = true
				t.syms = append(t.syms, s)
			}
		}
	}
	for _, a := range args {
		add(a)
	}
	if lin != nil {
		for _, a := range lin.at {
			add(a.t)
		}
	}
	if op == "sym" {
		t.syms = append(t.syms, t)
	}
	allTerms = append(allTerms, t)
	interner[k] = t
	return t
}

func (t *Term) mentions(s *Term) bool {
	for _, x := range t.syms {
		if x == s {
			return true
		}
	}
	return false
}

// contains reports whether u occurs anywhere in t.
func (t *Term) contains(u *Term) bool {
	if t == u {
		return true
	}
	for _, a := range t.args {
		if a.contains(u) {
			return true
		}
	}
	if t.lin != nil {
		for _, a := range t.lin.at {
			if a.t.contains(u) {
				return true
			}
		}
	}
	return false
}

// find calls f on every subterm.
func (t *Term) walk(f func(*Term)) {
	f(t)
	for _, a := range t.args {
		a.walk(f)
	}
	if t.lin != nil {
		for _, a := range t.lin.at {
			a.t.walk(f)
		}
	}
}

var (
	tNil   = mk("nil", "")
	tTrue  = mk("bool", "true")
	tFalse = mk("bool", "false")
	tUnit  = mk("unit", "")
	tZero  = mkInt(0)
	tOne   = mkInt(1)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkInt(v int64) *Term  { return mkFull("int", "", nil, nil, &Lin{c: v}) }
func mkStr(s string) *Term { return mk("str", s) }
func sym(name string, typ types.Type) *Term {
	return mkFull("sym", name, typ, nil, nil)
}

func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) intVal() (int64, bool) {
	if t != nil && t.op == "int" {
		return t.lin.c, true
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t != nil && t.op == "str" {
		return t.aux, true
	}
	return "", false
}

// linOf views an integer term as a linear expression.
func linOf(t *Term) *Lin {
	if t.op == "int" || t.op == "lin" {
		return t.lin
	}
	return &Lin{at: []linAtom{{t, 1}}}
}

func mulOvf(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return 0, false
	}
	return c, true
}

func addOvf(a, b int64) (int64, bool) {
	c := a + b
	if (c > a) == (b > 0) {
		return c, true
	}
	return c, b == 0
}

// linComb returns ka*a + kb*b; ok is false on coefficient overflow.
func linComb(a *Lin, ka int64, b *Lin, kb int64) (*Lin, bool) {
	r := &Lin{}
	c1, ok1 := mulOvf(a.c, ka)
	c2, ok2 := mulOvf(b.c, kb)
	c, ok3 := addOvf(c1, c2)
	if !ok1 || !ok2 || !ok3 {
		return nil, false
	}
	r.c = c
	m := map[*Term]int64{}
	for _, x := range a.at {
		m[x.t] += x.k * ka
	}
	for _, x := range b.at {
		m[x.t] += x.k * kb
	}
	for t, k := range m {
		if k != 0 {
			r.at = append(r.at, linAtom{t, k})
		}
	}
	sort.Slice(r.at, func(i, j int) bool { return r.at[i].t.id < r.at[j].t.id })
	return r, true
}

func mkLin(l *Lin) *Term {
	if len(l.at) == 0 {
		return mkInt(l.c)
	}
	if len(l.at) == 1 && l.c == 0 && l.at[0].k == 1 {
		return l.at[0].t
	}
	return mkFull("lin", "", nil, nil, l)
}

func tAdd(a, b *Term) *Term {
	l, ok := linComb(linOf(a), 1, linOf(b), 1)
	if !ok {
		return mk("app", "wrapadd", a, b)
	}
	return mkLin(l)
}

func tSub(a, b *Term) *Term {
	l, ok := linComb(linOf(a), 1, linOf(b), -1)
	if !ok {
		return mk("app", "wrapsub", a, b)
	}
	return mkLin(l)
}

func tMulC(a *Term, k int64) *Term {
	l, ok := linComb(linOf(a), k, &Lin{}, 1)
	if !ok {
		return mk("app", "wrapmul", a, mkInt(k))
	}
	return mkLin(l)
}

func (t *Term) String() string { return termStr(t, 0) }

func termStr(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	as := func() string {
		var p []string
		for _, a := range t.args {
			p = append(p, termStr(a, d+1))
		}
		return strings.Join(p, ",")
	}
	switch t.op {
	case "int":
		return strconv.FormatInt(t.lin.c, 10)
	case "lin":
		var sb strings.Builder
		for i, a := range t.lin.at {
			if i > 0 {
				sb.WriteString("+")
			}
			if a.k != 1 {
				fmt.Fprintf(&sb, "%d*", a.k)
			}
			sb.WriteString(termStr(a.t, d+1))
		}
		if t.lin.c != 0 {
			fmt.Fprintf(&sb, "%+d", t.lin.c)
		}
		return sb.String()
	case "str":
		return strconv.Quote(t.aux)
	case "bool", "sym", "global", "alloc":
		return t.aux
	case "nil":
		return "nil"
	case "fld":
		return termStr(t.args[0], d+1) + "." + fldName(t.aux)
	case "elem":
		return termStr(t.args[0], d+1) + "[" + termStr(t.args[1], d+1) + "]"
	case "init":
		s := termStr(t.args[0], d+1)
		if len(t.args) > 1 {
			s += "'"
		}
		return s
	case "arr":
		return termStr(t.args[0], d+1)
	}
	s := t.op
	if t.op == "app" {
		s = t.aux
	} else if t.aux != "" {
		s += ":" + t.aux
	}
	if len(t.args) == 0 {
		return s
	}
	return s + "(" + as() + ")"
}

func fldName(aux string) string {
	if i := strings.LastIndexByte(aux, '.'); i >= 0 {
		return aux[i+1:]
	}
	return aux
}

// substTerm replaces occurrences according to m (keys are syms or any terms), rebuilding bottom-up.
func substTerm(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 && (t.lin == nil || len(t.lin.at) == 0) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.lin != nil {
		acc := &Lin{c: t.lin.c}
		ok := true
		for _, a := range t.lin.at {
			n := substTerm(a.t, m, memo)
			var o bool
			acc, o = linComb(acc, 1, linOf(n), a.k)
			if !o {
				ok = false
				break
			}
		}
		if ok {
			r = mkLin(acc)
		} else {
			r = mk("app", "ovf", t)
		}
	} else {
		changed := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = substTerm(a, m, memo)
			if na[i] != a {
				changed = true
			}
		}
		if !changed {
			r = t
		} else {
			r = mkFull(t.op, t.aux, t.typ, t.obj, nil, na...)
			r = renorm(r)
		}
	}
	memo[t] = r
	return r
}

// renorm re-normalises a rebuilt term.
func renorm(t *Term) *Term {
	switch t.op {
	case "not":
		return mkNot(t.args[0])
	case "cmp":
		return mkCmp(t.aux, t.args[0], t.args[1])
	case "app":
		if t.aux == "len" {
			return lenOf(t.args[0])
		}
	}
	return t
}

func mkNot(t *Term) *Term {
	switch t.op {
	case "bool":
		return mkBool(t != tTrue)
	case "not":
		return t.args[0]
	}
	return mk("not", "", t)
}

// mkCmp builds a comparison: aux is one of eq, lt, le (generic), ige (linear >= 0 of args[0]).
func mkCmp(op string, a, b *Term) *Term {
	switch op {
	case "eq":
		if a == b {
			return tTrue
		}
		if r := distinctConst(a, b); r {
			return tFalse
		}
		if v, ok := a.strVal(); ok && v == "" {
			return mkCmp("ieq", lenOf(b), tZero)
		}
		if v, ok := b.strVal(); ok && v == "" {
			return mkCmp("ieq", lenOf(a), tZero)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mk("cmp", "eq", a, b)
	case "ieq":
		d := tSub(a, b)
		if v, ok := d.intVal(); ok {
			return mkBool(v == 0)
		}
		// normalise the sign so that a==b and b==a are the same term
		if d.lin != nil && d.lin.at[0].k < 0 {
			d = tMulC(d, -1)
		}
		return mk("cmp", "ieq", d, tZero)
	case "ige": // a >= b  i.e. a-b >= 0
		d := tSub(a, b)
		if v, ok := d.intVal(); ok {
			return mkBool(v >= 0)
		}
		return mk("cmp", "ige", d, tZero)
	}
	return mk("cmp", op, a, b)
}

func isConst(t *Term) bool {
	switch t.op {
	case "int", "str", "bool", "nil", "const", "func":
		return true
	}
	return false
}

// distinctConst reports that a and b are different values for sure, independently of a state.
func distinctConst(a, b *Term) bool {
	if a == b {
		return false
	}
	if isConst(a) && isConst(b) {
		return true
	}
	an, bn := nonNilShape(a), nonNilShape(b)
	if (a == tNil && bn) || (b == tNil && an) {
		return true
	}
	if a.op == "alloc" && b.op == "alloc" {
		return true
	}
	if a.op == "gconst" && b.op == "gconst" {
		return true
	}
	if a.op == "fld" && b.op == "fld" && a.typ != nil && b.typ != nil && len(a.args) == 1 && len(b.args) == 1 {
		// addresses of different fields
		return a.aux != b.aux && types.Identical(a.typ, b.typ) || a.aux == b.aux && distinctConst(a.args[0], b.args[0])
	}
	if a.op == "iface" && b.op == "iface" {
		return a.aux != b.aux || distinctConst(a.args[0], b.args[0])
	}
	return false
}

// nonNilShape reports that the term denotes a non-nil value by construction.
func nonNilShape(t *Term) bool {
	switch t.op {
	case "alloc", "fld", "elem", "global", "func", "closure", "iface", "gconst", "newerr", "str", "int", "mkslice", "mkmap", "mkchan":
		return true
	}
	return false
}

func lenOf(t *Term) *Term {
	switch t.op {
	case "str":
		return mkInt(int64(len(t.aux)))
	case "nil":
		return tZero
	case "slice":
		return t.args[2]
	case "concat":
		r := tZero
		for _, a := range t.args {
			r = tAdd(r, lenOf(a))
		}
		return r
	case "bytes": // []byte(string) or B2S/S2B view
		return lenOf(t.args[0])
	}
	return mk("app", "len", t)
}
