package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Comparison-only code of the ordered list, decided over all orderings of the values it compares. Every loop that walks
// from node to node is evaluated once per ordering of the node it looks at with respect to the target or interval.

type oval struct {
	kind  string // node, score, member, levels, lelem, addr, param, bool, int, list, fn, head, tail, "" unknown
	id    string // node id, parameter or field
	b     bool
	n     int64
	taint bool   // an unknown value that depends on scores or names
	why   string // what has been made of a score or a name before it is compared
	fn    *ssa.MakeClosure
}

func (v oval) unknown() bool { return v.kind == "" }

// ocase: how the nodes compare with the target (score, member) or lie to the interval.
type ocase struct {
	cmp map[string][2]int // node id -> score to S, member to M; or score to MIN, score to MAX
	hd  string            // the node that is the head
	ivl bool
}

type oout struct {
	kind   string // back, exit, return
	to     *ssa.BasicBlock
	next   map[*ssa.Phi]oval
	ret    oval
	events []string
	taint  bool
	why    string
	env    map[ssa.Value]oval
}

type orderAn struct {
	p     *Prog
	r     *Report
	binds map[*ssa.Parameter]string
	nodeT types.Type
	mutFn map[*ssa.Function]bool
	seen  map[string]bool
	steps int
}

func fieldOfAddr(v ssa.Value) (string, ssa.Value) {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return fieldName(fa), fa.X
	}
	return "", nil
}

// eval gives the value of one instruction.
func (a *orderAn) eval(env map[ssa.Value]oval, in ssa.Value, c *ocase, ev *[]string, depth int) oval {
	get := func(v ssa.Value) oval { return a.val(env, v) }
	switch i := in.(type) {
	case *ssa.FieldAddr:
		x := get(i.X)
		f := fieldName(i)
		switch {
		case x.kind == "node":
			return oval{kind: "addr", id: x.id + "." + f[strings.LastIndex(f, ".")+1:]}
		case x.kind == "lelem":
			return oval{kind: "addr", id: x.id + "/" + f[strings.LastIndex(f, ".")+1:]}
		case strings.HasSuffix(f, "Skiplist.Head"):
			return oval{kind: "addr", id: "@head"}
		case strings.HasSuffix(f, "Skiplist.Tail"):
			return oval{kind: "addr", id: "@tail"}
		}
	case *ssa.IndexAddr:
		if x := get(i.X); x.kind == "levels" {
			return oval{kind: "lelem", id: x.id}
		}
	case *ssa.UnOp:
		x := get(i.X)
		switch i.Op {
		case token.MUL:
			if x.kind != "addr" {
				return oval{taint: x.taint || types.Identical(i.Type(), a.nodeT)}
			}
			switch {
			case x.id == "@head":
				return oval{kind: "node", id: "HEAD"}
			case x.id == "@tail":
				return oval{kind: "node", id: "TAIL"}
			case strings.HasSuffix(x.id, ".Score"):
				return oval{kind: "score", id: strings.TrimSuffix(x.id, ".Score")}
			case strings.HasSuffix(x.id, ".Member"):
				return oval{kind: "member", id: strings.TrimSuffix(x.id, ".Member")}
			case strings.HasSuffix(x.id, ".Levels"):
				return oval{kind: "levels", id: strings.TrimSuffix(x.id, ".Levels")}
			case strings.HasSuffix(x.id, "/Forward"), strings.HasSuffix(x.id, ".Backward"):
				n := x.id[:strings.LastIndexAny(x.id, "/.")]
				switch {
				case n == "X" || n == c.hd:
					return oval{kind: "node", id: "F"}
				case n == "HEAD":
					return oval{kind: "node", id: "FIRST"}
				}
				return oval{kind: "node", id: n + "+"}
			}
			return oval{}
		case token.NOT:
			if x.kind == "bool" {
				return oval{kind: "bool", b: !x.b}
			}
			return oval{taint: x.taint, why: x.why}
		case token.SUB:
			if x.kind == "int" {
				return oval{kind: "int", n: -x.n}
			}
		}
		return oval{taint: x.taint, why: x.why}
	case *ssa.BinOp:
		x, y := get(i.X), get(i.Y)
		if r, ok := a.compare(i.Op, x, y, c); ok {
			return oval{kind: "bool", b: r}
		}
		dat := func(v oval) bool {
			return v.taint || v.kind == "score" || v.kind == "member" || v.kind == "node" && !strings.HasSuffix(v.id, "+")
		}
		if i.Op == token.ADD {
			if _, ok := i.X.(*ssa.Phi); ok && y.kind == "int" && y.n == 1 {
				*ev = append(*ev, "count")
			}
		}
		return oval{taint: dat(x) || dat(y), why: x.why + y.why}
	case *ssa.Call:
		return a.call(env, i, c, ev, depth)
	case *ssa.MakeClosure:
		return oval{kind: "fn", fn: i}
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.Slice:
		return oval{}
	case *ssa.ChangeType:
		return get(i.X)
	case *ssa.Convert:
		x := get(i.X)
		if isFloatType(i.X.Type()) != isFloatType(i.Type()) || isFloatType(i.Type()) && !types.Identical(i.Type().Underlying(), i.X.Type().Underlying()) {
			return a.derived(i.Type().String(), x)
		}
		return x
	}
	t, why := false, ""
	var ops []*ssa.Value
	if ii, ok := in.(ssa.Instruction); ok {
		for _, o := range ii.Operands(ops) {
			if *o != nil {
				v := get(*o)
				t = t || v.taint || v.kind == "score" || v.kind == "member"
				why += v.why
			}
		}
	}
	return oval{taint: t, why: why}
}

func (a *orderAn) val(env map[ssa.Value]oval, v ssa.Value) oval {
	if o, ok := env[v]; ok {
		return o
	}
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return oval{kind: "node", id: "nil"}
		}
		if c.Value.Kind() == constant.Bool {
			return oval{kind: "bool", b: constant.BoolVal(c.Value)}
		}
		if isIntType(c.Type()) {
			if n, ok := constant.Int64Val(c.Value); ok {
				return oval{kind: "int", n: n}
			}
		}
	case *ssa.Parameter:
		if b, ok := a.binds[c]; ok {
			return oval{kind: "param", id: b}
		}
	}
	return oval{}
}

// derived: the result of a function of a score or a name.
func (a *orderAn) derived(what string, args ...oval) oval {
	r := oval{}
	for _, v := range args {
		r.taint = r.taint || v.taint || v.kind == "score" || v.kind == "member" || v.kind == "node"
		r.why += v.why
		if v.kind == "score" || v.kind == "member" {
			r.why = what + " of the " + map[string]string{"score": "score", "member": "name"}[v.kind]
		}
	}
	return r
}

func cmpHolds(op token.Token, d int) (bool, bool) {
	switch op {
	case token.LSS:
		return d < 0, true
	case token.LEQ:
		return d <= 0, true
	case token.GTR:
		return d > 0, true
	case token.GEQ:
		return d >= 0, true
	case token.EQL:
		return d == 0, true
	case token.NEQ:
		return d != 0, true
	}
	return false, false
}

func (a *orderAn) compare(op token.Token, x, y oval, c *ocase) (bool, bool) {
	if x.kind == "param" && (y.kind == "score" || y.kind == "member") {
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		f, ok := flip[op]
		if !ok {
			return false, false
		}
		return a.compare(f, y, x, c)
	}
	if y.kind == "param" && (x.kind == "score" || x.kind == "member") {
		cm, ok := c.cmp[x.id]
		if !ok {
			return false, false
		}
		switch {
		case !c.ivl && x.kind == "score" && y.id == "S":
			return cmpHolds(op, cm[0])
		case !c.ivl && x.kind == "member" && y.id == "M":
			return cmpHolds(op, cm[1])
		case c.ivl && x.kind == "score" && y.id == "MIN":
			return cmpHolds(op, cm[0])
		case c.ivl && x.kind == "score" && y.id == "MAX":
			return cmpHolds(op, cm[1])
		}
		return false, false
	}
	if x.kind == "node" && y.kind == "node" && (op == token.EQL || op == token.NEQ) {
		known := func(v oval) bool {
			return v.id == "nil" || v.id == "HEAD" || c.cmp[v.id] != [2]int{} || v.id == "X" || v.id == "F"
		}
		if x.id == y.id {
			return op == token.EQL, true
		}
		if x.id == c.hd && y.id == "HEAD" || y.id == c.hd && x.id == "HEAD" {
			return op == token.EQL, true
		}
		if known(x) && known(y) || (x.id == "nil" && hasCase(c, y.id)) || (y.id == "nil" && hasCase(c, x.id)) {
			return op == token.NEQ, true
		}
	}
	if x.kind == "int" && y.kind == "int" {
		d := 0
		if x.n < y.n {
			d = -1
		} else if x.n > y.n {
			d = 1
		}
		return cmpHolds(op, d)
	}
	return false, false
}

func hasCase(c *ocase, id string) bool { _, ok := c.cmp[id]; return ok }

func (a *orderAn) call(env map[ssa.Value]oval, i *ssa.Call, c *ocase, ev *[]string, depth int) oval {
	var args []oval
	t := false
	for _, v := range i.Call.Args {
		o := a.val(env, v)
		t = t || o.taint || o.kind == "score" || o.kind == "member" || o.kind == "node"
		args = append(args, o)
	}
	if b, ok := i.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			if s, ok := i.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), a.nodeT) {
				*ev = append(*ev, "take")
			}
			return oval{taint: t}
		}
		return a.derived(b.Name(), args...)
	}
	fn := i.Call.StaticCallee()
	var free []oval
	if fn == nil {
		if f := a.val(env, i.Call.Value); f.kind == "fn" {
			fn = f.fn.Fn.(*ssa.Function)
			for _, b := range f.fn.Bindings {
				free = append(free, a.val(env, b))
			}
		}
	}
	if fn == nil || fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		if fn != nil {
			switch fn.Name() {
			case "Compare", "Less":
				if pk := pkgName(fn); (pk == "strings" || pk == "cmp") && len(args) == 2 {
					for d := -1; d <= 1; d++ {
						if eq, ok := a.compare(map[int]token.Token{-1: token.LSS, 0: token.EQL, 1: token.GTR}[d], args[0], args[1], c); ok && eq {
							if fn.Name() == "Less" {
								return oval{kind: "bool", b: d < 0}
							}
							return oval{kind: "int", n: int64(d)}
						}
					}
				}
			default:
				return a.derived(fnName(fn), args...)
			}
		}
		return oval{taint: t}
	}
	if a.mutFn[fn] {
		for k, o := range args {
			if o.kind == "node" && (k > 0 || fn.Signature.Recv() == nil) {
				*ev = append(*ev, "take:"+o.id)
			}
		}
		return oval{}
	}
	if depth > 6 || len(fn.Blocks) == 0 || len(a.p.loopsOf(fn).heads) > 0 {
		return oval{taint: t || types.Identical(i.Type(), a.nodeT)}
	}
	e2 := map[ssa.Value]oval{}
	for k, p := range fn.Params {
		e2[p] = args[k]
	}
	for k, p := range fn.FreeVars {
		if k < len(free) {
			e2[p] = free[k]
		}
	}
	outs := a.paths(fn.Blocks[0], nil, e2, c, func(from, to *ssa.BasicBlock) string { return "" }, depth+1)
	same := len(outs) > 0
	for _, o := range outs {
		same = same && !o.taint && o.ret == outs[0].ret && len(o.events) == len(outs[0].events)
	}
	if same {
		*ev = append(*ev, outs[0].events...)
		return outs[0].ret
	}
	why := ""
	for _, o := range outs {
		why += o.why + o.ret.why
	}
	return oval{taint: true, why: why}
}

// paths follows the code from a block; stop says how an edge ends a path ("" goes on).
func (a *orderAn) paths(b, pred *ssa.BasicBlock, env map[ssa.Value]oval, c *ocase, stop func(from, to *ssa.BasicBlock) string, depth int) []oout {
	var outs []oout
	type item struct {
		b, pred *ssa.BasicBlock
		env     map[ssa.Value]oval
		ev      []string
		taint   bool
		why     string
		visits  map[*ssa.BasicBlock]int
	}
	cp := func(m map[ssa.Value]oval) map[ssa.Value]oval {
		n := make(map[ssa.Value]oval, len(m))
		for k, v := range m {
			n[k] = v
		}
		return n
	}
	work := []item{{b, pred, cp(env), nil, false, "", map[*ssa.BasicBlock]int{}}}
	for len(work) > 0 && len(outs) < 400 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if a.steps++; a.steps > 400000 {
			break
		}
		if w.visits[w.b]++; w.visits[w.b] > 2 {
			continue
		}
		phis := map[ssa.Value]oval{}
		for _, in := range w.b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if w.pred == nil {
				continue
			}
			for k, p := range w.b.Preds {
				if p == w.pred {
					phis[ph] = a.val(w.env, ph.Edges[k])
				}
			}
		}
		for k, v := range phis {
			w.env[k] = v
		}
		goTo := func(to *ssa.BasicBlock, env map[ssa.Value]oval, taint bool, why string) {
			if k := stop(w.b, to); k != "" {
				o := oout{kind: k, to: to, events: append([]string(nil), w.ev...), taint: taint, why: why, next: map[*ssa.Phi]oval{}, env: env}
				for _, in := range to.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for j, p := range to.Preds {
						if p == w.b {
							o.next[ph] = a.val(env, ph.Edges[j])
						}
					}
				}
				outs = append(outs, o)
				return
			}
			vis := map[*ssa.BasicBlock]int{}
			for k, v := range w.visits {
				vis[k] = v
			}
			work = append(work, item{to, w.b, env, append([]string(nil), w.ev...), taint, why, vis})
		}
		for _, in := range w.b.Instrs {
			switch i := in.(type) {
			case *ssa.Phi:
			case *ssa.If:
				v := a.val(w.env, i.Cond)
				if v.kind == "bool" {
					to := w.b.Succs[1]
					if v.b {
						to = w.b.Succs[0]
					}
					goTo(to, w.env, w.taint, w.why)
				} else {
					goTo(w.b.Succs[0], cp(w.env), w.taint || v.taint, w.why+v.why)
					goTo(w.b.Succs[1], cp(w.env), w.taint || v.taint, w.why+v.why)
				}
			case *ssa.Jump:
				goTo(w.b.Succs[0], w.env, w.taint, w.why)
			case *ssa.Return:
				o := oout{kind: "return", events: w.ev, taint: w.taint, why: w.why, env: w.env}
				if len(i.Results) > 0 {
					o.ret = a.val(w.env, i.Results[0])
				}
				outs = append(outs, o)
			case ssa.Value:
				w.env[i] = a.eval(w.env, i, c, &w.ev, depth)
			}
		}
	}
	return outs
}

func caseStr(v [2]int, ivl bool) string {
	s := func(d int) string { return [...]string{"below", "at", "above"}[d+1] }
	if ivl {
		return fmt.Sprintf("score %s min, %s max", s(v[0]), s(v[1]))
	}
	return fmt.Sprintf("score %s the score, name %s the name", s(v[0]), s(v[1]))
}

var targetCases = [][2]int{{-1, -1}, {-1, 0}, {-1, 1}, {0, -1}, {0, 0}, {0, 1}, {1, -1}, {1, 0}, {1, 1}}

// below min; at min; between; at max; above; at both
var ivlCases = [][2]int{{-1, -1}, {0, -1}, {1, -1}, {1, 0}, {1, 1}, {0, 0}}

func lexLess(v [2]int) bool { return v[0] < 0 || v[0] == 0 && v[1] < 0 }
func inIvl(v [2]int) bool   { return v[0] >= 0 && v[1] <= 0 }

type orderSpec struct {
	name   string
	params []string
	ivl    bool
	skip   func(v [2]int) bool // a walk without an effect goes past the next node exactly then
	what   string
	absent bool // the one looked for is not in the list
}

var orderSpecs = []orderSpec{
	{"Insert", []string{"S", "M"}, false, lexLess, "(score, name) before the new one", true},
	{"Delete", []string{"S", "M"}, false, lexLess, "(score, name) before the one to delete", false},
	{"GetRank", []string{"S", "M"}, false, func(v [2]int) bool { return lexLess(v) || v == [2]int{} }, "(score, name) up to the one searched", false},
	{"DeleteRangeByScore", []string{"MIN", "MAX"}, true, func(v [2]int) bool { return v[0] < 0 }, "score below the interval", false},
	{"GetFirstInScoreRange", []string{"MIN", "MAX"}, true, func(v [2]int) bool { return v[0] < 0 }, "score below the interval", false},
	{"GetLastInScoreRange", []string{"MIN", "MAX"}, true, func(v [2]int) bool { return v[1] <= 0 }, "score up to the end of the interval", false},
	{"RangeByScore", []string{"MIN", "MAX"}, true, func(v [2]int) bool { return v[0] < 0 }, "score below the interval", false},
	{"Count", []string{"MIN", "MAX"}, true, func(v [2]int) bool { return v[0] < 0 }, "score below the interval", false},
}

func exploreOrder(p *Prog, r *Report) {
	nt := p.namedType("datastruct", "SkiplistNode")
	if nt == nil {
		r.fail("undecided", "ordered list", "-", "the node type is not found")
		return
	}
	a := &orderAn{p: p, r: r, binds: map[*ssa.Parameter]string{}, nodeT: types.NewPointer(nt), mutFn: map[*ssa.Function]bool{}, seen: map[string]bool{}}
	// functions that link or unlink nodes
	for _, f := range p.funcs {
		if pkgName(f) != "datastruct" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if n, _ := fieldOfAddr(s.Addr); strings.HasSuffix(n, ".Forward") || strings.HasSuffix(n, "Skiplist.Length") {
						a.mutFn[f] = true
					}
				}
			}
		}
	}
	api := map[*ssa.Function]*orderSpec{}
	for i := range orderSpecs {
		if f := p.fn(tSkiplist + orderSpecs[i].name); f != nil {
			api[f] = &orderSpecs[i]
		} else {
			r.fail("undecided", orderSpecs[i].name, "-", "the operation %s is not found", orderSpecs[i].name)
		}
	}
	for i := range orderSpecs {
		f := p.fn(tSkiplist + orderSpecs[i].name)
		if f == nil {
			continue
		}
		sp := &orderSpecs[i]
		k := 0
		for _, q := range f.Params[1:] {
			b, ok := q.Type().Underlying().(*types.Basic)
			if !ok || k >= len(sp.params) {
				continue
			}
			if b.Info()&types.IsFloat != 0 && (sp.ivl || sp.params[k] == "S") || b.Info()&types.IsString != 0 && sp.params[k] == "M" {
				a.binds[q] = sp.params[k]
				k++
			}
		}
		if k != len(sp.params) {
			r.fail("undecided", sp.name, p.pos(f.Pos()), "the parameters of %s are not understood", sp.name)
			continue
		}
		n := a.function(f, sp, api, 0)
		if n == 0 {
			r.fail("undecided", sp.name, p.pos(f.Pos()), "no walk along the list is recognised in %s", sp.name)
		}
	}
	a.has()
	a.passThrough(api)
}

// function checks the walks of a function and of the helpers it calls.
func (a *orderAn) function(f *ssa.Function, sp *orderSpec, api map[*ssa.Function]*orderSpec, depth int) int {
	a.r.noteFn(f)
	n := 0
	lf := a.p.loopsOf(f)
	var ls []*loopInfo
	for _, l := range lf.heads {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].head.Index < ls[j].head.Index })
	for _, l := range ls {
		if a.loop(f, l, sp) {
			n++
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				if s, ok := in.(*ssa.Store); ok && sp.name == "Insert" {
					a.field(f, s)
				}
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil || pkgName(g) != "datastruct" || depth > 4 || len(g.Blocks) == 0 {
				continue
			}
			if o := api[g]; o != nil {
				if o.ivl && sp.ivl {
					a.interval(f, c, g, sp)
					n++
				}
				continue
			}
			old := map[*ssa.Parameter]string{}
			for k, q := range g.Params {
				if k < len(c.Common().Args) {
					if v := a.val(map[ssa.Value]oval{}, c.Common().Args[k]); v.kind == "param" {
						a.binds[q] = v.id
						old[q] = v.id
					}
				}
			}
			key := sp.name + " " + fnName(g)
			if (len(old) > 0 || a.mutFn[g]) && !a.seen[key] {
				a.seen[key] = true
				n += a.function(g, sp, api, depth+1)
			}
			for q := range old {
				delete(a.binds, q)
			}
		}
	}
	if depth == 0 {
		a.after(f, sp, ls)
	}
	return n
}

// field: a new node gets the score and the name it is inserted under.
func (a *orderAn) field(f *ssa.Function, s *ssa.Store) {
	n, x := fieldOfAddr(s.Addr)
	if x == nil {
		return
	}
	if _, ok := x.(*ssa.Alloc); !ok {
		return
	}
	want := map[string]string{fNdScore: "S", fNdMember: "M"}[n]
	if want == "" {
		return
	}
	a.r.oblig("C32.node", a.p.pos(s.Pos())+" "+n)
	if v := a.val(map[ssa.Value]oval{}, s.Val); v.kind != "param" || v.id != want {
		a.r.fail("C32.node", fnName(f)+" "+n, a.p.pos(s.Pos()), "the new node does not get the %s it is inserted under", map[string]string{"S": "score", "M": "name"}[want])
	}
}

// interval: limits are handed on as they are.
func (a *orderAn) interval(f *ssa.Function, c ssa.CallInstruction, g *ssa.Function, sp *orderSpec) {
	k := 0
	for i, q := range g.Params {
		if i == 0 || k > 1 {
			continue
		}
		if b, ok := q.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsFloat == 0 {
			continue
		}
		want := []string{"MIN", "MAX"}[k]
		k++
		a.r.oblig("C32.limits", fmt.Sprintf("%s %s of %s", a.p.pos(c.Pos()), strings.ToLower(want), fnName(g)))
		v := a.val(map[ssa.Value]oval{}, c.Common().Args[i])
		if v.kind == "param" && v.id == want {
			continue
		}
		if _, ok := c.Common().Args[i].(*ssa.Phi); ok {
			a.r.fail("undecided", fnName(f)+" "+want, a.p.pos(c.Pos()), "the %s of the interval is chosen", strings.ToLower(want))
			continue
		}
		a.r.fail("C32.limits", fnName(f)+" "+want, a.p.pos(c.Pos()), "%s is asked for an interval whose %s is not the one of the caller", fnName(g), strings.ToLower(want))
	}
}

// loop decides one walk; false if the loop does not walk along nodes.
func (a *orderAn) loop(f *ssa.Function, l *loopInfo, sp *orderSpec) bool {
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && types.Identical(ph.Type(), a.nodeT) {
			phis = append(phis, ph)
		}
	}
	stop := func(from, to *ssa.BasicBlock) string {
		if to == l.head {
			return "back"
		}
		if !l.blocks[to] {
			return "exit"
		}
		return ""
	}
	// a node that follows another variable is its next one
	follows := func(ph, main *ssa.Phi) bool {
		for k, e := range ph.Edges {
			if !forwardOf(e, main.Edges[k]) {
				return false
			}
		}
		return true
	}
	var main *ssa.Phi
	env := map[ssa.Value]oval{}
	for _, ph := range phis {
		isF := false
		for _, o := range phis {
			if o != ph && follows(ph, o) {
				isF = true
			}
		}
		if isF {
			env[ph] = oval{kind: "node", id: "F"}
		} else if main == nil {
			main = ph
			env[ph] = oval{kind: "node", id: "X"}
		}
	}
	if main == nil {
		return false
	}
	cases := targetCases
	if sp.ivl {
		cases = ivlCases
	}
	same := func(v, w [2]int) bool {
		return !sp.ivl || (v == [2]int{}) == (w == [2]int{}) || v[0]*v[1] > 0 || w[0]*w[1] > 0
	}
	run := func(x, n [2]int) []oout {
		c := &ocase{cmp: map[string][2]int{"X": x, "F": n}, ivl: sp.ivl}
		return a.paths(l.head, nil, env, c, stop, 0)
	}
	events := false
	walks := false
	for _, x := range cases {
		for _, n := range cases {
			for _, o := range run(x, n) {
				if o.kind == "back" && o.next[main].kind == "node" && o.next[main].id == "F" {
					walks = true
				}
				if len(o.events) > 0 {
					events = true
				}
			}
		}
	}
	if !walks {
		return false
	}
	for _, o := range a.p.loopsOf(f).heads {
		if o != l && l.blocks[o.head] {
			for _, in := range o.head.Instrs {
				if ph, ok := in.(*ssa.Phi); ok && types.Identical(ph.Type(), a.nodeT) {
					return false // the walk is the loop inside
				}
			}
		}
	}
	where := a.p.pos(f.Pos())
	if i, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok {
		where = a.p.pos(condPos(i))
	}
	name := fnName(f)
	if !events {
		// a walk over the nodes before the place
		a.r.oblig("C32.order", fmt.Sprintf("%s: walk in %s", sp.name, name))
		for _, n := range cases {
			adv, stay, und, why := false, false, false, ""
			for _, x := range cases {
				if !same(x, n) {
					continue
				}
				for _, o := range run(x, n) {
					if o.kind == "back" && o.next[main].kind == "node" && o.next[main].id == "X" {
						stay = true
						continue
					}
					if o.kind == "back" && o.next[main].kind == "node" && o.next[main].id == "F" {
						adv = true
					} else {
						stay = true
					}
					und = und || o.taint
					why += o.why
				}
			}
			want := sp.skip(n)
			if why != "" {
				a.r.fail("C32.order", sp.name+": "+name, where, "%s compares %s instead of the thing itself, so that it does not use the same order as the other operations", sp.name, why)
				break
			}
			if sp.absent && n == [2]int{} {
				continue
			}
			if und {
				a.r.fail("undecided", name+" walk", where, "a walk of %s depends on something the ordering does not decide", sp.name)
				break
			}
			if want && stay || !want && adv {
				verb := "stops before"
				if !want {
					verb = "goes past"
				}
				a.r.fail("C32.order", sp.name+": "+name, where, "%s %s a node with %s; it has to go past exactly the nodes with %s", sp.name, verb, caseStr(n, sp.ivl), sp.what)
				break
			}
		}
		return true
	}
	if !sp.ivl {
		a.r.fail("undecided", name+" walk", where, "a walk of %s with effects on the nodes it visits is not understood", sp.name)
		return true
	}
	// a walk that takes nodes: the invariant that the current node is in the interval may be established by the test of the next one
	inv := true
	for _, x := range cases {
		if !inIvl(x) {
			continue
		}
		for _, n := range cases {
			if !same(x, n) || inIvl(n) {
				continue
			}
			for _, o := range run(x, n) {
				if o.kind == "back" {
					inv = false
				}
			}
		}
	}
	a.r.oblig("C32.interval", fmt.Sprintf("%s: taking walk in %s", sp.name, name))
	bad := func(x [2]int, format string, arg ...any) {
		a.r.fail("C32.interval", sp.name+": "+name, where, "%s for a node with %s", fmt.Sprintf(format, arg...), caseStr(x, true))
	}
	lo, hi := a.start(l, main)
	for _, x := range cases {
		if inv && !inIvl(x) || lo && x[0] < 0 || hi && x[1] > 0 {
			continue
		}
		for _, n := range cases {
			if !same(x, n) {
				continue
			}
			outs := run(x, n)
			took, goes := false, false
			for _, o := range outs {
				if o.why != "" {
					a.r.fail("C32.interval", sp.name+": "+name, where, "%s compares %s instead of the thing itself", sp.name, o.why)
					return true
				}
				if o.taint {
					a.r.fail("undecided", name+" walk", where, "a walk of %s depends on something the ordering does not decide", sp.name)
					return true
				}
				took = took || len(o.events) > 0
				goes = goes || len(o.events) > 0 && o.kind == "back"
			}
			switch {
			case took && !inIvl(x) && !lo && !hi && (x[0] >= 0 || x[1] <= 0) && a.oneEnd(run, cases, same):
				a.r.fail("undecided", name+" walk", where, "where a walk of %s starts is not understood", sp.name)
				return true
			case took && !inIvl(x):
				bad(x, "%s takes a node outside the interval,", sp.name)
				return true
			case !took && inIvl(x):
				bad(x, "%s leaves out a node of the interval,", sp.name)
				return true
			case took && !goes && inIvl(n):
				bad(n, "%s stops before the end of the interval,", sp.name)
				return true
			}
		}
	}
	return true
}

// oneEnd: the walk tests one end of the interval only; the other one depends on where it starts.
func (a *orderAn) oneEnd(run func(x, n [2]int) []oout, cases [][2]int, same func(v, w [2]int) bool) bool {
	below, above := false, false
	for _, x := range cases {
		for _, n := range cases {
			if !same(x, n) {
				continue
			}
			for _, o := range run(x, n) {
				below = below || len(o.events) > 0 && x[0] < 0
				above = above || len(o.events) > 0 && x[1] > 0
			}
		}
	}
	return below != above
}

// start: whether a walk starts behind the nodes below the interval, or before those above it.
func (a *orderAn) start(l *loopInfo, main *ssa.Phi) (lo, hi bool) {
	first := true
	for k, e := range main.Edges {
		if l.blocks[l.head.Preds[k]] {
			continue
		}
		el, eh := false, false
		switch v := e.(type) {
		case *ssa.Call:
			if g := v.Call.StaticCallee(); g != nil {
				el = fnName(g) == tSkiplist+"GetFirstInScoreRange"
				eh = fnName(g) == tSkiplist+"GetLastInScoreRange"
			}
		case *ssa.UnOp:
			// the node after a walk, which goes past exactly the nodes below the interval
			n, _ := fieldOfAddr(v.X)
			el = strings.HasSuffix(n, ".Forward")
		}
		if first {
			lo, hi, first = el, eh, false
		} else {
			lo, hi = lo && el, hi && eh
		}
	}
	return lo, hi
}

// forwardOf: v is the forward link of node.
func forwardOf(v, node ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	n, x := fieldOfAddr(u.X)
	if !strings.HasSuffix(n, ".Forward") {
		return false
	}
	ia, ok := x.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	ld, ok := ia.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	n, x = fieldOfAddr(ld.X)
	return strings.HasSuffix(n, ".Levels") && x == node
}

// after decides what happens at the node the walk has led to.
func (a *orderAn) after(f *ssa.Function, sp *orderSpec, ls []*loopInfo) {
	// the innermost walking loop and the outermost loop around it
	var inner, outer *loopInfo
	for _, l := range ls {
		has := false
		for _, in := range l.head.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && types.Identical(ph.Type(), a.nodeT) {
				has = true
			}
		}
		if !has {
			continue
		}
		if outer == nil {
			outer = l
		} else if outer.blocks[l.head] && inner == nil {
			inner = l
		}
	}
	if outer == nil {
		return
	}
	if inner == nil {
		inner = outer
	}
	start := outer
	if sp.name == "GetRank" {
		start = inner
	}
	env := map[ssa.Value]oval{}
	for b := range outer.blocks {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && types.Identical(ph.Type(), a.nodeT) {
				env[ph] = oval{kind: "node", id: "X"}
			}
		}
	}
	stop := func(from, to *ssa.BasicBlock) string {
		if to == inner.head {
			return "again"
		}
		return ""
	}
	run := func(c *ocase) []oout {
		var outs []oout
		seen := map[[2]*ssa.BasicBlock]bool{}
		for b := range start.blocks {
			for _, s := range b.Succs {
				if !start.blocks[s] && !seen[[2]*ssa.BasicBlock{b, s}] {
					seen[[2]*ssa.BasicBlock{b, s}] = true
					e := map[ssa.Value]oval{}
					for k, v := range env {
						e[k] = v
					}
					// the walk leaves from its head or from a test of the next node
					for _, bb := range start.blocks2() {
						for _, in := range bb.Instrs {
							if v, ok := in.(ssa.Value); ok && e[v].kind == "" {
								var ev []string
								if x := a.eval(e, v, c, &ev, 0); x.kind != "" {
									e[v] = x
								}
							}
						}
					}
					outs = append(outs, a.paths(s, b, e, c, stop, 0)...)
				}
			}
		}
		return outs
	}
	where := a.p.pos(f.Pos())
	name := fnName(f)
	und := func(outs []oout) bool {
		for _, o := range outs {
			if o.why != "" {
				a.r.fail("C32.found", sp.name, where, "%s compares %s instead of the thing itself", sp.name, o.why)
				return true
			}
			if o.taint {
				a.r.fail("undecided", name+" end", where, "what %s does at the end of its walk depends on something the ordering does not decide", sp.name)
				return true
			}
		}
		return false
	}
	switch sp.name {
	case "Delete":
		a.r.oblig("C32.found", "Delete: the node found")
		for _, n := range targetCases {
			if lexLess(n) {
				continue
			}
			outs := run(&ocase{cmp: map[string][2]int{"F": n, "X": {-1, 0}}})
			if und(outs) {
				return
			}
			for _, o := range outs {
				took := len(o.events) > 0
				if took != (n == [2]int{}) {
					a.r.fail("C32.found", "Delete", where, "Delete %s a node with %s", map[bool]string{true: "removes", false: "does not remove"}[took], caseStr(n, false))
					return
				}
			}
		}
	case "GetFirstInScoreRange":
		a.r.oblig("C32.found", "GetFirstInScoreRange: the node found")
		for _, n := range ivlCases {
			if n[0] < 0 {
				continue
			}
			outs := run(&ocase{cmp: map[string][2]int{"F": n, "X": {-1, -1}}, ivl: true})
			if und(outs) {
				return
			}
			for _, o := range outs {
				if o.kind != "return" || o.ret.unknown() {
					continue
				}
				if got := o.ret.id == "F"; got != inIvl(n) {
					a.r.fail("C32.found", sp.name, where, "the first node is %s with %s", map[bool]string{true: "taken", false: "not taken"}[got], caseStr(n, true))
					return
				}
			}
		}
	case "GetLastInScoreRange":
		a.r.oblig("C32.found", "GetLastInScoreRange: the node found")
		for _, n := range ivlCases {
			if n[1] > 0 {
				continue
			}
			outs := run(&ocase{cmp: map[string][2]int{"X": n, "F": {1, 1}}, ivl: true})
			if und(outs) {
				return
			}
			for _, o := range outs {
				if o.kind != "return" || o.ret.unknown() {
					continue
				}
				if got := o.ret.id == "X"; got != inIvl(n) {
					a.r.fail("C32.found", sp.name, where, "the last node is %s with %s", map[bool]string{true: "taken", false: "not taken"}[got], caseStr(n, true))
					return
				}
			}
		}
	case "GetRank":
		a.r.oblig("C32.found", "GetRank: the node found")
		chk := func(c *ocase, found bool, what string) bool {
			outs := run(c)
			if und(outs) {
				return false
			}
			for _, o := range outs {
				if o.kind != "return" {
					continue
				}
				if zero := o.ret.kind == "int" && o.ret.n == 0; zero == found {
					a.r.fail("C32.found", sp.name, where, "the walk %s at %s", map[bool]string{true: "does not end with the rank", false: "ends with a rank"}[found], what)
					return false
				}
			}
			return true
		}
		for _, x := range targetCases {
			if !lexLess(x) && x != [2]int{} || x == [2]int{-1, 0} {
				continue
			}
			if !chk(&ocase{cmp: map[string][2]int{"X": x, "F": {1, 1}}}, x == [2]int{}, "a node with "+caseStr(x, false)) {
				return
			}
		}
		for _, s := range []int{-1, 0, 1} {
			for _, m := range []int{-1, 0} {
				if !chk(&ocase{cmp: map[string][2]int{"X": {s, m}, "F": {1, 1}}, hd: "X"}, false, "the head of the list, which is no member") {
					return
				}
			}
		}
	}
}

func (l *loopInfo) blocks2() (out []*ssa.BasicBlock) {
	for b := range l.blocks {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Index < out[j].Index })
	return out
}

// has: the test whether any node lies in the interval.
func (a *orderAn) has() {
	f := a.p.fn(tSkiplist + "HasInScoreRange")
	if f == nil || len(f.Params) < 3 {
		return
	}
	a.binds[f.Params[1]], a.binds[f.Params[2]] = "MIN", "MAX"
	a.r.noteFn(f)
	a.r.oblig("C32.any", "HasInScoreRange")
	for _, first := range ivlCases {
		for _, last := range ivlCases {
			if (first == [2]int{}) != (last == [2]int{}) && first[0]*first[1] <= 0 && last[0]*last[1] <= 0 {
				continue // at both ends at once or at one only
			}
			if first[0] > last[0] || first[1] > last[1] {
				continue
			}
			outs := a.paths(f.Blocks[0], nil, map[ssa.Value]oval{}, &ocase{cmp: map[string][2]int{"FIRST": first, "TAIL": last}, ivl: true}, func(from, to *ssa.BasicBlock) string { return "" }, 0)
			want := first[1] <= 0 && last[0] >= 0
			for _, o := range outs {
				if o.taint || o.ret.kind != "bool" {
					a.r.fail("undecided", "HasInScoreRange", a.p.pos(f.Pos()), "the result of HasInScoreRange is not understood")
					return
				}
				if o.ret.b != want {
					a.r.fail("C32.any", "HasInScoreRange", a.p.pos(f.Pos()), "HasInScoreRange says %v if the first node has %s and the last one %s", o.ret.b, caseStr(first, true), caseStr(last, true))
					return
				}
			}
		}
	}
}

// passThrough: the sorted set hands scores, names and limits to its order as they are.
func (a *orderAn) passThrough(api map[*ssa.Function]*orderSpec) {
	for _, f := range a.p.methodsOf("datastruct", "Zset") {
		var fl []*ssa.Parameter
		for _, q := range f.Params {
			if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				fl = append(fl, q)
			}
		}
		if len(fl) != 2 {
			continue
		}
		a.binds[fl[0]], a.binds[fl[1]] = "MIN", "MAX"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && api[g] != nil && api[g].ivl {
						a.r.noteFn(f)
						a.interval(f, c, g, &orderSpec{name: fnName(f)})
					}
				}
			}
		}
	}
}

const tSkiplist = "(*datastruct.Skiplist)."
