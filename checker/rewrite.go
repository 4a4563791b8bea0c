package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the log rewrite writes, decided by data flow: every record is traced back, through helpers and loops, to the
// database, key and elements it comes from, and every loop on the way is shown to leave nothing out.

type rctx struct {
	site ssa.CallInstruction
	fn   *ssa.Function
	up   *rctx
	kids map[ssa.CallInstruction]map[*ssa.Function]*rctx
	clos *ssa.MakeClosure
	cctx *rctx
}

func (c *rctx) enter(site ssa.CallInstruction, fn *ssa.Function) *rctx {
	if c.kids == nil {
		c.kids = map[ssa.CallInstruction]map[*ssa.Function]*rctx{}
	}
	if c.kids[site] == nil {
		c.kids[site] = map[*ssa.Function]*rctx{}
	}
	if k := c.kids[site][fn]; k != nil {
		return k
	}
	k := &rctx{site: site, fn: fn, up: c}
	c.kids[site][fn] = k
	return k
}

type rval struct {
	v ssa.Value
	c *rctx
}

type rsite struct { // a place where a record is rendered
	call ssa.CallInstruction
	list rval
	c    *rctx
}

type rewriteAn struct {
	p     *Prog
	r     *Report
	root  *ssa.Function
	sites []*rsite
	table map[string]*cmdInfo
}

// ---------------------------------------------------------------- values

func (a *rewriteAn) res(v rval) rval {
	for n := 0; n < 60; n++ {
		switch x := v.v.(type) {
		case *ssa.ChangeType:
			v.v = x.X
			continue
		case *ssa.ChangeInterface:
			v.v = x.X
			continue
		case *ssa.MakeInterface:
			v.v = x.X
			continue
		case *ssa.Parameter:
			if v.c.site == nil {
				return v
			}
			args := v.c.site.Common().Args
			done := false
			for i, q := range v.c.fn.Params {
				if q == x && i < len(args) {
					v = rval{args[i], v.c.up}
					done = true
				}
			}
			if !done {
				return v
			}
			continue
		case *ssa.FreeVar:
			if v.c.clos == nil {
				return v
			}
			done := false
			for i, q := range v.c.fn.FreeVars {
				if q == x && i < len(v.c.clos.Bindings) {
					v = rval{v.c.clos.Bindings[i], v.c.cctx}
					done = true
				}
			}
			if !done {
				return v
			}
			continue
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			ad := a.res(rval{x.X, v.c})
			if al, ok := ad.v.(*ssa.Alloc); ok {
				if s := singleStore(al); s != nil {
					v = rval{s.Val, ad.c}
					continue
				}
			}
			return v
		case *ssa.Extract:
			c, ok := x.Tuple.(*ssa.Call)
			if !ok {
				if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
					return rval{t, v.c}
				}
				return v
			}
			r, ok := a.result(c, x.Index, v.c)
			if !ok {
				return v
			}
			v = r
			continue
		case *ssa.Call:
			r, ok := a.result(x, 0, v.c)
			if !ok {
				return v
			}
			v = r
			continue
		case *ssa.Phi:
			var one *rval
			for _, e := range x.Edges {
				if e == x {
					continue
				}
				if _, ok := e.(*ssa.Phi); ok && n > 20 {
					return v
				}
				if _, ok := e.(*ssa.BinOp); ok {
					return v
				}
				if cl, ok := e.(*ssa.Call); ok {
					if _, ok := a.result(cl, 0, v.c); !ok {
						return v
					}
				}
				r := rval{e, v.c}
				if one == nil {
					one = &r
				} else if *one != r {
					return v
				}
			}
			if one == nil {
				return v
			}
			v = *one
			continue
		}
		return v
	}
	return v
}

func singleStore(al *ssa.Alloc) *ssa.Store {
	var s *ssa.Store
	for _, u := range *al.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr != al || s != nil {
				return nil
			}
			s = x
		case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return s
}

// result enters a repository function that returns one value.
func (a *rewriteAn) result(c *ssa.Call, idx int, cx *rctx) (rval, bool) {
	f := c.Call.StaticCallee()
	if f == nil || pkgName(f) != "server" || len(f.Blocks) == 0 || a.depth(cx) > 8 {
		return rval{}, false
	}
	if _, ok := a.p.encoderCands()[f]; ok {
		return rval{}, false
	}
	var rt *ssa.Return
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if rt != nil {
				return rval{}, false
			}
			rt = r
		}
	}
	if rt == nil || idx >= len(rt.Results) {
		return rval{}, false
	}
	return rval{rt.Results[idx], cx.enter(c, f)}, true
}

func (a *rewriteAn) depth(c *rctx) (n int) {
	for ; c != nil; c = c.up {
		n++
	}
	return n
}

func callName(v rval) (string, *ssa.Call) {
	c, ok := v.v.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil {
		return "", nil
	}
	n := c.Call.StaticCallee()
	if o := n.Origin(); o != nil {
		n = o
	}
	return fnName(n), c
}

// fieldLoad: v is the field of an object.
func (a *rewriteAn) fieldLoad(v rval) (string, rval, bool) {
	v = a.res(v)
	if f, ok := v.v.(*ssa.Field); ok {
		st := f.X.Type().Underlying().(*types.Struct)
		return shortType(f.X.Type()) + "." + st.Field(f.Field).Name(), a.res(rval{f.X, v.c}), true
	}
	u, ok := v.v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return "", rval{}, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return "", rval{}, false
	}
	return fieldName(fa), a.res(rval{fa.X, v.c}), true
}

// asserted strips a type assertion.
func (a *rewriteAn) asserted(v rval) (rval, types.Type) {
	v = a.res(v)
	if t, ok := v.v.(*ssa.TypeAssert); ok {
		return a.res(rval{t.X, v.c}), t.AssertedType
	}
	return v, nil
}

// iterated: v is what an iterator yields in one step of a loop.
func (a *rewriteAn) iterated(v rval) (iter rval, next string, ok bool) {
	v = a.res(v)
	one := func(x rval) (rval, string, bool) {
		n, c := callName(x)
		if n == tDictI+"Next" || n == tListI+"Next" || n == tListI+"Prev" {
			return a.res(rval{c.Call.Args[0], x.c}), n, true
		}
		return rval{}, "", false
	}
	if ph, isPhi := v.v.(*ssa.Phi); isPhi {
		for i, e := range ph.Edges {
			it, n, k := one(rval{e, v.c})
			if !k || i > 0 && (it != iter || n != next) {
				return rval{}, "", false
			}
			iter, next = it, n
		}
		return iter, next, len(ph.Edges) > 0
	}
	return one(v)
}

// over: what an iterator goes over.
func (a *rewriteAn) over(iter rval) (rval, bool) {
	n, c := callName(iter)
	if n == "datastruct.NewDictIterator" || n == "datastruct.NewQuicklistIterator" {
		return a.res(rval{c.Call.Args[0], iter.c}), true
	}
	return rval{}, false
}

// elemOf: v is the element of a slice that a loop over all of it looks at.
func (a *rewriteAn) elemOf(v rval) (s rval, l *loopInfo, ok bool) {
	v = a.res(v)
	u, isU := v.v.(*ssa.UnOp)
	if !isU || u.Op != token.MUL {
		return rval{}, nil, false
	}
	ia, isI := u.X.(*ssa.IndexAddr)
	if !isI {
		return rval{}, nil, false
	}
	l = a.counts(ia.Index, func(y ssa.Value) bool {
		c, ok := y.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && a.res(rval{c.Call.Args[0], v.c}) == a.res(rval{ia.X, v.c})
	})
	return a.res(rval{ia.X, v.c}), l, l != nil
}

// counts: the index takes every value from 0 up to a bound.
func (a *rewriteAn) counts(idx ssa.Value, bound func(ssa.Value) bool) *loopInfo {
	var ph *ssa.Phi
	first := int64(0)
	if b, ok := idx.(*ssa.BinOp); ok && b.Op == token.ADD && isConstInt(b.Y, 1) {
		ph, _ = b.X.(*ssa.Phi)
		first = -1
	} else {
		ph, _ = idx.(*ssa.Phi)
	}
	if ph == nil {
		return nil
	}
	l := a.p.loopsOf(ph.Parent()).heads[ph.Block()]
	if l == nil {
		return nil
	}
	for k, e := range ph.Edges {
		if l.blocks[ph.Block().Preds[k]] {
			if b, ok := e.(*ssa.BinOp); !ok || b.Op != token.ADD || b.X != ph || !isConstInt(b.Y, 1) {
				return nil
			}
		} else if !isConstInt(e, first) {
			return nil
		}
	}
	for b := range l.blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if c, ok := i.Cond.(*ssa.BinOp); ok && c.Op == token.LSS && c.X == idx && bound(c.Y) && !l.blocks[b.Succs[1]] {
			return l
		}
	}
	return nil
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	k, ok := constant.Int64Val(c.Value)
	return ok && k == n
}

func (a *rewriteAn) constInt(v rval) (int64, bool) {
	v = a.res(v)
	switch x := v.v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return constant.Int64Val(x.Value)
		}
	case *ssa.Convert:
		return a.constInt(rval{x.X, v.c})
	case *ssa.BinOp:
		l, ok1 := a.constInt(rval{x.X, v.c})
		r, ok2 := a.constInt(rval{x.Y, v.c})
		if ok1 && ok2 {
			switch x.Op {
			case token.MUL:
				return l * r, true
			case token.ADD:
				return l + r, true
			case token.SUB:
				return l - r, true
			}
		}
	}
	return 0, false
}

// list: the arguments of a record: some given one by one, then those of a slice.
func (a *rewriteAn) list(v rval, depth int) (el []rval, tail *rval, ok bool) {
	v = a.res(v)
	if depth > 8 {
		return nil, nil, false
	}
	switch x := v.v.(type) {
	case *ssa.Const:
		return nil, nil, x.Value == nil
	case *ssa.MakeSlice:
		return nil, nil, isConstInt(x.Len, 0)
	case *ssa.Slice:
		al, isA := a.res(rval{x.X, v.c}).v.(*ssa.Alloc)
		if !isA || x.Low != nil {
			return nil, nil, false
		}
		at, isArr := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !isArr {
			return nil, nil, false
		}
		n := at.Len()
		if x.High != nil {
			h, isC := a.constInt(rval{x.High, v.c})
			if !isC {
				return nil, nil, false
			}
			n = h
		}
		el = make([]rval, n)
		for _, u := range *al.Referrers() {
			ia, isI := u.(*ssa.IndexAddr)
			if !isI {
				continue
			}
			k, isC := a.constInt(rval{ia.Index, v.c})
			if !isC || k >= n {
				return nil, nil, false
			}
			for _, w := range *ia.Referrers() {
				if s, isS := w.(*ssa.Store); isS && s.Addr == ia {
					if el[k].v != nil {
						return nil, nil, false
					}
					el[k] = rval{s.Val, v.c}
				}
			}
		}
		for _, e := range el {
			if e.v == nil {
				return nil, nil, false
			}
		}
		return el, nil, true
	case *ssa.Call:
		b, isB := x.Call.Value.(*ssa.Builtin)
		if !isB || b.Name() != "append" {
			return nil, nil, false
		}
		e1, t1, ok1 := a.list(rval{x.Call.Args[0], v.c}, depth+1)
		if !ok1 || t1 != nil {
			return nil, nil, false
		}
		e2, t2, ok2 := a.list(rval{x.Call.Args[1], v.c}, depth+1)
		if ok2 {
			return append(append([]rval{}, e1...), e2...), t2, true
		}
		t := a.res(rval{x.Call.Args[1], v.c})
		return e1, &t, true
	}
	return nil, nil, false
}

// ---------------------------------------------------------------- where records are written

func (a *rewriteAn) walk(c *rctx) {
	if a.depth(c) > 8 {
		return
	}
	a.r.noteFn(c.fn)
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := ci.Common().StaticCallee()
			if f == nil {
				// a function literal called where it is written or handed over
				if mc, ok := a.res(rval{ci.Common().Value, c}).v.(*ssa.MakeClosure); ok {
					f = mc.Fn.(*ssa.Function)
				} else {
					continue
				}
			}
			if sh, ok := a.p.encoderCands()[f]; ok {
				a.sites = append(a.sites, &rsite{ci, rval{ci.Common().Args[sh.args], c}, c})
				continue
			}
			if pkgName(f) == "server" && len(f.Blocks) > 0 {
				k := c.enter(ci, f)
				if mc := a.res(rval{ci.Common().Value, c}); k.clos == nil {
					if m, ok := mc.v.(*ssa.MakeClosure); ok {
						k.clos, k.cctx = m, mc.c
					}
				}
				a.walk(k)
			}
		}
	}
}

// at gives the instruction of fn through which a record is reached.
func (s *rsite) at(c *rctx) ssa.Instruction {
	if s.c == c {
		return s.call
	}
	for k := s.c; k != nil; k = k.up {
		if k.up == c {
			return k.site
		}
	}
	return nil
}

// ---------------------------------------------------------------- loops and paths

// gate gives the block in which fn, inside loop l (or anywhere if nil), comes to an instruction or to the loop that has it.
func (a *rewriteAn) gate(in ssa.Instruction, l *loopInfo) *ssa.BasicBlock {
	b := in.Block()
	best := b
	n := 0
	for _, o := range a.p.loopsOf(b.Parent()).heads {
		if !o.blocks[b] || l != nil && (o.head == l.head || !l.blocks[o.head] || o.blocks[l.head]) {
			continue
		}
		if len(o.blocks) > n {
			n, best = len(o.blocks), o.head
		}
	}
	return best
}

// nonEmpty: a test whether something is empty.
func emptyTest(c ssa.Value) (emptyIf bool, ok bool) {
	b, isB := c.(*ssa.BinOp)
	if !isB {
		return false, false
	}
	isLen := func(v ssa.Value) bool {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
		}
		k, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		if bi, ok := k.Call.Value.(*ssa.Builtin); ok {
			return bi.Name() == "len"
		}
		f := k.Call.StaticCallee()
		if f != nil && len(k.Call.Args) > 0 {
			// that no key has an expiry time does not mean that there are no keys
			if u, ok := k.Call.Args[0].(*ssa.UnOp); ok {
				if strings.HasSuffix(fieldName(u.X), ".Expire") {
					return false
				}
			}
		}
		return f != nil && (f.Name() == "Len" || f.Name() == "Size") && pkgName(f) == "datastruct"
	}
	switch {
	case isLen(b.X) && isConstInt(b.Y, 0):
		switch b.Op {
		case token.EQL, token.LEQ:
			return true, true
		case token.NEQ, token.GTR:
			return false, true
		}
	case isLen(b.X) && isConstInt(b.Y, 1):
		switch b.Op {
		case token.LSS:
			return true, true
		case token.GEQ:
			return false, true
		}
	case isLen(b.Y) && isConstInt(b.X, 0):
		switch b.Op {
		case token.EQL, token.GEQ:
			return true, true
		case token.NEQ, token.LSS:
			return false, true
		}
	}
	return false, false
}

// skips reports whether some path from a block leads to the target without coming to the gate. choose may decide a branch.
func (a *rewriteAn) skips(from []*ssa.BasicBlock, gate map[*ssa.BasicBlock]bool, within *loopInfo, target func(*ssa.BasicBlock) bool, choose func(*ssa.If) int) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, from...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if target(b) {
			return true
		}
		if seen[b] || gate[b] || within != nil && !within.blocks[b] || panics(b) {
			continue
		}
		seen[b] = true
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if e, ok := emptyTest(i.Cond); ok {
				if e {
					work = append(work, b.Succs[1])
				} else {
					work = append(work, b.Succs[0])
				}
				continue
			}
			if choose != nil {
				if k := choose(i); k >= 0 {
					work = append(work, b.Succs[k])
					continue
				}
			}
		}
		work = append(work, b.Succs...)
	}
	return false
}

// panics: the block ends the process or the goroutine.
func panics(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Panic:
			return true
		case ssa.CallInstruction:
			if f := i.Common().StaticCallee(); f != nil && (f.Name() == "Panic" || f.Name() == "Fatal" || f.Name() == "Panicf" || f.Name() == "Fatalf" || f.Name() == "Exit") {
				return true
			}
		}
	}
	return false
}

// succeeds: the block returns without an error.
func succeeds(b *ssa.BasicBlock) bool {
	r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok {
		return false
	}
	if len(r.Results) == 0 {
		return true
	}
	l := r.Results[len(r.Results)-1]
	if !isErrorType(l.Type()) {
		return true
	}
	c, ok := l.(*ssa.Const)
	return ok && c.Value == nil
}

// exhausted: the branch asks whether a loop has come to its end.
func (a *rewriteAn) exhausted(i *ssa.If, c *rctx) bool {
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch b.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		for _, v := range []ssa.Value{b.X, b.Y} {
			k, ok := v.(*ssa.Call)
			if !ok {
				continue
			}
			bi, ok := k.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				continue
			}
			o := b.X
			if v == b.X {
				o = b.Y
			}
			if counter(o) || shrinks(k.Call.Args[0]) {
				return true
			}
		}
	case token.EQL, token.NEQ:
		for _, v := range []ssa.Value{b.X, b.Y} {
			if _, _, ok := a.iterated(rval{v, c}); ok {
				return true
			}
		}
	}
	return false
}

// counter: a variable that a loop steps.
func counter(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		v = b.X
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range ph.Edges {
		if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			return true
		}
	}
	return false
}

// shrinks: a slice that a loop takes its elements off.
func shrinks(v ssa.Value) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range ph.Edges {
		if sl, ok := e.(*ssa.Slice); ok && sl.X == v {
			return true
		}
	}
	return false
}

// endsEarly reports whether a loop may be left before its end on a path that goes on as if it were complete.
func (a *rewriteAn) endsEarly(l *loopInfo, c *rctx) bool {
	for b := range l.blocks {
		if panics(b) {
			continue
		}
		for _, s := range b.Succs {
			if l.blocks[s] {
				continue
			}
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && (a.exhausted(i, c) || a.errorTest(i)) {
				if a.errorTest(i) && a.skips([]*ssa.BasicBlock{s}, nil, nil, succeeds, nil) {
					return true
				}
				continue
			}
			if a.skips([]*ssa.BasicBlock{s}, nil, nil, succeeds, nil) {
				return true
			}
		}
	}
	return false
}

func (a *rewriteAn) errorTest(i *ssa.If) bool {
	b, ok := i.Cond.(*ssa.BinOp)
	return ok && isErrorType(b.X.Type())
}

// ---------------------------------------------------------------- rules

func (a *rewriteAn) viol(rule, construct string, at ssa.Instruction, format string, arg ...any) {
	a.r.fail(rule, construct, a.p.pos(at.Pos()), format, arg...)
}

func (a *rewriteAn) und(construct string, at ssa.Instruction, format string, arg ...any) {
	a.r.fail("undecided", construct, a.p.pos(at.Pos()), format, arg...)
}

// storedKinds: the types a value can have, and the commands that rebuild them.
var storedKinds = []struct{ typ, cmd string }{
	{"string", "set"}, {"*datastruct.Quicklist", "rpush"}, {"*datastruct.Dict", "hset"}, {"*datastruct.Set", "sadd"}, {"*datastruct.Zset", "zadd"},
}

func exploreRewrite(p *Prog, r *Report) {
	n := 0
	for f := range p.goTargets() {
		if !p.isRewriter(f) {
			continue
		}
		n++
		a := &rewriteAn{p: p, r: r, root: f, table: map[string]*cmdInfo{}}
		tb, err := p.commandTable()
		if err != nil {
			r.fail("undecided", "command table", "-", "%v", err)
			return
		}
		for i := range tb {
			a.table[tb[i].name] = &tb[i]
		}
		a.run()
	}
	if n == 0 {
		r.fail("undecided", "rewrite", "-", "no goroutine that rewrites the log is found")
	}
}

type entryLoop struct {
	c    *rctx
	l    *loopInfo
	db   rval
	iter rval
	ent  rval
}

func (a *rewriteAn) run() {
	root := &rctx{fn: a.root}
	a.walk(root)
	if len(a.sites) == 0 {
		a.und(fnName(a.root), a.root.Blocks[0].Instrs[0], "no record is written by the rewrite in a way that is understood")
		return
	}
	kind := map[string][]*rsite{}
	var exp, sel []*rsite
	var el *entryLoop
	for _, s := range a.sites {
		name := fnName(s.c.fn)
		els, tail, ok := a.list(s.list, 0)
		if !ok || len(els) == 0 {
			a.und(name, s.call, "the arguments of a record are not understood")
			continue
		}
		cmd, ok := a.cmdName(els[0])
		if !ok {
			a.und(name, s.call, "the command of a record is not understood")
			continue
		}
		ci := a.table[cmd]
		a.r.oblig("C20.command", a.p.pos(s.call.Pos())+" "+cmd)
		if ci == nil {
			a.viol("C20.command", name+" "+cmd, s.call, "a record is written for the command %q, which does not exist", cmd)
			continue
		}
		switch cmd {
		case "select":
			sel = append(sel, s)
			continue
		case "expireat", "expire":
			exp = append(exp, s)
			continue
		}
		if len(els) < 2 {
			a.und(name+" "+cmd, s.call, "a record without a key")
			continue
		}
		// the key
		f, e, ok := "", rval{}, false
		kv, _ := a.asserted(els[1])
		f, e, ok = a.fieldLoad(kv)
		it, _, ok2 := a.iterated(e)
		db, ok3 := a.dbOf(it, "Dict")
		a.r.oblig("C20.key", a.p.pos(s.call.Pos())+" "+cmd)
		if !ok || !ok2 || !ok3 {
			a.und(name+" "+cmd, s.call, "the key of a record is not traced back to an entry of a database")
			continue
		}
		if f != "datastruct.DictEntry.Key" {
			a.viol("C20.key", name+" "+cmd, s.call, "the key of a record is not the key of the entry")
			continue
		}
		en := a.entry(e, it, db)
		if el == nil {
			el = en
		}
		if en == nil || el == nil || en.ent != el.ent {
			a.und(name+" "+cmd, s.call, "the entries of a database are visited in more than one way")
			continue
		}
		typ := a.contents(s, cmd, els[2:], tail, e)
		if typ != "" {
			kind[typ] = append(kind[typ], s)
		}
	}
	if el == nil {
		a.und(fnName(a.root), a.root.Blocks[0].Instrs[0], "the loop over the entries of a database is not understood")
		return
	}
	a.entries(el, kind)
	a.expiry(el, kind, exp)
	a.databases(el, sel)
}

func (a *rewriteAn) cmdName(v rval) (string, bool) {
	c, ok := a.res(v).v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return strings.ToLower(constant.StringVal(c.Value)), true
}

// dbOf: the database whose table an iterator goes over.
func (a *rewriteAn) dbOf(it rval, tab string) (rval, bool) {
	if it.v == nil {
		return rval{}, false
	}
	d, ok := a.over(it)
	if !ok {
		return rval{}, false
	}
	return a.table1(d, tab)
}

func (a *rewriteAn) table1(d rval, tab string) (rval, bool) {
	f, db, ok := a.fieldLoad(d)
	if !ok || f != "database.Databse."+tab {
		return rval{}, false
	}
	return db, true
}

func (a *rewriteAn) entry(e, it, db rval) *entryLoop {
	var in ssa.Instruction
	if i, ok := e.v.(ssa.Instruction); ok {
		in = i
	} else {
		return nil
	}
	l := a.innermost(in.Block())
	if l == nil {
		return nil
	}
	return &entryLoop{e.c, l, db, it, e}
}

func (a *rewriteAn) innermost(b *ssa.BasicBlock) *loopInfo {
	var best *loopInfo
	for _, o := range a.p.loopsOf(b.Parent()).heads {
		if o.blocks[b] && (best == nil || len(o.blocks) < len(best.blocks)) {
			best = o
		}
	}
	return best
}

// contents decides what a record says about the value and returns the type it is for.
func (a *rewriteAn) contents(s *rsite, cmd string, rest []rval, tail *rval, e rval) string {
	name := fnName(s.c.fn) + " " + cmd
	a.r.oblig("C20.contents", a.p.pos(s.call.Pos())+" "+cmd)
	isVal := func(v rval) (types.Type, bool) {
		x, t := a.asserted(v)
		f, en, ok := a.fieldLoad(x)
		return t, ok && f == "datastruct.DictEntry.Value" && en == e
	}
	want := func(t types.Type) string {
		for _, k := range storedKinds {
			if t != nil && k.typ == shortType(t) {
				if k.cmd != cmd {
					a.viol("C20.contents", name, s.call, "a value of type %s is written as %s; it is rebuilt by %s", k.typ, cmd, k.cmd)
				}
				return k.typ
			}
		}
		a.und(name, s.call, "a value of an unknown type is written")
		return ""
	}
	if tail == nil && len(rest) == 1 {
		if t, ok := isVal(rest[0]); ok {
			return want(t)
		}
	}
	if tail == nil {
		// one record for every element
		if len(rest) == 0 {
			a.viol("C20.contents", name, s.call, "a record without any element is written")
			return ""
		}
		w, coll, l, lc := a.group(s, cmd, name, rest)
		if w == 0 {
			return ""
		}
		t, ok := isVal(coll)
		if !ok {
			a.und(name, s.call, "the elements of a record are not traced back to the value of the entry")
			return ""
		}
		if l.head.Parent() == s.c.fn && s.c == lc {
			a.passes(l, s.call, name, "C20.all", "an element may be left out")
		} else if at := s.at(lc); at != nil {
			a.passes(l, at, name, "C20.all", "an element may be left out")
		}
		if a.endsEarly(l, lc) {
			a.viol("C20.all", name, s.call, "the loop over the elements may end before the last one")
		}
		return want(t)
	}
	if len(rest) > 0 {
		a.und(name, s.call, "a record with single elements and a batch")
		return ""
	}
	items := *tail
	size := int64(0)
	if n, l, ok := a.elemOf(items); ok {
		cn, c := callName(n)
		if cn != "github.com/samber/lo.Chunk" {
			a.und(name, s.call, "how the elements are split into batches is not understood")
			return ""
		}
		k, ok := a.constInt(rval{c.Call.Args[1], n.c})
		if !ok {
			a.und(name, s.call, "the size of a batch is not a constant")
			return ""
		}
		size = k
		if k <= 0 {
			a.viol("C20.groups", name, c, "the size of a batch is %d", k)
		}
		// every batch is written
		lc := a.ctxOf(items, l)
		at := s.at(lc)
		if s.c == lc {
			at = s.call
		}
		if at == nil {
			a.und(name, s.call, "the loop over the batches is not understood")
			return ""
		}
		a.passes(l, at, name, "C20.all", "a batch may be left out")
		if a.endsEarly(l, lc) {
			a.viol("C20.all", name, s.call, "the loop over the batches may end before the last one")
		}
		items = a.res(rval{c.Call.Args[0], n.c})
	} else if sl, ok := items.v.(*ssa.Slice); ok {
		_ = sl
		a.und(name, s.call, "how the elements are split into batches is not understood")
		return ""
	}
	w, coll := a.items(s, cmd, name, items)
	if w == 0 {
		return ""
	}
	a.r.oblig("C20.groups", a.p.pos(s.call.Pos())+" "+cmd)
	if size%int64(w) != 0 {
		a.viol("C20.groups", name, s.call, "a batch of %d arguments splits the groups of %d that %s takes", size, w, cmd)
	}
	t, ok := isVal(coll)
	if !ok {
		a.und(name, s.call, "the elements of a record are not traced back to the value of the entry")
		return ""
	}
	return want(t)
}

// ctxOf: the context in which the loop runs that yields v.
func (a *rewriteAn) ctxOf(v rval, l *loopInfo) *rctx {
	return a.res(v).c
}

// passes: no step of the loop goes without the effect.
func (a *rewriteAn) passes(l *loopInfo, at ssa.Instruction, name, rule, msg string) {
	a.r.oblig(rule, fmt.Sprintf("%s: loop at %s", name, a.p.pos(at.Pos())))
	if a.missed(l, []ssa.Instruction{at}, nil) {
		a.viol(rule, name, at, "%s", msg)
	}
}

func (a *rewriteAn) missed(l *loopInfo, at []ssa.Instruction, choose func(*ssa.If) int) bool {
	g := map[*ssa.BasicBlock]bool{}
	for _, in := range at {
		g[a.gate(in, l)] = true
	}
	if g[l.head] {
		return false
	}
	var from []*ssa.BasicBlock
	for _, s := range l.head.Succs {
		if l.blocks[s] {
			from = append(from, s)
		}
	}
	if i, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok && choose != nil {
		if k := choose(i); k >= 0 {
			from = []*ssa.BasicBlock{l.head.Succs[k]}
		}
	}
	return a.skips(from, g, l, func(b *ssa.BasicBlock) bool { return b == l.head }, choose)
}

// items follows a slice of arguments to the collection whose elements it holds.
func (a *rewriteAn) items(s *rsite, cmd, name string, v rval) (int, rval) {
	v = a.res(v)
	if n, c := callName(v); n == "github.com/samber/lo.Map" {
		return a.mapped(s, cmd, name, v, c)
	}
	ph, ok := v.v.(*ssa.Phi)
	if !ok {
		a.und(name, s.call, "where the elements of a record come from is not understood")
		return 0, rval{}
	}
	l := a.p.loopsOf(ph.Parent()).heads[ph.Block()]
	if l == nil {
		// the list as it is after a loop that is left in more than one place
		for _, e := range ph.Edges {
			if o, ok := e.(*ssa.Phi); ok && l == nil {
				if l = a.p.loopsOf(o.Parent()).heads[o.Block()]; l != nil {
					for _, e := range ph.Edges {
						if e != o && !a.appended(e, o, new([]*ssa.Call), map[ssa.Value]bool{}) {
							l = nil
						}
					}
					if l != nil {
						ph = o
					}
				}
			}
		}
	}
	if l == nil {
		a.und(name, s.call, "where the elements of a record come from is not understood")
		return 0, rval{}
	}
	var apps []*ssa.Call
	for k, e := range ph.Edges {
		if !l.blocks[ph.Block().Preds[k]] {
			if el, t, ok := a.list(rval{e, v.c}, 0); !ok || t != nil {
				a.und(name, s.call, "how the list of elements begins is not understood")
				return 0, rval{}
			} else if len(el) > 0 {
				a.und(name, s.call, "the list of elements does not begin empty")
				return 0, rval{}
			}
			continue
		}
		if !a.appended(e, ph, &apps, map[ssa.Value]bool{}) {
			a.viol("C20.all", name, s.call, "an element may be left out")
			return 0, rval{}
		}
	}
	w := 0
	var coll rval
	for _, ap := range apps {
		el, t, ok := a.list(rval{ap.Call.Args[1], v.c}, 0)
		if !ok || t != nil || len(el) == 0 {
			a.und(name, ap, "what is added to the list of elements is not understood")
			return 0, rval{}
		}
		w1, c1, _, _ := a.group(s, cmd, name, el)
		if w1 == 0 {
			return 0, rval{}
		}
		if w != 0 && (w != w1 || coll != c1) {
			a.und(name, ap, "what is added to the list of elements is not understood")
			return 0, rval{}
		}
		w, coll = w1, c1
	}
	a.r.oblig("C20.all", fmt.Sprintf("%s: loop over the elements", name))
	if a.endsEarly(l, v.c) {
		a.viol("C20.all", name, s.call, "the loop over the elements may end before the last one")
	}
	return w, coll
}

// appended: on every way round the loop something is appended once.
func (a *rewriteAn) appended(v ssa.Value, ph *ssa.Phi, apps *[]*ssa.Call, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" {
			return false
		}
		if x.Call.Args[0] != ph {
			return false
		}
		*apps = append(*apps, x)
		return true
	case *ssa.Phi:
		if x == ph {
			return false
		}
		for _, e := range x.Edges {
			if !a.appended(e, ph, apps, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// mapped: the elements are those of a slice, turned into text one by one.
func (a *rewriteAn) mapped(s *rsite, cmd, name string, v rval, c *ssa.Call) (int, rval) {
	src := a.res(rval{c.Call.Args[0], v.c})
	fv := a.res(rval{c.Call.Args[1], v.c})
	var fn *ssa.Function
	switch f := fv.v.(type) {
	case *ssa.MakeClosure:
		fn = f.Fn.(*ssa.Function)
	case *ssa.Function:
		fn = f
	}
	if fn == nil || len(fn.Params) < 1 {
		a.und(name, s.call, "how the elements are turned into text is not understood")
		return 0, rval{}
	}
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		x := r.Results[0]
		if t, ok := x.(*ssa.TypeAssert); ok {
			x = t.X
		}
		if x != fn.Params[0] {
			a.und(name, s.call, "how the elements are turned into text is not understood")
			return 0, rval{}
		}
	}
	coll, ok := a.source(s, cmd, name, src)
	if !ok {
		return 0, rval{}
	}
	if layoutOf(cmd) != 1 {
		a.viol("C20.groups", name, s.call, "%s takes groups of %d arguments, single ones are written", cmd, layoutOf(cmd))
		return 0, rval{}
	}
	return 1, coll
}

func layoutOf(cmd string) int {
	if cmd == "hset" || cmd == "zadd" {
		return 2
	}
	return 1
}

// source: the collection all of whose elements a slice holds.
func (a *rewriteAn) source(s *rsite, cmd, name string, v rval) (rval, bool) {
	n, c := callName(v)
	switch n {
	case tSet + "Range":
		return a.res(rval{c.Call.Args[0], v.c}), true
	case tZset + "RangeByRank":
		z := a.res(rval{c.Call.Args[0], v.c})
		a.r.oblig("C20.all", name+": ranks")
		if k, ok := a.constInt(rval{c.Call.Args[1], v.c}); !ok {
			a.und(name, s.call, "from which rank on elements are written is not understood")
		} else if k != 0 {
			a.viol("C20.all", name, s.call, "elements are written from rank %d on only", k)
		}
		e := a.res(rval{c.Call.Args[2], v.c})
		if k, ok := a.constInt(e); ok {
			if k != 1<<63-1 {
				a.viol("C20.all", name, s.call, "elements are written up to rank %d only", k)
			}
			return z, true
		}
		size := func(x rval) bool {
			m, k := callName(a.res(x))
			return (m == tZset+"Size") && a.res(rval{k.Call.Args[0], x.c}) == z
		}
		if size(e) {
			return z, true
		}
		if b, ok := e.v.(*ssa.BinOp); ok && size(rval{b.X, e.c}) {
			if k, ok := a.constInt(rval{b.Y, e.c}); ok && b.Op == token.SUB {
				if k > 1 {
					a.viol("C20.all", name, s.call, "the last %d elements are not written", k-1)
				}
				return z, true
			}
		}
		a.und(name, s.call, "up to which rank elements are written is not understood")
		return z, true
	}
	a.und(name, s.call, "which elements of the value are written is not understood")
	return rval{}, false
}

// group: the arguments written for one element.
func (a *rewriteAn) group(s *rsite, cmd, name string, el []rval) (w int, coll rval, l *loopInfo, lc *rctx) {
	bad := func(format string, arg ...any) (int, rval, *loopInfo, *rctx) {
		a.viol("C20.groups", name, s.call, format, arg...)
		return 0, rval{}, nil, nil
	}
	und := func() (int, rval, *loopInfo, *rctx) {
		a.und(name, s.call, "what is written for an element is not understood")
		return 0, rval{}, nil, nil
	}
	if len(el) != layoutOf(cmd) {
		return bad("%s takes groups of %d arguments, %d are written for an element", cmd, layoutOf(cmd), len(el))
	}
	loopAt := func(v rval) *loopInfo {
		if in, ok := v.v.(ssa.Instruction); ok {
			return a.innermost(in.Block())
		}
		return nil
	}
	part := func(v rval) (string, rval) {
		x, _ := a.asserted(v)
		f, e, ok := a.fieldLoad(x)
		if !ok {
			return "", x
		}
		return f[strings.LastIndex(f, ".")+1:], e
	}
	switch cmd {
	case "hset":
		f1, e1 := part(el[0])
		f2, e2 := part(el[1])
		it, _, ok := a.iterated(e1)
		if f1 == "" || f2 == "" || !ok || e1 != e2 {
			return und()
		}
		if f1 != "Key" || f2 != "Value" {
			return bad("hset takes a field and its value, the %s and the %s of an entry are written", strings.ToLower(f1), strings.ToLower(f2))
		}
		d, ok := a.over(it)
		if !ok {
			return und()
		}
		return 2, d, loopAt(e1), e1.c
	case "zadd":
		sc := a.res(el[0])
		m, e2 := part(el[1])
		f, e1 := "", rval{}
		n, c := callName(sc)
		switch n {
		case "strconv.FormatFloat":
			f, e1 = part(rval{c.Call.Args[0], sc.c})
			pr, ok1 := a.constInt(rval{c.Call.Args[2], sc.c})
			bits, ok2 := a.constInt(rval{c.Call.Args[3], sc.c})
			fm, ok3 := a.constInt(rval{c.Call.Args[1], sc.c})
			if !ok1 || !ok2 || !ok3 {
				return und()
			}
			a.r.oblig("C20.exact", a.p.pos(c.Pos())+" score")
			if pr != -1 || bits != 64 || !strings.ContainsRune("bfeEgGxX", rune(fm)) || fm == 'b' {
				a.viol("C20.exact", name, c, "a score is written with %d digits for %d bits in format %q and may be read back as another one", pr, bits, rune(fm))
			}
		case "fmt.Sprintf", "fmt.Sprint":
			a.viol("C20.exact", name, c, "a score is written in a format that may be read back as another one")
			return und()
		default:
			if fl, _ := part(el[0]); fl == "Member" {
				return bad("zadd takes the score before the member")
			}
			return und()
		}
		if f == "" || m == "" || e1 != e2 {
			return und()
		}
		if f != "Score" || m != "Member" {
			return bad("zadd takes the score before the member")
		}
		src, l, ok := a.elemOf(e1)
		if !ok {
			return und()
		}
		z, ok := a.source(s, cmd, name, src)
		if !ok {
			return 0, rval{}, nil, nil
		}
		return 2, z, l, e1.c
	}
	x, _ := a.asserted(el[0])
	if it, next, ok := a.iterated(x); ok {
		d, ok := a.over(it)
		if !ok {
			return und()
		}
		if strings.HasSuffix(next, "Prev") != (cmd == "lpush") && !strings.HasPrefix(next, tDictI) && (cmd == "lpush" || cmd == "rpush") {
			return bad("the elements of a list are written in the reverse order")
		}
		return 1, d, loopAt(x), x.c
	}
	if src, l, ok := a.elemOf(x); ok {
		z, ok := a.source(s, cmd, name, src)
		if !ok {
			return 0, rval{}, nil, nil
		}
		return 1, z, l, x.c
	}
	return und()
}

// ---------------------------------------------------------------- entries, expiry, databases

// ofType decides the branches of a type switch on the value of the entry.
func (a *rewriteAn) ofType(el *entryLoop, typ string) func(*ssa.If) int {
	return func(i *ssa.If) int {
		c := i.Cond
		neg := false
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			neg, c = true, u.X
		}
		if ex, ok := c.(*ssa.Extract); ok && ex.Index == 1 {
			if t, ok := ex.Tuple.(*ssa.TypeAssert); ok {
				f, e, ok := a.fieldLoad(rval{t.X, el.c})
				if ok && f == "datastruct.DictEntry.Value" && e == el.ent {
					if (shortType(t.AssertedType) == typ) != neg {
						return 0
					}
					return 1
				}
			}
		}
		// the expiry of the key is looked up
		if b, ok := i.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && a.isExpiry(el, rval{b.X, el.c}) {
			if typ == "+expiry" == (b.Op == token.NEQ) {
				return 0
			}
			return 1
		}
		return -1
	}
}

// withExpiry decides the branches for an entry of a type with an expiry time.
func (a *rewriteAn) withExpiry(el *entryLoop, typ string) func(*ssa.If) int {
	ch := a.ofType(el, typ)
	return func(i *ssa.If) int {
		if b, ok := i.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && a.isExpiry(el, rval{b.X, el.c}) {
			if b.Op == token.NEQ {
				return 0
			}
			return 1
		}
		return ch(i)
	}
}

// isExpiry: v is the entry of the key in the table of expiry times of a database.
func (a *rewriteAn) isExpiry(el *entryLoop, v rval) bool {
	v = a.res(v)
	n, c := callName(v)
	if n != tDict+"Find" && n != tDict+"Get" {
		return false
	}
	_, ok := a.table1(rval{c.Call.Args[0], v.c}, "Expire")
	return ok
}

// entries: every entry is written, whatever its type.
func (a *rewriteAn) entries(el *entryLoop, kind map[string][]*rsite) {
	name := fnName(el.c.fn)
	at0 := el.l.head.Instrs[len(el.l.head.Instrs)-1]
	for _, k := range storedKinds {
		a.r.oblig("C20.types", k.typ)
		ss := kind[k.typ]
		if len(ss) == 0 {
			if !a.r.hasUndecided() {
				a.viol("C20.types", name+" "+k.typ, at0, "a value of type %s is not written", k.typ)
			}
			continue
		}
		var at []ssa.Instruction
		for _, s := range ss {
			in := s.at(el.c)
			if s.c == el.c {
				in = s.call
			}
			if in != nil {
				at = append(at, in)
			}
			// on the way down to the record nothing returns before it
			for c := s.c; c != nil && c != el.c; c = c.up {
				in := s.at(c)
				if s.c == c {
					in = s.call
				}
				g := map[*ssa.BasicBlock]bool{}
				for _, o := range ss {
					oi := o.at(c)
					if o.c == c {
						oi = o.call
					}
					if oi != nil {
						g[a.gate(oi, nil)] = true
					}
				}
				a.r.oblig("C20.all", fmt.Sprintf("%s writes a value of type %s", fnName(c.fn), k.typ))
				if a.skips(c.fn.Blocks[:1], g, nil, succeeds, a.ofType(&entryLoop{c, el.l, el.db, el.iter, el.ent}, k.typ)) {
					a.viol("C20.all", fnName(c.fn)+" "+k.typ, in, "a value of type %s may be left out", k.typ)
				}
			}
		}
		if len(at) == 0 {
			a.und(name+" "+k.typ, at0, "where a value of type %s is written is not understood", k.typ)
			continue
		}
		a.r.oblig("C20.all", "entries of type "+k.typ)
		if a.missed(el.l, at, a.ofType(el, k.typ)) || a.missed(el.l, at, a.withExpiry(el, k.typ)) {
			a.viol("C20.all", name+" "+k.typ, at[0], "an entry with a value of type %s may be left out", k.typ)
		}
	}
	a.r.oblig("C20.all", "entries of a database")
	if a.endsEarly(el.l, el.c) {
		a.viol("C20.all", name+" entries", at0, "the loop over the entries may end before the last one")
	}
}

// expiry: the time of expiry is written, after the value.
func (a *rewriteAn) expiry(el *entryLoop, kind map[string][]*rsite, exp []*rsite) {
	name := fnName(el.c.fn)
	at0 := el.l.head.Instrs[len(el.l.head.Instrs)-1]
	a.r.oblig("C20.expiry", "entries with an expiry time")
	if len(exp) == 0 {
		if !a.r.hasUndecided() {
			a.viol("C20.expiry", name, at0, "the expiry time of a key is not written")
		}
		return
	}
	g := []ssa.Instruction{}
	for _, s := range exp {
		sn := fnName(s.c.fn) + " expiry"
		els, tail, _ := a.list(s.list, 0)
		cmd, _ := a.cmdName(els[0])
		if cmd != "expireat" {
			a.viol("C20.expiry", sn, s.call, "the expiry time is written with %s, which counts from the time of loading", cmd)
			return
		}
		if tail != nil || len(els) != 3 {
			a.und(sn, s.call, "the arguments of the expiry record are not understood")
			return
		}
		kv, _ := a.asserted(els[1])
		f, e, ok := a.fieldLoad(kv)
		if !ok {
			a.und(sn, s.call, "the key of the expiry record is not understood")
			return
		}
		xdb, isX := rval{}, false
		if n, c := callName(e); n == tDict+"Find" {
			xdb, isX = a.table1(rval{c.Call.Args[0], e.c}, "Expire")
		}
		if it, _, ok := a.iterated(e); ok && !isX {
			if d, ok := a.dbOf(it, "Expire"); ok {
				_ = d
				a.und(sn, s.call, "expiry times are written in a loop of their own")
				return
			}
		}
		if f != "datastruct.DictEntry.Key" || !isX && e != el.ent {
			a.viol("C20.expiry", sn, s.call, "the expiry record is not for the key of the entry")
			return
		}
		if isX && xdb != el.db {
			a.viol("C20.expiry", sn, s.call, "the expiry time is looked up in another database")
			return
		}
		// seconds
		w := a.res(els[2])
		n, c := callName(w)
		if n != "strconv.FormatInt" && n != "strconv.Itoa" {
			a.und(sn, s.call, "how the expiry time is written is not understood")
			return
		}
		if n == "strconv.FormatInt" {
			if b, ok := a.constInt(rval{c.Call.Args[1], w.c}); !ok || b != 10 {
				a.viol("C20.expiry", sn, s.call, "the expiry time is not written as a decimal number")
				return
			}
		}
		q := a.res(rval{c.Call.Args[0], w.c})
		ms, div := q, int64(1)
		for {
			if cv, ok := ms.v.(*ssa.Convert); ok {
				ms = a.res(rval{cv.X, ms.c})
				continue
			}
			b, ok := ms.v.(*ssa.BinOp)
			if !ok {
				break
			}
			d, ok := a.constInt(rval{b.Y, ms.c})
			if !ok || b.Op != token.QUO {
				a.und(sn, s.call, "how the expiry time is computed is not understood")
				return
			}
			div *= d
			ms = a.res(rval{b.X, ms.c})
		}
		if mn, mc := callName(ms); mn == "(time.Time).Unix" {
			tv := a.res(rval{mc.Call.Args[0], ms.c})
			if tn, tc := callName(tv); tn == "time.UnixMilli" {
				ms, div = a.res(rval{tc.Call.Args[0], tv.c}), div*1000
			}
		}
		v, _ := a.asserted(ms)
		vf, xe, ok := a.fieldLoad(v)
		var look rval
		switch {
		case ok && vf == "datastruct.DictEntry.Value":
			look = xe
		case ok:
			a.und(sn, s.call, "where the expiry time comes from is not understood")
			return
		default:
			look = v
		}
		ln, lcall := callName(look)
		if ln != tDict+"Find" && ln != tDict+"Get" {
			a.und(sn, s.call, "where the expiry time comes from is not understood")
			return
		}
		db, ok := a.table1(rval{lcall.Call.Args[0], look.c}, "Expire")
		if !ok {
			a.und(sn, s.call, "where the expiry time comes from is not understood")
			return
		}
		if db != el.db {
			a.viol("C20.expiry", sn, s.call, "the expiry time is looked up in another database")
			return
		}
		lk, _ := a.asserted(rval{lcall.Call.Args[1], look.c})
		if f, e, ok := a.fieldLoad(lk); !ok || f != "datastruct.DictEntry.Key" || e != el.ent {
			if ok {
				a.viol("C20.expiry", sn, s.call, "the expiry time is looked up for another key")
			} else {
				a.und(sn, s.call, "for which key the expiry time is looked up is not understood")
			}
			return
		}
		a.r.oblig("C20.seconds", a.p.pos(s.call.Pos()))
		if div != 1000 {
			a.viol("C20.seconds", sn, s.call, "expireat takes seconds; the time in milliseconds is divided by %d", div)
			return
		}
		in := s.at(el.c)
		if s.c == el.c {
			in = s.call
		}
		if in == nil {
			a.und(sn, s.call, "the expiry record is not written for every entry")
			return
		}
		g = append(g, in)
		// on the way down
		for cx := s.c; cx != nil && cx != el.c; cx = cx.up {
			oi := s.at(cx)
			if s.c == cx {
				oi = s.call
			}
			if a.skips(cx.fn.Blocks[:1], map[*ssa.BasicBlock]bool{a.gate(oi, nil): true}, nil, succeeds, a.ofType(&entryLoop{cx, el.l, el.db, el.iter, el.ent}, "+expiry")) {
				a.viol("C20.expiry", fnName(cx.fn), oi, "an expiry time may be left out")
			}
		}
		// after the value
		gi := a.gate(in, el.l)
		for _, ss := range kind {
			for _, o := range ss {
				oi := o.at(el.c)
				if o.c == el.c {
					oi = o.call
				}
				if oi == nil {
					continue
				}
				a.r.oblig("C20.order", a.p.pos(oi.Pos()))
				gb := a.gate(oi, el.l)
				after := false
				if gb == gi && oi.Block() == in.Block() {
					after = index(oi) > index(in)
				} else {
					after = a.skips(gi.Succs, nil, nil, func(b *ssa.BasicBlock) bool { return b == gb && b != el.l.head }, func(i *ssa.If) int { return -1 }) && a.inLoopAfter(gi, gb, el.l)
				}
				if after {
					a.viol("C20.order", name, oi, "the expiry time is written before the value, and is lost when the value is loaded")
					return
				}
			}
		}
	}
	for _, k := range storedKinds {
		if a.missed(el.l, g, a.withExpiry(el, k.typ)) {
			a.viol("C20.expiry", name+" "+k.typ, g[0], "the expiry time of a key with a value of type %s may be left out", k.typ)
		}
	}
}

// inLoopAfter: gb can follow gi within one step of the loop.
func (a *rewriteAn) inLoopAfter(gi, gb *ssa.BasicBlock, l *loopInfo) bool {
	return a.skips(gi.Succs, map[*ssa.BasicBlock]bool{l.head: true}, l, func(b *ssa.BasicBlock) bool { return b == gb }, func(i *ssa.If) int { return -1 })
}

func index(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// databases: every database is written, under its number.
func (a *rewriteAn) databases(el *entryLoop, sel []*rsite) {
	name := fnName(a.root)
	at0 := el.l.head.Instrs[len(el.l.head.Instrs)-1]
	src, l, ok := a.elemOf(el.db)
	if !ok {
		a.und(name, at0, "the loop over the databases is not understood")
		return
	}
	lc := a.res(el.db).c
	a.r.oblig("C20.databases", "all databases")
	sv := a.res(src)
	if q, ok := sv.v.(*ssa.Parameter); !ok || shortType(q.Type()) != "[]*database.Databse" {
		if _, isSl := sv.v.(*ssa.Slice); isSl {
			a.viol("C20.databases", name, at0, "only some of the databases are written")
		} else {
			a.und(name, at0, "which databases are written is not understood")
		}
		return
	}
	// the entries loop is reached for every database that is not empty
	in := a.inCtx(el, lc)
	if in == nil {
		a.und(name, at0, "the loop over the databases is not understood")
		return
	}
	if a.missed(l, []ssa.Instruction{in}, nil) {
		a.viol("C20.databases", name, at0, "a database that is not empty may be left out")
	}
	if a.endsEarly(l, lc) {
		a.viol("C20.databases", name, at0, "the loop over the databases may end before the last one")
	}
	a.r.oblig("C20.select", "a record that selects the database")
	if len(sel) == 0 {
		if !a.r.hasUndecided() {
			a.viol("C20.select", name, at0, "no record selects the database the keys belong to")
		}
		return
	}
	for _, s := range sel {
		els, tail, _ := a.list(s.list, 0)
		if tail != nil || len(els) != 2 {
			a.und(name, s.call, "the record that selects the database is not understood")
			return
		}
		w := a.res(els[1])
		n, c := callName(w)
		if n != "strconv.Itoa" && n != "strconv.FormatInt" {
			a.und(name, s.call, "the record that selects the database is not understood")
			return
		}
		idv := a.res(rval{c.Call.Args[0], w.c})
		if cv, ok := idv.v.(*ssa.Convert); ok {
			idv = a.res(rval{cv.X, idv.c})
		}
		f, db, ok := a.fieldLoad(idv)
		switch {
		case ok && f == "database.Databse.ID" && db == el.db:
		case ok && f == "database.Databse.ID":
			a.viol("C20.select", name, s.call, "another database is selected than the one whose keys follow")
			return
		default:
			if a.counts(idv.v, func(ssa.Value) bool { return true }) == nil {
				a.und(name, s.call, "the number of the database selected is not understood")
				return
			}
		}
		si := s.at(lc)
		if s.c == lc {
			si = s.call
		}
		if si == nil {
			a.und(name, s.call, "the record that selects the database is not understood")
			return
		}
		// before the entries, on every path
		g := map[*ssa.BasicBlock]bool{a.gate(si, l): true}
		tgt := a.gate(in, l)
		var from []*ssa.BasicBlock
		for _, b := range l.head.Succs {
			if l.blocks[b] {
				from = append(from, b)
			}
		}
		if si.Block() == in.Block() && index(si) > index(in) || a.skips(from, g, l, func(b *ssa.BasicBlock) bool { return b == tgt && !g[b] }, nil) {
			if !a.guardedByID(si, l) {
				a.viol("C20.select", name, s.call, "keys may be written before their database is selected")
			} else {
				a.und(name, s.call, "the database is selected under a condition on its number")
			}
		}
	}
}

// guardedByID: whether the record is written depends on the number of the database.
func (a *rewriteAn) guardedByID(in ssa.Instruction, l *loopInfo) bool {
	for b := range l.blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c, ok := i.Cond.(*ssa.BinOp); ok && isIntType(c.X.Type()) && b.Dominates(in.Block()) && b != l.head {
				if _, isE := emptyTest(c); !isE {
					return true
				}
			}
		}
	}
	return false
}

// inCtx: the instruction of the context through which the loop over the entries is reached.
func (a *rewriteAn) inCtx(el *entryLoop, c *rctx) ssa.Instruction {
	if el.c == c {
		return el.l.head.Instrs[len(el.l.head.Instrs)-1]
	}
	for k := el.c; k != nil; k = k.up {
		if k.up == c {
			return k.site
		}
	}
	return nil
}

func (r *Report) hasUndecided() bool {
	for _, v := range r.violations {
		if v.Rule == "undecided" {
			return true
		}
	}
	return false
}
