package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The read handler and the request parser: how bytes from the socket become requests.
//
// The parser keeps its progress in fields of the client. The analysis infers an invariant of these fields for each
// combination of parser states (a Houdini fixpoint over the handler), and decides on every path of the handler:
//   - every byte received is consumed exactly once, and only received bytes are looked at;
//   - an "is there enough data" test that fails leads to waiting, without any change of the parser's state, and
//     the handler waits only after such a test;
//   - when more data arrives, the handler comes back to that very test with the same local state.

const cliPfx = "server.Client."

type inputAn struct {
	p        *Prog
	r        *Report
	prop     string
	cb       *ssa.Function
	disp     *ssa.Function
	parse    map[*ssa.Function]bool
	cliT     *types.Struct
	ptrT     types.Type
	reset    map[string]bool  // fields the dispatcher puts back to that value
	fresh    map[string]*Term // value of the field in a new client
	pf       []string         // integer fields of the parser
	enum     string
	enumVals []int64
	consts   []int64
	bytes    []int64
	client   *Term
	fd       *Term
	cells    map[string]*inCell
	resume   *resumeGoal
	nWait    int
	nResume  int
	aliased  bool
}

type inCell struct {
	key   string
	preds []inPred
	cands []inCand
	reach bool
	dirty bool // its invariant has changed since the handler was last run from it
	rep   *Report
	exits []*State
}

type inPred struct {
	name string
	f    func(a *inputAn, st *State) *Term
	val  bool
}

type inCand struct {
	name string
	f    func(a *inputAn, st *State) *Term
	dead bool
}

type resumeGoal struct {
	key  string
	vals []*Term
	name string
	pos  string
}

func (a *inputAn) viol(x *Exec, st *State, rule string, pos token.Pos, construct, format string, args ...any) {
	if strings.HasPrefix(rule, a.prop+".") {
		x.violate(st, rule, construct, pos, format, args...)
	}
}

func (a *inputAn) ob(rule, format string, args ...any) {
	if strings.HasPrefix(rule, a.prop+".") {
		a.r.oblig(rule, fmt.Sprintf(format, args...))
	}
}

// isClientT: *server.Client
func isClientT(t types.Type) bool { return shortType(t) == "*server.Client" }

func newInputAn(p *Prog, r *Report, prop string) (*inputAn, string) {
	a := &inputAn{p: p, r: r, prop: prop, fresh: map[string]*Term{}, cells: map[string]*inCell{}}
	proc, _, why := p.dispatchFns()
	if why != "" {
		return nil, why
	}
	a.disp = proc
	n := p.namedType("server", "Client")
	if n == nil {
		return nil, "type server.Client not found"
	}
	a.cliT, _ = n.Underlying().(*types.Struct)
	if a.cliT == nil {
		return nil, "server.Client is not a struct"
	}
	a.ptrT = types.NewPointer(n)
	for _, f := range p.fileProcs() {
		if p.reach([]*ssa.Function{f}, nil)[proc] {
			if a.cb != nil {
				return nil, "more than one handler leads to the dispatcher"
			}
			a.cb = f
		}
	}
	if a.cb == nil {
		return nil, "no handler leads to the dispatcher"
	}
	// the parser: what runs between the handler and the dispatcher
	a.parse = p.reach([]*ssa.Function{a.cb}, map[*ssa.Function]bool{proc: true})
	if w := a.freshClient(); w != "" {
		return nil, w
	}
	stored := map[string]bool{}
	for f := range a.parse {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					stored[fieldName(s.Addr)] = true
				}
				if bo, ok := in.(*ssa.BinOp); ok {
					for _, o := range []ssa.Value{bo.X, bo.Y} {
						c, ok := o.(*ssa.Const)
						if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
							continue
						}
						v, _ := constant.Int64Val(c.Value)
						if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
							a.bytes = addInt(a.bytes, v)
						} else if v >= 1024 {
							a.consts = addInt(a.consts, v)
						}
					}
				}
			}
		}
	}
	for i := 0; i < a.cliT.NumFields(); i++ {
		f := a.cliT.Field(i)
		if !stored[cliPfx+f.Name()] || f.Name() == "queryLen" || !isIntType(f.Type()) {
			continue
		}
		if _, ok := a.fresh[f.Name()].intVal(); !ok {
			continue // not a constant in a new client (the descriptor)
		}
		a.pf = append(a.pf, f.Name())
		if nt, ok := f.Type().(*types.Named); ok && a.enum == "" {
			a.enum = f.Name()
			sc := nt.Obj().Pkg().Scope()
			for _, nm := range sc.Names() {
				if c, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(c.Type(), nt) {
					v, _ := constant.Int64Val(c.Val())
					a.enumVals = addInt(a.enumVals, v)
				}
			}
		}
	}
	sort.Strings(a.pf)
	if a.field("queryBuf") == nil || a.field("queryLen") == nil || a.field("args") == nil {
		return nil, "the fields queryBuf, queryLen and args of the client are not found"
	}
	if !stored[cliPfx+"queryBuf"] || !stored[cliPfx+"queryLen"] {
		return nil, "queryBuf and queryLen are not maintained by the parser"
	}
	// strings that share memory with the query buffer
	for f := range a.parse {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && strings.HasSuffix(fnName(g), "byteutils.B2S") {
						a.aliased = true
					}
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "String" || bi.Name() == "StringData") {
						a.aliased = true
					}
				}
				if cv, ok := in.(*ssa.Convert); ok {
					if b, ok := cv.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						a.aliased = true
					}
				}
			}
		}
	}
	return a, ""
}

func addInt(xs []int64, v int64) []int64 {
	for _, x := range xs {
		if x == v {
			return xs
		}
	}
	xs = append(xs, v)
	sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
	return xs
}

func (a *inputAn) field(name string) *types.Var {
	for i := 0; i < a.cliT.NumFields(); i++ {
		if a.cliT.Field(i).Name() == name {
			return a.cliT.Field(i)
		}
	}
	return nil
}

// dispatchFate finds out what the dispatcher does to the fields of the parser.
func (a *inputAn) dispatchFate() {
	key := func(f string) string {
		if f == "args" || f == "queryBuf" || f == "queryLen" {
			return f
		}
		return f + "=" + a.fresh[f].String()
	}
	fs := append([]string{"args", "queryBuf", "queryLen"}, a.pf...)
	fate := map[string]string{}
	for _, f := range fs {
		fate[key(f)] = ""
	}
	dispatchAll(a.p, newReport("none"), "none", fate)
	a.reset = map[string]bool{}
	for _, f := range fs {
		a.ob("C02.reset", "field %s after a request", f)
		switch fate[key(f)] {
		case "reset":
			a.reset[f] = true
		case "mixed":
			pos := a.disp.Pos()
			if strings.HasPrefix("C02.reset", a.prop+".") {
				a.r.fail("C02.reset", fnName(a.disp), a.p.pos(pos), "after a request the field %s of the client is neither always what it was nor always what it is in a new client: the next request is decoded from a state left over by this one", f)
			}
			a.reset[f] = true
		}
	}
}

// freshClient runs the constructor and reads the fields of the client it returns.
func (a *inputAn) freshClient() string {
	var ctor *ssa.Function
	for _, f := range a.p.funcs {
		if f.Parent() == nil && f.Signature.Results().Len() == 1 && isClientT(f.Signature.Results().At(0).Type()) {
			if ctor != nil {
				return "more than one constructor of Client"
			}
			ctor = f
		}
	}
	if ctor == nil {
		return "no constructor of Client"
	}
	a.fresh = newFresh(a.p, a.r, ctor, a.cliT)
	if a.fresh == nil {
		return "the constructor of Client cannot be analysed"
	}
	return ""
}

func newFresh(p *Prog, r *Report, ctor *ssa.Function, cliT *types.Struct) map[string]*Term {
	out := map[string]*Term{}
	n := 0
	h := &Hooks{Load: func(x *Exec, st *State, addr *Term, typ types.Type) *Term {
		if addr.op == "elem" || addr.op == "fld" && nonNilFields[addr.aux] {
			t := st.load(addr, typ)
			if t.op == "init" && isRefType(typ) {
				nonNil(st, t)
			}
			return t
		}
		return nil
	}}
	h.Return = func(x *Exec, st *State, res []*Term) {
		n++
		if len(res) != 1 {
			return
		}
		for i := 0; i < cliT.NumFields(); i++ {
			f := cliT.Field(i)
			out[f.Name()] = x.loadVal(st, mkFull("fld", cliPfx+f.Name(), f.Type(), nil, nil, res[0]), f.Type())
		}
	}
	x := newExec(p, newReport("none"), h)
	st := newState()
	var args []*Term
	for _, pr := range ctor.Params {
		t := sym(pr.Name(), pr.Type())
		if isRefType(pr.Type()) {
			nonNil(st, t)
		}
		args = append(args, t)
	}
	x.Run(ctor, st, args, nil)
	if n != 1 {
		return nil
	}
	return out
}

// ---------------------------------------------------------------- state access

func (a *inputAn) get(st *State, name string) *Term {
	f := a.field(name)
	return st.load(mkFull("fld", cliPfx+name, f.Type(), nil, nil, a.client), f.Type())
}

func (a *inputAn) put(st *State, name string, v *Term) {
	f := a.field(name)
	st.mem[mkFull("fld", cliPfx+name, f.Type(), nil, nil, a.client)] = v
}

func byteAt(x *Exec, st *State, buf *Term, i *Term) *Term {
	b, off, _ := x.sliceParts(buf)
	bt := types.Typ[types.Uint8]
	return st.load(mkFull("elem", "", bt, nil, nil, b, tAdd(off, i)), bt)
}

var byteX = &Exec{}

// ---------------------------------------------------------------- cells

func (a *inputAn) makeCells() {
	type opt struct{ ps []inPred }
	var dims [][]inPred
	if a.enum != "" && len(a.enumVals) > 1 {
		var d []inPred
		for _, v := range a.enumVals {
			v := v
			d = append(d, inPred{fmt.Sprintf("%s=%d", a.enum, v), func(a *inputAn, st *State) *Term { return mkCmp("ieq", a.get(st, a.enum), mkInt(v)) }, true})
		}
		dims = append(dims, d)
	}
	for _, f := range a.pf {
		if f == a.enum {
			continue
		}
		f := f
		g := func(a *inputAn, st *State) *Term { return mkCmp("ieq", a.get(st, f), a.fresh[f]) }
		dims = append(dims, []inPred{{f + " new", g, true}, {f + " set", g, false}})
	}
	combos := [][]inPred{nil}
	for _, d := range dims {
		var next [][]inPred
		for _, c := range combos {
			for _, o := range d {
				next = append(next, append(append([]inPred{}, c...), o))
			}
		}
		combos = next
	}
	if len(combos) > 64 {
		combos = [][]inPred{nil}
	}
	for _, c := range combos {
		var names []string
		for _, q := range c {
			names = append(names, q.name)
		}
		k := strings.Join(names, ", ")
		a.cells[k] = &inCell{key: k, preds: c, cands: a.candidates()}
	}
}

func (a *inputAn) candidates() []inCand {
	var out []inCand
	add := func(name string, f func(a *inputAn, st *State) *Term) { out = append(out, inCand{name: name, f: f}) }
	ints := append([]string{"queryLen"}, a.pf...)
	for _, f := range ints {
		f := f
		add(f+"==fresh", func(a *inputAn, st *State) *Term { return mkCmp("ieq", a.get(st, f), a.fresh[f]) })
		add(f+">=1", func(a *inputAn, st *State) *Term { return mkCmp("ige", a.get(st, f), tOne) })
		add(f+">=0", func(a *inputAn, st *State) *Term { return mkCmp("ige", a.get(st, f), tZero) })
		add(f+">=-1", func(a *inputAn, st *State) *Term { return mkCmp("ige", a.get(st, f), mkInt(-1)) })
		for _, s := range []string{"queryBuf", "args"} {
			s := s
			add(f+"<=len "+s, func(a *inputAn, st *State) *Term { return mkCmp("ige", lenOf(a.get(st, s)), a.get(st, f)) })
			add(f+"<len "+s, func(a *inputAn, st *State) *Term { return mkCmp("ige", lenOf(a.get(st, s)), tAdd(a.get(st, f), tOne)) })
		}
		for _, c := range a.consts {
			c := c
			add(fmt.Sprintf("%s<=%d", f, c), func(a *inputAn, st *State) *Term { return mkCmp("ige", mkInt(c), a.get(st, f)) })
		}
		add("decoded=="+f, func(a *inputAn, st *State) *Term { return mkCmp("ieq", st.ghost("nargs"), a.get(st, f)) })
		add("decoded==len args-"+f, func(a *inputAn, st *State) *Term {
			return mkCmp("ieq", st.ghost("nargs"), tSub(lenOf(a.get(st, "args")), a.get(st, f)))
		})
	}
	add("decoded==len args", func(a *inputAn, st *State) *Term { return mkCmp("ieq", st.ghost("nargs"), lenOf(a.get(st, "args"))) })
	add("len args==0", func(a *inputAn, st *State) *Term { return mkCmp("ieq", lenOf(a.get(st, "args")), tZero) })
	for _, c := range a.bytes {
		c := c
		add(fmt.Sprintf("first byte %q", rune(c)), func(a *inputAn, st *State) *Term {
			if !st.provesGE(a.get(st, "queryLen"), tOne) {
				return tFalse
			}
			return mkCmp("ieq", byteAt(byteX, st, a.get(st, "queryBuf"), tZero), mkInt(c))
		})
	}
	return out
}

// startState is a handler entry in the given parser state.
func (a *inputAn) startState(c *inCell) *State {
	st := newState()
	a.client = sym("client", a.ptrT)
	nonNil(st, a.client)
	a.fd = sym("fd", a.p.fieldType("server", "Client", "fd"))
	st.assumeGE(a.fd, tZero)
	for i := 0; i < a.cliT.NumFields(); i++ {
		f := a.cliT.Field(i)
		if nonNilFields[cliPfx+f.Name()] {
			nonNil(st, a.get(st, f.Name()))
		}
	}
	a.put(st, "fd", a.fd)
	st.setGhost("nargs", sym("decoded", types.Typ[types.Int]))
	for _, q := range c.preds {
		if !st.assume(q.f(a, st), q.val) {
			return nil
		}
	}
	for pass := 0; pass < 2; pass++ {
		for _, k := range c.cands {
			if k.dead {
				continue
			}
			t := k.f(a, st)
			if t == tFalse {
				if pass == 0 {
					continue
				}
				return nil
			}
			if !st.assume(t, true) {
				return nil
			}
		}
	}
	// known values replace the symbols
	for _, f := range append([]string{"queryLen"}, a.pf...) {
		for _, c := range append([]int64{0, -1}, a.enumVals...) {
			if st.provesEqInt(a.get(st, f), mkInt(c)) {
				a.put(st, f, mkInt(c))
				break
			}
		}
	}
	st.lin.reduce()
	a.arm(st)
	return st
}

// canon keeps states in different parser states apart at loop heads.
func (a *inputAn) canon(x *Exec, st *State) {
	if a.client == nil {
		return
	}
	var sb strings.Builder
	for _, f := range a.pf {
		v := a.get(st, f)
		if f == a.enum {
			if n, ok := v.intVal(); ok {
				fmt.Fprintf(&sb, "%s=%d ", f, n)
			} else {
				fmt.Fprintf(&sb, "%s=? ", f)
			}
			continue
		}
		switch st.eval(mkCmp("ieq", v, a.fresh[f])) {
		case 1:
			fmt.Fprintf(&sb, "%s new ", f)
		case 0:
			fmt.Fprintf(&sb, "%s set ", f)
		default:
			fmt.Fprintf(&sb, "%s? ", f)
		}
	}
	st.setSlot("cell", sb.String())
}

// arm resets what is counted per run of the handler.
func (a *inputAn) arm(st *State) {
	st.setGhost("adv", tZero)
	st.setGhost("recv", a.get(st, "queryLen"))
	for _, k := range []string{"neg", "negenv", "negpos", "closed", "read", "data", "tail"} {
		delete(st.slots, k)
	}
	clearNeeds(st)
}

func clearNeeds(st *State) {
	for i := 0; ; i++ {
		k := fmt.Sprintf("need%d", i)
		if st.slots[k] == nil {
			break
		}
		delete(st.slots, k)
	}
}

// joinInto weakens the cells that contain the state; it reports a change.
func (a *inputAn) joinInto(s *State) bool {
	changed := false
	for _, c := range a.cells {
		t := s.clone()
		ok := true
		for _, q := range c.preds {
			if !t.assume(q.f(a, t), q.val) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if !c.reach {
			c.reach, c.dirty, changed = true, true, true
		}
		for i := range c.cands {
			k := &c.cands[i]
			if k.dead {
				continue
			}
			if t.eval(k.f(a, t)) != 1 {
				if debugOn && k.name == os.Getenv("METIS_CAND") {
					fmt.Printf("DROP %s in {%s}\n", k.name, c.key)
					fmt.Println(k.f(a, t))
					for _, l := range t.lin.ge {
						fmt.Println("  ", mkLin(l))
					}
				}
				k.dead, c.dirty, changed = true, true, true
			}
		}
	}
	return changed
}

func (a *inputAn) runFrom(st *State, rep *Report) []*Violation {
	x := newExec(a.p, rep, a.hooks())
	st.frames = nil
	t0 := time.Now()
	x.Run(a.cb, st, a.cbArgs(), nil)
	if debugOn && (a.resume == nil || x.nPaths > 0) {
		fmt.Printf("RUN %v %d paths %d undecided\n", time.Since(t0), x.nPaths, len(x.undecided))
	}
	rep.use(x)
	if rep == a.r {
		for u := range x.undecided {
			_ = u
		}
	}
	return x.emitted
}

func (a *inputAn) cbArgs() []*Term {
	var args []*Term
	for _, pr := range a.cb.Params {
		switch shortType(pr.Type()) {
		case "*ae.EventLoop":
			args = append(args, mkFull("alloc", "eventLoop", pr.Type(), nil, nil))
		case "socket.FD":
			args = append(args, a.fd)
		default:
			args = append(args, mkFull("iface", "*server.Client", pr.Type(), a.ptrT, nil, a.client))
		}
	}
	return args
}

// analyse runs the invariant inference and then the rules.
func (a *inputAn) analyse() {
	a.makeCells()
	// the state of a new client
	st := newState()
	a.client = mkFull("alloc", "newclient", a.ptrT, nil, nil)
	for i := 0; i < a.cliT.NumFields(); i++ {
		f := a.cliT.Field(i)
		if v := a.fresh[f.Name()]; v != nil {
			a.put(st, f.Name(), v)
		}
	}
	st.setGhost("nargs", tZero)
	a.joinInto(st)
	var first *Report // of the state of a new client, which assumes nothing
	defer func() {
		if e := recover(); e != nil {
			if first != nil {
				a.r.addAll(first.violations)
			}
			panic(e)
		}
	}()
	for round := 0; ; round++ {
		if round > 40 {
			a.r.fail("undecided", "parser invariants", "-", "the invariant of the parser state did not stabilise")
			return
		}
		busy := false
		for _, k := range a.cellKeys() {
			c := a.cells[k]
			if !c.reach || !c.dirty {
				continue
			}
			c.dirty = false
			busy = true
			s := a.startState(c)
			c.rep, c.exits = newReport(a.r.prop), nil
			if s == nil {
				continue
			}
			for _, e := range a.runFrom(s, c.rep) {
				if e.Rule == "@exit" && e.state.slots["closed"] == nil {
					e.state.frames = nil
					c.exits = append(c.exits, e.state)
				}
			}
			if first == nil {
				first = c.rep
			}
			c.exits = dedupe(a.p, c.exits)
			for _, e := range c.exits {
				a.joinInto(e)
			}
		}
		if !busy {
			break
		}
	}
	var exits []*State
	for _, k := range a.cellKeys() {
		c := a.cells[k]
		if !c.reach || c.rep == nil {
			continue
		}
		var inv []string
		for _, q := range c.cands {
			if !q.dead {
				inv = append(inv, q.name)
			}
		}
		a.r.note("parser state {%s}: %s", c.key, strings.Join(inv, ", "))
		if os.Getenv("METIS_DEBUG") != "" {
			fmt.Printf("CELL {%s}: %s\n", c.key, strings.Join(inv, ", "))
		}
		a.r.addAll(c.rep.violations)
		for f := range c.rep.funcs {
			a.r.funcs[f] = true
		}
		a.r.paths += c.rep.paths
		a.r.states += c.rep.states
		exits = append(exits, c.exits...)
	}
	if a.prop != "C02" {
		return
	}
	// more data arrives in each of the states in which the handler waits
	seen := map[string]bool{}
	for _, e := range exits {
		t := e.slots["neg"]
		if t == nil {
			continue
		}
		e.frames = nil
		g := &resumeGoal{key: t.aux, name: "test"}
		if v := e.slots["negenv"]; v != nil {
			g.vals = v.args
		}
		if v := e.slots["negpos"]; v != nil {
			g.pos = v.aux
		}
		a.arm(e)
		k := g.key + e.key(a.p)
		if seen[k] {
			continue
		}
		seen[k] = true
		a.nWait++
		a.resume = g
		// the values compared at the test stay visible to substitutions
		for i, v := range g.vals {
			e.slots[fmt.Sprintf("g:live%d", i)] = v
		}
		a.runFrom(e, a.r)
		a.resume = nil
	}
	a.r.note("%d waiting states resumed", a.nWait)
}

func (a *inputAn) cellKeys() []string {
	var ks []string
	for k := range a.cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---------------------------------------------------------------- hooks

func (a *inputAn) hooks() *Hooks {
	return &Hooks{
		Call: a.call, Store: a.store, Return: a.ret, Oblig: a.oblig, Branch: a.branch, Append: a.append, CopyTo: a.copyTo,
		Load: a.load, Slice: a.sliceHook, Content: a.content, Alias: a.alias, TypeIs: a.typeIs, Canon: a.canon,
		Inline: func(fn *ssa.Function) bool {
			s := fnName(fn)
			return !strings.Contains(s, "ae.") || strings.HasPrefix(s, "server.")
		},
	}
}

func (a *inputAn) oblig(x *Exec, st *State, kind string, ok bool, in ssa.Instruction, detail string) {
	if a.resume != nil || kind == "overflow" {
		return
	}
	r := "C01." + kind
	a.ob(r, "%s at %s in %s", kind, a.p.pos(in.Pos()), fnName(in.Parent()))
	if !ok {
		a.viol(x, st, r, in.Pos(), fnName(in.Parent()), "%s not shown: %s", kind, detail)
	}
}

func (a *inputAn) typeIs(x *Exec, st *State, v *Term, ty string) bool {
	for v.op == "app" && v.aux == "wrap" {
		v = v.args[0]
	}
	return ty == "syscall.Errno" && v.op == "sym" && strings.HasPrefix(v.aux, "err:syscall.") && st.evalNil(v) == 0
}

func (a *inputAn) load(x *Exec, st *State, addr *Term, typ types.Type) *Term {
	if addr.op == "elem" && addr.typ != nil && shortType(addr.typ) == "uint8" || addr.op == "elem" && shortType(typ) == "uint8" {
		a.access(x, st, addr.args[0], tAdd(addr.args[1], tOne), nil)
	}
	if addr.op == "fld" && nonNilFields[addr.aux] {
		t := st.load(addr, typ)
		if t.op == "init" && st.evalNil(t) < 0 {
			nonNil(st, t)
		}
		return t
	}
	return nil
}

// access: bytes of the buffer up to the absolute position end are looked at.
func (a *inputAn) access(x *Exec, st *State, base, end *Term, in ssa.Instruction) {
	if st.frames == nil || a.resume != nil {
		return
	}
	b, off, _ := x.sliceParts(a.get(st, "queryBuf"))
	if b != base {
		return
	}
	pos := token.NoPos
	if in != nil {
		pos = in.Pos()
	} else if f := st.top(); f.idx < len(f.blk.Instrs) {
		pos = f.blk.Instrs[f.idx].Pos()
	}
	a.ob("C02.received", "look at the query buffer %s in %s", a.p.pos(pos), pathFn(st))
	if !st.provesGE(tAdd(off, a.get(st, "queryLen")), end) {
		a.viol(x, st, "C02.received", pos, pathFn(st), "bytes of the query buffer up to position %v are looked at, which may not have been received yet (received: %v)", tSub(end, off), a.get(st, "queryLen"))
	}
}

func (a *inputAn) content(x *Exec, st *State, s *Term, in ssa.Instruction) {
	b, off, ln := x.sliceParts(s)
	a.access(x, st, b, tAdd(off, ln), in)
}

func (a *inputAn) alias(x *Exec, st *State, buf *Term, c *Call) {
	a.content(x, st, buf, c.instr)
}

func (a *inputAn) sliceHook(x *Exec, st *State, base, lo, hi *Term, in *ssa.Slice) {
	b, off, _ := x.sliceParts(a.get(st, "queryBuf"))
	if b == base && in.High != nil {
		st.slots["data"] = mk("data", "", tSub(hi, off))
	}
}

func (a *inputAn) fieldOfAddr(addr *Term) string {
	if addr.op == "fld" && strings.HasPrefix(addr.aux, cliPfx) && addr.args[0] == a.client {
		return strings.TrimPrefix(addr.aux, cliPfx)
	}
	return ""
}

func (a *inputAn) changing(x *Exec, st *State, what string, pos token.Pos) {
	if a.resume != nil {
		a.viol(x, st, "C02.resume", pos, pathFn(st), "when more data arrives, %s before the handler comes back to the point at %s where it has waited for data", what, a.resume.pos)
		st.dead = true
		return
	}
	a.ob("C02.wait", "%s at %s", what, a.p.pos(pos))
	if t := st.slots["neg"]; t != nil {
		p := ""
		if q := st.slots["negpos"]; q != nil {
			p = q.aux
		}
		a.viol(x, st, "C02.wait", pos, pathFn(st), "%s although the test at %s has found that data is missing", what, p)
	}
}

func (a *inputAn) store(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
	pos := in.Pos()
	if addr.op == "elem" {
		a.elemStore(x, st, addr, val, in)
		return
	}
	f := a.fieldOfAddr(addr)
	if f == "" {
		return
	}
	old := a.get(st, f)
	switch f {
	case "queryLen":
		return // accounted for by the conservation of bytes
	case "queryBuf":
		b0, o0, l0 := x.sliceParts(old)
		b1, o1, l1 := x.sliceParts(val)
		if b0 == b1 {
			k := tSub(o1, o0)
			if z, ok := k.intVal(); ok && z == 0 {
				_, _ = l0, l1
				return
			}
			a.ob("C35.forward", "query buffer moves at %s", a.p.pos(pos))
			if a.aliased && !st.provesGE(k, tZero) {
				a.viol(x, st, "C35.forward", pos, pathFn(st), "the query buffer moves back over bytes that arguments of earlier requests still refer to")
			}
			a.consume(x, st, k, in)
			return
		}
		// growth
		if st.hasFact("grown", b1) {
			return
		}
		a.ob("C35.fresh", "query buffer replaced at %s", a.p.pos(pos))
		if b1.op != "alloc" && a.aliased {
			a.viol(x, st, "C35.fresh", pos, pathFn(st), "the query buffer is replaced by memory that is not newly allocated, arguments of earlier requests may refer to it")
		}
		if !st.provesEqInt(a.get(st, "queryLen"), tZero) && !st.hasFact("filled", b1) && a.resume == nil {
			a.viol(x, st, "C02.content", pos, pathFn(st), "the query buffer is replaced although it may hold received bytes")
		}
		return
	case "args":
		a.argsStore(x, st, old, val, in)
		return
	}
	for _, g := range a.pf {
		if g == f && !st.provesEqInt(old, val) {
			a.changing(x, st, "the parser's "+f+" changes", pos)
		}
	}
}

// consume: k bytes leave the query buffer.
func (a *inputAn) consume(x *Exec, st *State, k *Term, in ssa.Instruction) {
	pos := in.Pos()
	st.setGhost("adv", tAdd(st.ghost("adv"), k))
	a.changing(x, st, "bytes are consumed", pos)
	if a.resume != nil {
		return
	}
	buf := a.get(st, "queryBuf")
	// a request part ends at its terminator
	a.ob("C02.exact", "consumption at %s in %s", a.p.pos(pos), pathFn(st))
	ok := false
	if st.provesEqInt(byteAt(x, st, buf, tSub(k, tOne)), mkInt('\n')) {
		ok = true
	}
	for f, v := range st.bools {
		if v && f.op == "app" && f.aux == "@found" && f.args[0] == mkBase(x, buf) {
			_, off, _ := x.sliceParts(buf)
			if st.provesEqInt(tAdd(off, k), tAdd(f.args[1], f.args[2])) {
				ok = true
			}
		}
	}
	if d := st.slots["data"]; d != nil {
		if st.provesEqInt(tAdd(d.args[0], mkInt(2)), k) {
			ok = true
		}
		if st.provesEqInt(d.args[0], k) {
			ok = true
			st.setSlot("tail", "1")
			goto done
		}
	}
	if v, isC := k.intVal(); isC && v >= 0 && v <= 4 {
		if st.slot("tail") != "" && v == 2 {
			ok = true
		}
		all := true
		for i := int64(0); i < v; i++ {
			if !isKnownByte(st, byteAt(x, st, buf, mkInt(i))) {
				all = false
			}
		}
		if all {
			ok = true
		}
	}
	if st.provesEqInt(k, a.get(st, "queryLen")) && st.provesEqInt(k, tZero) {
		ok = true
	}
	st.setSlot("tail", "")
done:
	if !ok {
		a.viol(x, st, "C02.exact", pos, pathFn(st), "%v bytes are consumed, which is not shown to be the end of a line or of an argument: the next request is read from the wrong position", k)
	}
	// the bytes waited for are the bytes consumed
	for i := 0; ; i++ {
		n := st.slots[fmt.Sprintf("need%d", i)]
		if n == nil {
			break
		}
		a.ob("C02.complete", "data awaited before %s", a.p.pos(pos))
		if !st.provesGE(k, n.args[0]) {
			a.viol(x, st, "C02.complete", pos, pathFn(st), "the test for enough data asks for %v bytes, but only %v are consumed: a complete request may have to wait for the next one", n.args[0], k)
		}
		delete(st.slots, fmt.Sprintf("need%d", i))
	}
	delete(st.slots, "data")
}

func isKnownByte(st *State, t *Term) bool {
	lo, hi := st.lin.rangeOf(linOf(t), fullRange)
	return lo.Cmp(hi) == 0
}

func mkBase(x *Exec, buf *Term) *Term { b, _, _ := x.sliceParts(buf); return b }

func (a *inputAn) argsStore(x *Exec, st *State, old, val *Term, in ssa.Instruction) {
	pos := in.Pos()
	b, off, ln := x.sliceParts(val)
	ob, ooff, oln := x.sliceParts(old)
	if b == ob && off == ooff && st.provesEqInt(ln, oln) {
		return
	}
	if !(st.provesEqInt(ln, tZero) && st.provesEqInt(oln, tZero)) {
		a.changing(x, st, "the arguments change", pos)
	}
	switch {
	case st.provesEqInt(ln, tZero):
		st.setGhost("nargs", tZero)
	case st.hasFact("appended", b):
		if a.resume == nil {
			a.ob("C02.order", "argument appended at %s", a.p.pos(pos))
			if !st.provesEqInt(st.ghost("nargs"), oln) {
				a.viol(x, st, "C02.order", pos, pathFn(st), "an argument is appended although the argument list is not known to consist of the arguments decoded so far")
			}
		}
		st.setGhost("nargs", tAdd(st.ghost("nargs"), tSub(ln, oln)))
	case b.op == "alloc" && strings.HasPrefix(b.aux, "make") && !st.hasFact("filled", b):
		st.setGhost("nargs", tZero)
	default:
		st.setGhost("nargs", ln)
	}
}

func (a *inputAn) elemStore(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
	if addr.args[0].op == "alloc" {
		st.setFact("filled", true, addr.args[0])
	}
	args := a.get(st, "args")
	b, off, _ := x.sliceParts(args)
	if addr.args[0] == b {
		if a.resume != nil {
			a.changing(x, st, "an argument is stored", in.Pos())
			return
		}
		a.changing(x, st, "an argument is stored", in.Pos())
		a.ob("C02.order", "argument stored at %s", a.p.pos(in.Pos()))
		if !st.provesEqInt(tSub(addr.args[1], off), st.ghost("nargs")) {
			a.viol(x, st, "C02.order", in.Pos(), pathFn(st), "argument number %v of the request is stored at index %v", st.ghost("nargs"), tSub(addr.args[1], off))
		}
		st.setGhost("nargs", tAdd(st.ghost("nargs"), tOne))
		return
	}
	qb, qoff, _ := x.sliceParts(a.get(st, "queryBuf"))
	if addr.args[0] == qb {
		a.overwrite(x, st, tSub(addr.args[1], qoff), in.Pos(), "a byte is stored")
	}
}

// overwrite: the query buffer is written from the relative position at.
func (a *inputAn) overwrite(x *Exec, st *State, at *Term, pos token.Pos, what string) {
	if a.resume != nil {
		return
	}
	a.ob("C35.behind", "%s at %s", what, a.p.pos(pos))
	if a.aliased && !st.provesGE(at, a.get(st, "queryLen")) {
		a.viol(x, st, "C35.behind", pos, pathFn(st), "%s at position %v of the query buffer, before the end of the received data %v, where arguments of requests may refer to", what, at, a.get(st, "queryLen"))
	}
}

func (a *inputAn) append(x *Exec, st *State, base, added, result *Term, in ssa.Instruction) {
	buf := a.get(st, "queryBuf")
	b, off, ln := x.sliceParts(base)
	qb, qoff, qln := x.sliceParts(buf)
	nb, _, _ := x.sliceParts(result)
	if b == qb {
		// growth keeps the received bytes if the whole received part is the base
		if off == qoff && st.provesGE(ln, a.get(st, "queryLen")) {
			st.setFact("grown", true, nb)
			if st.provesGE(a.get(st, "queryLen"), tOne) {
				bt := types.Typ[types.Uint8]
				v := byteAt(x, st, buf, tZero)
				st.mem[mkFull("elem", "", bt, nil, nil, nb, tZero)] = v
			}
		}
		// append may write behind its base in place
		a.overwriteAppend(x, st, tAdd(tSub(off, qoff), ln), qln, in.Pos())
	}
	args := a.get(st, "args")
	ab, aoff, aln := x.sliceParts(args)
	if b == ab && off == aoff && st.provesEqInt(ln, aln) {
		st.setFact("appended", true, nb)
	} else if _, _, al := x.sliceParts(added); !st.provesEqInt(al, tZero) {
		st.setFact("filled", true, nb)
	}
}

func (a *inputAn) overwriteAppend(x *Exec, st *State, at, qln *Term, pos token.Pos) {
	a.overwrite(x, st, at, pos, "append may write in place")
}

func (a *inputAn) copyTo(x *Exec, st *State, dst, src *Term, in ssa.Instruction) {
	b, off, _ := x.sliceParts(dst)
	if b.op == "alloc" {
		st.setFact("filled", true, b)
	}
	qb, qoff, _ := x.sliceParts(a.get(st, "queryBuf"))
	if b == qb {
		a.overwrite(x, st, tSub(off, qoff), in.Pos(), "copy writes")
	}
	args := a.get(st, "args")
	ab, aoff, _ := x.sliceParts(args)
	if b == ab {
		a.changing(x, st, "arguments are stored", in.Pos())
		if a.resume == nil {
			a.ob("C02.order", "arguments copied at %s", a.p.pos(in.Pos()))
			if !st.provesEqInt(tSub(off, aoff), st.ghost("nargs")) {
				a.viol(x, st, "C02.order", in.Pos(), pathFn(st), "arguments are copied to index %v, %v have been decoded", tSub(off, aoff), st.ghost("nargs"))
			}
		}
		st.setFact("copydst", true, b)
	}
}

var searchFns = map[string]bool{"bytes.Index": true, "bytes.IndexByte": true, "bytes.IndexAny": true, "bytes.LastIndex": true, "strings.Index": true, "strings.IndexByte": true}

func (a *inputAn) call(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	pos := c.instr.Pos()
	if c.fn != nil && c.fn == a.disp {
		a.changing(x, st, "a request is executed", pos)
		if a.resume != nil {
			return nil, true
		}
		args := a.get(st, "args")
		_, _, ln := x.sliceParts(args)
		a.ob("C01.args", "dispatch at %s", a.p.pos(pos))
		if !st.provesGE(ln, tOne) {
			a.viol(x, st, "C01.args", pos, pathFn(st), "a request without any argument may be dispatched (length %v)", ln)
		}
		a.ob("C02.args", "dispatch at %s", a.p.pos(pos))
		if !st.provesEqInt(st.ghost("nargs"), ln) {
			a.viol(x, st, "C02.args", pos, pathFn(st), "a request is dispatched with %v arguments, %v have been decoded", ln, st.ghost("nargs"))
		}
		for _, f := range append([]string{"args"}, a.pf...) {
			if a.reset[f] {
				a.put(st, f, a.fresh[f])
			}
		}
		st.setGhost("nargs", tZero)
		s2 := st.clone()
		e := x.fresh(s2, "err:dispatch", nil)
		s2.assume(mkCmp("eq", e, tNil), false)
		return []Outcome{{st, []*Term{tNil}}, {s2, []*Term{e}}}, true
	}
	switch {
	case c.name == "builtin.copy" && len(c.args) == 2:
		// count what is copied into the argument list
		outs := models[c.name](x, st, c)
		for _, o := range outs {
			b, _, _ := x.sliceParts(c.args[0])
			if o.st.hasFact("copydst", b) {
				o.st.clearFact("copydst", b)
				o.st.setGhost("nargs", tAdd(o.st.ghost("nargs"), o.res[0]))
			}
		}
		return outs, true
	case c.name == "syscall.Read" || c.name == "syscall.Recvfrom":
		return a.read(x, st, c), true
	case c.name == "syscall.Close":
		st.setSlot("closed", "1")
		return x.freshResults(st, c), true
	case searchFns[c.name] && len(c.args) > 0:
		return a.search(x, st, c), true
	case c.fn != nil && c.fn.Pkg != nil && c.fn.Pkg.Pkg.Path() == modPath+"/ae":
		return x.freshResults(st, c), true
	}
	return nil, false
}

func (a *inputAn) read(x *Exec, st *State, c *Call) []Outcome {
	pos := c.instr.Pos()
	dst := c.args[1]
	b, off, ln := x.sliceParts(dst)
	buf := a.get(st, "queryBuf")
	qb, qoff, _ := x.sliceParts(buf)
	ql := a.get(st, "queryLen")
	if b == qb {
		a.ob("C02.append", "read at %s", a.p.pos(pos))
		if !st.provesEqInt(tSub(off, qoff), ql) && a.resume == nil {
			a.viol(x, st, "C02.append", pos, pathFn(st), "data is read to position %v of the query buffer, the received data ends at %v", tSub(off, qoff), ql)
		}
		a.overwrite(x, st, tSub(off, qoff), pos, "data is read")
		v0 := byteAt(x, st, buf, tZero)
		keep := st.provesGE(tSub(off, qoff), tOne)
		st.havocObject(b, mk("site", x.siteName(st, "read")))
		if keep {
			bt := types.Typ[types.Uint8]
			st.mem[mkFull("elem", "", bt, nil, nil, qb, qoff)] = v0
		}
	} else {
		st.havocObject(b, mk("site", x.siteName(st, "read")))
	}
	a.ob("C02.room", "read at %s", a.p.pos(pos))
	if !st.provesGE(ln, tOne) && a.resume == nil {
		a.viol(x, st, "C02.room", pos, pathFn(st), "the buffer handed to read may be empty: its result 0 looks like the end of the stream")
	}
	var out []Outcome
	if a.resume == nil {
		se := st.clone()
		e := x.fresh(se, "err:syscall.Read", nil)
		se.assume(mkCmp("eq", e, tNil), false)
		se.note("%s: read fails", a.p.pos(pos))
		out = append(out, Outcome{se, []*Term{mkInt(-1), e}})
		s0 := st.clone()
		s0.note("%s: end of stream", a.p.pos(pos))
		s0.setSlot("read", "eof")
		out = append(out, Outcome{s0, []*Term{tZero, tNil}})
	}
	n := x.fresh(st, "nread", types.Typ[types.Int])
	st.assumeGE(n, tOne)
	if !st.assumeGE(ln, n) {
		return out
	}
	st.setSlot("read", "data")
	for _, k := range []string{"neg", "negenv", "negpos"} {
		delete(st.slots, k)
	}
	clearNeeds(st)
	st.setGhost("recv", tAdd(st.ghost("recv"), n))
	st.note("%s: data is read", a.p.pos(pos))
	return append(out, Outcome{st, []*Term{n, tNil}})
}

func (a *inputAn) search(x *Exec, st *State, c *Call) []Outcome {
	hay := c.args[0]
	b, off, ln := x.sliceParts(hay)
	buf := a.get(st, "queryBuf")
	qb, qoff, _ := x.sliceParts(buf)
	m := tOne
	var first *Term
	if !strings.HasSuffix(c.name, "IndexByte") {
		m = lenOf(c.args[1])
		if c.args[1].op == "bytes" {
			if s, ok := c.args[1].args[0].strVal(); ok && s != "" {
				first = mkInt(int64(s[0]))
				m = mkInt(int64(len(s)))
			}
		}
	} else {
		first = c.args[1]
	}
	inBuf := b == qb
	if inBuf {
		a.access(x, st, b, tAdd(off, ln), c.instr)
	}
	dep := inBuf && a.dependsOnReceived(st, tAdd(tSub(off, qoff), ln))
	if inBuf && a.resume != nil && a.atGoal(x, st, c.instr) {
		return nil
	}
	s2 := st.clone()
	i := x.fresh(st, "idx", types.Typ[types.Int])
	var out []Outcome
	feas := st.assumeGE(i, tZero) && st.assumeGE(tSub(ln, m), i)
	if feas && first != nil && inBuf {
		v0 := byteAt(x, st, hay, tZero)
		if st.eval(mkCmp("ieq", v0, first)) == 0 {
			feas = st.assumeGE(i, tOne)
		}
		if feas {
			st.setFact("found", true, b, tAdd(off, i), m)
			st.setFact("needle", true, i, b, off, first)
		}
	}
	if feas {
		st.note("%s: %s finds it", a.p.pos(c.instr.Pos()), c.name)
		out = append(out, Outcome{st, []*Term{i}})
	}
	s2.note("%s: %s does not find it", a.p.pos(c.instr.Pos()), c.name)
	if dep {
		a.negative(x, s2, c.instr)
	}
	return append(out, Outcome{s2, []*Term{mkInt(-1)}})
}

// dependsOnReceived: the term grows with the amount of received data.
func (a *inputAn) dependsOnReceived(st *State, t *Term) bool {
	return a.recvCoef(st, t) != 0
}

func (a *inputAn) recvCoef(st *State, t *Term) int64 {
	ql := linOf(a.get(st, "queryLen"))
	l := linOf(t)
	for _, q := range ql.at {
		if q.k < 0 {
			continue
		}
		if !(q.t.op == "sym" && (strings.HasPrefix(q.t.aux, "nread") || strings.HasPrefix(q.t.aux, "J@"))) && q.t.op != "init" {
			continue
		}
		if k := coef(l, q.t); k != 0 {
			return k
		}
	}
	return 0
}

func (a *inputAn) testKey(st *State, in ssa.Instruction) string {
	var sb strings.Builder
	for i, f := range st.frames {
		if i > 0 {
			fmt.Fprintf(&sb, "%p/", f.site)
		}
	}
	fmt.Fprintf(&sb, "%p", in)
	return sb.String()
}

// liveTerms lists the local values that are used after the instruction, in every frame.
func (a *inputAn) liveTerms(st *State, in ssa.Instruction) []*Term {
	var out []*Term
	for i, f := range st.frames {
		cur := in
		if i+1 < len(st.frames) {
			cur = st.frames[i+1].site
		}
		if cur == nil || cur.Block() == nil {
			continue
		}
		for _, v := range liveAfter(a.p, cur) {
			t := f.env[v]
			if t == nil {
				t = tUnit
			}
			if a.pureLoopVar(v, cur) {
				t = tUnit
			}
			out = append(out, t)
		}
	}
	return out
}

// pureLoopVar: a value computed in an inner loop around the instruction that changes nothing of the client (a search).
func (a *inputAn) pureLoopVar(v ssa.Value, at ssa.Instruction) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, l := range a.p.loopsOf(at.Parent()).heads {
		if !l.blocks[at.Block()] || !l.blocks[in.Block()] {
			continue
		}
		if a.pureLoop(l) {
			return true
		}
	}
	return false
}

func (a *inputAn) pureLoop(l *loopInfo) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
				return false
			case ssa.CallInstruction:
				for _, g := range a.p.calleesOf(in) {
					if g == a.disp {
						return false
					}
					for h := range a.p.reach([]*ssa.Function{g}, nil) {
						for _, bb := range h.Blocks {
							for _, i2 := range bb.Instrs {
								if s, ok := i2.(*ssa.Store); ok && strings.HasPrefix(fieldName(s.Addr), cliPfx) {
									return false
								}
							}
						}
					}
				}
			}
		}
	}
	return true
}

// liveAfter: the values live after an instruction, in a fixed order.
func liveAfter(p *Prog, in ssa.Instruction) []ssa.Value {
	blk := in.Block()
	fn := blk.Parent()
	live := map[ssa.Value]bool{}
	for _, s := range blk.Succs {
		for v := range p.liveIn(fn)[s] {
			live[v] = true
		}
		pi := -1
		for j, pr := range s.Preds {
			if pr == blk {
				pi = j
			}
		}
		for _, i2 := range s.Instrs {
			ph, ok := i2.(*ssa.Phi)
			if !ok {
				break
			}
			delete(live, ph)
			switch e := ph.Edges[pi].(type) {
			case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			default:
				live[e] = true
			}
		}
	}
	for j := len(blk.Instrs) - 1; j >= 0 && blk.Instrs[j] != in; j-- {
		i2 := blk.Instrs[j]
		if v, ok := i2.(ssa.Value); ok {
			delete(live, v)
		}
		for _, op := range i2.Operands(nil) {
			switch v := (*op).(type) {
			case nil, *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			default:
				live[v] = true
			}
		}
	}
	if v, ok := in.(ssa.Value); ok {
		delete(live, v)
	}
	var out []ssa.Value
	for v := range live {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// negative: a test has found that data is missing.
func (a *inputAn) negative(x *Exec, st *State, in ssa.Instruction) {
	if st.slots["neg"] != nil || st.slot("read") != "data" {
		return
	}
	st.setSlot("neg", a.testKey(st, in))
	st.setSlot("negpos", a.p.pos(instrPos(in)))
	st.slots["negenv"] = mk("tuple", "", a.liveTerms(st, in)...)
}

func instrPos(in ssa.Instruction) token.Pos {
	if i, ok := in.(*ssa.If); ok {
		return condPos(i)
	}
	return in.Pos()
}

// atGoal: the resumed handler has come back to the test.
func (a *inputAn) atGoal(x *Exec, st *State, in ssa.Instruction) bool {
	g := a.resume
	if a.testKey(st, in) != g.key {
		return false
	}
	a.nResume++
	a.ob("C02.resume", "resumption at %s", g.pos)
	cur := a.liveTerms(st, in)
	for i := range g.vals {
		want := st.slots[fmt.Sprintf("g:live%d", i)]
		if want == nil {
			want = g.vals[i]
		}
		if i >= len(cur) {
			break
		}
		if want == cur[i] || want == tUnit || cur[i] == tUnit {
			continue
		}
		if a.mentionsReceived(st, want) || a.mentionsReceived(st, cur[i]) || want.op == "alloc" && cur[i].op == "alloc" {
			continue
		}
		same := false
		switch {
		case want.lin != nil || cur[i].lin != nil || isNumeric(want):
			same = st.provesEqInt(want, cur[i])
		default:
			same = st.equalTerms(want, cur[i])
		}
		if !same {
			a.viol(x, st, "C02.resume", instrPos(in), fnName(in.Parent()), "when more data arrives, the handler comes back to the test at %s with local state %v where it had %v: progress kept outside the client is lost", g.pos, cur[i], want)
		}
	}
	return true
}

func (a *inputAn) mentionsReceived(st *State, t *Term) bool {
	if a.recvCoef(st, t) != 0 {
		return true
	}
	r := false
	t.walk(func(u *Term) {
		if u.op == "sym" && (strings.HasPrefix(u.aux, "nread") || strings.HasPrefix(u.aux, "idx")) {
			r = true
		}
		for _, q := range linOf(a.get(st, "queryLen")).at {
			if q.t == u {
				r = true
			}
		}
	})
	return r
}

func (a *inputAn) branch(x *Exec, st *State, cond *Term, val bool, in ssa.Instruction) {
	if a.resume != nil && a.atGoalBranch(x, st, in) {
		st.dead = true
		return
	}
	c := cond
	for c.op == "not" {
		c, val = c.args[0], !val
	}
	if c.op != "cmp" || (c.aux != "ige" && c.aux != "ieq") {
		return
	}
	k := a.recvCoef(st, c.args[0])
	if k == 0 || a.resume != nil {
		return
	}
	// decided tests carry no new information, except that a decided failure is a failure
	neg := false
	switch c.aux {
	case "ige":
		neg = (k > 0) != val
	case "ieq":
		// queryLen == e: holding means no more than e bytes
		neg = val
	}
	if neg {
		a.negative(x, st, in)
		return
	}
	if c.aux == "ige" && (k == 1 || k == -1) {
		// queryLen >= e
		l := c.args[0]
		var e *Term
		ql := a.get(st, "queryLen")
		if k == 1 {
			e = tSub(ql, l)
		} else {
			e = tAdd(tAdd(ql, l), tOne)
		}
		for i := 0; i < 8; i++ {
			key := fmt.Sprintf("need%d", i)
			if n := st.slots[key]; n == nil {
				st.slots[key] = mk("need", "", e)
				break
			} else if n.args[0] == e {
				break
			}
		}
	}
}

func (a *inputAn) atGoalBranch(x *Exec, st *State, in ssa.Instruction) bool {
	return a.atGoal(x, st, in)
}

func (a *inputAn) ret(x *Exec, st *State, res []*Term) {
	pos := st.top().fn.Pos()
	name := fnName(st.top().fn)
	closed := st.slot("closed") != ""
	if a.resume != nil {
		if !closed && st.slot("read") == "data" {
			a.viol(x, st, "C02.resume", pos, name, "data arrives, but the handler returns without coming back to the test at %s", a.resume.pos)
		}
		return
	}
	x.emit(st, "exit")
	if closed {
		return
	}
	if st.slot("read") == "eof" {
		a.ob("C25.eof", "end of stream")
		a.viol(x, st, "C25.eof", pos, name, "the peer has closed the connection, but it is not released")
		return
	}
	if st.slot("read") != "data" {
		return
	}
	a.ob("C02.conserve", "handler path end")
	want := tSub(st.ghost("recv"), st.ghost("adv"))
	if !st.provesEqInt(a.get(st, "queryLen"), want) {
		a.viol(x, st, "C02.conserve", pos, name, "of %v received bytes %v have been consumed, but the client counts %v as left", st.ghost("recv"), st.ghost("adv"), a.get(st, "queryLen"))
	}
	if !st.provesGE(a.get(st, "queryLen"), tZero) {
		a.viol(x, st, "C02.conserve", pos, name, "more bytes than received may be consumed")
	}
	a.ob("C02.progress", "handler path end")
	if st.slots["neg"] == nil {
		a.viol(x, st, "C02.progress", pos, name, "the handler returns without having found that data is missing: a complete request may be left unexecuted until more data arrives")
	}
}

func exploreInput(p *Prog, r *Report, prop string) {
	a, why := newInputAn(p, r, prop)
	if why != "" {
		r.fail("undecided", "request parser", "-", "%s", why)
		return
	}
	a.dispatchFate()
	a.analyse()
}
