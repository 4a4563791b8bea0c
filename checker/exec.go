package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Call describes one call the interpreter is about to make.
type Call struct {
	name  string
	fn    *ssa.Function
	fnT   *Term
	args  []*Term // receiver first
	instr ssa.CallInstruction
	sig   *types.Signature
	isGo  bool
	isDef bool
}

type Outcome struct {
	st  *State
	res []*Term
}

// Hooks are the property-specific parts of an exploration. All are optional.
type Hooks struct {
	// Call may handle a call itself: it returns the outcomes and true. No outcomes means the call does not return.
	Call        func(x *Exec, st *State, c *Call) ([]Outcome, bool)
	AfterCall   func(x *Exec, st *State, c *Call, res []*Term)
	Store       func(x *Exec, st *State, addr, val *Term, in ssa.Instruction)
	MapUpdate   func(x *Exec, st *State, m, k, v *Term, in ssa.Instruction) // v == nil: delete
	Go          func(x *Exec, st *State, c *Call)
	Send        func(x *Exec, st *State, ch, v *Term, in ssa.Instruction)
	Recv        func(x *Exec, st *State, ch *Term, in ssa.Instruction)
	Received    func(x *Exec, st *State, ch, v *Term, in ssa.Instruction)
	Return      func(x *Exec, st *State, res []*Term)
	Panic       func(x *Exec, st *State, what string, in ssa.Instruction)
	Oblig       func(x *Exec, st *State, kind string, ok bool, in ssa.Instruction, detail string)
	Inline      func(fn *ssa.Function) bool
	Branch      func(x *Exec, st *State, cond *Term, val bool, in ssa.Instruction)
	Append      func(x *Exec, st *State, base, added, result *Term, in ssa.Instruction)
	Load        func(x *Exec, st *State, addr *Term, typ types.Type) *Term
	Decide      func(x *Exec, st *State, addr *Term) []*State // splits a state before a load; nil if there is nothing to decide
	Canon       func(x *Exec, st *State)                      // normalises a state before it is merged at a loop head
	LoopHead    func(x *Exec, st *State, l *loopInfo)
	Measure     func(t *Term) []*Term // integers that belong to an object, related to others at loop heads
	CopyTo      func(x *Exec, st *State, dst, src *Term, in ssa.Instruction)
	Format      func(x *Exec, st *State, c *Call)
	SB          func(x *Exec, st *State, sb, added *Term, c *Call)
	ListPush    func(x *Exec, st *State, l, v *Term, c *Call)
	ListRemove  func(x *Exec, st *State, l, e *Term, c *Call)
	Atomic      func(x *Exec, st *State, op string, c *Call) []Outcome
	HigherOrder func(x *Exec, st *State, c *Call)
	ReadInto    func(x *Exec, st *State, buf *Term, c *Call)
	Alias       func(x *Exec, st *State, buf *Term, c *Call)
	Chunk       func(x *Exec, st *State, chunks *Term, c *Call)
	TypeIs      func(x *Exec, st *State, v *Term, ty string) bool
	Slice       func(x *Exec, st *State, base, lo, hi *Term, in *ssa.Slice) // a part of a slice is taken, bounds absolute in the backing array
	Content     func(x *Exec, st *State, s *Term, in ssa.Instruction)       // the bytes of a slice are read as a whole
}

type Exec struct {
	p            *Prog
	h            *Hooks
	rep          *Report
	entry        string
	steps        int
	maxSteps     int
	lost         bool
	undecided    map[string]bool
	ctxIDs       map[string]int
	inlined      map[*ssa.Function]bool
	mute         int
	pending      []*Violation
	sites        map[string]bool
	nPaths       int
	joinHeads    bool // arrivals at a loop are joined and solved together
	noLoopUnroll bool
	watchIf      *ifWatch
	emitted      []*Violation // states handed to the check by emit
}

func newExec(p *Prog, rep *Report, h *Hooks) *Exec {
	return &Exec{p: p, h: h, rep: rep, maxSteps: 3000000, undecided: map[string]bool{}, ctxIDs: map[string]int{},
		inlined: map[*ssa.Function]bool{}, sites: map[string]bool{}}
}

// lose is giveUp where nothing the exploration says can be relied on: what it reports is dropped.
func (x *Exec) lose(format string, a ...any) {
	x.giveUp(format, a...)
	x.lost = true
}

func (x *Exec) giveUp(format string, a ...any) {
	x.undecided[fmt.Sprintf(format, a...)] = true
}

// unsure is giveUp for what may belong to an intermediate approximation of a loop only.
func (x *Exec) unsure(format string, a ...any) {
	if x.mute == 0 {
		x.pending = append(x.pending, &Violation{Rule: "undecided", Construct: x.entry, Msg: fmt.Sprintf(format, a...), Entry: x.entry})
	}
}

// violate records a violation found on a path; it is discarded if the path turns out to belong to an
// intermediate loop approximation.
func (x *Exec) violate(st *State, rule, construct string, pos token.Pos, format string, a ...any) {
	if x.mute > 0 {
		return
	}
	v := &Violation{Rule: rule, Construct: construct, Pos: x.p.pos(pos), Msg: fmt.Sprintf(format, a...), Entry: x.entry}
	if st != nil {
		v.Path = st.traceList(40)
	}
	x.pending = append(x.pending, v)
}

// emit keeps a state for the check; like a violation it is dropped if it belongs to an intermediate approximation.
func (x *Exec) emit(st *State, tag string) {
	x.pending = append(x.pending, &Violation{Rule: "@" + tag, state: st.clone(), Entry: x.entry})
}

func (x *Exec) ctx(parent int, in ssa.Instruction) int {
	k := fmt.Sprintf("%d/%p", parent, in)
	if id, ok := x.ctxIDs[k]; ok {
		return id
	}
	id := len(x.ctxIDs) + 1
	x.ctxIDs[k] = id
	return id
}

// siteName identifies an instruction in its calling context.
func (x *Exec) siteName(st *State, hint string) string {
	f := st.top()
	var in ssa.Instruction
	if f.idx < len(f.blk.Instrs) {
		in = f.blk.Instrs[f.idx]
	}
	return fmt.Sprintf("%s@%d", hint, x.ctx(f.ctx, in))
}

func (x *Exec) fresh(st *State, hint string, typ types.Type) *Term {
	return x.freshTerm(st, sym(x.siteName(st, hint), typ))
}

func (x *Exec) freshTerm(st *State, t *Term) *Term {
	if st.gen[t] {
		// an older instance from a previous iteration may still be referenced: rename it
		var old *Term
		for i := 1; ; i++ {
			old = mkFull(t.op, fmt.Sprintf("%s~%d", t.aux, i), t.typ, t.obj, nil, t.args...)
			if !st.gen[old] || i > 30 {
				break
			}
		}
		st.gen[old] = true
		st.subst(map[*Term]*Term{t: old})
	}
	st.gen[t] = true
	return t
}

// ---------------------------------------------------------------- driver

// Run explores fn from the prepared state with the given argument terms.
func (x *Exec) Run(fn *ssa.Function, st *State, args []*Term, free []*Term) {
	x.entry = fnName(fn)
	f := &Frame{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = free[i]
	}
	st.frames = append(st.frames, f)
	st.jumped = true
	x.inlined[fn] = true
	x.run([]*State{st}, nil, false)
	var vs []*Violation
	for _, v := range x.pending {
		if strings.HasPrefix(v.Rule, "@") {
			x.emitted = append(x.emitted, v)
		} else {
			vs = append(vs, v)
		}
	}
	if x.lost {
		vs = nil
	}
	x.rep.addAll(vs)
	x.pending = nil
	for u := range x.undecided {
		x.rep.add(&Violation{Rule: "undecided", Construct: x.entry, Msg: u, Entry: x.entry})
	}
}

type loopAct struct {
	loop  *loopInfo
	depth int // number of frames below the frame that runs the loop
}

func (x *Exec) run(start []*State, act *loopAct, first bool) (exits, backs []*State) {
	type item struct {
		st    *State
		first bool
	}
	var work []item
	for _, s := range start {
		work = append(work, item{s, first})
	}
	seen := map[string]bool{}
	waiting := map[*loopInfo][]*State{} // arrivals at loop heads that are solved together
	for len(work) > 0 || len(waiting) > 0 {
		if len(work) == 0 {
			l := x.firstHead(waiting)
			sts := x.earliest(waiting[l])
			rest := waiting[l][:0:0]
			for _, s := range waiting[l] {
				in := false
				for _, t := range sts {
					in = in || s == t
				}
				if !in {
					rest = append(rest, s)
				}
			}
			if waiting[l] = rest; len(rest) == 0 {
				delete(waiting, l)
			}
			for _, e := range x.solveLoops(dedupe(x.p, sts), l) {
				work = append(work, item{e, false})
			}
			continue
		}
		it := work[len(work)-1]
		work = work[:len(work)-1]
		st := it.st
		if x.watchIf != nil && x.watchIf.undecided {
			return // the loop cannot be unrolled: its fixpoint is computed instead
		}
		if x.steps&63 == 0 && time.Now().After(deadline) {
			panic("time limit reached in " + x.entry)
		}
		if x.steps > x.maxSteps {
			x.giveUp("step limit reached in %s", x.entry)
			return
		}
		if !it.first {
			if act != nil {
				d := len(st.frames)
				if d <= act.depth {
					exits = append(exits, st)
					continue
				}
				if d == act.depth+1 && st.jumped {
					b := st.top().blk
					if b == act.loop.head {
						backs = append(backs, st)
						continue
					}
					if !act.loop.blocks[b] {
						exits = append(exits, st)
						continue
					}
				}
			}
			if st.jumped {
				fr := st.top()
				if l := x.p.loopsOf(fr.fn).heads[fr.blk]; l != nil {
					if x.joinHeads {
						waiting[l] = append(waiting[l], st)
						continue
					}
					for _, e := range x.solveLoop(st, l) {
						work = append(work, item{e, false})
					}
					continue
				}
				if len(fr.blk.Preds) >= 2 {
					k := st.key(x.p)
					if seen[k] {
						continue
					}
					seen[k] = true
				}
			}
		}
		for _, s := range x.advance(st) {
			if s.dead {
				continue
			}
			work = append(work, item{s, false})
		}
	}
	return dedupe(x.p, exits), dedupe(x.p, backs)
}

// order of the control positions: outer frames first, blocks in reverse post-order.
func (x *Exec) before(a, b *State) bool {
	for i := range a.frames {
		if i >= len(b.frames) {
			return true // the deeper state is inside a call
		}
		f, g := a.frames[i], b.frames[i]
		if f.fn != g.fn {
			return fnName(f.fn) < fnName(g.fn)
		}
		if f.blk != g.blk {
			o := x.p.rpo(f.fn)
			return o[f.blk] < o[g.blk]
		}
		if f.idx != g.idx {
			return f.idx < g.idx
		}
	}
	return false
}

func (x *Exec) firstHead(w map[*loopInfo][]*State) *loopInfo {
	var best *loopInfo
	var bs *State
	for l, ss := range w {
		for _, s := range ss {
			if bs == nil || x.before(s, bs) {
				best, bs = l, s
			}
		}
	}
	return best
}

// earliest returns the states at the first position among those given.
func (x *Exec) earliest(ss []*State) (out []*State) {
	for _, s := range ss {
		switch {
		case len(out) == 0 || x.before(s, out[0]):
			out = []*State{s}
		case !x.before(out[0], s):
			out = append(out, s)
		}
	}
	return
}

// rpo numbers the blocks of a function in reverse post-order.
func (p *Prog) rpo(f *ssa.Function) map[*ssa.BasicBlock]int {
	if p.rpoOf == nil {
		p.rpoOf = map[*ssa.Function]map[*ssa.BasicBlock]int{}
	}
	if o := p.rpoOf[f]; o != nil {
		return o
	}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	o := map[*ssa.BasicBlock]int{}
	for i, b := range post {
		o[b] = len(post) - i
	}
	p.rpoOf[f] = o
	return o
}

func dedupe(p *Prog, in []*State) []*State {
	if len(in) < 2 {
		return in
	}
	seen := map[string]bool{}
	var out []*State
	for _, s := range in {
		k := s.key(p)
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

// advance executes instructions until a jump, a return from a frame or the end of the path.
func (x *Exec) advance(st *State) []*State {
	st.jumped = false
	depth := len(st.frames)
	for {
		x.steps++
		f := st.top()
		if f.idx >= len(f.blk.Instrs) {
			x.giveUp("fell off block in %s", fnName(f.fn))
			return nil
		}
		in := f.blk.Instrs[f.idx]
		succ, cont := x.step(st, f, in)
		if !cont {
			return succ
		}
		if len(st.frames) != depth {
			if len(st.frames) < depth {
				return []*State{st}
			}
			return []*State{st}
		}
	}
}

func (x *Exec) jump(st *State, to *ssa.BasicBlock) {
	f := st.top()
	from := f.blk
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	type upd struct {
		v ssa.Value
		t *Term
	}
	var ups []upd
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ups = append(ups, upd{ph, x.val(st, ph.Edges[pi])})
		n++
	}
	for _, u := range ups {
		f.env[u.v] = u.t
	}
	f.blk, f.idx = to, n
	// drop dead values
	live := x.p.liveIn(f.fn)[to]
	for v := range f.env {
		if !live[v] {
			switch v.(type) {
			case *ssa.Parameter, *ssa.FreeVar:
			default:
				delete(f.env, v)
			}
		}
	}
	st.jumped = true
}

// step executes one instruction. cont is false when advance must stop and return succ.
func (x *Exec) step(st *State, f *Frame, in ssa.Instruction) (succ []*State, cont bool) {
	set := func(v ssa.Value, t *Term) {
		if t.typ == nil && (t.op == "sym") {
			t.typ = v.Type()
		}
		f.env[v] = t
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		x.giveUp("phi in block body")
	case *ssa.Alloc:
		t := x.freshTerm(st, mkFull("alloc", x.siteName(st, allocHint(in)), in.Type(), nil, nil))
		if st.gen[t] { // forget cells of a previous incarnation that could not be renamed
			for c := range st.mem {
				if rootOf(c) == t {
					delete(st.mem, c)
				}
			}
		}
		set(in, t)
	case *ssa.UnOp:
		return x.unop(st, f, in)
	case *ssa.BinOp:
		set(in, x.binop(st, in.Op, x.val(st, in.X), x.val(st, in.Y), in.X.Type(), in))
	case *ssa.FieldAddr:
		base := x.val(st, in.X)
		x.needNonNil(st, base, in, "field address")
		set(in, x.fieldAddr(base, in.X.Type(), in.Field))
	case *ssa.Field:
		set(in, x.fieldOf(x.val(st, in.X), in.X.Type(), in.Field))
	case *ssa.IndexAddr:
		base, idx := x.val(st, in.X), x.val(st, in.Index)
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if arr, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			n := arr.Elem().Underlying().(*types.Array).Len()
			x.needNonNil(st, base, in, "array pointer")
			x.needIndex(st, idx, mkInt(n), in, "array index")
			set(in, mkFull("elem", "", et, nil, nil, base, idx))
		} else {
			ab, off, ln := x.sliceParts(base)
			x.needIndex(st, idx, ln, in, "slice index")
			set(in, mkFull("elem", "", et, nil, nil, ab, tAdd(off, idx)))
		}
	case *ssa.Index:
		base, idx := x.val(st, in.X), x.val(st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.needIndex(st, idx, mkInt(u.Len()), in, "array index")
		default:
			x.needIndex(st, idx, lenOf(base), in, "string index")
		}
		set(in, mkFull("app", "index", in.Type(), nil, nil, base, idx))
	case *ssa.Slice:
		set(in, x.slice(st, in))
	case *ssa.MakeInterface:
		v := x.val(st, in.X)
		set(in, mkFull("iface", shortType(in.X.Type()), in.Type(), in.X.Type(), nil, v))
	case *ssa.ChangeInterface:
		set(in, x.val(st, in.X))
	case *ssa.ChangeType:
		set(in, x.val(st, in.X))
	case *ssa.Convert:
		set(in, x.convert(st, x.val(st, in.X), in.X.Type(), in.Type(), in))
	case *ssa.MultiConvert:
		set(in, x.fresh(st, "conv", in.Type()))
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range in.Bindings {
			b = append(b, x.val(st, v))
		}
		set(in, mkFull("closure", fmt.Sprintf("%s#%p", fnName(in.Fn.(*ssa.Function)), in.Fn), nil, in.Fn.(*ssa.Function), nil, b...))
	case *ssa.MakeSlice:
		n := x.val(st, in.Len)
		c := x.val(st, in.Cap)
		x.oblig(st, "makelen", st.provesGE(n, tZero) && st.provesGE(c, n), in, fmt.Sprintf("make length %v cap %v", n, c))
		x.obligBounded(st, c, in)
		if !st.assumeGE(n, tZero) {
			return nil, false
		}
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "make"), nil, nil, nil))
		set(in, mkFull("slice", "", in.Type(), nil, nil, b, tZero, n, c))
	case *ssa.MakeMap:
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "makemap"), in.Type(), nil, nil))
		set(in, b)
	case *ssa.MakeChan:
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "makechan"), in.Type(), nil, nil))
		st.mem[mk("fld", "chan.cap", b)] = x.val(st, in.Size)
		set(in, b)
	case *ssa.Extract:
		t := x.val(st, in.Tuple)
		if t.op == "tuple" {
			set(in, t.args[in.Index])
		} else {
			set(in, mkFull("app", fmt.Sprintf("res%d", in.Index), in.Type(), nil, nil, t))
		}
	case *ssa.Lookup:
		return x.lookup(st, f, in)
	case *ssa.Range:
		set(in, mk("range", x.siteName(st, "range"), x.val(st, in.X)))
	case *ssa.Next:
		it := x.val(st, in.Iter)
		tt := in.Type().(*types.Tuple)
		s2 := st.clone()
		set(in, mk("tuple", "", tFalse, zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())))
		st.assume(mk("app", "more", it), false)
		f.idx++
		f2 := s2.top()
		k := x.fresh(s2, "rangekey", tt.At(1).Type())
		var v *Term
		if in.IsString {
			v = x.fresh(s2, "rangeval", tt.At(2).Type())
		} else {
			v = x.fresh(s2, "rangeval", tt.At(2).Type())
			s2.setFact("mapelem", true, it.args[0], k, v)
		}
		f2.env[in] = mk("tuple", "", tTrue, k, v)
		f2.idx++
		return []*State{st, s2}, false
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, in)
	case *ssa.Store:
		addr, v := x.val(st, in.Addr), x.val(st, in.Val)
		x.needNonNil(st, addr, in, "store")
		x.storeVal(st, addr, v, in.Val.Type(), in)
	case *ssa.MapUpdate:
		m, k, v := x.val(st, in.Map), x.val(st, in.Key), x.val(st, in.Value)
		if st.evalNil(m) < 0 && x.p.neverNilTerm(m) {
			nonNil(st, m)
		}
		x.oblig(st, "nilmap", st.evalNil(m) == 0, in, "write to map "+m.String())
		if !st.assume(mkCmp("eq", m, tNil), false) {
			return nil, false
		}
		if x.h.MapUpdate != nil {
			x.h.MapUpdate(x, st, m, k, v, in)
		}
		x.mapStore(st, m, k, v, tTrue)
	case *ssa.Call:
		return x.call(st, f, in)
	case *ssa.Defer:
		c := x.prepCall(st, in)
		d := deferred{call: in, fn: c.fnT, cal: c.fn, bi: c.name, args: c.args}
		f.defers = append(f.defers, d)
	case *ssa.Go:
		c := x.prepCall(st, in)
		c.isGo = true
		if x.h.Go != nil {
			x.h.Go(x, st, c)
		}
	case *ssa.Send:
		ch, v := x.val(st, in.Chan), x.val(st, in.X)
		if x.h.Send != nil {
			x.h.Send(x, st, ch, v, in)
		}
		n := mk("fld", "chan.len", ch)
		delete(st.mem, n)
		st.mem[mk("gen", "", ch)] = mk("site", x.siteName(st, "send"))
	case *ssa.Select:
		return x.selectStmt(st, f, in)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			c := &Call{name: d.bi, fn: d.cal, fnT: d.fn, args: d.args, instr: d.call, sig: d.call.Call.Signature(), isDef: true}
			return x.doCall(st, f, c)
		}
	case *ssa.Jump:
		x.jump(st, f.blk.Succs[0])
		return []*State{st}, false
	case *ssa.If:
		return x.branch(st, f, in)
	case *ssa.Return:
		var res []*Term
		for _, r := range in.Results {
			res = append(res, x.val(st, r))
		}
		return x.ret(st, f, res, in)
	case *ssa.Panic:
		if x.h.Panic != nil {
			x.h.Panic(x, st, "panic", in)
		}
		x.nPaths++
		return nil, false
	default:
		x.giveUp("unsupported instruction %T in %s", in, fnName(f.fn))
		if v, ok := in.(ssa.Value); ok {
			set(v, x.fresh(st, "unk", v.Type()))
		}
	}
	f.idx++
	return nil, true
}

func allocHint(a *ssa.Alloc) string {
	if a.Comment != "" {
		return a.Comment
	}
	return "alloc"
}

func (x *Exec) ret(st *State, f *Frame, res []*Term, in ssa.Instruction) ([]*State, bool) {
	if len(st.frames) == 1 {
		x.nPaths++
		if x.h.Return != nil {
			x.h.Return(x, st, res)
		}
		return nil, false
	}
	st.frames = st.frames[:len(st.frames)-1]
	p := st.top()
	if f.isDef {
		return []*State{st}, false
	}
	var rt *Term
	switch len(res) {
	case 0:
		rt = tUnit
	case 1:
		rt = res[0]
	default:
		rt = mk("tuple", "", res...)
	}
	if v, ok := f.site.(ssa.Value); ok {
		p.env[v] = rt
	}
	if x.h.AfterCall != nil {
		if ci, ok := f.site.(ssa.CallInstruction); ok {
			x.h.AfterCall(x, st, &Call{name: fnName(f.fn), fn: f.fn, instr: ci}, res)
		}
	}
	p.idx++
	st.jumped = false
	return []*State{st}, false
}

func (x *Exec) branch(st *State, f *Frame, in *ssa.If) ([]*State, bool) {
	c := x.val(st, in.Cond)
	t, e := f.blk.Succs[0], f.blk.Succs[1]
	switch st.eval(c) {
	case 1:
		if x.h.Branch != nil {
			x.h.Branch(x, st, c, true, in)
		}
		x.jump(st, t)
		return []*State{st}, false
	case 0:
		if x.h.Branch != nil {
			x.h.Branch(x, st, c, false, in)
		}
		x.jump(st, e)
		return []*State{st}, false
	}
	if w := x.watchIf; w != nil && w.in == in && w.depth == len(st.frames) {
		w.undecided = true
	}
	s2 := st.clone()
	var out []*State
	if st.assume(c, true) {
		st.note("%s: %v", x.p.pos(condPos(in)), c)
		if x.h.Branch != nil {
			x.h.Branch(x, st, c, true, in)
		}
		if !st.dead {
			x.jump(st, t)
			out = append(out, st)
		}
	}
	if s2.assume(c, false) {
		s2.note("%s: not %v", x.p.pos(condPos(in)), c)
		if x.h.Branch != nil {
			x.h.Branch(x, s2, c, false, in)
		}
		if !s2.dead {
			x.jump(s2, e)
			out = append(out, s2)
		}
	}
	return out, false
}

func condPos(in *ssa.If) token.Pos {
	if in.Cond.Pos().IsValid() {
		return in.Cond.Pos()
	}
	return in.Pos()
}

// ---------------------------------------------------------------- values

func (x *Exec) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return mkFull("global", globalName(v), v.Type(), v, nil)
	case *ssa.Function:
		return mkFull("func", fmt.Sprintf("%s#%p", fnName(v), v), nil, v, nil)
	}
	f := st.top()
	if t, ok := f.env[v]; ok {
		return t
	}
	x.giveUp("value %s of %s not available", v.Name(), fnName(f.fn))
	t := x.fresh(st, "missing", v.Type())
	f.env[v] = t
	return t
}

func globalName(g *ssa.Global) string {
	return strings.ReplaceAll(g.RelString(nil), modPath+"/", "")
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mk("const", c.Value.ExactString())
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return mkInt(i)
		}
		return mk("const", c.Value.ExactString())
	}
	return mk("const", c.Value.ExactString())
}

func structOf(t types.Type) (*types.Struct, string) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s, shortType(t)
}

func (x *Exec) fieldAddr(base *Term, t types.Type, i int) *Term {
	s, name := structOf(t)
	return mkFull("fld", name+"."+s.Field(i).Name(), s.Field(i).Type(), nil, nil, base)
}

func (x *Exec) fieldOf(v *Term, t types.Type, i int) *Term {
	s, name := structOf(t)
	if v.op == "struct" {
		return v.args[i]
	}
	return mkFull("app", "field:"+name+"."+s.Field(i).Name(), s.Field(i).Type(), nil, nil, v)
}

// loadVal loads a value of any type.
func (x *Exec) loadVal(st *State, addr *Term, typ types.Type) *Term {
	if s, ok := typ.Underlying().(*types.Struct); ok && s.NumFields() > 0 {
		if v, ok := st.mem[addr]; ok && v.op != "struct" {
			return v
		}
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = x.loadVal(st, x.fieldAddr(addr, typ, i), s.Field(i).Type())
		}
		return mk("struct", shortType(typ), args...)
	}
	if addr.op == "global" {
		if g, ok := addr.obj.(*ssa.Global); ok && x.p.roGlob[g] {
			if _, isArr := typ.Underlying().(*types.Array); !isArr {
				return mkFull("gconst", globalName(g), typ, g, nil)
			}
		}
	}
	if x.h.Load != nil {
		if t := x.h.Load(x, st, addr, typ); t != nil {
			return t
		}
	}
	return st.load(addr, typ)
}

func (x *Exec) storeVal(st *State, addr, v *Term, typ types.Type, in ssa.Instruction) {
	if s, ok := typ.Underlying().(*types.Struct); ok && s.NumFields() > 0 {
		for i := 0; i < s.NumFields(); i++ {
			x.storeVal(st, x.fieldAddr(addr, typ, i), x.fieldOf(v, typ, i), s.Field(i).Type(), in)
		}
		return
	}
	if x.h.Store != nil {
		x.h.Store(x, st, addr, v, in)
	}
	st.store(addr, v, mk("site", x.siteName(st, "store")))
}

func (x *Exec) unop(st *State, f *Frame, in *ssa.UnOp) ([]*State, bool) {
	v := x.val(st, in.X)
	switch in.Op {
	case token.MUL:
		x.needNonNil(st, v, in, "load")
		if !st.assume(mkCmp("eq", v, tNil), false) {
			return nil, false
		}
		if x.h.Decide != nil {
			if ss := x.h.Decide(x, st, v); ss != nil {
				return ss, false
			}
		}
		f.env[in] = x.loadVal(st, v, in.Type())
	case token.NOT:
		f.env[in] = mkNot(v)
	case token.SUB:
		if isIntType(in.Type()) {
			f.env[in] = tMulC(v, -1)
		} else {
			f.env[in] = mkFull("app", "neg", in.Type(), nil, nil, v)
		}
	case token.XOR:
		if iv, ok := v.intVal(); ok {
			f.env[in] = mkInt(truncInt(^iv, in.Type()))
		} else {
			f.env[in] = mkFull("app", "compl", in.Type(), nil, nil, v)
		}
	case token.ARROW:
		if x.h.Recv != nil {
			x.h.Recv(x, st, v, in)
		}
		r := x.fresh(st, "recv", nil)
		if x.h.Received != nil {
			x.h.Received(x, st, v, r, in)
		}
		if in.CommaOk {
			ok := x.fresh(st, "recvok", nil)
			f.env[in] = mk("tuple", "", r, ok)
		} else {
			r.typ = in.Type()
			f.env[in] = r
		}
		st.mem[mk("gen", "", v)] = mk("site", x.siteName(st, "recv"))
		delete(st.mem, mk("fld", "chan.len", v))
	default:
		f.env[in] = x.fresh(st, "unop", in.Type())
	}
	f.idx++
	return nil, true
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func truncInt(v int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32:
		return int64(int32(v))
	}
	return v
}

// isWild reports whether an atom may take any value of its integer type (it was parsed from input).
func isWild(t *Term) bool {
	w := false
	t.walk(func(u *Term) {
		if u.op == "app" && (strings.HasPrefix(u.aux, "strconv.Atoi") || strings.HasPrefix(u.aux, "strconv.Parse")) {
			w = true
		}
		if u.op == "app" && (u.aux == "unbox:int64" || u.aux == "div" || u.aux == "mul") {
			w = true
		}
	})
	return w
}

func linWild(l *Lin) bool {
	for _, a := range l.at {
		if a.t.op == "app" && (a.t.aux == "len" || a.t.aux == "count" || a.t.aux == "rem" || a.t.aux == "half") {
			continue
		}
		if a.t.op == "app" && a.t.aux == "div" && len(a.t.args) == 2 {
			if d, ok := a.t.args[1].intVal(); ok && d > 0 && (a.t.args[0].lin == nil && !isWild(a.t.args[0]) || a.t.args[0].lin != nil && !linWild(a.t.args[0].lin)) {
				continue // part of a quantity that is itself harmless
			}
		}
		if isWild(a.t) {
			return true
		}
	}
	return false
}

var (
	minI64 = big.NewInt(-1 << 63)
	maxI64 = new(big.Int).SetInt64(1<<63 - 1)
)

func fullRange(t *Term) (lo, hi *big.Int) {
	l, h, hl, hh := atomRange(t)
	lo, hi = minI64, maxI64
	if hl {
		lo = big.NewInt(l)
	}
	if hh {
		hi = big.NewInt(h)
	}
	return
}

// checkedInt returns the linear result if it provably does not wrap, or an opaque term.
func (x *Exec) checkedInt(st *State, res *Term, op string, a, b *Term, typ types.Type, in ssa.Instruction) *Term {
	if res.lin == nil || len(res.lin.at) == 0 {
		if isUnsigned(typ) {
			if v, ok := res.intVal(); ok && v < 0 {
				return mkFull("app", "uwrap"+op, typ, nil, nil, a, b)
			}
		}
		return res
	}
	if isUnsigned(typ) {
		if op == "sub" && !st.provesGE(res, tZero) {
			return mkFull("app", "uwrap"+op, typ, nil, nil, a, b)
		}
		return res
	}
	if linWild(res.lin) {
		lo, hi := st.lin.rangeOf(res.lin, fullRange)
		ok := lo.Cmp(minI64) >= 0 && hi.Cmp(maxI64) <= 0
		x.oblig(st, "overflow", ok, in, fmt.Sprintf("%v in [%v,%v]", res, lo, hi))
		if !ok {
			return mkFull("app", "wrap"+op, typ, nil, nil, a, b)
		}
	}
	return res
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term, typ types.Type, in ssa.Instruction) *Term {
	if isIntType(typ) {
		av, aok := a.intVal()
		bv, bok := b.intVal()
		switch op {
		case token.ADD:
			return x.checkedInt(st, tAdd(a, b), "add", a, b, typ, in)
		case token.SUB:
			return x.checkedInt(st, tSub(a, b), "sub", a, b, typ, in)
		case token.MUL:
			if bok {
				return x.checkedInt(st, tMulC(a, bv), "mul", a, b, typ, in)
			}
			if aok {
				return x.checkedInt(st, tMulC(b, av), "mul", a, b, typ, in)
			}
			return mkFull("app", "mul", typ, nil, nil, a, b)
		case token.QUO, token.REM:
			x.oblig(st, "divzero", st.eval(mkCmp("ieq", b, tZero)) == 0, in, "divisor "+b.String())
			if aok && bok && bv != 0 {
				if op == token.QUO {
					return mkInt(av / bv)
				}
				return mkInt(av % bv)
			}
			n := "div"
			if op == token.REM {
				n = "rem"
			}
			if p, ok := st.parity(a); ok && bok && bv == 2 && op == token.REM && st.provesGE(a, tZero) {
				return mkInt(p)
			}
			t := mkFull("app", n, typ, nil, nil, a, b)
			if bok && bv > 0 && op == token.QUO && st.provesGE(a, tZero) {
				st.assumeGE(a, tMulC(t, bv))
				st.assumeGE(tAdd(tMulC(t, bv), mkInt(bv-1)), a)
			}
			if bok && bv > 0 && op == token.REM && st.provesGE(a, tZero) {
				st.assumeGE(t, tZero)
			}
			if !bok && op == token.REM && st.provesGE(a, tZero) && st.provesGE(b, tOne) {
				st.assumeGE(t, tZero)
				st.assumeGE(tSub(b, tOne), t)
			}
			return t
		case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
			if aok && bok {
				var r int64
				switch op {
				case token.AND:
					r = av & bv
				case token.OR:
					r = av | bv
				case token.XOR:
					r = av ^ bv
				case token.AND_NOT:
					r = av &^ bv
				case token.SHL:
					r = av << uint(bv)
				case token.SHR:
					r = av >> uint(bv)
				}
				return mkInt(truncInt(r, typ))
			}
			if p, ok := st.parity(a); ok && op == token.AND && bok && bv == 1 {
				return mkInt(p)
			}
			if p, ok := st.parity(b); ok && op == token.AND && aok && av == 1 {
				return mkInt(p)
			}
			name := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot", token.SHL: "shl", token.SHR: "shr"}[op]
			if op == token.OR && aok && av == 0 {
				return b
			}
			if op == token.OR && bok && bv == 0 {
				return a
			}
			if (op == token.AND || op == token.OR) && a.id > b.id {
				a, b = b, a
			}
			t := mkFull("app", name, typ, nil, nil, a, b)
			switch {
			case op == token.OR && st.provesGE(a, tZero) && st.provesGE(b, tZero):
				st.assumeGE(t, a)
				st.assumeGE(t, b)
			case op == token.SHR && st.provesGE(a, tZero):
				st.assumeGE(t, tZero)
			}
			return t
		case token.EQL:
			return mkCmp("ieq", a, b)
		case token.NEQ:
			return mkNot(mkCmp("ieq", a, b))
		case token.LSS:
			return mkCmp("ige", b, tAdd(a, tOne))
		case token.LEQ:
			return mkCmp("ige", b, a)
		case token.GTR:
			return mkCmp("ige", a, tAdd(b, tOne))
		case token.GEQ:
			return mkCmp("ige", a, b)
		}
	}
	if isFloatType(typ) {
		if a == b && (op == token.EQL || op == token.NEQ) {
			nan := mkFull("app", "math.IsNaN", boolType, nil, nil, a)
			if op == token.EQL {
				return mkNot(nan)
			}
			return nan
		}
		switch op {
		case token.EQL:
			return mkFeq(a, b)
		case token.NEQ:
			return mkNot(mkFeq(a, b))
		case token.LSS:
			return mk("cmp", "flt", a, b)
		case token.GTR:
			return mk("cmp", "flt", b, a)
		case token.LEQ:
			return mk("cmp", "fle", a, b)
		case token.GEQ:
			return mk("cmp", "fle", b, a)
		}
		return mkFull("app", "f"+op.String(), typ, nil, nil, a, b)
	}
	if isStringType(typ) {
		switch op {
		case token.ADD:
			return mkConcat(a, b)
		case token.EQL, token.NEQ:
			r := x.strEq(st, a, b)
			if op == token.NEQ {
				return mkNot(r)
			}
			return r
		case token.LSS:
			return mk("cmp", "slt", a, b)
		case token.GTR:
			return mk("cmp", "slt", b, a)
		case token.LEQ:
			return mkNot(mk("cmp", "slt", b, a))
		case token.GEQ:
			return mkNot(mk("cmp", "slt", a, b))
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		switch {
		case a == tTrue:
			r = b
		case b == tTrue:
			r = a
		case a == tFalse:
			r = mkNot(b)
		case b == tFalse:
			r = mkNot(a)
		default:
			r = mkCmp("eq", a, b)
			if _, isIf := typ.Underlying().(*types.Interface); isIf && (a.op == "iface" || b.op == "iface") {
				r = ifaceEq(a, b)
			}
		}
		if op == token.NEQ {
			return mkNot(r)
		}
		return r
	}
	return mkFull("app", "bin"+op.String(), nil, nil, nil, a, b)
}

func ifaceEq(a, b *Term) *Term {
	if a.op == "iface" && b.op == "iface" {
		if a.aux != b.aux {
			return tFalse
		}
		if ty, ok := a.obj.(types.Type); ok && isIntType(ty) {
			return mkCmp("ieq", a.args[0], b.args[0])
		}
		return mkCmp("eq", a.args[0], b.args[0])
	}
	return mkCmp("eq", a, b)
}

// strEq compares strings; comparison with "" is a length fact.
func (x *Exec) strEq(st *State, a, b *Term) *Term {
	if s, ok := b.strVal(); ok && s == "" {
		return mkCmp("ieq", lenOf(a), tZero)
	}
	if s, ok := a.strVal(); ok && s == "" {
		return mkCmp("ieq", lenOf(b), tZero)
	}
	return mkCmp("eq", a, b)
}

func mkConcat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		var xs []*Term
		if p.op == "concat" {
			xs = p.args
		} else {
			xs = []*Term{p}
		}
		for _, q := range xs {
			if q.op == "str" && q.aux == "" {
				continue
			}
			if n := len(out); n > 0 && q.op == "str" && out[n-1].op == "str" {
				out[n-1] = mkStr(out[n-1].aux + q.aux)
				continue
			}
			out = append(out, q)
		}
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return mk("concat", "", out...)
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type, in ssa.Instruction) *Term {
	if isIntType(from) && isIntType(to) {
		if iv, ok := v.intVal(); ok {
			if !(iv < 0 && isUnsigned(to)) {
				if r := truncInt(iv, to); r == iv {
					return v
				}
				return mkInt(truncInt(iv, to))
			}
		}
		tlo, thi, hl, hh := typeRange(to)
		ok := true
		if hl && !st.provesGE(v, mkInt(tlo)) {
			flo, _, fhl, _ := typeRange(from)
			if !(fhl && flo >= tlo) {
				ok = false
			}
		}
		if hh && !st.provesGE(mkInt(thi), v) {
			_, fhi, _, fhh := typeRange(from)
			if !(fhh && fhi <= thi) {
				ok = false
			}
		}
		// an unsigned 64-bit value in a signed type may wrap; lengths and counts do not
		if ok {
			return v
		}
		return mkFull("app", "conv:"+shortType(to), to, nil, nil, v)
	}
	if (isStringType(to) && isRuneSlice(from)) || (isStringType(from) && isRuneSlice(to)) {
		return mkFull("app", "conv:"+shortType(to), to, nil, nil, v)
	}
	if isStringType(to) && !isIntType(from) {
		if v.op == "bytes" {
			return v.args[0]
		}
		if x.h.Content != nil {
			x.h.Content(x, st, v, in)
		}
		return mk("b2s", "", v)
	}
	if isStringType(from) {
		return mk("bytes", "", v)
	}
	if isIntType(from) || isFloatType(from) {
		return mkFull("app", "conv:"+shortType(to), to, nil, nil, v)
	}
	return v
}

// sliceParts gives backing array, offset and length of a slice term.
func (x *Exec) sliceParts(t *Term) (base, off, ln *Term) {
	switch t.op {
	case "slice":
		return t.args[0], t.args[1], t.args[2]
	case "nil":
		return mk("arr", "", t), tZero, tZero
	}
	return mk("arr", "", t), tZero, lenOf(t)
}

func (x *Exec) capOf(t *Term) *Term {
	if t.op == "slice" && len(t.args) > 3 {
		return t.args[3]
	}
	return nil
}

func (x *Exec) slice(st *State, in *ssa.Slice) *Term {
	v := x.val(st, in.X)
	var base, off, ln, cp *Term
	isStr := isStringType(in.X.Type())
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		n := p.Elem().Underlying().(*types.Array).Len()
		base, off, ln, cp = v, tZero, mkInt(n), mkInt(n)
	} else if isStr {
		ln = lenOf(v)
	} else {
		base, off, ln = x.sliceParts(v)
		cp = x.capOf(v)
	}
	lo, hi := tZero, ln
	if in.Low != nil {
		lo = x.val(st, in.Low)
	}
	if in.High != nil {
		hi = x.val(st, in.High)
	}
	okHi := in.High == nil || st.provesGE(ln, hi) || (cp != nil && st.provesGE(cp, hi))
	ok := st.provesGE(lo, tZero) && (st.provesGE(hi, lo) || st.foundLater(hi, lo)) && okHi
	x.oblig(st, "slicebounds", ok, in, fmt.Sprintf("[%v:%v] of length %v", lo, hi, ln))
	st.assumeGE(lo, tZero)
	st.assumeGE(hi, lo)
	if cp == nil && isStr {
		st.assumeGE(ln, hi)
	}
	if lo == tZero && in.High == nil && !isStr && v.op != "alloc" && v.op != "fld" && v.op != "global" {
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); !isPtr {
			return v
		}
	}
	if isStr {
		if lo == tZero && in.High == nil {
			return v
		}
		if s, ok := v.strVal(); ok {
			l, o1 := lo.intVal()
			h, o2 := hi.intVal()
			if o1 && o2 && l >= 0 && h >= l && h <= int64(len(s)) {
				return mkStr(s[l:h])
			}
		}
		t := mkFull("app", "substr", in.Type(), nil, nil, v, lo, hi)
		st.assume(mkCmp("ieq", lenOf(t), tSub(hi, lo)), true)
		return t
	}
	if x.h.Slice != nil {
		x.h.Slice(x, st, base, tAdd(off, lo), tAdd(off, hi), in)
	}
	args := []*Term{base, tAdd(off, lo), tSub(hi, lo)}
	if in.Max != nil {
		args = append(args, tSub(x.val(st, in.Max), lo))
	} else if cp != nil {
		args = append(args, tSub(cp, lo))
	}
	return mkFull("slice", "", in.Type(), nil, nil, args...)
}

func (x *Exec) lookup(st *State, f *Frame, in *ssa.Lookup) ([]*State, bool) {
	m, k := x.val(st, in.X), x.val(st, in.Index)
	if isStringType(in.X.Type()) {
		x.needIndex(st, k, lenOf(m), in, "string index")
		f.env[in] = mkFull("app", "index", in.Type(), nil, nil, m, k)
		f.idx++
		return nil, true
	}
	mt := in.X.Type().Underlying().(*types.Map)
	val := st.loadMap(mk("mapval", "", m, k), mt.Elem())
	okT := st.loadMap(mk("mapok", "", m, k), types.Typ[types.Bool])
	if m.op == "alloc" {
		if _, has := st.mem[mk("mapok", "", m, k)]; !has && st.mem[mk("gen", "map", m)] == nil {
			okT = tFalse
		}
	}
	finish := func(s *State, v *Term, ok *Term) {
		fr := s.top()
		if in.CommaOk {
			fr.env[in] = mk("tuple", "", v, ok)
		} else {
			fr.env[in] = v
		}
		fr.idx++
	}
	switch st.eval(okT) {
	case 1:
		finish(st, val, tTrue)
		return nil, true
	case 0:
		finish(st, zeroOf(mt.Elem()), tFalse)
		return nil, true
	}
	s2 := st.clone()
	var out []*State
	if st.assume(okT, true) {
		finish(st, val, tTrue)
		out = append(out, st)
	}
	if s2.assume(okT, false) {
		finish(s2, zeroOf(mt.Elem()), tFalse)
		out = append(out, s2)
	}
	return out, false
}

func (s *State) loadMap(cell *Term, typ types.Type) *Term {
	if v, ok := s.mem[cell]; ok {
		return v
	}
	g := s.mem[mk("gen", "map", cell.args[0])]
	if g != nil {
		return mkFull("init", "", typ, nil, nil, cell, g)
	}
	return mkFull("init", "", typ, nil, nil, cell)
}

func (x *Exec) mapStore(st *State, m, k, v, ok *Term) {
	for c := range st.mem {
		if (c.op == "mapval" || c.op == "mapok") && c.args[0] == m && c.args[1] != k && !keysDiffer(st, c.args[1], k) {
			delete(st.mem, c)
		}
	}
	// unknown keys that were looked up before keep their value only if provably different; model by a generation
	if !x.allKeysDiffer(st, m, k) {
		st.mem[mk("gen", "map", m)] = mk("site", x.siteName(st, "mapstore"))
	}
	st.mem[mk("mapok", "", m, k)] = ok
	if v != nil {
		st.mem[mk("mapval", "", m, k)] = v
	} else {
		delete(st.mem, mk("mapval", "", m, k))
	}
}

// allKeysDiffer: keys mentioned in facts about initial map content are provably different from k.
func (x *Exec) allKeysDiffer(st *State, m, k *Term) bool {
	for b := range st.bools {
		if b.op == "init" && b.args[0].op == "mapok" && b.args[0].args[0] == m {
			if kk := b.args[0].args[1]; kk != k && !keysDiffer(st, kk, k) {
				return false
			}
		}
	}
	return true
}

func keysDiffer(st *State, a, b *Term) bool {
	if st.evalEq(a, b) == 0 || distinctConst(a, b) {
		return true
	}
	if a.lin != nil || b.lin != nil || isIntLike(a) {
		if st.lin.knownNE(linOf(tSub(a, b))) {
			return true
		}
	}
	// or(shl(fd,n), c1) and or(shl(fd,n), c2) with small different constants
	sa, ca, oka := orShl(a)
	sb, cb, okb := orShl(b)
	return oka && okb && sa == sb && ca != cb
}

func isIntLike(t *Term) bool { return t.typ != nil && isIntType(t.typ) }

func orShl(t *Term) (*Term, int64, bool) {
	if t.op != "app" || t.aux != "or" {
		return nil, 0, false
	}
	for i := 0; i < 2; i++ {
		c, ok := t.args[i].intVal()
		s := t.args[1-i]
		if ok && s.op == "app" && s.aux == "shl" {
			if n, ok := s.args[1].intVal(); ok && c >= 0 && n < 62 && c < 1<<uint(n) {
				return s, c, true
			}
		}
	}
	return nil, 0, false
}

func (x *Exec) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) ([]*State, bool) {
	v := x.val(st, in.X)
	ty := in.AssertedType
	_, toIface := ty.Underlying().(*types.Interface)
	is := mk("app", "typeis", v, mkFull("type", shortType(ty), ty, nil, nil))
	var un *Term
	if toIface {
		un = v
		if v.op == "iface" {
			if st.evalNil(v) == 0 {
				is = mkNot(mkCmp("eq", v, tNil)) // assume implemented
			}
		}
	} else if v.op == "iface" && v.aux == shortType(ty) {
		un = v.args[0]
	} else {
		un = mkFull("app", "unbox:"+shortType(ty), ty, nil, nil, v)
	}
	if x.h.TypeIs != nil && st.eval(is) < 0 && !toIface && x.h.TypeIs(x, st, v, shortType(ty)) {
		st.assume(is, true)
	}
	if !in.CommaOk {
		x.oblig(st, "typeassert", st.eval(is) == 1, in, fmt.Sprintf("%v.(%s)", v, shortType(ty)))
		if !st.assume(is, true) {
			return nil, false
		}
		f.env[in] = un
		f.idx++
		return nil, true
	}
	finish := func(s *State, ok bool) {
		fr := s.top()
		if ok {
			fr.env[in] = mk("tuple", "", un, tTrue)
		} else {
			fr.env[in] = mk("tuple", "", zeroOf(ty), tFalse)
		}
		fr.idx++
	}
	switch st.eval(is) {
	case 1:
		finish(st, true)
		return nil, true
	case 0:
		finish(st, false)
		return nil, true
	}
	s2 := st.clone()
	var out []*State
	if st.assume(is, true) {
		st.note("%s: is %s", x.p.pos(in.Pos()), shortType(ty))
		finish(st, true)
		out = append(out, st)
	}
	if s2.assume(is, false) {
		s2.note("%s: is not %s", x.p.pos(in.Pos()), shortType(ty))
		finish(s2, false)
		out = append(out, s2)
	}
	return out, false
}

func (x *Exec) selectStmt(st *State, f *Frame, in *ssa.Select) ([]*State, bool) {
	var out []*State
	tt := in.Type().(*types.Tuple)
	n := len(in.States)
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	for i := lo; i < n; i++ {
		s := st.clone()
		fr := s.top()
		args := []*Term{mkInt(int64(i)), sym(x.siteName(s, "selok"), nil)}
		if i >= 0 {
			ch := x.val(s, in.States[i].Chan)
			if in.States[i].Dir == types.SendOnly {
				if x.h.Send != nil {
					x.h.Send(x, s, ch, x.val(s, in.States[i].Send), in)
				}
			} else if x.h.Recv != nil {
				x.h.Recv(x, s, ch, in)
			}
		}
		for j := 2; j < tt.Len(); j++ {
			r := x.fresh(s, fmt.Sprintf("selrecv%d", j), tt.At(j).Type())
			if i >= 0 && x.h.Received != nil && in.States[i].Dir == types.RecvOnly && recvIndex(in, i) == j {
				x.h.Received(x, s, x.val(s, in.States[i].Chan), r, in)
			}
			args = append(args, r)
		}
		fr.env[in] = mk("tuple", "", args...)
		fr.idx++
		out = append(out, s)
	}
	return out, false
}

// recvIndex: the position of the value received by case i in the result of a select.
func recvIndex(in *ssa.Select, i int) int {
	n := 2
	for j := 0; j < i; j++ {
		if in.States[j].Dir == types.RecvOnly {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- obligations

func (x *Exec) oblig(st *State, kind string, ok bool, in ssa.Instruction, detail string) {
	if x.h.Oblig != nil {
		x.h.Oblig(x, st, kind, ok, in, detail)
	}
}

func (x *Exec) needNonNil(st *State, t *Term, in ssa.Instruction, what string) {
	switch t.op {
	case "alloc", "fld", "elem", "global":
		return
	}
	if st.evalNil(t) < 0 && x.p.neverNilTerm(t) {
		nonNil(st, t)
	}
	x.oblig(st, "nilderef", st.evalNil(t) == 0, in, what+" of "+t.String())
	if st.evalNil(t) < 0 {
		st.assume(mkCmp("eq", t, tNil), false)
	}
}

func (x *Exec) needIndex(st *State, idx, ln *Term, in ssa.Instruction, what string) {
	x.oblig(st, "index", st.provesGE(idx, tZero) && st.provesGE(ln, tAdd(idx, tOne)), in, fmt.Sprintf("%s %v of length %v", what, idx, ln))
	st.assumeGE(idx, tZero)
	st.assumeGE(ln, tAdd(idx, tOne))
}

func (x *Exec) obligBounded(st *State, n *Term, in ssa.Instruction) {
	if x.h.Oblig == nil {
		return
	}
	if _, ok := n.intVal(); ok {
		return
	}
	l := linOf(n)
	_, hi := st.lin.rangeOf(l, fullRange)
	ok := hi.Cmp(big.NewInt(bigLen+(1<<20))) <= 0
	x.oblig(st, "alloc", ok, in, fmt.Sprintf("allocation of %v elements (at most %v)", n, hi))
}
