package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Registration: every function of the event loop that changes the poll registration or the timer list is explored for
// each direction, with an arbitrary table before the call.

type regAn struct {
	loopAn
	fd, mask, proc, data *Term
	iv, id               *Term
	dir                  int64
	adds                 bool
	nextID               *Term
	keys                 map[int64]*Term
}

func (p *Prog) eventLoopMethods(lib ...string) (out []*ssa.Function) {
	main := p.mainLoop()
	for _, f := range p.funcs {
		if f.Signature.Recv() != nil && f.Object() != nil && shortType(f.Signature.Recv().Type()) == "*ae.EventLoop" && f != main && p.reaches(f, lib...) {
			// helpers are entered from their callers
			if !f.Object().Exported() && len(p.callersOf(f)) > 0 {
				continue
			}
			out = append(out, f)
		}
	}
	return
}

func (p *Prog) callersOf(f *ssa.Function) (out []ssa.CallInstruction) {
	for _, g := range p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range p.callTargets(ci) {
						if t == f {
							out = append(out, ci)
						}
					}
				}
			}
		}
	}
	return
}

func exploreReg(p *Prog, r *Report, prop string) {
	fns := p.eventLoopMethods("syscall.EpollCtl")
	if prop == "C29" {
		fns = p.eventLoopMethods("(*container/list.List).PushFront", "(*container/list.List).PushBack", "(*container/list.List).Remove", "(*container/list.List).InsertBefore", "(*container/list.List).InsertAfter")
	}
	if len(fns) == 0 {
		r.fail("undecided", "registration", "-", "no function of the event loop registers anything")
	}
	analysed := map[*ssa.Function]bool{}
	for _, f := range fns {
		dirs := []int64{1, 2}
		if prop == "C29" {
			dirs = []int64{0}
		}
		for _, d := range dirs {
			a := &regAn{loopAn: loopAn{p: p, r: r, prop: prop}, dir: d, keys: map[int64]*Term{}}
			x := newExec(p, r, a.hooks2())
			x.entry = fmt.Sprintf("%s (%s)", fnName(f), map[int64]string{0: "any", 1: "readable", 2: "writable"}[d])
			st := newState()
			var args []*Term
			for i, prm := range f.Params {
				t := sym(prm.Name(), prm.Type())
				switch s := shortType(prm.Type()); {
				case i == 0:
					a.el = nonNil(st, t)
				case s == "socket.FD":
					a.fd = t
					st.assumeGE(t, tZero)
					st.assumeGE(mkInt(1<<31-1), t)
				case s == "ae.TypeFileEvent":
					t = mkInt(d)
					a.mask = t
				case s == "ae.TypeTimeEvent":
					a.mask = t
				case s == "ae.FileProc" || s == "ae.TimeProc":
					a.proc, a.adds = nonNil(st, t), true
				case s == "int64" && prop == "C29":
					a.iv, a.id = t, t
				case s == "any":
					a.data = t
				}
				args = append(args, t)
			}
			if prop == "C28" && a.fd == nil || prop == "C29" && a.iv == nil {
				r.fail("undecided", fnName(f), p.pos(f.Pos()), "the parameters of this registration function are not understood")
				continue
			}
			if prop == "C29" {
				a.nextID = st.load(fldOf("ae.EventLoop.timeEventNextID", types.Typ[types.Int64], a.el), types.Typ[types.Int64])
			}
			x.Run(f, st, args, nil)
			r.use(x)
			for g := range p.reach([]*ssa.Function{f}, nil) {
				analysed[g] = true
			}
		}
	}
	// who else changes the tables
	main := p.reach([]*ssa.Function{p.mainLoop()}, nil)
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a := &loopAn{p: p, r: r, prop: prop}
				if what := tableChange(p, in, prop); what != "" {
					rule := "C28.agree"
					if prop == "C29" {
						rule = "C29.remove"
					}
					r.oblig(rule, p.pos(in.Pos())+" is in an analysed function")
					if !analysed[f] && !(prop == "C29" && main[f]) {
						r.add(&Violation{Rule: rule, Construct: fnName(f), Pos: p.pos(in.Pos()), Msg: what + " outside the registration functions"})
					}
				}
				_ = a
			}
		}
	}
	if prop == "C28" {
		for _, f := range fns {
			for _, ci := range p.callersOf(f) {
				p.checkRegCall(r, f, ci)
			}
		}
	}
}

// tableChange: an instruction that changes the handler table or the kernel's registration, or the list of timers.
func tableChange(p *Prog, in ssa.Instruction, prop string) string {
	if prop == "C28" {
		if mu, ok := in.(*ssa.MapUpdate); ok {
			if m, ok := mu.Map.Type().Underlying().(*types.Map); ok && shortType(m.Elem()) == "*ae.FileEvent" {
				return "the handler table is changed"
			}
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
				if m, ok := ci.Common().Args[0].Type().Underlying().(*types.Map); ok && shortType(m.Elem()) == "*ae.FileEvent" {
					return "the handler table is changed"
				}
			}
			if f := ci.Common().StaticCallee(); f != nil && fnName(f) == "syscall.EpollCtl" {
				return "the poll registration is changed"
			}
		}
		return ""
	}
	if st, ok := in.(*ssa.Store); ok {
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			if n := fieldName(fa); n == "ae.TimeEvent.when" {
				if _, local := fa.X.(*ssa.Alloc); !local {
					return "the time of a timer is changed"
				}
			}
		}
	}
	return ""
}

func (p *Prog) checkRegCall(r *Report, f *ssa.Function, ci ssa.CallInstruction) {
	cc := ci.Common()
	off := 0
	if cc.IsInvoke() {
		off = -1
	}
	for i, prm := range f.Params {
		if i+off < 0 || i+off >= len(cc.Args) {
			continue
		}
		v := cc.Args[i+off]
		switch shortType(prm.Type()) {
		case "ae.TypeFileEvent":
			r.oblig("C28.mask", p.pos(ci.Pos()))
			bad, known := p.constVals(v, 0)
			if !known {
				r.fail("undecided", fnName(ci.Parent()), p.pos(ci.Pos()), "the direction registered here is not a constant")
			}
			for _, k := range bad {
				if k != 1 && k != 2 {
					r.add(&Violation{Rule: "C28.mask", Construct: fnName(ci.Parent()), Pos: p.pos(ci.Pos()), Msg: fmt.Sprintf("a handler is registered for %d, which is neither the readable nor the writable direction", k)})
				}
			}
		case "ae.FileProc":
			r.oblig("C28.mask", p.pos(ci.Pos())+" proc")
			if k, ok := v.(*ssa.Const); ok && k.IsNil() {
				r.add(&Violation{Rule: "C28.mask", Construct: fnName(ci.Parent()), Pos: p.pos(ci.Pos()), Msg: "a nil handler is registered"})
			}
		}
	}
}

// constVals: the constants a value may be, followed through phis and parameters.
func (p *Prog) constVals(v ssa.Value, depth int) (out []int64, ok bool) {
	if depth > 6 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Const:
		n, ok := constTermOf(v)
		return []int64{n}, ok
	case *ssa.Phi:
		for _, e := range v.Edges {
			o, ok := p.constVals(e, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, o...)
		}
		return out, true
	case *ssa.Convert:
		return p.constVals(v.X, depth+1)
	case *ssa.ChangeType:
		return p.constVals(v.X, depth+1)
	case *ssa.Parameter:
		f := v.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == v {
				idx = i
			}
		}
		for _, ci := range p.callersOf(f) {
			if ci.Common().IsInvoke() {
				return nil, false
			}
			o, ok := p.constVals(ci.Common().Args[idx], depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, o...)
		}
		return out, true
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil, false
		}
		// element of a local array or slice of constants
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			base := ia.X
			if s, ok := base.(*ssa.Slice); ok {
				base = s.X
			}
			if al, ok := base.(*ssa.Alloc); ok {
				for _, rf := range *al.Referrers() {
					if e, ok := rf.(*ssa.IndexAddr); ok {
						for _, s := range *e.Referrers() {
							if s, ok := s.(*ssa.Store); ok && s.Addr == e {
								o, ok := p.constVals(s.Val, depth+1)
								if !ok {
									return nil, false
								}
								out = append(out, o...)
							}
						}
					}
				}
				return out, len(out) > 0
			}
		}
	}
	return nil, false
}

func (a *regAn) hooks2() *Hooks {
	return &Hooks{Call: a.call, Load: a.load, Return: a.ret, Oblig: a.oblig, AfterCall: a.after, ListRemove: a.listRemove, ListPush: a.listPush, Store: a.store, MapUpdate: a.mapUpdate}
}

func (a *regAn) load(x *Exec, st *State, addr *Term, typ types.Type) *Term {
	if addr.op == "fld" && nonNilFields[addr.aux] || addr.op == "elem" && isEventPtr(typ) {
		return a.loopAn.load(x, st, addr, typ)
	}
	return nil
}

func (a *regAn) table(st *State) *Term { return a.field(st, a.el, "EventLoop", "fileEventMap") }

// tableKey finds the key under which the functions of the loop look for a direction of the descriptor.
func (a *regAn) tableKey(st *State, dir int64) *Term {
	var found []*Term
	m := a.table(st)
	see := func(t *Term) {
		if (t.op == "mapok" || t.op == "mapval") && t.args[0] == m && st.keyMatches(t.args[1], a.fd, mkInt(dir)) {
			found = append(found, t.args[1])
		}
	}
	for c := range st.mem {
		see(c)
	}
	for b := range st.bools {
		b.walk(see)
	}
	if len(found) == 0 {
		return a.keys[dir]
	}
	sort.Slice(found, func(i, j int) bool { return found[i].id < found[j].id })
	a.keys[dir] = found[0]
	return found[0]
}

// had: whether a handler was registered for the direction when the function was called.
func (a *regAn) had(st *State, dir int64) int {
	k := a.tableKey(st, dir)
	if k == nil {
		return -1
	}
	for b, v := range st.bools {
		if b.op == "init" && b.args[0].op == "mapok" && b.args[0].args[0] == a.table(st) && (b.args[0].args[1] == k || st.equalTerms(b.args[0].args[1], k)) {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

// has: whether a handler is registered for the direction now.
func (a *regAn) has(st *State, dir int64) int {
	k := a.tableKey(st, dir)
	if k == nil {
		return -1
	}
	return st.eval(st.loadMap(mk("mapok", "", a.table(st), k), boolType))
}

func (a *regAn) call(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	if c.name != "syscall.EpollCtl" {
		return nil, false
	}
	pos := c.instr.Pos()
	a.ob(x, "C28.agree", pos)
	v := func(format string, args ...any) { a.viol(x, st, "C28.agree", pos, pathFn(st), format, args...) }
	if !st.provesEqInt(c.args[0], a.field(st, a.el, "EventLoop", "fileEventFd")) {
		v("the registration is made with another descriptor than the one that is polled")
	}
	if !st.provesEqInt(c.args[2], a.fd) {
		v("the registration is made for %v instead of the given descriptor", c.args[2])
	}
	op, ok := c.args[1].intVal()
	h1, h2 := a.had(st, 1), a.had(st, 2)
	if !ok {
		v("the operation is not a constant on this path")
	}
	switch op {
	case 1:
		if h1 != 0 || h2 != 0 {
			v("a descriptor is added although it may be registered already")
		}
	case 2, 3:
		if h1 != 1 && h2 != 1 {
			v("the registration of a descriptor is changed although it may not be registered")
		}
	default:
		v("unknown operation %v", c.args[1])
	}
	kern := int64(0)
	if op != 2 {
		ev := c.args[3]
		evs := st.load(fldOf("syscall.EpollEvent.Events", types.Typ[types.Uint32], ev), types.Typ[types.Uint32])
		efd := st.load(fldOf("syscall.EpollEvent.Fd", types.Typ[types.Int32], ev), types.Typ[types.Int32])
		if !st.provesEqInt(efd, a.fd) {
			v("the event carries %v instead of the descriptor", efd)
		}
		k, ok := evs.intVal()
		if !ok {
			v("the events asked for (%v) are not determined on this path", evs)
		}
		if k&^(epIn|epOut|0x2000|0x18) != 0 {
			v("the kernel is asked for events %#x: other than readable and writable, level triggered", k)
		}
		kern = k & (epIn | epOut)
		if kern == 0 {
			v("the kernel is asked for no events of a registered descriptor")
		}
	}
	var out []Outcome
	for _, o := range x.errno(st, a.p, c.name) {
		o.st.setSlot("errno", "")
		o.st.setSlot("ctl", "failed")
		out = append(out, Outcome{o.st, []*Term{o.res[0]}})
	}
	if st.slot("ctl") == "" && len(out) > 1 {
		out = out[:1] // the table does not depend on the kind of failure
	}
	st.setSlot("ctl", fmt.Sprint("done", kern))
	return append(out, Outcome{st, []*Term{tNil}}), true
}

func (a *regAn) mapUpdate(x *Exec, st *State, m, k, v *Term, in ssa.Instruction) {
	if m != a.table(st) {
		return
	}
	pos := in.Pos()
	a.ob(x, "C28.key", pos)
	if !st.keyMatches(k, a.fd, mkInt(a.dir)) {
		a.viol(x, st, "C28.key", pos, pathFn(st), "the table is changed under the key %v, which does not consist of the descriptor and the direction", k)
		return
	}
	st.setSlot("chg", "1")
	if v == nil {
		return
	}
	a.loopAn.mapUpdate(x, st, m, k, v, in)
	for _, f := range []struct {
		name string
		want *Term
	}{{"fd", a.fd}, {"mask", mkInt(a.dir)}, {"proc", a.proc}, {"clientData", a.data}} {
		got := a.field(st, v, "FileEvent", f.name)
		if f.want == nil || !(got == f.want || st.equalTerms(got, f.want) || isInt(got) && isInt(f.want) && st.provesEqInt(got, f.want)) {
			a.viol(x, st, "C28.key", pos, pathFn(st), "the registered event has %s %v, not the one given", f.name, got)
		}
	}
}

func isInt(t *Term) bool { return t != nil && (t.isInt() || t.typ != nil && isIntType(t.typ)) }

func (a *regAn) ret(x *Exec, st *State, res []*Term) {
	pos := st.top().fn.Pos()
	if a.prop == "C29" {
		a.retTimer(x, st, res)
		return
	}
	v := func(rule, format string, args ...any) {
		a.viol(x, st, rule, pos, fnName(st.top().fn), format, args...)
	}
	a.ob(x, "C28.agree", pos)
	var kern int64
	ctl := st.slot("ctl")
	failed := false
	if len(res) > 0 && isErrorType(res[len(res)-1].typ) || len(res) == 1 {
		failed = st.evalNil(res[len(res)-1]) == 0
	}
	if ctl == "" || ctl == "failed" {
		if st.slot("chg") != "" && !(a.had(st, 1) >= 0 && a.had(st, 1) == a.has(st, 1) && a.had(st, 2) == a.has(st, 2)) {
			v("C28.agree", "the handler table is changed although the kernel's registration has not been")
		}
	} else {
		fmt.Sscanf(ctl, "done%d", &kern)
		for _, d := range []int64{1, 2} {
			bit := map[int64]int64{1: epIn, 2: epOut}[d]
			want := 0
			if kern&bit != 0 {
				want = 1
			}
			if h := a.has(st, d); h != want {
				v("C28.agree", "after the call the kernel reports %s events: %v, but a handler is registered: %v", map[int64]string{1: "readable", 2: "writable"}[d], want == 1, tri(h))
			}
		}
	}
	a.ob(x, "C28.effect", pos)
	if !failed {
		want := 0
		if a.adds {
			want = 1
		}
		if h := a.has(st, a.dir); h != want {
			v("C28.effect", "the function reports success (%v), but whether a handler is registered for the direction is: %v", res, tri(h))
		}
		if a.adds && st.slot("chg") == "" {
			v("C28.effect", "the function reports success, but has not registered the given handler")
		}
	} else if ctl != "" && ctl != "failed" {
		v("C28.effect", "the function reports failure although it has changed the registration")
	}
}

func tri(n int) string {
	switch n {
	case 1:
		return "yes"
	case 0:
		return "no"
	}
	return "unknown"
}

func (a *regAn) listPush(x *Exec, st *State, l, v *Term, c *Call) {
	if !a.timerList(st, l) {
		return
	}
	pos := c.instr.Pos()
	a.ob(x, "C29.add", pos)
	te := v
	if te.op == "iface" {
		te = te.args[0]
	}
	bad := func(format string, args ...any) { a.viol(x, st, "C29.add", pos, pathFn(st), format, args...) }
	f := func(n string) *Term { return a.field(st, te, "TimeEvent", n) }
	if !a.geClock(st, f("when"), a.iv) || a.farClock(st, f("when"), a.iv) {
		bad("the new timer is due at %v, which is not established to be its interval after the clock", f("when"))
	}
	if !st.provesEqInt(f("interval"), a.iv) {
		bad("the new timer has the interval %v instead of the given one", f("interval"))
	}
	if a.mask == nil || !st.provesEqInt(f("mask"), a.mask) {
		bad("the new timer has the kind %v instead of the given one", f("mask"))
	}
	if p := f("proc"); a.proc == nil || p != a.proc && !st.equalTerms(p, a.proc) {
		bad("the new timer has another function than the given one")
	}
	if d := f("clientData"); a.data == nil || d != a.data && !st.equalTerms(d, a.data) {
		bad("the new timer has other data than the given ones")
	}
	st.slots["g:newid"] = f("id")
	if n := st.slot("pushed"); len(n) < 2 {
		st.setSlot("pushed", n+"x")
	}
}

func (a *regAn) listRemove(x *Exec, st *State, l, e *Term, c *Call) {
	if !a.timerList(st, l) {
		return
	}
	pos := c.instr.Pos()
	a.ob(x, "C29.remove", pos)
	if a.adds || !st.provesEqInt(a.field(st, a.elemTimer(st, e), "TimeEvent", "id"), a.id) {
		a.viol(x, st, "C29.remove", pos, pathFn(st), "a timer is removed that is not established to have the given id")
	}
	st.setSlot("removed", "1")
}

func (a *regAn) store(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
	if addr.op == "fld" && addr.aux == "ae.TimeEvent.when" && !isAllocRoot(addr) {
		a.ob(x, "C29.add", in.Pos())
		a.viol(x, st, "C29.add", in.Pos(), pathFn(st), "the time of a registered timer is changed")
	}
}

func (a *regAn) after(x *Exec, st *State, c *Call, res []*Term) { a.loopAn.after(x, st, c, res) }

func (a *regAn) retTimer(x *Exec, st *State, res []*Term) {
	pos := st.top().fn.Pos()
	failed := len(res) == 1 && st.evalNil(res[0]) == 0
	if a.adds {
		a.ob(x, "C29.add", pos)
		if !failed && st.slot("pushed") != "x" {
			a.viol(x, st, "C29.add", pos, fnName(st.top().fn), "the function reports success, but has added %d timers", len(st.slot("pushed")))
		}
		if id := st.slots["g:newid"]; id != nil {
			n := st.load(fldOf("ae.EventLoop.timeEventNextID", types.Typ[types.Int64], a.el), types.Typ[types.Int64])
			// ids below the counter have been given out
			if !st.provesGE(id, a.nextID) || !(st.provesGE(n, tAdd(id, tOne)) || wrapped(n, id)) {
				a.viol(x, st, "C29.add", pos, fnName(st.top().fn), "the id %v of the new timer may be that of another timer (counter %v before, %v after)", id, a.nextID, n)
			}
		}
		return
	}
	if a.id != nil && len(res) == 1 {
		a.ob(x, "C29.remove", pos)
		if !failed && st.slot("removed") == "" {
			a.viol(x, st, "C29.remove", pos, fnName(st.top().fn), "the function reports success, but has removed nothing")
		}
		if failed && st.slot("removed") != "" {
			a.viol(x, st, "C29.remove", pos, fnName(st.top().fn), "the function reports failure after removing a timer")
		}
	}
}

// wrapped: a 64-bit counter that is incremented once per registration does not wrap.
func wrapped(n, id *Term) bool {
	return n.op == "app" && len(n.args) > 0 && n.args[0] == id
}
