package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The event loop: Main and everything it calls is explored with the callbacks as events, and the registration
// functions are explored for each direction.

type loopAn struct {
	p    *Prog
	r    *Report
	prop string
	el   *Term
	one  int64 // if not 0: exactly one descriptor is ready, with exactly this epoll bit
	evFd *Term
	evEv *Term
}

// timerSlack: a wait may last this many milliseconds beyond the time of a timer.
const timerSlack = 10

const (
	epIn, epOut = 1, 4
)

func (a *loopAn) viol(x *Exec, st *State, rule string, pos token.Pos, construct, format string, args ...any) {
	if strings.HasPrefix(rule, a.prop+".") {
		x.violate(st, rule, construct, pos, format, args...)
	}
}

func (a *loopAn) ob(x *Exec, rule string, pos token.Pos) {
	if strings.HasPrefix(rule, a.prop+".") {
		a.r.oblig(rule, x.p.pos(pos)+" from "+x.entry)
	}
}

// mainLoop: the method of EventLoop that polls and runs the callbacks.
func (p *Prog) mainLoop() *ssa.Function {
	return p.findFn("(*ae.EventLoop).Main", func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && shortType(f.Signature.Recv().Type()) == "*ae.EventLoop" && f.Object() != nil && f.Object().Exported() &&
			p.reaches(f, "syscall.EpollWait")
	})
}

func exploreLoop(p *Prog, r *Report, prop string, one int64) {
	f := p.mainLoop()
	if f == nil {
		r.fail("undecided", "event loop", "-", "the main function of the event loop is not found")
		return
	}
	a := &loopAn{p: p, r: r, prop: prop, one: one}
	x := newExec(p, r, a.hooks())
	x.entry = fnName(f)
	x.joinHeads = true
	if one != 0 {
		x.entry += fmt.Sprintf(" (one event %d)", one)
	}
	st := newState()
	a.el = nonNil(st, sym("el", f.Params[0].Type()))
	x.Run(f, st, []*Term{a.el}, nil)
	r.use(x)
}

func (a *loopAn) hooks() *Hooks {
	return &Hooks{Call: a.call, Load: a.load, Return: a.ret, Oblig: a.oblig, Append: a.append, AfterCall: a.after, ListRemove: a.listRemove, Store: a.store, MapUpdate: a.mapUpdate, Canon: a.canon}
}

func (a *loopAn) oblig(x *Exec, st *State, kind string, ok bool, in ssa.Instruction, detail string) {
	if kind == "overflow" {
		return
	}
	a.ob(x, "C01."+kind, in.Pos())
	if !ok {
		a.viol(x, st, "C01."+kind, in.Pos(), fnName(in.Parent()), "%s not shown: %s", kind, detail)
	}
}

func isEventPtr(t types.Type) bool {
	s := ""
	if t != nil {
		s = shortType(t)
	}
	return s == "*ae.FileEvent" || s == "*ae.TimeEvent"
}

func (a *loopAn) load(x *Exec, st *State, addr *Term, typ types.Type) *Term {
	// the tables and lists of the loop hold no nil events and no nil callbacks (rule C01.nonnil)
	if addr.op == "fld" && (nonNilFields[addr.aux] || addr.aux == "ae.FileEvent.proc" || addr.aux == "ae.TimeEvent.proc") || addr.op == "elem" && isEventPtr(typ) {
		t := st.load(addr, typ)
		if (t.op == "init" || t.op == "sym") && st.evalNil(t) < 0 {
			nonNil(st, t)
		}
		return t
	}
	if v := eventPart(addr); v != nil {
		return v
	}
	if addr.op == "fld" && addr.aux == "ae.EventLoop.stop" && a.prop == "C40" {
		st.setSlot("stopchk", "1")
	}
	return nil
}

func (a *loopAn) mapUpdate(x *Exec, st *State, m, k, v *Term, in ssa.Instruction) {
	if v != nil && isEventPtr(v.typ) {
		a.ob(x, "C01.nonnil", in.Pos())
		if st.evalNil(v) != 0 {
			a.viol(x, st, "C01.nonnil", in.Pos(), pathFn(st), "an event that may be nil is stored in the handler table")
		}
	}
}

func (a *loopAn) field(st *State, base *Term, typ, name string) *Term {
	t := a.p.fieldType("ae", typ, name)
	f := fldOf("ae."+typ+"."+name, t, base)
	if v := eventPart(f); v != nil {
		return v
	}
	return st.load(f, t)
}

// eventPart: an event is registered under its own descriptor and direction (rule C28.key).
func eventPart(addr *Term) *Term {
	if addr.op != "fld" || addr.aux != "ae.FileEvent.fd" && addr.aux != "ae.FileEvent.mask" {
		return nil
	}
	if e := addr.args[0]; e.op == "init" && e.args[0].op == "mapval" {
		if fd, mask := keyParts(e.args[0].args[1]); fd != nil {
			if addr.aux == "ae.FileEvent.fd" {
				return fd
			}
			return mask
		}
	}
	return nil
}

// owner finds the object whose field a value was loaded from.
func owner(t *Term, field string) *Term {
	if t != nil && t.op == "init" && t.args[0].op == "fld" && t.args[0].aux == field {
		return t.args[0].args[0]
	}
	return nil
}

func (a *loopAn) call(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	pos := c.instr.Pos()
	if c.fn == nil && c.fnT != nil {
		switch {
		case c.name == "field ae.EventLoop.beforeSleep" || a.sigIs(c, "BeforeSleepProc"):
			a.pendTimer(x, st, pos)
			st.setSlot("handled", "")
			st.note("%s: the function before each wait runs", x.p.pos(pos))
			return one(st), true
		case c.name == "field ae.FileEvent.proc" || a.sigIs(c, "FileProc"):
			return a.fileProc(x, st, c), true
		case c.name == "field ae.TimeEvent.proc" || a.sigIs(c, "TimeProc"):
			return a.timeProc(x, st, c), true
		}
	}
	switch c.name {
	case "syscall.EpollWait":
		return a.wait(x, st, c), true
	case "syscall.Close":
		return one(st, tNil), true
	case "(*container/list.Element).Next", "(*container/list.Element).Prev":
		// before a wait an arbitrary one of the timers is watched: the wait must not last beyond it
		if a.prop == "C29" && st.slot("scan") == "in" && st.slot("collect") == "" && st.slot("pend") == "" && st.slot("min") == "" && st.slots["g:cur"] != nil {
			s2 := st.clone()
			s2.setSlot("min", "1")
			s2.slots["g:min"] = a.field(s2, a.elemTimer(s2, s2.slots["g:cur"]), "TimeEvent", "when")
			return append(findModel(c)(x, st, c), findModel(c)(x, s2, c)...), true
		}
	}
	return nil, false
}

func (a *loopAn) sigIs(c *Call, name string) bool {
	n := a.p.namedType("ae", name)
	return n != nil && c.sig != nil && types.Identical(sigNoRecv(c.sig), sigNoRecv(n.Underlying().(*types.Signature)))
}

// callback: anything may be registered and removed by a callback.
func (a *loopAn) callback(x *Exec, st *State, what string) {
	site := mk("site", x.siteName(st, what))
	m := a.field(st, a.el, "EventLoop", "fileEventMap")
	for k := range st.mem {
		if (k.op == "mapval" || k.op == "mapok") && k.args[0] == m {
			delete(st.mem, k)
		}
	}
	st.mem[mk("gen", "map", m)] = site
	l := a.field(st, a.el, "EventLoop", "timeEventHead")
	delete(st.mem, listLen(l))
	st.mem[listLen(l)] = x.fresh(st, "timers", intType)
	st.assumeGE(st.mem[listLen(l)], tZero)
	st.mem[mk("gen", "list", l)] = site
	listForget(st, l)
	st.mem[fldOf("ae.EventLoop.stop", boolType, a.el)] = x.fresh(st, "stop", boolType)
	st.mem[fldOf("ae.EventLoop.timeEventNextID", types.Typ[types.Int64], a.el)] = x.fresh(st, "nextid", types.Typ[types.Int64])
}

func (a *loopAn) fileProc(x *Exec, st *State, c *Call) []Outcome {
	pos := c.instr.Pos()
	a.pendTimer(x, st, pos)
	fe := owner(c.fnT, "ae.FileEvent.proc")
	if a.prop == "C16" {
		st.setSlot("handled", "1")
	}
	st.note("%s: a handler runs", x.p.pos(pos))
	if fe == nil {
		a.viol(x, st, "C28.dispatch", pos, pathFn(st), "a handler is called that is not the handler of an event")
		a.callback(x, st, "filecb")
		return one(st)
	}
	fd, mask, data := a.field(st, fe, "FileEvent", "fd"), a.field(st, fe, "FileEvent", "mask"), a.field(st, fe, "FileEvent", "clientData")
	a.ob(x, "C28.dispatch", pos)
	if len(c.args) == 3 {
		if !st.equalTerms(c.args[1], fd) && !st.provesEqInt(c.args[1], fd) || !st.equalTerms(c.args[2], data) {
			a.viol(x, st, "C28.dispatch", pos, pathFn(st), "the handler of %v is called with the descriptor or data of another event (%v, %v)", fe, c.args[1], c.args[2])
		}
	}
	for _, rule := range []string{"C28.live", "C25.skip"} {
		a.ob(x, rule, pos)
		if !a.isCurrent(st, fe, fd, mask) {
			a.viol(x, st, rule, pos, pathFn(st), "a handler is called although it may have been removed by a handler that ran before it in the same round")
		}
	}
	if a.one != 0 {
		if n := st.slot("called"); len(n) < 2 {
			st.setSlot("called", n+"x")
		}
	}
	a.callback(x, st, "filecb")
	return one(st)
}

// isCurrent: the table entry for the descriptor and direction of the event is established to be that event.
func (a *loopAn) isCurrent(st *State, fe, fd, mask *Term) bool {
	m := a.field(st, a.el, "EventLoop", "fileEventMap")
	try := func(k *Term) bool {
		cell := mk("mapval", "", m, k)
		v := st.loadMap(cell, fe.typ)
		return v == fe || st.equalTerms(v, fe)
	}
	for b, val := range st.bools {
		if !val || b.op != "init" || b.args[0].op != "mapok" || b.args[0].args[0] != m {
			continue
		}
		if k := b.args[0].args[1]; st.keyMatches(k, fd, mask) && try(k) {
			return true
		}
	}
	for c := range st.mem {
		if c.op == "mapval" && c.args[0] == m && st.keyMatches(c.args[1], fd, mask) && try(c.args[1]) {
			return true
		}
	}
	return false
}

func (s *State) keyMatches(k, fd, mask *Term) bool {
	f, m := keyParts(k)
	return f != nil && (f == fd || s.provesEqInt(f, fd)) && (m == mask || s.provesEqInt(m, mask))
}

// keyParts splits a table key into descriptor and direction.
func keyParts(k *Term) (fd, mask *Term) {
	if k.op == "app" && k.aux == "or" {
		for i := 0; i < 2; i++ {
			s := k.args[i]
			if s.op == "app" && s.aux == "shl" {
				if n, ok := s.args[1].intVal(); ok && n >= 2 {
					return s.args[0], k.args[1-i]
				}
			}
		}
	}
	if k.lin != nil || k.op == "lin" {
		return nil, nil
	}
	if k.op == "struct" && len(k.args) == 2 {
		return k.args[0], k.args[1]
	}
	return nil, nil
}

func (a *loopAn) clock(st *State) (out []*Term) {
	for f, b := range st.bools {
		if b && f.op == "app" && f.aux == "@clock" {
			out = append(out, f.args[0])
		}
	}
	return
}

// proves that a term is bounded by some clock reading of the path: t <= clock + d
func (a *loopAn) leClock(st *State, t *Term, d int64) bool {
	for _, c := range a.clock(st) {
		if st.provesGE(tAdd(c, mkInt(d)), t) {
			return true
		}
	}
	return false
}

func (a *loopAn) geClock(st *State, t, plus *Term) bool {
	for _, c := range a.clock(st) {
		if st.provesGE(t, tAdd(c, plus)) {
			return true
		}
	}
	return false
}

func (a *loopAn) timeProc(x *Exec, st *State, c *Call) []Outcome {
	pos := c.instr.Pos()
	a.pendTimer(x, st, pos)
	te := owner(c.fnT, "ae.TimeEvent.proc")
	if a.prop == "C16" {
		st.setSlot("handled", "1")
	}
	st.note("%s: a timer runs", x.p.pos(pos))
	a.ob(x, "C29.args", pos)
	if te == nil {
		a.viol(x, st, "C29.args", pos, pathFn(st), "a timer function is called that is not the function of a timer")
	} else if len(c.args) == 3 {
		id, data := a.field(st, te, "TimeEvent", "id"), a.field(st, te, "TimeEvent", "clientData")
		if !st.provesEqInt(c.args[1], id) || !st.equalTerms(c.args[2], data) {
			a.viol(x, st, "C29.args", pos, pathFn(st), "the timer %v is called with the id or data of another one", te)
		}
	}
	if a.one != 0 {
		st.setSlot("timer", "1")
		if te != nil {
			st.slots["g:te"] = te
		}
	}
	a.callback(x, st, "timecb")
	if te != nil {
		// clock readings before the firing must not be used to schedule the next one
		for f := range st.bools {
			if f.op == "app" && f.aux == "@clock" {
				delete(st.bools, f)
			}
		}
		if a.prop == "C29" {
			st.slots["g:te"] = te
			st.setSlot("pend", "1")
			st.setSlot("scan", "")
			if st.slot("collect") != "" {
				st.setSlot("took", "1")
				st.slots["g:took"] = te
			}
		}
		a.ob(x, "C29.after", pos)
	}
	return one(st)
}

// pendTimer: the timer that has fired must have been rescheduled or removed by now.
func (a *loopAn) pendTimer(x *Exec, st *State, pos token.Pos) {
	if st.slot("pend") == "" {
		return
	}
	a.viol(x, st, "C29.after", pos, pathFn(st), "a timer has fired and is neither scheduled again nor removed")
	a.settle(st)
}

func (a *loopAn) settle(st *State) {
	st.setSlot("pend", "")
	st.setSlot("scan", "")
	delete(st.slots, "g:te")
}

func (a *loopAn) isOneShot(st *State, te *Term) int {
	return st.eval(mkCmp("ieq", a.field(st, te, "TimeEvent", "mask"), mkInt(2)))
}

func (a *loopAn) store(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
	if addr.op != "fld" {
		return
	}
	switch addr.aux {
	case "ae.TimeEvent.when":
		if isAllocRoot(addr) {
			return
		}
		te := addr.args[0]
		a.ob(x, "C29.interval", in.Pos())
		if !a.geClock(st, val, a.field(st, te, "TimeEvent", "interval")) {
			a.viol(x, st, "C29.interval", in.Pos(), pathFn(st), "a timer is scheduled at %v, which is not established to be at least its interval after the clock", val)
		}
		if a.farClock(st, val, a.field(st, te, "TimeEvent", "interval")) {
			a.viol(x, st, "C29.interval", in.Pos(), pathFn(st), "a timer is scheduled at %v, later than its interval after the clock", val)
		}
		if st.slot("pend") != "" && st.equalTerms(st.slots["g:te"], te) {
			if a.isOneShot(st, te) != 0 {
				a.viol(x, st, "C29.after", in.Pos(), pathFn(st), "a timer that may be a one-shot timer is scheduled again")
			}
			a.settle(st)
		}
	case "ae.TimeEvent.interval", "ae.TimeEvent.mask", "ae.TimeEvent.id", "ae.TimeEvent.proc", "ae.FileEvent.fd", "ae.FileEvent.mask", "ae.FileEvent.proc":
		if !isAllocRoot(addr) {
			a.viol(x, st, "C29.args", in.Pos(), pathFn(st), "the fixed part of a registered event is changed")
		}
	}
}

func (a *loopAn) farClock(st *State, t, plus *Term) bool {
	for _, c := range a.clock(st) {
		if st.provesGE(t, tAdd(c, tAdd(plus, tOne))) {
			return true
		}
	}
	return false
}

func (a *loopAn) timerList(st *State, l *Term) bool {
	return st.equalTerms(l, a.field(st, a.el, "EventLoop", "timeEventHead"))
}

func (a *loopAn) elemTimer(st *State, e *Term) *Term {
	vt := types.NewInterfaceType(nil, nil)
	v := st.load(mkFull("fld", "container/list.Element.Value", vt, nil, nil, e), vt)
	if v.op == "iface" {
		return v.args[0]
	}
	n := a.p.namedType("ae", "TimeEvent")
	return mkFull("app", "unbox:*ae.TimeEvent", types.NewPointer(n), nil, nil, v)
}

func (a *loopAn) listRemove(x *Exec, st *State, l, e *Term, c *Call) {
	if !a.timerList(st, l) {
		return
	}
	if a.prop != "C29" {
		return
	}
	st.setSlot("scan", "")
	t := a.elemTimer(st, e)
	pos := c.instr.Pos()
	a.ob(x, "C29.remove", pos)
	if te := st.slots["g:te"]; st.slot("pend") != "" {
		if st.equalTerms(t, te) || st.provesEqInt(a.field(st, t, "TimeEvent", "id"), a.field(st, te, "TimeEvent", "id")) {
			if a.isOneShot(st, te) != 1 {
				a.viol(x, st, "C29.after", pos, pathFn(st), "a timer that may be periodic is removed after firing")
			}
			a.settle(st)
			return
		}
		a.viol(x, st, "C29.remove", pos, pathFn(st), "a timer other than the one that fired is removed")
		return
	}
	a.viol(x, st, "C29.remove", pos, pathFn(st), "a timer is removed that has not fired")
}

// after follows the scans of the timer list. The first complete scan after a wait must take every timer that is due;
// a later one looks for the nearest timer.
func (a *loopAn) after(x *Exec, st *State, c *Call, res []*Term) {
	if c.name == "(time.Time).UnixMilli" && len(res) == 1 {
		// assumption: the clock is not set back
		for _, k := range a.clock(st) {
			if k != res[0] && strings.HasPrefix(k.aux, "nowUnixMilli") && !c.args[0].contains(k) {
				st.assumeGE(res[0], k)
			}
		}
	}
	if a.one != 0 && st.slot("timer") != "" {
		// a one-shot timer that has removed itself ends the round
		if te := st.slots["g:te"]; te != nil && (c.name == "(*container/list.List).Front" || c.name == "(*container/list.Element).Next") && len(res) == 1 && st.evalNil(res[0]) == 1 && a.isOneShot(st, te) == 1 {
			st.setSlot("absent", "1")
		}
	}
	if a.prop != "C29" {
		return
	}
	pend := st.slot("pend") != ""
	switch c.name {
	case "(*container/list.List).Front", "(*container/list.List).Back":
		if !a.timerList(st, c.args[0]) {
			return
		}
		st.setSlot("scan", "")
		if st.slot("collect") == "" && !pend {
			st.setSlot("min", "")
			delete(st.slots, "g:min")
		}
	case "(*container/list.Element).Next", "(*container/list.Element).Prev":
		if st.slot("scan") != "in" {
			return
		}
		if !pend {
			a.leaveTimer(x, st, c.instr.Pos())
		}
	default:
		return
	}
	if len(res) != 1 {
		return
	}
	delete(st.slots, "g:cur")
	if st.evalNil(res[0]) == 1 {
		st.setSlot("scan", "done")
		if !pend {
			st.setSlot("collect", "")
			st.setSlot("took", "")
			delete(st.slots, "g:took")
		} else if a.isOneShot(st, st.slots["g:te"]) == 1 {
			a.settle(st) // it has been removed already
			st.setSlot("scan", "")
		}
		return
	}
	st.setSlot("scan", "in")
	if !pend {
		st.slots["g:cur"] = res[0]
	}
}

// leaveTimer: a scan goes on to the next timer.
func (a *loopAn) leaveTimer(x *Exec, st *State, pos token.Pos) {
	e := st.slots["g:cur"]
	if e == nil {
		return
	}
	te := a.elemTimer(st, e)
	when := a.field(st, te, "TimeEvent", "when")
	if st.slot("collect") == "" {
		return
	}
	took := st.slots["g:took"]
	had := st.slot("took") != ""
	delete(st.slots, "g:took")
	st.setSlot("took", "")
	if had && st.equalTerms(took, te) {
		return
	}
	a.ob(x, "C29.due", pos)
	if !a.geClock(st, when, tOne) {
		a.viol(x, st, "C29.due", pos, pathFn(st), "a timer that may be due (%v) is not run", when)
	}
}

func (a *loopAn) append(x *Exec, st *State, base, added, result *Term, in ssa.Instruction) {
	es, ok := x.variadicElems(st, added)
	if !ok || len(es) != 1 || !isEventPtr(es[0].typ) {
		return
	}
	e := es[0]
	pos := in.Pos()
	a.ob(x, "C01.nonnil", pos)
	if st.evalNil(e) != 0 && !a.fromTable(st, e) {
		a.viol(x, st, "C01.nonnil", pos, pathFn(st), "an event that may be nil is scheduled")
	}
	if shortType(e.typ) == "*ae.TimeEvent" {
		if a.prop == "C29" && st.slot("collect") != "" {
			st.setSlot("took", "1")
			st.slots["g:took"] = e
		}
		a.ob(x, "C29.early", pos)
		if !a.leClock(st, a.field(st, e, "TimeEvent", "when"), 0) {
			a.viol(x, st, "C29.early", pos, pathFn(st), "a timer is scheduled to run on a path that has not established that it is due")
		}
		return
	}
	if st.slot("waited") == "" {
		return
	}
	// a handler for a ready descriptor
	if a.one == 0 {
		a.ob(x, "C28.ready", pos)
	}
	if n := st.slot("sched"); a.one != 0 && len(n) < 2 {
		st.setSlot("sched", n+"x")
	}
	a.ob(x, "C28.ready", pos)
	if e.op != "init" || e.args[0].op != "mapval" {
		a.viol(x, st, "C28.ready", pos, pathFn(st), "a handler is scheduled that does not come from the handler table")
		return
	}
	fd, mask := keyParts(e.args[0].args[1])
	if fd == nil {
		a.viol(x, st, "C28.ready", pos, pathFn(st), "the table key %v does not determine descriptor and direction", e.args[0].args[1])
		return
	}
	ev := false
	m, isC := mask.intVal()
	bits := map[int64]int64{1: epIn, 2: epOut}[m] | 0x2018 // errors and hang-ups make both directions ready
	test := func(u *Term) {
		if u.op != "app" || u.aux != "and" || ev {
			return
		}
		for i := 0; i < 2; i++ {
			if k, ok := u.args[i].intVal(); ok && isC && k&^bits == 0 && sameEvent(st, u.args[1-i], fd) && (st.provesGE(u, tOne) || st.eval(mkCmp("ieq", u, tZero)) == 0) {
				ev = true
			}
		}
	}
	for f := range st.bools {
		f.walk(test)
	}
	for _, l := range st.lin.ge {
		mkLin(l).walk(test)
	}
	for _, l := range st.lin.ne {
		mkLin(l).walk(test)
	}
	if !ev && a.one == 0 {
		a.viol(x, st, "C28.ready", pos, pathFn(st), "the handler for descriptor %v and direction %v is scheduled on a path that has not established that it is ready", fd, mask)
	}
	// a reply to a request that is executed in this round must not be sent before the log has been written
	a.ob(x, "C16.order", pos)
	if a.prop != "C16" || !isC {
		return
	}
	evb := owner(fd, "syscall.EpollEvent.Fd")
	if evb == nil || evb.op != "elem" {
		return
	}
	idx := evb.args[1]
	last := st.slots["g:rdidx"]
	if last == nil {
		last = mkInt(-1)
	}
	if m == 2 && !st.provesGE(idx, tAdd(last, tOne)) {
		a.viol(x, st, "C16.order", pos, pathFn(st), "the write handler of a descriptor may be scheduled after its read handler in the same round: a reply is sent before the log is written")
	}
	if m == 1 {
		if st.provesGE(idx, last) {
			st.slots["g:rdidx"] = idx
		} else {
			n := x.fresh(st, "rdidx", intType)
			st.assumeGE(n, idx)
			st.assumeGE(n, last)
			st.slots["g:rdidx"] = n
		}
	}
}

func (a *loopAn) fromTable(st *State, e *Term) bool {
	return e.op == "init" && e.args[0].op == "mapval" && st.eval(st.loadMap(mk("mapok", "", e.args[0].args...), boolType)) == 1
}

// sameEvent: an Events field and a descriptor belong to the same element of the event array.
func sameEvent(st *State, ev, fd *Term) bool {
	b1, b2 := owner(ev, "syscall.EpollEvent.Events"), owner(fd, "syscall.EpollEvent.Fd")
	return b1 != nil && b1 == b2
}

func (a *loopAn) wait(x *Exec, st *State, c *Call) []Outcome {
	pos := c.instr.Pos()
	a.pendTimer(x, st, pos)
	a.ob(x, "C16.flush", pos)
	bs := a.field(st, a.el, "EventLoop", "beforeSleep")
	if st.slot("handled") != "" && st.evalNil(bs) != 1 {
		a.viol(x, st, "C16.flush", pos, pathFn(st), "the loop waits after handlers have run, without the function that writes the log having been called")
	}
	a.ob(x, "C28.poll", pos)
	if !st.equalTerms(c.args[0], a.field(st, a.el, "EventLoop", "fileEventFd")) && !st.provesEqInt(c.args[0], a.field(st, a.el, "EventLoop", "fileEventFd")) {
		a.viol(x, st, "C28.poll", pos, pathFn(st), "the loop polls another descriptor than the one handlers are registered with")
	}
	if a.one != 0 && st.slot("waited") != "" {
		// the round is over
		a.ob(x, "C28.complete", pos)
		if debugOn && st.slot("called") != "x" {
			fmt.Println("COMPLETE", st.posKey())
			for b, v := range st.bools {
				fmt.Println("   ", b, v)
			}
		}
		if st.slot("called") != "x" && !(st.slot("called") == "" && a.removed(st)) {
			a.viol(x, st, "C28.complete", pos, pathFn(st), "a descriptor is ready (bit %d) and a handler is registered for it, but the handler has been called %d times", a.one, len(st.slot("called")))
		}
		return nil
	}
	a.ob(x, "C29.timeout", pos)
	to := c.args[2]
	for _, rule := range []string{"C29.timeout", "C40.wake"} {
		if !st.provesGE(to, tZero) || !st.provesGE(mkInt(60000), to) {
			a.viol(x, st, rule, pos, pathFn(st), "the time the poll may sleep (%v) is not established to lie between 0 and 60 s", to)
		}
	}
	a.ob(x, "C40.check", pos)
	if st.slot("stopchk") == "" {
		a.viol(x, st, "C40.check", pos, pathFn(st), "the loop waits without having looked whether it is to stop")
	}
	st.setSlot("stopchk", "")
	if a.prop == "C29" && st.slot("scan") != "done" {
		a.viol(x, st, "C29.timeout", pos, pathFn(st), "the loop waits without having looked at all timers")
	}
	if st.slot("collect") != "" {
		a.viol(x, st, "C29.due", pos, pathFn(st), "the loop waits again without having looked for the timers that are due after the last wait")
	}
	if mv := st.slots["g:min"]; a.prop == "C29" && st.slot("min") != "" {
		ok := false
		for _, k := range a.clock(st) {
			if st.provesGE(tSub(mv, k), tSub(to, mkInt(timerSlack))) || st.provesGE(mkInt(timerSlack), to) {
				ok = true
			}
		}
		if !ok {
			a.viol(x, st, "C29.timeout", pos, pathFn(st), "the poll may sleep (%v) beyond the time %v of the nearest timer", to, mv)
		}
	}
	for f := range st.bools {
		if f.op == "app" && f.aux == "@clock" {
			delete(st.bools, f)
		}
	}
	st.setSlot("waited", "1")
	// what is known of the schedule before the wait is not needed after it
	for c := range st.mem {
		if c.op == "fld" && strings.HasPrefix(c.aux, "ae.TimeEvent.") && !isAllocRoot(c) {
			delete(st.mem, c)
		}
	}
	st.mem[mk("epoch", "fld:ae.TimeEvent.when")] = mk("site", x.siteName(st, "wait"))
	for _, k := range []string{"scan", "min", "took", "pend", "tedone", "collect"} {
		st.setSlot(k, "")
	}
	for _, k := range []string{"g:cur", "g:min", "g:took", "g:te"} {
		delete(st.slots, k)
	}
	delete(st.slots, "g:rdidx")
	if a.prop == "C16" {
		st.slots["g:rdidx"] = mkInt(-1)
	}
	var out []Outcome
	b, off, ln := x.sliceParts(c.args[1])
	st.havocObject(b, mk("site", x.siteName(st, "epoll")))
	if a.one == 0 {
		for _, o := range x.errno(st, a.p, c.name) {
			if o.st.slot("errno") == "transient" && strings.Contains(o.res[0].String(), "EAGAIN") {
				continue
			}
			o.st.setSlot("errno", "")
			out = append(out, Outcome{o.st, []*Term{mkInt(-1), o.res[0]}})
		}
		n := x.fresh(st, "nready", intType)
		st.assumeGE(n, tZero)
		if st.assumeGE(ln, n) {
			if a.prop == "C29" {
				st.setSlot("collect", "1")
			}
			out = append(out, Outcome{st, []*Term{n, tNil}})
		}
		return out
	}
	et := c.instr.Common().Args[1].Type().Underlying().(*types.Slice).Elem()
	ev := mkFull("elem", "", et, nil, nil, b, off)
	evs := mkFull("fld", "syscall.EpollEvent.Events", types.Typ[types.Uint32], nil, nil, ev)
	fdc := mkFull("fld", "syscall.EpollEvent.Fd", types.Typ[types.Int32], nil, nil, ev)
	st.mem[evs] = mkInt(a.one)
	a.evFd = x.fresh(st, "readyfd", types.Typ[types.Int32])
	st.mem[fdc] = a.evFd
	st.assumeGE(a.evFd, tZero)
	// a handler is registered for it
	return []Outcome{{st, []*Term{tOne, tNil}}}
}

// removed: the path has established that no handler is registered for the ready descriptor and direction.
func (a *loopAn) removed(st *State) bool {
	if st.slot("absent") != "" {
		return true
	}
	dir := map[int64]*Term{epIn: mkInt(1), epOut: mkInt(2)}[a.one]
	m := a.field(st, a.el, "EventLoop", "fileEventMap")
	for b, val := range st.bools {
		if val {
			// the table holds no nil events
			if b.op == "cmp" && b.aux == "eq" && (b.args[0] == tNil || b.args[1] == tNil) {
				for _, u := range b.args {
					if u.op == "init" && u.args[0].op == "mapval" && u.args[0].args[0] == m && st.keyMatches(u.args[0].args[1], a.evFd, dir) {
						return true
					}
				}
			}
			continue
		}
		if b.op == "init" && b.args[0].op == "mapok" && b.args[0].args[0] == m && st.keyMatches(b.args[0].args[1], a.evFd, dir) {
			return true
		}
		if b.op == "cmp" && b.aux == "eq" && st.slot("timer") != "" {
			for _, u := range b.args {
				if u.op == "init" && u.args[0].op == "mapval" && st.keyMatches(u.args[0].args[1], a.evFd, dir) {
					return true
				}
			}
		}
	}
	return false
}

func (a *loopAn) ret(x *Exec, st *State, res []*Term) {
	if st.slot("waited") == "" {
		return
	}
	fn := st.top().fn
	a.ob(x, "C29.forever", fn.Pos())
	if st.eval(a.field(st, a.el, "EventLoop", "stop")) != 1 {
		for _, rule := range []string{"C29.forever", "C40.stop"} {
			a.viol(x, st, rule, fn.Pos(), fnName(fn), "the loop ends on a path on which no stop has been requested")
		}
	}
}

// canon forgets memory that the state can no longer reach, and facts about values it no longer holds.
func (a *loopAn) canon(x *Exec, st *State) {
	if a.one != 0 && st.slot("waited") != "" && st.slot("called") == "" && a.removed(st) {
		st.setSlot("absent", "1")
	}
	collect(x, st)
}

func collect(x *Exec, st *State) {
	held := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t == nil || held[t] {
			return
		}
		held[t] = true
		for _, u := range t.args {
			add(u)
		}
		if t.lin != nil {
			for _, at := range t.lin.at {
				add(at.t)
			}
		}
	}
	for i, f := range st.frames {
		var live map[ssa.Value]bool
		if i == len(st.frames)-1 {
			live = x.p.liveIn(f.fn)[f.blk]
		}
		for v, t := range f.env {
			if ph, ok := v.(*ssa.Phi); live != nil && !live[v] && !(ok && ph.Block() == f.blk) {
				continue
			}
			add(t)
		}
		for _, d := range f.defers {
			add(d.fn)
			add(d.recv)
			for _, t := range d.args {
				add(t)
			}
		}
	}
	for _, t := range st.slots {
		add(t)
	}
	local := func(c *Term) *Term {
		switch c.op {
		case "fld", "elem", "alloc", "sym", "init":
			r := rootOf(c)
			if r.op == "arr" && len(r.args) > 0 {
				r = r.args[0]
			}
			if r.op == "alloc" || r.op == "sym" && strings.HasPrefix(r.aux, "J@") {
				return r
			}
		}
		return nil
	}
	for again := true; again; {
		again = false
		for c, v := range st.mem {
			if r := local(c); (r == nil || held[r]) && !held[v] {
				add(v)
				again = true
			}
		}
	}
	for c := range st.mem {
		if r := local(c); r != nil && !held[r] {
			delete(st.mem, c)
		}
		if c.op == "gen" && len(c.args) == 1 {
			if r := local(c.args[0]); r != nil && !held[r] {
				delete(st.mem, c)
			}
		}
	}
	if len(st.frames) > 1 {
		return
	}
	dropped := func(t *Term) bool {
		for _, u := range t.syms {
			if u.op == "sym" && strings.HasPrefix(u.aux, "J@") && !held[u] {
				return true
			}
		}
		return false
	}
	for b := range st.bools {
		if dropped(b) && !(b.op == "app" && b.aux == "@clock") {
			delete(st.bools, b)
		}
	}
	for k, l := range st.lin.ge {
		if dropped(mkLin(l)) {
			delete(st.lin.ge, k)
		}
	}
	for k, l := range st.lin.ne {
		if dropped(mkLin(l)) {
			delete(st.lin.ne, k)
		}
	}
}
