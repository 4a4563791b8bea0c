package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Connections and descriptors: the handlers of descriptors and the functions that set descriptors up are explored
// with the system calls as events.

// errno forks a failing system call into the classes the callers distinguish.
func (x *Exec) errno(st *State, p *Prog, call string) (out []Outcome) {
	t := p.errnoType()
	mkErr := func(s *State, hint string) (*Term, *Term) {
		n := x.fresh(s, "errno:"+call+":"+hint, t)
		return n, mkFull("iface", "syscall.Errno", types.Universe.Lookup("error").Type(), t, nil, n)
	}
	for _, k := range []struct {
		name string
		v    int64
	}{{"EAGAIN", 11}, {"EINTR", 4}} {
		s := st.clone()
		n, e := mkErr(s, k.name)
		s.assume(mkCmp("ieq", n, mkInt(k.v)), true)
		s.note("%s fails with %s", call, k.name)
		s.setSlot("errno", "transient")
		out = append(out, Outcome{s, []*Term{e}})
	}
	s := st.clone()
	n, e := mkErr(s, "other")
	s.assume(mkCmp("ieq", n, mkInt(11)), false)
	s.assume(mkCmp("ieq", n, mkInt(4)), false)
	s.assumeGE(n, tOne)
	s.note("%s fails", call)
	s.setSlot("errno", "hard")
	return append(out, Outcome{s, []*Term{e}})
}

func (p *Prog) errnoType() types.Type {
	for _, pk := range p.ssa.AllPackages() {
		if pk.Pkg.Path() == "syscall" {
			if o := pk.Pkg.Scope().Lookup("Errno"); o != nil {
				return o.Type()
			}
		}
	}
	return types.Typ[types.Uint64]
}

type connAn struct {
	p    *Prog
	r    *Report
	prop string
	proc *ssa.Function
	root cbRoot
	env  *cbEnv
	opq  map[*ssa.Function]bool
	kind string // file, setup
}

func (a *connAn) viol(x *Exec, st *State, rule string, pos ssa.Instruction, construct, format string, args ...any) {
	if !strings.HasPrefix(rule, a.prop+".") {
		return
	}
	x.violate(st, rule, construct, pos.Pos(), format, args...)
}

func (a *connAn) ob(x *Exec, rule string, in ssa.Instruction) {
	if strings.HasPrefix(rule, a.prop+".") {
		a.r.oblig(rule, x.p.pos(in.Pos())+" from "+x.entry)
	}
}

// closers: functions that may close, unregister or forget a connection.
func (p *Prog) reaches(f *ssa.Function, names ...string) bool {
	for g := range p.reach([]*ssa.Function{f}, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if c := ci.Common().StaticCallee(); c != nil {
					for _, n := range names {
						if fnName(c) == n {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

const (
	nAddFE    = "(*ae.EventLoop).AddFileEvent"
	nRemoveFE = "(*ae.EventLoop).RemoveFileEvent"
)

func exploreConn(p *Prog, r *Report, prop string) {
	proc, _, why := p.dispatchFns()
	if why != "" {
		r.fail("undecided", "connections", "-", "%s", why)
		return
	}
	for _, c := range p.callbacks() {
		if c.kind != "file" {
			continue
		}
		exploreConnRoot(p, r, prop, proc, c, "file")
	}
	for _, f := range p.setupFns() {
		exploreConnRoot(p, r, prop, proc, cbRoot{fn: f}, "setup")
	}
}

// setupFns create a descriptor and hand it to their caller.
func (p *Prog) setupFns() (out []*ssa.Function) {
	for _, f := range p.funcs {
		rs := f.Signature.Results()
		if rs.Len() != 2 || shortType(rs.At(0).Type()) != "socket.FD" || f.Parent() != nil {
			continue
		}
		if p.reaches(f, "syscall.Socket", "syscall.Accept", "syscall.Accept4") {
			out = append(out, f)
		}
	}
	return out
}

func exploreConnRoot(p *Prog, r *Report, prop string, proc *ssa.Function, c cbRoot, kind string) {
	a := &connAn{p: p, r: r, prop: prop, proc: proc, root: c, kind: kind, opq: map[*ssa.Function]bool{}}
	for _, f := range p.funcs {
		if p.reach([]*ssa.Function{f}, nil)[proc] {
			a.opq[f] = true
		}
	}
	h := &Hooks{Call: a.call, Load: a.load, MapUpdate: a.mapUpdate, Return: a.ret, Oblig: a.oblig, ListRemove: a.listRemove, Store: a.store, TypeIs: a.typeIs}
	x := newExec(p, r, h)
	x.entry = fnName(c.fn)
	st := newState()
	e := newCbEnv(p, st)
	a.env = e
	if c.data != nil && isClientT(c.data) {
		// the registration passes the descriptor of the client (rule C25.samefd)
		st.mem[fldOf("server.Client.fd", p.fieldType("server", "Client", "fd"), e.client)] = e.fd
		srv := fldOf("server.Client.srv", p.fieldType("server", "Client", "srv"), e.client)
		st.mem[srv] = e.srv
		st.mem[fldOf("server.Server.eventLoop", p.fieldType("server", "Server", "eventLoop"), e.srv)] = e.el
		st.setFact("reg1", true, e.fd)
		st.setFact("reg2", true, e.fd)
		st.setFact("inmap", true, e.fd)
		// a reply is being sent: the list is not empty, its first element is not sent completely
		sl := fldOf("server.Client.sentLen", intType, e.client)
		st.mem[sl] = sym("sent0", intType)
		st.assumeGE(st.mem[sl], tZero)
		st.setGhost("pos", st.mem[sl])
	}
	args, free := e.args(st, c)
	x.Run(c.fn, st, args, free)
	r.use(x)
}

func (a *connAn) load(x *Exec, st *State, addr *Term, typ types.Type) *Term {
	if addr.op == "fld" && nonNilFields[addr.aux] {
		t := st.load(addr, typ)
		if t.op == "init" && st.evalNil(t) < 0 {
			nonNil(st, t)
		}
		return t
	}
	return nil
}

func (a *connAn) oblig(x *Exec, st *State, kind string, ok bool, in ssa.Instruction, detail string) {
	if kind == "overflow" || a.prop == "C01" && a.kind == "file" && a.opq[a.root.fn] {
		return // the read handler is analysed with the request parser
	}
	a.ob(x, "C01."+kind, in)
	if !ok {
		a.viol(x, st, "C01."+kind, in, fnName(in.Parent()), "%s not shown: %s", kind, detail)
	}
}

// typeIs: the reply lists hold strings only.
func (a *connAn) typeIs(x *Exec, st *State, v *Term, ty string) bool {
	return ty == "string" && v.op == "init" && v.args[0].op == "fld" && v.args[0].aux == "container/list.Element.Value" && a.p.listOfStrings()
}

func (a *connAn) store(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
}

func (a *connAn) mapUpdate(x *Exec, st *State, m, k, v *Term, in ssa.Instruction) {
	if !isField(stripInit(m), "server.Server.clients", a.env.srv) {
		return
	}
	if v == nil {
		st.setFact("inmap", false, k)
		return
	}
	a.ob(x, "C25.bookkeeping", in)
	if st.hasFact("closed", k) {
		a.viol(x, st, "C25.bookkeeping", in, pathFn(st), "a connection is entered under a descriptor that has been closed")
	}
	st.setFact("inmap", true, k)
}

func stripInit(t *Term) *Term {
	if t.op == "init" {
		return t.args[0]
	}
	return t
}

func (a *connAn) call(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	in := c.instr.(ssa.Instruction)
	if c.fn != nil && a.opq[c.fn] {
		// requests are parsed and executed: the connection itself is left alone (checked by opaque rule)
		site := mk("site", x.siteName(st, "requests"))
		for _, f := range []string{"queryBuf", "queryLen", "args", "db", "authenticated", "cmdType", "multiBulkLen", "bulkLen", "sentLen"} {
			t := a.p.fieldType("server", "Client", f)
			if t == nil {
				continue
			}
			cell := fldOf("server.Client."+f, t, a.env.client)
			st.mem[cell] = x.freshTerm(st, sym("after:"+f+site.aux, t))
		}
		outs := x.freshResults(st, c)
		for _, o := range outs {
			if n := len(o.res); n > 0 && o.st.evalNil(o.res[n-1]) == 0 {
				o.st.setSlot("end", "a request that cannot be executed")
			}
		}
		return outs, true
	}
	switch c.name {
	case nAddFE:
		return a.addFE(x, st, c, in), true
	case nRemoveFE:
		fd := c.args[1]
		if k, ok := c.args[2].intVal(); ok {
			st.setFact(regName(k), false, fd)
			if k == 2 {
				st.setSlot("unregW", "1")
				a.ob(x, "C27.registered", in)
				l := a.replyList(st)
				if !st.hasFact("dying", fd) && st.slot("end") == "" && l != nil && !st.provesEqInt(x.listLenVal(st, l), tZero) {
					a.viol(x, st, "C27.registered", in, pathFn(st), "the connection is no longer registered for writing although replies may be left")
				}
			}
		} else {
			st.setFact("reg1", false, fd)
			st.setFact("reg2", false, fd)
		}
		s2 := st.clone()
		e := x.fresh(s2, "err:remove", nil)
		s2.assume(mkCmp("eq", e, tNil), false)
		return []Outcome{{st, []*Term{tNil}}, {s2, []*Term{e}}}, true
	case "syscall.Close":
		fd := c.args[0]
		a.ob(x, "C25.close", in)
		if st.hasFact("closed", fd) {
			a.viol(x, st, "C25.close", in, pathFn(st), "descriptor %v is closed a second time", fd)
		}
		if st.hasFact("reg1", fd) || st.hasFact("reg2", fd) {
			a.viol(x, st, "C25.unregister", in, pathFn(st), "descriptor %v is closed while it is registered for polling", fd)
		}
		st.setFact("closed", true, fd)
		st.note("%s: %v is closed", x.p.pos(in.Pos()), fd)
		return one(st, tNil), true
	case "syscall.Socket", "syscall.Accept4", "syscall.Accept", "syscall.EpollCreate1", "syscall.EpollCreate", "syscall.Dup":
		var out []Outcome
		n := len(c.instr.(ssa.Value).Type().(*types.Tuple).String())
		_ = n
		tt := c.instr.(ssa.Value).Type().(*types.Tuple)
		for _, o := range x.errno(st, a.p, c.name) {
			o.st.setSlot("errno", "")
			res := []*Term{mkInt(-1)}
			for i := 1; i < tt.Len()-1; i++ {
				res = append(res, tNil)
			}
			out = append(out, Outcome{o.st, append(res, o.res[0])})
		}
		fd := x.fresh(st, "newfd", intType)
		st.assumeGE(fd, tZero)
		st.setFact("fresh", true, fd)
		st.note("%s: descriptor %v is created", x.p.pos(in.Pos()), fd)
		res := []*Term{fd}
		for i := 1; i < tt.Len()-1; i++ {
			v := x.fresh(st, "peer", tt.At(i).Type())
			res = append(res, v)
		}
		return append(out, Outcome{st, append(res, tNil)}), true
	case "syscall.SetNonblock":
		if c.args[1] == tTrue || st.eval(c.args[1]) == 1 {
			s2 := st.clone()
			st.setFact("nonblock", true, c.args[0])
			e := x.fresh(s2, "err:nonblock", nil)
			s2.assume(mkCmp("eq", e, tNil), false)
			return []Outcome{{st, []*Term{tNil}}, {s2, []*Term{e}}}, true
		}
		st.setFact("nonblock", false, c.args[0])
		return x.freshResults(st, c), true
	case "syscall.Read", "syscall.Recvfrom":
		a.use(x, st, c.args[0], "read", in)
		var out []Outcome
		tt := c.instr.(ssa.Value).Type().(*types.Tuple)
		pad := func(n *Term, e *Term) []*Term {
			res := []*Term{n}
			for i := 1; i < tt.Len()-1; i++ {
				res = append(res, tNil)
			}
			return append(res, e)
		}
		for _, o := range x.errno(st, a.p, c.name) {
			if o.st.slot("errno") == "hard" {
				o.st.setSlot("end", "a read error")
			}
			out = append(out, Outcome{o.st, pad(mkInt(-1), o.res[0])})
		}
		s0 := st.clone()
		s0.setSlot("end", "the end of the stream")
		s0.setSlot("errno", "")
		out = append(out, Outcome{s0, pad(tZero, tNil)})
		b, _, ln := x.sliceParts(c.args[1])
		st.havocObject(b, mk("site", x.siteName(st, "read")))
		n := x.fresh(st, "nread", intType)
		st.assumeGE(n, tOne)
		st.setSlot("errno", "")
		if st.assumeGE(ln, n) {
			out = append(out, Outcome{st, pad(n, tNil)})
		}
		return out, true
	case "syscall.Write", "syscall.Sendto":
		return a.write(x, st, c, in), true
	}
	if c.fn != nil && c.fn.Pkg != nil && c.fn.Pkg.Pkg.Path() == modPath+"/ae" {
		return x.freshResults(st, c), true
	}
	return nil, false
}

func regName(k int64) string {
	if k == 1 {
		return "reg1"
	}
	return "reg2"
}

func (a *connAn) replyList(st *State) *Term {
	if a.root.data == nil || !isClientT(a.root.data) {
		return nil
	}
	return st.load(fldOf("server.Client.replayHead", a.p.fieldType("server", "Client", "replayHead"), a.env.client), a.p.fieldType("server", "Client", "replayHead"))
}

func (a *connAn) use(x *Exec, st *State, fd *Term, what string, in ssa.Instruction) {
	a.ob(x, "C25.useafter", in)
	if st.hasFact("closed", fd) {
		a.viol(x, st, "C25.useafter", in, pathFn(st), "%s on descriptor %v after it has been closed", what, fd)
	}
}

func (a *connAn) addFE(x *Exec, st *State, c *Call, in ssa.Instruction) []Outcome {
	fd := c.args[1]
	a.use(x, st, fd, "registration", in)
	a.ob(x, "C26.nonblock", in)
	if st.hasFact("fresh", fd) && !st.hasFact("nonblock", fd) {
		a.viol(x, st, "C26.nonblock", in, pathFn(st), "descriptor %v is registered for polling without having been made non-blocking", fd)
	}
	if d := c.args[4]; d.op == "iface" && d.aux == "*server.Client" {
		a.ob(x, "C25.samefd", in)
		cf := st.load(fldOf("server.Client.fd", a.p.fieldType("server", "Client", "fd"), d.args[0]), a.p.fieldType("server", "Client", "fd"))
		if !st.provesEqInt(cf, fd) {
			a.viol(x, st, "C25.samefd", in, pathFn(st), "a handler is registered for descriptor %v with a client whose descriptor is %v", fd, cf)
		}
	}
	s2 := st.clone()
	if k, ok := c.args[2].intVal(); ok {
		st.setFact(regName(k), true, fd)
	} else {
		st.setFact("reg1", true, fd)
	}
	e := x.fresh(s2, "err:add", nil)
	s2.assume(mkCmp("eq", e, tNil), false)
	s2.note("%s: the registration fails", x.p.pos(in.Pos()))
	return []Outcome{{st, []*Term{tNil}}, {s2, []*Term{e}}}
}

// write models a send; the reply rules follow the position in the first reply.
func (a *connAn) write(x *Exec, st *State, c *Call, in ssa.Instruction) []Outcome {
	fd := c.args[0]
	a.use(x, st, fd, "write", in)
	_, off, ln := x.sliceParts(c.args[1])
	base, _, _ := x.sliceParts(c.args[1])
	l := a.replyList(st)
	if l != nil {
		a.ob(x, "C27.position", in)
		pos := st.ghost("pos")
		if !st.provesEqInt(off, pos) {
			a.viol(x, st, "C27.position", in, pathFn(st), "sending resumes at byte %v of a reply of which %v bytes have been sent", off, pos)
		}
		a.ob(x, "C27.front", in)
		if w := a.frontBytes(x, st, l, base); w != "" {
			a.viol(x, st, "C27.front", in, pathFn(st), "%s", w)
		}
		a.checkPos(x, st, in)
	}
	var out []Outcome
	for _, o := range x.errno(st, a.p, c.name) {
		if o.st.slot("errno") == "hard" {
			o.st.setSlot("end", "a write error")
		}
		out = append(out, Outcome{o.st, []*Term{mkInt(-1), o.res[0]}})
	}
	n := x.fresh(st, "nwritten", intType)
	st.assumeGE(n, tZero)
	if st.assumeGE(ln, n) {
		if l != nil {
			st.setGhost("pos", tAdd(st.ghost("pos"), n))
		}
		st.setSlot("errno", "")
		out = append(out, Outcome{st, []*Term{n, tNil}})
	}
	return out
}

// frontBytes: the backing array is the text of the first queued reply.
func (a *connAn) frontBytes(x *Exec, st *State, l, base *Term) string {
	v := a.frontValue(x, st, l)
	t := base
	for t != nil && (t.op == "bytes" || t.op == "arr" || t.op == "iface" || t.op == "app" && strings.HasPrefix(t.aux, "unbox:")) {
		if len(t.args) == 0 {
			break
		}
		t = t.args[0]
	}
	w := v
	for w.op == "iface" {
		w = w.args[0]
	}
	if t == w {
		return ""
	}
	return "the bytes sent (" + base.String() + ") are not those of the first queued reply (" + v.String() + ")"
}

func (a *connAn) frontValue(x *Exec, st *State, l *Term) *Term {
	args := []*Term{l}
	if g := st.mem[mk("gen", "list", l)]; g != nil {
		args = append(args, g)
	}
	e := mkFull("app", "list.front", nil, nil, nil, args...)
	for k, v := range st.mem {
		if k.op == "fld" && k.aux == "list.front" && k.args[0] == l {
			e = v
		}
	}
	vt := types.NewInterfaceType(nil, nil)
	return st.load(mkFull("fld", "container/list.Element.Value", vt, nil, nil, e), vt)
}

func (a *connAn) isFront(st *State, l, e *Term) bool {
	for k, v := range st.mem {
		if k.op == "fld" && k.aux == "list.front" && k.args[0] == l {
			return v == e || st.equalTerms(v, e)
		}
	}
	return false
}

// checkPos: the position remembered in the client is the number of bytes sent of the first reply.
func (a *connAn) checkPos(x *Exec, st *State, in ssa.Instruction) {
	sl := st.load(fldOf("server.Client.sentLen", intType, a.env.client), intType)
	a.ob(x, "C27.remember", in)
	if !st.provesEqInt(sl, st.ghost("pos")) {
		a.viol(x, st, "C27.remember", in, pathFn(st), "the client remembers %v as the bytes sent of the first reply, %v have been sent", sl, st.ghost("pos"))
	}
}

func (a *connAn) listRemove(x *Exec, st *State, l, e *Term, c *Call) {
	rl := a.replyList(st)
	if rl == nil || !st.equalTerms(l, rl) {
		return
	}
	in := c.instr.(ssa.Instruction)
	a.ob(x, "C27.complete", in)
	if !a.isFront(st, l, e) {
		a.viol(x, st, "C27.complete", in, pathFn(st), "a reply other than the first is removed from the queue")
	}
	vt := types.NewInterfaceType(nil, nil)
	v := st.load(mkFull("fld", "container/list.Element.Value", vt, nil, nil, e), vt)
	s := v
	if s.op != "iface" {
		s = mkFull("app", "unbox:string", types.Typ[types.String], nil, nil, v)
	} else {
		s = s.args[0]
	}
	if !st.provesEqInt(st.ghost("pos"), lenOf(s)) {
		a.viol(x, st, "C27.complete", in, pathFn(st), "a reply is removed from the queue when %v of its %v bytes have been sent", st.ghost("pos"), lenOf(s))
	}
	st.setGhost("pos", tZero)
}

func (a *connAn) ret(x *Exec, st *State, res []*Term) {
	fn := st.top().fn
	in := fn.Blocks[0].Instrs[0]
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			in = r
		}
	}
	name := fnName(fn)
	// new descriptors
	for f, v := range st.bools {
		if !v || f.op != "app" || f.aux != "@fresh" {
			continue
		}
		fd := f.args[0]
		a.ob(x, "C25.leak", in)
		closed := st.hasFact("closed", fd)
		if a.kind == "setup" {
			ok := len(res) > 0 && st.evalNil(res[len(res)-1]) == 1
			if ok && !st.equalTerms(res[0], fd) && !closed {
				a.viol(x, st, "C25.leak", in, name, "descriptor %v is neither returned nor closed", fd)
			}
			if ok && closed {
				a.viol(x, st, "C25.leak", in, name, "a closed descriptor is returned")
			}
			if !ok && !closed {
				a.viol(x, st, "C25.leak", in, name, "descriptor %v stays open although the set-up fails", fd)
			}
			continue
		}
		reg := st.hasFact("reg1", fd)
		if !closed && !reg {
			a.viol(x, st, "C25.leak", in, name, "descriptor %v is neither registered nor closed", fd)
		}
		if !closed && reg && !st.hasFact("inmap", fd) {
			a.viol(x, st, "C25.bookkeeping", in, name, "the connection on descriptor %v is registered, but not entered in the table of clients", fd)
		}
		if closed && st.hasFact("inmap", fd) {
			a.viol(x, st, "C25.bookkeeping", in, name, "the connection on descriptor %v is closed, but stays in the table of clients", fd)
		}
	}
	if a.root.data == nil || !isClientT(a.root.data) {
		return
	}
	fd := a.env.fd
	closed := st.hasFact("closed", fd)
	if why := st.slot("end"); why != "" {
		a.ob(x, "C25.teardown", in)
		if !closed {
			a.viol(x, st, "C25.teardown", in, name, "after %s the connection is not released", why)
		}
	}
	if closed {
		a.ob(x, "C25.bookkeeping", in)
		if st.hasFact("inmap", fd) {
			a.viol(x, st, "C25.bookkeeping", in, name, "the connection is closed, but stays in the table of clients")
		}
		if st.slot("errno") == "transient" {
			for _, p := range []string{"C27", "C02"} {
				a.viol(x, st, p+".transient", in, name, "the connection is closed because the kernel could not take or give data at the moment")
			}
		}
		return
	}
	l := a.replyList(st)
	if l != nil && a.p.reaches(fn, "syscall.Write") {
		a.checkPos(x, st, in)
		a.ob(x, "C27.idle", in)
		if st.slot("unregW") == "" && !st.provesGE(x.listLenVal(st, l), tOne) {
			a.viol(x, st, "C27.idle", in, name, "all replies may have been sent, but the connection stays registered for writing: the next reply cannot be registered")
		}
	}
}
