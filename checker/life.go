package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The life of the server: what happens between the start of the process and the first event, and from a stop request
// to the end. The function that runs the server is explored with the replay of the log and the event loop as events.

// loopFns: the functions of the event-loop package that wait for events.
func (p *Prog) pollsIn(f *ssa.Function) bool { return p.reaches(f, "syscall.EpollWait") }

func pkgName(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name()
	}
	return ""
}

// runRoots: the outermost functions of the server package that run the event loop.
func (p *Prog) runRoots() (out []*ssa.Function) {
	hit := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if pkgName(f) == "server" && f.Parent() == nil && p.pollsIn(f) {
			hit[f] = true
		}
	}
	for f := range hit {
		outer := true
		for g := range hit {
			if g != f && p.reach([]*ssa.Function{g}, nil)[f] && !p.reach([]*ssa.Function{f}, nil)[g] {
				outer = false
			}
		}
		if outer {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// stopCell: the boolean the loop tests: the field of EventLoop that something other than the loop sets to true.
func (p *Prog) loopStopField() string {
	for _, f := range p.funcs {
		if pkgName(f) != "ae" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					n := fieldName(s.Addr)
					if c, isC := s.Val.(*ssa.Const); isC && strings.HasPrefix(n, "ae.EventLoop.") && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) {
						return n
					}
				}
			}
		}
	}
	return ""
}

// setsField: the function stores true to the field (or to an atomic value in it).
func (p *Prog) setsTrue(f *ssa.Function, field string) bool {
	for g := range p.reach([]*ssa.Function{f}, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && fieldName(s.Addr) == field {
					return true
				}
			}
		}
	}
	return false
}

// stopRequest: the fields of the server record by which another goroutine asks for the end.
func (p *Prog) stopFields() []string {
	seen := map[string]bool{}
	for _, f := range p.stopFns() {
		for g := range p.reach([]*ssa.Function{f}, nil) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						if n := fieldName(in.Addr); strings.HasPrefix(n, "server.Server.") {
							seen[n] = true
						}
					case ssa.CallInstruction:
						cc := in.Common()
						if cal := cc.StaticCallee(); cal != nil && strings.HasPrefix(fnName(cal), "(*sync/atomic.") && len(cc.Args) > 0 {
							if n := fieldName(cc.Args[0]); strings.HasPrefix(n, "server.Server.") {
								seen[n] = true
							}
						}
					}
				}
			}
		}
	}
	var out []string
	for n := range seen {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// stopFns: the functions of the server package that the goroutine that started the server calls afterwards.
func (p *Prog) stopFns() (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	for _, m := range p.besideFns() {
		for g := range p.reach([]*ssa.Function{m}, nil) {
			if pkgName(g) == "server" && !p.pollsIn(g) && !seen[g] && g.Signature.Recv() != nil {
				seen[g] = true
			}
		}
	}
	// only those that do not take part in the start
	for g := range seen {
		if !p.startsUp(g) {
			out = append(out, g)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// startsUp: the function is used to set up the server.
func (p *Prog) startsUp(g *ssa.Function) bool {
	for _, f := range p.funcs {
		if pkgName(f) == "server" && f.Signature.Results().Len() > 0 && shortType(f.Signature.Results().At(0).Type()) == "*server.Server" && p.reach([]*ssa.Function{f}, nil)[g] {
			return true
		}
	}
	for _, f := range p.runRoots() {
		if p.reach([]*ssa.Function{f}, nil)[g] {
			return true
		}
	}
	return false
}

// besideFns: the functions that start the server on a goroutine of its own and go on.
func (p *Prog) besideFns() (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	for t, gs := range p.goTargets() {
		if !p.pollsIn(t) {
			continue
		}
		for _, g := range gs {
			f := g.Parent()
			if !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	// helpers that only start it
	for changed := true; changed; {
		changed = false
		for i, f := range out {
			if pkgName(f) != "cmd" && pkgName(f) != "main" {
				continue
			}
			if f.Parent() == nil && !p.receives(f) {
				if cs := p.callSites(f); len(cs) == 1 && pkgName(cs[0].Parent()) == pkgName(f) {
					out[i] = cs[0].Parent()
					changed = true
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// receives: the function itself, or what it calls, waits for a channel.
func (p *Prog) receives(f *ssa.Function) bool {
	for g := range p.reach([]*ssa.Function{f}, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if chanOp(in) == "receive" || chanOp(in) == "select" {
					return true
				}
			}
		}
	}
	return false
}

// doneFields: the channels of the server record that the goroutine that started the server waits on.
func (p *Prog) doneFields() map[string]bool {
	out := map[string]bool{}
	for _, m := range p.besideFns() {
		for g := range p.reach([]*ssa.Function{m}, nil) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
						if l, ok := u.X.(*ssa.UnOp); ok && l.Op == token.MUL {
							if n := fieldName(l.X); strings.HasPrefix(n, "server.Server.") {
								out[n] = true
							}
						}
					}
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- Run

func (a *fileAn) runCall(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	pos := c.instr.Pos()
	if c.isGo || c.fn == nil {
		return nil, false
	}
	if a.loaders[c.fn] {
		return a.runLoad(x, st, c), true
	}
	if pkgName(c.fn) == "ae" {
		if a.p.pollsIn(c.fn) {
			return a.runMain(x, st, c), true
		}
		for i := 0; i < c.sig.Params().Len(); i++ {
			if shortType(c.sig.Params().At(i).Type()) == "ae.TimeProc" {
				periodic := false
				var proc *ssa.Function
				for j, t := range c.args {
					if t.op == "func" || t.op == "closure" {
						proc, _ = t.obj.(*ssa.Function)
					}
					if j < len(c.fn.Params) && shortType(c.fn.Params[j].Type()) == "ae.TypeTimeEvent" {
						if k, ok := t.intVal(); ok && k == a.normal {
							periodic = true
						}
					}
				}
				a.ob(x, "C40.timer", pos)
				return a.fork(x, st, c, func(s *State) []*Term {
					if periodic && proc != nil && a.stoppers[proc] {
						s.setSlot("timer", "1")
					}
					return make0(x, s, c)
				}, func(s *State) []*Term { return make0(x, s, c) }), true
			}
			if shortType(c.sig.Params().At(i).Type()) == "ae.BeforeSleepProc" {
				for _, t := range c.args {
					if t.op == "func" || t.op == "closure" {
						if f, _ := t.obj.(*ssa.Function); f != nil && a.stoppers[f] {
							st.setSlot("timer", "1")
						}
					}
				}
			}
		}
		return x.freshResults(st, c), true
	}
	if a.p.reaches(c.fn, "syscall.Close") && pkgName(c.fn) == "socket" {
		a.closeEvent(x, st, pos)
		return x.freshResults(st, c), true
	}
	return nil, false
}

// setsUp: the function registers timers.
func (p *Prog) setsUp(f *ssa.Function) bool {
	for g := range p.reach([]*ssa.Function{f}, nil) {
		if pkgName(g) != "ae" {
			continue
		}
		for _, pr := range g.Params {
			if t := shortType(pr.Type()); t == "ae.TimeProc" || t == "ae.BeforeSleepProc" {
				return true
			}
		}
	}
	return false
}

// loaderMarks: the loader itself marks the server as replaying.
func (a *fileAn) loaderMarks(f *ssa.Function) bool {
	proc, lookup, _ := a.p.dispatchFns()
	l := &loadAn{p: a.p, root: f, proc: proc, lookup: lookup}
	return contains(l.loadingFields(), "loading")
}

// make0: fresh values for the results before the error.
func make0(x *Exec, st *State, c *Call) (out []*Term) {
	for i := 0; i < c.sig.Results().Len()-1; i++ {
		out = append(out, x.fresh(st, "r", c.sig.Results().At(i).Type()))
	}
	return
}

func (a *fileAn) closeEvent(x *Exec, st *State, pos token.Pos) {
	a.ob(x, "C40.close", pos)
	if st.slot("main") == "" {
		st.setSlot("early", "1")
	}
	if st.slot("done") != "" {
		a.viol(x, st, "C40.done", pos, "the server is reported as stopped before this is done")
	}
}

func (a *fileAn) runLoad(x *Exec, st *State, c *Call) []Outcome {
	pos := c.instr.Pos()
	a.ob(x, "C37.load", pos)
	if st.slot("main") != "" {
		a.viol(x, st, "C37.load", pos, "the log is replayed after clients have been served")
	}
	if st.slot("loaded") != "" {
		a.viol(x, st, "C37.load", pos, "the log is replayed twice")
	}
	marked := a.p.fieldType("server", "Server", "loading") != nil && !a.loaderMarks(c.fn)
	if marked {
		a.ob(x, "C37.loading", pos)
		if st.eval(a.field(st, "loading")) != 1 {
			a.viol(x, st, "C37.loading", pos, "the log is replayed while the server is not marked as replaying it: keys may expire in the middle of the replay")
		}
	}
	outs := x.freshResults(st, c)
	for _, o := range outs {
		o.st.setSlot("loaded", "1")
		if marked {
			o.st.mem[a.addr("loading")] = a.field(st, "loading")
		}
		if n := len(o.res); n > 0 && o.res[n-1] != tNil && isErrorType(c.sig.Results().At(n-1).Type()) {
			o.st.setSlot("loaded", "failed")
		}
		// replaying changes the data set, not the log
		for _, f := range []string{"aofFile", "aofEnable", "aofFilename"} {
			cell := a.addr(f)
			o.st.mem[cell] = a.field(st, f)
		}
	}
	return outs
}

func (a *fileAn) runMain(x *Exec, st *State, c *Call) []Outcome {
	pos := c.instr.Pos()
	a.ob(x, "C37.load", pos)
	enabled := st.eval(a.field(st, "aofEnable"))
	noFile := st.evalNil(a.field(st, "aofFile")) == 1
	switch {
	case st.slot("loaded") == "failed":
		a.viol(x, st, "C37.load", pos, "clients are served although the log could not be replayed")
	case st.slot("loaded") == "" && enabled != 0 && !noFile:
		a.viol(x, st, "C37.load", pos, "clients are served on a path on which the log has not been replayed (or not yet)")
	}
	if a.p.fieldType("server", "Server", "loading") != nil && st.eval(a.field(st, "loading")) == 1 {
		a.viol(x, st, "C37.loading", pos, "the server is still marked as replaying its log when clients are served: what expires from now on is not recorded")
	}
	a.ob(x, "C40.timer", pos)
	if st.slot("timer") == "" {
		a.viol(x, st, "C40.timer", pos, "clients are served without a periodic timer that ends the loop on request: a stop request is never seen")
	}
	a.ob(x, "C40.close", pos)
	if st.slot("early") != "" {
		a.viol(x, st, "C40.close", pos, "clients are served after the log or a descriptor has been closed")
	}
	if st.slot("main") != "" {
		a.viol(x, st, "C40.close", pos, "the event loop is run twice")
	}
	outs := x.freshResults(st, c)
	for _, o := range outs {
		s := o.st
		s.setSlot("main", "1")
		s.note("%s: the event loop has ended", x.p.pos(pos))
		f := x.fresh(s, "logfile", a.p.fieldType("server", "Server", "aofFile"))
		buf := x.fresh(s, "pending", stringType)
		en := a.field(s, "aofEnable")
		if s.eval(en) == 0 {
			f, buf = tNil, mkStr("") // rules C13 and C24: nothing is recorded without a log
		} else {
			s.assume(mkCmp("eq", f, tNil), false)
			for _, n := range []string{"failed", "closed", "syncfail"} {
				fset(s, f, n, boolType, tFalse)
			}
			fset(s, f, "out", stringType, mkStr(""))
			fset(s, f, "append", boolType, tTrue)
			fset(s, f, "name", stringType, a.field(s, "aofFilename"))
		}
		s.slots["g:log"] = f
		s.slots["g:buf0"] = buf
		delete(s.slots, "g:fed")
		s.mem[a.addr("aofFile")] = f
		s.mem[sbCell(a.addr("aofBuf"))] = buf
		rw := x.fresh(s, "rewritebuf", stringType)
		s.mem[sbCell(a.addr("aofRewriteBuf"))] = rw
		if cell, t := a.stateCell(); cell != nil {
			s.mem[cell] = x.fresh(s, "task", t)
		}
	}
	return outs
}

// logFlushed: what has been executed is in the log.
func (a *fileAn) logFlushed(x *Exec, st *State, pos token.Pos, when string) {
	f := st.slots["g:log"]
	if f == nil || f == tNil {
		return
	}
	old := a.file0
	a.file0 = f
	a.flushed(x, st, pos, "C40.flush", when)
	a.file0 = old
}

func (a *fileAn) runRet(x *Exec, st *State, res []*Term) {
	pos := st.top().fn.Pos()
	a.ob(x, "C40.done", pos)
	if len(a.done) > 0 && st.slot("done") != "x" {
		a.viol(x, st, "C40.done", pos, "the server returns without telling who waits for it")
	}
	if st.slot("main") != "" {
		a.logFlushed(x, st, pos, "the server ends")
	}
}

// closeChan: builtin close on a channel.
func (a *fileAn) closeChan(x *Exec, st *State, c *Call) []Outcome {
	pos := c.instr.Pos()
	ch := c.args[0]
	for n := range a.done {
		short := strings.TrimPrefix(n, "server.Server.")
		if !st.equalTerms(ch, a.field(st, short)) {
			continue
		}
		a.ob(x, "C40.done", pos)
		if st.slot("done") != "" {
			a.viol(x, st, "C40.done", pos, "the channel that tells that the server has stopped is closed twice")
		}
		st.setSlot("done", "x")
		if st.slot("main") != "" {
			a.logFlushed(x, st, pos, "the server is reported as stopped")
		}
		return one(st)
	}
	return one(st)
}

func exploreRun(p *Prog, r *Report, prop string) {
	roots := p.runRoots()
	if len(roots) == 0 {
		r.fail("undecided", "server", "-", "no function that runs the event loop is found")
		return
	}
	for _, n := range []string{"aofFile", "aofFilename", "aofBuf", "aofRewriteBuf", "aofEnable"} {
		if p.fieldType("server", "Server", n) == nil {
			r.fail("undecided", "server.Server", "-", "the field %s is not found", n)
			return
		}
	}
	done := p.doneFields()
	loaders := map[*ssa.Function]bool{}
	for _, f := range p.loaderFns() {
		loaders[f] = true
	}
	if len(loaders) == 0 {
		r.fail("undecided", "log loader", "-", "the function that replays the log is not found")
	}
	stoppers := p.loopStoppers(r, prop)
	for _, f := range roots {
		a := &fileAn{p: p, r: r, prop: prop, kind: "run", state0: -1, times: map[string]bool{}, relevant: map[*ssa.Function]bool{},
			loaders: loaders, done: done, stoppers: stoppers, normal: p.constVal("ae", "TypeTimeEvent", "TypeTimeEventNormal", 0)}
		h := a.hooks()
		h.Go = nil
		h.Call = func(x *Exec, st *State, c *Call) ([]Outcome, bool) {
			if c.name == "builtin.close" {
				return a.closeChan(x, st, c), true
			}
			if c.name == "syscall.Close" {
				a.closeEvent(x, st, c.instr.Pos())
			}
			if c.name == "os.Exit" && st.slot("main") == "" {
				return nil, true
			}
			if c.name == "(*os.File).Close" && st.slots["g:log"] != nil && st.equalTerms(c.args[0], st.slots["g:log"]) {
				if st.slot("done") != "" {
					a.viol(x, st, "C40.done", c.instr.Pos(), "the server is reported as stopped before the log is closed")
				}
				a.ob(x, "C40.flush", c.instr.Pos())
				a.logFlushed(x, st, c.instr.Pos(), "the log file is closed")
				return x.freshResults(st, c), true
			}
			return a.call(x, st, c)
		}
		h.Panic = func(x *Exec, st *State, what string, in ssa.Instruction) {
			if st.slot("main") == "" || st.slot("done") != "" {
				return
			}
			if a.runFails(st) {
				return
			}
			a.viol(x, st, "C40.panic", in.Pos(), "the server panics when it stops although nothing has failed")
		}
		x := newExec(p, r, h)
		x.joinHeads = true
		x.entry = fnName(f)
		st := newState()
		e := newCbEnv(p, st)
		args, free := e.args(st, cbRoot{fn: f})
		a.srv = e.srv
		a.file0 = a.field(st, "aofFile")
		fset(st, a.file0, "out", stringType, mkStr(""))
		a.buf0, a.rw0 = mkStr(""), mkStr("")
		st.mem[sbCell(a.addr("aofBuf"))], st.mem[sbCell(a.addr("aofRewriteBuf"))] = a.buf0, a.rw0
		st.slots["g:buf0"], st.slots["g:rw0"] = a.buf0, a.rw0
		if p.fieldType("server", "Server", "loading") != nil {
			st.mem[a.addr("loading")] = tFalse
		}
		// the constructor opens the log exactly if it is enabled (rule C37.open)
		s2 := st.clone()
		if st.assume(a.field(st, "aofEnable"), true) && st.assume(mkCmp("eq", a.file0, tNil), false) {
			x.Run(f, st, args, free)
		}
		if s2.assume(a.field(s2, "aofEnable"), false) && s2.assume(mkCmp("eq", a.file0, tNil), true) {
			x.Run(f, s2, args, free)
		}
		r.use(x)
	}
}

// runFails: something has failed on the path.
func (a *fileAn) runFails(st *State) bool {
	for b, v := range st.bools {
		if !v && b.op == "cmp" && b.aux == "eq" && strings.Contains(b.String(), "err:") {
			return true
		}
	}
	for c, v := range st.mem {
		if c.op == "fld" && (c.aux == "file.failed" || c.aux == "file.syncfail") && v == tTrue {
			return true
		}
	}
	return false
}

func (p *Prog) constVal(pkg, typ, name string, def int64) int64 {
	if nt := p.namedType(pkg, typ); nt != nil {
		if c, ok := nt.Obj().Pkg().Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constant.Int64Val(c.Val()); ok {
				return v
			}
		}
	}
	return def
}

// loopStoppers: the callbacks that, when a stop has been requested, end the loop on every path.
func (p *Prog) loopStoppers(r *Report, prop string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	stop := p.loopStopField()
	req := p.stopFields()
	if stop == "" {
		r.fail("undecided", "ae.EventLoop", "-", "the field that ends the event loop is not found")
		return out
	}
	if len(req) == 0 {
		if prop == "C40" {
			r.fail("undecided", "server", "-", "it is not found how a stop is requested")
		}
		return out
	}
	for _, c := range p.callbacks() {
		if c.kind == "file" || !p.setsTrue(c.fn, stop) {
			continue
		}
		missed := newReport(prop)
		n := 0
		a := &fileAn{p: p, r: missed, prop: prop, kind: "stop", state0: -1, times: map[string]bool{}, relevant: map[*ssa.Function]bool{}}
		h := &Hooks{}
		h.Call = func(x *Exec, st *State, c *Call) ([]Outcome, bool) {
			if c.fn != nil && inRepo(c.fn) && c.fn.Blocks != nil && !p.setsTrue(c.fn, stop) {
				rel := false
				for g := range p.reach([]*ssa.Function{c.fn}, nil) {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							for _, op := range in.Operands(nil) {
								if *op != nil && contains(req, fieldName(*op)) {
									rel = true
								}
							}
						}
					}
				}
				if !rel {
					return x.freshResults(st, c), true
				}
			}
			if c.fn != nil && !inRepo(c.fn) && findModel(c) == nil && !strings.HasPrefix(c.name, "(*sync/atomic.") {
				return x.freshResults(st, c), true
			}
			return nil, false
		}
		h.Atomic = func(x *Exec, st *State, op string, c *Call) []Outcome {
			if op == "Load" && len(c.args) > 0 && c.args[0].op == "fld" && contains(req, c.args[0].aux) {
				return one(st, tTrue)
			}
			return nil
		}
		h.Load = func(x *Exec, st *State, addr *Term, typ types.Type) *Term {
			if addr.op == "fld" && contains(req, addr.aux) && types.Identical(typ.Underlying(), boolType) {
				return tTrue
			}
			return nil
		}
		h.Store = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == "fld" && addr.aux == stop && st.eval(val) == 1 {
				st.setSlot("stopped", "1")
			} else if addr.op == "fld" && addr.aux == stop {
				st.setSlot("stopped", "")
			}
		}
		h.Return = func(x *Exec, st *State, res []*Term) {
			n++
			if st.slot("stopped") == "" {
				x.violate(st, "C40.request", pathFn(st), c.fn.Pos(), "the callback returns without ending the loop although a stop has been requested")
			}
		}
		x := newExec(p, missed, h)
		x.joinHeads = true
		x.entry = fnName(c.fn)
		st := newState()
		e := newCbEnv(p, st)
		a.srv = e.srv
		args, free := e.args(st, c)
		x.Run(c.fn, st, args, free)
		missed.use(x)
		r.oblig("C40.request", x.entry)
		if len(missed.violations) == 0 && n > 0 {
			out[c.fn] = true
		} else if prop == "C40" {
			r.addAll(missed.violations)
		}
	}
	if len(out) == 0 && prop == "C40" {
		r.fail("C40.request", "callbacks", "-", "no callback ends the event loop when a stop has been requested")
	}
	return out
}

func contains(l []string, s string) bool {
	for _, v := range l {
		if v == s && s != "" {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- the loop

// exploreStopLoop: the loop ends when a handler or timer has asked for it, before it waits again.
func exploreStopLoop(p *Prog, r *Report) {
	stop := p.loopStopField()
	if stop == "" {
		r.fail("undecided", "ae.EventLoop", "-", "the field that ends the event loop is not found")
		return
	}
	// a function that waits and is not called by another one of the package that waits
	for _, f := range p.funcs {
		if pkgName(f) != "ae" || !p.pollsIn(f) || f.Parent() != nil {
			continue
		}
		inner := false
		for _, c := range p.callSites(f) {
			if pkgName(c.Parent()) == "ae" && c.Parent() != f {
				inner = true
			}
		}
		if inner {
			continue
		}
		handlers := func(g *ssa.Function) bool {
			for h := range p.reach([]*ssa.Function{g}, nil) {
				if pkgName(h) != "ae" {
					continue
				}
				for _, b := range h.Blocks {
					for _, in := range b.Instrs {
						if isHandlerCall(in) {
							return true
						}
					}
				}
			}
			return false
		}
		h := &Hooks{}
		ask := func(x *Exec, st *State, c *Call) []Outcome {
			s2 := st.clone()
			e := x.freshResults(st, c)
			s2.setSlot("asked", "1")
			s2.note("%s: a handler ends the loop", p.pos(c.instr.Pos()))
			e2 := x.freshResults(s2, c)
			for _, o := range e2 {
				o.st.mem[fldOf(stop, boolType, o.st.slots["g:el"])] = tTrue
			}
			return append(e, e2...)
		}
		h.Call = func(x *Exec, st *State, c *Call) ([]Outcome, bool) {
			if isHandlerCall(c.instr) {
				if shortType(c.instr.Common().Value.Type()) == "ae.BeforeSleepProc" {
					return x.freshResults(st, c), true
				}
				return ask(x, st, c), true
			}
			if c.name == "syscall.EpollWait" || c.fn != nil && inRepo(c.fn) && p.pollsIn(c.fn) && !handlers(c.fn) {
				r.oblig("C40.loop", p.pos(c.instr.Pos()))
				if st.slot("asked") != "" {
					x.violate(st, "C40.loop", pathFn(st), c.instr.Pos(), "the loop waits for further events although it has been asked to end")
				}
				return x.freshResults(st, c), true
			}
			if c.fn != nil && inRepo(c.fn) && c.fn.Blocks != nil {
				if handlers(c.fn) && !p.pollsIn(c.fn) {
					return ask(x, st, c), true
				}
				if p.pollsIn(c.fn) {
					return nil, false
				}
				if pkgName(c.fn) == "ae" && (p.setsTrue(c.fn, stop) || p.loads(c.fn, stop)) {
					return nil, false
				}
				return x.freshResults(st, c), true
			}
			if c.fn != nil && findModel(c) == nil {
				return x.freshResults(st, c), true
			}
			return nil, false
		}
		x := newExec(p, r, h)
		x.joinHeads = true
		x.entry = fnName(f)
		st := newState()
		e := newCbEnv(p, st)
		st.slots["g:el"] = e.el
		args, free := e.args(st, cbRoot{fn: f})
		x.Run(f, st, args, free)
		r.use(x)
	}
}

func (p *Prog) loads(f *ssa.Function, field string) bool {
	for g := range p.reach([]*ssa.Function{f}, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && fieldName(u.X) == field {
					return true
				}
			}
		}
	}
	return false
}

// isHandlerCall: a call of a registered function.
func isHandlerCall(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || ci.Common().StaticCallee() != nil || ci.Common().IsInvoke() {
		return false
	}
	switch shortType(ci.Common().Value.Type()) {
	case "ae.FileProc", "ae.TimeProc", "ae.BeforeSleepProc":
		return true
	}
	return false
}

// ---------------------------------------------------------------- start and stop of the process

// exploreBeside explores the function that starts the server: set-up, start, stop.
func exploreBeside(p *Prog, r *Report, prop string) {
	roots := p.besideFns()
	if len(roots) == 0 {
		r.fail("undecided", "start", "-", "the function that starts the server on its own goroutine is not found")
		return
	}
	done := p.doneFields()
	req := p.stopFields()
	inits := p.loggerInits()
	viol := func(x *Exec, st *State, rule string, pos token.Pos, format string, a ...any) {
		if strings.HasPrefix(rule, prop+".") {
			x.violate(st, rule, pathFn(st), pos, format, a...)
		}
	}
	ob := func(rule string, pos token.Pos) {
		if strings.HasPrefix(rule, prop+".") {
			r.oblig(rule, p.pos(pos))
		}
	}
	for _, f := range roots {
		h := &Hooks{}
		needLog := func(x *Exec, st *State, pos token.Pos, what string) {
			ob("C37.logger", pos)
			if st.slot("logger") == "" {
				viol(x, st, "C37.logger", pos, "%s before logging has been set up: the first message crashes the server", what)
			}
		}
		closing := func(x *Exec, st *State, pos token.Pos, what string) {
			if st.slot("running") == "" {
				return
			}
			ob("C40.beside", pos)
			if st.slot("waited") == "" {
				viol(x, st, "C40.beside", pos, "%s while the event loop may still be running", what)
			}
		}
		h.Call = func(x *Exec, st *State, c *Call) ([]Outcome, bool) {
			pos := c.instr.Pos()
			switch {
			case c.name == "os.Exit" || strings.HasPrefix(c.name, "syscall.Exit"):
				closing(x, st, pos, "the process ends")
				return nil, true
			case c.name == "syscall.Close" || c.name == "(*os.File).Close" || c.name == "syscall.Kill":
				closing(x, st, pos, "a file or descriptor is closed")
				return x.freshResults(st, c), true
			case c.name == "builtin.close":
				closing(x, st, pos, "a channel is closed")
				return one(st), true
			case strings.HasPrefix(c.name, "var log."):
				needLog(x, st, pos, "a message is logged")
				if strings.HasSuffix(c.name, ".Fatal") || strings.HasSuffix(c.name, ".Panic") {
					closing(x, st, pos, "the process ends")
					return nil, true
				}
				return x.freshResults(st, c), true
			case c.isGo:
				return nil, false
			case c.fn != nil && inits[c.fn]:
				st.setSlot("logger", "1")
				return x.freshResults(st, c), true
			}
			if c.fn != nil && inRepo(c.fn) && c.fn.Blocks != nil {
				switch pkgName(c.fn) {
				case "server":
					if p.startsUp(c.fn) || p.pollsIn(c.fn) || c.fn.Signature.Results().Len() > 0 && shortType(c.fn.Signature.Results().At(0).Type()) == "*server.Server" {
						needLog(x, st, pos, "the server is set up")
						outs := x.freshResults(st, c)
						for _, o := range outs {
							if len(o.res) > 0 {
								if _, isPtr := c.sig.Results().At(0).Type().(*types.Pointer); isPtr {
									o.st.assume(mkCmp("eq", o.res[0], tNil), false)
								}
							}
						}
						return outs, true
					}
					return nil, false
				case "cmd", "main":
					return nil, false
				}
				return x.freshResults(st, c), true
			}
			if c.fn != nil && findModel(c) == nil && !strings.HasPrefix(c.name, "(*sync/atomic.") {
				return x.freshResults(st, c), true
			}
			return nil, false
		}
		h.Go = func(x *Exec, st *State, c *Call) {
			if c.fn != nil && p.pollsIn(c.fn) {
				needLog(x, st, c.instr.Pos(), "the server is started")
				ob("C40.wait", c.instr.Pos())
				st.setSlot("running", "1")
			}
		}
		asks := func(st *State) { st.setSlot("asked", "1") }
		h.Atomic = func(x *Exec, st *State, op string, c *Call) []Outcome {
			if len(c.args) > 1 && c.args[0].op == "fld" && contains(req, c.args[0].aux) && (op == "Store" || op == "Swap") && st.eval(c.args[1]) == 1 {
				asks(st)
			}
			return nil
		}
		h.Store = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == "fld" && contains(req, addr.aux) && val == tTrue {
				asks(st)
			}
		}
		h.Recv = func(x *Exec, st *State, ch *Term, in ssa.Instruction) {
			if ch.op != "init" || len(ch.args) == 0 || ch.args[0].op != "fld" || !done[ch.args[0].aux] {
				return
			}
			ob("C40.wait", in.Pos())
			if st.slot("asked") == "" {
				viol(x, st, "C40.wait", in.Pos(), "the end of the server is waited for before it has been asked to end")
			}
			st.setSlot("waited", "1")
		}
		h.Return = func(x *Exec, st *State, res []*Term) {
			if st.slot("running") != "" && st.slot("waited") == "" {
				viol(x, st, "C40.wait", f.Pos(), "the process ends on a path that has not waited for the end of the event loop: what was executed last may not be in the log")
			}
		}
		x := newExec(p, r, h)
		x.joinHeads = true
		x.entry = fnName(f)
		st := newState()
		e := newCbEnv(p, st)
		args, free := e.args(st, cbRoot{fn: f})
		x.Run(f, st, args, free)
		r.use(x)
	}
}

// loggerInits: the functions that set the variables of the log package.
func (p *Prog) loggerInits() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if pkgName(f) != "log" || f.Parent() != nil || f.Name() == "init" {
			continue
		}
		for g := range p.withClosures(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if gl, ok := s.Addr.(*ssa.Global); ok && isFuncVar(gl) {
							out[f] = true
						}
					}
				}
			}
		}
	}
	return out
}

// withClosures: the function, what it calls in its package, and the functions it makes.
func (p *Prog) withClosures(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(g *ssa.Function)
	add = func(g *ssa.Function) {
		if out[g] || pkgName(g) != pkgName(f) {
			return
		}
		out[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && h.Blocks != nil {
						add(h)
					}
				}
			}
		}
	}
	add(f)
	return out
}

func isFuncVar(g *ssa.Global) bool {
	pt, ok := g.Type().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = pt.Elem().Underlying().(*types.Signature)
	return ok
}

// loggerRule: setting up logging sets every logging function the server calls, and the fatal ones do not return.
func loggerRule(p *Prog, r *Report) {
	inits := p.loggerInits()
	if len(inits) == 0 {
		r.fail("undecided", "log", "-", "the function that sets up logging is not found")
		return
	}
	used := map[*ssa.Global]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Name() == "log" && isFuncVar(g) && pkgName(f) != "log" {
						used[g] = true
						if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
							r.fail("C37.logger", fnName(f), p.pos(in.Pos()), "a message is logged while packages are initialised, before logging has been set up")
						}
					}
				}
			}
		}
	}
	for f := range inits {
		// the innermost functions that store
		for g := range p.withClosures(f) {
			stores := false
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if gl, ok := s.Addr.(*ssa.Global); ok && isFuncVar(gl) {
							stores = true
						}
					}
				}
			}
			if !stores {
				continue
			}
			h := &Hooks{}
			h.Call = func(x *Exec, st *State, c *Call) ([]Outcome, bool) {
				if c.fn != nil && (!inRepo(c.fn) || pkgName(c.fn) != "log") && findModel(c) == nil {
					return x.freshResults(st, c), true
				}
				return nil, false
			}
			h.Store = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
				if addr.op != "global" {
					return
				}
				n := addr.aux[strings.LastIndex(addr.aux, ".")+1:]
				st.setSlot("set:"+n, "1")
				r.oblig("C37.logger", p.pos(in.Pos()))
				if n != "Fatal" && n != "Panic" {
					return
				}
				var fn *ssa.Function
				if val.op == "closure" || val.op == "func" {
					fn, _ = val.obj.(*ssa.Function)
				}
				if fn == nil {
					return
				}
				m := strings.TrimSuffix(fn.Name(), "$bound")
				if strings.HasPrefix(fn.Name(), m+"$bound") && m != "Fatal" && m != "Panic" && !(m == "DPanic" && n == "Panic") {
					x.violate(st, "C37.logger", pathFn(st), in.Pos(), "the function for messages that end the server (%s) is set to %s, which returns: the server goes on after a failure it cannot handle", n, m)
				}
				if m == "DPanic" {
					x.violate(st, "C37.logger", pathFn(st), in.Pos(), "the function for messages that end the server (%s) is set to one that returns", n)
				}
			}
			h.Return = func(x *Exec, st *State, res []*Term) {
				var names []string
				for g := range used {
					names = append(names, g.Name())
				}
				sort.Strings(names)
				for _, n := range names {
					if st.slot("set:"+n) == "" {
						x.violate(st, "C37.logger", pathFn(st), g.Pos(), "log.%s is called by the server but not set when logging is set up: the first such message crashes the server", n)
					}
				}
			}
			x := newExec(p, r, h)
			x.entry = fnName(g)
			st := newState()
			e := newCbEnv(p, st)
			args, free := e.args(st, cbRoot{fn: g})
			x.Run(g, st, args, free)
			r.use(x)
		}
	}
}

// ---------------------------------------------------------------- channels and background work

// chanRule: a channel that goroutines send on is not closed; a channel is closed in one place only.
func chanRule(p *Prog, r *Report) {
	type site struct {
		f  *ssa.Function
		in ssa.Instruction
	}
	closed := map[string][]site{}
	sent := map[string]bool{}
	name := func(v ssa.Value) string {
		if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
			if n := fieldName(l.X); n != "" {
				return n
			}
		}
		return ""
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Send:
					if n := name(in.Chan); n != "" {
						sent[n] = true
					}
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.SendOnly {
							if n := name(s.Chan); n != "" {
								sent[n] = true
							}
						}
					}
				case ssa.CallInstruction:
					if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
						if n := name(in.Common().Args[0]); n != "" {
							closed[n] = append(closed[n], site{f, in})
						}
					}
				}
			}
		}
	}
	var names []string
	for n := range closed {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, s := range closed[n] {
			r.oblig("C40.chan", p.pos(s.in.Pos())+" "+n)
			if sent[n] {
				r.fail("C40.chan", fnName(s.f), p.pos(s.in.Pos()), "the channel %s is closed; background work that sends its result on it afterwards panics", n)
			}
			for _, c := range p.callbacks() {
				if p.reach([]*ssa.Function{c.fn}, nil)[s.f] {
					r.fail("C40.chan", fnName(s.f), p.pos(s.in.Pos()), "the channel %s is closed by a callback (%s), which may run more than once", n, fnName(c.fn))
					break
				}
			}
			if len(closed[n]) > 1 {
				r.fail("C40.chan", fnName(s.f), p.pos(s.in.Pos()), "the channel %s is closed in %d places: closing it twice panics", n, len(closed[n]))
			}
		}
	}
	for n := range sent {
		r.oblig("C40.chan", "sent on: "+n)
	}
}

// exploreSyncStop: a goroutine that forces the log to disk does not bring the server down because the log has been closed.
func exploreSyncStop(p *Prog, r *Report) {
	for f := range p.goTargets() {
		if p.isRewriter(f) || !p.reaches(f, "(*os.File).Sync") || p.reaches(f, "syscall.EpollWait") {
			continue
		}
		a := &fileAn{p: p, r: r, prop: "C40", kind: "sync", state0: -1, times: map[string]bool{}, relevant: map[*ssa.Function]bool{}}
		h := a.hooks()
		h.Return = nil
		h.Panic = func(x *Exec, st *State, what string, in ssa.Instruction) {
			r.oblig("C40.sync", p.pos(in.Pos()))
			for b, v := range st.bools {
				if !v && b.op == "app" && strings.HasPrefix(b.aux, "errors.Is") && strings.Contains(b.String(), "ErrClosed") {
					return
				}
			}
			x.violate(st, "C40.sync", pathFn(st), in.Pos(), "the server is brought down if the log is closed (by a stop or a finished rewrite) while it is being forced to disk in the background")
		}
		x := newExec(p, r, h)
		x.entry = fnName(f)
		st := newState()
		e := newCbEnv(p, st)
		args, free := e.args(st, cbRoot{fn: f})
		a.start(st, e)
		x.Run(f, st, args, free)
		r.use(x)
	}
}

// ---------------------------------------------------------------- replay without effects

// fakeRule: nothing that a command or the loader calls touches the network when the client has no descriptor.
func fakeRule(p *Prog, r *Report) {
	cmds, err := p.commandTable()
	if err != nil {
		r.fail("undecided", "command table", "-", "%v", err)
		return
	}
	var roots []*ssa.Function
	for _, c := range cmds {
		roots = append(roots, c.proc)
	}
	roots = append(roots, p.loaderFns()...)
	client := func(f *ssa.Function) bool {
		for _, pr := range f.Params {
			if shortType(pr.Type()) == "*server.Client" {
				return true
			}
		}
		return false
	}
	// the innermost functions with a client that lead to a system call
	var fns []*ssa.Function
	memo := map[*ssa.Function]bool{}
	var direct func(f *ssa.Function, seen map[*ssa.Function]bool) bool
	direct = func(f *ssa.Function, seen map[*ssa.Function]bool) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && !inRepo(g) && isNetCall(fnName(g)) {
					return true
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				for _, g := range p.callTargets(ci) {
					if inRepo(g) && !client(g) && direct(g, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	for f := range p.reach(roots, nil) {
		if client(f) && pkgName(f) == "server" {
			if memo[f] = direct(f, map[*ssa.Function]bool{}); memo[f] {
				fns = append(fns, f)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for _, f := range fns {
		r.oblig("C37.fake", fnName(f))
		h := &Hooks{}
		h.Call = func(x *Exec, st *State, c *Call) ([]Outcome, bool) {
			if c.fn == nil {
				return nil, false
			}
			if !inRepo(c.fn) {
				if isNetCall(c.name) {
					x.violate(st, "C37.fake", pathFn(st), c.instr.Pos(), "a command that is replayed from the log leads to %s for a client without a connection", c.name)
				}
				if findModel(c) == nil {
					return x.freshResults(st, c), true
				}
				return nil, false
			}
			if pkgName(c.fn) == "ae" || pkgName(c.fn) == "socket" {
				if p.reachesNet(c.fn) {
					x.violate(st, "C37.fake", pathFn(st), c.instr.Pos(), "a command that is replayed from the log leads to %s for a client without a connection", fnName(c.fn))
				}
				return x.freshResults(st, c), true
			}
			if !p.reachesNet(c.fn) {
				return x.freshResults(st, c), true
			}
			return nil, false
		}
		x := newExec(p, r, h)
		x.joinHeads = true
		x.entry = fnName(f) + " without a connection"
		st := newState()
		e := newCbEnv(p, st)
		fd := p.fieldType("server", "Client", "fd")
		if fd == nil {
			r.fail("undecided", "server.Client", "-", "the descriptor of a client is not found")
			return
		}
		st.mem[fldOf("server.Client.fd", fd, e.client)] = mkInt(-1)
		args, free := e.args(st, cbRoot{fn: f})
		x.Run(f, st, args, free)
		r.use(x)
	}
}

func isNetCall(n string) bool {
	if !strings.HasPrefix(n, "syscall.") {
		return false
	}
	switch n {
	case "syscall.Errno.Error", "(syscall.Errno).Error":
		return false
	}
	return n != "syscall.init"
}

func (p *Prog) reachesNet(f *ssa.Function) bool {
	for g := range p.reach([]*ssa.Function{f}, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil && !inRepo(h) && isNetCall(fnName(h)) {
						return true
					}
				}
			}
		}
	}
	return false
}

// openRule: the constructor opens the log for appending exactly if it is enabled.
func openRule(p *Prog, r *Report) {
	n := 0
	for _, f := range p.funcs {
		if pkgName(f) != "server" || f.Signature.Results().Len() == 0 || shortType(f.Signature.Results().At(0).Type()) != "*server.Server" || f.Parent() != nil {
			continue
		}
		n++
		h := &Hooks{}
		h.Call = func(x *Exec, st *State, c *Call) ([]Outcome, bool) {
			switch c.name {
			case "os.OpenFile", "os.Create", "os.Open":
				flags, known := int64(0x242), true
				if c.name == "os.OpenFile" {
					flags, known = c.args[1].intVal()
				} else if c.name == "os.Open" {
					flags = 0
				}
				return x.errFork(st, c, func(s *State) []*Term {
					f := x.freshTerm(s, mkFull("alloc", x.siteName(s, "file"), c.sig.Results().At(0).Type(), nil, nil))
					s.assume(mkCmp("eq", f, tNil), false)
					fset(s, f, "name", stringType, c.args[0])
					fset(s, f, "append", boolType, mkBool(known && flags&0x400 != 0))
					fset(s, f, "trunc", boolType, mkBool(!known || flags&0x200 != 0))
					fset(s, f, "write", boolType, mkBool(known && flags&3 != 0))
					return []*Term{f}
				}, func(s *State) []*Term { return []*Term{tNil} }), true
			}
			if c.fn != nil && inRepo(c.fn) && pkgName(c.fn) == "server" {
				return nil, false
			}
			if c.fn != nil && findModel(c) == nil {
				return x.freshResults(st, c), true
			}
			return nil, false
		}
		h.Return = func(x *Exec, st *State, res []*Term) {
			if len(st.frames) > 1 || len(res) == 0 || st.evalNil(res[0]) == 1 {
				return
			}
			fe, ff, fn := p.fieldType("server", "Server", "aofEnable"), p.fieldType("server", "Server", "aofFile"), p.fieldType("server", "Server", "aofFilename")
			if fe == nil || ff == nil || fn == nil {
				r.fail("undecided", "server.Server", "-", "the fields of the log are not found")
				return
			}
			r.oblig("C37.open", p.pos(f.Pos()))
			en := st.load(fldOf("server.Server.aofEnable", fe, res[0]), fe)
			file := st.load(fldOf("server.Server.aofFile", ff, res[0]), ff)
			name := st.load(fldOf("server.Server.aofFilename", fn, res[0]), fn)
			switch st.eval(en) {
			case 1:
				if st.evalNil(file) != 0 {
					x.violate(st, "C37.open", pathFn(st), f.Pos(), "the log is enabled, but not opened before clients are served")
					return
				}
				if fget(st, file, "append", boolType) != tTrue {
					x.violate(st, "C37.open", pathFn(st), f.Pos(), "the log is not opened for appending: what is executed overwrites its beginning")
				}
				if fget(st, file, "write", boolType) != tTrue {
					x.violate(st, "C37.open", pathFn(st), f.Pos(), "the log is not opened for writing")
				}
				if fget(st, file, "trunc", boolType) != tFalse {
					x.violate(st, "C37.open", pathFn(st), f.Pos(), "opening the log empties it")
				}
				if !st.equalTerms(fget(st, file, "name", stringType), name) {
					x.violate(st, "C37.open", pathFn(st), f.Pos(), "the file that is written (%v) is not the one that is replayed (%v)", fget(st, file, "name", stringType), name)
				}
			case 0:
				if st.evalNil(file) != 1 {
					x.violate(st, "C37.open", pathFn(st), f.Pos(), "a log is opened although it is not enabled")
				}
			default:
				if st.evalNil(file) != 1 {
					x.violate(st, "C37.open", pathFn(st), f.Pos(), "a log is opened on a path that has not established that it is enabled")
				} else {
					x.violate(st, "C37.open", pathFn(st), f.Pos(), "no log is opened on a path that has not established that it is disabled")
				}
			}
		}
		x := newExec(p, r, h)
		x.entry = fnName(f)
		st := newState()
		var args []*Term
		for _, pr := range f.Params {
			a := sym(pr.Name(), pr.Type())
			if _, ok := pr.Type().(*types.Pointer); ok {
				nonNil(st, a)
			}
			args = append(args, a)
		}
		x.Run(f, st, args, nil)
		r.use(x)
	}
	if n == 0 {
		r.fail("undecided", "server", "-", "the constructor of the server is not found")
	}
}

func exploreLife(p *Prog, r *Report, prop string) {
	exploreRun(p, r, prop)
	exploreBeside(p, r, prop)
	if prop == "C40" {
		exploreStopLoop(p, r)
		chanRule(p, r)
		exploreSyncStop(p, r)
		return
	}
	loggerRule(p, r)
	openRule(p, r)
	fakeRule(p, r)
	exploreLoader(p, r, "C37")
}
