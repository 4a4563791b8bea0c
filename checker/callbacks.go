package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Everything else the event loop calls: timers, the function run before each wait, and the handlers of
// descriptors other than client input.

// registeredData: the dynamic types passed as client data together with a callback, over all registration sites.
func (p *Prog) registeredData(cb *ssa.Function) (out []types.Type) {
	seen := map[string]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				args := ci.Common().Args
				for i, a := range args {
					hit := false
					for _, g := range localFuncs(a, map[ssa.Value]bool{}) {
						if g == cb {
							hit = true
						}
					}
					if !hit || i+1 >= len(args) {
						continue
					}
					if mi, ok := args[i+1].(*ssa.MakeInterface); ok {
						t := mi.X.Type()
						if !seen[t.String()] {
							seen[t.String()] = true
							out = append(out, t)
						}
					} else {
						out = append(out, nil)
					}
				}
			}
		}
	}
	return out
}

// cbRoot describes a callback as the root of an exploration.
type cbRoot struct {
	fn   *ssa.Function
	kind string // file, time, sleep
	data types.Type
}

func (p *Prog) callbacks() (out []cbRoot) {
	add := func(fs []*ssa.Function, kind string) {
		for _, f := range fs {
			c := cbRoot{fn: f, kind: kind}
			for _, t := range p.registeredData(f) {
				c.data = t
			}
			out = append(out, c)
		}
	}
	add(p.fileProcs(), "file")
	add(p.timeProcs(), "time")
	add(p.sleepProcs(), "sleep")
	return out
}

// cbEnv holds the symbolic objects of a callback exploration.
type cbEnv struct {
	el, srv, client, fd *Term
}

func newCbEnv(p *Prog, st *State) *cbEnv {
	e := &cbEnv{}
	ptr := func(pkg, n, hint string) *Term {
		nt := p.namedType(pkg, n)
		if nt == nil {
			return nil
		}
		return nonNil(st, sym(hint, types.NewPointer(nt)))
	}
	e.el = ptr("ae", "EventLoop", "el")
	e.srv = ptr("server", "Server", "srv")
	e.client = ptr("server", "Client", "client")
	// there is at least one database (C38.databases)
	if dt := p.fieldType("server", "Server", "dbs"); dt != nil && e.srv != nil {
		st.assumeGE(lenOf(st.load(fldOf("server.Server.dbs", dt, e.srv), dt)), tOne)
	}
	if nt := p.namedType("socket", "FD"); nt != nil {
		e.fd = sym("fd", nt)
		st.assumeGE(e.fd, tZero)
	}
	return e
}

func (e *cbEnv) of(t types.Type) *Term {
	switch shortType(t) {
	case "*ae.EventLoop":
		return e.el
	case "*server.Server":
		return e.srv
	case "*server.Client":
		return e.client
	case "socket.FD":
		return e.fd
	}
	return nil
}

// args builds the arguments and captured variables of a callback.
func (e *cbEnv) args(st *State, c cbRoot) (args, free []*Term) {
	for _, pr := range c.fn.Params {
		if v := e.of(pr.Type()); v != nil {
			args = append(args, v)
			continue
		}
		if _, ok := pr.Type().Underlying().(*types.Interface); ok && c.data != nil {
			if v := e.of(c.data); v != nil {
				args = append(args, mkFull("iface", shortType(c.data), pr.Type(), c.data, nil, v))
				continue
			}
		}
		args = append(args, sym(pr.Name(), pr.Type()))
	}
	for _, fv := range c.fn.FreeVars {
		if v := e.of(fv.Type()); v != nil {
			free = append(free, v)
			continue
		}
		if pt, ok := fv.Type().(*types.Pointer); ok {
			cell := mkFull("alloc", "captured "+fv.Name(), fv.Type(), nil, nil)
			if v := e.of(pt.Elem()); v != nil {
				st.mem[cell] = v
			} else {
				st.mem[cell] = sym(fv.Name(), pt.Elem())
			}
			free = append(free, cell)
			continue
		}
		free = append(free, sym(fv.Name(), fv.Type()))
	}
	return args, free
}

// exploreCron runs the timers and the function before each wait under the data monitor.
func exploreCron(p *Prog, r *Report, prop string) {
	n := 0
	table, err := p.commandTable()
	if err != nil {
		r.fail("undecided", "command table", "-", "%v", err)
	}
	tm := map[string]*cmdInfo{}
	for i := range table {
		tm[table[i].name] = &table[i]
	}
	for _, c := range p.callbacks() {
		if c.kind == "file" {
			continue
		}
		n++
		m := newMonitor(p, r, prop)
		m.table = tm
		m.mode = "cron"
		x := newExec(p, r, m.hooks)
		x.joinHeads = prop == "C15" // the remembered database takes many forms
		x.entry = fnName(c.fn)
		st := newState()
		e := newCbEnv(p, st)
		m.srv, m.client = e.srv, e.client
		m.args = sym("noargs", types.NewSlice(stringType))
		m.sel0 = m.srvField(st, "aofSelectDBID", intType)
		args, free := e.args(st, c)
		x.Run(c.fn, st, args, free)
		r.use(x)
	}
	if n == 0 {
		r.fail("undecided", "timers", "-", "no timer or before-wait callbacks found")
	}
}

func pathHas(st *State, name string) bool {
	for _, f := range st.frames {
		if strings.HasSuffix(fnName(f.fn), name) {
			return true
		}
	}
	return false
}

// directions lists the directions a handler is registered for; known is false if one is not a constant.
func (p *Prog) directions(cb *ssa.Function) (dirs map[string]bool, known bool) {
	dirs, known = map[string]bool{}, true
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				args := ci.Common().Args
				for _, a := range args {
					for _, g := range localFuncs(a, map[ssa.Value]bool{}) {
						if g != cb {
							continue
						}
						for _, m := range args {
							if !strings.HasPrefix(shortType(m.Type()), "ae.TypeFileEvent") {
								continue
							}
							if c, ok := m.(*ssa.Const); ok && c.Value != nil {
								dirs[c.Value.String()] = true
							} else {
								known = false
							}
						}
					}
				}
			}
		}
	}
	return dirs, known
}

var sendCalls = []string{"syscall.Write", "syscall.Sendto", "syscall.Sendmsg", "syscall.SendmsgN", "syscall.Pwrite", "golang.org/x/sys/unix.Write"}

// sendRule: replies leave the server only from handlers that run when a descriptor is ready for writing. These run
// before the read handlers of the same round (C16.order), after the log has been written (C16.write).
func sendRule(p *Prog, r *Report) {
	if p.namedType("ae", "TypeFileEvent") == nil {
		r.fail("undecided", "ae.TypeFileEvent", "-", "the type of the event directions is not found")
		return
	}
	for _, c := range p.callbacks() {
		if c.kind == "sleep" {
			continue // explored with the log (C16.write)
		}
		r.oblig("C16.send", fnName(c.fn))
		if !p.reaches(c.fn, sendCalls...) {
			continue
		}
		if c.kind == "file" {
			dirs, known := p.directions(c.fn)
			if known && len(dirs) == 1 && dirs["2"] {
				continue
			}
			r.fail("C16.send", fnName(c.fn), p.pos(c.fn.Pos()), "a handler that is not only registered for writing leads to a write to a socket: a reply can be sent before the change it acknowledges is in the log")
			continue
		}
		r.fail("C16.send", fnName(c.fn), p.pos(c.fn.Pos()), "a timer leads to a write to a socket: a reply can be sent before the change it acknowledges is in the log")
	}
}
