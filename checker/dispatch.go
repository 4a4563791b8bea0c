package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The command dispatcher is explored once for every entry of the command table and once for an unknown command.

func (p *Prog) dispatchFns() (proc, lookup *ssa.Function, why string) {
	cmdT := p.namedType("server", "command")
	isLookup := func(f *ssa.Function) bool {
		if !strings.HasPrefix(fnName(f), "server.") || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 1 || f.Parent() != nil {
			return false
		}
		pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer)
		return ok && cmdT != nil && types.Identical(pt.Elem(), cmdT) && isStringType(f.Signature.Params().At(0).Type())
	}
	lookup = p.findFn("server.lookupCommand", isLookup)
	if lookup == nil {
		return nil, nil, "the command lookup function is not found"
	}
	proc = p.findFn("server.processCommand", func(f *ssa.Function) bool {
		if f.Signature.Recv() != nil || f.Signature.Params().Len() != 1 || shortType(f.Signature.Params().At(0).Type()) != "*server.Client" {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == lookup {
					return true
				}
			}
		}
		return false
	})
	if proc == nil {
		return nil, nil, "the command dispatcher is not found"
	}
	return proc, lookup, ""
}

func exploreDispatch(p *Prog, r *Report, prop string) { dispatchAll(p, r, prop, nil) }

func dispatchAll(p *Prog, r *Report, prop string, fate map[string]string) {
	proc, lookup, why := p.dispatchFns()
	if why != "" {
		r.fail("undecided", "dispatch", "-", "%s", why)
		return
	}
	table, err := p.commandTable()
	if err != nil {
		r.fail("undecided", "command table", "-", "%v", err)
		return
	}
	only := os.Getenv("METIS_CMD")
	tm := map[string]*cmdInfo{}
	for i := range table {
		tm[table[i].name] = &table[i]
	}
	run := func(ci *cmdInfo, odd bool) {
		m := newMonitor(p, r, prop)
		m.mode = "command"
		m.cmd = ci
		m.table = tm
		m.lookup = lookup
		m.fate = fate
		m.oddArgs = odd
		x := newExec(p, r, m.hooks)
		st := newState()
		m.setupClient(x, st, proc.Params[0].Type())
		if odd {
			st.setFact("odd", true, lenOf(m.args))
		}
		x.Run(proc, st, []*Term{m.client}, nil)
		r.use(x)
	}
	if prop != "C32" && (only == "" || only == "-") {
		run(nil, false)
	}
	for i := range table {
		if only != "" && only != table[i].name {
			continue
		}
		if prop == "C32" && !p.takesScores(table[i].proc) {
			continue
		}
		run(&table[i], false)
		if prop == "C06" && pairCommands[table[i].name] {
			run(&table[i], true)
		}
	}
}

func (m *monitor) setupClient(x *Exec, st *State, typ types.Type) {
	m.client = sym("client", typ)
	nonNil(st, m.client)
	m.srv = nonNil(st, m.cliField(st, "srv", m.p.fieldType("server", "Client", "srv")))
	m.db0 = nonNil(st, m.cliField(st, "db", m.p.fieldType("server", "Client", "db")))
	nonNil(st, m.cliField(st, "replayHead", m.p.fieldType("server", "Client", "replayHead")))
	m.args = m.cliField(st, "args", m.p.fieldType("server", "Client", "args"))
	st.assumeGE(lenOf(m.args), tOne)
	m.auth0 = m.cliField(st, "authenticated", boolType)
	m.sel0 = m.srvField(st, "aofSelectDBID", intType)
	fd := m.cliField(st, "fd", m.p.fieldType("server", "Client", "fd"))
	st.assumeGE(fd, tZero)
}

// pairCommands take a key and pairs of arguments: with the command's name that is an even number of words.
var pairCommands = map[string]bool{"hset": true, "zadd": true}

// takesScores: the command hands scores or limits to a sorted set.
func (p *Prog) takesScores(f *ssa.Function) bool {
	r := p.reach([]*ssa.Function{f}, nil)
	for _, g := range p.methodsOf("datastruct", "Zset") {
		for i := 0; i < g.Signature.Params().Len(); i++ {
			if !isFloatType(g.Signature.Params().At(i).Type()) {
				continue
			}
			for _, c := range p.callSites(g) {
				if h := c.Parent(); r[h] && pkgName(h) != "datastruct" {
					return true
				}
			}
		}
	}
	return false
}
