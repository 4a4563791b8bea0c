package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What may wait: the operations that can keep the calling goroutine waiting for something outside of it.

var waitCalls = map[string]string{
	"time.Sleep": "time", "(*sync.WaitGroup).Wait": "other goroutines", "(*sync.Cond).Wait": "other goroutines",
	"(*os/exec.Cmd).Run": "a process", "(*os/exec.Cmd).Wait": "a process", "(*os/exec.Cmd).Output": "a process", "(*os/exec.Cmd).CombinedOutput": "a process",
	"(*os.Process).Wait": "a process", "syscall.Wait4": "a process", "syscall.Connect": "a network peer", "net.Dial": "a network peer", "net.DialTimeout": "a network peer",
	"(*net.Dialer).Dial": "a network peer", "net.LookupHost": "a network peer", "net.LookupIP": "a network peer", "syscall.EpollWait": "events", "syscall.Select": "events",
	"syscall.Flock": "a lock", "syscall.Nanosleep": "time", "(*sync.Once).Do": "",
}

var lockCalls = map[string]bool{"(*sync.Mutex).Lock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).RLock": true}

// chanOp: a channel operation that may wait.
func chanOp(in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			return "receive"
		}
	case *ssa.Send:
		return "send"
	case *ssa.Select:
		if in.Blocking {
			return "select"
		}
	}
	return ""
}

// blockRule: nothing that the event loop calls waits.
func blockRule(p *Prog, r *Report) {
	proc, _, why := p.dispatchFns()
	if why != "" {
		r.fail("undecided", "dispatch", "-", "%s", why)
		return
	}
	var roots []cbRoot
	cbs := p.callbacks()
	roots = append(roots, cbs...)
	if cmds, err := p.commandTable(); err == nil {
		for _, c := range cmds {
			roots = append(roots, cbRoot{fn: c.proc, kind: "command"})
		}
	}
	if len(cbs) == 0 {
		r.fail("undecided", "callbacks", "-", "no callbacks found")
		return
	}
	// locks that background goroutines take as well
	var bg []*ssa.Function
	for f := range p.goTargets() {
		bg = append(bg, f)
	}
	bgLock := ""
	for f := range p.reach(bg, nil) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && lockCalls[fnName(g)] {
						bgLock = fnName(f)
					}
				}
			}
		}
	}
	seen := map[ssa.Instruction]bool{}
	var explore []cbRoot
	for _, c := range roots {
		stop := map[*ssa.Function]bool{}
		if c.kind != "command" {
			stop[proc] = true
		}
		ops := false
		var fns []*ssa.Function
		for f := range p.reach([]*ssa.Function{c.fn}, stop) {
			fns = append(fns, f)
		}
		sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
		for _, f := range fns {
			r.funcs[fnName(f)] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if chanOp(in) != "" {
						ops = true
					}
					ci, ok := in.(ssa.CallInstruction)
					if _, isGo := in.(*ssa.Go); !ok || isGo {
						continue
					}
					g := ci.Common().StaticCallee()
					if g == nil || inRepo(g) {
						continue
					}
					n := fnName(g)
					if !seen[in] {
						seen[in] = true
						r.oblig("C26.wait", p.pos(in.Pos())+" "+n)
					} else {
						continue
					}
					if w := waitCalls[n]; w != "" {
						r.fail("C26.wait", fnName(f), p.pos(in.Pos()), "%s, which the event loop calls (%s), waits for %s (%s): all clients wait with it", fnName(f), fnName(c.fn), w, n)
					}
					if lockCalls[n] && bgLock != "" {
						r.fail("C26.wait", fnName(f), p.pos(in.Pos()), "%s, which the event loop calls (%s), waits for a lock (%s); background work (%s) holds locks, too", fnName(f), fnName(c.fn), n, bgLock)
					}
				}
			}
		}
		if ops {
			explore = append(explore, c)
		}
	}
	for _, c := range explore {
		for _, s0 := range []int64{0, 2} {
			a := &fileAn{p: p, r: r, prop: "C26", kind: "block", state0: s0, times: map[string]bool{}, relevant: map[*ssa.Function]bool{}}
			h := a.hooks()
			h.Received = func(x *Exec, st *State, ch, v *Term, in ssa.Instruction) { a.waits(x, st, ch, in) }
			h.Send = func(x *Exec, st *State, ch, v *Term, in ssa.Instruction) { a.sends(x, st, ch, in) }
			x := newExec(p, r, h)
			x.joinHeads = true
			x.entry = fmt.Sprintf("%s (state %d)", fnName(c.fn), s0)
			st := newState()
			e := newCbEnv(p, st)
			st.mem[fldOf("server.Client.srv", types.NewPointer(p.namedType("server", "Server")), e.client)] = e.srv
			args, free := e.args(st, c)
			a.start(st, e)
			x.Run(c.fn, st, args, free)
			r.use(x)
		}
	}
}

// waits: a receive is allowed on a path that has established that the channel holds an element.
func (a *fileAn) waits(x *Exec, st *State, ch *Term, in ssa.Instruction) {
	if sel, ok := in.(*ssa.Select); ok && !sel.Blocking {
		return
	}
	a.ob(x, "C26.receive", in.Pos())
	for b, v := range st.bools {
		if v && b.op == "app" && b.aux == "@chanlen" && b.args[1] == ch && st.provesGE(b.args[0], tOne) {
			delete(st.bools, b)
			return
		}
	}
	a.viol(x, st, "C26.receive", in.Pos(), "the event loop waits for a channel on a path that has not established that it holds an element")
}

func (a *fileAn) sends(x *Exec, st *State, ch *Term, in ssa.Instruction) {
	if sel, ok := in.(*ssa.Select); ok && !sel.Blocking {
		return
	}
	a.ob(x, "C26.receive", in.Pos())
	a.viol(x, st, "C26.receive", in.Pos(), "the event loop sends to a channel, which may wait until there is room")
}

// boundedRule: the loops in which timers look for expired keys end after a number of rounds that does not depend on
// the data: an induction variable is compared with a constant or the length of a slice, or the clock with a deadline.
func boundedRule(p *Prog, r *Report) {
	work := func(in ssa.Instruction) bool {
		for _, g := range p.calleesOf(in) {
			n := fnName(g)
			if sampling[n] || n == tDictI+"Next" || n == tDict+"Delete" || n == tDict+"Find" {
				return true
			}
			if strings.HasPrefix(n, "datastruct.") || strings.HasPrefix(n, "(*datastruct.") || strings.HasPrefix(n, "(*database.") {
				continue
			}
			if inRepo(g) && p.reaches(g, tDict+"GetRandomKey", tDictI+"Next", tDict+"Delete") {
				return true
			}
		}
		return false
	}
	fns := p.reach(p.timeProcs(), nil)
	var fs []*ssa.Function
	for f := range fns {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	for _, f := range fs {
		if n := fnName(f); strings.Contains(n, "datastruct.") || strings.Contains(n, "database.") {
			continue
		}
		for _, li := range p.loopsOf(f).heads {
			does := false
			for b := range li.blocks {
				for _, in := range b.Instrs {
					does = does || work(in)
				}
			}
			if !does {
				continue
			}
			pos := p.pos(f.Pos())
			for _, in := range li.head.Instrs {
				if in.Pos().IsValid() {
					pos = p.pos(in.Pos())
				}
			}
			r.oblig("C36.bounded", fmt.Sprintf("loop %s", li.name))
			if !boundedLoop(li) {
				r.fail("C36.bounded", fnName(f), pos, "a loop of the periodic work on keys has no bound that is independent of the data")
			}
		}
	}
}

func boundedLoop(li *loopInfo) bool {
	var latches []*ssa.BasicBlock
	for _, pr := range li.head.Preds {
		if li.blocks[pr] {
			latches = append(latches, pr)
		}
	}
	for b := range li.blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || li.blocks[b.Succs[0]] && li.blocks[b.Succs[1]] {
			continue
		}
		dom := true
		for _, l := range latches {
			dom = dom && b.Dominates(l)
		}
		if !dom {
			continue
		}
		for _, c := range conjuncts(iff.Cond) {
			c, ok := c.(*ssa.BinOp)
			if !ok {
				continue
			}
			if induction(c.X, li) && bound(c.Y, li, 0) || induction(c.Y, li) && bound(c.X, li, 0) {
				return true
			}
			if fromClock(c.X, 0) || fromClock(c.Y, 0) {
				return true
			}
		}
	}
	return false
}

func conjuncts(v ssa.Value) []ssa.Value {
	if ph, ok := v.(*ssa.Phi); ok {
		var out []ssa.Value
		for _, e := range ph.Edges {
			if _, c := e.(*ssa.Const); !c {
				out = append(out, e)
			}
		}
		return out
	}
	return []ssa.Value{v}
}

// induction: the value grows or shrinks by constants with every round of the loop.
func induction(v ssa.Value, li *loopInfo) bool {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if _, ok := b.Y.(*ssa.Const); ok {
			v = b.X
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != li.head {
		return false
	}
	for i, pr := range li.head.Preds {
		if !li.blocks[pr] {
			continue
		}
		if !steps(ph.Edges[i], ph, li, map[ssa.Value]bool{}) {
			return false
		}
	}
	return true
}

// steps: v is ph plus or minus a constant on every way to it.
func steps(v ssa.Value, ph *ssa.Phi, li *loopInfo, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch b := v.(type) {
	case *ssa.BinOp:
		c, ok := b.Y.(*ssa.Const)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) || c.Value == nil || c.Int64() == 0 {
			return false
		}
		return b.X == ph || steps(b.X, ph, li, seen)
	case *ssa.Phi:
		if b == ph {
			return false // a round without a step
		}
		for _, e := range b.Edges {
			if !steps(e, ph, li, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func bound(v ssa.Value, li *loopInfo, d int) bool {
	if d > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Convert:
		return bound(v.X, li, d+1)
	case *ssa.BinOp:
		return bound(v.X, li, d+1) && bound(v.Y, li, d+1)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len":
				_, sl := v.Call.Args[0].Type().Underlying().(*types.Slice)
				return sl
			case "min":
				for _, a := range v.Call.Args {
					if bound(a, li, d+1) {
						return true
					}
				}
			}
		}
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			_ = g
			return true
		}
		n := fieldName(v.X)
		return strings.HasPrefix(n, "server.Server.") || strings.HasPrefix(n, "config.")
	}
	return false
}

func fromClock(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil {
			n := fnName(g)
			return strings.HasPrefix(n, "time.") || strings.HasPrefix(n, "(time.")
		}
	case *ssa.BinOp:
		return fromClock(v.X, d+1) || fromClock(v.Y, d+1)
	case *ssa.Convert:
		return fromClock(v.X, d+1)
	}
	return false
}
