package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Confinement of goroutines: what runs beside command execution reaches only data that is immutable, synchronised or
// handed over, and the copies it is handed are independent at every depth.

type confine struct {
	p       *Prog
	r       *Report
	loop    map[*ssa.Function]bool // runs on the goroutine of the event loop
	boxed   map[string]map[types.Type]token.Pos
	copiers map[*ssa.Function]int // 1 in progress, 2 checked
	shared  map[string]bool       // record types that exist once and are reachable from the event loop
	done    map[string]bool
}

func exploreConfine(p *Prog, r *Report) {
	c := &confine{p: p, r: r, copiers: map[*ssa.Function]int{}, done: map[string]bool{}}
	gts := p.goTargets()
	var targets []*ssa.Function
	for f := range gts {
		targets = append(targets, f)
	}
	sort.Slice(targets, func(i, j int) bool { return fnName(targets[i]) < fnName(targets[j]) })
	var loopRoots []*ssa.Function
	isLoop := map[*ssa.Function]bool{}
	for _, t := range targets {
		if p.reaches(t, "syscall.EpollWait") {
			isLoop[t] = true
			loopRoots = append(loopRoots, t)
		}
	}
	if len(loopRoots) == 0 {
		r.fail("undecided", "go statements", "-", "no goroutine runs the event loop")
		for _, f := range p.funcs {
			if fnName(f) == "(*server.Server).Run" {
				loopRoots = append(loopRoots, f)
			}
		}
	}
	for _, cb := range p.callbacks() {
		loopRoots = append(loopRoots, cb.fn)
	}
	if tab, err := p.commandTable(); err == nil {
		for _, e := range tab {
			if e.proc != nil {
				loopRoots = append(loopRoots, e.proc)
			}
		}
	}
	c.loop = p.reach(loopRoots, nil)
	for f := range c.loop {
		r.funcs[fnName(f)] = true
	}
	c.collectBoxed()
	n := 0
	for _, t := range targets {
		if isLoop[t] {
			continue
		}
		n++
		for _, f := range sortedFns(p.reach([]*ssa.Function{t}, nil)) {
			r.funcs[fnName(f)] = true
			c.access(f, t)
		}
		for _, g := range gts[t] {
			c.handOver(g, t)
		}
	}
	// functions that ask the event loop from other goroutines: what is called after it has been started
	for _, t := range targets {
		if !isLoop[t] {
			continue
		}
		for _, g := range gts[t] {
			c.besideLoop(g, t)
		}
	}
	// callbacks of libraries run on goroutines of their own
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil || inRepo(callee) || !asyncLib[fnName(callee)] {
					continue
				}
				for _, a := range ci.Common().Args {
					for _, h := range localFuncs(a, map[ssa.Value]bool{}) {
						c.watcher(h)
					}
				}
			}
		}
	}
	if n == 0 {
		r.note("no background goroutine besides the event loop")
	}
	r.oblig("C23.threads", "goroutines of the event loop and beside it")
}

// asyncLib: library functions that keep the function they are given and call it on another goroutine.
var asyncLib = map[string]bool{"github.com/spf13/viper.OnConfigChange": true, "time.AfterFunc": true}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

func (c *confine) bad(rule string, f *ssa.Function, pos token.Pos, msg string) {
	c.r.add(&Violation{Rule: rule, Construct: fnName(f), Pos: c.p.pos(pos), Msg: msg, Entry: fnName(f)})
}

func (c *confine) unsure(f *ssa.Function, pos token.Pos, msg string) {
	c.r.add(&Violation{Rule: "undecided", Construct: fnName(f), Pos: c.p.pos(pos), Msg: msg, Entry: fnName(f)})
}

// sharedRecord: one of the records of the running server, as opposed to data a snapshot may consist of.
func sharedRecord(t types.Type) (string, bool) {
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg()) {
		return "", false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return "", false
	}
	switch path := n.Obj().Pkg().Path(); {
	case strings.HasSuffix(path, "/datastruct"), strings.HasSuffix(path, "/database"):
		return "", false
	}
	return n.Obj().Name(), true
}

func isSyncType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync/atomic", "sync":
		return true
	}
	return false
}

// immutable: values of the type share no memory that can be written.
func immutable(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !immutable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return immutable(u.Elem())
	}
	return false
}

// stateless: every type of the module that implements the interface is a record without fields.
func (c *confine) stateless(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return false
	}
	for _, pk := range c.p.ssa.AllPackages() {
		if !inModule(pk.Pkg) {
			continue
		}
		for _, nm := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), it) || types.Implements(types.NewPointer(tn.Type()), it) {
				if s, ok := tn.Type().Underlying().(*types.Struct); ok && s.NumFields() > 0 {
					// a field of the interface type itself only passes the behaviour on
					for i := 0; i < s.NumFields(); i++ {
						if !types.Identical(s.Field(i).Type(), t) {
							continue
						}
						return c.statelessOthers(t, it)
					}
					return false
				}
			}
		}
	}
	return true
}

func (c *confine) statelessOthers(t types.Type, it *types.Interface) bool {
	for _, pk := range c.p.ssa.AllPackages() {
		if !inModule(pk.Pkg) {
			continue
		}
		for _, nm := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if !types.Implements(tn.Type(), it) && !types.Implements(types.NewPointer(tn.Type()), it) {
				continue
			}
			if s, ok := tn.Type().Underlying().(*types.Struct); ok {
				embeds := false
				for i := 0; i < s.NumFields(); i++ {
					embeds = embeds || types.Identical(s.Field(i).Type(), t)
				}
				if s.NumFields() > 0 && !embeds {
					return false
				}
			}
		}
	}
	return true
}

// access: what a function that runs beside the event loop reads and writes.
func (c *confine) access(f, root *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && !madeHere(fa.X) {
				if rec, ok := sharedRecord(fa.X.Type()); ok {
					c.field(f, root, fa, rec)
				}
			}
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok && g.Pkg != nil && inModule(g.Pkg.Pkg) {
					c.bad("C23.global", f, s.Pos(), globalName(g)+" is written beside the event loop ("+fnName(root)+")")
				}
			}
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && inModule(g.Pkg.Pkg) && !c.p.roGlob[g] {
					c.r.oblig("C23.global", globalName(g))
					for _, w := range c.p.globalStores(g) {
						if c.loop[w.Parent()] {
							c.bad("C23.global", f, u.Pos(), globalName(g)+" is read beside the event loop ("+fnName(root)+") and written by "+fnName(w.Parent()))
						}
					}
				}
			}
		}
	}
}

func (p *Prog) globalStores(g *ssa.Global) (out []*ssa.Store) {
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

func (c *confine) field(f, root *ssa.Function, fa *ssa.FieldAddr, rec string) {
	name := fieldName(fa)
	ft := fa.Type().Underlying().(*types.Pointer).Elem()
	c.r.oblig("C23.field", name+" in "+fnName(f))
	if isSyncType(ft) {
		for _, u := range *fa.Referrers() {
			if _, ok := u.(ssa.CallInstruction); !ok {
				if _, dbg := u.(*ssa.DebugRef); !dbg {
					c.bad("C23.field", f, fa.Pos(), name+" is used beside the event loop ("+fnName(root)+") other than by its methods")
				}
			}
		}
		return
	}
	for _, u := range *fa.Referrers() {
		if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
			continue
		}
		if _, dbg := u.(*ssa.DebugRef); dbg {
			continue
		}
		if inner, ok := u.(*ssa.FieldAddr); ok {
			_ = inner
		}
		c.bad("C23.field", f, fa.Pos(), name+" is changed beside the event loop ("+fnName(root)+")")
		return
	}
	for _, s := range c.p.fieldStores(name) {
		if in, ok := s.Addr.(*ssa.FieldAddr); ok && madeHere(in.X) {
			continue
		}
		c.bad("C23.field", f, fa.Pos(), name+" is read beside the event loop ("+fnName(root)+") and written by "+fnName(s.Parent()))
		return
	}
	switch ft.Underlying().(type) {
	case *types.Chan:
		return
	}
	if immutable(ft) || c.stateless(ft) {
		return
	}
	if q, ok := ft.Underlying().(*types.Pointer); ok {
		if _, ok := sharedRecord(q); ok {
			return // its fields are subject to the same rule
		}
	}
	c.bad("C23.field", f, fa.Pos(), name+" is reached beside the event loop ("+fnName(root)+"), what it refers to belongs to the event loop")
}

// reachableAfter: the instructions that may run after one.
func reachableAfter(in ssa.Instruction, visit func(ssa.Instruction)) {
	b := in.Block()
	seen := map[*ssa.BasicBlock]bool{}
	i := 0
	for k, x := range b.Instrs {
		if x == in {
			i = k + 1
		}
	}
	for _, x := range b.Instrs[i:] {
		visit(x)
	}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				for _, x := range s.Instrs {
					visit(x)
				}
				walk(s)
			}
		}
	}
	walk(b)
}

// handOver: what a goroutine is given.
func (c *confine) handOver(g *ssa.Go, t *ssa.Function) {
	f := g.Parent()
	vals := append([]ssa.Value{}, g.Call.Args...)
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		vals = append(vals, mc.Bindings...)
	} else if g.Call.IsInvoke() {
		vals = append(vals, g.Call.Value)
	}
	for _, v := range vals {
		ty := v.Type()
		if al, ok := v.(*ssa.Alloc); ok {
			// a variable captured by the goroutine
			ty = al.Type().Underlying().(*types.Pointer).Elem()
			c.r.oblig("C23.captured", c.p.pos(g.Pos())+" "+al.Comment)
			reachableAfter(g, func(in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok && s.Addr == al && !freshEachRound(al, g) {
					c.bad("C23.captured", f, s.Pos(), "the variable "+al.Comment+" is changed after a goroutine that uses it has been started")
				}
			})
			if fn, ok := g.Call.Value.(*ssa.MakeClosure); ok {
				for i, bnd := range fn.Bindings {
					if bnd == v {
						fv := fn.Fn.(*ssa.Function).FreeVars[i]
						for _, u := range *fv.Referrers() {
							if s, ok := u.(*ssa.Store); ok && s.Addr == fv {
								c.bad("C23.captured", fn.Fn.(*ssa.Function), s.Pos(), "a goroutine changes the variable "+al.Comment+" of the function that started it")
							}
						}
					}
				}
			}
			if c.fine(ty) {
				continue
			}
			for _, u := range *al.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == al {
					c.given(f, g, s.Val)
				}
			}
			continue
		}
		c.r.oblig("C23.given", c.p.pos(g.Pos())+" "+shortType(ty))
		if c.fine(ty) {
			continue
		}
		c.given(f, g, v)
	}
}

// freshEachRound: the variable is made anew before the goroutine is started again.
func freshEachRound(al *ssa.Alloc, g *ssa.Go) bool {
	// a store after the go statement only matters if it is not separated from it by the making of the variable
	b := al.Block()
	if b == g.Block() {
		return false
	}
	return b.Dominates(g.Block()) && inCycle(b)
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// fine: values of the type may be used by several goroutines, or are followed by the rule for records.
func (c *confine) fine(t types.Type) bool {
	if immutable(t) || c.stateless(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Chan:
		return true
	case *types.Signature:
		return true // its body is part of the goroutine
	case *types.Pointer:
		if shortType(t) == "*os.File" || isSyncType(u.Elem()) {
			return true
		}
		if _, ok := sharedRecord(t); ok {
			return true
		}
	}
	return false
}

func (c *confine) given(f *ssa.Function, g *ssa.Go, v ssa.Value) {
	c.r.oblig("C23.snapshot", c.p.pos(g.Pos())+" "+shortType(v.Type()))
	c.fresh(f, v, g.Block(), "what a goroutine is handed", map[ssa.Value]bool{})
	// nobody keeps it
	h := map[ssa.Value]bool{v: true}
	for again := true; again; {
		again = false
		for x := range h {
			if x.Referrers() == nil {
				continue
			}
			for _, u := range *x.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					if u.Val == x {
						if al, ok := u.Addr.(*ssa.Alloc); ok {
							if !h[al] {
								h[al], again = true, true
							}
						} else if !madeHere(u.Addr) {
							c.bad("C23.snapshot", f, u.Pos(), "what a goroutine is handed is also kept elsewhere")
						}
					}
				case *ssa.UnOp:
					if !h[u] && u.Op == token.MUL {
						if _, ok := x.(*ssa.Alloc); ok {
							h[u], again = true, true
						}
					}
				case *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
					if w := u.(ssa.Value); !h[w] {
						h[w], again = true, true
					}
				}
			}
		}
	}
	reachableAfter(g, func(in ssa.Instruction) {
		var buf [16]*ssa.Value
		for _, op := range in.Operands(buf[:0]) {
			if *op != nil && h[*op] {
				switch in := in.(type) {
				case *ssa.Store:
					if in.Val == *op {
						continue
					}
				case *ssa.Phi, *ssa.DebugRef, *ssa.Go:
					continue
				}
				if definedBetween(*op, g, in) {
					continue
				}
				c.bad("C23.snapshot", f, in.Pos(), "what a goroutine has been handed is used after it has been started")
			}
		}
	})
}

// definedBetween: the value used is one made anew after the go statement (in the next round of a loop).
func definedBetween(v ssa.Value, g *ssa.Go, use ssa.Instruction) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && inCycle(g.Block()) && in.Block().Dominates(use.Block()) && in.Block().Dominates(g.Block()) && use.Block().Dominates(g.Block())
}

// besideLoop: code that runs on after the event loop has been started on another goroutine.
func (c *confine) besideLoop(g *ssa.Go, t *ssa.Function) {
	f := g.Parent()
	var roots []*ssa.Function
	reachableAfter(g, func(in ssa.Instruction) {
		roots = append(roots, c.p.calleesOf(in)...)
		if fa, ok := in.(*ssa.FieldAddr); ok && !madeHere(fa.X) {
			if rec, ok := sharedRecord(fa.X.Type()); ok && rec != "Config" {
				c.field(f, f, fa, rec)
			}
		}
	})
	for _, h := range sortedFns(c.p.reach(roots, nil)) {
		if c.isLogger(h) {
			continue
		}
		c.r.funcs[fnName(h)] = true
		c.access(h, f)
	}
}

func (c *confine) isLogger(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && strings.HasSuffix(pk.Path(), "/log")
}

// watcher: a function a library calls on a goroutine of its own writes nothing the event loop reads.
func (c *confine) watcher(h *ssa.Function) {
	c.r.oblig("C23.watcher", fnName(h))
	for _, f := range sortedFns(c.p.reach([]*ssa.Function{h}, nil)) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var buf [16]*ssa.Value
				for _, op := range in.Operands(buf[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !inModule(g.Pkg.Pkg) {
						continue
					}
					st := g.Type().Underlying().(*types.Pointer).Elem()
					for lf := range c.loop {
						for _, lb := range lf.Blocks {
							for _, li := range lb.Instrs {
								var b2 [16]*ssa.Value
								for _, o2 := range li.Operands(b2[:0]) {
									if *o2 == g {
										c.bad("C23.watcher", lf, li.Pos(), globalName(g)+" is used by the event loop and changed by "+fnName(h)+" on another goroutine")
									}
								}
								if fa, ok := li.(*ssa.FieldAddr); ok && !madeHere(fa.X) {
									if types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), st) {
										c.bad("C23.watcher", lf, li.Pos(), fieldName(fa)+" is read by the event loop and changed by "+fnName(h)+" on another goroutine")
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// --- independence of copies ---------------------------------------------------------------------------------

// class names the container a value is: the field it is kept in.
func (c *confine) class(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if n := fieldName(v.X); n != "" {
				return n
			}
			if al, ok := v.X.(*ssa.Alloc); ok {
				for _, u := range *al.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == al {
						if n := c.class(s.Val, seen); n != "" {
							return n
						}
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if n := c.class(e, seen); n != "" {
				return n
			}
		}
	case *ssa.Extract, *ssa.TypeAssert, *ssa.Call, *ssa.Parameter:
		return "value"
	case *ssa.ChangeType:
		return c.class(v.X, seen)
	}
	return "value"
}

// collectBoxed lists, per kind of container, the types of the values that are put into it.
func (c *confine) collectBoxed() {
	c.boxed = map[string]map[types.Type]token.Pos{}
	for _, f := range c.p.funcs {
		if isCopierName(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || len(ci.Common().Args) < 2 {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee != nil && strings.HasPrefix(fnName(callee), "(*container/list.List).") && strings.HasSuffix(fnPkg(f).Path(), "/datastruct") {
					for _, a := range ci.Common().Args[1:] {
						c.box("container/list", a, map[ssa.Value]bool{})
					}
					continue
				}
				if callee == nil || callee.Signature.Recv() == nil || fnPkg(callee) == nil || !strings.HasSuffix(fnPkg(callee).Path(), "/datastruct") {
					continue
				}
				cl := c.class(ci.Common().Args[0], map[ssa.Value]bool{})
				if callee.Signature.Recv() != nil && cl == "value" {
					cl = "value " + shortType(callee.Signature.Recv().Type())
				}
				for _, a := range ci.Common().Args[1:] {
					c.box(cl, a, map[ssa.Value]bool{})
				}
			}
		}
	}
}

func (c *confine) addBoxed(cl string, t types.Type, pos token.Pos) {
	if c.boxed[cl] == nil {
		c.boxed[cl] = map[types.Type]token.Pos{}
	}
	for u := range c.boxed[cl] {
		if types.Identical(u, t) {
			return
		}
	}
	c.boxed[cl][t] = pos
}

func (c *confine) box(cl string, v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.MakeInterface:
		c.addBoxed(cl, v.X.Type(), v.Pos())
	case *ssa.ChangeInterface:
		c.addBoxed(cl, v.X.Type(), v.Pos())
	case *ssa.Phi:
		for _, e := range v.Edges {
			c.box(cl, e, seen)
		}
	case *ssa.Slice:
		c.box(cl, v.X, seen)
	case *ssa.Alloc:
		for _, u := range *v.Referrers() {
			if ia, ok := u.(*ssa.IndexAddr); ok {
				for _, s := range *ia.Referrers() {
					if s, ok := s.(*ssa.Store); ok {
						c.box(cl, s.Val, seen)
					}
				}
			}
			if s, ok := u.(*ssa.Store); ok && s.Addr == v {
				c.box(cl, s.Val, seen)
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			c.box(cl, v.X, seen)
		}
	}
}

func isCopierName(f *ssa.Function) bool { return strings.Contains(strings.ToLower(f.Name()), "copy") }

// mutables: the mutable types that values found in a container of the class may have.
func (c *confine) mutables(cl string) (out []types.Type) {
	for t := range c.boxed[cl] {
		if !immutable(t) && !c.stateless(t) {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return shortType(out[i]) < shortType(out[j]) })
	return out
}

// fresh demands that a value shares no writable memory with what existed before.
func (c *confine) fresh(f *ssa.Function, v ssa.Value, at *ssa.BasicBlock, what string, seen map[ssa.Value]bool) {
	if seen[v] || c.immut(v.Type()) {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return
	case *ssa.Alloc:
		c.content(f, v, what, seen)
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		c.content(f, v.(ssa.Value), what, seen)
	case *ssa.Phi:
		for i, e := range v.Edges {
			c.fresh(f, e, v.Block().Preds[i], what, seen)
		}
	case *ssa.MakeInterface:
		c.fresh(f, v.X, at, what, seen)
	case *ssa.ChangeType:
		c.fresh(f, v.X, at, what, seen)
	case *ssa.ChangeInterface:
		c.fresh(f, v.X, at, what, seen)
	case *ssa.Slice:
		c.fresh(f, v.X, at, what, seen)
	case *ssa.Extract:
		c.fresh(f, v.Tuple, at, what, seen)
	case *ssa.TypeAssert:
		c.fresh(f, v.X, at, what, seen)
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			c.content(f, al, what, seen)
			return
		}
		c.sharedValue(f, v, at, what)
	case *ssa.Call:
		c.freshCall(f, v, at, what, seen)
	default:
		c.sharedValue(f, v, at, what)
	}
}

func (c *confine) immut(t types.Type) bool { return immutable(t) || c.stateless(t) }

func (c *confine) freshCall(f *ssa.Function, v *ssa.Call, at *ssa.BasicBlock, what string, seen map[ssa.Value]bool) {
	if b, ok := v.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range v.Call.Args {
				if b.Name() == "append" && a == v.Call.Args[1] {
					// the elements are copied
					if s, ok := a.Type().Underlying().(*types.Slice); ok && c.immut(s.Elem()) {
						continue
					}
				}
				c.fresh(f, a, at, what, seen)
			}
			return
		}
	}
	if callee := v.Call.StaticCallee(); callee != nil && isEmptyIface(v.Type()) && callee.Signature.Recv() != nil && inRepo(callee) &&
		strings.HasSuffix(fnPkg(callee).Path(), "/datastruct") && !isCopierName(callee) {
		cl := c.class(v.Call.Args[0], map[ssa.Value]bool{})
		if rt := shortType(callee.Signature.Recv().Type()); cl == "value" || strings.Contains(rt, "Iterator") {
			cl = "value " + strings.TrimSuffix(rt, "Iterator")
		}
		c.r.oblig("C23.deep", fnName(f)+" "+c.p.pos(v.Pos()))
		for _, m := range c.mutables(cl) {
			if !c.excluded(v, at, m) {
				c.bad("C23.deep", f, v.Pos(), what+" shares a value of type "+shortType(m)+" with the data commands change")
			}
		}
		return
	}
	ts := c.p.callTargets(v)
	if len(ts) == 0 {
		callee := v.Call.StaticCallee()
		if callee != nil && strings.HasPrefix(fnName(callee), "slices.Clone") {
			if s, ok := v.Type().Underlying().(*types.Slice); ok && c.immut(s.Elem()) {
				return
			}
		}
		if callee != nil && (strings.HasPrefix(fnName(callee), "container/list.New") || strings.HasPrefix(fnName(callee), "os.") || strings.HasPrefix(fnName(callee), "bufio.New")) {
			return
		}
		c.unsure(f, v.Pos(), "whether a library call gives "+what+" memory of its own")
		return
	}
	for _, t := range ts {
		if !inRepo(t) {
			callee := v.Call.StaticCallee()
			nm := ""
			if callee != nil {
				nm = fnName(callee)
			}
			if strings.HasPrefix(nm, "container/list.New") {
				c.content(f, v, what, seen)
				continue
			}
			c.unsure(f, v.Pos(), "whether "+nm+" gives "+what+" memory of its own")
			continue
		}
		c.copier(t, v, what)
	}
	// what the call was given may be part of the result if the function keeps it: the function is checked for that;
	// what is put in afterwards:
	c.content(f, v, what, seen)
	for i, a := range v.Call.Args {
		if isDictPtr(a.Type()) && len(ts) == 1 && inRepo(ts[0]) && c.keepsElements(ts[0]) {
			cl := c.class(a, map[ssa.Value]bool{})
			if cl == "value" {
				cl = "value *datastruct.Dict"
			}
			c.r.oblig("C23.deep", cl)
			for _, m := range c.mutables(cl) {
				c.bad("C23.deep", f, v.Pos(), "a copy of "+cl+" made by "+fnName(ts[0])+" shares its values of type "+shortType(m))
			}
			_ = i
		}
	}
}

func isDictPtr(t types.Type) bool { return shortType(t) == "*datastruct.Dict" }

// keepsElements: the function copies a dictionary without looking at the types of the values.
func (c *confine) keepsElements(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && fieldName(u.X) == fEntryVal && u.Referrers() != nil {
				for _, x := range *u.Referrers() {
					if _, ok := x.(ssa.CallInstruction); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// copier demands that the results of a function share no writable memory with its parameters or anything else.
func (c *confine) copier(f *ssa.Function, site *ssa.Call, what string) {
	if c.copiers[f] != 0 {
		return
	}
	c.copiers[f] = 1
	c.r.funcs[fnName(f)] = true
	c.r.oblig("C23.copy", fnName(f))
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				for _, v := range ret.Results {
					c.fresh(f, v, b, "the result of "+fnName(f), map[ssa.Value]bool{})
				}
			}
		}
	}
	c.copiers[f] = 2
}

// content demands the same of everything that is put into a value.
func (c *confine) content(f *ssa.Function, v ssa.Value, what string, seen map[ssa.Value]bool) {
	if v.Referrers() == nil {
		return
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == v {
				c.fresh(f, u.Val, u.Block(), what, seen)
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			w := u.(ssa.Value)
			if !seen[w] {
				seen[w] = true
				c.content(f, w, what, seen)
			}
		case *ssa.UnOp:
			// a part of the value, itself filled later
			if u.Op == token.MUL && !c.immut(u.Type()) && !seen[u] {
				seen[u] = true
				c.content(f, u, what, seen)
			}
		case *ssa.MapUpdate:
			if u.Map == v {
				c.fresh(f, u.Value, u.Block(), what, seen)
			}
		case *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface:
			w := u.(ssa.Value)
			if !seen[w] {
				seen[w] = true
				c.content(f, w, what, seen)
			}
		case ssa.CallInstruction:
			c.passedWith(f, u, v, what, seen)
		}
	}
}

// passedWith: a function called on a value of its own may put into it what it is given besides.
func (c *confine) passedWith(f *ssa.Function, ci ssa.CallInstruction, v ssa.Value, what string, seen map[ssa.Value]bool) {
	args := append([]ssa.Value{}, ci.Common().Args...)
	if b, ok := ci.Common().Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if w, ok := ci.(ssa.Value); ok && args[0] == v && !seen[w] {
				c.freshCall(f, ci.(*ssa.Call), ci.Block(), what, seen)
			}
			return
		case "copy":
			if args[0] == v {
				if s, ok := args[1].Type().Underlying().(*types.Slice); ok && !c.immut(s.Elem()) {
					c.fresh(f, args[1], ci.Block(), what, seen)
				}
			}
			return
		default:
			return
		}
	}
	if _, ok := ci.(*ssa.Go); ok {
		return
	}
	own := false
	for _, a := range args {
		own = own || a == v
	}
	if !own {
		return
	}
	first := len(args) > 0 && args[0] == v
	for _, a := range args {
		if a == v || c.immut(a.Type()) || seen[a] {
			continue
		}
		if !first {
			// the value is passed to another object
			if isFreshish(a) {
				continue
			}
			continue
		}
		c.fresh(f, a, ci.Block(), what, seen)
	}
}

func isFreshish(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	}
	return false
}

// sharedValue: a value that existed before becomes part of a copy.
func (c *confine) sharedValue(f *ssa.Function, v ssa.Value, at *ssa.BasicBlock, what string) {
	c.r.oblig("C23.deep", fnName(f)+" "+c.p.pos(v.Pos()))
	t := v.Type()
	if _, ok := t.Underlying().(*types.Interface); !ok {
		if _, isPar := v.(*ssa.Parameter); isPar && c.fine(t) {
			return
		}
		c.bad("C23.deep", f, v.Pos(), what+" shares memory of type "+shortType(t)+" with the data commands change")
		return
	}
	// an element of a container: its type must be one that cannot be changed
	if u, ok := v.(*ssa.UnOp); ok && fieldName(u.X) == fEntryKey {
		return
	}
	var ms []types.Type
	cl := ""
	elem := false
	if u, ok := v.(*ssa.UnOp); ok {
		n := fieldName(u.X)
		elem = n == "list.Element.Value" || n == "container/list.Element.Value"
	}
	switch {
	case elem:
		cl = "container/list"
		ms = c.mutables(cl)
	case f.Signature.Recv() != nil && isDictPtr(f.Signature.Recv().Type()):
		return // decided where it is called
	case f.Signature.Recv() != nil && strings.Contains(shortType(f.Signature.Recv().Type()), "datastruct.Quicklist"):
		cl = "value *datastruct.Quicklist"
		ms = c.mutables(cl)
	case f.Signature.Recv() != nil && strings.HasSuffix(shortType(f.Signature.Recv().Type()), "datastruct.Set"):
		cl = "datastruct.Set.dict"
		ms = c.mutables(cl)
	case f.Signature.Recv() != nil && strings.HasSuffix(shortType(f.Signature.Recv().Type()), "datastruct.Zset"):
		cl = "datastruct.Zset.dict"
		ms = c.mutables(cl)
	default:
		cl = "database.Databse.Dict"
		ms = c.mutables(cl)
	}
	for _, m := range ms {
		if !c.excluded(v, at, m) {
			c.bad("C23.deep", f, v.Pos(), what+" shares a value of type "+shortType(m)+" with the data commands change")
		}
	}
}

// excluded: the block is reached only if the value does not have the type.
func (c *confine) excluded(v ssa.Value, at *ssa.BasicBlock, m types.Type) bool {
	var refs []ssa.Instruction
	if v.Referrers() != nil {
		refs = *v.Referrers()
	}
	for _, u := range refs {
		ta, ok := u.(*ssa.TypeAssert)
		if !ok || !ta.CommaOk || ta.Referrers() == nil {
			continue
		}
		match := types.Identical(ta.AssertedType, m)
		if it, ok := ta.AssertedType.Underlying().(*types.Interface); ok {
			match = types.Implements(m, it)
		}
		if !match {
			continue
		}
		for _, e := range *ta.Referrers() {
			ex, ok := e.(*ssa.Extract)
			if !ok || ex.Index != 1 || ex.Referrers() == nil {
				continue
			}
			for _, br := range *ex.Referrers() {
				i, ok := br.(*ssa.If)
				if !ok {
					continue
				}
				no := i.Block().Succs[1]
				if len(no.Preds) == 1 && no.Dominates(at) {
					return true
				}
				if no == at || at == i.Block() {
					return true // the edge itself
				}
			}
		}
	}
	return false
}
