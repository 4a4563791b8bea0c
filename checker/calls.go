package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) prepCall(st *State, in ssa.CallInstruction) *Call {
	cc := in.Common()
	c := &Call{instr: in, sig: cc.Signature()}
	if cc.IsInvoke() {
		recv := x.val(st, cc.Value)
		var args []*Term
		for _, a := range cc.Args {
			args = append(args, x.val(st, a))
		}
		if recv.op == "iface" {
			if ty, ok := recv.obj.(types.Type); ok {
				if m := x.p.ssa.LookupMethod(ty, cc.Method.Pkg(), cc.Method.Name()); m != nil {
					c.fn = m
					c.name = fnName(m)
					c.args = append([]*Term{recv.args[0]}, args...)
					return c
				}
			}
		}
		c.name = "(" + shortType(cc.Value.Type()) + ")." + cc.Method.Name()
		c.args = append([]*Term{recv}, args...)
		return c
	}
	for _, a := range cc.Args {
		c.args = append(c.args, x.val(st, a))
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		c.name = "builtin." + v.Name()
		return c
	case *ssa.Function:
		c.fn = v
		c.name = fnName(v)
		return c
	}
	t := x.val(st, cc.Value)
	x.bindFuncTerm(c, t)
	return c
}

func (x *Exec) bindFuncTerm(c *Call, t *Term) {
	c.fnT = t
	switch t.op {
	case "func", "closure":
		c.fn = t.obj.(*ssa.Function)
		c.name = fnName(c.fn)
		// bound method wrappers call the method on the bound receiver
		if strings.HasSuffix(c.name, "$bound") && len(t.args) == 1 {
			if o, ok := c.fn.Object().(*types.Func); ok {
				if m := x.p.ssa.FuncValue(o); m != nil {
					c.fn, c.name, c.fnT = m, fnName(m), nil
					c.args = append([]*Term{t.args[0]}, c.args...)
				}
			}
		}
	case "init":
		if t.args[0].op == "global" {
			c.name = "var " + t.args[0].aux
		} else if t.args[0].op == "fld" {
			c.name = "field " + t.args[0].aux
		}
	case "gconst":
		c.name = "var " + t.aux
	default:
		c.name = "dynamic"
		if t.op == "app" {
			c.name = "dynamic " + t.aux
		}
	}
}

func (x *Exec) call(st *State, f *Frame, in *ssa.Call) ([]*State, bool) {
	return x.doCall(st, f, x.prepCall(st, in))
}

func (x *Exec) doCall(st *State, f *Frame, c *Call) ([]*State, bool) {
	if c.fnT != nil && c.fn == nil {
		x.needNonNil(st, c.fnT, c.instr, "call")
	}
	if c.fn == nil && c.fnT == nil && !strings.HasPrefix(c.name, "builtin.") && len(c.args) > 0 {
		// unresolved interface call
		x.needNonNil(st, c.args[0], c.instr, "method call")
	}
	if x.h.Call != nil {
		if outs, ok := x.h.Call(x, st, c); ok {
			return x.finish(c, outs)
		}
	}
	if m := findModel(c); m != nil {
		return x.finish(c, m(x, st, c))
	}
	if c.fn != nil && c.fn.Blocks != nil && x.mayInline(st, c.fn) {
		return x.push(st, f, c)
	}
	return x.finish(c, x.unknownCall(st, c))
}

func (x *Exec) mayInline(st *State, fn *ssa.Function) bool {
	if fn.Synthetic != "" && !inRepo(fn) {
		return false
	}
	if !inRepo(fn) {
		return false
	}
	if x.h.Inline != nil && !x.h.Inline(fn) {
		return false
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n >= 3 || len(st.frames) > 40 {
		x.giveUp("recursion of %s is too deep", fnName(fn))
		return false
	}
	return true
}

func (x *Exec) push(st *State, f *Frame, c *Call) ([]*State, bool) {
	fn := c.fn
	nf := &Frame{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]*Term{}, site: c.instr, isDef: c.isDef, ctx: x.ctx(f.ctx, c.instr)}
	if len(fn.Params) != len(c.args) {
		x.giveUp("argument mismatch calling %s", fnName(fn))
		return nil, false
	}
	for i, p := range fn.Params {
		nf.env[p] = c.args[i]
	}
	if len(fn.FreeVars) > 0 {
		if c.fnT == nil || len(c.fnT.args) != len(fn.FreeVars) {
			x.giveUp("closure bindings of %s not available", fnName(fn))
			return nil, false
		}
		for i, fv := range fn.FreeVars {
			nf.env[fv] = c.fnT.args[i]
		}
	}
	x.inlined[fn] = true
	st.frames = append(st.frames, nf)
	st.jumped = true
	return []*State{st}, false
}

// finish installs the outcomes of a call that was not inlined.
func (x *Exec) finish(c *Call, outs []Outcome) ([]*State, bool) {
	var res []*State
	for _, o := range outs {
		f := o.st.top()
		if !c.isDef {
			var rt *Term
			switch len(o.res) {
			case 0:
				rt = tUnit
			case 1:
				rt = o.res[0]
			default:
				rt = mk("tuple", "", o.res...)
			}
			if v, ok := c.instr.(ssa.Value); ok {
				if rt.typ == nil && rt.op == "sym" {
					rt.typ = v.Type()
				}
				f.env[v] = rt
			}
			if x.h.AfterCall != nil {
				x.h.AfterCall(x, o.st, c, o.res)
			}
			f.idx++
		}
		o.st.jumped = false
		res = append(res, o.st)
	}
	return res, false
}

// callFn makes an outcome that enters fn with the given arguments (used by models of higher-order functions).
func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	}
	return false
}

// unknownCall: results are unknown, memory reachable through pointer arguments may have changed.
func (x *Exec) unknownCall(st *State, c *Call) []Outcome {
	site := mk("site", x.siteName(st, "call "+c.name))
	for _, a := range c.args {
		x.havocArg(st, a, site)
	}
	return x.freshResults(st, c)
}

func (x *Exec) havocArg(st *State, a *Term, site *Term) {
	switch a.op {
	case "alloc", "fld", "elem":
		st.havocObject(a, site)
	case "slice":
		st.havocObject(a.args[0], site)
	case "iface":
		if ty, ok := a.obj.(types.Type); ok && isRefType(ty) {
			x.havocArg(st, a.args[0], site)
		}
	case "init", "sym", "app":
		if a.typ != nil {
			if _, ok := a.typ.Underlying().(*types.Pointer); ok {
				st.havocObject(a, site)
			}
		}
	}
}

// freshResults forks on a trailing error result.
func (x *Exec) freshResults(st *State, c *Call) []Outcome {
	if c.sig == nil {
		return []Outcome{{st: st}}
	}
	rs := c.sig.Results()
	n := rs.Len()
	var res []*Term
	for i := 0; i < n; i++ {
		res = append(res, x.fresh(st, fmt.Sprintf("r%d:%s", i, c.name), rs.At(i).Type()))
	}
	if n > 0 && isErrorType(rs.At(n-1).Type()) {
		s2 := st.clone()
		e := res[n-1]
		s2.assume(mkCmp("eq", e, tNil), false)
		s2.note("%s: %s fails", x.p.pos(c.instr.Pos()), c.name)
		ok := append(append([]*Term{}, res[:n-1]...), tNil)
		for _, t := range res[:n-1] {
			if t.typ != nil {
				_, isPtr := t.typ.Underlying().(*types.Pointer)
				_, isIface := t.typ.Underlying().(*types.Interface)
				if isPtr || isIface && c.fn == nil || isIface && !inRepo(c.fn) {
					st.assume(mkCmp("eq", t, tNil), false)
				}
			}
		}
		return []Outcome{{st, ok}, {s2, res}}
	}
	return []Outcome{{st, res}}
}
