package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Queries over the call graph of the repository. Dynamic calls are resolved by signature: a call of a function value
// may reach every repository function whose address is taken and whose signature matches.

// callees lists the repository functions an instruction may call; go statements are not calls of the same goroutine.
func (p *Prog) calleesOf(in ssa.Instruction) []*ssa.Function {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	if _, isGo := in.(*ssa.Go); isGo {
		return nil
	}
	return p.callTargets(ci)
}

func (p *Prog) callTargets(ci ssa.CallInstruction) []*ssa.Function {
	cc := ci.Common()
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{unwrapBound(p, f)}
	}
	if cc.IsInvoke() {
		var out []*ssa.Function
		for _, f := range p.funcs {
			if f.Signature.Recv() != nil && f.Name() == cc.Method.Name() && types.Implements(f.Signature.Recv().Type(), cc.Value.Type().Underlying().(*types.Interface)) {
				out = append(out, f)
			}
		}
		return out
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	// a closure or function kept in a local variable
	if fs := localFuncs(cc.Value, map[ssa.Value]bool{}); fs != nil {
		for i := range fs {
			fs[i] = unwrapBound(p, fs[i])
		}
		return fs
	}
	var out []*ssa.Function
	for _, f := range p.addressTaken() {
		if types.Identical(sigNoRecv(f.Signature), sigNoRecv(cc.Signature())) {
			out = append(out, f)
		}
	}
	return out
}

func sigNoRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func unwrapBound(p *Prog, f *ssa.Function) *ssa.Function {
	if strings.HasSuffix(f.Name(), "$bound") || strings.HasSuffix(f.Name(), "$thunk") {
		if o, ok := f.Object().(*types.Func); ok {
			if m := p.ssa.FuncValue(o); m != nil {
				return m
			}
		}
	}
	return f
}

// localFuncs follows a function value through phis and closures; nil if it may come from elsewhere.
func localFuncs(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return []*ssa.Function{}
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return localFuncs(v.X, seen)
	case *ssa.Phi:
		out := []*ssa.Function{}
		for _, e := range v.Edges {
			fs := localFuncs(e, seen)
			if fs == nil {
				return nil
			}
			out = append(out, fs...)
		}
		return out
	case *ssa.UnOp:
		// a variable captured by reference
		if a, ok := v.X.(*ssa.Alloc); ok {
			out := []*ssa.Function{}
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					fs := localFuncs(s.Val, seen)
					if fs == nil {
						return nil
					}
					out = append(out, fs...)
				}
			}
			return out
		}
	}
	return nil
}

// addressTaken lists the repository functions used as values.
func (p *Prog) addressTaken() []*ssa.Function {
	if p.addrTaken != nil {
		return p.addrTaken
	}
	set := map[*ssa.Function]bool{}
	fns := append([]*ssa.Function{}, p.funcs...)
	for _, f := range p.byName {
		if f.Name() == "init" && f.Synthetic != "" {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					set[unwrapBound(p, mc.Fn.(*ssa.Function))] = true
					continue
				}
				first := true
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if *op == callee && first {
							first = false
							continue
						}
						set[unwrapBound(p, g)] = true
					}
				}
			}
		}
	}
	for f := range set {
		if inRepo(f) {
			p.addrTaken = append(p.addrTaken, f)
		}
	}
	sort.Slice(p.addrTaken, func(i, j int) bool { return fnName(p.addrTaken[i]) < fnName(p.addrTaken[j]) })
	return p.addrTaken
}

// reach lists the repository functions that may run on the same goroutine when one of the roots is called, without
// entering the functions in stop.
func (p *Prog) reach(roots []*ssa.Function, stop map[*ssa.Function]bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && !stop[f] && inRepo(f) {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, f := range roots {
		add(f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, g := range p.calleesOf(in) {
					add(g)
				}
				// function values handed to a library call may be called there
				if ci, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					if g := ci.Common().StaticCallee(); g != nil && !inRepo(g) {
						for _, a := range ci.Common().Args {
							for _, h := range localFuncs(a, map[ssa.Value]bool{}) {
								add(unwrapBound(p, h))
							}
						}
					}
				}
			}
		}
	}
	return seen
}

// callSites lists the calls (not go statements) of fn in the repository.
func (p *Prog) callSites(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callTargets(ci) {
						if g == fn {
							out = append(out, ci)
						}
					}
				}
			}
		}
	}
	return out
}

// libCalls lists the call sites of a library function given by its canonical name.
func (p *Prog) libCalls(name string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && fnName(g) == name {
						out = append(out, ci)
					}
				}
			}
		}
	}
	return out
}

// fieldStores lists the store instructions into a field given as package.Type.field.
func (p *Prog) fieldStores(field string) []*ssa.Store {
	var out []*ssa.Store
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && fieldName(s.Addr) == field {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

// fieldName names the field a value is the address of.
func fieldName(v ssa.Value) string {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	s, name := structOf(fa.X.Type())
	return name + "." + s.Field(fa.Field).Name()
}

// fileProcs lists the functions registered as file event handlers: address-taken functions with the signature of
// ae.FileProc.
func (p *Prog) fileProcs() []*ssa.Function { return p.takenOfType("ae", "FileProc") }
func (p *Prog) timeProcs() []*ssa.Function { return p.takenOfType("ae", "TimeProc") }
func (p *Prog) sleepProcs() []*ssa.Function {
	return p.takenOfType("ae", "BeforeSleepProc")
}

func (p *Prog) takenOfType(pkg, name string) []*ssa.Function {
	t := p.namedType(pkg, name)
	if t == nil {
		return nil
	}
	sig, ok := t.Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range p.addressTaken() {
		if types.Identical(sigNoRecv(f.Signature), sigNoRecv(sig)) {
			out = append(out, f)
		}
	}
	return out
}
