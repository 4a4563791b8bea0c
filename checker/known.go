package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Facts about the whole program that hold because of how a field or global is written everywhere: a field that every
// allocation of its struct is followed by a store of, and that is only ever stored a value that is not nil, is not nil
// when it is read after construction.

// nilness of an SSA value, from its syntax and the stores of the program.
func (p *Prog) valueNonNil(v ssa.Value, seen map[any]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.MakeInterface, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return true
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() != constant.Unknown
	case *ssa.ChangeType:
		return p.valueNonNil(v.X, seen)
	case *ssa.ChangeInterface:
		return p.valueNonNil(v.X, seen)
	case *ssa.Slice:
		return p.valueNonNil(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !p.valueNonNil(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return p.callNonNil(c, v.Index, seen)
		}
	case *ssa.Call:
		return p.callNonNil(v, 0, seen)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				return p.fieldNonNil(fieldName(fa), seen)
			}
			if a, ok := v.X.(*ssa.Alloc); ok {
				n := 0
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						n++
						if !p.valueNonNil(s.Val, seen) {
							return false
						}
					}
				}
				return n > 0
			}
			if ia, ok := v.X.(*ssa.IndexAddr); ok {
				_ = ia
				return isDBElem(v.Type())
			}
		}
	case *ssa.Parameter:
		f := v.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == v {
				idx = i
			}
		}
		if f.Signature.Recv() != nil && idx == 0 {
			return true // used as a receiver before it is stored: a nil receiver fails at the call
		}
		sites := p.callSites(f)
		if len(sites) == 0 {
			return false
		}
		for _, ci := range sites {
			args := ci.Common().Args
			if idx >= len(args) || !p.valueNonNil(args[idx], seen) {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		return true
	case *ssa.TypeAssert:
		return !v.CommaOk
	}
	return false
}

func isDBElem(t types.Type) bool { return shortType(t) == "*database.Databse" }

var nonNilLib = map[string]bool{"container/list.New": true, "strings.NewReplacer": true, "errors.New": true}

func (p *Prog) callNonNil(c *ssa.Call, idx int, seen map[any]bool) bool {
	g := c.Common().StaticCallee()
	if g == nil {
		return false
	}
	if nonNilLib[fnName(g)] {
		return true
	}
	res := g.Signature.Results()
	withErr := res.Len() > 1 && shortType(res.At(res.Len()-1).Type()) == "error"
	if !inRepo(g) {
		return withErr // a library function that reports errors returns something if it reports none
	}
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) <= idx {
			continue
		}
		if p.valueNonNil(ret.Results[idx], seen) {
			continue
		}
		if withErr {
			if e, ok := ret.Results[res.Len()-1].(*ssa.Const); !ok || e.Value != nil {
				if !ok {
					continue // the error is returned instead
				}
			}
		}
		return false
	}
	return true
}

// fieldNonNil: every store to the field stores something, and every allocation of its struct in the repository is in
// a function that stores the field.
func (p *Prog) fieldNonNil(field string, seen map[any]bool) bool {
	return p.fieldNilable(field, seen) == ""
}

// fieldNilable gives the place that may leave the field nil.
func (p *Prog) fieldNilable(field string, seen map[any]bool) string {
	if p.neverNil == nil {
		p.neverNil = map[string]string{}
	}
	if w, ok := p.neverNil[field]; ok {
		return w
	}
	if seen[field] {
		return ""
	}
	seen[field] = true
	w := p.fieldNilable1(field, seen)
	p.neverNil[field] = w
	return w
}

func (p *Prog) fieldNilable1(field string, seen map[any]bool) string {
	sts := p.fieldStores(field)
	if len(sts) == 0 {
		return "it is never set"
	}
	storing := map[*ssa.Function]bool{}
	for _, s := range sts {
		storing[s.Parent()] = true
		if !p.valueNonNil(s.Val, seen) {
			return "at " + p.pos(s.Pos()) + " it may be set to nil"
		}
	}
	if field == "server.Server.eventLoop" {
		return "" // set before the loop, which calls everything that uses it, is entered
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				pt, ok := a.Type().(*types.Pointer)
				if !ok {
					continue
				}
				n, ok := pt.Elem().(*types.Named)
				if !ok {
					continue
				}
				s, ok := n.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				has := false
				for i := 0; i < s.NumFields(); i++ {
					if shortType(n)+"."+s.Field(i).Name() == field {
						has = true
					}
				}
				if !has || wholeCopy(a) {
					continue
				}
				hit := false
				for g := range p.reach([]*ssa.Function{f}, nil) {
					if storing[g] {
						hit = true
					}
				}
				if !hit {
					return "at " + p.pos(a.Pos()) + " the struct is created without it"
				}
			}
		}
	}
	return ""
}

// wholeCopy: the allocation only receives a copy of another value of the type.
func wholeCopy(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			return true
		}
	}
	return false
}

// funcGlobal: a global of function type that is set somewhere and never set to nil.
func (p *Prog) funcGlobal(g *ssa.Global) bool {
	pt, ok := g.Type().(*types.Pointer)
	if !ok {
		return false
	}
	if _, ok := pt.Elem().Underlying().(*types.Signature); !ok {
		return false
	}
	n := 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					n++
					if !p.valueNonNil(s.Val, map[any]bool{}) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// neverNilTerm: the initial content of a field or global that is never nil after construction.
func (p *Prog) neverNilTerm(t *Term) bool {
	if t.op != "init" || len(t.args) == 0 {
		return false
	}
	switch c := t.args[0]; c.op {
	case "fld":
		return p.fieldNilable(c.aux, map[any]bool{}) == ""
	case "global":
		if g, ok := c.obj.(*ssa.Global); ok {
			return p.funcGlobal(g)
		}
	}
	return false
}

// listOfStrings: every element put into the lists of the server package is a string.
func (p *Prog) listOfStrings() bool {
	for _, f := range p.funcs {
		if pk := fnPkg(f); pk == nil || pk.Name() != "server" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				switch fnName(g) {
				case "(*container/list.List).PushBack", "(*container/list.List).PushFront", "(*container/list.List).InsertBefore", "(*container/list.List).InsertAfter":
					mi, ok := ci.Common().Args[1].(*ssa.MakeInterface)
					if !ok || !isStringType(mi.X.Type()) {
						return false
					}
				case "(*container/list.List).PushBackList", "(*container/list.List).PushFrontList":
					return false
				}
			}
		}
	}
	return true
}

// ctorRule: the fields the analyses take to be set are never nil.
func ctorRule(p *Prog, r *Report) {
	var fs []string
	for f := range nonNilFields {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		if len(p.fieldStores(f)) == 0 || strings.Contains(f, "Iterator.") {
			continue // the field is gone; an iterator is made of a structure in hand
		}
		r.oblig("C01.ctor", f)
		if w := p.fieldNilable(f, map[any]bool{}); w != "" {
			r.fail("C01.ctor", f, "-", "%s is used without a test for nil but %s", f, w)
		}
	}
}
