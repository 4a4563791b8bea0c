package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// The encoder of the log: a function that renders its []string argument as one command. It is recognised by its
// shape and verified by itself (C18.encode): on every path the text is the header with the number of arguments
// followed, for each argument in order, by its byte length and its bytes.

type encShape struct {
	args int // index of the []string parameter
	sb   int // index of the text accumulator it appends to, or -1 if it returns the text
}

func isStringSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isStringType(s.Elem())
}

func isTextAccu(t types.Type) bool {
	s := shortType(t)
	return s == "*strings.Builder" || s == "*bytes.Buffer"
}

// encoderCands finds the functions of the server package that render a []string in a loop.
func (p *Prog) encoderCands() map[*ssa.Function]encShape {
	if p.encCands != nil {
		return p.encCands
	}
	p.encCands = map[*ssa.Function]encShape{}
	for _, f := range p.funcs {
		pk := fnPkg(f)
		if pk == nil || pk.Name() != "server" || f.Parent() != nil || f.Blocks == nil {
			continue
		}
		sh := encShape{args: -1, sb: -1}
		bad := false
		for i, q := range f.Params {
			switch {
			case isStringSlice(q.Type()) && sh.args < 0:
				sh.args = i
			case isTextAccu(q.Type()) && sh.sb < 0:
				sh.sb = i
			default:
				bad = true
			}
		}
		rs := f.Signature.Results()
		if sh.args < 0 || bad || sh.sb < 0 && (rs.Len() != 1 || !isStringType(rs.At(0).Type())) || sh.sb >= 0 && rs.Len() > 0 && !(rs.Len() == 1 && isErrorType(rs.At(0).Type())) {
			continue
		}
		if !p.loopsOver(f, f.Params[sh.args]) || p.otherEffects(f, sh) {
			continue
		}
		p.encCands[f] = sh
	}
	return p.encCands
}

// loopsOver: the function, or a helper it hands the slice to, indexes the slice in a loop.
func (p *Prog) loopsOver(f *ssa.Function, q ssa.Value) bool {
	if len(p.loopsOf(f).heads) == 0 {
		return false
	}
	for _, r := range *q.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr, *ssa.Range, *ssa.Slice:
			return true
		case *ssa.Phi:
			_ = r
			return true
		}
	}
	return false
}

// otherEffects: the function touches anything but its own locals and the accumulator.
func (p *Prog) otherEffects(f *ssa.Function, sh encShape) bool {
	for g := range p.reach([]*ssa.Function{f}, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if n := fieldName(in.Addr); n != "" {
						return true
					}
				case *ssa.Go, *ssa.Send, *ssa.Defer, *ssa.MapUpdate:
					return true
				}
			}
		}
	}
	return false
}

const encText = "enc*"

type encAn struct {
	p    *Prog
	r    *Report
	args *Term
	sb   *Term
}

func (a *encAn) elem(x *Exec, st *State, t *Term, k *Term) bool {
	base, off, _ := x.sliceParts(a.args)
	e := st.load(mkFull("elem", "", stringType, nil, nil, base, tAdd(off, k)), stringType)
	if e == t || st.equalTerms(e, t) {
		return true
	}
	return t.op == "init" && t.args[0].op == "elem" && t.args[0].args[0] == base && st.provesEqInt(t.args[0].args[1], tAdd(off, k))
}

// norm replaces the text of a header and k complete arguments by one term; k is kept in a ghost variable.
func (a *encAn) norm(x *Exec, st *State, t *Term) (*Term, bool) {
	ts := toksOf(t)
	if len(ts) == 0 {
		return t, false
	}
	k := st.ghost("k")
	i := 0
	line := func(kind byte) *Term {
		if i >= len(ts) || ts[i].t != nil || ts[i].ch != kind {
			return nil
		}
		j := i + 1
		for j < len(ts) && !crlfAt(ts, j) {
			j++
		}
		if j >= len(ts) {
			return nil
		}
		n := intOf(ts[i+1 : j])
		i = j + 2
		return n
	}
	if ts[0].t != nil && ts[0].t.op == "app" && ts[0].t.aux == encText {
		i = 1
	} else {
		n := line('*')
		if n == nil || !st.provesEqInt(n, lenOf(a.args)) {
			return t, false
		}
		k = tZero
	}
	for i < len(ts) {
		n := line('$')
		if n == nil || i >= len(ts) || ts[i].t == nil || !crlfAt(ts, i+1) {
			return t, false
		}
		e := ts[i].t
		if !st.provesEqInt(n, lenOf(e)) || !a.elem(x, st, e, k) {
			return t, false
		}
		i += 3
		k = tAdd(k, tOne)
	}
	st.setGhost("k", k)
	return mkFull("app", encText, stringType, nil, nil, a.args), true
}

func (a *encAn) canon(x *Exec, st *State) {
	done := map[*Term]*Term{}
	one := func(t *Term) *Term {
		if t == nil || t.op != "concat" && !(t.op == "app" && t.aux == encText) {
			return t
		}
		if v, ok := done[t]; ok {
			return v
		}
		if len(done) > 0 && t.op == "app" {
			return t
		}
		v, ok := a.norm(x, st, t)
		if ok {
			done[t] = v
		}
		return v
	}
	var cells []*Term
	for c := range st.mem {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, c := range cells {
		if v := st.mem[c]; v.op == "concat" {
			st.mem[c] = one(v)
		}
	}
	for _, f := range st.frames {
		for v, t := range f.env {
			if t.op == "concat" {
				f.env[v] = one(t)
			}
		}
	}
}

func (p *Prog) verifyEncoder(r *Report, f *ssa.Function, sh encShape) {
	a := &encAn{p: p, r: r}
	h := &Hooks{Canon: a.canon}
	paths := 0
	h.Return = func(x *Exec, st *State, res []*Term) {
		paths++
		var t *Term
		if sh.sb >= 0 {
			t = st.load(sbCell(a.sb), stringType)
			if sx, ok := t.strVal(); ok && sx == "" {
				x.violate(st, "C18.encode", fnName(f), f.Pos(), "nothing is written")
				return
			}
		} else if len(res) > 0 {
			t = res[0]
		}
		if t == nil {
			x.giveUp("no text returned by %s", fnName(f))
			return
		}
		n, ok := a.norm(x, st, t)
		if !ok || n.op != "app" {
			x.violate(st, "C18.encode", fnName(f), f.Pos(), "the text %v is not the encoding of the arguments: header with their number, then length and bytes of each in order", t)
			return
		}
		if !st.provesEqInt(st.ghost("k"), lenOf(a.args)) {
			x.violate(st, "C18.encode", fnName(f), f.Pos(), "the text holds %v arguments of %v", st.ghost("k"), lenOf(a.args))
		}
	}
	x := newExec(p, r, h)
	x.entry = fnName(f)
	st := newState()
	var args []*Term
	for i, q := range f.Params {
		v := sym(q.Name(), q.Type())
		if i == sh.args {
			a.args = v
		}
		if i == sh.sb {
			a.sb = nonNil(st, v)
			st.mem[sbCell(v)] = mkStr("")
		}
		args = append(args, v)
	}
	x.Run(f, st, args, nil)
	if paths == 0 {
		r.fail("undecided", fnName(f), p.pos(f.Pos()), "no path to the end of the encoder found")
	}
	r.use(x)
}

// encoderRule: every encoder of the log is right.
func encoderRule(p *Prog, r *Report) {
	c := p.encoderCands()
	if len(c) == 0 {
		r.fail("undecided", "encoder", "-", "no function that encodes log records found")
		return
	}
	var fs []*ssa.Function
	for f := range c {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	for _, f := range fs {
		r.oblig("C18.encode", fnName(f))
		p.verifyEncoder(r, f, c[f])
	}
}
