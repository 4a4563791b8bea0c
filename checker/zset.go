package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The two views of a sorted set: the dictionary from members to elements and the ordered list. Every exported operation
// is explored from a state in which they agree; a member is added to the model when an operation first touches it.

const (
	fElScore  = "datastruct.ZsetElement.Score"
	fElMember = "datastruct.ZsetElement.Member"
	fNdScore  = "datastruct.SkiplistNode.Score"
	fNdMember = "datastruct.SkiplistNode.Member"
	tSkip     = "(*datastruct.Skiplist)."
)

type zsetAn struct {
	p    *Prog
	r    *Report
	root *ssa.Function
	z    *Term
	rts  map[*ssa.Function]bool
}

func (p *Prog) methodsOf(pkg, typ string) (out []*ssa.Function) {
	for _, f := range p.funcs {
		if f.Parent() != nil || f.Signature.Recv() == nil || len(f.Blocks) == 0 {
			continue
		}
		if strings.HasPrefix(fnName(f), "(*"+pkg+"."+typ+").") {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// apiRoots: the exported methods of a type, and the unexported functions nobody in the package calls.
func (p *Prog) apiRoots(pkg, typ string) (out []*ssa.Function) {
	for _, f := range p.methodsOf(pkg, typ) {
		if f.Object() != nil && f.Object().Exported() {
			out = append(out, f)
		}
	}
	return out
}

func zdCell(m *Term) *Term { return mk("zd", "", m) }
func zsCell(m *Term) *Term { return mk("zs", "", m) }

var tAbsent = mk("absent", "")

func (a *zsetAn) el(st *State, el *Term, f string) *Term {
	ty := types.Type(stringType)
	if f == fElScore {
		ty = types.Typ[types.Float64]
	}
	return st.load(fldOf(f, ty, el), ty)
}

// know adds a member to the model: both views have it, with one score, or neither has.
func (a *zsetAn) know(x *Exec, st *State, m *Term, found, missing func(*State, *Term) []Outcome) []Outcome {
	if v := st.mem[zdCell(m)]; v != nil {
		if v == tAbsent {
			return missing(st, nil)
		}
		return found(st, v)
	}
	if v := st.mem[zsCell(m)]; v == tAbsent && st.hasFact("removed", m) {
		// taken out of the order by a removal of a range, still in the dictionary
		el := nonNil(st, x.fresh(st, "element", types.NewPointer(a.p.namedType("datastruct", "ZsetElement"))))
		st.mem[zdCell(m)] = el
		return found(st, el)
	}
	s2 := st.clone()
	el := nonNil(st, x.fresh(st, "element", types.NewPointer(a.p.namedType("datastruct", "ZsetElement"))))
	st.mem[fldOf(fElMember, stringType, el)] = m
	st.mem[zdCell(m)] = el
	st.mem[zsCell(m)] = a.el(st, el, fElScore)
	st.note("%v is a member", m)
	s2.mem[zdCell(m)] = tAbsent
	s2.mem[zsCell(m)] = tAbsent
	s2.note("%v is not a member", m)
	return append(found(st, el), missing(s2, nil)...)
}

func (a *zsetAn) call(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	pos := c.instr.Pos()
	switch {
	case strings.HasPrefix(c.name, tDict):
		switch strings.TrimPrefix(c.name, tDict) {
		case "Find", "Get":
			m := stripKey(c.args[1])
			get := strings.HasSuffix(c.name, "Get")
			return a.know(x, st, m, func(s *State, el *Term) []Outcome {
				v := mkFull("iface", "*datastruct.ZsetElement", anyType, types.NewPointer(a.p.namedType("datastruct", "ZsetElement")), nil, el)
				if get {
					return one(s, v)
				}
				e := mkFull("app", "entry", resType(c, 0), nil, nil, m, el)
				s.assume(mkCmp("eq", e, tNil), false)
				s.mem[mkFull("fld", fEntryKey, anyType, nil, nil, e)] = boxKey(m)
				s.mem[mkFull("fld", fEntryVal, anyType, nil, nil, e)] = v
				return one(s, e)
			}, func(s *State, _ *Term) []Outcome { return one(s, tNil) }), true
		case "Set":
			m, v := stripKey(c.args[1]), stripKey(c.args[2])
			a.r.oblig("C31.agree", a.p.pos(pos))
			if v.op == "iface" {
				v = v.args[0]
			}
			if !st.equalTerms(a.el(st, v, fElMember), m) {
				x.violate(st, "C31.agree", pathFn(st), pos, "an element with the name %v is recorded under the name %v", a.el(st, v, fElMember), m)
			}
			isNew := st.mem[zdCell(m)] == tAbsent
			a.touch(st, m)
			st.mem[zdCell(m)] = v
			return one(st, mkBool(isNew)), true
		case "Delete":
			m := stripKey(c.args[1])
			a.touch(st, m)
			st.mem[zdCell(m)] = tAbsent
			if idx, ok := a.removedIndex(st, m); ok {
				a.r.oblig("C31.range", a.p.pos(pos))
				if !st.provesEqInt(idx, st.ghost("cnt")) {
					x.violate(st, "C31.range", pathFn(st), pos, "of the members taken out of the order number %v is removed from the dictionary when %v have been", idx, st.ghost("cnt"))
				}
				st.setGhost("cnt", tAdd(st.ghost("cnt"), tOne))
			}
			return x.freshResults(st, c), true
		case "Size":
			n := x.fresh(st, "size", intType)
			st.assumeGE(n, tZero)
			return one(st, n), true
		}
		x.giveUp("the dictionary of a sorted set is used by %s", c.name)
		return nil, true
	case strings.HasPrefix(c.name, tSkip):
		switch n := strings.TrimPrefix(c.name, tSkip); {
		case n == "Insert":
			sc, m := c.args[1], c.args[2]
			a.r.oblig("C31.once", a.p.pos(pos))
			if st.mem[zsCell(m)] != tAbsent {
				x.violate(st, "C31.once", pathFn(st), pos, "%v is added to the order although the path has not taken it out or found it missing", m)
			}
			a.touch(st, m)
			st.mem[zsCell(m)] = sc
			return one(st, nonNil(st, x.fresh(st, "node", resType(c, 0)))), true
		case n == "Delete":
			sc, m := c.args[1], c.args[2]
			a.r.oblig("C31.old-score", a.p.pos(pos))
			old := st.mem[zsCell(m)]
			a.touch(st, m)
			switch {
			case old == nil:
				x.violate(st, "C31.old-score", pathFn(st), pos, "%v is taken out of the order although its score there is not known", m)
			case old == tAbsent:
				return one(st, tNil), true
			case old != sc && st.eval(mkFeq(old, sc)) != 1:
				x.violate(st, "C31.old-score", pathFn(st), pos, "%v is taken out of the order under the score %v, it is there under %v", m, sc, old)
			}
			st.mem[zsCell(m)] = tAbsent
			return one(st, nonNil(st, x.fresh(st, "node", resType(c, 0)))), true
		case strings.HasPrefix(n, "Delete"):
			b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "removed"), nil, nil, nil))
			st.mem[mk("gen", "elems", b)] = mk("site", x.siteName(st, "removed"))
			ln := x.fresh(st, "nremoved", intType)
			st.assumeGE(ln, tZero)
			if st.slots["removed"] != nil {
				x.giveUp("two ranges are removed")
			}
			st.slots["removed"] = b
			st.slots["g:removed"] = ln
			st.setGhost("cnt", tZero)
			return one(st, mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, ln)), true
		}
		if strings.HasPrefix(c.name, tSkip+"Get") || strings.HasPrefix(c.name, tSkip+"Has") || strings.HasPrefix(c.name, tSkip+"Range") || strings.HasPrefix(c.name, tSkip+"Count") {
			return x.freshResults(st, c), true
		}
		return nil, false
	case c.fn != nil && a.rts[c.fn] && c.args[0] != a.z:
		// an operation on another sorted set keeps that one in order
		return x.freshResults(st, c), true
	case c.name == "datastruct.NewZset":
		return one(st, nonNil(st, x.fresh(st, "newzset", resType(c, 0)))), true
	}
	return nil, false
}

// touch: the path has changed what the set says about the member.
func (a *zsetAn) touch(st *State, m *Term) { st.setFact("touched", true, m) }

func (a *zsetAn) store(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
	if addr.op != "fld" || addr.aux != fElScore {
		return
	}
	for c, v := range st.mem {
		if c.op == "zd" && v == addr.args[0] {
			a.touch(st, c.args[0])
		}
	}
}

// canon: what is known about members the path has not changed can be found out again.
func (a *zsetAn) canon(x *Exec, st *State) {
	for c := range st.mem {
		if c.op != "zd" && c.op != "zs" {
			continue
		}
		m := c.args[0]
		_, rem := a.removedIndex(st, m)
		if rem && st.mem[zdCell(m)] != nil && st.mem[zdCell(m)] != tAbsent && st.hasFact("touched", m) {
			continue
		}
		if rem || !st.hasFact("touched", m) {
			delete(st.mem, c)
		}
	}
}

// removedIndex: the member is that of an element of the nodes a range removal has returned.
func (a *zsetAn) removedIndex(st *State, m *Term) (*Term, bool) {
	b := st.slots["removed"]
	if b == nil {
		return nil, false
	}
	var idx *Term
	m.walk(func(t *Term) {
		if t.op == "elem" && t.args[0] == b {
			idx = t.args[1]
		}
	})
	return idx, idx != nil
}

// load: the members of the nodes a range removal has returned are out of the order.
func (a *zsetAn) load(x *Exec, st *State, addr *Term, typ types.Type) *Term {
	if addr.op == "fld" && (addr.aux == fNdMember || addr.aux == fNdScore) {
		v := st.load(addr, typ)
		if _, ok := a.removedIndex(st, v); ok && addr.aux == fNdMember {
			if st.mem[zsCell(v)] == nil {
				st.mem[zsCell(v)] = tAbsent
				st.setFact("removed", true, v)
			}
		}
		return v
	}
	if addr.op == "elem" && addr.args[0] == st.slots["removed"] {
		v := st.load(addr, typ)
		st.assume(mkCmp("eq", v, tNil), false)
		return v
	}
	return nil
}

func (a *zsetAn) ret(x *Exec, st *State, res []*Term) {
	pos := a.root.Pos()
	var ms []*Term
	for c := range st.mem {
		if c.op == "zd" || c.op == "zs" {
			ms = append(ms, c.args[0])
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	for _, m := range ms {
		if _, ok := a.removedIndex(st, m); ok {
			continue // counted
		}
		if !st.hasFact("touched", m) {
			continue
		}
		d, s := st.mem[zdCell(m)], st.mem[zsCell(m)]
		a.r.oblig("C31.agree", fnName(a.root))
		switch {
		case d == nil || s == nil:
			x.violate(st, "C31.agree", pathFn(st), pos, "only one of the two views of the set is changed for %v", m)
		case d == tAbsent && s != tAbsent:
			x.violate(st, "C31.agree", pathFn(st), pos, "%v stays in the order with score %v although it has no score any more", m, s)
		case d != tAbsent && s == tAbsent:
			x.violate(st, "C31.agree", pathFn(st), pos, "%v has a score but is not in the order", m)
		case d != tAbsent:
			if sc := a.el(st, d, fElScore); sc != s && st.eval(mkFeq(sc, s)) != 1 {
				x.violate(st, "C31.agree", pathFn(st), pos, "%v is in the order under the score %v, looked up it has %v", m, s, sc)
			}
		}
	}
	if st.slots["removed"] != nil {
		a.r.oblig("C31.range", fnName(a.root))
		if !st.provesEqInt(st.ghost("cnt"), st.slots["g:removed"]) {
			x.violate(st, "C31.range", pathFn(st), pos, "%v members are taken out of the order, %v are removed from the dictionary", st.slots["g:removed"], st.ghost("cnt"))
		}
	}
}

func exploreZset(p *Prog, r *Report) {
	roots := p.apiRoots("datastruct", "Zset")
	if len(roots) == 0 {
		r.fail("undecided", "sorted set", "-", "no methods found")
		return
	}
	rts := map[*ssa.Function]bool{}
	for _, f := range roots {
		rts[f] = true
	}
	for _, f := range roots {
		a := &zsetAn{p: p, r: r, root: f, rts: rts}
		x := newExec(p, r, &Hooks{Call: a.call, Load: a.load, Return: a.ret, Store: a.store, Canon: a.canon})
		st := newState()
		var args []*Term
		for i, q := range f.Params {
			t := sym(q.Name(), q.Type())
			if i == 0 {
				nonNil(st, t)
				a.z = t
			}
			args = append(args, t)
		}
		x.Run(f, st, args, nil)
		r.use(x)
	}
	// nobody else changes scores and names, or the two views themselves
	for _, field := range []string{fElScore, fElMember, fNdScore, fNdMember, "datastruct.Zset.dict", "datastruct.Zset.skiplist"} {
		for _, s := range p.fieldStores(field) {
			fa := s.Addr.(*ssa.FieldAddr)
			r.oblig("C31.sealed", p.pos(s.Pos()))
			if madeHere(fa.X) {
				continue
			}
			if field == fElScore && strings.HasPrefix(fnName(s.Parent()), "(*datastruct.Zset).") {
				continue // followed by the exploration
			}
			r.add(&Violation{Rule: "C31.sealed", Construct: fnName(s.Parent()), Pos: p.pos(s.Pos()), Msg: field + " of an existing object is changed outside the operations that keep the two views in agreement", Entry: fnName(s.Parent())})
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if n := fieldName(fa); n != "datastruct.Zset.dict" && n != "datastruct.Zset.skiplist" {
					continue
				}
				g := f
				for g.Parent() != nil {
					g = g.Parent()
				}
				if strings.HasPrefix(fnName(g), "(*datastruct.Zset).") || madeHere(fa.X) {
					continue
				}
				r.add(&Violation{Rule: "C31.sealed", Construct: fnName(f), Pos: p.pos(fa.Pos()), Msg: "the views of a sorted set are used outside its operations", Entry: fnName(f)})
			}
		}
	}
}

// madeHere: the object is allocated in the function itself.
func madeHere(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.IndexAddr:
		return madeHere(v.X)
	case *ssa.FieldAddr:
		return madeHere(v.X)
	}
	return false
}

var _ = token.NoPos
