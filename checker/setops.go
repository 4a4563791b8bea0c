package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Set operations, followed for one arbitrary member: every set either has it or has not, an iteration yields it exactly
// once if the set has it, and other members are irrelevant to it. The handlers are explored with every operand missing,
// with the member or without it.

const fSetDict = "datastruct.Set.dict"

type setAn struct {
	p      *Prog
	r      *Report
	root   *ssa.Function
	op     string // sunion, sinter, sdiff, smembers, sismember; "" when a listing is explored
	client *Term
	args   *Term
	w      *Term
	world  *WorldHooks
	shared *monitor
	small  bool
}

// setOps: what the reply holds, from the membership in the operands before and in the next operand.
var setOps = map[string]struct {
	next func(v, in bool) bool
	done func(v bool) bool // no later operand can change the result
}{
	"sunion":    {func(v, in bool) bool { return v || in }, func(v bool) bool { return v }},
	"sinter":    {func(v, in bool) bool { return v && in }, func(v bool) bool { return !v }},
	"sdiff":     {func(v, in bool) bool { return v && !in }, func(v bool) bool { return !v }},
	"smembers":  {func(v, in bool) bool { return in }, func(v bool) bool { return false }},
	"sismember": {func(v, in bool) bool { return in }, func(v bool) bool { return false }},
}

func (a *setAn) owner(st *State, d *Term) *Term {
	if d.op == "app" && d.aux == "setdict" {
		return d.args[0]
	}
	if o := st.mem[mk("setowner", "", d)]; o != nil {
		return o
	}
	return d
}

func (a *setAn) has(st *State, s *Term) int {
	switch {
	case st.hasFact("in", s):
		return 1
	case st.hasFact("out", s):
		return 0
	}
	return -1
}

func (a *setAn) setHas(st *State, s *Term, in bool) {
	st.clearFact("in", s)
	st.clearFact("out", s)
	f, v := "out", "0"
	if in {
		f, v = "in", "1"
	}
	st.setFact(f, true, s)
	if s.op == "alloc" && !strings.HasPrefix(s.aux, "dict@") {
		st.setSlot("hs:"+s.aux, v)
	}
}

// split continues with the member in the set and without it.
func (a *setAn) split(st *State, s *Term, yes, no func(*State) []Outcome) []Outcome {
	switch a.has(st, s) {
	case 1:
		return yes(st)
	case 0:
		return no(st)
	}
	// lost at a join: what follows is not certain
	st.setSlot("guess", "1")
	s2 := st.clone()
	a.setHas(st, s, true)
	a.setHas(s2, s, false)
	return append(yes(st), no(s2)...)
}

// member continues with k being the member followed and with k being another one.
func (a *setAn) member(st *State, k *Term, yes, no func(*State) []Outcome) []Outcome {
	return fork2(st, mkCmp("eq", stripKey(k), a.w), yes, no)
}

// entry is an entry with the member followed (k) or with another one.
func (a *setAn) entry(x *Exec, st *State, k *Term, typ types.Type) *Term {
	e := nonNil(st, x.fresh(st, "entry", typ))
	st.clearFact("theirs", e)
	st.clearFact("ours", e)
	if k == a.w {
		st.setFact("ours", true, e)
	} else {
		st.setFact("theirs", true, e)
	}
	return e
}

func (a *setAn) isSetDict(st *State, d *Term) bool {
	return d.op == "app" && d.aux == "setdict" || d.op == "alloc" || st.mem[mk("setowner", "", d)] != nil
}

// operand: a key of the data set is looked up.
func (a *setAn) operand(x *Exec, st *State, c *Call, find bool) ([]Outcome, bool) {
	k := stripKey(c.args[1])
	b, off, _ := x.sliceParts(a.args)
	if k.op != "init" || k.args[0].op != "elem" || k.args[0].args[0] != b {
		a.unsure(x, "%s: a key is looked up that is not an argument", a.op)
		return nil, false
	}
	idx := tSub(k.args[0].args[1], off)
	give := func(s *State, v *Term) []Outcome {
		if !find {
			return one(s, v)
		}
		if v == tNil {
			return one(s, tNil)
		}
		e := nonNil(s, x.fresh(s, "entry", resType(c, 0)))
		s.mem[fldOf(fEntryKey, anyType, e)] = boxKey(k)
		s.mem[fldOf(fEntryVal, anyType, e)] = v
		return one(s, e)
	}
	if v := st.mem[mk("operand", "", k)]; v != nil {
		return give(st, v), true
	}
	n := st.ghost("n")
	_, _, ln := x.sliceParts(a.args)
	a.r.oblig("C41.operands", a.op+": "+a.p.pos(c.instr.Pos()))
	switch {
	case st.provesEqInt(idx, tAdd(n, tOne)):
	case st.provesEqInt(idx, tSub(tSub(ln, tOne), n)) && a.op != "sdiff", st.provesEqInt(idx, tSub(ln, n)) && st.provesGE(n, tOne) && a.op == "sdiff":
	case st.eval(mkCmp("ieq", idx, tAdd(n, tOne))) == 0:
		st.setSlot("odd", "1")
	default:
		a.unsure(x, "%s: the order in which operands are taken is not followed (argument %v)", a.op, idx)
	}
	st.setGhost("n", tAdd(n, tOne))
	rule := setOps[a.op]
	verdict := func(s *State, in bool) {
		v := s.slot("v") == "1"
		s.setSlot("before", s.slot("v")+map[bool]string{true: "+", false: "-"}[in])
		if s.slot("v") == "" {
			v = in
		} else {
			v = rule.next(v, in)
		}
		if v {
			s.setSlot("v", "1")
		} else {
			s.setSlot("v", "0")
		}
	}
	var outs []Outcome
	if cell := st.mem[dcell(c.args[0], k)]; cell == tNil {
		// just removed
		verdict(st, false)
		st.mem[mk("operand", "", k)] = tNil
		return give(st, tNil), true
	}
	setT := types.NewPointer(a.p.namedType("datastruct", "Set"))
	for _, how := range []string{"in", "out", "missing", "wrong"} {
		s := st.clone()
		var v *Term
		switch how {
		case "missing":
			s.note("the operand %v does not exist", idx)
			v = tNil
			verdict(s, false)
		case "wrong":
			s.note("the operand %v is not a set", idx)
			v = nonNil(s, mkFull("iface", "*datastruct.Zset", anyType, types.NewPointer(a.p.namedType("datastruct", "Zset")), nil, sym("zset", nil)))
			s.setSlot("bad", "1")
		default:
			s.note("the operand %v is a set, the member is %s", idx, map[string]string{"in": "in it", "out": "not in it"}[how])
			set := nonNil(s, x.fresh(s, "operand", setT))
			a.setHas(s, set, how == "in")
			v = mkFull("iface", "*datastruct.Set", anyType, setT, nil, set)
			verdict(s, how == "in")
		}
		s.mem[mk("operand", "", k)] = v
		outs = append(outs, give(s, v)...)
	}
	return outs, true
}

func (a *setAn) call(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	switch {
	case c.name == "datastruct.NewDict":
		d := x.freshTerm(st, mkFull("alloc", x.siteName(st, "dict"), resType(c, 0), nil, nil))
		delete(st.mem, mk("setowner", "", d))
		a.setHas(st, d, false)
		return one(st, d), true
	case c.name == tSet+"DeepCopy" || c.name == tDict+"DeepCopy":
		from := c.args[0]
		if strings.HasPrefix(c.name, tDict) {
			from = a.owner(st, from)
		}
		s := x.freshTerm(st, mkFull("alloc", x.siteName(st, "copy"), resType(c, 0), nil, nil))
		if h := a.has(st, from); h >= 0 {
			a.setHas(st, s, h == 1)
		}
		return one(st, s), true
	case c.name == tSet+"Range" && a.op != "":
		s := c.args[0]
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "members"), nil, nil, nil))
		n := x.fresh(st, "n", intType)
		st.assumeGE(n, tZero)
		st.mem[mk("listlen", "", b)] = n
		if a.has(st, s) == 1 {
			st.assumeGE(n, tOne)
		}
		st.slots["list"] = b
		st.setSlot("lh", map[int]string{0: "0", 1: "1"}[a.has(st, s)])
		return one(st, mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, n)), true
	case c.name == "datastruct.NewDictIterator":
		it := x.freshTerm(st, mkFull("alloc", x.siteName(st, "iter"), resType(c, 0), nil, nil))
		st.mem[fldOf("world.iterOf", nil, it)] = c.args[0]
		st.setSlot("seen:"+it.String(), "0")
		return one(st, it), true
	case c.name == tDictI+"Release":
		return one(st), true
	case c.name == tDictI+"Next":
		it := c.args[0]
		d := st.mem[fldOf("world.iterOf", nil, it)]
		if d == nil || dictRole(d) != "" {
			a.unsure(x, "iterator of unknown dict in %s", fnName(st.top().fn))
			return nil, true
		}
		s := a.owner(st, d)
		rest := func(t *State, end bool) (outs []Outcome) {
			u := t.clone()
			u.setSlot("cur:"+it.String(), "0")
			outs = one(u, a.entry(x, u, nil, resType(c, 0)))
			if end {
				t.setSlot("seen:"+it.String(), "")
				t.setSlot("cur:"+it.String(), "")
				outs = append(outs, Outcome{t, []*Term{tNil}})
			}
			return outs
		}
		return a.split(st, s, func(t *State) []Outcome {
			if t.slot("seen:"+it.String()) == "1" {
				return rest(t, true)
			}
			u := t.clone()
			u.setSlot("seen:"+it.String(), "1")
			u.setSlot("cur:"+it.String(), "1")
			u.note("%s: the iteration yields the member", a.p.pos(c.instr.Pos()))
			if a.op == "" {
				u.setGhost("n", tAdd(u.ghost("n"), tOne))
			}
			return append(rest(t, false), one(u, a.entry(x, u, a.w, resType(c, 0)))...)
		}, func(t *State) []Outcome { return rest(t, true) }), true
	case strings.HasPrefix(c.name, tDict):
		d := c.args[0]
		switch m := strings.TrimPrefix(c.name, tDict); {
		case dictRole(d) == "Dict" && (m == "Get" || m == "Find"):
			return a.operand(x, st, c, m == "Find")
		case dictRole(d) == "Expire" && (m == "Get" || m == "Find"):
			return one(st, tNil), true // a key that has expired counts as missing (C11)
		case dictRole(d) != "" || !a.isSetDict(st, d):
			return a.world.call(x, st, c)
		default:
			s := a.owner(st, d)
			switch m {
			case "Find", "Get":
				ent := func(k *Term) func(t *State) []Outcome {
					return func(t *State) []Outcome {
						if m == "Get" {
							return one(t, tNil) // sets hold no values
						}
						return one(t, a.entry(x, t, k, resType(c, 0)))
					}
				}
				none := func(t *State) []Outcome { return one(t, tNil) }
				return a.member(st, c.args[1], func(t *State) []Outcome { return a.split(t, s, ent(a.w), none) }, func(t *State) []Outcome {
					u := t.clone()
					return append(ent(nil)(t), none(u)...)
				}), true
			case "Set":
				b := x.fresh(st, "new", boolType)
				return a.member(st, c.args[1], func(t *State) []Outcome {
					a.setHas(t, s, true)
					return one(t, b)
				}, func(t *State) []Outcome { return one(t, b) }), true
			case "Delete":
				return a.member(st, c.args[1], func(t *State) []Outcome {
					a.setHas(t, s, false)
					return x.freshResults(t, c)
				}, func(t *State) []Outcome { return x.freshResults(t, c) }), true
			case "Size":
				n := x.fresh(st, "size", types.Typ[types.Int64])
				st.assumeGE(n, tZero)
				if a.has(st, s) == 1 {
					st.assumeGE(n, tOne)
				}
				return one(st, n), true
			}
		}
	case c.name == "(*ae.EventLoop).AddFileEvent":
		return x.errFork(st, c, func(*State) []*Term { return nil }, func(*State) []*Term { return nil }), true
	}
	if a.shared != nil && (strings.HasPrefix(c.name, "(*datastruct.") && !strings.HasPrefix(c.name, tSet) || c.fn != nil && a.shared.encoders[c.fn] != (encShape{})) {
		return a.shared.call(x, st, c)
	}
	return nil, false
}

func (a *setAn) load(x *Exec, st *State, addr *Term, typ types.Type) *Term {
	switch {
	case addr.op == "fld" && addr.aux == fSetDict:
		return nonNil(st, mkFull("app", "setdict", typ, nil, nil, addr.args[0]))
	case addr.op == "fld" && addr.aux == fEntryKey && st.hasFact("ours", addr.args[0]):
		return boxKey(a.w)
	case addr.op == "fld" && addr.aux == fEntryKey && st.hasFact("theirs", addr.args[0]):
		k := mkFull("app", "keyof", stringType, nil, nil, addr.args[0])
		st.assume(mkCmp("eq", k, a.w), false)
		return boxKey(k)
	case addr.op == "fld" && addr.aux == fEntryVal && (st.hasFact("ours", addr.args[0]) || st.hasFact("theirs", addr.args[0])):
		return tNil
	case addr.op == "elem" && st.mem[mk("listlen", "", addr.args[0])] != nil:
		return mkFull("app", "listed", typ, nil, nil, addr.args[0], addr.args[1])
	}
	if a.shared != nil {
		return a.shared.load(x, st, addr, typ)
	}
	return nil
}

func (a *setAn) store(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
	if addr.op == "fld" && addr.aux == fSetDict {
		if val.op == "alloc" {
			st.mem[mk("setowner", "", val)] = addr.args[0]
			if h := a.has(st, val); h >= 0 {
				a.setHas(st, addr.args[0], h == 1)
			}
		} else if val.op == "app" && val.aux == "setdict" {
			if h := a.has(st, val.args[0]); h >= 0 {
				a.setHas(st, addr.args[0], h == 1)
			}
		}
	}
	if s, ok := in.(*ssa.Store); a.op == "" && addr.op == "elem" && ok && isAnySlice(indexed(s.Addr)) {
		a.collect(x, st, addr.args[1], val, in.Pos())
	}
}

// indexed is the type of what an address is an element of.
func indexed(v ssa.Value) types.Type {
	if ia, ok := v.(*ssa.IndexAddr); ok {
		return ia.X.Type()
	}
	return types.Typ[types.Invalid]
}

// collect: an element is put at a position of the listing.
func (a *setAn) collect(x *Exec, st *State, at, v *Term, pos token.Pos) {
	a.r.oblig("C41.listing", a.p.pos(pos))
	if stripKey(v) == a.w {
		if st.slot("put") != "" {
			x.violate(st, "C41.listing", pathFn(st), pos, "a member is listed twice")
		}
		st.setSlot("put", "1")
	}
}

func (a *setAn) append(x *Exec, st *State, base, added, result *Term, in ssa.Instruction) {
	if v, ok := in.(ssa.Value); a.op != "" || !ok || !isAnySlice(v.Type()) {
		return
	}
	if els, ok := x.variadicElems(st, added); ok {
		for _, e := range els {
			a.collect(x, st, nil, e, in.Pos())
		}
	} else {
		a.unsure(x, "%s: what is added to the listing is not known", fnName(a.root))
	}
}

func (a *setAn) push(x *Exec, st *State, l, v *Term, c *Call) {
	if a.op == "" || st.slot("bad") != "" {
		return
	}
	if a.op == "sismember" {
		t := stripKey(v)
		a.r.oblig("C41.result", a.op)
		n := tZero
		if st.slot("v") == "1" {
			n = tOne
		}
		if want := mkConcat(mkStr(":"), mkFull("app", "itoa", stringType, nil, nil, n), mkStr("\r\n")); t.String() != want.String() {
			x.violate(st, "C41.result", a.op, c.instr.Pos(), "the reply to a member that %s the set is %v", map[bool]string{true: "is in", false: "is not in"}[st.slot("v") == "1"], t)
		}
		return
	}
	hit := false
	var lst *Term
	v.walk(func(t *Term) {
		hit = hit || t == a.w
		if t.op == "app" && t.aux == "listed" {
			lst = t
		}
	})
	if lst != nil {
		a.r.oblig("C41.result", a.op+": "+x.p.pos(c.instr.Pos()))
		if st.slot("sent") != "" {
			x.violate(st, "C41.result", a.op, c.instr.Pos(), "members are sent twice")
			return
		}
		if !st.provesEqInt(lst.args[1], st.ghost("k")) {
			a.unsure(x, "%s: the members are not sent one by one", a.op)
		}
		st.setGhost("k", tAdd(st.ghost("k"), tOne))
		if st.slots["list"] != lst.args[0] {
			a.unsure(x, "%s: it is not known which list is sent", a.op)
		}
		return
	}
	if hit {
		a.r.oblig("C41.result", a.op)
		if st.slot("sent") != "" || st.slots["list"] != nil {
			x.violate(st, "C41.result", a.op, c.instr.Pos(), "a member is sent twice")
		}
		st.setSlot("sent", "1")
	}
}

func (a *setAn) ret(x *Exec, st *State, res []*Term) {
	pos := a.root.Pos()
	if a.op == "" {
		a.r.oblig("C41.listing", fnName(a.root))
		if (st.slot("put") == "1") != (a.has(st, a.client) == 1) {
			x.violate(st, "C41.listing", fnName(a.root), pos, "a member that %s the set %s listed", map[bool]string{true: "is in", false: "is not in"}[a.has(st, a.client) == 1], map[bool]string{true: "is", false: "is not"}[st.slot("put") == "1"])
		}
		return
	}
	if st.slot("bad") != "" || len(res) > 0 && st.evalNil(res[len(res)-1]) != 1 || a.op == "sismember" {
		return
	}
	a.r.oblig("C41.result", a.op)
	v := st.slot("v") == "1"
	sent := st.slot("sent") == "1"
	if l := st.slots["list"]; l != nil {
		n := st.mem[mk("listlen", "", l)]
		if n == nil || st.slot("lh") == "" {
			a.unsure(x, "%s: it is not known what is sent", a.op)
			return
		}
		if !st.provesEqInt(st.ghost("k"), n) {
			x.violate(st, "C41.result", a.op, pos, "of a result of %v members %v are sent", n, st.ghost("k"))
			return
		}
		sent = st.slot("lh") == "1"
	}
	if sent != v && st.slot("guess") != "" {
		a.unsure(x, "%s: it is not known what is sent", a.op)
	} else if sent != v {
		x.violate(st, "C41.result", a.op, pos, "a member that %s the result of %s %s sent", map[bool]string{true: "belongs to", false: "does not belong to"}[v], a.op, map[bool]string{true: "is", false: "is not"}[sent])
		return
	}
	if st.slot("v") != "" && setOps[a.op].done(v) {
		return
	}
	a.r.oblig("C41.operands", a.op)
	_, _, ln := x.sliceParts(a.args)
	if a.op == "smembers" {
		ln = mkInt(2)
	}
	all := mkCmp("ieq", st.ghost("n"), tSub(ln, tOne))
	switch {
	case st.provesGE(st.ghost("n"), tSub(ln, tOne)) && st.slot("odd") == "":
	case st.eval(all) == 0:
		x.violate(st, "C41.operands", a.op, pos, "the reply is made from %v operands, the request has %v", st.ghost("n"), tSub(ln, tOne))
	case st.eval(all) == 1 || st.provesGE(st.ghost("n"), tSub(ln, tOne)):
		a.unsure(x, "%s: the order in which operands are taken is not followed", a.op)
	default:
		x.violate(st, "C41.operands", a.op, pos, "the reply may be made from %v operands, the request has %v", st.ghost("n"), tSub(ln, tOne))
	}
}

func exploreSetOps(p *Prog, r *Report) {
	table, err := p.commandTable()
	if err != nil {
		r.fail("undecided", "command table", "-", "%v", err)
		return
	}
	found := 0
	for i := range table {
		ci := &table[i]
		if _, ok := setOps[ci.name]; !ok {
			continue
		}
		found++
		// requests with two operands first: nothing is lost at joins there
		if ci.arity < 0 && -ci.arity <= 3 {
			exploreSetOp(p, r, ci, 3)
		}
		exploreSetOp(p, r, ci, 0)
	}
	if found == 0 {
		r.fail("undecided", "command table", "-", "no set operations found")
	}
	rng := p.findFn("(*datastruct.Set).Range", func(f *ssa.Function) bool { return false })
	if rng == nil {
		r.fail("undecided", "listing", "-", "the listing of a set is not found")
		return
	}
	for _, in := range []bool{true, false} {
		a := &setAn{p: p, r: r, root: rng, world: &WorldHooks{}, w: sym("member", stringType)}
		x := newExec(p, r, a.hooks())
		st := newState()
		a.client = nonNil(st, sym("set", rng.Params[0].Type()))
		a.setHas(st, a.client, in)
		st.setGhost("n", tZero)
		x.Run(rng, st, []*Term{a.client}, nil)
		r.use(x)
	}
}

// unsure: the exploration of requests with two operands only adds to the general one.
func (a *setAn) unsure(x *Exec, format string, args ...any) {
	if !a.small {
		x.unsure(format, args...)
	}
}

func (a *setAn) typeIs(x *Exec, st *State, v *Term, ty string) bool {
	if a.shared == nil || v.op == "app" && v.aux == "listed" && ty == "string" {
		return true
	}
	return a.shared.typeIs(x, st, v, ty)
}

func (a *setAn) hooks() *Hooks {
	return &Hooks{Call: a.call, Load: a.load, Store: a.store, Append: a.append, ListPush: a.push, Return: a.ret,
		Measure: func(*Term) []*Term { return nil }, TypeIs: a.typeIs}
}

func exploreSetOp(p *Prog, r *Report, ci *cmdInfo, fixed int64) {
	m := newMonitor(p, r, "C41")
	m.cmd = ci
	m.mode = "command"
	a := &setAn{p: p, r: r, root: ci.proc, op: ci.name, shared: m, world: &WorldHooks{}, small: fixed > 0}
	x := newExec(p, r, a.hooks())
	x.joinHeads = true
	st := newState()
	m.setupClient(x, st, ci.proc.Params[0].Type())
	a.client, a.args = m.client, m.args
	n := lenOf(m.args)
	if fixed > 0 {
		st.assume(mkCmp("ieq", n, mkInt(fixed)), true)
	} else if ci.arity < 0 {
		st.assumeGE(n, mkInt(-ci.arity))
	} else {
		st.assume(mkCmp("ieq", n, mkInt(ci.arity)), true)
	}
	a.w = sym("member", stringType)
	if ci.name == "sismember" {
		b, off, _ := x.sliceParts(m.args)
		a.w = st.load(mkFull("elem", "", stringType, nil, nil, b, tAdd(off, mkInt(2))), stringType)
	}
	st.setGhost("n", tZero)
	st.setGhost("k", tZero)
	x.Run(ci.proc, st, []*Term{m.client}, nil)
	r.use(x)
}
