package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The world model: the data-structure operations as seen by command code. Key spaces and containers are abstract
// maps (cells per key) with an exact size; every operation that changes them is reported as an event.

const (
	tDict  = "(*datastruct.Dict)."
	tSet   = "(*datastruct.Set)."
	tZset  = "(*datastruct.Zset)."
	tList  = "(*datastruct.Quicklist)."
	tDictI = "(*datastruct.DictIterator)."
	tListI = "(*datastruct.QuicklistIterator)."
)

type Mut struct {
	kind  string // set, delete (of a key); add, remove (of a container element)
	obj   *Term  // dict or container
	key   *Term  // key or element
	val   *Term
	fresh bool
}

type WorldHooks struct {
	Mutate func(x *Exec, st *State, m *Mut, c *Call)
	Read   func(x *Exec, st *State, obj, key *Term, op string, c *Call)
	Random func(x *Exec, st *State, v *Term)
	Yield  func(st *State, more bool) // an iteration has yielded an entry, or ended
}

var anyType types.Type = types.NewInterfaceType(nil, nil)

func dcell(dict, key *Term) *Term { return mkFull("dcell", "", anyType, nil, nil, dict, key) }
func csizeCell(obj *Term) *Term {
	return mkFull("fld", "world.csize", types.Typ[types.Int64], nil, nil, obj)
}

func stripKey(t *Term) *Term {
	for {
		switch {
		case t.op == "iface":
			t = t.args[0]
		case t.op == "app" && strings.HasPrefix(t.aux, "unbox:"):
			t = t.args[0]
		default:
			return t
		}
	}
}

func (x *Exec) csize(st *State, obj *Term) *Term {
	t := st.load(csizeCell(obj), types.Typ[types.Int64])
	if t.op == "init" {
		st.assumeGE(t, tZero)
		if len(t.args) == 1 && obj.op == "app" && strings.HasPrefix(obj.aux, "unbox:*") && keyspaceCell(obj) != nil {
			st.assumeGE(t, tOne) // no empty collection is stored (C34)
		}
	}
	return t
}

func (x *Exec) setSize(st *State, obj, n *Term) {
	st.store(csizeCell(obj), n, mk("site", x.siteName(st, "size")))
}

// dget reads the abstract cell of a key; nil means absent.
func (x *Exec) dget(st *State, dict, key *Term) *Term {
	c := dcell(dict, stripKey(key))
	if v, ok := st.mem[c]; ok {
		return v
	}
	if dict.op == "alloc" && st.mem[mk("gen", "dict", dict)] == nil {
		return tNil
	}
	args := []*Term{c}
	if g := st.mem[mk("gen", "dict", dict)]; g != nil {
		args = append(args, g)
	}
	v := mkFull("init", "", anyType, nil, nil, args...)
	st.mem[c] = v
	return v
}

func (x *Exec) dput(st *State, dict, key, val *Term) {
	k := stripKey(key)
	c := dcell(dict, k)
	for o := range st.mem {
		if o.op == "dcell" && o != c && !sameDict(st, o.args[0], dict, false) {
			continue
		} else if o.op == "dcell" && o != c && !keysDiffer(st, o.args[1], k) {
			delete(st.mem, o)
		}
	}
	st.mem[mk("gen", "dict", dict)] = mk("site", x.siteName(st, "dput"))
	st.mem[c] = val
}

// sameDict reports whether two dict terms may denote the same dict.
func sameDict(st *State, a, b *Term, def bool) bool {
	if a == b {
		return true
	}
	if a.op == "alloc" || b.op == "alloc" {
		return maybeAlloc(rootOf(a)) || maybeAlloc(rootOf(b))
	}
	// the key space, its expiry table and the containers stored in it are different objects
	ka, kb := dictRole(a), dictRole(b)
	return ka == kb
}

// dictRole: "Dict" for a key space, "Expire" for the expiry table of a database, "" for anything else.
func dictRole(d *Term) string {
	if d.op == "init" && d.args[0].op == "fld" {
		switch d.args[0].aux {
		case "database.Databse.Dict":
			return "Dict"
		case "database.Databse.Expire":
			return "Expire"
		}
	}
	return ""
}

func dbOf(d *Term) *Term {
	if dictRole(d) != "" {
		return d.args[0].args[0]
	}
	return nil
}

const fEntryKey = "datastruct.DictEntry.Key"
const fEntryVal = "datastruct.DictEntry.Value"

func (x *Exec) mkEntry(st *State, dict, key, val *Term, typ types.Type) *Term {
	e := mkFull("app", "entry", typ, nil, nil, dict, key, val)
	st.assume(mkCmp("eq", e, tNil), false)
	st.mem[mkFull("fld", fEntryKey, anyType, nil, nil, e)] = boxKey(key)
	st.mem[mkFull("fld", fEntryVal, anyType, nil, nil, e)] = val
	return e
}

// someEntry is an entry of the dict whose key is unknown.
func (x *Exec) someEntry(st *State, dict *Term, typ types.Type) (e, k *Term) {
	e = x.fresh(st, "entry", typ)
	st.assume(mkCmp("eq", e, tNil), false)
	k = st.load(mkFull("fld", fEntryKey, anyType, nil, nil, e), anyType)
	v := x.dget(st, dict, k)
	st.assume(mkCmp("eq", v, tNil), false)
	st.mem[mkFull("fld", fEntryVal, anyType, nil, nil, e)] = v
	st.setFact("listed", true, k, dict)
	return e, k
}

var stringType types.Type = types.Typ[types.String]

func boxKey(k *Term) *Term {
	if k.typ != nil && isStringType(k.typ) || k.op == "str" || k.op == "concat" {
		return mkFull("iface", "string", anyType, stringType, nil, k)
	}
	return k
}

func fldOf(name string, typ types.Type, base *Term) *Term {
	return mkFull("fld", name, typ, nil, nil, base)
}

// worldCall models the data-structure operations. handled is false for anything else.
func (w *WorldHooks) call(x *Exec, st *State, c *Call) (outs []Outcome, handled bool) {
	mut := func(s *State, m *Mut) {
		if w.Mutate != nil {
			w.Mutate(x, s, m, c)
		}
	}
	read := func(s *State, obj, key *Term, op string) {
		if w.Read != nil {
			w.Read(x, s, obj, key, op, c)
		}
	}
	a := c.args
	nm := c.name
	alloc := func(hint string) *Term {
		t := x.freshTerm(st, mkFull("alloc", x.siteName(st, hint), resType(c, 0), nil, nil))
		return t
	}
	// nonnil receiver
	recvOK := func() bool {
		x.needNonNil(st, a[0], c.instr, "receiver of "+nm)
		return st.evalNil(a[0]) != 1
	}
	sizeFork := func(obj *Term, empty, filled func(*State, *Term) []Outcome) []Outcome {
		n := x.csize(st, obj)
		return fork2(st, mkCmp("ieq", n, tZero), func(s *State) []Outcome { return empty(s, n) }, func(s *State) []Outcome {
			if !s.assumeGE(n, tOne) {
				return nil
			}
			return filled(s, n)
		})
	}
	switch nm {
	case "datastruct.NewDict", "datastruct.NewSet", "datastruct.NewZset", "datastruct.NewQuicklist":
		t := alloc("new" + strings.TrimPrefix(nm, "datastruct.New"))
		return one(st, t), true

	// ---- Dict
	case tDict + "Set":
		if !recvOK() {
			return nil, true
		}
		old := x.dget(st, a[0], a[1])
		n := x.csize(st, a[0])
		return fork2(st, mkCmp("eq", old, tNil), func(s *State) []Outcome {
			x.dput(s, a[0], a[1], a[2])
			x.setSize(s, a[0], tAdd(n, tOne))
			mut(s, &Mut{"set", a[0], stripKey(a[1]), a[2], true})
			return one(s, tTrue)
		}, func(s *State) []Outcome {
			x.dput(s, a[0], a[1], a[2])
			mut(s, &Mut{"set", a[0], stripKey(a[1]), a[2], false})
			return one(s, tFalse)
		}), true
	case tDict + "Get":
		if !recvOK() {
			return nil, true
		}
		read(st, a[0], stripKey(a[1]), "get")
		return one(st, x.dget(st, a[0], a[1])), true
	case tDict + "Find":
		if !recvOK() {
			return nil, true
		}
		read(st, a[0], stripKey(a[1]), "find")
		v := x.dget(st, a[0], a[1])
		return fork2(st, mkCmp("eq", v, tNil), func(s *State) []Outcome {
			s.note("%s: key %v is not in %v", x.p.pos(c.instr.Pos()), stripKey(a[1]), a[0])
			return one(s, tNil)
		}, func(s *State) []Outcome {
			s.note("%s: key %v is in %v", x.p.pos(c.instr.Pos()), stripKey(a[1]), a[0])
			return one(s, x.mkEntry(s, a[0], stripKey(a[1]), v, resType(c, 0)))
		}), true
	case tDict + "Delete":
		if !recvOK() {
			return nil, true
		}
		read(st, a[0], stripKey(a[1]), "delete")
		v := x.dget(st, a[0], a[1])
		n := x.csize(st, a[0])
		return fork2(st, mkCmp("eq", v, tNil), func(s *State) []Outcome {
			e := mk("newerr", x.siteName(s, "notfound"))
			return one(s, e)
		}, func(s *State) []Outcome {
			if !s.assumeGE(n, tOne) {
				return nil
			}
			x.dput(s, a[0], a[1], tNil)
			x.setSize(s, a[0], tSub(n, tOne))
			s.note("%s: %v removed from %v", x.p.pos(c.instr.Pos()), stripKey(a[1]), a[0])
			mut(s, &Mut{kind: "delete", obj: a[0], key: stripKey(a[1]), val: v})
			return one(s, tNil)
		}), true
	case tDict + "Size", tSet + "Size", tZset + "Size":
		if !recvOK() {
			return nil, true
		}
		read(st, a[0], nil, "size")
		return one(st, x.csize(st, a[0])), true
	case tList + "Len":
		if !recvOK() {
			return nil, true
		}
		read(st, a[0], nil, "size")
		return one(st, x.csize(st, a[0])), true
	case tDict + "GetRandomKey":
		if !recvOK() {
			return nil, true
		}
		return sizeFork(a[0], func(s *State, n *Term) []Outcome { return one(s, tNil) }, func(s *State, n *Term) []Outcome {
			e, k := x.someEntry(s, a[0], resType(c, 0))
			if w.Random != nil {
				w.Random(x, s, k)
			}
			return one(s, e)
		}), true
	case tDict + "DeepCopy", tSet + "DeepCopy", tZset + "DeepCopy", tList + "DeepCopy", "(*database.Databse).DeepCopy":
		return one(st, alloc("copy")), true

	// ---- iteration
	case "datastruct.NewDictIterator", "datastruct.NewQuicklistIterator":
		t := alloc("iter")
		st.mem[fldOf("world.iterOf", nil, t)] = a[0]
		read(st, a[0], nil, "iterate")
		return one(st, t), true
	case tDictI + "Next":
		d := st.mem[fldOf("world.iterOf", nil, a[0])]
		if d == nil {
			x.giveUp("iterator of unknown dict in %s", fnName(st.top().fn))
			return nil, true
		}
		s2 := st.clone()
		s2.note("%s: iteration ends", x.p.pos(c.instr.Pos()))
		st.note("%s: iteration yields a key", x.p.pos(c.instr.Pos()))
		e, _ := x.someEntry(st, d, resType(c, 0))
		if w.Yield != nil {
			w.Yield(st, true)
			w.Yield(s2, false)
		}
		return []Outcome{{st, []*Term{e}}, {s2, []*Term{tNil}}}, true
	case tDictI + "Release":
		return one(st), true
	case tListI + "Next", tListI + "Prev":
		s2 := st.clone()
		d := st.mem[fldOf("world.iterOf", nil, a[0])]
		v := x.fresh(st, "listval", anyType)
		st.assume(mkCmp("eq", v, tNil), false)
		if d != nil {
			st.setFact("elemof", true, v, d)
		}
		return []Outcome{{st, []*Term{v}}, {s2, []*Term{tNil}}}, true

	// ---- Set
	case tSet + "Add":
		if !recvOK() {
			return nil, true
		}
		k := stripKey(a[1])
		old := x.dget(st, a[0], k)
		n := x.csize(st, a[0])
		return fork2(st, mkCmp("eq", old, tNil), func(s *State) []Outcome {
			x.dput(s, a[0], k, a[1])
			x.setSize(s, a[0], tAdd(n, tOne))
			mut(s, &Mut{"add", a[0], a[1], nil, true})
			return one(s, tTrue)
		}, func(s *State) []Outcome {
			s.assumeGE(n, tOne)
			mut(s, &Mut{"readd", a[0], a[1], nil, false})
			return one(s, tFalse)
		}), true
	case tSet + "Delete":
		if !recvOK() {
			return nil, true
		}
		k := stripKey(a[1])
		v := x.dget(st, a[0], k)
		n := x.csize(st, a[0])
		return fork2(st, mkCmp("eq", v, tNil), func(s *State) []Outcome {
			return one(s, mk("newerr", x.siteName(s, "notfound")))
		}, func(s *State) []Outcome {
			if !s.assumeGE(n, tOne) {
				return nil
			}
			x.dput(s, a[0], k, tNil)
			x.setSize(s, a[0], tSub(n, tOne))
			mut(s, &Mut{kind: "remove", obj: a[0], key: k})
			return one(s, tNil)
		}), true
	case tSet + "Contains":
		if !recvOK() {
			return nil, true
		}
		v := x.dget(st, a[0], stripKey(a[1]))
		return one(st, mkNot(mkCmp("eq", v, tNil))), true
	case tSet + "GetRandom":
		if !recvOK() {
			return nil, true
		}
		n := x.csize(st, a[0])
		x.oblig(st, "emptyset", st.provesGE(n, tOne), c.instr, "random member of a set of size "+n.String())
		if !st.assumeGE(n, tOne) {
			return nil, true
		}
		k := x.fresh(st, "randmember", anyType)
		st.assume(mkCmp("eq", k, tNil), false)
		st.setFact("elemof", true, k, a[0])
		v := x.dget(st, a[0], k)
		st.assume(mkCmp("eq", v, tNil), false)
		if w.Random != nil {
			w.Random(x, st, k)
		}
		return one(st, k), true
	case tSet + "Range":
		if !recvOK() {
			return nil, true
		}
		n := x.csize(st, a[0])
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "members"), nil, nil, nil))
		st.mem[mk("gen", "elems", b)] = mk("site", x.siteName(st, "members"))
		st.setFact("stringelems", true, b)
		return one(st, mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, n)), true
	case tSet + "Union", tSet + "Intersect", tSet + "Difference":
		if !recvOK() {
			return nil, true
		}
		x.needNonNil(st, a[1], c.instr, "operand of "+nm)
		r := alloc("setop")
		st.mem[mk("gen", "dict", r)] = mk("site", x.siteName(st, "setop"))
		n := x.fresh(st, "setopsize", types.Typ[types.Int64])
		st.assumeGE(n, tZero)
		st.assumeGE(mkInt(bigLen), n)
		x.setSize(st, r, n)
		return one(st, r), true

	// ---- Zset
	case tZset + "Add":
		if !recvOK() {
			return nil, true
		}
		k := stripKey(a[2])
		old := x.dget(st, a[0], k)
		n := x.csize(st, a[0])
		return fork2(st, mkCmp("eq", old, tNil), func(s *State) []Outcome {
			v := x.fresh(s, "zelem", nil)
			s.assume(mkCmp("eq", v, tNil), false)
			x.dput(s, a[0], k, v)
			x.setSize(s, a[0], tAdd(n, tOne))
			mut(s, &Mut{"add", a[0], k, a[1], true})
			return one(s, tTrue)
		}, func(s *State) []Outcome {
			s.assumeGE(n, tOne)
			mut(s, &Mut{"update", a[0], k, a[1], false})
			return one(s, tFalse)
		}), true
	case tZset + "Get":
		if !recvOK() {
			return nil, true
		}
		v := x.dget(st, a[0], stripKey(a[1]))
		r := mkFull("app", "zelem", resType(c, 0), nil, nil, v)
		return fork2(st, mkCmp("eq", v, tNil), func(s *State) []Outcome { return one(s, tNil) }, func(s *State) []Outcome {
			s.assume(mkCmp("eq", r, tNil), false)
			return one(s, r)
		}), true
	case tZset + "Delete":
		if !recvOK() {
			return nil, true
		}
		k := stripKey(a[1])
		v := x.dget(st, a[0], k)
		n := x.csize(st, a[0])
		return fork2(st, mkCmp("eq", v, tNil), func(s *State) []Outcome { return one(s, tFalse) }, func(s *State) []Outcome {
			if !s.assumeGE(n, tOne) {
				return nil
			}
			x.dput(s, a[0], k, tNil)
			x.setSize(s, a[0], tSub(n, tOne))
			mut(s, &Mut{kind: "remove", obj: a[0], key: k})
			return one(s, tTrue)
		}), true
	case tZset + "DeleteRangeByRank", tZset + "DeleteRangeByScore":
		if !recvOK() {
			return nil, true
		}
		n := x.csize(st, a[0])
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "removed"), nil, nil, nil))
		st.mem[mk("gen", "elems", b)] = mk("site", x.siteName(st, "removed"))
		st.setFact("nonnilelems", true, b)
		d := x.fresh(st, "nremoved", types.Typ[types.Int])
		st.assumeGE(d, tZero)
		st.assumeGE(n, d)
		r := func(l *Term) *Term { return mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, l) }
		return fork2(st, mkCmp("ieq", d, tZero), func(s *State) []Outcome { return one(s, r(tZero)) }, func(s *State) []Outcome {
			s.mem[mk("gen", "dict", a[0])] = mk("site", x.siteName(s, "rangedel"))
			for o := range s.mem {
				if o.op == "dcell" && o.args[0] == a[0] {
					delete(s.mem, o)
				}
			}
			x.setSize(s, a[0], tSub(n, d))
			mut(s, &Mut{kind: "remove", obj: a[0]})
			return one(s, r(d))
		}), true
	case tZset + "RangeByRank", tZset + "RangeByScore":
		if !recvOK() {
			return nil, true
		}
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "zrange"), nil, nil, nil))
		st.mem[mk("gen", "elems", b)] = mk("site", x.siteName(st, "zrange"))
		st.setFact("nonnilelems", true, b)
		d := x.fresh(st, "nrange", types.Typ[types.Int])
		st.assumeGE(d, tZero)
		st.assumeGE(x.csize(st, a[0]), d)
		return one(st, mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, d)), true
	case tZset + "Count", tZset + "GetRank":
		return one(st, x.fresh(st, "zcount", resType(c, 0))), true

	// ---- Quicklist
	case tList + "PushFront", tList + "PushBack":
		if !recvOK() {
			return nil, true
		}
		x.setSize(st, a[0], tAdd(x.csize(st, a[0]), tOne))
		mut(st, &Mut{"add", a[0], a[1], nil, true})
		return one(st), true
	case tList + "PopFront", tList + "PopBack", tList + "Remove":
		if !recvOK() {
			return nil, true
		}
		pop := func(s *State, n *Term) []Outcome {
			v := x.fresh(s, "popped", anyType)
			s.assume(mkCmp("eq", v, tNil), false)
			s.setFact("elemof", true, v, a[0])
			x.setSize(s, a[0], tSub(n, tOne))
			mut(s, &Mut{kind: "remove", obj: a[0]})
			return one(s, v)
		}
		if nm == tList+"Remove" {
			s2 := st.clone()
			return append(sizeFork(a[0], func(s *State, n *Term) []Outcome { return nil }, pop), one(s2, tNil)...), true
		}
		return sizeFork(a[0], func(s *State, n *Term) []Outcome { return one(s, tNil) }, pop), true
	case tList + "Insert":
		if !recvOK() {
			return nil, true
		}
		s2 := st.clone()
		x.setSize(st, a[0], tAdd(x.csize(st, a[0]), tOne))
		mut(st, &Mut{"add", a[0], a[2], nil, true})
		return append(one(st, tTrue), one(s2, tFalse)...), true
	case tList + "Get":
		if !recvOK() {
			return nil, true
		}
		s2 := st.clone()
		v := x.fresh(st, "listval", anyType)
		st.assume(mkCmp("eq", v, tNil), false)
		st.setFact("elemof", true, v, a[0])
		return append(one(st, v), one(s2, tNil)...), true
	case tList + "Range":
		if !recvOK() {
			return nil, true
		}
		s2 := st.clone()
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "lrange"), nil, nil, nil))
		st.mem[mk("gen", "elems", b)] = mk("site", x.siteName(st, "lrange"))
		st.setFact("stringelems", true, b)
		d := x.fresh(st, "nrange", types.Typ[types.Int])
		st.assumeGE(d, tZero)
		st.assumeGE(x.csize(st, a[0]), d)
		return append(one(st, mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, d)), one(s2, tNil)...), true
	case tList + "Find":
		return one(st, x.fresh(st, "lfind", resType(c, 0))), true
	case tList + "Size":
		return one(st, x.fresh(st, "pages", resType(c, 0))), true
	}
	return nil, false
}

// worldLoad gives elements of modelled result slices their known shape.
func worldLoad(x *Exec, st *State, addr *Term, typ types.Type) *Term {
	if addr.op == "elem" && addr.args[0].op == "alloc" {
		if st.hasFact("nonnilelems", addr.args[0]) {
			t := st.load(addr, typ)
			st.assume(mkCmp("eq", t, tNil), false)
			return t
		}
		if st.hasFact("stringelems", addr.args[0]) {
			t := st.load(addr, typ)
			st.setFact("isstring", true, t)
			return t
		}
	}
	return nil
}

// ---------------------------------------------------------------- command table

type cmdInfo struct {
	name  string
	proc  *ssa.Function
	arity int64
	pos   token.Pos
}

// commandTable reads the entries of the command table from the package initialiser.
func (p *Prog) commandTable() ([]cmdInfo, error) {
	cmdT := p.namedType("server", "command")
	if cmdT == nil {
		return nil, fmt.Errorf("type server.command not found")
	}
	str, ok := cmdT.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("server.command is not a struct")
	}
	nameF, procF, arF := -1, -1, -1
	for i := 0; i < str.NumFields(); i++ {
		t := str.Field(i).Type()
		switch {
		case isStringType(t) && nameF < 0:
			nameF = i
		case isIntType(t) && arF < 0:
			arF = i
		default:
			if _, ok := t.Underlying().(*types.Signature); ok && procF < 0 {
				procF = i
			}
		}
	}
	if nameF < 0 || procF < 0 || arF < 0 {
		return nil, fmt.Errorf("server.command lacks name, proc or arity")
	}
	sp := p.byPath[modPath+"/server"]
	byBase := map[ssa.Value]*cmdInfo{}
	var order []ssa.Value
	for _, m := range sp.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || !(fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), cmdT) {
					continue
				}
				ci := byBase[fa.X]
				if ci == nil {
					ci = &cmdInfo{pos: s.Pos()}
					byBase[fa.X] = ci
					order = append(order, fa.X)
				}
				v := s.Val
				for {
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
						continue
					}
					break
				}
				switch fa.Field {
				case nameF:
					if c, ok := v.(*ssa.Const); ok {
						ci.name, _ = constTerm(c).strVal()
					}
				case procF:
					switch f := v.(type) {
					case *ssa.Function:
						ci.proc = f
					case *ssa.MakeClosure:
						ci.proc = f.Fn.(*ssa.Function)
					}
				case arF:
					if c, ok := v.(*ssa.Const); ok {
						ci.arity, _ = constTerm(c).intVal()
					}
				}
			}
		}
	}
	var out []cmdInfo
	for _, b := range order {
		ci := byBase[b]
		if ci.name == "" || ci.proc == nil {
			return nil, fmt.Errorf("incomplete command table entry at %s", p.pos(ci.pos))
		}
		out = append(out, *ci)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	if len(out) == 0 {
		return nil, fmt.Errorf("no command table found")
	}
	return out, nil
}

// findFn finds a function by name or, if it was renamed, by a predicate with a unique match.
func (p *Prog) findFn(name string, pred func(*ssa.Function) bool) *ssa.Function {
	if f := p.fn(name); f != nil {
		return f
	}
	if pred == nil {
		return nil
	}
	var found *ssa.Function
	for _, f := range p.funcs {
		if pred(f) {
			if found != nil {
				return nil
			}
			found = f
		}
	}
	return found
}
