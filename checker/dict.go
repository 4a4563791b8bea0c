package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The hash table. Every operation is explored for one arbitrary key, the witness, from every shape of table the
// witness can be in: not initialised, not resizing, resizing with the witness in the old or in the new table, or
// nowhere. Chains are followed by what is known of the witness' entry: it is in the rest of the chain or it is not.

const (
	fDTables  = "datastruct.Dict.hashTables"
	fDRehash  = "datastruct.Dict.rehashIndex"
	fDIters   = "datastruct.Dict.iterators"
	fHTables  = "datastruct.hashTable.tables"
	fHSize    = "datastruct.hashTable.size"
	fHMask    = "datastruct.hashTable.sizeMask"
	fHUsed    = "datastruct.hashTable.used"
	fENext    = "datastruct.DictEntry.next"
	fDItDict  = "datastruct.DictIterator.dict"
	fDItTable = "datastruct.DictIterator.table"
	fDItIndex = "datastruct.DictIterator.index"
	fDItEntry = "datastruct.DictIterator.entry"
	fDItNext  = "datastruct.DictIterator.next"
	tDType    = "(datastruct.DictType)."
)

var (
	tHang = mk("hang", "")
	i64   = types.Type(types.Typ[types.Int64])
)

type dictAn struct {
	p           *Prog
	r           *Report
	root        *ssa.Function
	d           *Term
	entryT      types.Type
	tableT      types.Type
	key         *Term // the key the operation is called with, nil if none
	w           *Term
	h           [2]*Term
	arr         [2]*Term
	used        [2]*Term
	e0, val0    *Term
	ri0, iters0 *Term
	value       *Term
	size        [2]*Term
	inited      bool
	rehashing   bool
	it          *Term
	started     bool
	aheadBefore bool
	what        string
	moved       *int
	maint       map[*ssa.Function]bool // unexported functions without parameters and results: steps of the resize
	deep        bool
}

func (a *dictAn) cell(st *State, f string, ty types.Type, b *Term) *Term {
	return st.load(fldOf(f, ty, b), ty)
}

func (a *dictAn) htCell(i int64) *Term {
	f := mkFull("fld", fDTables, nil, nil, nil, a.d)
	for _, g := range a.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fieldName(fa) == fDTables {
					f = mkFull("fld", fDTables, fa.Type().Underlying().(*types.Pointer).Elem(), nil, nil, a.d)
					return mkFull("elem", "", types.NewPointer(a.tableT), nil, nil, f, mkInt(i))
				}
			}
		}
	}
	return mkFull("elem", "", types.NewPointer(a.tableT), nil, nil, f, mkInt(i))
}

func (a *dictAn) ht(st *State, i int64) *Term {
	c := a.htCell(i)
	return st.load(c, c.typ)
}

// owner of a backing array.
func (a *dictAn) owner(st *State, b *Term) *Term {
	for c, v := range st.mem {
		if c.op == "fld" && c.aux == fHTables && v.op == "slice" && v.args[0] == b {
			return c.args[0]
		}
	}
	return nil
}

func (a *dictAn) hash(k *Term) *Term { return mkFull("app", "hash", i64, nil, nil, k) }

// home is the bucket of the witness in a table.
func (a *dictAn) home(x *Exec, st *State, b *Term) *Term {
	h := a.owner(st, b)
	if h == nil {
		return nil
	}
	m := a.cell(st, fHMask, i64, h)
	t := x.binop(st, token.AND, a.hash(a.w), m, i64, nil)
	st.assumeGE(t, tZero)
	if st.provesGE(m, tZero) {
		st.assumeGE(m, t)
	}
	return t
}

func (a *dictAn) at(st *State) *Term { return st.slots["at"] }

func (a *dictAn) isBase(b *Term) bool { return b != nil && b.op == "alloc" }

func (a *dictAn) isBucket(addr *Term) bool {
	return addr.op == "elem" && addr.typ != nil && types.Identical(addr.typ, types.NewPointer(a.entryT)) && a.isBase(addr.args[0])
}

func (a *dictAn) factOf(st *State, name string, v *Term) *Term {
	var out *Term
	for k, ok := range st.bools {
		if ok && k.op == "app" && k.aux == "@"+name && len(k.args) == 2 && k.args[0] == v {
			if out == nil || k.args[1].id < out.id {
				out = k.args[1]
			}
		}
	}
	return out
}

func (a *dictAn) dropFacts(st *State, name string, v *Term) {
	for k := range st.bools {
		if k.op == "app" && k.aux == "@"+name && k.args[0] == v {
			delete(st.bools, k)
		}
	}
}

func (a *dictAn) newEntry(x *Exec, st *State, hint string) *Term {
	return x.fresh(st, hint, types.NewPointer(a.entryT))
}

func isNewObj(t *Term) bool { return t.op == "alloc" }

// decide splits a state where it matters whether an entry is that of the witness, or a bucket is its bucket.
func (a *dictAn) decide(x *Exec, st *State, addr *Term) []*State {
	if addr.op == "fld" && strings.HasPrefix(addr.aux, "datastruct.DictEntry.") {
		v := addr.args[0]
		e := st.slots["E"]
		if v == e || e == tAbsent || !st.hasFact("has", v) || st.hasFact("other", v) || isNewObj(v) {
			return nil
		}
		s2 := st.clone()
		s2.setFact("other", true, v)
		s2.assume(mkCmp("eq", v, e), false)
		if st.eval(mkCmp("eq", v, e)) == 0 {
			return []*State{s2}
		}
		st.subst(map[*Term]*Term{v: e})
		st.note("the chain reaches the entry of the witness")
		return []*State{st, s2}
	}
	if a.isBucket(addr) && a.at(st) == addr.args[0] {
		hm := a.home(x, st, addr.args[0])
		if hm == nil {
			return nil
		}
		c := mkCmp("ieq", addr.args[1], hm)
		if st.eval(c) != -1 {
			return nil
		}
		s2 := st.clone()
		var out []*State
		if st.assume(c, true) {
			out = append(out, st)
		}
		if s2.assume(c, false) {
			out = append(out, s2)
		}
		if len(out) == 1 && (out[0].eval(c) == -1) {
			return nil
		}
		for _, s := range out {
			if s.eval(c) == -1 {
				return nil
			}
		}
		return out
	}
	return nil
}

func (a *dictAn) load(x *Exec, st *State, addr *Term, typ types.Type) *Term {
	switch {
	case (addr.op == "sym" || addr.op == "phi") && types.Identical(typ, types.NewPointer(a.entryT)):
		x.lose("a chain is walked through the addresses of its links")
	case a.isBucket(addr):
		if v := st.mem[addr]; v != nil {
			a.walk(st, "head", v)
			return v
		}
		b := addr.args[0]
		mine := false
		if a.at(st) == b {
			hm := a.home(x, st, b)
			switch st.eval(mkCmp("ieq", addr.args[1], hm)) {
			case 1:
				mine = true
			case -1:
				x.unsure("%s: bucket %v against that of the witness %v", fnName(a.root), addr.args[1], hm)
			}
		} else if b != a.arr[0] && b != a.arr[1] && !st.hasFact("grown", b) {
			return nil // just made, every chain is empty
		}
		st.slots["tmp"] = addr
		v := a.newEntry(x, st, "head")
		addr = st.slots["tmp"]
		delete(st.slots, "tmp")
		if mine {
			st.setFact("has", true, v)
			nonNil(st, v)
		} else {
			st.setFact("no", true, v)
			a.notE(st, v)
		}
		st.setFact("of", true, v, b)
		st.setFact("idx", true, v, addr.args[1])
		a.walk(st, "head", v)
		st.mem[addr] = v
		return v
	case addr.op == "fld" && addr.aux == fENext && !isNewObj(addr.args[0]):
		if v := st.mem[addr]; v != nil {
			if addr.args[0] == st.slots["E"] {
				st.setSlot("walk", "tail")
			} else if st.slot("walk") != "tail" {
				a.walk(st, "in", v)
			}
			return v
		}
		st.slots["tmp"] = addr.args[0]
		n := a.newEntry(x, st, "next")
		v := st.slots["tmp"]
		delete(st.slots, "tmp")
		tail := v == st.slots["E"] || st.slot("walk") == "tail"
		switch {
		case v == st.slots["E"]:
			st.setFact("no", true, n)
			a.notE(st, n)
		case st.hasFact("has", v):
			st.setFact("has", true, n)
			nonNil(st, n)
			tail = false
		case st.hasFact("no", v):
			st.setFact("no", true, n)
			a.notE(st, n)
		}
		if b := a.factOf(st, "of", v); b != nil {
			st.setFact("of", true, n, b)
		}
		if i := a.factOf(st, "idx", v); i != nil {
			st.setFact("idx", true, n, i)
		}
		a.dropFacts(st, "link", v)
		st.setFact("link", true, v, n)
		a.walk(st, "in", n)
		if tail {
			st.setSlot("walk", "tail")
		}
		st.mem[fldOf(fENext, typ, v)] = n
		return n
	case addr.op == "fld" && addr.aux == fEntryKey && !isNewObj(addr.args[0]):
		v := addr.args[0]
		if v == st.slots["E"] {
			return boxKey(a.w)
		}
		if !st.hasFact("no", v) && !st.hasFact("other", v) && st.slots["E"] != tAbsent {
			x.unsure("%s: the key of an entry nothing is known about is read: %v at %v", fnName(a.root), v, a.at(st))
		}
		return mkFull("app", "keyof", typ, nil, nil, v)
	case addr.op == "fld" && addr.aux == fHUsed:
		v := st.load(addr, typ)
		h := addr.args[0]
		for i := range a.h {
			if h == a.h[i] && a.at(st) == a.arr[i] && st.provesEqInt(st.ghost(a.ghostName(a.arr[i])), tZero) {
				st.assumeGE(v, tOne)
			}
		}
		return v
	}
	return nil
}

// walk keeps apart, at loop heads, the places a walk along a chain can be in.
func (a *dictAn) walk(st *State, where string, v *Term) {
	switch {
	case v == st.slots["E"] || st.hasFact("has", v):
		where += "+"
	case st.hasFact("no", v):
		where += "-"
	}
	st.setSlot("walk", where)
}

func (a *dictAn) notE(st *State, v *Term) {
	if e := st.slots["E"]; e != tAbsent && e != nil && e != v {
		st.assume(mkCmp("eq", v, e), false)
	}
}

// ghostName: the difference between the number of entries a table counts and those it holds.
func (a *dictAn) ghostName(b *Term) string {
	switch b {
	case a.arr[0], a.h[0]:
		return "c0"
	case a.arr[1], a.h[1]:
		return "c1"
	}
	return "cn"
}

func (a *dictAn) count(st *State, b *Term, n int64) {
	g := a.ghostName(b)
	st.setGhost(g, tSub(st.ghost(g), mkInt(n)))
}

// paused: nothing may be moved between the tables unless no iteration is in progress.
func (a *dictAn) paused(x *Exec, st *State, pos token.Pos, what string) {
	*a.moved++
	a.r.oblig("C30.pause", a.p.pos(pos))
	n := a.cell(st, fDIters, intType, a.d)
	if st.eval(mkCmp("ieq", n, tZero)) != 1 {
		x.violate(st, "C30.pause", pathFn(st), pos, "%s although an iteration may be in progress", what)
	}
}

func (a *dictAn) oldNext(st *State, v *Term) *Term {
	if o := st.mem[fldOf(fENext, types.NewPointer(a.entryT), v)]; o != nil {
		return o
	}
	return a.factOf(st, "link", v)
}

func (a *dictAn) isHome(x *Exec, st *State, b, i *Term) int {
	hm := a.home(x, st, b)
	if hm == nil {
		return -1
	}
	return st.eval(mkCmp("ieq", i, hm))
}

func (a *dictAn) store(x *Exec, st *State, addr, v *Term, in ssa.Instruction) {
	pos := in.Pos()
	switch {
	case addr.op == "fld" && addr.aux == fEntryKey && !isNewObj(addr.args[0]):
		x.violate(st, "C30.find", pathFn(st), pos, "the key of a stored entry is changed")
	case addr == a.htCell(0):
		if old := a.ht(st, 0); old == a.h[0] && a.inited && v != old {
			a.paused(x, st, pos, "the tables are exchanged")
		}
	case addr.op == "fld" && addr.aux == fHUsed:
		g := a.ghostName(addr.args[0])
		st.setGhost(g, tAdd(st.ghost(g), tSub(v, st.load(addr, i64))))
	case addr.op == "fld" && addr.aux == fENext:
		a.storeNext(x, st, addr, v, pos)
	case a.isBucket(addr):
		a.storeHead(x, st, addr, v, pos)
	}
}

func (a *dictAn) storeNext(x *Exec, st *State, addr, v *Term, pos token.Pos) {
	e := addr.args[0]
	if isNewObj(e) && a.factOf(st, "of", e) == nil {
		return // not in a table yet
	}
	old := a.oldNext(st, e)
	b := a.factOf(st, "of", e)
	if old == nil {
		if b != nil && a.at(st) != tAbsent && !st.hasFact("no", e) && e != st.slots["E"] {
			x.unsure("%s: the chain after an entry is replaced unseen", fnName(a.root))
		}
		if e == st.slots["E"] || st.hasFact("no", e) {
			return
		}
		return
	}
	if old == v {
		return
	}
	a.dropFacts(st, "link", e)
	switch {
	case a.oldNext(st, old) == v && !st.hasFact("has", v) || a.oldNext(st, old) == v && old != st.slots["E"]:
		a.unlink(x, st, old)
		st.setFact("link", true, e, v)
	case st.eval(mkCmp("eq", old, tNil)) == 1:
		// an entry is put at the end of the chain
		if b != nil {
			a.placed(x, st, v, b, a.factOf(st, "idx", e), pos)
		}
	default:
		if b != nil && (st.hasFact("has", old) || old == st.slots["E"]) && a.at(st) == b {
			st.slots["at"] = tHang
		}
	}
}

// unlink: an entry is taken out of its chain.
func (a *dictAn) unlink(x *Exec, st *State, v *Term) {
	if b := a.factOf(st, "of", v); b != nil {
		a.count(st, b, -1)
	}
	a.dropFacts(st, "of", v)
	if v == st.slots["E"] {
		st.slots["at"] = tAbsent
		for k := range st.bools {
			if k.op == "app" && k.aux == "@has" {
				delete(st.bools, k)
			}
		}
		st.setFact("has", true, v)
		st.note("the entry of the witness is taken out")
	}
}

// placed: an entry has become part of the chain of a bucket.
func (a *dictAn) placed(x *Exec, st *State, v, b, i *Term, pos token.Pos) {
	from := a.factOf(st, "of", v)
	if from != nil && from != b {
		a.paused(x, st, pos, "an entry is moved")
		a.count(st, from, -1)
	}
	if from == b {
		x.violate(st, "C30.once", pathFn(st), pos, "an entry that is in the table is put into it again")
	}
	a.count(st, b, 1)
	st.setFact("grown", true, b)
	a.dropFacts(st, "of", v)
	st.setFact("of", true, v, b)
	k := v == st.slots["E"]
	if isNewObj(v) && !k {
		kt := stripKey(st.load(fldOf(fEntryKey, anyType, v), anyType))
		k = kt == a.w
		if k && a.at(st) != tAbsent {
			x.violate(st, "C30.once", pathFn(st), pos, "a second entry is made for a key that has one")
			return
		}
	}
	if !k {
		return
	}
	a.r.oblig("C30.bucket", a.p.pos(pos))
	if i == nil || a.isHome(x, st, b, i) != 1 {
		x.violate(st, "C30.bucket", pathFn(st), pos, "a key is put into bucket %v, looked for in %v", i, a.home(x, st, b))
	}
	if o := a.at(st); a.isBase(o) && o != b {
		st.slots["still"] = o
	}
	st.slots["E"] = v
	st.setFact("has", true, v)
	st.slots["at"] = b
}

func (a *dictAn) storeHead(x *Exec, st *State, addr, v *Term, pos token.Pos) {
	b, i := addr.args[0], addr.args[1]
	old := st.mem[addr]
	if old == nil && b != a.arr[0] && b != a.arr[1] && !st.hasFact("grown", b) {
		old = tNil
	}
	e := st.slots["E"]
	at := a.at(st)
	vnext := tNil
	if v != tNil {
		vnext = a.oldNext(st, v)
		if vnext == nil && isNewObj(v) {
			vnext = st.load(fldOf(fENext, types.NewPointer(a.entryT), v), types.NewPointer(a.entryT))
		}
	}
	defer func() {
		if s := st.slots["still"]; s == b && v != e && !st.hasFact("has", v) && a.isHome(x, st, b, i) == 1 {
			delete(st.slots, "still")
		}
	}()
	switch {
	case old != nil && v == old:
	case v != tNil && old != nil && vnext != nil && (vnext == old || st.equalTerms(vnext, old)) && a.factOf(st, "of", v) != b:
		a.placed(x, st, v, b, i, pos)
	case old != nil && old != tNil && a.oldNext(st, old) == v:
		a.unlink(x, st, old)
	default:
		has := v != tNil && (st.hasFact("has", v) || v == e && e != tAbsent)
		hm := -2
		if a.isBase(at) || at == tHang {
			hm = a.isHome(x, st, b, i)
		}
		switch {
		case at == b && hm == -1 && !has:
			x.unsure("%s: a chain is replaced, perhaps that of the witness", fnName(a.root))
		case at == b && hm == 1 && !has:
			if e != nil && st.slots["still"] == b {
				return
			}
			st.slots["at"] = tHang
			st.note("the chain with the entry of the witness is replaced")
		case at == tHang && has && hm == 1:
			st.slots["at"] = b
		case at != b && has:
			st.slots["at"] = tHang
			x.violate(st, "C30.bucket", pathFn(st), pos, "a chain is put into bucket %v, a key in it is looked for in bucket %v", i, a.home(x, st, b))
		}
	}
}

func (a *dictAn) call(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	switch {
	case c.name == tDType+"Hash":
		return one(st, a.hash(stripKey(c.args[1]))), true
	case c.name == tDType+"Equal":
		p, q := stripKey(c.args[1]), stripKey(c.args[2])
		if p == q {
			return one(st, tTrue), true
		}
		if p == a.w || q == a.w {
			return one(st, tFalse), true
		}
		return fork2(st, mk("app", "@same", p, q), func(s *State) []Outcome { return one(s, tTrue) }, func(s *State) []Outcome { return one(s, tFalse) }), true
	case strings.HasPrefix(c.name, "github.com/IfanTsai/metis/log.") || strings.HasPrefix(c.name, "log."):
		return x.freshResults(st, c), true
	}
	if a.deep {
		return a.deepCall(x, st, c)
	}
	if c.fn != nil && c.fn != a.root && a.it == nil && len(c.args) > 0 && c.args[0] == a.d && (a.maint[c.fn] || c.name == tDict+"Find" || c.name == tDict+"Get") {
		return a.summary(x, st, c)
	}
	return nil, false
}

// sizes: tables that were there at the start have a bucket, as long as their size is not changed.
func (a *dictAn) sizes(st *State) {
	for i, h := range a.h {
		if h != nil && a.cell(st, fHSize, i64, h) == a.size[i] {
			st.assumeGE(a.size[i], tOne)
			st.assumeGE(mkInt(1<<60), a.size[i])
		}
	}
}

// clean: the table is in one of the states operations are explored from.
func (a *dictAn) clean(x *Exec, st *State) bool {
	for _, g := range []string{"c0", "c1", "cn"} {
		if !st.provesEqInt(st.ghost(g), tZero) {
			return false
		}
	}
	at := a.at(st)
	ri := a.cell(st, fDRehash, i64, a.d)
	re := st.eval(mkCmp("ieq", ri, mkInt(-1)))
	if st.slots["still"] != nil || re == -1 {
		return false
	}
	placed := at == tAbsent
	for i := int64(0); i < 2; i++ {
		h := a.ht(st, i)
		if (h != tNil) != (i == 0 || re == 0) {
			return i == 0 && h == tNil && re == 1 && placed
		}
		if h == tNil {
			continue
		}
		b, _, _ := x.sliceParts(a.cell(st, fHTables, nil, h))
		if b == at {
			placed = re == 1 || i == 1 || st.provesGE(a.home(x, st, b), ri)
		}
	}
	return placed
}

// summary: an operation explored by itself is called in one of the states it is explored from. While a resize is
// going on, and no iteration, it may move entries and end the resize.
func (a *dictAn) summary(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	ri := a.cell(st, fDRehash, i64, a.d)
	re := st.eval(mkCmp("ieq", ri, mkInt(-1)))
	if !a.clean(x, st) || a.maint[c.fn] && re != 0 {
		return nil, false
	}
	arrOf := func(s *State, i int64) *Term {
		b, _, _ := x.sliceParts(a.cell(s, fHTables, nil, a.ht(s, i)))
		return b
	}
	sts := []*State{st}
	if re == 0 {
		s2 := st.clone()
		if s2.assume(mkCmp("ieq", a.cell(s2, fDIters, intType, a.d), tZero), true) {
			a.forget(x, s2)
			s3 := s2.clone()
			// some chains are moved
			nri := x.fresh(s2, "resized", i64)
			s2.assumeGE(nri, tAdd(a.cell(s2, fDRehash, i64, a.d), tOne))
			s2.mem[fldOf(fDRehash, i64, a.d)] = nri
			for i := int64(0); i < 2; i++ {
				u := x.fresh(s2, fmt.Sprintf("count%d", i), i64)
				s2.assumeGE(u, tZero)
				s2.mem[fldOf(fHUsed, i64, a.ht(s2, i))] = u
			}
			if a.at(s2) == arrOf(s2, 0) {
				s4 := s2.clone()
				s4.slots["at"] = arrOf(s4, 1)
				a.rehome(x, s4)
				sts = append(sts, s4)
				if s2.assumeGE(a.home(x, s2, arrOf(s2, 0)), a.cell(s2, fDRehash, i64, a.d)) {
					sts = append(sts, s2)
				}
			} else {
				sts = append(sts, s2)
			}
			if a.at(s3) != arrOf(s3, 0) {
				// the resize ends
				s3.mem[a.htCell(0)], s3.mem[a.htCell(1)] = a.ht(s3, 1), tNil
				s3.mem[fldOf(fDRehash, i64, a.d)] = mkInt(-1)
				sts = append(sts, s3)
			}
		}
	}
	if a.maint[c.fn] {
		var outs []Outcome
		for _, s := range sts {
			outs = append(outs, one(s)...)
		}
		return outs, true
	}
	var outs []Outcome
	for _, s := range sts {
		get := strings.HasSuffix(c.name, "Get")
		e := s.slots["E"]
		give := func(s *State, v *Term) {
			if get && v != tNil {
				v = s.load(fldOf(fEntryVal, anyType, v), anyType)
			}
			outs = append(outs, one(s, v)...)
		}
		if stripKey(c.args[1]) == a.w {
			if a.at(s) == tAbsent {
				give(s, tNil)
			} else {
				give(s, e)
			}
			continue
		}
		s5 := s.clone()
		give(s5, tNil)
		n := a.newEntry(x, s, "found")
		nonNil(s, n)
		s.setFact("no", true, n)
		a.notE(s, n)
		give(s, n)
	}
	return outs, true
}

// forget drops what is known of the chains.
func (a *dictAn) forget(x *Exec, st *State) {
	for c := range st.mem {
		if c.op == "fld" && c.aux == fENext && !isNewObj(c.args[0]) || c.op == "elem" && a.isBucket(c) {
			delete(st.mem, c)
		}
	}
	for i := range a.arr {
		if b := a.arr[i]; b != nil {
			st.setFact("grown", true, b)
		}
	}
	for _, h := range []*Term{a.ht(st, 0), a.ht(st, 1)} {
		if h != tNil {
			b, _, _ := x.sliceParts(a.cell(st, fHTables, nil, h))
			st.setFact("grown", true, b)
		}
	}
	for k := range st.bools {
		if k.op == "app" && (k.aux == "@has" || k.aux == "@no" || k.aux == "@other" || k.aux == "@link" || k.aux == "@of" || k.aux == "@idx") {
			delete(st.bools, k)
		}
	}
	delete(st.slots, "walk")
	a.rehome(x, st)
}

// rehome: the entry of the witness is in its bucket.
func (a *dictAn) rehome(x *Exec, st *State) {
	e, at := st.slots["E"], a.at(st)
	if at == tAbsent || !a.isBase(at) {
		return
	}
	a.dropFacts(st, "of", e)
	a.dropFacts(st, "idx", e)
	st.setFact("has", true, e)
	st.setFact("of", true, e, at)
	st.setFact("idx", true, e, a.home(x, st, at))
}

// deepCall: a copy is made through an iteration, which yields the witness once.
func (a *dictAn) deepCall(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	pos := c.instr.Pos()
	switch c.name {
	case "datastruct.NewDictIterator":
		it := nonNil(st, x.fresh(st, "iter", resType(c, 0)))
		if st.slots["iter"] != nil {
			x.giveUp("two iterations for a copy")
		}
		st.slots["iter"] = it
		if c.args[0] != a.d {
			x.violate(st, "C30.copy", pathFn(st), pos, "a copy is made from another dictionary")
		}
		if a.at(st) != tAbsent {
			st.setSlot("pending", "1")
		}
		return one(st, it), true
	case "(*datastruct.DictIterator).Next":
		var outs []Outcome
		if st.slot("pending") != "" {
			s := st.clone()
			delete(s.slots, "pending")
			s.setSlot("walk", "yielded")
			outs = append(outs, one(s, s.slots["E"])...)
		} else {
			s := st.clone()
			s.setSlot("walk", "end")
			outs = append(outs, one(s, tNil)...)
		}
		n := a.newEntry(x, st, "entry")
		nonNil(st, n)
		a.notE(st, n)
		st.setFact("no", true, n)
		st.setSlot("walk", "other")
		return append(outs, one(st, n)...), true
	case "(*datastruct.DictIterator).Release":
		return one(st), true
	case "datastruct.NewDict":
		return one(st, nonNil(st, x.fresh(st, "newdict", resType(c, 0)))), true
	case tDict + "Set":
		if c.args[0] == a.d {
			return nil, false
		}
		if stripKey(c.args[1]) == a.w {
			if c.args[2] == a.val0 || st.equalTerms(c.args[2], a.val0) {
				st.slots["copied"] = c.args[0]
			} else {
				x.violate(st, "C30.copy", pathFn(st), pos, "the copy of an entry has the value %v", c.args[2])
			}
		}
		return x.freshResults(st, c), true
	}
	return nil, false
}

// ahead: an iteration in the state of the iterator will still come to the witness.
func (a *dictAn) ahead(x *Exec, st *State) (yes, known bool) {
	at := a.at(st)
	if at == tAbsent {
		return false, true
	}
	if !a.isBase(at) {
		return false, false
	}
	tb, ok := a.cell(st, fDItTable, intType, a.it).intVal()
	if !ok || tb > 1 {
		return false, false
	}
	pt := types.NewPointer(a.entryT)
	if a.cell(st, fDItEntry, pt, a.it) != tNil {
		n := a.cell(st, fDItNext, pt, a.it)
		if n == st.slots["E"] || st.hasFact("has", n) {
			return true, true
		}
		if n != tNil && !st.hasFact("no", n) {
			return false, false
		}
	}
	h := a.ht(st, tb)
	if h == tNil {
		return false, true
	}
	b, _, _ := x.sliceParts(a.cell(st, fHTables, nil, h))
	if b == at {
		switch st.eval(mkCmp("ige", a.cell(st, fDItIndex, i64, a.it), a.home(x, st, b))) {
		case 1:
			return false, true
		case 0:
			return true, true
		}
		return false, false
	}
	return tb == 0 && st.eval(mkCmp("ieq", a.cell(st, fDRehash, i64, a.d), mkInt(-1))) == 0, true
}

func (a *dictAn) canon(x *Exec, st *State) {
	if a.it == nil {
		return
	}
	if tb, ok := a.cell(st, fDItTable, intType, a.it).intVal(); ok {
		st.setSlot("tbl", fmt.Sprint(tb))
	} else {
		st.setSlot("tbl", "?")
	}
}

func (a *dictAn) ret(x *Exec, st *State, res []*Term) {
	pos := a.root.Pos()
	fn := fnName(a.root)
	at := a.at(st)
	bad := func(rule, format string, args ...any) {
		x.violate(st, rule, pathFn(st), pos, "["+a.what+"] "+format, args...)
	}
	// the state of the tables
	a.r.oblig("C30.find", fn)
	ri := a.cell(st, fDRehash, i64, a.d)
	re := st.eval(mkCmp("ieq", ri, mkInt(-1)))
	h0, h1 := a.ht(st, 0), a.ht(st, 1)
	if re == -1 {
		x.unsure("%s: whether a resize is going on", fn)
		return
	}
	a.sizes(st)
	var live []*Term
	if h0 != tNil {
		live = append(live, h0)
	}
	if re == 0 {
		live = append(live, h1)
		if h1 == tNil || h0 == tNil {
			bad("C30.find", "a resize is recorded without two tables")
			return
		}
		if !st.provesGE(ri, tZero) {
			bad("C30.find", "a resize goes on with the index %v", ri)
		}
	}
	placed := at == tAbsent
	total := tZero
	for n, h := range live {
		sl := a.cell(st, fHTables, nil, h)
		b, _, ln := x.sliceParts(sl)
		size, mask, used := a.cell(st, fHSize, i64, h), a.cell(st, fHMask, i64, h), a.cell(st, fHUsed, i64, h)
		a.r.oblig("C30.shape", fn)
		if !st.provesGE(mask, tZero) || !st.provesGE(size, tAdd(mask, tOne)) || !st.provesGE(ln, size) {
			bad("C30.shape", "a table of %v buckets is used with the size %v and the mask %v", ln, size, mask)
		}
		a.r.oblig("C30.count", fn)
		total = tAdd(total, used)
		if d := st.ghost(a.ghostName(h)); !st.provesEqInt(d, tZero) {
			bad("C30.count", "a table counts %v entries, %v more than it holds", used, d)
		}
		if b == at {
			placed = true
			if n == 0 && re == 0 {
				hm := a.home(x, st, b)
				a.r.oblig("C30.passed", fn)
				if !st.provesGE(hm, ri) {
					bad("C30.passed", "the resize goes on at bucket %v, a key is left in bucket %v", ri, hm)
				}
			}
		}
	}
	if !placed {
		bad("C30.find", "a stored key is in none of the tables that are searched (%v)", at)
	}
	if s := st.slots["still"]; s != nil {
		for _, h := range live {
			if b, _, _ := x.sliceParts(a.cell(st, fHTables, nil, h)); b == s {
				bad("C30.once", "an entry is left in the table it has been moved from")
			}
		}
	}
	a.r.oblig("C30.count", fn)
	iters := a.cell(st, fDIters, intType, a.d)
	if a.it != nil {
		a.retIter(x, st, res, iters, bad)
		return
	}
	if !st.provesEqInt(iters, a.iters0) {
		bad("C30.pause", "the number of iterations in progress is changed from %v to %v", a.iters0, iters)
	}
	e := st.slots["E"]
	same := a.key == a.w
	was := a.e0 != nil
	if at != tAbsent && !(same && a.root.Name() == "Set") {
		if v := st.load(fldOf(fEntryVal, anyType, e), anyType); v != a.val0 && !st.equalTerms(v, a.val0) {
			bad("C30.find", "the value of a key the operation is not about is changed to %v", v)
		}
	}
	now := at != tAbsent
	switch a.root.Name() {
	case "Set":
		if !same {
			break
		}
		if !now {
			bad("C30.find", "a key that has been set is not in the table")
			break
		}
		if v := st.load(fldOf(fEntryVal, anyType, e), anyType); v != a.value && !st.equalTerms(v, a.value) {
			bad("C30.find", "after a key has been set its value is %v", v)
		}
		if len(res) == 1 && st.eval(res[0]) != b2i(!was) {
			bad("C30.find", "setting a key that is in the table: %v returns %v", was, res[0])
		}
	case "Delete":
		if !same {
			break
		}
		if now {
			bad("C30.find", "a key that has been deleted is still in the table")
		}
		if len(res) == 1 && st.eval(mkCmp("eq", res[0], tNil)) != b2i(was) {
			bad("C30.find", "deleting a key that is in the table: %v returns %v", was, res[0])
		}
	case "Find":
		if len(res) != 1 {
			break
		}
		switch {
		case same && was && res[0] != e:
			bad("C30.find", "a stored key is not found (%v)", res[0])
		case same && !was && st.eval(mkCmp("eq", res[0], tNil)) != 1:
			bad("C30.find", "a key that is not stored is found (%v)", res[0])
		case !same && res[0] == e && was:
			bad("C30.find", "the entry of another key is found")
		}
	case "Get":
		if len(res) != 1 {
			break
		}
		switch {
		case same && was && res[0] != a.val0 && !st.equalTerms(res[0], a.val0):
			bad("C30.find", "the value of a stored key is %v", res[0])
		case same && !was && st.eval(mkCmp("eq", res[0], tNil)) != 1:
			bad("C30.find", "a key that is not stored has the value %v", res[0])
		}
	case "Size":
		if len(res) == 1 && !st.provesEqInt(res[0], total) {
			bad("C30.count", "the size is reported as %v, the tables hold %v", res[0], total)
		}
	case "DeepCopy":
		if len(res) == 1 && was && st.slots["copied"] != res[0] {
			bad("C30.copy", "the copy does not have the entry of a stored key")
		}
	}
	if a.root.Name() != "Delete" && was && !now || a.root.Name() != "Set" && !was && now || !same && was != now {
		bad("C30.find", "a key the operation is not about was in the table: %v, and is: %v", was, now)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (a *dictAn) retIter(x *Exec, st *State, res []*Term, iters *Term, bad func(rule, format string, args ...any)) {
	idx := a.cell(st, fDItIndex, i64, a.it)
	tb := a.cell(st, fDItTable, intType, a.it)
	fresh := st.eval(mkCmp("ieq", idx, mkInt(-1))) == 1 && st.eval(mkCmp("ieq", tb, tZero)) == 1
	started := 0
	if !fresh {
		started = 1
	}
	was := 0
	if a.started {
		was = 1
	}
	fn := fnName(a.root)
	switch a.root.Name() {
	case "Release":
		a.r.oblig("C30.release", fn)
		if !st.provesEqInt(iters, tSub(a.iters0, mkInt(int64(was)))) {
			bad("C30.release", "the end of an iteration (begun: %v) leaves the number of iterations in progress at %v, it was %v", a.started, iters, a.iters0)
		}
	case "Next":
		a.r.oblig("C30.release", fn)
		if !st.provesEqInt(iters, tAdd(a.iters0, mkInt(int64(started-was)))) {
			bad("C30.release", "a step of an iteration (begun: %v, now: %v) leaves the number of iterations in progress at %v, it was %v", a.started, !fresh, iters, a.iters0)
		}
		a.r.oblig("C30.iterate", fn)
		e := st.slots["E"]
		now, known := a.ahead(x, st)
		isE := len(res) == 1 && res[0] == e && e != tAbsent
		isNil := len(res) == 1 && st.eval(mkCmp("eq", res[0], tNil)) == 1
		if !isNil && len(res) == 1 && !isE && !st.hasFact("no", res[0]) && !st.hasFact("other", res[0]) && st.eval(mkCmp("eq", res[0], e)) != 0 {
			x.unsure("%s: whether the entry returned is that of the witness", fn)
			return
		}
		if !isNil && len(res) == 1 {
			if cur := a.cell(st, fDItEntry, types.NewPointer(a.entryT), a.it); cur == tNil {
				bad("C30.iterate", "an entry is returned and the iterator has no place in its chain")
			}
		}
		switch {
		case isE && !a.aheadBefore:
			bad("C30.iterate", "an iteration comes to a key again")
		case isE && (now || !known):
			bad("C30.iterate", "an iteration will come to the key again that it has just returned")
		case isNil && a.aheadBefore:
			bad("C30.iterate", "an iteration ends before it has come to a stored key")
		case !isE && !isNil && a.aheadBefore && !now:
			bad("C30.iterate", "an iteration passes a stored key without returning it")
		case !isE && !a.aheadBefore && now:
			bad("C30.iterate", "an iteration goes back to a key it has returned")
		}
	}
}

// start gives the states of a dictionary, for a witness that is nowhere, in the first or in the second table.
func (a *dictAn) start(x *Exec, shape, where int) *State {
	st := newState()
	nonNil(st, a.d)
	pt := types.NewPointer(a.entryT)
	pht := types.NewPointer(a.tableT)
	st.mem[a.htCell(0)], st.mem[a.htCell(1)] = tNil, tNil
	a.ri0 = mkInt(-1)
	a.inited, a.rehashing = shape > 0, shape == 2
	a.iters0 = sym("iterators", intType)
	st.assumeGE(a.iters0, tZero)
	st.mem[fldOf(fDIters, intType, a.d)] = a.iters0
	for i := 0; i < shape; i++ {
		a.h[i] = mkFull("alloc", fmt.Sprintf("table%d", i), pht, nil, nil)
		a.arr[i] = mkFull("alloc", fmt.Sprintf("buckets%d", i), nil, nil, nil)
		sz := sym(fmt.Sprintf("size%d", i), i64)
		a.used[i] = sym(fmt.Sprintf("used%d", i), i64)
		a.size[i] = sz
		st.assumeGE(sz, tOne)
		st.assumeGE(mkInt(1<<60), sz)
		st.assumeGE(a.used[i], tZero)
		st.assumeGE(mkInt(1<<60), a.used[i])
		slT := types.NewSlice(pt)
		st.mem[a.htCell(int64(i))] = a.h[i]
		st.mem[fldOf(fHTables, slT, a.h[i])] = mkFull("slice", "", slT, nil, nil, a.arr[i], tZero, sz)
		st.mem[fldOf(fHSize, i64, a.h[i])] = sz
		st.mem[fldOf(fHMask, i64, a.h[i])] = tSub(sz, tOne)
		st.mem[fldOf(fHUsed, i64, a.h[i])] = a.used[i]
	}
	if shape == 2 {
		a.ri0 = sym("rehashIndex", i64)
		st.assumeGE(a.ri0, tZero)
		st.assumeGE(mkInt(1<<60), a.ri0)
	}
	st.mem[fldOf(fDRehash, i64, a.d)] = a.ri0
	a.e0 = nil
	st.slots["E"] = tAbsent
	st.slots["at"] = tAbsent
	if where >= 0 {
		a.e0 = nonNil(st, sym("E", pt))
		st.mem[fldOf(fEntryVal, anyType, a.e0)] = a.val0
		st.slots["E"] = a.e0
		st.slots["at"] = a.arr[where]
		st.assumeGE(a.used[where], tOne)
		hm := a.home(x, st, a.arr[where])
		st.mem[mk("bound", "", a.arr[where])] = hm
		if shape == 2 && where == 0 {
			st.assumeGE(hm, a.ri0)
		}
		st.setFact("has", true, a.e0)
		st.setFact("of", true, a.e0, a.arr[where])
		st.setFact("idx", true, a.e0, hm)
	}
	return st
}

func exploreDict(p *Prog, r *Report) {
	named := func(n string) types.Type { return p.namedType("datastruct", n) }
	moved := 0
	maint := map[*ssa.Function]bool{}
	inl := map[*ssa.Function]bool{}
	mkAn := func(f *ssa.Function) *dictAn {
		return &dictAn{p: p, r: r, root: f, d: sym("dict", types.NewPointer(named("Dict"))), entryT: named("DictEntry"), tableT: named("hashTable"),
			w: sym("W", stringType), val0: sym("V", anyType), moved: &moved, maint: maint}
	}
	runRoot := func(a *dictAn, x *Exec, st *State, args []*Term) {
		if only := os.Getenv("METIS_ROOT"); only != "" && !strings.HasPrefix(a.root.Name()+": "+a.what, only) {
			return
		}
		x.Run(a.root, st, args, nil)
		r.use(x)
		for f := range x.inlined {
			inl[f] = true
		}
		inl[a.root] = true
	}
	shapes := []struct{ shape, where int }{{0, -1}, {1, -1}, {1, 0}, {2, -1}, {2, 0}, {2, 1}}
	name := func(s, w int) string {
		return []string{"not initialised", "not resizing", "resizing"}[s] + ", " + []string{"key absent", "key in the first table", "key in the second table"}[w+1]
	}
	roots := p.apiRoots("datastruct", "Dict")
	called := map[*ssa.Function]bool{}
	for _, f := range roots {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil {
					called[ci.Common().StaticCallee()] = true
				}
			}
		}
	}
	for _, f := range p.methodsOf("datastruct", "Dict") {
		if sg := f.Signature; called[f] && !f.Object().Exported() && sg.Params().Len() == 0 && sg.Results().Len() == 0 {
			maint[f] = true
			roots = append(roots, f)
		}
	}
	for _, f := range roots {
		for _, sh := range shapes {
			for _, same := range []bool{true, false} {
				if maint[f] && sh.shape != 2 {
					continue // called by itself only while a resize is going on
				}
				a := mkAn(f)
				x := newExec(p, r, &Hooks{Call: a.call, Load: a.load, Store: a.store, Return: a.ret, Decide: a.decide, Measure: noMeasure})
				st := a.start(x, sh.shape, sh.where)
				a.what = name(sh.shape, sh.where)
				args := []*Term{a.d}
				nKey := 0
				for i, q := range f.Params[1:] {
					t := sym(q.Name(), q.Type())
					if isEmptyIface(q.Type()) {
						nKey++
						if i == 0 {
							a.key = sym("k", stringType)
							if same {
								a.key = a.w
							} else {
								a.what += ", another key"
							}
							t = boxKey(a.key)
						} else {
							a.value = t
						}
					}
					args = append(args, t)
				}
				if nKey == 0 && !same {
					continue
				}
				a.deep = f.Name() == "DeepCopy"
				runRoot(a, x, st, args)
			}
		}
	}
	exploreDictIter(p, r, shapes, name, mkAn, runRoot)
	if moved == 0 {
		r.add(&Violation{Rule: "C30.progress", Construct: "datastruct.Dict", Pos: "-", Msg: "no operation ever moves an entry to the new table", Entry: "datastruct.Dict"})
	}
	// nobody else writes the tables
	for _, field := range []string{fDTables, fDRehash, fDIters, fHTables, fHSize, fHMask, fHUsed, fENext, fEntryKey} {
		for _, s := range p.fieldStores(field) {
			fa, ok := s.Addr.(*ssa.FieldAddr)
			r.oblig("C30.sealed", p.pos(s.Pos()))
			if ok && madeHere(fa.X) || inl[s.Parent()] {
				continue
			}
			r.add(&Violation{Rule: "C30.sealed", Construct: fnName(s.Parent()), Pos: p.pos(s.Pos()), Msg: field + " is changed outside the operations of the table", Entry: fnName(s.Parent())})
		}
	}
	releaseRule(p, r)
	keyTypeRule(p, r)
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func exploreDictIter(p *Prog, r *Report, shapes []struct{ shape, where int }, name func(s, w int) string, mkAn func(*ssa.Function) *dictAn, run func(*dictAn, *Exec, *State, []*Term)) {
	for _, f := range p.apiRoots("datastruct", "DictIterator") {
		for _, sh := range shapes {
			// where the iteration is: not begun; in the first or second table with the witness in an earlier bucket, in
			// an earlier, the current or a later place of the chain, or in a later bucket
			type place struct{ tb, rel int }
			places := []place{{-1, 0}}
			for t := 0; t < sh.shape; t++ {
				rels := []int{9}
				if sh.where == t {
					rels = []int{-2, -1, 0, 1, 2}
				}
				for _, rel := range rels {
					places = append(places, place{t, rel})
				}
			}
			for _, pl := range places {
				a := mkAn(f)
				x := newExec(p, r, &Hooks{Call: a.call, Load: a.load, Store: a.store, Return: a.ret, Decide: a.decide, Canon: a.canon, Measure: noMeasure})
				st := a.start(x, sh.shape, sh.where)
				a.what = name(sh.shape, sh.where)
				pt := types.NewPointer(a.entryT)
				a.it = nonNil(st, sym("iter", types.NewPointer(p.namedType("datastruct", "DictIterator"))))
				set := func(f string, ty types.Type, v *Term) { st.mem[fldOf(f, ty, a.it)] = v }
				set(fDItDict, a.d.typ, a.d)
				if pl.tb < 0 {
					set(fDItTable, intType, tZero)
					set(fDItIndex, i64, mkInt(-1))
					set(fDItEntry, pt, tNil)
					set(fDItNext, pt, tNil)
					a.aheadBefore = sh.where >= 0
					a.what += ", iteration not begun"
				} else {
					a.started = true
					st.assumeGE(a.iters0, tOne)
					idx := sym("index", i64)
					st.assumeGE(idx, tZero)
					st.assumeGE(tSub(a.cell(st, fHSize, i64, a.h[pl.tb]), tOne), idx)
					set(fDItTable, intType, mkInt(int64(pl.tb)))
					set(fDItIndex, i64, idx)
					e := nonNil(st, sym("current", pt))
					n := sym("following", pt)
					if pl.rel == 0 {
						e = a.e0
					}
					set(fDItEntry, pt, e)
					set(fDItNext, pt, n)
					b := a.arr[pl.tb]
					for _, v := range []*Term{e, n} {
						st.setFact("of", true, v, b)
						st.setFact("idx", true, v, idx)
					}
					if pl.rel != 0 {
						a.notE(st, e)
						if pl.rel == 1 {
							st.setFact("has", true, e)
							st.setFact("other", true, e)
						} else {
							st.setFact("no", true, e)
						}
					}
					if pl.rel == 1 {
						st.setFact("has", true, n)
						nonNil(st, n)
					} else {
						st.setFact("no", true, n)
						a.notE(st, n)
					}
					if pl.rel != 9 {
						hm := a.home(x, st, b)
						switch {
						case pl.rel == -2:
							st.assumeGE(idx, tAdd(hm, tOne))
						case pl.rel == 2:
							st.assumeGE(hm, tAdd(idx, tOne))
						default:
							st.assume(mkCmp("ieq", hm, idx), true)
						}
					}
					a.what += fmt.Sprintf(", iteration in table %d (%d)", pl.tb, pl.rel)
					a.aheadBefore = pl.rel == 1 || pl.rel == 2 || pl.rel == 9 && sh.where == 1 && pl.tb == 0
				}
				run(a, x, st, []*Term{a.it})
			}
		}
	}
}

// releaseRule: an iteration is ended on every path, and not before its last step.
func releaseRule(p *Prog, r *Report) {
	isRel := func(f *ssa.Function) bool { return f != nil && fnName(f) == "(*datastruct.DictIterator).Release" }
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || fnName(c.Call.StaticCallee()) != "datastruct.NewDictIterator" {
					continue
				}
				r.oblig("C30.ended", p.pos(c.Pos()))
				checkReleased(p, r, f, b, i, c, isRel)
			}
		}
	}
}

// sameVal: v is the value w, possibly kept in a local variable or captured by a closure.
func holders(w ssa.Value) map[ssa.Value]bool {
	m := map[ssa.Value]bool{w: true}
	for again := true; again; {
		again = false
		add := func(v ssa.Value) {
			if !m[v] {
				m[v] = true
				again = true
			}
		}
		for v := range m {
			if v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					if u.Val == v {
						if al, ok := u.Addr.(*ssa.Alloc); ok {
							add(al)
						}
					}
				case *ssa.UnOp:
					if u.Op == token.MUL {
						if _, ok := v.(*ssa.Alloc); ok {
							add(u)
						}
						if _, ok := v.(*ssa.FreeVar); ok {
							add(u)
						}
					}
				case *ssa.Phi:
					add(u)
				case *ssa.MakeClosure:
					for k, bnd := range u.Bindings {
						if bnd == v {
							add(u.Fn.(*ssa.Function).FreeVars[k])
						}
					}
				}
			}
		}
	}
	return m
}

func checkReleased(p *Prog, r *Report, f *ssa.Function, b *ssa.BasicBlock, i int, c *ssa.Call, isRel func(*ssa.Function) bool) {
	h := holders(c)
	// does a call end the iteration, directly or in a closure?
	var ends func(cc *ssa.CallCommon, depth int) bool
	ends = func(cc *ssa.CallCommon, depth int) bool {
		callee := cc.StaticCallee()
		if isRel(callee) && len(cc.Args) > 0 && h[cc.Args[0]] {
			return true
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			fn := mc.Fn.(*ssa.Function)
			if strings.HasSuffix(fn.Name(), "$bound") && strings.Contains(fn.Name(), "Release") {
				for _, bd := range mc.Bindings {
					if h[bd] {
						return true
					}
				}
			}
			callee = fn
		}
		if callee != nil && depth < 3 {
			passed := false
			for _, a := range cc.Args {
				passed = passed || h[a]
			}
			if passed || callee.Parent() != nil {
				hs := h
				if passed && callee.Parent() == nil {
					for k, a := range cc.Args {
						if h[a] && k < len(callee.Params) {
							for v := range holders(callee.Params[k]) {
								hs[v] = true
							}
						}
					}
				}
				for _, bb := range callee.Blocks {
					for _, in := range bb.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && bb.Dominates(bb) {
							if _, isGo := in.(*ssa.Go); isGo {
								continue
							}
							if ends(ci.Common(), depth+1) && (bb == callee.Blocks[0]) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	escapes := false
	for v := range h {
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Return:
				escapes = true
			case *ssa.Store:
				if _, ok := u.Addr.(*ssa.Alloc); !ok && u.Val == v {
					escapes = true
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.MakeInterface:
				escapes = true
			}
		}
	}
	if escapes {
		r.fail("undecided", fnName(f), p.pos(c.Pos()), "an iterator is handed on; where the iteration ends is not followed")
		return
	}
	type pt struct {
		b   *ssa.BasicBlock
		rel bool
	}
	seen := map[pt]bool{}
	var walk func(b *ssa.BasicBlock, i int, rel bool)
	reported := map[string]bool{}
	report := func(msg string, pos token.Pos) {
		if !reported[msg] {
			reported[msg] = true
			r.add(&Violation{Rule: "C30.ended", Construct: fnName(f), Pos: p.pos(pos), Msg: msg, Entry: fnName(f)})
		}
	}
	walk = func(b *ssa.BasicBlock, i int, rel bool) {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == c {
				if !rel {
					report("an iteration is begun again before it has been ended", c.Pos())
				}
				return
			}
			switch in := in.(type) {
			case *ssa.Defer:
				if ends(&in.Call, 0) {
					return
				}
			case *ssa.Call:
				if rel && in.Call.StaticCallee() != nil && fnName(in.Call.StaticCallee()) == "(*datastruct.DictIterator).Next" && len(in.Call.Args) > 0 && h[in.Call.Args[0]] {
					report("an iteration goes on after it has been ended", in.Pos())
					return
				}
				if ends(&in.Call, 0) {
					if rel {
						report("an iteration is ended twice", in.Pos())
						return
					}
					rel = true
				}
			case *ssa.Return:
				if !rel {
					report("a path leaves without ending the iteration begun here", c.Pos())
				}
				return
			}
		}
		for _, s := range b.Succs {
			if k := (pt{s, rel}); !seen[k] {
				seen[k] = true
				walk(s, 0, rel)
			}
		}
	}
	walk(b, i+1, false)
}

// keyTypeRule: equal keys have equal hashes at any time.
func keyTypeRule(p *Prog, r *Report) {
	iface, _ := p.namedType("datastruct", "DictType").Underlying().(*types.Interface)
	if iface == nil {
		r.fail("undecided", "datastruct.DictType", "-", "not found")
		return
	}
	var fs []*ssa.Function
	for _, f := range p.funcs {
		rc := f.Signature.Recv()
		if rc == nil || len(f.Blocks) == 0 || f.Synthetic != "" || !types.Implements(rc.Type(), iface) {
			continue
		}
		if f.Name() == "Hash" || f.Name() == "Equal" {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	for _, f := range fs {
		r.oblig("C30.hash", fnName(f))
		if f.Name() == "Hash" {
			seen := map[*ssa.Function]bool{}
			var scan func(g *ssa.Function)
			scan = func(g *ssa.Function) {
				if seen[g] {
					return
				}
				seen[g] = true
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							if gl, ok := u.X.(*ssa.Global); ok && gl.Pkg != nil && inModule(gl.Pkg.Pkg) && !p.roGlob[gl] {
								r.add(&Violation{Rule: "C30.hash", Construct: fnName(f), Pos: p.pos(in.Pos()), Msg: "the hash of a key depends on " + globalName(gl) + ", which changes", Entry: fnName(f)})
							}
						}
						if ci, ok := in.(ssa.CallInstruction); ok {
							if cl := ci.Common().StaticCallee(); cl != nil && cl.Pkg != nil {
								switch cl.Pkg.Pkg.Path() {
								case "math/rand", "math/rand/v2", "time", "crypto/rand":
									r.add(&Violation{Rule: "C30.hash", Construct: fnName(f), Pos: p.pos(in.Pos()), Msg: "the hash of a key depends on " + fnName(cl), Entry: fnName(f)})
								}
								if inModule(cl.Pkg.Pkg) {
									scan(cl)
								}
							}
						}
					}
				}
			}
			scan(f)
			continue
		}
		for _, same := range []bool{true, false} {
			x := newExec(p, r, &Hooks{Return: func(x *Exec, st *State, res []*Term) {
				if len(res) == 1 && st.eval(res[0]) != b2i(same) {
					x.violate(st, "C30.hash", pathFn(st), f.Pos(), "keys that are the same: %v, compared: %v", same, res[0])
				}
			}})
			st := newState()
			k1, k2 := sym("key1", stringType), sym("key2", stringType)
			if same {
				k2 = k1
			} else {
				st.assume(mkCmp("eq", k1, k2), false)
			}
			args := []*Term{nonNil(st, sym("type", f.Params[0].Type())), boxKey(k1), boxKey(k2)}
			x.Run(f, st, args, nil)
			r.use(x)
		}
	}
}

func inModule(p *types.Package) bool {
	return p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/")
}

// noMeasure: no integers belong to objects, but integers in memory bound those of a loop.
func noMeasure(t *Term) []*Term { return nil }
