package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The paged list. An operation is explored on a list of unknown pages: every page has a ghost base (the number of
// elements before it) and at least one element. The content of a backing array is followed as a sequence of parts of
// the pages as they were, of single values and of positions that an append in place may have overwritten.

const (
	fLElem  = "container/list.Element.Value"
	tLList  = "(*container/list.List)."
	tLElem  = "(*container/list.Element)."
	fQLen   = "datastruct.Quicklist.length"
	fQData  = "datastruct.Quicklist.data"
	fItNode = "datastruct.QuicklistIterator.node"
	fItOff  = "datastruct.QuicklistIterator.offset"
	fItList = "datastruct.QuicklistIterator.quicklist"
)

type qlistAn struct {
	p      *Prog
	r      *Report
	root   *ssa.Function
	q      *Term
	len0   *Term
	pageT  types.Type
	nodeT  types.Type
	it     *Term // the iterator, if the operation belongs to one
	itNode *Term
	itOff  *Term
	own    map[*ssa.Function]bool
}

func qCont(b *Term) *Term { return mk("qcont", "", b) }

func (a *qlistAn) pageLen(n *Term) *Term { return mkFull("app", "pagelen", intType, nil, nil, n) }
func (a *qlistAn) pageArr(n *Term) *Term { return mk("pagearr", "", n) }

func seg(src, lo, hi *Term) *Term { return mk("seg", "", src, lo, hi) }

// ---- sequences

func segLen(s *Term) *Term {
	if s.op == "one" {
		return tOne
	}
	return tSub(s.args[2], s.args[1])
}

// split cuts a sequence at position p.
func (a *qlistAn) split(st *State, c []*Term, p *Term) (l, r []*Term, ok bool) {
	pos := tZero
	for i, s := range c {
		if st.provesEqInt(p, pos) {
			return append([]*Term(nil), c[:i]...), append([]*Term(nil), c[i:]...), true
		}
		end := tAdd(pos, segLen(s))
		if st.provesGE(p, end) {
			pos = end
			continue
		}
		if s.op != "seg" || !st.provesGE(p, pos) || !st.provesGE(end, p) {
			return nil, nil, false
		}
		m := tAdd(s.args[1], tSub(p, pos))
		l = append(append(l, c[:i]...), seg(s.args[0], s.args[1], m))
		r = append(append(r, seg(s.args[0], m, s.args[2])), c[i+1:]...)
		return l, r, true
	}
	if st.provesEqInt(p, pos) {
		return c, nil, true
	}
	return nil, nil, false
}

func (a *qlistAn) norm(st *State, c []*Term) (out []*Term) {
	for _, s := range c {
		if s.op == "seg" {
			if st.provesEqInt(s.args[1], s.args[2]) {
				continue
			}
			if n := len(out); n > 0 && out[n-1].op == "seg" && out[n-1].args[0] == s.args[0] && st.provesEqInt(out[n-1].args[2], s.args[1]) {
				out[n-1] = seg(s.args[0], out[n-1].args[1], s.args[2])
				continue
			}
		}
		out = append(out, s)
	}
	return
}

var tClob = mk("overwritten", "")

// content of a backing array, from its start to the last position anything is known about.
func (a *qlistAn) content(st *State, b *Term) []*Term {
	if v := st.mem[qCont(b)]; v != nil {
		return v.args
	}
	if b.op == "pagearr" {
		return []*Term{seg(b, tZero, a.pageLen(b.args[0]))}
	}
	return nil
}

func (a *qlistAn) setContent(st *State, b *Term, c []*Term) {
	st.mem[qCont(b)] = mk("seq", "", a.norm(st, c)...)
}

// take gives the content of a slice.
func (a *qlistAn) take(x *Exec, st *State, s *Term) []*Term {
	if s.op == "nil" {
		return nil
	}
	b, lo, ln := x.sliceParts(s)
	if es, ok := x.variadicElems(st, s); ok && b.op != "pagearr" && st.mem[qCont(b)] == nil {
		var out []*Term
		for _, e := range es {
			out = append(out, mk("one", "", e))
		}
		return out
	}
	if st.provesEqInt(ln, tZero) {
		return nil
	}
	if _, r, ok := a.split(st, a.content(st, b), lo); ok {
		if l, _, ok := a.split(st, r, ln); ok {
			return l
		}
	}
	return []*Term{seg(tClob, tZero, ln)}
}

// put overwrites the positions from lo with new content; the rest of the array stays.
func (a *qlistAn) put(st *State, b, lo *Term, c []*Term, n *Term) {
	old := a.content(st, b)
	l, r, ok := a.split(st, old, lo)
	if !ok {
		total := tZero
		for _, s := range old {
			total = tAdd(total, segLen(s))
		}
		a.setContent(st, b, []*Term{seg(tClob, tZero, total)})
		return
	}
	if _, rest, ok := a.split(st, r, n); ok {
		a.setContent(st, b, append(append(l, c...), rest...))
		return
	}
	a.setContent(st, b, append(l, c...))
}

// ---- the list of pages

func (a *qlistAn) node(x *Exec, st *State, hint string, typ types.Type) *Term {
	return nonNil(st, x.fresh(st, hint, typ))
}

func (a *qlistAn) modified(st *State) bool {
	for c := range st.mem {
		switch c.op {
		case "qpost", "qpre", "qgone", "qback", "qfront":
			return true
		}
	}
	return false
}

func (a *qlistAn) enter(st *State, n, base *Term) {
	a.isPage(st, n)
	st.assume(mkCmp("ieq", a.base(n), base), true)
}

// isPage: what holds for every page of the list.
func (a *qlistAn) isPage(st *State, n *Term) {
	st.assumeGE(a.pageLen(n), tOne)
	st.assumeGE(a.base(n), tZero)
	st.assumeGE(a.len0, tAdd(a.base(n), a.pageLen(n)))
}

// base is the number of elements before a page; for nil after the last page that of all elements.
func (a *qlistAn) base(n *Term) *Term { return mkFull("app", "pagebase", intType, nil, nil, n) }

// elemAt is the position of an element.
func (a *qlistAn) elemAt(v *Term) *Term { return mkFull("app", "elemat", intType, nil, nil, v) }

func (a *qlistAn) measure(n *Term) []*Term {
	if n != tNil && n.typ != nil && isIfaceType(n.typ) {
		return []*Term{a.elemAt(n)}
	}
	if n != tNil && (n.typ == nil || !types.Identical(n.typ, a.nodeT)) {
		return nil
	}
	return []*Term{a.base(n), tAdd(a.base(n), a.pageLen(n))}
}

func (a *qlistAn) call(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	pos := c.instr.Pos()
	isData := len(c.args) > 0 && st.slots["data"] != nil && c.args[0] == st.slots["data"]
	switch {
	case strings.HasPrefix(c.name, tLList) && isData:
		m := strings.TrimPrefix(c.name, tLList)
		if a.modified(st) && (m == "Front" || m == "Back" || m == "Len") {
			x.giveUp("%s: the list is walked after it has been changed", fnName(a.root))
			return nil, true
		}
		switch m {
		case "Len":
			n := x.fresh(st, "pages", intType)
			st.assumeGE(n, tZero)
			return fork2(st, mkCmp("ieq", a.len0, tZero), func(s *State) []Outcome { return one(s, tZero) }, func(s *State) []Outcome {
				s.assumeGE(n, tOne)
				return one(s, n)
			}), true
		case "Front", "Back":
			return fork2(st, mkCmp("ieq", a.len0, tZero), func(s *State) []Outcome {
				s.assume(mkCmp("ieq", a.base(tNil), tZero), true)
				s.assume(mkCmp("ieq", a.pageLen(tNil), tZero), true)
				return one(s, tNil)
			}, func(s *State) []Outcome {
				n := a.node(x, s, strings.ToLower(m), resType(c, 0))
				if m == "Front" {
					a.enter(s, n, tZero)
				} else {
					a.enter(s, n, tSub(a.len0, a.pageLen(n)))
				}
				return one(s, n)
			}), true
		case "PushBack", "PushFront":
			n := x.freshTerm(st, mkFull("alloc", x.siteName(st, "page"), resType(c, 0), nil, nil))
			st.mem[fldOf(fLElem, anyType, n)] = c.args[1]
			k := mk("qback", "")
			if m == "PushFront" {
				k = mk("qfront", "")
			}
			a.addNode(st, k, n, m == "PushFront")
			return one(st, n), true
		case "InsertAfter", "InsertBefore":
			n := x.freshTerm(st, mkFull("alloc", x.siteName(st, "page"), resType(c, 0), nil, nil))
			st.mem[fldOf(fLElem, anyType, n)] = c.args[1]
			k := mk("qpost", "", c.args[2])
			if m == "InsertBefore" {
				k = mk("qpre", "", c.args[2])
			}
			a.addNode(st, k, n, m == "InsertAfter")
			return one(st, n), true
		case "Remove":
			st.mem[mk("qgone", "", c.args[1])] = tTrue
			return one(st, x.fresh(st, "removed", resType(c, 0))), true
		}
		x.giveUp("%s is used on the pages of a list", c.name)
		return nil, true
	case c.name == tLElem+"Next" || c.name == tLElem+"Prev":
		base := a.base(c.args[0])
		a.isPage(st, c.args[0])
		if a.modified(st) {
			x.giveUp("%s: a page nothing is known about is left", fnName(a.root))
			return nil, true
		}
		if strings.HasSuffix(c.name, "Next") {
			next := tAdd(base, a.pageLen(c.args[0]))
			return fork2(st, mkCmp("ieq", next, a.len0), func(s *State) []Outcome {
				s.assume(mkCmp("ieq", a.base(tNil), a.len0), true)
				s.setSlot("ended", "1")
				return one(s, tNil)
			}, func(s *State) []Outcome {
				// the new symbol may rename an older one
				s.slots["tmp"] = next
				n := a.node(x, s, "nextpage", resType(c, 0))
				a.enter(s, n, s.slots["tmp"])
				delete(s.slots, "tmp")
				return one(s, n)
			}), true
		}
		return fork2(st, mkCmp("ieq", base, tZero), func(s *State) []Outcome {
			s.assume(mkCmp("ieq", tAdd(a.base(tNil), a.pageLen(tNil)), tZero), true)
			s.setSlot("ended", "1")
			return one(s, tNil)
		}, func(s *State) []Outcome {
			s.slots["tmp"] = base
			n := a.node(x, s, "prevpage", resType(c, 0))
			a.enter(s, n, tSub(s.slots["tmp"], a.pageLen(n)))
			delete(s.slots, "tmp")
			return one(s, n)
		}), true
	case strings.HasPrefix(c.name, "slices.Insert"):
		base, i := c.args[0], c.args[1]
		b, lo, ln := x.sliceParts(base)
		all := a.take(x, st, base)
		add := a.take(x, st, c.args[2])
		_, _, al := x.sliceParts(c.args[2])
		l, r, ok := a.split(st, all, i)
		if !ok {
			l, r = []*Term{seg(tClob, tZero, ln)}, nil
		}
		if b.op == "pagearr" {
			a.put(st, b, tAdd(lo, i), []*Term{seg(tClob, tZero, tSub(ln, i))}, tSub(ln, i))
		}
		return one(st, a.newSlice(x, st, c, append(append(append([]*Term(nil), l...), add...), r...), tAdd(ln, al))), true
	case strings.HasPrefix(c.name, "slices.Delete"):
		base, i, j := c.args[0], c.args[1], c.args[2]
		b, lo, ln := x.sliceParts(base)
		all := a.take(x, st, base)
		l, _, ok1 := a.split(st, all, i)
		_, r, ok2 := a.split(st, all, j)
		if !ok1 || !ok2 {
			l, r = []*Term{seg(tClob, tZero, ln)}, nil
		}
		if b.op == "pagearr" {
			a.put(st, b, tAdd(lo, i), []*Term{seg(tClob, tZero, tSub(ln, i))}, tSub(ln, i))
		}
		return one(st, a.newSlice(x, st, c, append(append([]*Term(nil), l...), r...), tSub(ln, tSub(j, i)))), true
	case c.fn != nil && a.own[c.fn] && c.fn.Signature.Recv() != nil && strings.HasPrefix(c.name, "(*datastruct.Quicklist).") && c.args[0] != a.q:
		// another list
		if len(c.args) == 2 && st.slots["copying"] == nil && !strings.HasSuffix(c.name, ").Get") {
			a.copied(x, st, c.args[1], strings.TrimPrefix(c.name, "(*datastruct.Quicklist)."), pos)
		}
		return x.freshResults(st, c), true
	case c.name == "datastruct.NewQuicklist":
		return one(st, nonNil(st, x.fresh(st, "newlist", resType(c, 0)))), true
	}
	return nil, false
}

func (a *qlistAn) newSlice(x *Exec, st *State, c *Call, cont []*Term, ln *Term) *Term {
	b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "slice"), nil, nil, nil))
	a.setContent(st, b, cont)
	return mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, ln)
}

func (a *qlistAn) addNode(st *State, k, n *Term, front bool) {
	var l []*Term
	if v := st.mem[k]; v != nil {
		l = append(l, v.args...)
	}
	if front {
		l = append([]*Term{n}, l...)
	} else {
		l = append(l, n)
	}
	st.mem[k] = mk("nodes", "", l...)
}

// copied: an element of the list is put into another one.
func (a *qlistAn) copied(x *Exec, st *State, v *Term, how string, pos token.Pos) {
	a.r.oblig("C33.copy", a.p.pos(pos))
	at := a.posOf(st, v)
	if how != "PushBack" || at == nil || !st.provesEqInt(at, st.ghost("copied")) {
		x.violate(st, "C33.copy", pathFn(st), pos, "a copy of a list is made by %s of %v at position %v, %v are there already", how, v, at, st.ghost("copied"))
	}
	st.setGhost("copied", tAdd(st.ghost("copied"), tOne))
}

// posOf gives the position in the list of an element as it was found there.
func (a *qlistAn) posOf(st *State, v *Term) *Term {
	if v.op == "sym" && strings.HasPrefix(v.aux, "J@") {
		return a.elemAt(v)
	}
	if v.op != "init" || v.args[0].op != "elem" || v.args[0].args[0].op != "pagearr" {
		return nil
	}
	return tAdd(a.base(v.args[0].args[0].args[0]), v.args[0].args[1])
}

func (a *qlistAn) load(x *Exec, st *State, addr *Term, typ types.Type) *Term {
	switch {
	case addr.op == "fld" && addr.aux == fLElem && st.mem[addr] == nil:
		n := addr.args[0]
		a.isPage(st, n)
		return mkFull("iface", shortType(a.pageT), typ, a.pageT, nil, mkFull("slice", "", a.pageT, nil, nil, a.pageArr(n), tZero, a.pageLen(n)))
	case addr.op == "elem" && (addr.args[0].op == "pagearr" || st.mem[qCont(addr.args[0])] != nil):
		b, i := addr.args[0], addr.args[1]
		_, r, ok := a.split(st, a.content(st, b), i)
		if !ok || len(r) == 0 {
			return x.fresh(st, "unknown", typ)
		}
		s := r[0]
		if s.op == "one" {
			return s.args[0]
		}
		if s.args[0].op != "pagearr" {
			return x.fresh(st, "overwritten", typ)
		}
		v := mkFull("init", "", typ, nil, nil, mkFull("elem", "", typ, nil, nil, s.args[0], s.args[1]))
		st.assume(mkCmp("ieq", a.elemAt(v), tAdd(a.base(s.args[0].args[0]), s.args[1])), true)
		return nonNil(st, v)
	}
	return nil
}

func (a *qlistAn) store(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
	if addr.op != "elem" || (addr.args[0].op != "pagearr" && st.mem[qCont(addr.args[0])] == nil) {
		return
	}
	a.put(st, addr.args[0], addr.args[1], []*Term{mk("one", "", val)}, tOne)
}

func (a *qlistAn) append(x *Exec, st *State, base, added, result *Term, in ssa.Instruction) {
	if v, ok := in.(ssa.Value); !ok || !isAnySlice(v.Type()) {
		return
	}
	if a.it == nil && a.root.Name() == "Range" {
		a.ranged(x, st, base, added, in)
	}
	l := a.take(x, st, base)
	r := a.take(x, st, added)
	rb, _, _ := x.sliceParts(result)
	if base.op != "nil" {
		b, lo, ln := x.sliceParts(base)
		_, _, al := x.sliceParts(added)
		if b.op == "pagearr" || st.mem[qCont(b)] != nil {
			a.put(st, b, tAdd(lo, ln), []*Term{seg(tClob, tZero, al)}, al)
		}
	}
	a.setContent(st, rb, append(append([]*Term(nil), l...), r...))
}

func (a *qlistAn) copyTo(x *Exec, st *State, dst, src *Term, in ssa.Instruction) {
	if !isAnySlice(in.(ssa.CallInstruction).Common().Args[0].Type()) {
		return
	}
	b, lo, dl := x.sliceParts(dst)
	_, _, sl := x.sliceParts(src)
	from := a.take(x, st, src)
	n := dl
	if !st.provesGE(sl, dl) {
		n = sl
		if !st.provesGE(dl, sl) {
			a.setContent(st, b, []*Term{seg(tClob, tZero, tAdd(lo, dl))})
			return
		}
	}
	if l, _, ok := a.split(st, from, n); ok {
		from = l
	} else {
		from = []*Term{seg(tClob, tZero, n)}
	}
	a.put(st, b, lo, from, n)
}

func isAnySlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Interface)
	return ok
}

// ranged: a part of the list is collected.
func (a *qlistAn) ranged(x *Exec, st *State, base, added *Term, in ssa.Instruction) {
	es, ok := x.variadicElems(st, added)
	_, _, n := x.sliceParts(base)
	a.r.oblig("C33.range", a.p.pos(in.Pos()))
	if !ok || len(es) != 1 {
		x.giveUp("Range collects elements in a way that is not understood")
		return
	}
	at := a.posOf(st, es[0])
	if at == nil {
		x.violate(st, "C33.range", pathFn(st), in.Pos(), "%v is collected, not an element of the list at a known position", es[0])
		return
	}
	if st.slot("started") == "" {
		st.setSlot("started", "1")
		st.setGhost("first", tSub(at, n))
	}
	first := st.ghost("first")
	if !st.provesEqInt(at, tAdd(first, n)) {
		x.violate(st, "C33.range", pathFn(st), in.Pos(), "element %v of the list is collected as number %v of a range that starts at %v", at, n, first)
	}
}

func (a *qlistAn) oblig(x *Exec, st *State, kind string, ok bool, in ssa.Instruction, detail string) {
	if kind == "overflow" {
		return
	}
	a.r.oblig("C33.safe", a.p.pos(in.Pos()))
	if !ok {
		x.violate(st, "C33.safe", fnName(in.Parent()), in.Pos(), "%s not shown: %s", kind, detail)
	}
}

// ---- the result

type qChange struct {
	ins bool
	at  *Term
	v   *Term
}

// changes compares what is now in place of a page with what was there.
func (a *qlistAn) changes(st *State, n *Term, base *Term, now []*Term) (out []qChange, ok bool) {
	e := tZero
	for _, s := range a.norm(st, now) {
		switch {
		case s.op == "one":
			out = append(out, qChange{ins: true, at: tAdd(base, e), v: s.args[0]})
		case s.args[0] == a.pageArr(n):
			if st.provesEqInt(s.args[1], tAdd(e, tOne)) {
				out = append(out, qChange{at: tAdd(base, e), v: mkFull("elem", "", anyType, nil, nil, a.pageArr(n), e)})
			} else if !st.provesEqInt(s.args[1], e) {
				return nil, false
			}
			e = s.args[2]
		default:
			return nil, false
		}
	}
	l := a.pageLen(n)
	if st.provesEqInt(l, tAdd(e, tOne)) {
		out = append(out, qChange{at: tAdd(base, e), v: mkFull("elem", "", anyType, nil, nil, a.pageArr(n), e)})
	} else if !st.provesEqInt(l, e) {
		return nil, false
	}
	return out, true
}

func (a *qlistAn) nodeContent(x *Exec, st *State, n *Term) []*Term {
	v := st.mem[fldOf(fLElem, anyType, n)]
	if v == nil {
		v = a.load(x, st, fldOf(fLElem, anyType, n), anyType)
	}
	a.r.oblig("C33.page", fnName(a.root))
	if v.op != "iface" || v.aux != shortType(a.pageT) {
		x.violate(st, "C33.page", pathFn(st), a.root.Pos(), "%v is stored as a page", v)
		return nil
	}
	_, _, ln := x.sliceParts(v.args[0])
	if !st.provesGE(ln, tOne) {
		x.violate(st, "C33.page", pathFn(st), a.root.Pos(), "a page of %v elements, possibly none, is left in the list", ln)
	}
	return a.take(x, st, v.args[0])
}

func (a *qlistAn) ret(x *Exec, st *State, res []*Term) {
	pos := a.root.Pos()
	name := fnName(a.root)
	var ch []qChange
	seen := map[*Term]bool{}
	isNew := map[*Term]bool{}
	var nodes []*Term
	touched := func(n *Term) {
		if !seen[n] {
			seen[n] = true
			nodes = append(nodes, n)
		}
	}
	for c, v := range st.mem {
		switch c.op {
		case "qgone":
			touched(c.args[0])
		case "qcont":
			if c.args[0].op == "pagearr" {
				touched(c.args[0].args[0])
			}
		case "fld":
			if c.aux == fLElem {
				touched(c.args[0])
			}
		case "qpost", "qpre", "qback", "qfront":
			for _, n := range v.args {
				isNew[n] = true
			}
			if len(c.args) > 0 {
				touched(c.args[0])
			}
		}
	}
	k := 0
	for _, n := range nodes {
		if !isNew[n] {
			nodes[k] = n
			k++
		}
	}
	nodes = nodes[:k]
	sort.Slice(nodes, func(i, j int) bool { return nodes[i].id < nodes[j].id })
	list := func(k *Term) (out []*Term) {
		if v := st.mem[k]; v != nil {
			for _, n := range v.args {
				if st.mem[mk("qgone", "", n)] == nil {
					out = append(out, a.nodeContent(x, st, n)...)
				}
				if st.mem[mk("qpost", "", n)] != nil || st.mem[mk("qpre", "", n)] != nil {
					x.giveUp("%s: pages are inserted next to new pages", name)
				}
			}
		}
		return
	}
	for i, n := range nodes {
		for _, m := range nodes[:i] {
			if st.eval(mkCmp("eq", n, m)) == 1 {
				x.giveUp("two pages are the same")
			}
		}
		now := list(mk("qpre", "", n))
		if st.mem[mk("qgone", "", n)] == nil {
			now = append(now, a.nodeContent(x, st, n)...)
		}
		now = append(now, list(mk("qpost", "", n))...)
		c, ok := a.changes(st, n, a.base(n), now)
		a.r.oblig("C33.one", name)
		if !ok {
			x.violate(st, "C33.one", pathFn(st), pos, "the elements of a page %v become %v", seg(a.pageArr(n), tZero, a.pageLen(n)), mk("seq", "", now...))
			return
		}
		ch = append(ch, c...)
	}
	for _, s := range list(mk("qfront", "")) {
		if s.op != "one" {
			x.violate(st, "C33.one", pathFn(st), pos, "%v is added at the front", s)
			return
		}
		ch = append(ch, qChange{ins: true, at: tZero, v: s.args[0]})
	}
	for _, s := range list(mk("qback", "")) {
		if s.op != "one" {
			x.violate(st, "C33.one", pathFn(st), pos, "%v is added at the back", s)
			return
		}
		ch = append(ch, qChange{ins: true, at: a.len0, v: s.args[0]})
	}
	a.r.oblig("C33.one", name)
	if len(ch) > 1 {
		x.violate(st, "C33.one", pathFn(st), pos, "the operation makes %d changes to the elements", len(ch))
		return
	}
	delta := int64(0)
	if len(ch) == 1 {
		if delta = -1; ch[0].ins {
			delta = 1
		}
	}
	a.r.oblig("C33.count", name)
	if ln := st.load(fldOf(fQLen, intType, a.q), intType); !st.provesEqInt(ln, tAdd(a.len0, mkInt(delta))) {
		x.violate(st, "C33.count", pathFn(st), pos, "%d elements are added, the length changes by %v", delta, tSub(ln, a.len0))
	}
	if a.it != nil {
		a.walked(x, st, res)
		return
	}
	var index *Term
	for i, q := range a.root.Params {
		if i > 0 && isIntType(q.Type()) {
			index = x.sliceIndexArg(a.root, i)
			break
		}
	}
	if a.root.Name() == "Range" {
		a.rangeDone(x, st, res)
		return
	}
	if n := st.slots["g:copied"]; n != nil || a.root.Name() == "DeepCopy" {
		a.r.oblig("C33.copy", name)
		if !st.provesEqInt(st.ghost("copied"), a.len0) {
			x.violate(st, "C33.copy", pathFn(st), pos, "a copy has %v of %v elements", st.ghost("copied"), a.len0)
		}
	}
	// where
	want := index
	if strings.HasSuffix(a.root.Name(), "Front") {
		want = tZero
	}
	if strings.HasSuffix(a.root.Name(), "Back") {
		want = a.len0
		if len(ch) == 1 && !ch[0].ins {
			want = tSub(a.len0, tOne)
		}
	}
	if want == nil {
		return
	}
	a.r.oblig("C33.where", name)
	if len(ch) == 1 {
		if !st.provesEqInt(ch[0].at, want) {
			x.violate(st, "C33.where", pathFn(st), pos, "the element at %v is added or removed instead of that at %v", ch[0].at, want)
		}
		if ch[0].ins {
			given := false
			for i, q := range a.root.Params {
				if i > 0 && sym(q.Name(), q.Type()) == ch[0].v {
					given = true
				}
			}
			if !given {
				x.violate(st, "C33.where", pathFn(st), pos, "%v is added", ch[0].v)
			}
		}
	}
	if len(res) == 0 {
		if len(ch) == 0 {
			x.violate(st, "C33.where", pathFn(st), pos, "nothing is added")
		}
		return
	}
	v := res[0]
	removes := len(ch) == 1 && !ch[0].ins
	adds := len(ch) == 1 && ch[0].ins
	switch {
	case isBoolType(a.root.Signature.Results().At(0).Type()):
		if (adds && v != tTrue) || (!adds && v != tFalse) {
			x.violate(st, "C33.where", pathFn(st), pos, "%d elements are added, the result is %v", delta, v)
		}
		if !adds && !st.provesGE(mkInt(-1), want) && !st.provesGE(want, tAdd(a.len0, tOne)) {
			x.violate(st, "C33.where", pathFn(st), pos, "a position inside the list is refused")
		}
	case isIfaceType(a.root.Signature.Results().At(0).Type()):
		if st.evalNil(v) == 1 {
			if removes {
				x.violate(st, "C33.where", pathFn(st), pos, "an element is removed, nothing is returned")
			}
			if strings.HasSuffix(a.root.Name(), "Front") || strings.HasSuffix(a.root.Name(), "Back") {
				if !st.provesEqInt(a.len0, tZero) {
					x.violate(st, "C33.where", pathFn(st), pos, "nothing is returned although the list has %v elements", a.len0)
				}
			} else if !st.provesGE(mkInt(-1), want) && !st.provesGE(want, a.len0) {
				x.violate(st, "C33.where", pathFn(st), pos, "nothing is returned for a position inside the list")
			}
			return
		}
		if at := a.posOf(st, v); at == nil || !st.provesEqInt(at, want) {
			x.violate(st, "C33.where", pathFn(st), pos, "%v, the element at %v, is returned for position %v", v, at, want)
		}
		if !removes && a.root.Name() != "Get" {
			x.violate(st, "C33.where", pathFn(st), pos, "%v is returned but not removed", v)
		}
	}
}

func (x *Exec) sliceIndexArg(f *ssa.Function, i int) *Term {
	return sym(f.Params[i].Name(), f.Params[i].Type())
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func isIfaceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (a *qlistAn) rangeDone(x *Exec, st *State, res []*Term) {
	pos := a.root.Pos()
	a.r.oblig("C33.range", fnName(a.root))
	_, _, n := x.sliceParts(res[0])
	if st.provesEqInt(n, tZero) || res[0].op == "nil" {
		return
	}
	first := st.ghost("first")
	if st.slot("started") == "" {
		x.giveUp("Range returns elements that were not collected one by one")
		return
	}
	start, stop := x.sliceIndexArg(a.root, 1), x.sliceIndexArg(a.root, 2)
	fromEnd := func(t *Term) []*Term {
		switch {
		case st.provesGE(t, tZero):
			return []*Term{t}
		case st.provesGE(mkInt(-1), t):
			return []*Term{tAdd(a.len0, t)}
		}
		return []*Term{}
	}
	okS, okE := false, false
	for _, s := range fromEnd(start) {
		okS = okS || st.provesEqInt(first, s)
	}
	last := tSub(tAdd(first, n), tOne)
	for _, e := range fromEnd(stop) {
		okE = okE || (st.provesEqInt(last, e) && st.provesGE(tSub(a.len0, tOne), e)) || (st.provesEqInt(last, tSub(a.len0, tOne)) && st.provesGE(e, tSub(a.len0, tOne)))
	}
	if okS && okE {
		return
	}
	// the number of elements collected may be out of reach of the analysis
	sure := false
	for _, s := range fromEnd(start) {
		sure = sure || st.eval(mkCmp("ieq", first, s)) == 0
	}
	for _, e := range fromEnd(stop) {
		sure = sure || st.slot("ended") == "" && st.eval(mkCmp("ieq", last, e)) == 0 && st.eval(mkCmp("ieq", last, tSub(a.len0, tOne))) == 0
	}
	if !sure {
		x.giveUp("%s: the end of the range is not followed", fnName(a.root))
	} else {
		x.violate(st, "C33.range", pathFn(st), pos, "a range from %v to %v gives the elements from %v to %v", start, stop, first, last)
	}
}

// walked: one step of an iterator.
func (a *qlistAn) walked(x *Exec, st *State, res []*Term) {
	pos := a.root.Pos()
	a.r.oblig("C33.walk", fnName(a.root))
	at := tSub(tZero, tOne)
	if a.itNode != nil {
		at = tAdd(a.base(a.itNode), a.itOff)
	}
	want := tAdd(at, tOne)
	if a.root.Name() == "Prev" {
		want = tSub(at, tOne)
	}
	v := res[0]
	node := st.load(fldOf(fItNode, a.p.fieldType("datastruct", "QuicklistIterator", "node"), a.it), a.p.fieldType("datastruct", "QuicklistIterator", "node"))
	if st.evalNil(v) == 1 {
		if !st.provesGE(want, a.len0) && !st.provesGE(mkInt(-1), want) {
			x.violate(st, "C33.walk", pathFn(st), pos, "the walk ends before the element at %v", want)
		}
		return
	}
	if p := a.posOf(st, v); p == nil || !st.provesEqInt(p, want) {
		x.violate(st, "C33.walk", pathFn(st), pos, "after the element at %v the walk gives %v, at %v", at, v, p)
		return
	}
	b := a.base(node)
	if !st.provesEqInt(tAdd(b, st.load(fldOf(fItOff, intType, a.it), intType)), want) {
		x.violate(st, "C33.walk", pathFn(st), pos, "the iterator does not stand on the element it has given")
	}
}

func exploreQlist(p *Prog, r *Report) {
	var pageT types.Type
	own := map[*ssa.Function]bool{}
	for _, ty := range []string{"Quicklist", "QuicklistIterator"} {
		for _, f := range p.methodsOf("datastruct", ty) {
			own[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ta, ok := in.(*ssa.TypeAssert); ok && isAnySlice(ta.AssertedType) {
						pageT = ta.AssertedType
					}
				}
			}
		}
	}
	if pageT == nil {
		r.fail("undecided", "list", "-", "no pages found")
		return
	}
	explore := func(f *ssa.Function, iter bool, fresh bool) {
		a := &qlistAn{p: p, r: r, root: f, pageT: pageT, own: own, nodeT: p.fieldType("datastruct", "QuicklistIterator", "node")}
		x := newExec(p, r, &Hooks{Call: a.call, Load: a.load, Store: a.store, Append: a.append, CopyTo: a.copyTo, Return: a.ret, Oblig: a.oblig, Measure: a.measure})
		st := newState()
		var args []*Term
		for i, q := range f.Params {
			t := sym(q.Name(), q.Type())
			if i == 0 {
				nonNil(st, t)
			}
			args = append(args, t)
		}
		lt := types.NewPointer(p.namedType("datastruct", "Quicklist"))
		a.q = args[0]
		if iter {
			a.q = nonNil(st, sym("list", lt))
			a.it = args[0]
		}
		a.len0 = sym("len0", intType)
		st.assumeGE(a.len0, tZero)
		st.assumeGE(mkInt(1<<40), a.len0) // memory is finite
		data := nonNil(st, sym("pages", p.fieldType("datastruct", "Quicklist", "data")))
		st.slots["data"] = data
		st.mem[fldOf(fQData, data.typ, a.q)] = data
		st.mem[fldOf(fQLen, intType, a.q)] = a.len0
		if iter {
			nt := p.fieldType("datastruct", "QuicklistIterator", "node")
			st.mem[fldOf(fItList, lt, a.it)] = a.q
			if fresh {
				st.mem[fldOf(fItNode, nt, a.it)] = tNil
				st.mem[fldOf(fItOff, intType, a.it)] = tZero
			} else {
				n := nonNil(st, sym("page0", nt))
				a.itNode, a.itOff = n, sym("off0", intType)
				st.assumeGE(a.itOff, tZero)
				st.assumeGE(a.pageLen(n), tAdd(a.itOff, tOne))
				a.enter(st, n, sym("base0", intType))
				st.mem[fldOf(fItNode, nt, a.it)] = n
				st.mem[fldOf(fItOff, intType, a.it)] = a.itOff
			}
		}
		x.Run(f, st, args, nil)
		r.use(x)
	}
	for _, f := range p.apiRoots("datastruct", "Quicklist") {
		explore(f, false, false)
	}
	for _, f := range p.apiRoots("datastruct", "QuicklistIterator") {
		explore(f, true, false)
		if f.Name() == "Next" {
			explore(f, true, true)
		}
	}
	for _, field := range []string{fQLen, fQData, fItNode, fItOff, fItList} {
		for _, s := range p.fieldStores(field) {
			fa := s.Addr.(*ssa.FieldAddr)
			r.oblig("C33.sealed", p.pos(s.Pos()))
			if madeHere(fa.X) || strings.HasPrefix(fnName(s.Parent()), "(*datastruct.Quicklist") {
				continue
			}
			r.add(&Violation{Rule: "C33.sealed", Construct: fnName(s.Parent()), Pos: p.pos(s.Pos()), Msg: field + " is changed outside the operations of the list", Entry: fnName(s.Parent())})
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != fQData || madeHere(fa.X) {
					continue
				}
				r.oblig("C33.sealed", p.pos(fa.Pos()))
				if !strings.HasPrefix(fnName(f), "(*datastruct.Quicklist") {
					r.add(&Violation{Rule: "C33.sealed", Construct: fnName(f), Pos: p.pos(fa.Pos()), Msg: "the pages of a list are used outside its operations", Entry: fnName(f)})
				}
			}
		}
	}
}
