package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.Defer
	fn   *Term
	cal  *ssa.Function
	bi   string
	recv *Term
	args []*Term
}

type Frame struct {
	fn     *ssa.Function
	blk    *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*Term
	defers []deferred
	site   ssa.Instruction // instruction in the parent frame that made the call (nil for entry)
	isDef  bool            // runs as a deferred call: results are dropped
	ctx    int
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	return &g
}

type traceNode struct {
	up  *traceNode
	msg string
}

// State is one abstract execution state.
type State struct {
	frames []*Frame
	mem    map[*Term]*Term
	bools  map[*Term]bool
	lin    *LinFacts
	slots  map[string]*Term // monitor state; "g:" slots are integers that are generalised in loops
	gen    map[*Term]bool
	trace  *traceNode
	dead   bool // dropped by a hook at a branch
	jumped bool // positioned at the start of a block
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, bools: map[*Term]bool{}, lin: newLinFacts(), slots: map[string]*Term{}, gen: map[*Term]bool{}}
}

func (s *State) clone() *State {
	n := &State{frames: make([]*Frame, len(s.frames)), mem: make(map[*Term]*Term, len(s.mem)), bools: make(map[*Term]bool, len(s.bools)),
		lin: s.lin.clone(), slots: make(map[string]*Term, len(s.slots)), gen: make(map[*Term]bool, len(s.gen)), trace: s.trace, jumped: s.jumped}
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.bools {
		n.bools[k] = v
	}
	for k, v := range s.slots {
		n.slots[k] = v
	}
	for k, v := range s.gen {
		n.gen[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) note(format string, a ...any) {
	s.trace = &traceNode{s.trace, fmt.Sprintf(format, a...)}
}

func (s *State) traceList(max int) []string {
	var r []string
	for n := s.trace; n != nil && len(r) < max; n = n.up {
		r = append(r, n.msg)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) slot(k string) string {
	if t := s.slots[k]; t != nil {
		return t.aux
	}
	return ""
}
func (s *State) setSlot(k, v string) {
	if v == "" {
		delete(s.slots, k)
		return
	}
	s.slots[k] = mkStr(v)
}
func (s *State) ghost(k string) *Term {
	if t := s.slots["g:"+k]; t != nil {
		return t
	}
	return tZero
}
func (s *State) setGhost(k string, t *Term) { s.slots["g:"+k] = t }

// ---------------------------------------------------------------- facts

// eval returns 1 (true), 0 (false) or -1 (unknown) for a boolean term.
func (s *State) eval(t *Term) int {
	switch t.op {
	case "bool":
		if t == tTrue {
			return 1
		}
		return 0
	case "not":
		v := s.eval(t.args[0])
		if v < 0 {
			return v
		}
		return 1 - v
	}
	if v, ok := s.bools[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	if t.op == "cmp" {
		a, b := t.args[0], t.args[1]
		switch t.aux {
		case "ige":
			l := linOf(a)
			if s.lin.entails(l) {
				return 1
			}
			if s.lin.entails(&Lin{c: -l.c - 1, at: negLin(l).at}) {
				return 0
			}
		case "ieq":
			l := linOf(a)
			if s.lin.knownNE(l) {
				return 0
			}
			if s.lin.entails(l) && s.lin.entails(negLin(l)) {
				return 1
			}
		case "eq":
			return s.evalEq(a, b)
		case "flt":
			if a == b {
				return 0
			}
			if v, ok := s.bools[mk("cmp", "fle", b, a)]; ok && v {
				return 0
			}
			if v, ok := s.bools[mk("cmp", "flt", b, a)]; ok && v {
				return 0
			}
			if s.eval(mkFeq(a, b)) == 1 {
				return 0
			}
		case "fle":
			if v, ok := s.bools[mk("cmp", "flt", a, b)]; ok && v {
				return 1
			}
			if v, ok := s.bools[mk("cmp", "flt", b, a)]; ok && v {
				return 0
			}
			if v, ok := s.bools[mkFeq(a, b)]; ok && v {
				return 1
			}
		case "feq":
			for _, c := range []*Term{mk("cmp", "flt", a, b), mk("cmp", "flt", b, a)} {
				if v, ok := s.bools[c]; ok && v {
					return 0
				}
			}
		case "slt":
			if v, ok := s.bools[mk("cmp", "slt", b, a)]; ok && v {
				return 0
			}
			if a == b || s.evalEq(a, b) == 1 {
				return 0
			}
		}
		return -1
	}
	if t.op == "app" && t.aux == "typeis" {
		x := t.args[0]
		if x == tNil || s.evalEq(x, tNil) == 1 {
			return 0
		}
		if x.op == "iface" {
			if x.aux == t.args[1].aux {
				return 1
			}
			return 0
		}
		for k, v := range s.bools {
			if v && k.op == "app" && k.aux == "typeis" && k.args[0] == x && k.args[1] != t.args[1] {
				return 0
			}
		}
	}
	if t.op == "app" && t.aux == "errors.Is" {
		a, b := t.args[0], t.args[1]
		if a == b {
			return 1
		}
		if s.evalEq(a, tNil) == 1 {
			return 0
		}
		if (a.op == "gconst" || a.op == "newerr") && b.op == "gconst" {
			return 0
		}
		for k, v := range s.bools {
			if v && k.op == "app" && k.aux == "errors.Is" && k.args[0] == a && k.args[1] != b {
				return 0
			}
			if v && k.op == "cmp" && k.aux == "eq" {
				if (k.args[0] == a && k.args[1] == b) || (k.args[1] == a && k.args[0] == b) {
					return 1
				}
			}
		}
	}
	return -1
}

func mkFeq(a, b *Term) *Term {
	if a == b { // NaN is not equal to itself, keep symbolic
		return mk("cmp", "feq", a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("cmp", "feq", a, b)
}

func (s *State) evalEq(a, b *Term) int {
	if a == b {
		return 1
	}
	if distinctConst(a, b) {
		return 0
	}
	c := mkCmp("eq", a, b)
	if c.op == "bool" {
		if c == tTrue {
			return 1
		}
		return 0
	}
	if v, ok := s.bools[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	if b == tNil || a == tNil {
		x := a
		if a == tNil {
			x = b
		}
		if storedPtr(x) {
			return 0
		}
		if x.op == "app" && x.aux == "wrap" {
			return s.evalEq(x.args[0], tNil)
		}
		for k, v := range s.bools {
			if v && k.op == "app" && (k.aux == "typeis" || k.aux == "errors.Is") && k.args[0] == x {
				return 0
			}
			if v && k.op == "cmp" && k.aux == "eq" && (k.args[0] == x || k.args[1] == x) {
				o := k.args[0]
				if o == x {
					o = k.args[1]
				}
				if nonNilShape(o) {
					return 0
				}
				if o == tNil {
					return 1
				}
				if v2, ok := s.bools[mkCmp("eq", o, tNil)]; ok {
					if v2 {
						return 1
					}
					return 0
				}
			}
		}
		return -1
	}
	// an error made or wrapped here is no error value that existed before
	madeErr := func(t *Term) bool { return t.op == "newerr" || t.op == "app" && t.aux == "wrap" }
	if (madeErr(a) && b.op == "gconst" || madeErr(b) && a.op == "gconst") && s.evalNil(a) != 1 && s.evalNil(b) != 1 {
		return 0
	}
	// nil-ness difference
	an, bn := s.evalNil(a), s.evalNil(b)
	if an >= 0 && bn >= 0 && an != bn {
		return 0
	}
	// a equals a constant different from b
	for k, v := range s.bools {
		if !v || k.op != "cmp" || k.aux != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			x, o := k.args[i], k.args[1-i]
			if x == a && (distinctConst(o, b)) {
				return 0
			}
			if x == b && (distinctConst(o, a)) {
				return 0
			}
			if x == a {
				if v2, ok := s.bools[mkCmp("eq", o, b)]; ok && mkCmp("eq", o, b) != k {
					if v2 {
						return 1
					}
					return 0
				}
			}
		}
	}
	return -1
}

// storedPtr: a container taken out of a dict; only non-nil ones are stored (checked at every store).
func storedPtr(a *Term) bool {
	return a.op == "app" && strings.HasPrefix(a.aux, "unbox:*") && a.args[0].op == "init" && a.args[0].args[0].op == "dcell"
}

func (s *State) evalNil(a *Term) int {
	if a == tNil {
		return 1
	}
	if a.op == "app" && a.aux == "wrap" && len(a.args) == 1 {
		return s.evalNil(a.args[0])
	}
	if nonNilShape(a) {
		return 0
	}
	if storedPtr(a) {
		return 0
	}
	c := mkCmp("eq", a, tNil)
	if c.op == "bool" {
		if c == tTrue {
			return 1
		}
		return 0
	}
	if v, ok := s.bools[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	return -1
}

// assume adds a boolean fact; it returns false when the state becomes contradictory.
func (s *State) assume(t *Term, val bool) bool {
	if t.op == "not" {
		return s.assume(t.args[0], !val)
	}
	switch v := s.eval(t); {
	case v == 1:
		if !val {
			return false
		}
		if t.op == "bool" {
			return true
		}
	case v == 0:
		if val {
			return false
		}
		if t.op == "bool" {
			return true
		}
	}
	if t.op == "cmp" {
		l := linOf(t.args[0])
		switch t.aux {
		case "ige":
			var g *Lin
			if val {
				g = l
			} else {
				g = &Lin{c: -l.c - 1, at: negLin(l).at}
			}
			if s.lin.infeasibleWith(g) {
				return false
			}
			return s.lin.addGE(g)
		case "ieq":
			if val {
				if !s.assumeParity(t.args[0]) {
					return false
				}
				if s.lin.infeasibleWith(l) {
					return false
				}
				if !s.lin.addGE(l) {
					return false
				}
				if s.lin.infeasibleWith(negLin(l)) {
					return false
				}
				return s.lin.addGE(negLin(l))
			}
			if !s.assumeOdd(t.args[0]) {
				return false
			}
			return s.lin.addNE(l)
		}
	}
	s.bools[t] = val
	if t.op == "app" && t.aux == "typeis" && val {
		s.bools[mkCmp("eq", t.args[0], tNil)] = false
	}
	if t.op == "cmp" && t.aux == "eq" && val {
		// integer-valued payloads of equal boxed values
		a, b := t.args[0], t.args[1]
		if a.op == "iface" && b.op == "iface" && a.aux == b.aux {
			return s.assume(mkCmp("eq", a.args[0], b.args[0]), true)
		}
	}
	return true
}

// parity: and(x,1)==0 or rem(x,2)==0 gives x = 2*half(x)
func parityArg(t *Term) *Term {
	if t.op == "app" && t.aux == "and" {
		for i := 0; i < 2; i++ {
			if v, ok := t.args[i].intVal(); ok && v == 1 {
				return t.args[1-i]
			}
		}
	}
	if t.op == "app" && t.aux == "rem" {
		if v, ok := t.args[1].intVal(); ok && v == 2 {
			return t.args[0]
		}
	}
	return nil
}

func (s *State) setHalf(x *Term, odd int64) bool {
	h := mk("app", "half", x)
	d, ok := linComb(linOf(x), 1, linOf(h), -2)
	if !ok {
		return true
	}
	d = &Lin{c: d.c - odd, at: d.at}
	if s.lin.infeasibleWith(d) || !s.lin.addGE(d) {
		return false
	}
	if s.lin.infeasibleWith(negLin(d)) || !s.lin.addGE(negLin(d)) {
		return false
	}
	return true
}

func (s *State) assumeParity(t *Term) bool {
	if x := parityArg(t); x != nil {
		return s.setHalf(x, 0)
	}
	// and(x,1) - 1 == 0
	if t.lin != nil && len(t.lin.at) == 1 {
		a := t.lin.at[0]
		if x := parityArg(a.t); x != nil && a.t.aux == "and" && a.k == 1 && t.lin.c == -1 {
			return s.setHalf(x, 1)
		}
	}
	return true
}

func (s *State) assumeOdd(t *Term) bool {
	if x := parityArg(t); x != nil && t.aux == "and" {
		return s.setHalf(x, 1)
	}
	if t.lin != nil && len(t.lin.at) == 1 {
		a := t.lin.at[0]
		if x := parityArg(a.t); x != nil && a.t.aux == "and" && a.k == 1 && t.lin.c == -1 {
			return s.setHalf(x, 0)
		}
	}
	return true
}

func (s *State) assumeGE(a, b *Term) bool { return s.assume(mkCmp("ige", a, b), true) }
func (s *State) provesGE(a, b *Term) bool { return s.eval(mkCmp("ige", a, b)) == 1 }
func (s *State) provesEqInt(a, b *Term) bool {
	return s.eval(mkCmp("ieq", a, b)) == 1
}

// fact records or queries a custom boolean fact about terms.
func (s *State) setFact(name string, v bool, args ...*Term) {
	s.bools[mk("app", "@"+name, args...)] = v
}
func (s *State) clearFact(name string, args ...*Term) {
	delete(s.bools, mk("app", "@"+name, args...))
}
func (s *State) hasFact(name string, args ...*Term) bool {
	return s.bools[mk("app", "@"+name, args...)]
}

// equalTerms reports whether two terms are known to be equal.
func (s *State) equalTerms(a, b *Term) bool {
	return a == b || s.evalEq(a, b) == 1
}

// ---------------------------------------------------------------- memory

func rootOf(a *Term) *Term {
	for a.op == "fld" || a.op == "elem" {
		a = a.args[0]
	}
	if a.op == "arr" {
		return a
	}
	return a
}

func epochKey(addr *Term) *Term {
	switch addr.op {
	case "fld":
		return mk("epoch", "fld:"+addr.aux)
	case "elem":
		ty := ""
		if addr.typ != nil {
			ty = shortType(addr.typ)
		}
		return mk("epoch", "elem:"+ty)
	}
	return mk("epoch", "cell")
}

func isAllocRoot(a *Term) bool {
	r := rootOf(a)
	return r.op == "alloc"
}

// load reads a scalar cell.
func (s *State) load(addr *Term, typ types.Type) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	root := rootOf(addr)
	g := s.mem[mk("gen", "", root)]
	if root.op == "alloc" && g == nil {
		ep := s.mem[mk("gen", "elems", addrArray(addr))]
		if ep == nil {
			return zeroOf(typ)
		}
		g = ep
	}
	args := []*Term{addr}
	ep := s.mem[epochKey(addr)]
	if root.op == "alloc" || root.op == "global" && root == addr {
		ep = nil
	}
	if g == nil {
		g = s.mem[mk("gen", "elems", addrArray(addr))]
	}
	if ep != nil && ep.op == "site1" && addr.op == "elem" {
		other := true
		for _, w := range ep.args {
			if w.args[0] != addr.args[0] || !s.lin.knownNE(linOf(tSub(w.args[1], addr.args[1]))) {
				other = false
			}
		}
		if other {
			ep = nil // all stores so far went to other elements of the same array
		}
	}
	if ep != nil || g != nil {
		if ep == nil {
			ep = tUnit
		}
		args = append(args, ep)
		if g != nil {
			args = append(args, g)
		}
	}
	v := mkFull("init", "", typ, nil, nil, args...)
	if root.op == "alloc" {
		s.mem[addr] = v
	}
	return v
}

func addrArray(a *Term) *Term {
	for a.op == "fld" {
		a = a.args[0]
	}
	if a.op == "elem" {
		return a.args[0]
	}
	return tUnit
}

// maybeAlloc: a join symbol that may stand for an object allocated on the path.
func maybeAlloc(r *Term) bool {
	if r.op == "arr" && len(r.args) > 0 {
		r = r.args[0]
	}
	return r.op == "sym" && strings.HasPrefix(r.aux, "J@a")
}

func (s *State) mayAliasBase(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra.op == "alloc" && rb.op == "alloc" && ra != rb {
		return false
	}
	if (ra.op == "alloc") != (rb.op == "alloc") {
		if maybeAlloc(ra) || maybeAlloc(rb) {
			return s.evalEq(a, b) != 0
		}
		return false // fresh objects are not aliased by older pointers
	}
	if (ra.op == "global") != (rb.op == "global") {
		return false
	}
	if s.evalEq(a, b) == 0 {
		return false
	}
	return true
}

// store writes a scalar cell with alias handling; site names the writing instruction.
func (s *State) store(addr, val *Term, site *Term) {
	switch addr.op {
	case "fld":
		if !isAllocRoot(addr) {
			for c := range s.mem {
				if c != addr && c.op == "fld" && c.aux == addr.aux && c.args[0] != addr.args[0] && s.mayAliasBase(c.args[0], addr.args[0]) {
					delete(s.mem, c)
				}
			}
			// loads not seen before may see the new value through another pointer
			if rootOf(addr).op != "global" {
				old := s.mem[addr]
				_ = old
				s.mem[epochKey(addr)] = site
			}
		}
	case "elem":
		for c := range s.mem {
			if c == addr {
				continue
			}
			e := c
			for e.op == "fld" {
				e = e.args[0]
			}
			if e.op != "elem" {
				continue
			}
			if e.args[0] == addr.args[0] {
				d := tSub(e.args[1], addr.args[1])
				if s.lin.knownNE(linOf(d)) {
					continue
				}
				if e.args[1] == addr.args[1] && c.op == "fld" {
					delete(s.mem, c)
					continue
				}
				delete(s.mem, c)
			} else if !isAllocRoot(addr) && s.mayAliasBase(e.args[0], addr.args[0]) && sameElemType(e, addr) {
				delete(s.mem, c)
			}
		}
		if isAllocRoot(addr) {
			if _, ok := addr.args[1].intVal(); !ok {
				s.mem[mk("gen", "elems", addr.args[0])] = site
			}
		} else if ep := s.mem[epochKey(addr)]; ep == nil {
			s.mem[epochKey(addr)] = mk("site1", site.aux, addr)
		} else if ep.op == "site1" && len(ep.args) < 4 {
			s.mem[epochKey(addr)] = mk("site1", site.aux, append(append([]*Term(nil), ep.args...), addr)...)
		} else {
			s.mem[epochKey(addr)] = site
		}
	}
	s.mem[addr] = val
}

func sameElemType(a, b *Term) bool {
	if a.typ == nil || b.typ == nil {
		return true
	}
	return types.Identical(a.typ, b.typ)
}

// havocObject forgets the contents reachable through one base pointer.
func (s *State) havocObject(base *Term, site *Term) {
	for c := range s.mem {
		if c != base && rootOf(c) == base && (c.op == "fld" || c.op == "elem") {
			delete(s.mem, c)
		} else if c == base {
			delete(s.mem, c)
		}
	}
	s.mem[mk("gen", "", base)] = site
}

func zeroOf(t types.Type) *Term {
	if t == nil {
		return tNil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsFloat != 0:
			return mk("const", "0")
		}
		return tNil
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mk("struct", shortType(t), args...)
	case *types.Array:
		return mk("zeroarr", shortType(t))
	}
	return tNil
}

// ---------------------------------------------------------------- substitution and keys

func (s *State) subst(m map[*Term]*Term) {
	memo := map[*Term]*Term{}
	f := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return substTerm(t, m, memo)
	}
	for _, fr := range s.frames {
		for k, v := range fr.env {
			fr.env[k] = f(v)
		}
		for i := range fr.defers {
			d := &fr.defers[i]
			d.fn, d.recv = f(d.fn), f(d.recv)
			na := make([]*Term, len(d.args))
			for j, a := range d.args {
				na[j] = f(a)
			}
			d.args = na
		}
	}
	nm := make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		nm[f(k)] = f(v)
	}
	s.mem = nm
	nb := make(map[*Term]bool, len(s.bools))
	for k, v := range s.bools {
		k2 := f(k)
		if k2.op == "not" {
			k2, v = k2.args[0], !v
		}
		if k2.op != "bool" {
			nb[k2] = v
		}
	}
	s.bools = nb
	nl := newLinFacts()
	for _, l := range s.lin.ge {
		t := f(mkLin(l))
		nl.addGE(linOf(t))
	}
	for _, l := range s.lin.ne {
		t := f(mkLin(l))
		nl.addNE(linOf(t))
	}
	s.lin = nl
	for k, v := range s.slots {
		s.slots[k] = f(v)
	}
}

// dropMentions removes facts that mention the symbol.
func (s *State) dropMentions(u *Term) {
	for k := range s.bools {
		if k.contains(u) {
			delete(s.bools, k)
		}
	}
	for k, l := range s.lin.ge {
		for _, a := range l.at {
			if a.t.contains(u) {
				delete(s.lin.ge, k)
				break
			}
		}
	}
	for k, l := range s.lin.ne {
		for _, a := range l.at {
			if a.t.contains(u) {
				delete(s.lin.ne, k)
				break
			}
		}
	}
}

// posKey identifies the control position and the monitor control state.
func (s *State) posKey() string {
	var sb strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "%p.%d.%d.%d/", f.fn, f.blk.Index, f.idx, len(f.defers))
	}
	ks := make([]string, 0, len(s.slots))
	for k := range s.slots {
		if !strings.HasPrefix(k, "g:") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%d;", k, s.slots[k].id)
	}
	return sb.String()
}

func (s *State) key(p *Prog) string {
	var sb strings.Builder
	sb.WriteString(s.posKey())
	var parts []string
	for i, f := range s.frames {
		var live map[ssa.Value]bool
		if i == len(s.frames)-1 {
			live = p.liveIn(f.fn)[f.blk]
		}
		for k, v := range f.env {
			if live != nil && !live[k] {
				continue
			}
			parts = append(parts, fmt.Sprintf("%d:%p=%d", i, k, v.id))
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				parts = append(parts, "d"+strconv.Itoa(a.id))
			}
		}
	}
	for k, v := range s.mem {
		parts = append(parts, fmt.Sprintf("m%d=%d", k.id, v.id))
	}
	for k, v := range s.bools {
		parts = append(parts, fmt.Sprintf("b%d=%v", k.id, v))
	}
	for k, l := range s.lin.ge {
		parts = append(parts, fmt.Sprintf("l%s+%d", k, l.c))
	}
	for k := range s.lin.ne {
		parts = append(parts, "n"+k)
	}
	for k, v := range s.slots {
		if strings.HasPrefix(k, "g:") {
			parts = append(parts, fmt.Sprintf("%s=%d", k, v.id))
		}
	}
	sort.Strings(parts)
	sb.WriteString(strings.Join(parts, " "))
	return sb.String()
}

// parity returns the lowest bit of an integer that is a sum of terms known to be odd and even multiples of others.
func (s *State) parity(t *Term) (int64, bool) {
	l := linOf(t)
	p := l.c & 1
	for _, a := range l.at {
		if a.k&1 == 0 {
			continue
		}
		if !s.hasFact("odd", a.t) {
			return 0, false
		}
		p ^= 1
	}
	return p, true
}
