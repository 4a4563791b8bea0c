package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops are solved by a fixpoint over generalised head states. Arrivals are grouped by control position and
// monitor control state; within a group a position (register, memory cell or ghost counter) is either unchanged,
// affine in an iteration counter, or a join symbol. Facts about join symbols are candidates that are kept only if
// every arrival re-establishes them.

type posID struct {
	kind string // env, mem, slot, def
	fr   int
	v    ssa.Value
	cell *Term
	slot string
	i, j int
}

type shape struct {
	kind byte // '=' unchanged, 'a' affine, 'J' join
	v0   *Term
	d    int64
	j    *Term
}

type loopEntry struct {
	key     string
	idx     int
	base    *State
	inits   []*State // arrivals from outside the loop
	k       *Term
	shapes  map[posID]*shape
	order   []posID
	facts   map[string]factT // candidate facts over the generalised symbols
	nextJ   int
	own     map[*Term]bool // J and k symbols of this entry
	first   map[*Term]*Term
	dirty   bool
	round   int
	widened bool
	lastArr []*State
	dead    map[string]bool // refuted facts
	used    map[*Term]bool
}

type factT struct {
	t   *Term // boolean term (never a "not")
	val bool
}

func (f factT) key() string { return fmt.Sprintf("%d=%v", f.t.id, f.val) }

func positionsOf(p *Prog, s *State, act *loopAct) map[posID]*Term {
	m := map[posID]*Term{}
	for i, f := range s.frames {
		var live map[ssa.Value]bool
		if i == len(s.frames)-1 {
			live = p.liveIn(f.fn)[f.blk]
		}
		for v, t := range f.env {
			if live != nil && !live[v] {
				isPhi := false
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == f.blk {
					isPhi = true
				}
				if !isPhi {
					continue
				}
			}
			m[posID{kind: "env", fr: i, v: v}] = t
		}
		for a, d := range f.defers {
			for b, t := range d.args {
				m[posID{kind: "def", fr: i, i: a, j: b}] = t
			}
		}
	}
	for c, t := range s.mem {
		m[posID{kind: "mem", cell: c}] = t
	}
	for k, t := range s.slots {
		if strings.HasPrefix(k, "g:") {
			m[posID{kind: "slot", slot: k}] = t
		}
	}
	return m
}

// gc forgets the objects made on the path that nothing refers to any more.
func (s *State) gc(p *Prog) {
	live := map[*Term]bool{}
	seen := map[*Term]bool{}
	var work []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "alloc" && !live[t] {
			live[t] = true
			work = append(work, t)
		}
		for _, a := range t.args {
			visit(a)
		}
		if t.lin != nil {
			for _, a := range t.lin.at {
				visit(a.t)
			}
		}
	}
	for pos, t := range positionsOf(p, s, nil) {
		if pos.kind != "mem" {
			visit(t)
		}
	}
	for _, t := range s.slots {
		visit(t)
	}
	for _, f := range s.frames {
		for _, d := range f.defers {
			visit(d.fn)
			visit(d.recv)
		}
	}
	own := map[*Term][]*Term{} // object -> its cells
	for c, v := range s.mem {
		var roots []*Term
		seenC := map[*Term]bool{}
		var find func(t *Term)
		find = func(t *Term) {
			if seenC[t] {
				return
			}
			seenC[t] = true
			if t.op == "alloc" {
				roots = append(roots, t)
			}
			for _, a := range t.args {
				find(a)
			}
			if t.lin != nil {
				for _, a := range t.lin.at {
					find(a.t)
				}
			}
		}
		find(c)
		if len(roots) == 0 {
			visit(v)
			continue
		}
		for _, r := range roots {
			own[r] = append(own[r], c)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range own[o] {
			visit(c)
			visit(s.mem[c])
		}
	}
	for o, cs := range own {
		if live[o] {
			continue
		}
		for _, c := range cs {
			delete(s.mem, c)
		}
	}
}

func (s *State) setPos(p posID, t *Term) {
	switch p.kind {
	case "env":
		s.frames[p.fr].env[p.v] = t
	case "def":
		s.frames[p.fr].defers[p.i].args[p.j] = t
	case "mem":
		s.mem[p.cell] = t
	case "slot":
		s.slots[p.slot] = t
	}
}

// defaultAt is the value a missing position has in a state; ok is false if the position does not exist there.
func defaultAt(s *State, p posID) (*Term, bool) {
	switch p.kind {
	case "slot":
		return tZero, true
	case "mem":
		c := p.cell
		switch c.op {
		case "gen", "epoch":
			return tUnit, true
		case "mapval", "mapok":
			if c.op == "mapok" {
				return s.loadMapQuiet(c), true
			}
			return s.loadMapQuiet(c), true
		}
		r := rootOf(c)
		if r.op == "alloc" && !s.gen[r] {
			return nil, false
		}
		return s.peek(c), true
	}
	return nil, false
}

func (s *State) loadMapQuiet(cell *Term) *Term {
	if cell.args[0].op == "alloc" && cell.op == "mapok" && s.mem[mk("gen", "map", cell.args[0])] == nil {
		return tFalse
	}
	return s.loadMap(cell, cell.typ)
}

// peek is load without recording.
func (s *State) peek(addr *Term) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	v := s.load(addr, addr.typ)
	if addr.op != "alloc" {
		if rootOf(addr).op == "alloc" {
			delete(s.mem, addr)
		}
	}
	return v
}

func hasOwn(t *Term, own map[*Term]bool) bool {
	for _, s := range t.syms {
		if own[s] {
			return true
		}
	}
	return false
}

func (x *Exec) newEntry(key string, idx int, a *State, tag string) *loopEntry {
	e := &loopEntry{key: key, idx: idx, base: a.clone(), shapes: map[posID]*shape{}, facts: map[string]factT{}, own: map[*Term]bool{}, dead: map[string]bool{}, dirty: true, first: map[*Term]*Term{}, used: map[*Term]bool{}}
	for t := range e.base.gen {
		e.used[t] = true
	}
	mentioned := func(t *Term) {
		for _, s := range t.syms {
			e.used[s] = true
		}
	}
	for i := 0; ; i++ {
		k := sym(fmt.Sprintf("k#%s.%d.%d", tag, idx, i), nil)
		if !e.used[k] {
			e.k = k
			break
		}
	}
	e.own[e.k] = true
	for p, t := range positionsOf(x.p, e.base, nil) {
		mentioned(t)
		if p.kind == "mem" {
			mentioned(p.cell)
		}
		e.shapes[p] = &shape{kind: '=', v0: t}
	}
	for b, v := range a.bools {
		mentioned(b)
		f := factT{b, v}
		e.facts[f.key()] = f
	}
	e.base.lin.reduce()
	for _, l := range e.base.lin.ge {
		f := factT{mk("cmp", "ige", mkLin(l), tZero), true}
		mentioned(f.t)
		e.facts[f.key()] = f
	}
	for _, l := range a.lin.ne {
		t := mkCmp("ieq", mkLin(l), tZero)
		mentioned(t)
		if t.op == "cmp" {
			f := factT{t, false}
			e.facts[f.key()] = f
		}
	}
	return e
}

func (e *loopEntry) newJ(tag string, typ typeT, a, b *Term, jm bool) *Term {
	pre := "J@"
	if jm {
		pre = "J@a"
	}
	if typ == nil {
		if a != nil && a.typ != nil {
			typ = a.typ
		} else if b != nil {
			typ = b.typ
		}
	}
	// symbols are shared by name: the type belongs to it
	ts := "-"
	if typ != nil {
		ts = shortType(typ)
	}
	for {
		e.nextJ++
		j := sym(fmt.Sprintf("%s%s.%d.%d:%s", pre, tag, e.idx, e.nextJ, ts), typ)
		if e.used[j] {
			continue
		}
		e.own[j] = true
		e.first[j] = a
		return j
	}
}

// inherit: what the check knows of the value a new join symbol stands for so far is a candidate fact about the symbol.
func (e *loopEntry) inherit(v, j *Term) {
	if v.op == "int" || v == tNil || v == tTrue || v == tFalse || v == tUnit {
		return
	}
	var add []factT
	for _, f := range e.facts {
		if f.t.op == "app" && strings.HasPrefix(f.t.aux, "@") && f.t.contains(v) {
			add = append(add, factT{substTerm(f.t, map[*Term]*Term{v: j}, map[*Term]*Term{}), f.val})
		}
	}
	for _, f := range add {
		if !e.dead[f.key()] {
			e.facts[f.key()] = f
		}
	}
}

func allocish(t *Term) bool {
	if t == nil {
		return false
	}
	r := t
	for r.op == "fld" || r.op == "elem" || r.op == "slice" || r.op == "arr" || r.op == "iface" {
		if len(r.args) == 0 {
			return false
		}
		r = r.args[0]
	}
	return r.op == "alloc" || (r.op == "sym" && strings.HasPrefix(r.aux, "J@a"))
}

// value of a position in the generalised state
func (e *loopEntry) genVal(s *shape) *Term {
	switch s.kind {
	case '=':
		return s.v0
	case 'a':
		return tAdd(s.v0, tMulC(e.k, s.d))
	}
	return s.j
}

// state builds the generalised head state.
func (e *loopEntry) state() *State {
	s := e.base.clone()
	for p, sh := range e.shapes {
		s.setPos(p, e.genVal(sh))
	}
	s.bools = map[*Term]bool{}
	s.lin = newLinFacts()
	ks := make([]string, 0, len(e.facts))
	for k := range e.facts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		f := e.facts[k]
		if f.t.op == "cmp" && (f.t.aux == "ige" || f.t.aux == "ieq") {
			s.assume(f.t, f.val)
		} else {
			s.bools[f.t] = f.val
		}
	}
	for t := range e.own {
		s.gen[t] = true
	}
	s.jumped = true
	return s
}

func isNumeric(t *Term) bool {
	if t == nil {
		return false
	}
	if t.op == "int" || t.op == "lin" {
		return true
	}
	if t.typ != nil {
		return isIntType(t.typ)
	}
	if t.op == "app" {
		switch t.aux {
		case "len", "cap", "half", "div", "rem", "count":
			return true
		}
	}
	return false
}

// join widens the entry so that it covers arrival a; it reports whether the entry changed.
func (x *Exec) join(e *loopEntry, a *State, tag string) bool {
	changed := false
	av := positionsOf(x.p, a, nil)
	vals := map[posID]*Term{}
	// existing positions
	var order []posID
	for p := range e.shapes {
		order = append(order, p)
	}
	for p := range av {
		if _, ok := e.shapes[p]; !ok {
			order = append(order, p)
		}
	}
	names := map[posID]string{}
	for _, p := range order {
		c := 0
		if p.cell != nil {
			c = p.cell.id
		}
		vn := ""
		if p.v != nil {
			vn = p.v.Name()
		}
		names[p] = fmt.Sprintf("%s|%d|%s|%08d|%s|%d|%d", p.kind, p.fr, vn, c, p.slot, p.i, p.j)
	}
	sort.Slice(order, func(i, j int) bool { return names[order[i]] < names[order[j]] })
	var ps []posID
	for _, p := range order {
		v, ok := av[p]
		if !ok {
			if p.kind == "env" || p.kind == "def" {
				if _, has := e.shapes[p]; has {
					delete(e.shapes, p)
					if p.kind == "env" {
						delete(e.base.frames[p.fr].env, p.v)
					}
					changed = true
				}
				continue
			}
			d, has := defaultAt(a, p)
			if !has {
				delete(e.shapes, p)
				delete(e.base.mem, p.cell)
				changed = true
				continue
			}
			v = d
		}
		if _, has := e.shapes[p]; !has {
			if p.kind == "env" || p.kind == "def" {
				continue // not live in the entry state
			}
			if p.kind == "mem" && (hasOwn(p.cell, e.own) || mentionsNew(p.cell, e.base)) {
				continue // addressed through a value of an earlier iteration
			}
			if p.kind == "mem" && p.cell.op == "elem" {
				if g := e.shapes[posID{kind: "mem", cell: mk("gen", "elems", addrArray(p.cell))}]; g != nil && g.kind == 'J' {
					continue // the elements of this array are no longer told apart
				}
			}
			d, ok := defaultAt(e.base, p)
			if !ok {
				continue
			}
			e.shapes[p] = &shape{kind: '=', v0: d}
			if d != v {
				changed = true
			}
		}
		vals[p] = v
		ps = append(ps, p)
	}
	kA := e.iteration(vals, ps)
	if kA != nil && !a.provesGE(kA, tZero) {
		kA = nil
	}
	if joinDebug {
		fmt.Printf("JOIN %s entry %d round %d shapes %d list\n", tag, e.idx, e.round, len(e.shapes))
		for _, p := range ps {
			sh := e.shapes[p]
			if sh.kind == 'J' && sh.j == vals[p] {
				continue
			}
			if sh.kind == '=' && sh.v0 == vals[p] {
				continue
			}
			fmt.Printf("   %s %c %v -> %v (j %v)\n", names[p], sh.kind, sh.v0, vals[p], sh.j)
			if p.cell != nil {
				fmt.Printf("      cell %v\n", p.cell)
			}
		}
	}
	firstJoin := !e.widened
	if firstJoin && kA == nil {
		kA = tOne
	}
	type pair struct{ a, b *Term }
	newJ := map[pair]*Term{}
	split := map[pair]*Term{}
	taken := map[*Term]*Term{}
	for _, p := range ps {
		sh, v := e.shapes[p], vals[p]
		switch sh.kind {
		case '=':
			if v == sh.v0 && !hasOwn(v, e.own) {
				continue
			}
			if v == sh.v0 {
				// the arrival still holds this loop's own symbol from an earlier visit
			}
			changed = true
			if firstJoin && isNumeric(sh.v0) && isNumeric(v) {
				if d, ok := tSub(v, sh.v0).intVal(); ok && d != 0 {
					sh.kind, sh.d = 'a', d
					continue
				}
			}
			pr := pair{sh.v0, v}
			j := newJ[pr]
			if j == nil {
				j = e.newJ(tag, posType(p), sh.v0, v, allocish(sh.v0) || allocish(v))
				newJ[pr] = j
				e.inherit(sh.v0, j)
			}
			sh.kind, sh.j = 'J', j
		case 'a':
			if kA != nil && tAdd(sh.v0, tMulC(kA, sh.d)) == v {
				continue
			}
			changed = true
			pr := pair{sh.v0, v}
			j := newJ[pr]
			if j == nil {
				j = e.newJ(tag, posType(p), sh.v0, v, false)
				newJ[pr] = j
			}
			sh.kind, sh.j = 'J', j
		case 'J':
			if t, ok := taken[sh.j]; !ok {
				taken[sh.j] = v
			} else if t != v {
				changed = true
				pr := pair{sh.j, v}
				j := split[pr]
				if j == nil {
					j = e.newJ(tag, posType(p), e.first[sh.j], v, allocish(sh.j) || allocish(v))
					split[pr] = j
					e.inherit(sh.j, j)
				}
				sh.j = j
			}
			if allocish(v) && !strings.HasPrefix(sh.j.aux, "J@a") {
				changed = true
				old := sh.j
				nj := e.newJ(tag, old.typ, e.first[old], v, true)
				for _, q := range e.shapes {
					if q.kind == 'J' && q.j == old {
						q.j = nj
					}
				}
				delete(taken, old)
				taken[nj] = v
				// facts about the old symbol move to the new one
				m := map[*Term]*Term{old: nj}
				for key, f := range e.facts {
					if f.t.contains(old) {
						delete(e.facts, key)
						nf := factT{substTerm(f.t, m, map[*Term]*Term{}), f.val}
						if nf.t.op == "not" {
							nf = factT{nf.t.args[0], !nf.val}
						}
						e.facts[nf.key()] = nf
					}
				}
			}
		}
	}
	e.widened = true
	// facts
	m := e.valueMap(vals, kA)
	for key, f := range e.facts {
		t := substTerm(f.t, m, map[*Term]*Term{})
		if !holdsIn(a, t, f.val) {
			if debugOn {
				fmt.Printf("DEAD %s.%d %v=%v: in arrival %v\n", tag, e.idx, f.t, f.val, t)
			}
			delete(e.facts, key)
			e.dead[key] = true
			changed = true
		}
	}
	return changed
}

func holdsIn(a *State, t *Term, val bool) bool {
	r := a.eval(t)
	return r >= 0 && (r == 1) == val
}

// valueMap maps the entry's symbols to the values they have in an arrival.
func (e *loopEntry) valueMap(vals map[posID]*Term, kA *Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for p, v := range vals {
		if sh := e.shapes[p]; sh != nil && sh.kind == 'J' {
			m[sh.j] = v
		}
	}
	if kA != nil {
		m[e.k] = kA
	} else {
		m[e.k] = sym("k#unknown", nil)
	}
	return m
}

func posType(p posID) (t typeT) {
	switch p.kind {
	case "env":
		return p.v.Type()
	case "mem":
		return p.cell.typ
	}
	return nil
}

func mentionsNew(cell *Term, base *State) bool {
	r := false
	cell.walk(func(t *Term) {
		if t.op == "alloc" && !base.gen[t] {
			r = true
		}
	})
	return r
}

func divLin(l *Lin, d int64) (*Lin, bool) {
	if d == 0 || l.c%d != 0 {
		return nil, false
	}
	r := &Lin{c: l.c / d}
	for _, a := range l.at {
		if a.k%d != 0 {
			return nil, false
		}
		r.at = append(r.at, linAtom{a.t, a.k / d})
	}
	return r, true
}

// candidates proposes facts about the join symbols from one arrival.
func (x *Exec) candidates(e *loopEntry, a *State, initial bool) []factT {
	var out []factT
	av := positionsOf(x.p, a, nil)
	inv := map[*Term]*Term{}
	tmp := map[*Term]*Term{}
	back := map[*Term]*Term{}
	for p, sh := range e.shapes {
		if sh.kind != 'J' {
			continue
		}
		v, ok := av[p]
		if !ok {
			if d, has := defaultAt(a, p); has {
				v = d
			} else {
				continue
			}
		}
		if v == tNil || v == tTrue || v == tFalse || v == tUnit {
			continue
		}
		t := tmp[sh.j]
		if t == nil {
			t = sym("tmp:"+sh.j.aux, sh.j.typ)
			tmp[sh.j] = t
			back[t] = sh.j
		}
		if v.op == "int" {
			continue
		}
		if o, ok := inv[v]; !ok || o.id > t.id {
			inv[v] = t
		}
	}
	// v = u + c: what is known of u is known of the symbol less c
	off := map[*Term]*Term{}
	for v, t := range inv {
		if l := v.lin; v.op == "lin" && l != nil && len(l.at) == 1 && l.at[0].k == 1 && inv[l.at[0].t] == nil {
			u := l.at[0].t
			if o, ok := off[u]; !ok || o.id > t.id {
				off[u] = tSub(t, mkInt(l.c))
			}
		}
	}
	if len(inv) > 0 {
		var conv func(f *Term, val bool)
		conv = func(f *Term, val bool) {
			if len(off) > 0 && f.op == "cmp" && f.aux == "ige" {
				if g := substTerm(f, off, map[*Term]*Term{}); g != f {
					o := off
					off = nil
					conv(g, val)
					off = o
				}
			}
			r := substTerm(f, inv, map[*Term]*Term{})
			if hasOwn(r, e.own) {
				return
			}
			if r == f {
				tmps := false
				for _, u := range r.syms {
					tmps = tmps || back1(back, u)
				}
				if !tmps {
					return
				}
			}
			bad := false
			r.walk(func(t *Term) {
				if t.op == "sym" && !back1(back, t) && !e.base.gen[t] && !e.used[t] && len(t.syms) > 0 && !strings.HasPrefix(t.aux, "tmp:") {
					bad = true
				}
				if t.op == "alloc" && !e.base.gen[t] {
					bad = true
				}
			})
			if bad {
				return
			}
			r = substTerm(r, back, map[*Term]*Term{})
			if r.op == "not" {
				r, val = r.args[0], !val
			}
			if r.op == "bool" {
				return
			}
			out = append(out, factT{r, val})
		}
		for b, v := range a.bools {
			conv(b, v)
		}
		for _, l := range a.lin.ge {
			// integer-valued J: substitution inside linear terms
			conv(mk("cmp", "ige", mkLin(l), tZero), true)
		}
		for _, l := range a.lin.ne {
			t := mkCmp("ieq", mkLin(l), tZero)
			if t.op == "cmp" {
				conv(t, false)
			}
		}
	}
	return out
}

// counterCandidates proposes the facts an arrival has about its own count: what holds of k+1 there, read as of k.
func (e *loopEntry) counterCandidates(a *State) []factT {
	var out []factT
	m := map[*Term]*Term{e.k: tSub(e.k, tOne)}
	for _, l := range a.lin.ge {
		t := mkLin(l)
		if !t.contains(e.k) {
			continue
		}
		bad := false
		t.walk(func(u *Term) {
			if (u.op == "sym" || u.op == "alloc") && !e.own[u] && !e.used[u] {
				bad = true
			}
		})
		if bad {
			continue
		}
		f := mk("cmp", "ige", substTerm(t, m, map[*Term]*Term{}), tZero)
		if f.args[0].op == "int" {
			continue
		}
		out = append(out, factT{f, true})
	}
	return out
}

func back1(m map[*Term]*Term, t *Term) bool { _, ok := m[t]; return ok }

// genericCandidates proposes bounds of integer join symbols and constant differences between positions.
func (e *loopEntry) genericCandidates(measure func(t *Term) []*Term) []factT {
	var out []factT
	add := func(t *Term, val bool) {
		if t.op == "not" {
			t, val = t.args[0], !val
		}
		if t.op == "bool" {
			return
		}
		out = append(out, factT{t, val})
	}
	type iv struct{ g, v0 *Term }
	var ints, meas []iv
	seen := map[*Term]bool{}
	for _, sh := range e.shapes {
		if sh.kind == 'J' && !seen[sh.j] {
			seen[sh.j] = true
			v0 := e.first[sh.j]
			if v0 == nil {
				continue
			}
			if isNumeric(v0) || isNumeric(sh.j) {
				add(mkCmp("ige", sh.j, v0), true)
				add(mkCmp("ige", v0, sh.j), true)
				add(mkCmp("ige", sh.j, tZero), true)
				ints = append(ints, iv{sh.j, v0})
			} else {
				if isSliceOrString(sh.j.typ) && (v0.op == "nil" || isSliceOrString(v0.typ) || v0.op == "slice" || v0.op == "str") {
					ints = append(ints, iv{lenOf(sh.j), lenOf(v0)})
				}
				add(mkCmp("eq", sh.j, tNil), false)
				add(mkCmp("eq", sh.j, tNil), true)
				if measure != nil {
					g, g0 := measure(sh.j), measure(v0)
					for i := range g {
						if i < len(g0) {
							meas = append(meas, iv{g[i], g0[i]})
						}
					}
				}
			}
		}
		if sh.kind == 'a' && !seen[sh.v0] {
			seen[sh.v0] = true
			ints = append(ints, iv{e.genVal(sh), sh.v0})
		}
	}
	// numbers before lengths; what is not a plain integer in the program (enumerations, ...) last
	rank := func(t *Term) int {
		switch {
		case t.op == "len" || t.op != "sym":
			return 1
		case t.typ == nil || t.typ == t.typ.Underlying():
			return 0
		}
		return 2
	}
	sort.Slice(ints, func(i, j int) bool {
		if a, b := rank(ints[i].g), rank(ints[j].g); a != b {
			return a < b
		}
		return ints[i].g.id < ints[j].g.id
	})
	if len(ints) > 14 {
		ints = ints[:14]
	}
	if measure != nil {
		num := ints
		ints = append(append([]iv(nil), ints...), meas...)
		var consts []*Term
		for _, p := range sortedPos(e.shapes) {
			sh := e.shapes[p]
			if sh.kind == '=' && (sh.v0.op == "sym" || sh.v0.op == "lin") && isNumeric(sh.v0) && len(consts) < 8 {
				consts = append(consts, sh.v0)
			}
			if (p.kind == "env" || p.kind == "mem") && sh.kind == '=' && (sh.v0.op == "sym" || sh.v0.op == "lin" || p.cell != nil && p.cell.op == "bound") && isNumeric(sh.v0) {
				for _, g := range num {
					add(mkCmp("ige", g.g, sh.v0), true)
					add(mkCmp("ige", sh.v0, g.g), true)
					add(mkCmp("ige", g.g, tAdd(sh.v0, tOne)), true)
					add(mkCmp("ige", sh.v0, tAdd(g.g, tOne)), true)
				}
			}
		}
		for _, g := range num {
			for _, s := range consts {
				for _, t := range consts {
					if t != s {
						add(mkCmp("ieq", tAdd(g.g, s), t), true)
					}
				}
			}
		}
		for _, m := range meas {
			for i, g := range num {
				for j, h := range append(num, iv{e.k, tZero}) {
					if i != j {
						add(mkCmp("ieq", tSub(tSub(tAdd(m.g, g.g), h.g), tSub(tAdd(m.v0, g.v0), h.v0)), tZero), true)
					}
				}
			}
		}
	}
	ints = append(ints, iv{e.k, tZero})
	for i := range ints {
		for j := range ints {
			if i == j {
				continue
			}
			// g_i - g_j == v_i - v_j
			l := tSub(tSub(ints[i].g, ints[j].g), tSub(ints[i].v0, ints[j].v0))
			if i < j {
				add(mkCmp("ieq", l, tZero), true)
				// g_i + g_j == v_i + v_j
				add(mkCmp("ieq", tSub(tAdd(ints[i].g, ints[j].g), tAdd(ints[i].v0, ints[j].v0)), tZero), true)
			}
			add(mkCmp("ige", l, tZero), true)
		}
	}
	return out
}

func isSliceOrString(t typeT) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// solveLoop returns the states that leave the loop.
func (x *Exec) solveLoop(st *State, l *loopInfo) []*State { return x.solveLoops([]*State{st}, l) }

// solveLoops solves a loop for several arrivals at the same position; with more than one the arrivals are joined.
func (x *Exec) solveLoops(sts []*State, l *loopInfo) []*State {
	st := sts[0]
	act := &loopAct{loop: l, depth: len(st.frames) - 1}
	var unrolled []*State
	rest := sts[:0:0]
	for _, s := range sts {
		if x.h.LoopHead != nil {
			x.h.LoopHead(x, s, l)
		}
		if outs, ok := x.unroll(s, l, act); ok {
			unrolled = append(unrolled, outs...)
		} else {
			rest = append(rest, s)
		}
	}
	if len(rest) == 0 {
		return dedupe(x.p, unrolled)
	}
	st = rest[0]
	ctx := st.top().ctx
	tag := fmt.Sprintf("%d.%s", ctx, loopTag(x, l))
	entries := map[string]*loopEntry{}
	var list []*loopEntry
	arrive := func(a *State) *loopEntry {
		k := a.posKey()
		e := entries[k]
		if e == nil {
			e = x.newEntry(k, len(list), a, tag)
			entries[k] = e
			list = append(list, e)
			return e
		}
		if x.join(e, a, tag) {
			e.dirty = true
		}
		return e
	}
	npend := len(x.pending)
	for _, s := range rest {
		if x.h.Canon != nil {
			x.h.Canon(x, s)
		}
		s.gc(x.p)
		e := arrive(s)
		e.inits = append(e.inits, s.clone())
	}
	exitsOf := map[*loopEntry][]*State{}
	backsOf := map[*loopEntry][]*State{}
	vioOf := map[*loopEntry][]*Violation{}
	fixpoint := func() bool {
		for round := 0; ; round++ {
			if round > 400 {
				if debugOn {
					for i, c := range list {
						if i < 12 {
							fmt.Printf("ENTRY %d rounds %d %s\n", i, c.round, c.key)
						}
					}
				}
				x.giveUp("loop %s did not stabilise", l.name)
				return false
			}
			var e *loopEntry
			for _, c := range list {
				if c.dirty {
					e = c
					break
				}
			}
			if e == nil {
				return true
			}
			e.dirty = false
			e.round++
			if e.round > 60 {
				x.giveUp("loop %s did not stabilise", l.name)
				return false
			}
			x.pending = x.pending[:npend]
			joinDebug = debugOn && e.round > 20 && e.round < 26
			s := e.state()
			ex, bk := x.run([]*State{s}, act, true)
			if x.h.Canon != nil {
				for _, b := range bk {
					x.h.Canon(x, b)
				}
			}
			vioOf[e] = append([]*Violation(nil), x.pending[npend:]...)
			x.pending = x.pending[:npend]
			exitsOf[e], backsOf[e] = ex, bk
			for _, b := range bk {
				b.gc(x.p)
				arrive(b)
			}
		}
	}
	ok := fixpoint()
	for pass := 0; ok && pass < 3; pass++ {
		added := false
		grown := map[string]bool{}
		for _, e := range list {
			if !e.widened {
				continue
			}
			var cands []factT
			if pass == 0 || x.h.Measure != nil {
				cands = e.genericCandidates(x.h.Measure)
			}
			for _, o := range list {
				for _, b := range backsOf[o] {
					if b.posKey() == e.key {
						cands = append(cands, x.candidates(e, b, false)...)
						cands = append(cands, e.counterCandidates(b)...)
					}
				}
			}
			cands = append(cands, x.candidates(e, e.base, true)...)
			// keep what may hold in every arrival: what comes from outside the loop is not seen again
			inits := e.inits
			if len(inits) == 0 {
			arrivals:
				for _, o := range list {
					if o == e {
						continue
					}
					for _, b := range backsOf[o] {
						if b.posKey() == e.key {
							inits = []*State{b}
							break arrivals
						}
					}
				}
			}
			for _, f := range cands {
				if e.dead[f.key()] {
					continue
				}
				if _, has := e.facts[f.key()]; has {
					continue
				}
				refuted := false
				if len(e.inits) == 1 {
					refuted = !e.holdsAt(x, e.base, f, tZero)
				} else {
					for _, s := range inits {
						refuted = refuted || !e.holdsAt(x, s, f, nil)
					}
				}
				if refuted {
					if os.Getenv("METIS_CAND") != "" {
						fmt.Printf("REFUTED %s.%d %v=%v\n", tag, e.idx, f.t, f.val)
					}
					continue
				}
				e.facts[f.key()] = f
				added = true
				e.dirty = true
				grown[e.key] = true
			}
		}
		// what arrives at an entry with new facts is checked against them
		for _, o := range list {
			for _, b := range backsOf[o] {
				if grown[b.posKey()] {
					o.dirty = true
				}
			}
		}
		if !added {
			break
		}
		// every arrival must re-establish the candidates: run to the fixpoint, refuted facts are dropped
		ok = fixpoint()
		for _, e := range list {
			e.reduce()
		}
	}
	if debugOn {
		for _, e := range list {
			fmt.Printf("LOOP %s entry %d key %s\n", tag, e.idx, e.key)
			for _, p := range sortedPos(e.shapes) {
				sh := e.shapes[p]
				fmt.Printf("   %c %v%v%v: %v\n", sh.kind, p.kind, p.slot, p.cell, e.genVal(sh))
			}
			for _, f := range e.facts {
				fmt.Printf("   fact %v = %v\n", f.t, f.val)
			}
		}
	}
	// positions an earlier approximation reached are left out
	live := map[*loopEntry]bool{}
	var work []*loopEntry
	for _, s := range rest {
		work = append(work, entries[s.posKey()])
	}
	for len(work) > 0 {
		e := work[len(work)-1]
		work = work[:len(work)-1]
		if e == nil || live[e] {
			continue
		}
		live[e] = true
		for _, b := range backsOf[e] {
			work = append(work, entries[b.posKey()])
		}
	}
	out := unrolled
	for _, e := range list {
		if ok && !live[e] {
			continue
		}
		x.pending = append(x.pending, vioOf[e]...)
		out = append(out, exitsOf[e]...)
	}
	return dedupe(x.p, out)
}

// reduce drops facts the other facts imply; the set is inductive, so the rest is too.
func (e *loopEntry) reduce() {
	lf := newLinFacts()
	byKey := map[string]string{}
	for k, f := range e.facts {
		if f.t.op != "cmp" || f.t.aux != "ige" || !f.val {
			continue
		}
		l := tighten(linOf(f.t.args[0]))
		if len(l.at) == 0 {
			continue
		}
		vk := vecKey(l)
		if o, ok := lf.ge[vk]; ok && o.c <= l.c {
			delete(e.facts, k)
			continue
		}
		if o, ok := byKey[vk]; ok {
			delete(e.facts, o)
		}
		lf.ge[vk] = l
		byKey[vk] = k
	}
	lf.reduce()
	for vk, k := range byKey {
		if lf.ge[vk] == nil {
			delete(e.facts, k)
		}
	}
}

// iteration is the iteration count of an arrival.
func (e *loopEntry) iteration(vals map[posID]*Term, ps []posID) *Term {
	var kA *Term
	votes := map[*Term]int{}
	for _, p := range ps {
		sh := e.shapes[p]
		if sh.kind != 'a' {
			continue
		}
		d, ok := linComb(linOf(vals[p]), 1, linOf(sh.v0), -1)
		if !ok {
			continue
		}
		if q, ok := divLin(d, sh.d); ok {
			votes[mkLin(q)]++
		}
	}
	next := tAdd(e.k, tOne)
	if votes[next] > 0 {
		kA = next
	} else {
		best := 0
		for t, n := range votes {
			if n > best || (n == best && kA != nil && t.id < kA.id) {
				best, kA = n, t
			}
		}
	}
	return kA
}

func (e *loopEntry) holdsAt(x *Exec, a *State, f factT, kA *Term) bool {
	vals := map[posID]*Term{}
	av := positionsOf(x.p, a, nil)
	for p := range e.shapes {
		v, ok := av[p]
		if !ok {
			d, has := defaultAt(a, p)
			if !has {
				continue
			}
			v = d
		}
		vals[p] = v
	}
	if kA == nil {
		var ps []posID
		for p := range vals {
			ps = append(ps, p)
		}
		if kA = e.iteration(vals, ps); kA != nil && !a.provesGE(kA, tZero) {
			kA = nil
		}
	}
	m := e.valueMap(vals, kA)
	t := substTerm(f.t, m, map[*Term]*Term{})
	return holdsIn(a, t, f.val)
}

func loopTag(x *Exec, l *loopInfo) string {
	return fmt.Sprintf("%s.%d", l.head.Parent().Name(), l.head.Index)
}

// unroll follows a loop whose exit condition is decided at every arrival.
func (x *Exec) unroll(st *State, l *loopInfo, act *loopAct) ([]*State, bool) {
	if x.noLoopUnroll {
		return nil, false
	}
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	in0, in1 := l.blocks[l.head.Succs[0]], l.blocks[l.head.Succs[1]]
	if in0 == in1 {
		return nil, false
	}
	_ = iff
	npend := len(x.pending)
	paths := x.nPaths
	var und map[string]bool
	und = map[string]bool{}
	for k := range x.undecided {
		und[k] = true
	}
	cur := []*State{st.clone()}
	var exits []*State
	old := x.watchIf
	defer func() { x.watchIf = old }()
	for n := 0; ; n++ {
		w := &ifWatch{in: iff, depth: act.depth + 1}
		x.watchIf = w
		ex, bk := x.run(cur, act, true)
		if w.undecided || n > 12 || len(ex)+len(bk)+len(exits) > 150 {
			x.pending = x.pending[:npend]
			x.nPaths = paths
			x.undecided = und
			return nil, false
		}
		exits = append(exits, ex...)
		if len(bk) == 0 {
			break
		}
		cur = bk
	}
	return dedupe(x.p, exits), true
}

var joinDebug bool
var debugOn = os.Getenv("METIS_DEBUG") != ""

type ifWatch struct {
	in        *ssa.If
	depth     int
	undecided bool
}

func sortedPos(m map[posID]*shape) []posID {
	var r []posID
	for p := range m {
		r = append(r, p)
	}
	n := func(p posID) string { return fmt.Sprintf("%s %d %v %v %s", p.kind, p.fr, p.v, p.cell, p.slot) }
	sort.Slice(r, func(i, j int) bool { return n(r[i]) < n(r[j]) })
	return r
}
