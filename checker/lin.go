package main

import (
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// LinFacts is a conjunction of linear inequalities (vec.x + c >= 0) and disequalities (l != 0)
// over integer atoms. It is a small polyhedra-style abstract domain: entailment is decided by
// Fourier-Motzkin elimination with integer tightening, the join keeps constraints both sides entail.
type LinFacts struct {
	ge map[string]*Lin // keyed by coefficient vector; strongest constant
	ne map[string]*Lin
}

func newLinFacts() *LinFacts { return &LinFacts{ge: map[string]*Lin{}, ne: map[string]*Lin{}} }

func (f *LinFacts) clone() *LinFacts {
	g := &LinFacts{ge: make(map[string]*Lin, len(f.ge)), ne: make(map[string]*Lin, len(f.ne))}
	for k, v := range f.ge {
		g.ge[k] = v
	}
	for k, v := range f.ne {
		g.ne[k] = v
	}
	return g
}

func vecKey(l *Lin) string {
	if l.key == "" && len(l.at) > 0 {
		b := make([]byte, 0, 8*len(l.at))
		for _, a := range l.at {
			b = strconv.AppendInt(b, a.k, 10)
			b = append(b, '*')
			b = strconv.AppendInt(b, int64(a.t.id), 10)
			b = append(b, ' ')
		}
		l.key = string(b)
	}
	return l.key
}

var linIDs = map[string]int32{}

// linID identifies an inequality by its coefficients and constant.
func linID(l *Lin) int32 {
	if l.uid == 0 {
		k := vecKey(l) + "+" + strconv.FormatInt(l.c, 10)
		id, ok := linIDs[k]
		if !ok {
			id = int32(len(linIDs) + 1)
			linIDs[k] = id
		}
		l.uid = id
	}
	return l.uid
}

var infeasMemo = map[string]bool{}

// infeasCached decides fmInfeasible(cons) and remembers the answer.
func infeasCached(cons []*Lin) bool {
	ids := make([]int32, len(cons))
	for i, l := range cons {
		ids[i] = linID(l)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	b := make([]byte, 0, 4*len(ids))
	for _, v := range ids {
		b = append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	k := string(b)
	if r, ok := infeasMemo[k]; ok {
		return r
	}
	r := fmInfeasible(cons, nil)
	infeasMemo[k] = r
	return r
}

// reduce drops inequalities that the others imply.
func (f *LinFacts) reduce() {
	keys := make([]string, 0, len(f.ge))
	for k := range f.ge {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := f.ge[keys[i]], f.ge[keys[j]]
		if len(a.at) != len(b.at) {
			return len(a.at) > len(b.at)
		}
		return keys[i] < keys[j]
	})
	for _, k := range keys {
		l := f.ge[k]
		delete(f.ge, k)
		if !f.infeasibleWith(&Lin{c: -l.c - 1, at: negLin(l).at}) {
			f.ge[k] = l
		}
	}
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten divides by the gcd of the coefficients, rounding the constant down.
func tighten(l *Lin) *Lin {
	if len(l.at) == 0 {
		return l
	}
	var g int64
	for _, a := range l.at {
		g = gcd64(g, a.k)
	}
	if g <= 1 {
		return l
	}
	r := &Lin{c: floorDiv(l.c, g), at: make([]linAtom, len(l.at))}
	for i, a := range l.at {
		r.at[i] = linAtom{a.t, a.k / g}
	}
	return r
}

// addGE records l >= 0. Returns false if that is trivially contradictory.
func (f *LinFacts) addGE(l *Lin) bool {
	l = tighten(l)
	if len(l.at) == 0 {
		return l.c >= 0
	}
	k := vecKey(l)
	if o, ok := f.ge[k]; !ok || l.c < o.c {
		f.ge[k] = l
		// a disequality at the boundary strengthens the bound
		for nk, n := range f.ne {
			if vecKey(n) == k || vecKey(negLin(n)) == k {
				m := n
				if vecKey(n) != k {
					m = negLin(n)
				}
				if m.c == l.c {
					delete(f.ne, nk)
					return f.addGE(&Lin{c: l.c - 1, at: l.at})
				}
			}
		}
	}
	return true
}

func negLin(l *Lin) *Lin {
	r := &Lin{c: -l.c, at: make([]linAtom, len(l.at))}
	for i, a := range l.at {
		r.at[i] = linAtom{a.t, -a.k}
	}
	return r
}

// addNE records l != 0.
func (f *LinFacts) addNE(l *Lin) bool {
	if len(l.at) == 0 {
		return l.c != 0
	}
	p := f.entails(l)         // l >= 0
	n := f.entails(negLin(l)) // l <= 0
	if p && n {
		return false
	}
	if p {
		return f.addGE(&Lin{c: l.c - 1, at: l.at})
	}
	if n {
		m := negLin(l)
		return f.addGE(&Lin{c: m.c - 1, at: m.at})
	}
	if l.at[0].k < 0 {
		l = negLin(l)
	}
	f.ne[vecKey(l)+strconv.FormatInt(l.c, 10)] = l
	return true
}

func (f *LinFacts) knownNE(l *Lin) bool {
	if len(l.at) == 0 {
		return l.c != 0
	}
	m := l
	if m.at[0].k < 0 {
		m = negLin(m)
	}
	if _, ok := f.ne[vecKey(m)+strconv.FormatInt(m.c, 10)]; ok {
		return true
	}
	return f.entails(&Lin{c: l.c - 1, at: l.at}) || f.entails(&Lin{c: -l.c - 1, at: negLin(l).at})
}

const bigLen = int64(1) << 48
const bigNow = int64(1) << 45

// atomRange gives the range every value of this atom has by construction.
func atomRange(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	if t.op == "app" {
		switch t.aux {
		case "len", "cap", "listlen", "size":
			return 0, bigLen, true, true
		case "and":
			for _, a := range t.args {
				if v, ok := a.intVal(); ok && v >= 0 {
					return 0, v, true, true
				}
			}
		case "count":
			return 0, bigLen, true, true
		case "rem":
			if v, ok := t.args[1].intVal(); ok && v > 0 {
				return -v + 1, v - 1, true, true
			}
		}
	}
	if t.op == "init" && t.args[0].op == "fld" && t.args[0].aux == "world.csize" {
		return 0, bigLen, true, true
	}
	if strings.HasPrefix(t.aux, "now") && t.op == "app" && !strings.HasPrefix(t.aux, "nowUnixNano") {
		return 0, bigNow, true, true
	}
	if strings.HasPrefix(t.aux, "k#") && t.op == "sym" {
		return 0, 0, true, false
	}
	if t.typ != nil {
		return typeRange(t.typ)
	}
	return 0, 0, false, false
}

func typeRange(t types.Type) (lo, hi int64, hasLo, hasHi bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true, true
	case types.Uint8:
		return 0, 255, true, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true, true
	case types.Uint16:
		return 0, 1<<16 - 1, true, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true, true
	case types.Uint32:
		return 0, 1<<32 - 1, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 0, true, false
	}
	return
}

// structural constraints that hold for an atom by its meaning
func atomAxioms(t *Term) []*Lin {
	var r []*Lin
	lo, hi, hl, hh := atomRange(t)
	if hl {
		r = append(r, &Lin{c: -lo, at: []linAtom{{t, 1}}})
	}
	if hh {
		r = append(r, &Lin{c: hi, at: []linAtom{{t, -1}}})
	}
	return r
}

// entails reports whether the facts imply l >= 0.
func (f *LinFacts) entails(l *Lin) bool {
	l = tighten(l)
	if len(l.at) == 0 {
		return l.c >= 0
	}
	if o, ok := f.ge[vecKey(l)]; ok && o.c <= l.c {
		return true
	}
	return f.infeasibleWith(&Lin{c: -l.c - 1, at: negLin(l).at})
}

// infeasibleWith reports whether facts plus extra >= 0 have no integer solution (sound, incomplete).
func (f *LinFacts) infeasibleWith(extra *Lin) bool {
	cons := []*Lin{extra}
	atoms := map[*Term]bool{}
	var queue []*Term
	addAtoms := func(l *Lin) {
		for _, a := range l.at {
			if !atoms[a.t] {
				atoms[a.t] = true
				queue = append(queue, a.t)
			}
		}
	}
	addAtoms(extra)
	idx := map[*Term][]*Lin{}
	keys := make([]string, 0, len(f.ge))
	for k := range f.ge {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l := f.ge[k]
		for _, a := range l.at {
			idx[a.t] = append(idx[a.t], l)
		}
	}
	used := map[*Lin]bool{}
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		cons = append(cons, atomAxioms(t)...)
		for _, l := range idx[t] {
			if !used[l] {
				used[l] = true
				cons = append(cons, l)
				addAtoms(l)
			}
		}
	}
	return infeasCached(cons)
}

// fmInfeasible eliminates all atoms (except keep) and looks for a contradiction.
func fmInfeasible(cons []*Lin, keep *Term) bool {
	_, bad := fmEliminate(cons, keep)
	return bad
}

func fmEliminate(cons []*Lin, keep *Term) ([]*Lin, bool) {
	set := map[string]*Lin{}
	add := func(l *Lin) bool { // returns contradiction
		l = tighten(l)
		if len(l.at) == 0 {
			return l.c < 0
		}
		k := vecKey(l)
		if o, ok := set[k]; !ok || l.c < o.c {
			set[k] = l
		}
		return false
	}
	for _, l := range cons {
		if add(l) {
			return nil, true
		}
	}
	for {
		// equations with a unit coefficient are substituted exactly
		var eq *Lin
		var eqAt *Term
		var eqK int64
		for k, l := range set {
			o, ok := set[vecKey(negLin(l))]
			if !ok || o.c != -l.c {
				continue
			}
			for _, a := range l.at {
				if (a.k == 1 || a.k == -1) && a.t != keep && (eqAt == nil || a.t.id < eqAt.id || a.t == eqAt && k < vecKey(eq)) {
					eq, eqAt, eqK = l, a.t, a.k
				}
			}
		}
		if eq != nil {
			delete(set, vecKey(eq))
			delete(set, vecKey(negLin(eq)))
			var with []*Lin
			for k, l := range set {
				if coef(l, eqAt) != 0 {
					with = append(with, l)
					delete(set, k)
				}
			}
			for _, l := range with {
				c, ok := linCombChecked(l, 1, eq, -coef(l, eqAt)*eqK)
				if ok && add(c) {
					return nil, true
				}
			}
			continue
		}
		// choose atom with the least product of positive and negative occurrences
		pos, neg := map[*Term]int{}, map[*Term]int{}
		nonUnit := map[*Term]bool{}
		for _, l := range set {
			for _, a := range l.at {
				if a.k != 1 && a.k != -1 {
					nonUnit[a.t] = true
				}
				if a.k > 0 {
					pos[a.t]++
				} else {
					neg[a.t]++
				}
			}
		}
		var best *Term
		bestN := math.MaxInt
		for _, m := range []map[*Term]int{pos, neg} {
			for t := range m {
				if t == keep {
					continue
				}
				n := pos[t]*neg[t] - pos[t] - neg[t]
				if nonUnit[t] {
					n += 6 // eliminating unit coefficients first is exact on integers
				}
				if n < bestN || (n == bestN && t.id < best.id) {
					bestN, best = n, t
				}
			}
		}
		if best == nil {
			break
		}
		var ps, ns []*Lin
		for k, l := range set {
			for _, a := range l.at {
				if a.t == best {
					if a.k > 0 {
						ps = append(ps, l)
					} else {
						ns = append(ns, l)
					}
					delete(set, k)
				}
			}
		}
		if len(ps)*len(ns) > 400 {
			continue // give up on this atom (sound: drops constraints)
		}
		for _, p := range ps {
			for _, n := range ns {
				kp, kn := coef(p, best), -coef(n, best)
				g := gcd64(kp, kn)
				c, ok := linCombChecked(p, kn/g, n, kp/g)
				if !ok {
					continue
				}
				if add(c) {
					return nil, true
				}
			}
		}
		if len(set) > 500 {
			return nil, false
		}
	}
	var r []*Lin
	for _, l := range set {
		r = append(r, l)
	}
	return r, false
}

func coef(l *Lin, t *Term) int64 {
	for _, a := range l.at {
		if a.t == t {
			return a.k
		}
	}
	return 0
}

func linCombChecked(a *Lin, ka int64, b *Lin, kb int64) (*Lin, bool) {
	for _, x := range a.at {
		if _, ok := mulOvf(x.k, ka); !ok {
			return nil, false
		}
	}
	for _, x := range b.at {
		if _, ok := mulOvf(x.k, kb); !ok {
			return nil, false
		}
	}
	return linComb(a, ka, b, kb)
}

// consistent reports false if the facts are contradictory.
func (f *LinFacts) consistent(l *Lin) bool {
	return !f.infeasibleWith(l)
}

// boundsOf computes constant bounds of an atom from the facts; missing bounds come from fallback.
func (f *LinFacts) boundsOf(t *Term) (lo, hi *big.Int) {
	probe := &Lin{c: 0, at: []linAtom{{t, 0}}}
	_ = probe
	// gather the connected component as infeasibleWith does
	cons := []*Lin{}
	atoms := map[*Term]bool{t: true}
	queue := []*Term{t}
	used := map[*Lin]bool{}
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		cons = append(cons, atomAxioms(x)...)
		for _, l := range f.ge {
			if used[l] {
				continue
			}
			if coef(l, x) == 0 {
				continue
			}
			used[l] = true
			cons = append(cons, l)
			for _, a := range l.at {
				if !atoms[a.t] {
					atoms[a.t] = true
					queue = append(queue, a.t)
				}
			}
		}
	}
	res, bad := fmEliminate(cons, t)
	if bad {
		return big.NewInt(1), big.NewInt(0)
	}
	for _, l := range res {
		if len(l.at) != 1 || l.at[0].t != t {
			continue
		}
		k := l.at[0].k
		if k > 0 { // k*t + c >= 0 -> t >= ceil(-c/k)
			v := big.NewInt(-floorDiv(l.c, k))
			if lo == nil || v.Cmp(lo) > 0 {
				lo = v
			}
		} else {
			v := big.NewInt(floorDiv(l.c, -k))
			if hi == nil || v.Cmp(hi) < 0 {
				hi = v
			}
		}
	}
	return
}

// rangeOf computes an interval of a linear expression in unbounded integers.
func (f *LinFacts) rangeOf(l *Lin, full func(*Term) (lo, hi *big.Int)) (lo, hi *big.Int) {
	lo, hi = big.NewInt(l.c), big.NewInt(l.c)
	for _, a := range l.at {
		alo, ahi := f.boundsOf(a.t)
		flo, fhi := full(a.t)
		if alo == nil {
			alo = flo
		}
		if ahi == nil {
			ahi = fhi
		}
		k := big.NewInt(a.k)
		x, y := new(big.Int).Mul(alo, k), new(big.Int).Mul(ahi, k)
		if a.k < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return
}
