package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, st *State, c *Call) []Outcome

func one(st *State, res ...*Term) []Outcome { return []Outcome{{st, res}} }

// noReturn lists calls that end the process or the goroutine.
var noReturn = map[string]bool{
	"var log.Fatal": true, "var log.Panic": true, "os.Exit": true, "log.Fatalln": true, "log.Fatal": true, "log.Fatalf": true,
	"log.Panic": true, "log.Panicf": true, "log.Panicln": true, "builtin.panic": true, "runtime.Goexit": true,
}

// pure library functions: the result is a function of the arguments
var purePrefix = []string{"strings.", "strconv.", "math.", "path/filepath.", "unicode.", "unicode/utf8.", "math/bits."}

func isPureLib(name string) bool {
	for _, p := range purePrefix {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func resType(c *Call, i int) types.Type {
	if c.sig == nil || c.sig.Results().Len() <= i {
		return nil
	}
	return c.sig.Results().At(i).Type()
}

func appOf(c *Call, name string, i int, args ...*Term) *Term {
	return mkFull("app", name, resType(c, i), nil, nil, args...)
}

func sbCell(p *Term) *Term {
	return mkFull("fld", "strings.Builder.content", types.Typ[types.String], nil, nil, p)
}
func listLen(p *Term) *Term {
	return mkFull("fld", "list.len", types.Typ[types.Int], nil, nil, p)
}

// listEndCell remembers the first or last element of a list until the list changes.
func listEndCell(which string, l *Term, typ types.Type) *Term {
	return mkFull("fld", "list."+which, typ, nil, nil, l)
}

func listForget(st *State, l *Term) {
	for k := range st.mem {
		if k.op == "fld" && (k.aux == "list.front" || k.aux == "list.back") && k.args[0] == l {
			delete(st.mem, k)
		}
	}
}

func (x *Exec) listLenVal(st *State, l *Term) *Term {
	t := st.load(listLen(l), types.Typ[types.Int])
	if _, ok := t.intVal(); !ok {
		// lengths are not negative
		st.assumeGE(t, tZero)
		for k, v := range st.mem {
			if k.op == "fld" && k.aux == "list.front" && k.args[0] == l {
				switch st.evalNil(v) {
				case 1:
					st.assumeGE(tZero, t)
				case 0:
					st.assumeGE(t, tOne)
				}
			}
		}
	}
	return t
}

// fork2 splits a state on a condition; either side may be infeasible.
func fork2(st *State, cond *Term, yes, no func(*State) []Outcome) []Outcome {
	switch st.eval(cond) {
	case 1:
		return yes(st)
	case 0:
		return no(st)
	}
	s2 := st.clone()
	var out []Outcome
	if st.assume(cond, true) {
		out = append(out, yes(st)...)
	}
	if s2.assume(cond, false) {
		out = append(out, no(s2)...)
	}
	return out
}

// errFork returns a success outcome and a failure outcome with a fresh non-nil error.
func (x *Exec) errFork(st *State, c *Call, ok func(*State) []*Term, fail func(*State) []*Term) []Outcome {
	s2 := st.clone()
	o := ok(st)
	e := x.fresh(s2, "err:"+c.name, nil)
	s2.assume(mkCmp("eq", e, tNil), false)
	s2.note("%s: %s fails", x.p.pos(c.instr.Pos()), c.name)
	f := fail(s2)
	return []Outcome{{st, append(o, tNil)}, {s2, append(f, e)}}
}

// variadicElems returns the elements of a variadic slice argument if its length is known.
func (x *Exec) variadicElems(st *State, s *Term) ([]*Term, bool) {
	if s.op == "nil" {
		return nil, true
	}
	base, off, ln := x.sliceParts(s)
	n, ok := ln.intVal()
	o, ok2 := off.intVal()
	if !ok || !ok2 || n > 32 {
		return nil, false
	}
	var r []*Term
	for i := int64(0); i < n; i++ {
		cell := (*Term)(nil)
		for c := range st.mem {
			if c.op == "elem" && c.args[0] == base {
				if v, ok := c.args[1].intVal(); ok && v == o+i {
					cell = c
				}
			}
		}
		if cell == nil {
			return nil, false
		}
		r = append(r, st.mem[cell])
	}
	return r, true
}

// formatPieces renders a constant format string with the given operands as string terms.
func (x *Exec) formatPieces(format string, args []*Term) *Term {
	var parts []*Term
	ai := 0
	lit := ""
	for i := 0; i < len(format); i++ {
		ch := format[i]
		if ch != '%' {
			lit += string(ch)
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			lit += "%"
			break
		}
		verb := format[i : j+1]
		i = j
		if verb == "%%" {
			lit += "%"
			continue
		}
		parts = append(parts, mkStr(lit))
		lit = ""
		if ai >= len(args) {
			parts = append(parts, mkStr("%!"+verb+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		un := a
		var ty types.Type
		if a.op == "iface" {
			un = a.args[0]
			ty, _ = a.obj.(types.Type)
		}
		switch {
		case verb == "%d" && ty != nil && isIntType(ty):
			parts = append(parts, mk("app", "itoa", un))
		case (verb == "%s" || verb == "%v") && ty != nil && isStringType(ty):
			parts = append(parts, un)
		case verb == "%v" && ty != nil && isIntType(ty):
			parts = append(parts, mk("app", "itoa", un))
		default:
			parts = append(parts, mkFull("app", "fmt:"+verb, types.Typ[types.String], nil, nil, a))
		}
	}
	parts = append(parts, mkStr(lit))
	if ai < len(args) {
		parts = append(parts, mkStr("%!(EXTRA)"))
	}
	return mkConcat(parts...)
}

func tStrEq(a, b *Term) *Term { return mkCmp("eq", a, b) }

func init() {
	m := models
	for n := range noReturn {
		name := n
		m[name] = func(x *Exec, st *State, c *Call) []Outcome {
			if x.h.Panic != nil {
				x.h.Panic(x, st, name, c.instr)
			}
			x.nPaths++
			return nil
		}
	}
	for _, n := range []string{"var log.Debug", "var log.Info", "var log.Warn", "var log.Error", "log.Println", "log.Printf"} {
		m[n] = func(x *Exec, st *State, c *Call) []Outcome { return one(st) }
	}

	// ---- builtins
	m["builtin.len"] = func(x *Exec, st *State, c *Call) []Outcome {
		a := c.args[0]
		if a.op == "alloc" || (a.typ != nil && isChan(a.typ)) || isChan(c.instr.Common().Args[0].Type()) {
			if isChan(c.instr.Common().Args[0].Type()) {
				t := x.fresh(st, "chanlen", types.Typ[types.Int])
				st.assumeGE(t, tZero)
				st.setFact("chanlen", true, t, a)
				return one(st, t)
			}
			if isMap(c.instr.Common().Args[0].Type()) {
				t := x.fresh(st, "maplen", types.Typ[types.Int])
				st.assumeGE(t, tZero)
				return one(st, t)
			}
		}
		if isMap(c.instr.Common().Args[0].Type()) {
			t := x.fresh(st, "maplen", types.Typ[types.Int])
			st.assumeGE(t, tZero)
			return one(st, t)
		}
		return one(st, lenOf(a))
	}
	m["builtin.cap"] = func(x *Exec, st *State, c *Call) []Outcome {
		a := c.args[0]
		if k := x.capOf(a); k != nil {
			return one(st, k)
		}
		t := mk("app", "cap", a)
		st.assumeGE(t, lenOf(a))
		return one(st, t)
	}
	m["builtin.append"] = func(x *Exec, st *State, c *Call) []Outcome {
		base, add := c.args[0], c.args[1]
		_, _, bl := x.sliceParts(base)
		var al *Term
		if isStringType(c.instr.Common().Args[1].Type()) {
			al = lenOf(add)
		} else {
			_, _, al = x.sliceParts(add)
		}
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "append"), nil, nil, nil))
		st.mem[mk("gen", "elems", b)] = mk("site", x.siteName(st, "append"))
		n := tAdd(bl, al)
		res := mkFull("slice", "", c.instr.(ssa.Value).Type(), nil, nil, b, tZero, n)
		if es, ok := x.variadicElems(st, add); ok && !isStringType(c.instr.Common().Args[1].Type()) {
			et := c.instr.(ssa.Value).Type().Underlying().(*types.Slice).Elem()
			for i, e := range es {
				st.mem[mkFull("elem", "", et, nil, nil, b, tAdd(bl, mkInt(int64(i))))] = e
			}
			// known prefix
			if be, ok := x.variadicElems(st, base); ok {
				for i, e := range be {
					st.mem[mkFull("elem", "", et, nil, nil, b, mkInt(int64(i)))] = e
				}
			}
		}
		if x.h.Append != nil {
			x.h.Append(x, st, base, add, res, c.instr)
		}
		return one(st, res)
	}
	m["builtin.copy"] = func(x *Exec, st *State, c *Call) []Outcome {
		d := c.args[0]
		b, _, dl := x.sliceParts(d)
		st.havocObject(b, mk("site", x.siteName(st, "copy")))
		var sl *Term
		if isStringType(c.instr.Common().Args[1].Type()) {
			sl = lenOf(c.args[1])
		} else {
			_, _, sl = x.sliceParts(c.args[1])
		}
		var t *Term
		switch {
		case st.provesGE(sl, dl):
			t = dl
		case st.provesGE(dl, sl):
			t = sl
		default:
			t = x.fresh(st, "copied", types.Typ[types.Int])
			st.assumeGE(t, tZero)
			st.assumeGE(dl, t)
			st.assumeGE(sl, t)
		}
		if x.h.CopyTo != nil {
			x.h.CopyTo(x, st, d, c.args[1], c.instr)
		}
		return one(st, t)
	}
	m["builtin.delete"] = func(x *Exec, st *State, c *Call) []Outcome {
		if x.h.MapUpdate != nil {
			x.h.MapUpdate(x, st, c.args[0], c.args[1], nil, c.instr)
		}
		x.mapStore(st, c.args[0], c.args[1], nil, tFalse)
		return one(st)
	}
	m["builtin.close"] = func(x *Exec, st *State, c *Call) []Outcome { return one(st) }
	m["builtin.print"] = func(x *Exec, st *State, c *Call) []Outcome { return one(st) }
	m["builtin.println"] = m["builtin.print"]
	m["builtin.recover"] = func(x *Exec, st *State, c *Call) []Outcome { return one(st, tNil) }
	m["builtin.ssa:wrapnilchk"] = func(x *Exec, st *State, c *Call) []Outcome { return one(st, c.args[0]) }
	minmax := func(max bool) modelFn {
		return func(x *Exec, st *State, c *Call) []Outcome {
			r := c.args[0]
			outs := one(st, r)
			for _, b := range c.args[1:] {
				var no []Outcome
				for _, o := range outs {
					a := o.res[0]
					cond := mkCmp("ige", a, b)
					if !max {
						cond = mkCmp("ige", b, a)
					}
					no = append(no, fork2(o.st, cond, func(s *State) []Outcome { return one(s, a) }, func(s *State) []Outcome { return one(s, b) })...)
				}
				outs = no
			}
			return outs
		}
	}
	m["builtin.min"] = func(x *Exec, st *State, c *Call) []Outcome {
		if !isIntType(resType2(c)) {
			return one(st, x.fresh(st, "min", resType2(c)))
		}
		return minmax(false)(x, st, c)
	}
	m["builtin.max"] = func(x *Exec, st *State, c *Call) []Outcome {
		if !isIntType(resType2(c)) {
			return one(st, x.fresh(st, "max", resType2(c)))
		}
		return minmax(true)(x, st, c)
	}

	// ---- strconv, strings, fmt
	m["strconv.Itoa"] = func(x *Exec, st *State, c *Call) []Outcome { return one(st, mk("app", "itoa", c.args[0])) }
	m["strconv.FormatInt"] = func(x *Exec, st *State, c *Call) []Outcome {
		if b, ok := c.args[1].intVal(); ok && b == 10 {
			return one(st, mk("app", "itoa", c.args[0]))
		}
		return one(st, appOf(c, "strconv.FormatInt", 0, c.args...))
	}
	m["strconv.FormatUint"] = m["strconv.FormatInt"]
	for _, n := range []string{"strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strconv.ParseBool"} {
		name := n
		m[name] = func(x *Exec, st *State, c *Call) []Outcome {
			v := appOf(c, name, 0, c.args...)
			okT := mk("app", "parses:"+name, c.args...)
			return fork2(st, okT, func(s *State) []Outcome {
				s.note("%s: %s succeeds", x.p.pos(c.instr.Pos()), name)
				return one(s, v, tNil)
			}, func(s *State) []Outcome {
				s.note("%s: %s fails", x.p.pos(c.instr.Pos()), name)
				e := mk("newerr", x.siteName(s, name))
				return one(s, x.fresh(s, "parsefail", resType(c, 0)), e)
			})
		}
	}
	m["fmt.Sprintf"] = func(x *Exec, st *State, c *Call) []Outcome {
		f, ok := c.args[0].strVal()
		if ok {
			if es, ok := x.variadicElems(st, c.args[1]); ok {
				return one(st, x.formatPieces(f, es))
			}
		}
		if x.h.Format != nil {
			x.h.Format(x, st, c)
		}
		return one(st, x.fresh(st, "sprintf", types.Typ[types.String]))
	}
	m["fmt.Sprint"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, x.fresh(st, "sprint", types.Typ[types.String]))
	}
	m["fmt.Errorf"] = func(x *Exec, st *State, c *Call) []Outcome { return one(st, mk("newerr", x.siteName(st, "errorf"))) }
	m["errors.New"] = m["fmt.Errorf"]
	m["github.com/pkg/errors.New"] = m["fmt.Errorf"]
	m["github.com/pkg/errors.Errorf"] = m["fmt.Errorf"]
	wrap := func(x *Exec, st *State, c *Call) []Outcome {
		e := c.args[0]
		if st.evalNil(e) == 1 {
			return one(st, tNil)
		}
		return one(st, mk("app", "wrap", e))
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithMessage", "WithMessagef", "WithStack"} {
		m["github.com/pkg/errors."+n] = wrap
	}
	m["github.com/pkg/errors.Cause"] = func(x *Exec, st *State, c *Call) []Outcome {
		e := c.args[0]
		for e.op == "app" && e.aux == "wrap" {
			e = e.args[0]
		}
		return one(st, e)
	}
	is := func(x *Exec, st *State, c *Call) []Outcome {
		a := c.args[0]
		for a.op == "app" && a.aux == "wrap" {
			a = a.args[0]
		}
		if b := c.args[1]; a.op == "iface" && b.op == "iface" && a.aux == "syscall.Errno" && a.aux == b.aux {
			return one(st, mkCmp("ieq", a.args[0], b.args[0]))
		}
		t := mk("app", "errors.Is", a, c.args[1])
		if v := st.eval(t); v >= 0 {
			return one(st, mkBool(v == 1))
		}
		return one(st, t)
	}
	m["errors.Is"] = is
	m["github.com/pkg/errors.Is"] = is
	m["(error).Error"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, mkFull("app", "errtext", types.Typ[types.String], nil, nil, c.args[0]))
	}
	m["strings.Split"] = func(x *Exec, st *State, c *Call) []Outcome {
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "split"), nil, nil, nil))
		st.mem[mk("gen", "elems", b)] = mk("site", x.siteName(st, "split"))
		n := x.fresh(st, "nsplit", types.Typ[types.Int])
		st.assumeGE(n, tZero)
		if s, ok := c.args[1].strVal(); ok && s != "" {
			st.assumeGE(n, tOne)
			st.assumeGE(tAdd(lenOf(c.args[0]), tOne), n)
		}
		return one(st, mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, n))
	}
	m["strings.Fields"] = func(x *Exec, st *State, c *Call) []Outcome {
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "fields"), nil, nil, nil))
		st.mem[mk("gen", "elems", b)] = mk("site", x.siteName(st, "fields"))
		n := x.fresh(st, "nfields", types.Typ[types.Int])
		st.assumeGE(n, tZero)
		st.assumeGE(lenOf(c.args[0]), n)
		return one(st, mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, n))
	}
	m["strings.EqualFold"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, mk("app", "strings.EqualFold", c.args...))
	}
	m["(*strings.Replacer).Replace"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, mkFull("app", "replace", types.Typ[types.String], nil, nil, c.args...))
	}
	m["strings.Index"] = indexModel(func(x *Exec, st *State, c *Call) (*Term, *Term) { return lenOf(c.args[0]), lenOf(c.args[1]) })
	m["bytes.Index"] = m["strings.Index"]
	byteIdx := indexModel(func(x *Exec, st *State, c *Call) (*Term, *Term) { return lenOf(c.args[0]), tOne })
	m["bytes.IndexByte"], m["strings.IndexByte"] = byteIdx, byteIdx
	trim := func(x *Exec, st *State, c *Call) []Outcome {
		a := c.args[0]
		b, off, ln := x.sliceParts(a)
		n := x.fresh(st, "trimlen", types.Typ[types.Int])
		st.assumeGE(n, tZero)
		st.assumeGE(ln, n)
		return one(st, mkFull("slice", "trim", resType(c, 0), nil, nil, b, off, n))
	}
	m["bytes.TrimRight"], m["bytes.TrimSuffix"] = trim, trim
	m["bytes.TrimSpace"] = func(x *Exec, st *State, c *Call) []Outcome {
		b := x.fresh(st, "trim", resType(c, 0))
		st.assumeGE(lenOf(c.args[0]), lenOf(b))
		return one(st, b)
	}
	strtrim := func(x *Exec, st *State, c *Call) []Outcome {
		t := appOf(c, c.name, 0, c.args...)
		st.assumeGE(lenOf(c.args[0]), lenOf(t))
		return one(st, t)
	}
	for _, n := range []string{"TrimRight", "TrimSuffix", "TrimSpace", "TrimLeft", "TrimPrefix", "Trim"} {
		m["strings."+n] = strtrim
	}

	// ---- strings.Builder and bytes.Buffer as text accumulators
	for _, ty := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		ws := func(x *Exec, st *State, c *Call) []Outcome {
			cell := sbCell(c.args[0])
			old := st.load(cell, types.Typ[types.String])
			add := c.args[1]
			if x.h.SB != nil {
				x.h.SB(x, st, c.args[0], add, c)
			}
			v := mkConcat(old, add)
			if v.op == "concat" && len(v.args) > 60 {
				v = x.fresh(st, "text", types.Typ[types.String])
			}
			x.hookStore(st, cell, v, c.instr)
			st.store(cell, v, mk("site", x.siteName(st, "sb")))
			return one(st, lenOf(add), tNil)
		}
		m[ty+".WriteString"] = ws
		m[ty+".Write"] = func(x *Exec, st *State, c *Call) []Outcome {
			a := c.args[1]
			if a.op == "bytes" {
				a = a.args[0]
			} else {
				a = mk("b2s", "", a)
			}
			c2 := *c
			c2.args = []*Term{c.args[0], a}
			return ws(x, st, &c2)
		}
		m[ty+".WriteByte"] = func(x *Exec, st *State, c *Call) []Outcome {
			v := mkFull("app", "chr", types.Typ[types.String], nil, nil, c.args[1])
			if b, ok := c.args[1].intVal(); ok {
				v = mkStr(string([]byte{byte(b)}))
			}
			c2 := *c
			c2.args = []*Term{c.args[0], v}
			ws(x, st, &c2)
			return one(st, tNil)
		}
		m[ty+".WriteRune"] = func(x *Exec, st *State, c *Call) []Outcome {
			v := mkFull("app", "rune", types.Typ[types.String], nil, nil, c.args[1])
			if b, ok := c.args[1].intVal(); ok {
				v = mkStr(string(rune(b)))
			}
			c2 := *c
			c2.args = []*Term{c.args[0], v}
			return ws(x, st, &c2)
		}
		m[ty+".String"] = func(x *Exec, st *State, c *Call) []Outcome {
			return one(st, st.load(sbCell(c.args[0]), types.Typ[types.String]))
		}
		m[ty+".Bytes"] = func(x *Exec, st *State, c *Call) []Outcome {
			return one(st, mkFull("bytes", "", resType(c, 0), nil, nil, st.load(sbCell(c.args[0]), types.Typ[types.String])))
		}
		m[ty+".Len"] = func(x *Exec, st *State, c *Call) []Outcome {
			return one(st, lenOf(st.load(sbCell(c.args[0]), types.Typ[types.String])))
		}
		m[ty+".Reset"] = func(x *Exec, st *State, c *Call) []Outcome {
			cell := sbCell(c.args[0])
			x.hookStore(st, cell, mkStr(""), c.instr)
			st.store(cell, mkStr(""), mk("site", x.siteName(st, "sb")))
			return one(st)
		}
		m[ty+".Grow"] = func(x *Exec, st *State, c *Call) []Outcome { return one(st) }
	}
	m["fmt.Fprintf"] = func(x *Exec, st *State, c *Call) []Outcome {
		w := c.args[0]
		if w.op == "iface" && (w.aux == "*strings.Builder" || w.aux == "*bytes.Buffer") {
			var t *Term
			if f, ok := c.args[1].strVal(); ok {
				if es, ok := x.variadicElems(st, c.args[2]); ok {
					t = x.formatPieces(f, es)
				}
			}
			if t == nil {
				t = x.fresh(st, "sprintf", types.Typ[types.String])
			}
			c2 := *c
			c2.args = []*Term{w.args[0], t}
			return m["(*strings.Builder).WriteString"](x, st, &c2)
		}
		return x.unknownCall(st, c)
	}

	// ---- container/list
	m["container/list.New"] = func(x *Exec, st *State, c *Call) []Outcome {
		l := x.freshTerm(st, mkFull("alloc", x.siteName(st, "list"), resType(c, 0), nil, nil))
		return one(st, l)
	}
	m["(*container/list.List).Len"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, x.listLenVal(st, c.args[0]))
	}
	push := func(x *Exec, st *State, c *Call) []Outcome {
		n := x.listLenVal(st, c.args[0])
		cell := listLen(c.args[0])
		st.store(cell, tAdd(n, tOne), mk("site", x.siteName(st, "push")))
		st.mem[mk("gen", "list", c.args[0])] = mk("site", x.siteName(st, "push"))
		listForget(st, c.args[0])
		e := x.freshTerm(st, mkFull("alloc", x.siteName(st, "elem"), resType(c, 0), nil, nil))
		vt := types.NewInterfaceType(nil, nil)
		st.mem[mkFull("fld", "container/list.Element.Value", vt, nil, nil, e)] = c.args[1]
		if x.h.ListPush != nil {
			x.h.ListPush(x, st, c.args[0], c.args[1], c)
		}
		return one(st, e)
	}
	for _, n := range []string{"PushBack", "PushFront", "InsertAfter", "InsertBefore"} {
		m["(*container/list.List)."+n] = push
	}
	m["(*container/list.List).Remove"] = func(x *Exec, st *State, c *Call) []Outcome {
		n := x.listLenVal(st, c.args[0])
		st.assumeGE(n, tOne)
		x.needNonNil(st, c.args[1], c.instr, "list element")
		st.store(listLen(c.args[0]), tSub(n, tOne), mk("site", x.siteName(st, "remove")))
		if x.h.ListRemove != nil {
			x.h.ListRemove(x, st, c.args[0], c.args[1], c)
		}
		st.mem[mk("gen", "list", c.args[0])] = mk("site", x.siteName(st, "remove"))
		listForget(st, c.args[0])
		v := st.load(mkFull("fld", "container/list.Element.Value", resType(c, 0), nil, nil, c.args[1]), resType(c, 0))
		return one(st, v)
	}
	m["(*container/list.List).Init"] = func(x *Exec, st *State, c *Call) []Outcome {
		st.store(listLen(c.args[0]), tZero, mk("site", x.siteName(st, "init")))
		st.mem[mk("gen", "list", c.args[0])] = mk("site", x.siteName(st, "init"))
		listForget(st, c.args[0])
		return one(st, c.args[0])
	}
	end := func(which string) modelFn {
		return func(x *Exec, st *State, c *Call) []Outcome {
			n := x.listLenVal(st, c.args[0])
			args := []*Term{c.args[0]}
			if g := st.mem[mk("gen", "list", c.args[0])]; g != nil {
				args = append(args, g)
			}
			e := mkFull("app", "list."+which, resType(c, 0), nil, nil, args...)
			cell := listEndCell(which, c.args[0], e.typ)
			if v := st.mem[cell]; v != nil {
				e = v
			}
			return fork2(st, mkCmp("ieq", n, tZero), func(s *State) []Outcome { s.mem[cell] = tNil; return one(s, tNil) }, func(s *State) []Outcome {
				if !s.assume(mkCmp("eq", e, tNil), false) {
					return nil
				}
				s.mem[cell] = e
				return one(s, e)
			})
		}
	}
	m["(*container/list.List).Front"] = end("front")
	m["(*container/list.List).Back"] = end("back")
	step := func(x *Exec, st *State, c *Call) []Outcome {
		x.needNonNil(st, c.args[0], c.instr, "list element")
		e := x.fresh(st, "nextelem", resType(c, 0))
		return fork2(st, mkCmp("eq", e, tNil), func(s *State) []Outcome { return one(s, tNil) }, func(s *State) []Outcome { return one(s, e) })
	}
	m["(*container/list.Element).Next"] = step
	m["(*container/list.Element).Prev"] = step

	// ---- time
	m["time.Now"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, x.freshTerm(st, sym(strings.Replace(x.siteName(st, "nowT"), "nowT", "nowT", 1), resType(c, 0))))
	}
	for _, n := range []string{"UnixMilli", "Unix", "UnixNano", "UnixMicro"} {
		name := n
		m["(time.Time)."+name] = func(x *Exec, st *State, c *Call) []Outcome {
			t := mkFull("app", "now"+name, types.Typ[types.Int64], nil, nil, c.args[0])
			st.setFact("clock", true, t, c.args[0])
			return one(st, t)
		}
	}
	// differences of times, normalised so that every way of comparing two times leads to the same term
	var timeSub func(a, b *Term) *Term
	timeSub = func(a, b *Term) *Term {
		if a.op == "app" && a.aux == "time.Add" {
			return tAdd(timeSub(a.args[0], b), a.args[1])
		}
		if b.op == "app" && b.aux == "time.Add" {
			return tSub(timeSub(a, b.args[0]), b.args[1])
		}
		if a == b {
			return tZero
		}
		if a.id < b.id {
			return mkFull("app", "time.Sub", types.Typ[types.Int64], nil, nil, a, b)
		}
		return tMulC(mkFull("app", "time.Sub", types.Typ[types.Int64], nil, nil, b, a), -1)
	}
	m["(time.Time).Sub"] = func(x *Exec, st *State, c *Call) []Outcome { return one(st, timeSub(c.args[0], c.args[1])) }
	m["(time.Time).After"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, mkCmp("ige", timeSub(c.args[0], c.args[1]), tOne))
	}
	m["(time.Time).Before"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, mkCmp("ige", timeSub(c.args[1], c.args[0]), tOne))
	}
	m["(time.Time).Add"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, mkFull("app", "time.Add", resType(c, 0), nil, nil, c.args...))
	}
	m["time.Since"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, timeSub(x.freshTerm(st, sym(x.siteName(st, "nowT"), c.sig.Params().At(0).Type())), c.args[0]))
	}
	m["time.Until"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, timeSub(c.args[0], x.freshTerm(st, sym(x.siteName(st, "nowT"), c.sig.Params().At(0).Type()))))
	}
	m["(time.Time).IsZero"] = func(x *Exec, st *State, c *Call) []Outcome { return one(st, appOf(c, "time.IsZero", 0, c.args...)) }

	// ---- atomics
	for _, ty := range []string{"Bool", "Int32", "Int64", "Uint32", "Uint64"} {
		recv := "(*sync/atomic." + ty + ")."
		cellOf := func(p *Term, t types.Type) *Term { return mkFull("fld", "atomic.v", t, nil, nil, p) }
		m[recv+"Load"] = func(x *Exec, st *State, c *Call) []Outcome {
			if x.h.Atomic != nil {
				if o := x.h.Atomic(x, st, "Load", c); o != nil {
					return o
				}
			}
			return one(st, st.load(cellOf(c.args[0], resType(c, 0)), resType(c, 0)))
		}
		m[recv+"Store"] = func(x *Exec, st *State, c *Call) []Outcome {
			if x.h.Atomic != nil {
				if o := x.h.Atomic(x, st, "Store", c); o != nil {
					return o
				}
			}
			st.store(cellOf(c.args[0], c.sig.Params().At(0).Type()), c.args[1], mk("site", x.siteName(st, "atomic")))
			return one(st)
		}
		m[recv+"CompareAndSwap"] = func(x *Exec, st *State, c *Call) []Outcome {
			if x.h.Atomic != nil {
				if o := x.h.Atomic(x, st, "CompareAndSwap", c); o != nil {
					return o
				}
			}
			t := c.sig.Params().At(0).Type()
			cell := cellOf(c.args[0], t)
			cur := st.load(cell, t)
			cond := mkCmp("ieq", cur, c.args[1])
			if !isIntType(t) {
				cond = mkCmp("eq", cur, c.args[1])
			}
			return fork2(st, cond, func(s *State) []Outcome {
				s.store(cell, c.args[2], mk("site", x.siteName(s, "cas")))
				return one(s, tTrue)
			}, func(s *State) []Outcome { return one(s, tFalse) })
		}
		m[recv+"Add"] = func(x *Exec, st *State, c *Call) []Outcome {
			t := resType(c, 0)
			cell := cellOf(c.args[0], t)
			v := tAdd(st.load(cell, t), c.args[1])
			st.store(cell, v, mk("site", x.siteName(st, "atomic")))
			return one(st, v)
		}
		m[recv+"Swap"] = func(x *Exec, st *State, c *Call) []Outcome {
			t := resType(c, 0)
			cell := cellOf(c.args[0], t)
			v := st.load(cell, t)
			st.store(cell, c.args[1], mk("site", x.siteName(st, "atomic")))
			return one(st, v)
		}
	}
	m["(*sync.Once).Do"] = func(x *Exec, st *State, c *Call) []Outcome {
		if x.h.HigherOrder != nil {
			x.h.HigherOrder(x, st, c)
		}
		return one(st)
	}

	// ---- files and sockets
	m["(*os.File).WriteString"] = func(x *Exec, st *State, c *Call) []Outcome {
		return x.errFork(st, c, func(s *State) []*Term { return []*Term{lenOf(c.args[1])} },
			func(s *State) []*Term { return []*Term{x.fresh(s, "written", types.Typ[types.Int])} })
	}
	m["(*os.File).Write"] = func(x *Exec, st *State, c *Call) []Outcome {
		return x.errFork(st, c, func(s *State) []*Term { return []*Term{lenOf(c.args[1])} },
			func(s *State) []*Term { return []*Term{x.fresh(s, "written", types.Typ[types.Int])} })
	}
	readInto := func(full bool) modelFn {
		return func(x *Exec, st *State, c *Call) []Outcome {
			buf := c.args[len(c.args)-1]
			b, _, ln := x.sliceParts(buf)
			st.havocObject(b, mk("site", x.siteName(st, "read")))
			if x.h.ReadInto != nil {
				x.h.ReadInto(x, st, buf, c)
			}
			return x.errFork(st, c, func(s *State) []*Term {
				if full {
					return []*Term{ln}
				}
				n := x.fresh(s, "nread", types.Typ[types.Int])
				s.assumeGE(n, tZero)
				s.assumeGE(ln, n)
				return []*Term{n}
			}, func(s *State) []*Term {
				n := x.fresh(s, "nreadE", types.Typ[types.Int])
				s.assumeGE(ln, n)
				return []*Term{n}
			})
		}
	}
	m["io.ReadFull"] = readInto(true)
	m["syscall.Read"] = readInto(false)
	m["(*bufio.Reader).Read"] = readInto(false)
	m["(*os.File).Read"] = readInto(false)
	m["syscall.Write"] = func(x *Exec, st *State, c *Call) []Outcome {
		return x.errFork(st, c, func(s *State) []*Term {
			n := x.fresh(s, "nwritten", types.Typ[types.Int])
			s.assumeGE(n, tZero)
			s.assumeGE(lenOf(c.args[1]), n)
			return []*Term{n}
		}, func(s *State) []*Term { return []*Term{mkInt(-1)} })
	}
	m["(*bufio.Reader).ReadBytes"] = func(x *Exec, st *State, c *Call) []Outcome {
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "line"), nil, nil, nil))
		st.mem[mk("gen", "elems", b)] = mk("site", x.siteName(st, "line"))
		n := x.fresh(st, "linelen", types.Typ[types.Int])
		st.assumeGE(n, tZero)
		r := mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, n)
		return x.errFork(st, c, func(s *State) []*Term {
			s.assumeGE(n, tOne)
			return []*Term{r}
		}, func(s *State) []*Term { return []*Term{r} })
	}
	m["(*bufio.Reader).ReadString"] = func(x *Exec, st *State, c *Call) []Outcome {
		r := x.fresh(st, "line", types.Typ[types.String])
		return x.errFork(st, c, func(s *State) []*Term {
			s.assumeGE(lenOf(r), tOne)
			return []*Term{r}
		}, func(s *State) []*Term { return []*Term{r} })
	}
	m["syscall.EpollWait"] = func(x *Exec, st *State, c *Call) []Outcome {
		b, _, ln := x.sliceParts(c.args[1])
		st.havocObject(b, mk("site", x.siteName(st, "epoll")))
		return x.errFork(st, c, func(s *State) []*Term {
			n := x.fresh(s, "nready", types.Typ[types.Int])
			s.assumeGE(n, tZero)
			s.assumeGE(ln, n)
			return []*Term{n}
		}, func(s *State) []*Term { return []*Term{mkInt(-1)} })
	}

	// ---- random numbers
	m["math/rand.Intn"] = func(x *Exec, st *State, c *Call) []Outcome {
		x.oblig(st, "randrange", st.provesGE(c.args[0], tOne), c.instr, "rand.Intn("+c.args[0].String()+")")
		if !st.assumeGE(c.args[0], tOne) {
			return nil
		}
		r := x.fresh(st, "rand", resType(c, 0))
		st.assumeGE(r, tZero)
		st.assumeGE(tSub(c.args[0], tOne), r)
		return one(st, r)
	}
	m["math/rand.Int63n"], m["math/rand.Int31n"] = m["math/rand.Intn"], m["math/rand.Intn"]
	nonneg := func(x *Exec, st *State, c *Call) []Outcome {
		r := x.fresh(st, "rand", resType(c, 0))
		st.assumeGE(r, tZero)
		return one(st, r)
	}
	m["math/rand.Int63"], m["math/rand.Int31"], m["math/rand.Int"] = nonneg, nonneg, nonneg

	// ---- byteutils
	m["github.com/IfanTsai/go-lib/utils/byteutils.B2S"] = func(x *Exec, st *State, c *Call) []Outcome {
		_, _, ln := x.sliceParts(c.args[0])
		x.oblig(st, "index", st.provesGE(ln, tOne), c.instr, "byteutils.B2S of a slice of length "+ln.String())
		if !st.assumeGE(ln, tOne) {
			return nil
		}
		if x.h.Alias != nil {
			x.h.Alias(x, st, c.args[0], c)
		}
		t := mk("b2s", "", c.args[0])
		st.assume(mkCmp("ieq", lenOf(t), ln), true)
		return one(st, t)
	}
	m["github.com/IfanTsai/go-lib/utils/byteutils.S2B"] = func(x *Exec, st *State, c *Call) []Outcome {
		return one(st, mk("bytes", "", c.args[0]))
	}

	// ---- samber/lo
	m["github.com/samber/lo.Chunk"] = func(x *Exec, st *State, c *Call) []Outcome {
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "chunks"), nil, nil, nil))
		st.mem[mk("gen", "elems", b)] = mk("site", x.siteName(st, "chunks"))
		n := x.fresh(st, "nchunks", types.Typ[types.Int])
		st.assumeGE(n, tZero)
		r := mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, n)
		st.setFact("chunks", true, r, c.args[0], c.args[1])
		if x.h.Chunk != nil {
			x.h.Chunk(x, st, r, c)
		}
		return one(st, r)
	}
	m["github.com/samber/lo.Map"] = func(x *Exec, st *State, c *Call) []Outcome {
		_, _, ln := x.sliceParts(c.args[0])
		b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "map"), nil, nil, nil))
		st.mem[mk("gen", "elems", b)] = mk("site", x.siteName(st, "map"))
		r := mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, ln)
		if x.h.HigherOrder != nil {
			x.h.HigherOrder(x, st, c)
		}
		return one(st, r)
	}
}

func resType2(c *Call) types.Type { return c.instr.(ssa.Value).Type() }

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := t.Underlying().(*types.Map); return ok }

func indexModel(f func(x *Exec, st *State, c *Call) (*Term, *Term)) modelFn {
	return func(x *Exec, st *State, c *Call) []Outcome {
		n, m := f(x, st, c)
		s2 := st.clone()
		i := x.fresh(st, "idx", types.Typ[types.Int])
		st.assumeGE(i, tZero)
		var out []Outcome
		if st.assumeGE(tSub(n, m), i) {
			out = append(out, Outcome{st, []*Term{i}})
			if nb, ok := needleByte(c); ok && len(c.args) > 0 && !isStringType(c.args[0].typ) {
				b, off, _ := x.sliceParts(c.args[0])
				st.setFact("needle", true, i, b, off, mkInt(int64(nb)))
			}
			st.note("%s: %s finds it", x.p.pos(c.instr.Pos()), c.name)
		}
		s2.note("%s: %s does not find it", x.p.pos(c.instr.Pos()), c.name)
		out = append(out, Outcome{s2, []*Term{mkInt(-1)}})
		return out
	}
}

// needleByte: the first byte of the constant that is searched for.
func needleByte(c *Call) (byte, bool) {
	if len(c.args) < 2 || strings.Contains(c.name, "Last") || strings.Contains(c.name, "Any") {
		return 0, false
	}
	n := c.args[1]
	if v, ok := n.intVal(); ok {
		return byte(v), true
	}
	for n.op == "bytes" || n.op == "app" && n.aux == "s2b" {
		n = n.args[0]
	}
	if s, ok := n.strVal(); ok && s != "" {
		return s[0], true
	}
	return 0, false
}

// foundLater: hi is a position found in a buffer that does not start with what was searched for, so it is at least
// one.
func (st *State) foundLater(hi, lo *Term) bool {
	if !st.provesGE(tOne, lo) {
		return false
	}
	for b, v := range st.bools {
		if !v || b.op != "app" || b.aux != "@needle" || !st.provesGE(hi, b.args[0]) {
			continue
		}
		cell := mkFull("elem", "", types.Typ[types.Byte], nil, nil, b.args[1], b.args[2])
		for c, w := range st.mem {
			if c.op == "elem" && c.args[0] == b.args[1] && c.args[1] == b.args[2] && st.eval(mkCmp("ieq", w, b.args[3])) == 0 {
				return true
			}
		}
		if st.eval(mkCmp("ieq", st.load(cell, types.Typ[types.Byte]), b.args[3])) == 0 {
			return true
		}
	}
	return false
}

func (x *Exec) hookStore(st *State, cell, v *Term, in ssa.Instruction) {
	if x.h.Store != nil {
		x.h.Store(x, st, cell, v, in)
	}
}

var models = map[string]modelFn{}

func findModel(c *Call) modelFn {
	if m, ok := models[c.name]; ok {
		return m
	}
	if strings.HasPrefix(c.name, "go.uber.org/zap.") {
		return func(x *Exec, st *State, c *Call) []Outcome {
			r := []*Term{}
			for i := 0; i < c.sig.Results().Len(); i++ {
				r = append(r, sym(fmt.Sprintf("zap:%s", c.name), c.sig.Results().At(i).Type()))
			}
			return one(st, r...)
		}
	}
	if c.fn != nil && !inRepo(c.fn) && isPureLib(c.name) && c.sig != nil && c.sig.Results().Len() == 1 {
		ref := false
		for i := 0; i < c.sig.Params().Len(); i++ {
			if isRefType(c.sig.Params().At(i).Type()) {
				ref = true
			}
		}
		if c.sig.Recv() == nil && !ref && !isRefType(c.sig.Results().At(0).Type()) {
			return func(x *Exec, st *State, c *Call) []Outcome {
				return one(st, appOf(c, c.name, 0, c.args...))
			}
		}
	}
	return nil
}
