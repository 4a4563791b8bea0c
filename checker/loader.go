package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The loader of the log: the file is a stream of unknown content. Ghost variables count the bytes taken from the
// stream in the current record and the bytes of the complete records before it; every read may succeed, find the end
// of the file (at a record boundary or inside a record) or fail otherwise.

type loadAn struct {
	p      *Prog
	r      *Report
	prop   string
	root   *ssa.Function
	lookup *ssa.Function
	proc   *ssa.Function
	env    *cbEnv
	eof    *Term
	uneof  *Term
}

func (a *loadAn) viol(x *Exec, st *State, rule string, pos token.Pos, format string, args ...any) {
	if strings.HasPrefix(rule, a.prop+".") {
		x.violate(st, rule, pathFn(st), pos, format, args...)
	}
}

func (a *loadAn) ob(x *Exec, rule string, pos token.Pos) {
	if strings.HasPrefix(rule, a.prop+".") {
		a.r.oblig(rule, a.p.pos(pos))
	}
}

// loaderFns: the innermost functions that open a file and run looked-up commands without the dispatcher.
func (p *Prog) loaderFns() (out []*ssa.Function) {
	proc, lookup, why := p.dispatchFns()
	if why != "" {
		return nil
	}
	has := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if f == proc || f.Parent() != nil {
			continue
		}
		rs := p.reach([]*ssa.Function{f}, nil)
		if (rs[lookup] || rs[proc]) && p.reaches(f, "os.Open", "os.OpenFile") && p.reaches(f, "bufio.NewReader", "bufio.NewReaderSize", "(*bufio.Reader).Reset", "bufio.NewScanner") {
			has[f] = true
		}
	}
	for f := range has {
		inner := true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, g := range p.calleesOf(in) {
					if g != f && has[g] {
						inner = false
					}
				}
			}
		}
		if inner {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

func (p *Prog) pkgGlobal(path, name string) *ssa.Global {
	for _, sp := range p.ssa.AllPackages() {
		if sp.Pkg.Path() == path {
			if g, ok := sp.Members[name].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

func exploreLoader(p *Prog, r *Report, prop string) {
	proc, lookup, why := p.dispatchFns()
	if why != "" {
		r.fail("undecided", "dispatch", "-", "%s", why)
		return
	}
	fns := p.loaderFns()
	if len(fns) == 0 {
		r.fail("undecided", "log loader", "-", "the function that replays the log is not found")
		return
	}
	for _, f := range fns {
		a := &loadAn{p: p, r: r, prop: prop, root: f, lookup: lookup, proc: proc}
		h := &Hooks{Call: a.call, Return: a.ret, Panic: a.refuse, Store: a.store, Append: a.append, SB: a.sb,
			Alias: func(x *Exec, st *State, b *Term, c *Call) { st.setFact("view", true, mk("b2s", "", b)) }}
		x := newExec(p, r, h)
		st := newState()
		a.env = newCbEnv(p, st)
		errT := types.Universe.Lookup("error").Type()
		for n, t := range map[string]**Term{"EOF": &a.eof, "ErrUnexpectedEOF": &a.uneof} {
			g := p.pkgGlobal("io", n)
			if g == nil {
				r.fail("undecided", "io."+n, "-", "not found")
				return
			}
			*t = mkFull("gconst", globalName(g), errT, g, nil)
		}
		args, free := a.env.args(st, cbRoot{fn: f})
		x.Run(f, st, args, free)
		r.use(x)
	}
}

func (a *loadAn) end(st *State) string { return st.slot("end") }

// took counts n more bytes of the current record. A file has less than 2^60 bytes.
func (a *loadAn) took(st *State, n *Term) {
	st.setGhost("rec", tAdd(st.ghost("rec"), n))
	st.setGhost("body", tAdd(st.ghost("body"), n))
	st.assumeGE(mkInt(1<<60), tAdd(st.ghost("done"), st.ghost("rec")))
	st.assumeGE(mkInt(1<<60), st.ghost("rec"))
}

// atRead: a read is about to happen.
func (a *loadAn) atRead(x *Exec, st *State, pos token.Pos, line bool) {
	a.ob(x, "C19.stop", pos)
	if a.end(st) != "" {
		if a.end(st) == "torn" {
			a.viol(x, st, "C19.stop", pos, "reading goes on behind the incomplete record at the end of the log")
		}
	}
	if line {
		a.bodyDone(x, st, pos, true)
	}
}

// bodyDone: the bytes taken since the length of an argument was read are the argument and its line break.
func (a *loadAn) bodyDone(x *Exec, st *State, pos token.Pos, line bool) {
	if st.slot("line") != "$" {
		return
	}
	a.ob(x, "C18.framing", pos)
	n := st.slots["g:num"]
	if line && n != nil && st.provesEqInt(st.ghost("body"), n) {
		st.setSlot("line", "tail") // the line break is read as the rest of a line
		return
	}
	if n == nil || !st.provesEqInt(st.ghost("body"), tAdd(n, mkInt(2))) {
		a.viol(x, st, "C18.framing", pos, "the next part of the log is read although %v bytes have been taken for an argument of length %v and its line break", st.ghost("body"), n)
	}
}

// fails gives the outcomes of a read that meets the end of the file or an error.
func (a *loadAn) fails(x *Exec, st *State, c *Call, took, noData *Term, res func(*State, *Term) []*Term, full bool) []Outcome {
	var out []Outcome
	mk1 := func(kind string, err *Term, some int) {
		s := st.clone()
		if took != nil {
			s.assumeGE(mkInt(1<<60), tAdd(tAdd(s.ghost("done"), s.ghost("rec")), took))
			switch some {
			case 0:
				if !s.assume(mkCmp("ieq", took, tZero), true) {
					return
				}
			case 1:
				if !s.assumeGE(took, tOne) {
					return
				}
			}
		}
		rec := st.ghost("rec")
		switch kind {
		case "eof":
			// the end of the file: at a boundary if nothing of a record has been read
			if some != 1 {
				t := s.clone()
				if t.assume(mkCmp("ieq", rec, tZero), true) {
					t.setSlot("end", "clean")
					t.note("%s: the log ends between two records", x.p.pos(c.instr.Pos()))
					out = append(out, Outcome{t, res(t, err)})
				}
				if !s.assumeGE(rec, tOne) {
					return
				}
			}
			s.setSlot("end", "torn")
			s.note("%s: the log ends inside a record", x.p.pos(c.instr.Pos()))
		default:
			s.setSlot("end", "error")
			s.note("%s: reading the log fails", x.p.pos(c.instr.Pos()))
		}
		out = append(out, Outcome{s, res(s, err)})
	}
	mk1("eof", a.eof, 0)
	if full {
		mk1("eof", a.uneof, 1)
	} else {
		mk1("eof", a.eof, 1)
	}
	oe := x.fresh(st, "ioerror", nil)
	st.assume(mkCmp("eq", oe, tNil), false)
	st.assume(mk("app", "errors.Is", oe, a.eof), false)
	st.assume(mk("app", "errors.Is", oe, a.uneof), false)
	st.assume(mkCmp("eq", oe, a.eof), false)
	st.assume(mkCmp("eq", oe, a.uneof), false)
	mk1("error", oe, 2)
	return out
}

func (a *loadAn) call(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	pos := c.instr.Pos()
	n := c.name
	switch {
	case n == "bufio.NewReader" || n == "bufio.NewReaderSize":
		st.setSlot("stream", "1")
		return one(st, nonNil(st, x.fresh(st, "reader", c.sig.Results().At(0).Type()))), true
	case n == "(*bufio.Reader).ReadBytes" || n == "(*bufio.Reader).ReadString":
		a.atRead(x, st, pos, true)
		str := strings.HasSuffix(n, "String")
		var v, ln *Term
		if str {
			v = x.fresh(st, "line", stringType)
			ln = lenOf(v)
		} else {
			b := x.freshTerm(st, mkFull("alloc", x.siteName(st, "line"), nil, nil, nil))
			st.mem[mk("gen", "elems", b)] = mk("site", x.siteName(st, "line"))
			ln = x.fresh(st, "linelen", intType)
			v = mkFull("slice", "", resType(c, 0), nil, nil, b, tZero, ln)
		}
		st.assumeGE(ln, tZero)
		outs := a.fails(x, st, c, ln, nil, func(s *State, e *Term) []*Term { return []*Term{v, e} }, false)
		if !st.assumeGE(ln, tOne) {
			return outs, true
		}
		a.took(st, ln)
		st.setGhost("body", tZero)
		if st.slot("line") == "tail" {
			st.setSlot("line", "")
			return append([]Outcome{{st, []*Term{v, tNil}}}, outs...), true
		}
		st.setSlot("line", "?")
		st.slots["lastline"] = v
		delete(st.slots, "trimmed")
		return append([]Outcome{{st, []*Term{v, tNil}}}, outs...), true
	case n == "io.ReadFull" || n == "io.ReadAtLeast" || n == "(*bufio.Reader).Read":
		a.atRead(x, st, pos, false)
		buf := c.args[1]
		b, _, ln := x.sliceParts(buf)
		st.havocObject(b, mk("site", x.siteName(st, "read")))
		took := x.fresh(st, "took", intType)
		st.assumeGE(took, tZero)
		st.assumeGE(ln, took)
		full := n == "io.ReadFull"
		var outs []Outcome
		if some := st.clone(); some.assumeGE(ln, tOne) { // nothing to be read: no error
			outs = a.fails(x, some, c, took, nil, func(s *State, e *Term) []*Term { return []*Term{took, e} }, n != "(*bufio.Reader).Read")
		}
		if full {
			took = ln
			st.setFact("full", true, b)
		}
		st.slots["lastbuf"] = mk("data", "", b, ln)
		a.took(st, took)
		return append([]Outcome{{st, []*Term{took, tNil}}}, outs...), true
	case n == "(*bufio.Reader).Discard":
		a.atRead(x, st, pos, false)
		took := x.fresh(st, "skipped", intType)
		st.assumeGE(took, tZero)
		st.assumeGE(c.args[1], took)
		outs := a.fails(x, st, c, took, nil, func(s *State, e *Term) []*Term { return []*Term{took, e} }, false)
		a.took(st, c.args[1])
		return append([]Outcome{{st, []*Term{c.args[1], tNil}}}, outs...), true
	case n == "(*bufio.Reader).ReadByte":
		a.atRead(x, st, pos, false)
		v := x.fresh(st, "byte", c.sig.Results().At(0).Type())
		st.assumeGE(v, tZero)
		outs := a.fails(x, st, c, tZero, nil, func(s *State, e *Term) []*Term { return []*Term{tZero, e} }, false)
		a.took(st, tOne)
		return append([]Outcome{{st, []*Term{v, tNil}}}, outs...), true
	case strings.HasPrefix(n, "(*bufio.Reader).") || strings.HasPrefix(n, "(*bufio.Scanner).") || n == "bufio.NewScanner" || n == "io.ReadAll" || n == "os.ReadFile" || n == "io.CopyN":
		x.giveUp("the loader reads with %s", n)
		return nil, true
	case n == "strconv.Atoi" || n == "strconv.ParseInt" || n == "strconv.ParseUint":
		outs := findModel(c)(x, st, c)
		for _, o := range outs {
			if len(o.res) == 2 && o.res[1] == tNil {
				a.number(x, o.st, o.res[0], pos)
			} else {
				o.st.setSlot("bad", "1")
			}
		}
		return outs, true
	case strings.HasPrefix(n, "bytes.Trim") || strings.HasPrefix(n, "strings.Trim"):
		md := findModel(c)
		if md == nil || st.slots["lastline"] == nil || !mentions(c.args[0], st.slots["lastline"]) {
			return nil, false
		}
		outs := md(x, st, c)
		for _, o := range outs {
			if len(o.res) == 1 {
				o.st.slots["trimmed"] = lenOf(o.res[0])
			}
		}
		return outs, true
	case n == "os.Truncate" || n == "(*os.File).Truncate":
		a.ob(x, "C19.truncate", pos)
		name := a.field(st, "aofFilename")
		if n == "os.Truncate" && !st.equalTerms(c.args[0], name) {
			a.viol(x, st, "C19.truncate", pos, "another file than the log is truncated")
		}
		if a.end(st) != "torn" && !st.provesEqInt(c.args[1], st.ghost("done")) {
			a.viol(x, st, "C19.truncate", pos, "the log is truncated although it does not end inside a record")
		}
		if !st.provesEqInt(c.args[1], st.ghost("done")) {
			a.viol(x, st, "C19.truncate", pos, "the log is truncated to %v bytes but its complete records have %v", c.args[1], st.ghost("done"))
		}
		return x.errFork(st, c, func(s *State) []*Term { s.setSlot("cut", "1"); return nil }, func(s *State) []*Term { s.setSlot("cutfail", "1"); return nil }), true
	case n == "(*os.File).Close" || n == "(*os.File).Seek" || n == "(*os.File).Sync":
		return x.freshResults(st, c), true
	case n == "os.Open" || n == "os.OpenFile":
		outs := x.freshResults(st, c)
		outs[0].st.setSlot("open", "1")
		return outs, true
	}
	if c.fn == a.lookup {
		a.recordRead(x, st, pos)
		s2 := st.clone()
		cmd := nonNil(st, x.fresh(st, "cmd", c.sig.Results().At(0).Type()))
		st.slots["cmd"] = cmd
		st.setSlot("todo", "1")
		st.note("%s: a known command", x.p.pos(pos))
		s2.note("%s: an unknown command", x.p.pos(pos))
		return []Outcome{{st, []*Term{cmd}}, {s2, []*Term{tNil}}}, true
	}
	isProc := c.fn == nil && st.slots["cmd"] != nil && c.fnT != nil && c.fnT.op == "init" && c.fnT.args[0].op == "fld" && c.fnT.args[0].args[0] == st.slots["cmd"]
	if c.fn != nil && c.fn == a.proc {
		a.recordRead(x, st, pos)
		st.setSlot("todo", "1")
		isProc = true
	}
	if isProc {
		a.applied(x, st, c, pos)
		return x.freshResults(st, c), true
	}
	if c.fn != nil && inRepo(c.fn) && strings.HasPrefix(fnName(c.fn), "(*ae.EventLoop)") {
		return x.freshResults(st, c), true
	}
	if c.fn != nil && !inRepo(c.fn) && findModel(c) == nil {
		return x.freshResults(st, c), true
	}
	return nil, false
}

func (a *loadAn) field(st *State, name string) *Term {
	ty := a.p.fieldType("server", "Server", name)
	return st.load(fldOf("server.Server."+name, ty, a.env.srv), ty)
}

// number: a length has been read from the last line.
func (a *loadAn) number(x *Exec, st *State, n *Term, pos token.Pos) {
	line := st.slots["lastline"]
	if line == nil || st.slot("line") == "" {
		return
	}
	// a file shorter than 2^60 bytes announces no longer arguments and not more of them
	st.assumeGE(mkInt(1<<60), n)
	kind := a.prefix(x, st, line)
	switch kind {
	case '*':
		a.ob(x, "C18.order", pos)
		if st.slot("hdr") != "" {
			a.viol(x, st, "C18.order", pos, "the next record is read although the record before it has not been looked up")
		}
		if st.slot("todo") != "" {
			a.viol(x, st, "C18.order", pos, "the next record is read although the command before it has not been run")
			st.setSlot("todo", "")
		}
		st.setSlot("hdr", "1")
		st.setSlot("line", "*")
		st.slots["g:argc"] = n
		st.setGhost("cnt", tZero)
		st.setGhost("stored", tZero)
	case '$':
		for t := range st.gen {
			if t.op == "alloc" {
				st.setFact("old", true, t)
			}
		}
		st.setSlot("line", "$")
		st.slots["g:num"] = n
		st.setGhost("cnt", tAdd(st.ghost("cnt"), tOne))
	default:
		a.viol(x, st, "C18.framing", pos, "a length is taken from a line whose first byte has not been tested")
	}
}

// prefix: the first byte of the line, as established by the path.
func (a *loadAn) prefix(x *Exec, st *State, line *Term) byte {
	for _, ch := range []byte{'*', '$'} {
		for b, v := range st.bools {
			if v && b.op == "cmp" && b.aux == "ieq" && mentions(b, line) && a.firstIs(st, b, ch) {
				return ch
			}
		}
		for _, t := range a.firstBytes(x, st, line) {
			if st.provesEqInt(t, mkInt(int64(ch))) {
				return ch
			}
		}
	}
	return 0
}

func (a *loadAn) firstIs(st *State, b *Term, ch byte) bool { return false }

// firstBytes lists the terms that stand for the first byte of the line or of a part of it that starts there.
func (a *loadAn) firstBytes(x *Exec, st *State, line *Term) (out []*Term) {
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	var look func(t *Term)
	look = func(t *Term) {
		t.walk(func(u *Term) {
			if u.op == "app" && u.aux == "index" && len(u.args) == 2 && u.args[1] == tZero && mentions(u.args[0], line) {
				add(u)
			}
		})
	}
	for b := range st.bools {
		look(b)
	}
	for _, t := range st.linAtoms() {
		look(t)
	}
	if line.op == "slice" {
		for c, v := range st.mem {
			if c.op == "elem" && c.args[0] == line.args[0] && c.args[1] == tZero {
				add(v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// linAtoms lists the terms the arithmetic facts of the path speak about.
func (st *State) linAtoms() (out []*Term) {
	seen := map[*Term]bool{}
	for _, m := range []map[string]*Lin{st.lin.ge, st.lin.ne} {
		for _, l := range m {
			for _, a := range l.at {
				if !seen[a.t] {
					seen[a.t] = true
					out = append(out, a.t)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func mentions(t, u *Term) bool {
	hit := false
	key := u
	if u.op == "slice" {
		key = u.args[0]
	}
	t.walk(func(v *Term) {
		if v == key {
			hit = true
		}
	})
	return hit
}

// argText checks the text of an argument: exactly the announced bytes of a buffer that has been filled completely.
func (a *loadAn) argText(x *Exec, st *State, v *Term, pos token.Pos) {
	a.ob(x, "C18.argument", pos)
	n := st.slots["g:num"]
	if st.slot("line") != "$" || n == nil {
		a.viol(x, st, "C18.argument", pos, "an argument is stored before its length has been read")
		return
	}
	if v.op == "str" {
		if s, _ := v.strVal(); s == "" && st.provesEqInt(n, tZero) {
			st.setGhost("stored", tAdd(st.ghost("stored"), tOne))
			return
		}
	}
	if v.op != "b2s" {
		a.viol(x, st, "C18.argument", pos, "the text %v stored as argument is not the bytes read from the log", v)
		return
	}
	b, off, ln := x.sliceParts(v.args[0])
	if !st.hasFact("full", b) {
		a.viol(x, st, "C18.argument", pos, "the argument is taken from a buffer that a single read may have filled only in part")
	}
	if !st.provesEqInt(off, tZero) || !st.provesEqInt(ln, n) {
		a.viol(x, st, "C18.argument", pos, "the argument stored has %v bytes from offset %v of the data read, announced are %v", ln, off, n)
	}
	if st.hasFact("view", v) && st.hasFact("old", b) {
		a.viol(x, st, "C18.argument", pos, "the argument is a view of a buffer that is used again for the next argument")
	}
	st.setGhost("stored", tAdd(st.ghost("stored"), tOne))
}

func (a *loadAn) store(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
	if addr.op != "elem" || val.typ != nil && !isStringType(val.typ) || st.slot("hdr") == "" {
		return
	}
	if s, ok := in.(*ssa.Store); ok {
		if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
			if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
				return
			}
		}
	}
	if s, ok := in.(*ssa.Store); !ok || !isStringType(s.Val.Type()) {
		return
	}
	if st.slots["argsbase"] == nil || st.slots["argsbase"] != addr.args[0] {
		st.slots["argsbase"] = addr.args[0]
	}
	if !st.provesEqInt(addr.args[1], st.ghost("stored")) {
		a.viol(x, st, "C18.argument", in.Pos(), "argument number %v of a record is stored at position %v", st.ghost("stored"), addr.args[1])
	}
	a.argText(x, st, val, in.Pos())
}

func (a *loadAn) append(x *Exec, st *State, base, added, result *Term, in ssa.Instruction) {
	if st.slot("hdr") == "" || st.slot("line") != "$" {
		return
	}
	call, ok := in.(*ssa.Call)
	if !ok || !isStringSlice(call.Type()) {
		return
	}
	b, off, ln := x.sliceParts(added)
	if v, ok := ln.intVal(); ok && v == 1 {
		st.slots["argsbase"], _, _ = x.sliceParts(result)
		a.argText(x, st, st.load(mkFull("elem", "", stringType, nil, nil, b, off), stringType), in.Pos())
	}
}

// recordRead: all parts of a record have been read.
func (a *loadAn) recordRead(x *Exec, st *State, pos token.Pos) {
	a.bodyDone(x, st, pos, false)
	a.ob(x, "C18.complete", pos)
	argc := st.slots["g:argc"]
	if st.slot("hdr") == "" || argc == nil {
		a.viol(x, st, "C18.complete", pos, "a command is looked up before a record has been read")
		return
	}
	if a.end(st) == "torn" {
		a.viol(x, st, "C19.torn", pos, "an incomplete record is run as a command")
	}
	if !st.provesEqInt(st.ghost("cnt"), argc) || !st.provesEqInt(st.ghost("stored"), argc) {
		a.viol(x, st, "C18.complete", pos, "a command is looked up when %v of %v arguments have been read and %v stored", st.ghost("cnt"), argc, st.ghost("stored"))
	}
	if st.slot("todo") != "" {
		a.viol(x, st, "C18.order", pos, "the next command is looked up although the one before it has not been run")
	}
	st.setGhost("done", tAdd(st.ghost("done"), st.ghost("rec")))
	st.setGhost("rec", tZero)
	st.setGhost("body", tZero)
	st.setSlot("line", "")
	st.setSlot("hdr", "")
}

// loadingFields: the boolean fields of the server that the loader sets and the commands read.
func (a *loadAn) loadingFields() (out []string) {
	seen := map[string]bool{}
	for f := range a.p.reach([]*ssa.Function{a.root}, map[*ssa.Function]bool{a.proc: true}) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Val.Type().Underlying() == types.Typ[types.Bool] {
					if n := fieldName(s.Addr); strings.HasPrefix(n, "server.Server.") {
						seen[strings.TrimPrefix(n, "server.Server.")] = true
					}
				}
			}
		}
	}
	for n := range seen {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// replaying: a command is run on behalf of a client without a connection, while the server is marked as replaying.
func (a *loadAn) replaying(x *Exec, st *State, c *Call, pos token.Pos) {
	a.ob(x, "C37.loading", pos)
	for _, n := range a.loadingFields() {
		if st.eval(st.load(fldOf("server.Server."+n, boolType, a.env.srv), boolType)) != 1 {
			a.viol(x, st, "C37.loading", pos, "a command of the log is run while the server is not marked as replaying its log (%s): keys may expire in the middle of the replay", n)
		}
	}
	if len(c.args) == 0 {
		return
	}
	a.ob(x, "C37.fake", pos)
	if fd := a.p.fieldType("server", "Client", "fd"); fd != nil {
		if v := st.load(fldOf("server.Client.fd", fd, c.args[0]), fd); !st.provesGE(mkInt(-1), v) {
			a.viol(x, st, "C37.fake", pos, "a command of the log is run for a client with the descriptor %v: its replies go to whatever has this number", v)
		}
	}
}

// applied: a command of the log is run.
func (a *loadAn) applied(x *Exec, st *State, c *Call, pos token.Pos) {
	a.replaying(x, st, c, pos)
	a.ob(x, "C18.apply", pos)
	if st.slot("todo") == "" {
		a.viol(x, st, "C18.apply", pos, "a command of the log is run twice")
	}
	st.setSlot("todo", "")
	delete(st.slots, "cmd")
	if len(c.args) == 0 {
		return
	}
	cl := c.args[0]
	ty := a.p.fieldType("server", "Client", "args")
	args := st.load(fldOf("server.Client.args", ty, cl), ty)
	b, off, ln := x.sliceParts(args)
	argc := st.slots["g:argc"]
	// arguments collected in a loop are known by their number only
	if b != st.slots["argsbase"] && args.op != "sym" || !st.provesEqInt(off, tZero) || argc == nil || !st.provesEqInt(ln, argc) {
		a.viol(x, st, "C18.apply", pos, "the command is run with %v instead of the %v arguments read from the log", args, argc)
	}
}

// ret: the loader has returned.
func (a *loadAn) ret(x *Exec, st *State, res []*Term) {
	pos := a.root.Pos()
	if st.slot("stream") == "" {
		return
	}
	if len(res) > 0 && st.evalNil(res[len(res)-1]) != 1 && isErrorType(a.root.Signature.Results().At(len(res)-1).Type()) {
		a.refuse(x, st, "an error", nil)
		return
	}
	for _, n := range a.loadingFields() {
		a.ob(x, "C37.loading", pos)
		if st.eval(st.load(fldOf("server.Server."+n, boolType, a.env.srv), boolType)) != 0 {
			a.viol(x, st, "C37.loading", pos, "the server is still marked as replaying its log (%s) when the replay has ended: what expires from now on is not recorded", n)
		}
	}
	a.ob(x, "C19.end", pos)
	if st.slot("todo") != "" {
		a.viol(x, st, "C18.order", pos, "the last command of the log is not run")
	}
	switch a.end(st) {
	case "clean":
	case "torn":
		if st.slot("cut") == "" {
			a.viol(x, st, "C19.truncate", pos, "the log ends inside a record and the incomplete part is not removed: what is appended later cannot be read back")
		}
	case "error":
		a.viol(x, st, "C19.refuse", pos, "loading ends as if it were complete although the log could not be read")
	default:
		a.viol(x, st, "C19.refuse", pos, "loading ends before the end of the log without a complaint")
	}
}

// refuse: the server gives up loading the log.
func (a *loadAn) refuse(x *Exec, st *State, what string, in ssa.Instruction) {
	pos := a.root.Pos()
	if in != nil {
		pos = in.Pos()
	}
	if st.slot("stream") == "" {
		return
	}
	a.ob(x, "C19.accept", pos)
	switch a.end(st) {
	case "clean":
		a.viol(x, st, "C19.accept", pos, "the server does not start with a log that ends between two records")
		return
	case "torn":
		if st.slot("cutfail") == "" {
			a.viol(x, st, "C19.accept", pos, "the server does not start with a log that ends inside a record")
		}
		return
	case "error":
		return
	}
	if a.malformed(x, st) {
		return
	}
	a.viol(x, st, "C18.accept", pos, "the server does not start although the path has not found anything wrong with the log")
	a.viol(x, st, "C19.accept", pos, "the server does not start although the path has not found anything wrong with the log")
}

// malformed: the path has established that the log has a form that is never written.
func (a *loadAn) malformed(x *Exec, st *State) bool {
	if st.slot("bad") != "" {
		return true
	}
	if line := st.slots["lastline"]; line != nil && st.slot("line") == "?" {
		// the first byte of the line is not the expected one, or the line is empty
		for _, t := range a.firstBytes(x, st, line) {
			for _, ch := range []int64{'*', '$'} {
				if st.eval(mkCmp("ieq", t, mkInt(ch))) == 0 {
					return true
				}
			}
		}
		for b, v := range st.bools {
			if !mentions(b, line) {
				continue
			}
			if v && b.op == "cmp" && b.aux == "eq" && (b.args[0] == mkStr("") || b.args[1] == mkStr("")) {
				return true
			}
			if b.op == "app" && strings.HasPrefix(b.aux, "strings.HasPrefix") && !v {
				return true
			}
		}
		lens := []*Term{lenOf(line)}
		if t := st.slots["trimmed"]; t != nil {
			lens = append(lens, t)
		}
		for _, t := range st.linAtoms() {
			if mentions(t, line) && t.op == "len" {
				lens = append(lens, t)
			}
		}
		for _, t := range lens {
			if st.provesEqInt(t, tZero) {
				return true
			}
		}
	}
	big := mkInt(512 << 20)
	if n := st.slots["g:num"]; n != nil && st.slot("line") == "$" {
		if st.provesGE(mkInt(-1), n) || st.provesGE(n, tAdd(big, tOne)) {
			return true
		}
		if lb := st.slots["lastbuf"]; lb != nil && st.provesGE(st.ghost("body"), tOne) {
			// the bytes behind the argument are not a line break
			for c, v := range st.mem {
				if c.op == "elem" && c.args[0] == lb.args[0] && st.provesGE(c.args[1], n) {
					for _, ch := range []int64{'\r', '\n'} {
						if st.eval(mkCmp("ieq", v, mkInt(ch))) == 0 {
							return true
						}
					}
				}
			}
		}
	}
	if n := st.slots["g:argc"]; n != nil && st.slot("hdr") != "" && st.slot("line") == "*" {
		if st.provesGE(tZero, n) || st.provesGE(n, mkInt(1024*1024+1)) {
			return true
		}
	}
	return false
}

// sb: the loader does not write to the log what it reads from it.
func (a *loadAn) sb(x *Exec, st *State, sb, added *Term, c *Call) {
	if sb.op == "fld" && strings.HasPrefix(sb.aux, "server.Server.") && len(sb.args) == 1 && sb.args[0] == a.env.srv {
		a.ob(x, "C37.nolog", c.instr.Pos())
		a.viol(x, st, "C37.nolog", c.instr.Pos(), "the replay appends to the log (%s): it grows with every start", sb.aux)
	}
}
