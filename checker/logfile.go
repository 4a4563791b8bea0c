package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The append-only file: the function run before each wait, the timers, the commands and goroutines that take part in
// a rewrite, and the life of the server (Run) are explored with the files as abstract objects: what has been written,
// what is not yet forced to disk, what has failed, what is closed.

type fileAn struct {
	p    *Prog
	r    *Report
	prop string
	kind string // sleep, time, launch, rewriter, sync, run
	srv  *Term

	file0    *Term // the log file at the start
	buf0     *Term // content of the buffer at the start
	rw0      *Term // content of the rewrite buffer at the start
	unsynced bool  // the log holds data at the start that has not been forced to disk
	flag     string
	policy   string
	noneRW   bool  // invariant assumed: while no rewrite runs its buffer is empty
	state0   int64 // state of the background work at the start
	rwSynced bool  // the rewriting goroutine forces its file to disk itself
	times    map[string]bool
	relevant map[*ssa.Function]bool

	// the life of the server
	loaders  map[*ssa.Function]bool
	done     map[string]bool // channels that tell that the server has stopped
	stoppers map[*ssa.Function]bool
	normal   int64 // the mask of periodic timers
}

func (a *fileAn) viol(x *Exec, st *State, rule string, pos token.Pos, format string, args ...any) {
	if strings.HasPrefix(rule, a.prop+".") {
		x.violate(st, rule, pathFn(st), pos, format, args...)
	}
}

func (a *fileAn) ob(x *Exec, rule string, pos token.Pos) {
	if strings.HasPrefix(rule, a.prop+".") {
		a.r.oblig(rule, x.p.pos(pos)+" from "+x.entry)
	}
}

// serverField finds a field of Server by name.
func (a *fileAn) field(st *State, name string) *Term {
	t := a.p.fieldType("server", "Server", name)
	if t == nil {
		return nil
	}
	return st.load(fldOf("server.Server."+name, t, a.srv), t)
}

func (a *fileAn) addr(name string) *Term {
	return fldOf("server.Server."+name, a.p.fieldType("server", "Server", name), a.srv)
}

func (a *fileAn) text(st *State, name string) *Term {
	return st.load(sbCell(a.addr(name)), stringType)
}

func fileCell(f *Term, name string, typ types.Type) *Term {
	return mkFull("fld", "file."+name, typ, nil, nil, f)
}

func fget(st *State, f *Term, name string, typ types.Type) *Term {
	if v := st.mem[fileCell(f, name, typ)]; v != nil {
		return v
	}
	if name == "out" {
		return mkStr("")
	}
	return tFalse
}

func fset(st *State, f *Term, name string, typ types.Type, v *Term) {
	st.mem[fileCell(f, name, typ)] = v
}

// fis: the flag of the file may be set.
func fis(st *State, f *Term, name string) bool { return st.eval(fget(st, f, name, boolType)) != 0 }

// newFile is a file opened on the path.
func (a *fileAn) newFile(x *Exec, st *State, name *Term, typ types.Type, appendTo, dirty bool) *Term {
	f := x.freshTerm(st, mkFull("alloc", x.siteName(st, "file"), typ, nil, nil))
	st.assume(mkCmp("eq", f, tNil), false)
	fset(st, f, "out", stringType, mkStr(""))
	fset(st, f, "dirty", boolType, mkBool(dirty))
	fset(st, f, "failed", boolType, tFalse)
	fset(st, f, "closed", boolType, tFalse)
	fset(st, f, "name", stringType, name)
	fset(st, f, "append", boolType, mkBool(appendTo))
	return f
}

// files lists the files the path has opened.
func (a *fileAn) files(st *State) (out []*Term) {
	for c := range st.mem {
		if c.op == "fld" && c.aux == "file.name" {
			out = append(out, c.args[0])
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return
}

func (a *fileAn) isLogName(st *State, n *Term) bool {
	return st.equalTerms(n, a.field(st, "aofFilename"))
}

func (a *fileAn) isLog(st *State, f *Term) bool {
	return f == a.file0 || st.equalTerms(f, a.field(st, "aofFile"))
}

func textOf(x *Exec, v *Term) *Term {
	if v.op == "bytes" {
		return v.args[0]
	}
	if v.op == "slice" {
		if b := v.args[0]; b.op == "bytes" || b.op == "arr" && len(b.args) > 0 && b.args[0].op == "bytes" {
			return b.args[0]
		}
	}
	if v.typ != nil && isStringType(v.typ) || v.op == "str" || v.op == "concat" {
		return v
	}
	return mkFull("b2s", "", stringType, nil, nil, v)
}

func sameText(st *State, a, b *Term) bool {
	if a == b || st.equalTerms(a, b) {
		return true
	}
	return emptyText(st, a) && emptyText(st, b) || mkConcat(a, mkStr("")) == mkConcat(b, mkStr(""))
}

func emptyText(st *State, t *Term) bool {
	if s, ok := t.strVal(); ok {
		return s == ""
	}
	if t.op == "concat" {
		for _, u := range t.args {
			if !emptyText(st, u) {
				return false
			}
		}
		return true
	}
	return st.provesEqInt(lenOf(t), tZero) || st.eval(mkCmp("eq", t, mkStr(""))) == 1
}

// dropEmpty removes the parts of a text that are established to be empty.
func dropEmpty(st *State, t *Term) *Term {
	if t.op != "concat" {
		if emptyText(st, t) {
			return mkStr("")
		}
		return t
	}
	var out []*Term
	for _, u := range t.args {
		if !emptyText(st, u) {
			out = append(out, u)
		}
	}
	return mkConcat(out...)
}

func (a *fileAn) hooks() *Hooks {
	return &Hooks{Call: a.call, Return: a.ret, Go: a.goStmt, Received: a.received, Send: a.send, Atomic: a.atomic, SB: a.sb, Store: a.store, Canon: a.canon}
}

var fileLib = []string{"(*os.File).", "os.", "(*bufio.Writer).", "bufio.NewWriter", "io.WriteString", "syscall.", "io/ioutil."}

// isRelevant: the function takes part in what is analysed here; others are treated as having no effect on it.
func (a *fileAn) isRelevant(f *ssa.Function) bool {
	if v, ok := a.relevant[f]; ok {
		return v
	}
	a.relevant[f] = false
	rel := false
	for g := range a.p.reach([]*ssa.Function{f}, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if a.relevantInstr(in) {
					rel = true
				}
			}
		}
	}
	a.relevant[f] = rel
	return rel
}

func (a *fileAn) relevantInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Go, *ssa.Send, *ssa.Select:
		return true
	case *ssa.UnOp:
		return in.Op == token.ARROW
	case *ssa.Store:
		if n := fieldName(in.Addr); strings.HasPrefix(n, "server.Server.") {
			return true
		}
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := ci.Common()
	if g, ok := cc.Value.(*ssa.UnOp); ok {
		if gl, ok := g.X.(*ssa.Global); ok && (gl.Name() == "Fatal" || gl.Name() == "Panic") {
			return true
		}
	}
	g := cc.StaticCallee()
	if g == nil || inRepo(g) {
		return false
	}
	n := fnName(g)
	for _, l := range fileLib {
		if strings.HasPrefix(n, l) {
			return true
		}
	}
	if strings.HasPrefix(n, "(*sync/atomic.") || noReturn[n] {
		return true
	}
	if (strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "(*bytes.Buffer).")) && len(cc.Args) > 0 {
		if strings.HasPrefix(fieldName(cc.Args[0]), "server.Server.") {
			return true
		}
		if _, local := cc.Args[0].(*ssa.Alloc); !local {
			return true
		}
	}
	return false
}

func (a *fileAn) call(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	if o, ok := a.fileCall(x, st, c); ok {
		return o, true
	}
	if c.fn != nil && inRepo(c.fn) && c.fn.Blocks != nil {
		if a.kind == "run" {
			if o, ok := a.runCall(x, st, c); ok {
				return o, true
			}
		}
		if !a.isRelevant(c.fn) && !(a.kind == "run" && a.p.setsUp(c.fn)) {
			return x.freshResults(st, c), true
		}
		return nil, false
	}
	if c.fn != nil && !inRepo(c.fn) && findModel(c) == nil {
		return x.freshResults(st, c), true
	}
	return nil, false
}

func (a *fileAn) fork(x *Exec, st *State, c *Call, ok, fail func(*State) []*Term) []Outcome {
	return x.errFork(st, c, ok, fail)
}

func (a *fileAn) fileCall(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	pos := c.instr.Pos()
	resT := func(i int) types.Type { return c.sig.Results().At(i).Type() }
	none := func(s *State) []*Term { return nil }
	nilRes := func(s *State) []*Term { return []*Term{tNil} }
	for _, n := range sendCalls {
		if c.name == n && a.kind == "sleep" {
			a.flushed(x, st, pos, "C16.write", "replies are sent")
			if a.policy == "always" && a.isDirty(st) {
				a.viol(x, st, "C16.sync", pos, "with the policy 'always' replies are sent although what was written to the log has not been forced to disk")
			}
		}
	}
	switch c.name {
	case "os.OpenFile", "os.Create", "os.Open":
		flags := int64(0)
		known := true
		switch c.name {
		case "os.OpenFile":
			flags, known = c.args[1].intVal()
		case "os.Create":
			flags = 0x242
		}
		if a.isLogName(st, c.args[0]) && (!known || flags&0x200 != 0) {
			a.ob(x, "C21.atomic", pos)
			a.viol(x, st, "C21.atomic", pos, "the log is emptied while it is in use")
		}
		if a.kind == "run" && c.name == "os.Open" && a.isLogName(st, c.args[0]) {
			st.setSlot("opened", "1")
		}
		return a.fork(x, st, c, func(s *State) []*Term {
			// a file written by the rewriting goroutine may not be on disk yet
			return []*Term{a.newFile(x, s, c.args[0], resT(0), known && flags&0x400 != 0, !a.rwSynced)}
		}, nilRes), true
	case "os.CreateTemp", "io/ioutil.TempFile":
		a.ob(x, "C21.temp", pos)
		if a.kind == "rewriter" {
			d := c.args[0]
			if !(d.op == "app" && strings.HasSuffix(d.aux, "filepath.Dir") && a.isLogName(st, d.args[0])) {
				a.viol(x, st, "C21.temp", pos, "the new log is created in %v, not in the directory of the log: it may not be possible to rename it atomically", d)
			}
		}
		return a.fork(x, st, c, func(s *State) []*Term {
			n := x.fresh(s, "tempname", stringType)
			f := a.newFile(x, s, n, resT(0), true, true)
			s.slots["g:temp"] = f
			return []*Term{f}
		}, nilRes), true
	case "(*os.File).Name":
		f := c.args[0]
		if v := st.mem[fileCell(f, "name", stringType)]; v != nil {
			return one(st, v), true
		}
		return one(st, mkFull("app", "filename", stringType, nil, nil, f)), true
	case "(*os.File).WriteString", "(*os.File).Write", "io.WriteString", "fmt.Fprint":
		f := c.args[0]
		v := c.args[1]
		if f.op == "iface" {
			f = f.args[0]
		}
		if c.name == "io.WriteString" && f.op == "app" && strings.HasPrefix(f.aux, "bufio.w") {
			return a.bufWrite(x, st, c, f, textOf(x, v)), true
		}
		if c.name == "fmt.Fprint" {
			es, ok := x.variadicElems(st, v)
			if !ok || len(es) != 1 {
				return nil, false
			}
			v = es[0]
			if v.op == "iface" {
				v = v.args[0]
			}
		}
		return a.write(x, st, c, f, textOf(x, v)), true
	case "bufio.NewWriter", "bufio.NewWriterSize":
		f := c.args[0]
		if f.op == "iface" {
			f = f.args[0]
		}
		w := x.freshTerm(st, mkFull("app", "bufio.w@"+x.siteName(st, "bufw"), c.sig.Results().At(0).Type(), nil, nil, f))
		st.assume(mkCmp("eq", w, tNil), false)
		fset(st, w, "pending", stringType, mkStr(""))
		st.setFact("bufw", true, w, f)
		return one(st, w), true
	case "(*bufio.Writer).WriteString", "(*bufio.Writer).Write":
		return a.bufWrite(x, st, c, c.args[0], textOf(x, c.args[1])), true
	case "(*bufio.Writer).Flush":
		w := c.args[0]
		if w.op != "app" || len(w.args) != 1 {
			return nil, false
		}
		f := w.args[0]
		return a.fork(x, st, c, func(s *State) []*Term {
			a.appendOut(s, f, s.mem[fileCell(w, "pending", stringType)])
			fset(s, w, "pending", stringType, mkStr(""))
			return nil
		}, func(s *State) []*Term { fset(s, f, "failed", boolType, tTrue); return nil }), true
	case "(*os.File).Sync":
		f := c.args[0]
		if a.kind == "sleep" && a.isLog(st, f) {
			a.ob(x, "C17.no", pos)
			if a.policy == "no" {
				a.viol(x, st, "C17.no", pos, "the log is forced to disk on the command path although the policy is 'no'")
			}
		}
		if a.kind == "sync" {
			st.setSlot("synced", "1")
		}
		return a.fork(x, st, c, func(s *State) []*Term {
			fset(s, f, "dirty", boolType, tFalse)
			return nil
		}, func(s *State) []*Term {
			fset(s, f, "syncfail", boolType, tTrue)
			return nil
		}), true
	case "(*os.File).Close":
		f := c.args[0]
		if a.kind == "run" && a.isLog(st, f) && st.slot("main") == "" {
			a.ob(x, "C40.close", pos)
			st.setSlot("early", "1")
		}
		return a.fork(x, st, c, func(s *State) []*Term { fset(s, f, "closed", boolType, tTrue); return nil },
			func(s *State) []*Term { fset(s, f, "closed", boolType, tTrue); return nil }), true
	case "(*os.File).Seek", "(*os.File).Stat":
		return x.freshResults(st, c), true
	case "(*os.File).Truncate":
		if a.isLog(st, c.args[0]) {
			a.ob(x, "C21.atomic", pos)
			a.viol(x, st, "C21.atomic", pos, "the log in use is cut")
		}
		return a.fork(x, st, c, none, none), true
	case "os.Rename":
		return a.rename(x, st, c), true
	case "os.Remove", "os.RemoveAll", "os.Truncate", "os.WriteFile":
		a.ob(x, "C21.atomic", pos)
		if a.isLogName(st, c.args[0]) && a.kind != "run" {
			a.viol(x, st, "C21.atomic", pos, "the log is removed or emptied: until the new one is in its place there is no complete log")
		}
		if t := st.slots["g:temp"]; t != nil && a.kind == "rewriter" && st.equalTerms(c.args[0], fget(st, t, "name", stringType)) {
			fset(st, t, "removed", boolType, tTrue)
		}
		if n := st.slots["g:tmpname"]; n != nil && st.equalTerms(c.args[0], n) && st.slot("renamed") == "" {
			st.setSlot("tempgone", "1")
		}
		return a.fork(x, st, c, none, none), true
	case "os.Link", "os.Symlink":
		return a.fork(x, st, c, none, none), true
	case "path/filepath.Dir", "path/filepath.Base", "path.Dir":
		return one(st, mkFull("app", strings.Replace(c.name, "path/filepath", "filepath", 1), stringType, nil, nil, c.args...)), true
	}
	return nil, false
}

// canon forgets deferred calls that have no effect on the files, and what the state cannot reach.
func (a *fileAn) canon(x *Exec, st *State) {
	for _, f := range st.frames {
		var keep []deferred
		for _, d := range f.defers {
			if d.cal != nil && inRepo(d.cal) && !a.isRelevant(d.cal) {
				continue
			}
			keep = append(keep, d)
		}
		f.defers = keep
	}
	// what is fed in a loop belongs to the data pending before it
	if buf := a.text(st, "aofBuf"); emptyText(st, fget(st, a.file0, "out", stringType)) && sameText(st, buf, mkConcat(st.slots["g:buf0"], slotText(st, "g:fed"))) {
		st.slots["g:buf0"] = buf
		delete(st.slots, "g:fed")
	}
	if rw := a.text(st, "aofRewriteBuf"); sameText(st, rw, mkConcat(st.slots["g:rw0"], slotText(st, "g:rwfed"))) {
		st.slots["g:rw0"] = rw
		delete(st.slots, "g:rwfed")
	}
	collect(x, st)
}

func (a *fileAn) appendOut(st *State, f, t *Term) {
	if a.kind == "rewriter" {
		t = sym("written", stringType)
		fset(st, f, "out", stringType, mkStr(""))
	}
	v := mkConcat(fget(st, f, "out", stringType), t)
	fset(st, f, "out", stringType, v)
	fset(st, f, "dirty", boolType, tTrue)
}

func (a *fileAn) write(x *Exec, st *State, c *Call, f, t *Term) []Outcome {
	pos := c.instr.Pos()
	if st.slot("sent") != "" {
		a.ob(x, "C21.finished", pos)
		a.viol(x, st, "C21.finished", pos, "the rewritten log is written after its name has been delivered: it may be installed incomplete")
	}
	if fis(st, f, "closed") {
		a.ob(x, "C21.use", pos)
		a.viol(x, st, "C21.use", pos, "a closed file is written")
	}
	if v := st.mem[fileCell(f, "append", boolType)]; v == tFalse {
		a.ob(x, "C21.append", pos)
		a.viol(x, st, "C21.append", pos, "a file that already has contents is written from its beginning: it has not been opened for appending")
	}
	return a.fork(x, st, c, func(s *State) []*Term {
		a.appendOut(s, f, t)
		return []*Term{lenOf(t)}
	}, func(s *State) []*Term {
		fset(s, f, "failed", boolType, tTrue)
		n := x.fresh(s, "written", intType)
		s.assumeGE(n, tZero)
		return []*Term{n}
	})
}

func (a *fileAn) bufWrite(x *Exec, st *State, c *Call, w, t *Term) []Outcome {
	cell := fileCell(w, "pending", stringType)
	old := st.mem[cell]
	if old == nil || w.op != "app" || len(w.args) != 1 {
		return x.freshResults(st, c)
	}
	return a.fork(x, st, c, func(s *State) []*Term {
		s.mem[cell] = mkConcat(old, t)
		return []*Term{lenOf(t)}
	}, func(s *State) []*Term {
		fset(s, w.args[0], "failed", boolType, tTrue)
		return []*Term{x.fresh(s, "written", intType)}
	})
}

func (a *fileAn) rename(x *Exec, st *State, c *Call) []Outcome {
	pos := c.instr.Pos()
	from, to := c.args[0], c.args[1]
	a.ob(x, "C21.atomic", pos)
	if a.isLogName(st, from) {
		a.viol(x, st, "C21.atomic", pos, "the log is moved away before the new one has taken its name")
	}
	none := func(s *State) []*Term { return nil }
	if !a.isLogName(st, to) {
		return a.fork(x, st, c, none, none)
	}
	var n *Term
	for _, f := range a.files(st) {
		if f != a.file0 && st.equalTerms(fget(st, f, "name", stringType), from) {
			n = f
		}
	}
	if rn := st.slots["g:tmpname"]; rn == nil || !st.equalTerms(rn, from) {
		a.viol(x, st, "C21.atomic", pos, "a file that is not the finished result of a rewrite takes the log's name")
	}
	a.ob(x, "C21.complete", pos)
	want := mkConcat(st.slots["g:rw0"], slotText(st, "g:rwfed"))
	switch {
	case n == nil:
		if !emptyText(st, want) {
			a.viol(x, st, "C21.complete", pos, "the new log takes the log's name without the changes made during the rewrite")
			for _, rule := range []string{"C22.kept"} {
				a.viol(x, st, rule, pos, "the new log takes the log's name without the changes made during the rewrite")
			}
		}
		if !a.rwSynced {
			a.viol(x, st, "C21.sync", pos, "the new log takes the log's name before it has been forced to disk")
		}
	default:
		out := fget(st, n, "out", stringType)
		if !sameText(st, dropEmpty(st, out), dropEmpty(st, want)) {
			for _, rule := range []string{"C21.complete", "C22.kept"} {
				a.ob(x, rule, pos)
				a.viol(x, st, rule, pos, "when the new log takes the log's name %v has been appended to it instead of the changes made during the rewrite (%v)", out, want)
			}
		}
		if fis(st, n, "failed") {
			a.viol(x, st, "C21.complete", pos, "the new log takes the log's name although writing to it has failed")
		}
		a.ob(x, "C21.sync", pos)
		if fis(st, n, "dirty") || fis(st, n, "syncfail") {
			a.viol(x, st, "C21.sync", pos, "the new log takes the log's name before it has been forced to disk")
		}
		for w, v := range st.mem {
			if w.op == "fld" && w.aux == "file.pending" && w.args[0].args[0] == n && !emptyText(st, v) {
				a.viol(x, st, "C21.complete", pos, "the new log takes the log's name while part of it is still buffered")
			}
		}
	}
	a.ob(x, "C22.kept", pos)
	return a.fork(x, st, c, func(s *State) []*Term {
		s.setSlot("renamed", "1")
		s.slots["g:want"] = want
		if n != nil {
			s.slots["g:new"] = n
		}
		return nil
	}, none)
}

func (a *fileAn) stateCell() (*Term, types.Type) {
	t := a.p.fieldType("server", "Server", "backgroundTaskTypeAtomic")
	if t == nil {
		return nil, nil
	}
	u := types.Typ[types.Uint32]
	return mkFull("fld", "atomic.v", u, nil, nil, a.addr("backgroundTaskTypeAtomic")), u
}

func (a *fileAn) stateIs(st *State, k int64) int {
	c, t := a.stateCell()
	return st.eval(mkCmp("ieq", st.load(c, t), mkInt(k)))
}

var (
	taskNone    int64 = 0
	taskRewrite int64 = 2
)

func (a *fileAn) atomic(x *Exec, st *State, op string, c *Call) []Outcome {
	cell, t := a.stateCell()
	if cell == nil || c.args[0] != cell.args[0] {
		return nil
	}
	pos := c.instr.Pos()
	site := mk("site", x.siteName(st, "atomic"))
	set := func(s *State, v *Term) {
		k, ok := v.intVal()
		a.ob(x, "C24.state", pos)
		if !ok {
			a.viol(x, s, "C24.state", pos, "the state of the background work is set to %v", v)
		}
		if k == taskNone {
			if s.slot("claimed") != "" && s.slot("launched") == "" {
				s.setSlot("claimed", "")
			} else if s.slot("received") == "" && a.stateIs(s, taskNone) != 1 {
				a.viol(x, s, "C24.state", pos, "a new rewrite is allowed on a path on which the running one has not delivered its result")
			}
			if s.slot("launched") != "" && s.slot("received") == "" {
				a.viol(x, s, "C24.state", pos, "a new rewrite is allowed while the one just started runs")
			}
		} else {
			if a.stateIs(s, taskNone) != 1 {
				a.viol(x, s, "C24.state", pos, "a rewrite is announced on a path that has not established that none is running")
			}
			s.setSlot("claimed", "1")
		}
		s.store(cell, v, site)
	}
	switch op {
	case "Store":
		set(st, c.args[1])
		return one(st)
	case "CompareAndSwap":
		cur := st.load(cell, t)
		return fork2(st, mkCmp("ieq", cur, c.args[1]), func(s *State) []Outcome {
			set(s, c.args[2])
			return one(s, tTrue)
		}, func(s *State) []Outcome { return one(s, tFalse) })
	}
	return nil
}

// rewriteFns: the functions started as goroutines that deliver the name of a rewritten log.
func (p *Prog) goTargets() map[*ssa.Function][]*ssa.Go {
	out := map[*ssa.Function][]*ssa.Go{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					for _, t := range p.callTargets(g) {
						out[t] = append(out[t], g)
					}
				}
			}
		}
	}
	return out
}

func (p *Prog) isRewriter(f *ssa.Function) bool {
	sends := false
	for g := range p.reach([]*ssa.Function{f}, nil) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Send); ok && shortType(s.X.Type()) == "string" {
					sends = true
				}
			}
		}
	}
	return sends && p.reaches(f, "os.CreateTemp", "os.Create", "os.OpenFile")
}

func (a *fileAn) goStmt(x *Exec, st *State, c *Call) {
	pos := c.instr.Pos()
	if c.fn == nil {
		return
	}
	if a.p.isRewriter(c.fn) {
		a.ob(x, "C24.one", pos)
		if st.slot("claimed") == "" {
			a.viol(x, st, "C24.one", pos, "a rewrite is started on a path that has not announced it: two may run at the same time")
		}
		if st.slot("launched") != "" {
			a.viol(x, st, "C24.one", pos, "a path starts two rewrites")
		}
		st.setSlot("launched", "1")
		a.ob(x, "C24.off", pos)
		size := a.field(st, "aofCurrentSize")
		if st.eval(a.field(st, "aofEnable")) != 1 && st.evalNil(a.file0) != 0 && (size == nil || !st.provesGE(size, tOne)) {
			a.viol(x, st, "C24.off", pos, "a rewrite is started on a path that has not established that a log is in use")
		}
		a.ob(x, "C22.clean", pos)
		rw := a.text(st, "aofRewriteBuf")
		if !emptyText(st, rw) {
			a.viol(x, st, "C22.clean", pos, "a rewrite starts with %v left from before in its buffer", rw)
		}
		return
	}
	if a.p.reaches(c.fn, "(*os.File).Sync") && !a.p.reaches(c.fn, "syscall.EpollWait") {
		f := a.field(st, "aofFile")
		ok := false
		see := func(t *Term) {
			if t == nil {
				return
			}
			if t == f || st.mem[t] == f {
				ok = true
			}
		}
		for _, t := range c.args {
			see(t)
		}
		if c.fnT != nil {
			for _, t := range c.fnT.args {
				see(t)
			}
		}
		a.ob(x, "C17.file", pos)
		if ok {
			fset(st, f, "dirty", boolType, tFalse)
			if a.policy == "no" {
				a.viol(x, st, "C17.no", pos, "the log is forced to disk although the policy is 'no'")
			}
			if a.policy == "always" {
				fset(st, f, "dirty", boolType, tTrue) // not before the acknowledgement
			}
		}
	}
}

func (a *fileAn) received(x *Exec, st *State, ch, v *Term, in ssa.Instruction) {
	if !st.equalTerms(ch, a.field(st, "aofRewriteDoneCh")) {
		return
	}
	st.setSlot("received", "1")
	st.slots["g:tmpname"] = v
	// a result is delivered only while a rewrite runs (rules C24.state, C24.send)
	if a.state0 != taskRewrite && st.slot("launched") == "" {
		st.setSlot("impossible", "1")
	}
}

func (a *fileAn) send(x *Exec, st *State, ch, v *Term, in ssa.Instruction) {
	if a.kind != "rewriter" || !st.equalTerms(ch, a.field(st, "aofRewriteDoneCh")) {
		return
	}
	pos := in.Pos()
	if n := st.slot("sent"); len(n) < 2 {
		st.setSlot("sent", n+"x")
	}
	a.ob(x, "C21.finished", pos)
	t := st.slots["g:temp"]
	if t == nil || !st.equalTerms(v, fget(st, t, "name", stringType)) {
		a.viol(x, st, "C21.finished", pos, "the name delivered (%v) is not that of the file written", v)
		return
	}
	if fis(st, t, "failed") {
		a.viol(x, st, "C21.finished", pos, "the rewritten log is delivered although writing to it has failed")
	}
	for w, p := range st.mem {
		if w.op == "fld" && w.aux == "file.pending" && w.args[0].op == "app" && w.args[0].args[0] == t && !emptyText(st, p) {
			a.viol(x, st, "C21.finished", pos, "the rewritten log is delivered while part of it is still buffered")
		}
	}
	if fis(st, t, "removed") {
		a.viol(x, st, "C21.finished", pos, "the rewritten log is delivered although it has been removed")
	}
	st.slots["g:sentdirty"] = mkBool(fis(st, t, "dirty") || fis(st, t, "syncfail"))
}

// sb: what is fed while the path runs belongs to the pending data.
func (a *fileAn) sb(x *Exec, st *State, sb, added *Term, c *Call) {
	if sb == a.addr("aofBuf") {
		fed := st.slots["g:fed"]
		if fed == nil {
			fed = mkStr("")
		}
		st.slots["g:fed"] = mkConcat(fed, added)
	}
	if sb == a.addr("aofRewriteBuf") {
		fed := st.slots["g:rwfed"]
		if fed == nil {
			fed = mkStr("")
		}
		st.slots["g:rwfed"] = mkConcat(fed, added)
	}
}

func (a *fileAn) store(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
	if addr.op != "fld" || len(addr.args) != 1 || addr.args[0] != a.srv {
		return
	}
	if addr.aux == "server.Server.aofFile" && a.kind != "run" {
		st.slots["g:cur"] = val
	}
}

func slotText(st *State, k string) *Term {
	if t := st.slots[k]; t != nil {
		return t
	}
	return mkStr("")
}

// flushed: everything that was pending and everything fed on the path is in the log file.
func (a *fileAn) flushed(x *Exec, st *State, pos token.Pos, rule, when string) {
	a.ob(x, rule, pos)
	buf := dropEmpty(st, a.text(st, "aofBuf"))
	out := dropEmpty(st, fget(st, a.file0, "out", stringType))
	want := dropEmpty(st, mkConcat(st.slots["g:buf0"], slotText(st, "g:fed")))
	if fis(st, a.file0, "failed") {
		a.viol(x, st, rule, pos, "%s although writing to the log has failed", when)
		return
	}
	if !emptyText(st, buf) {
		a.viol(x, st, rule, pos, "%s while %v has not been written to the log", when, buf)
		return
	}
	if !sameText(st, out, want) {
		a.viol(x, st, rule, pos, "%s, but %v has been written to the log instead of %v", when, out, want)
	}
}

func (a *fileAn) ret(x *Exec, st *State, res []*Term) {
	pos := st.top().fn.Pos()
	if st.slot("impossible") != "" {
		return
	}
	switch a.kind {
	case "sleep":
		a.flushed(x, st, pos, "C16.write", "replies may be sent")
		a.ob(x, "C16.sync", pos)
		if a.policy == "always" && a.isDirty(st) {
			for _, rule := range []string{"C16.sync", "C17.always"} {
				a.viol(x, st, rule, pos, "with the policy 'always' replies may be sent although what was written to the log has not been forced to disk")
			}
		}
		a.syncRules(x, st, pos)
	case "time", "launch":
		a.syncRules(x, st, pos)
		a.rewriteRet(x, st, pos)
	case "rewriter":
		a.ob(x, "C24.send", pos)
		if st.slot("sent") != "x" {
			a.viol(x, st, "C24.send", pos, "a rewrite ends having delivered %d results: %s", len(st.slot("sent")), map[bool]string{true: "no later rewrite can start", false: "the surplus one stays in the channel"}[st.slot("sent") == ""])
		}
	case "sync":
		a.ob(x, "C17.error", pos)
		if st.slot("synced") == "" {
			a.viol(x, st, "C17.file", pos, "the goroutine may end without forcing the file to disk")
		}
		for c, v := range st.mem {
			if c.op == "fld" && c.aux == "file.syncfail" && v == tTrue && !a.closedErr(st) {
				a.viol(x, st, "C17.error", pos, "the failure of a sync is ignored")
			}
		}
	case "run":
		a.runRet(x, st, res)
	}
}

// closedErr: the path has established that the error is that the file has been closed in the meantime.
func (a *fileAn) closedErr(st *State) bool {
	for b, v := range st.bools {
		if v && b.op == "app" && strings.Contains(b.String(), "ErrClosed") {
			return true
		}
	}
	return false
}

func (a *fileAn) isDirty(st *State) bool {
	f := a.field(st, "aofFile")
	return fis(st, f, "dirty") || fis(st, f, "syncfail")
}

// syncRules: data that is not forced to disk is remembered, and is not older than about a second.
func (a *fileAn) syncRules(x *Exec, st *State, pos token.Pos) {
	f := a.field(st, "aofFile")
	a.ob(x, "C17.error", pos)
	if fis(st, f, "syncfail") {
		a.viol(x, st, "C17.error", pos, "the failure of a sync is ignored")
		return
	}
	a.ob(x, "C17.always", pos)
	if a.policy == "always" && fis(st, f, "dirty") && a.kind == "sleep" {
		a.viol(x, st, "C17.always", pos, "with the policy 'always' the loop goes on although what was written to the log has not been forced to disk")
	}
	if a.policy != "everysec" || !fis(st, f, "dirty") {
		return
	}
	a.ob(x, "C17.everysec", pos)
	if a.flag != "" && st.eval(a.field(st, a.flag)) != 1 {
		a.viol(x, st, "C17.everysec", pos, "the log holds data that has not been forced to disk, but this is not remembered (%s)", a.flag)
	}
	// some recorded time of the last sync, unchanged on this path, is at most about a second ago
	if a.kind != "sleep" {
		return
	}
	ok := false
	check := func(u *Term) {
		if u.op != "app" || u.aux != "time.Sub" {
			return
		}
		for i := 0; i < 2; i++ {
			name := a.recordedTime(st, u.args[i])
			if name == "" {
				continue
			}
			d := u
			if i == 0 {
				d = tMulC(u, -1)
			}
			if st.provesGE(mkInt(2_000_000_000), d) {
				ok = true
				a.times[name] = true
			}
		}
	}
	for _, l := range st.lin.ge {
		mkLin(l).walk(check)
	}
	if !ok {
		a.viol(x, st, "C17.everysec", pos, "data stays in the log without being forced to disk on a path that has not established that the last sync was less than a second or so ago")
	}
}

// recordedTime: the term is the value a field of the server had at the start and still has.
func (a *fileAn) recordedTime(st *State, t *Term) string {
	switch t.op {
	case "struct":
		name := ""
		for _, u := range t.args {
			n := a.recordedTime(st, u)
			if n == "" || name != "" && n != name {
				return ""
			}
			name = n
		}
		return name
	case "init":
		if len(t.args) != 1 || t.args[0].op != "fld" || st.load(t.args[0], t.typ) != t {
			return ""
		}
		b := t.args[0]
		for b.op == "fld" && b.args[0] != a.srv {
			b = b.args[0]
		}
		if b.op == "fld" {
			return b.aux
		}
	}
	return ""
}

func (a *fileAn) rewriteRet(x *Exec, st *State, pos token.Pos) {
	cur := a.field(st, "aofFile")
	a.ob(x, "C21.inuse", pos)
	if fis(st, cur, "closed") {
		a.viol(x, st, "C21.inuse", pos, "the log in use has been closed")
	}
	renamed := st.slot("renamed") != ""
	n := st.slots["g:new"]
	if renamed && (n == nil || cur != n && !st.equalTerms(cur, n)) {
		a.viol(x, st, "C21.inuse", pos, "the new log has taken the log's name, but later changes are written to another file")
	}
	if !renamed && cur != a.file0 && !st.equalTerms(cur, a.file0) {
		a.viol(x, st, "C21.inuse", pos, "later changes are written to a file that has not taken the log's name")
	}
	if renamed && n != nil && st.mem[fileCell(n, "append", boolType)] == tFalse {
		a.viol(x, st, "C21.append", pos, "the new log is not opened for appending")
	}
	buf := dropEmpty(st, a.text(st, "aofBuf"))
	all := dropEmpty(st, mkConcat(st.slots["g:buf0"], slotText(st, "g:fed")))
	if fis(st, a.file0, "failed") {
		a.viol(x, st, "C16.write", pos, "a failure to write to the log is ignored")
	}
	if renamed {
		a.ob(x, "C22.once", pos)
		if !emptyText(st, buf) {
			a.viol(x, st, "C22.once", pos, "the new log contains everything executed so far, but %v is still to be written to it", buf)
		}
		if n != nil && !sameText(st, dropEmpty(st, fget(st, n, "out", stringType)), dropEmpty(st, slotText(st, "g:want"))) {
			a.viol(x, st, "C22.once", pos, "more than the changes made during the rewrite (%v) is written to the new log: %v", slotText(st, "g:want"), fget(st, n, "out", stringType))
		}
	} else {
		for _, rule := range []string{"C22.kept", "C21.kept", "C16.write"} {
			a.ob(x, rule, pos)
			if got := dropEmpty(st, mkConcat(fget(st, a.file0, "out", stringType), buf)); !sameText(st, got, all) {
				a.viol(x, st, rule, pos, "of the changes to be recorded (%v) the log and its buffer contain %v", all, got)
			}
		}
	}
	rw := a.text(st, "aofRewriteBuf")
	a.ob(x, "C22.clean", pos)
	received := st.slot("received") != ""
	if a.stateIs(st, taskNone) != 0 {
		// no rewrite runs (as far as the path knows)
		if !emptyText(st, rw) && a.noneRW {
			a.viol(x, st, "C22.clean", pos, "after the rewrite %v is left in its buffer and would get into the result of the next one", rw)
		}
	}
	if a.stateIs(st, taskNone) != 1 && !received {
		if want := mkConcat(st.slots["g:rw0"], slotText(st, "g:rwfed")); !sameText(st, dropEmpty(st, rw), dropEmpty(st, want)) && st.slot("launched") == "" {
			a.viol(x, st, "C22.kept", pos, "the changes recorded for the running rewrite (%v) are lost", want)
		}
	}
	a.ob(x, "C24.next", pos)
	if received && a.stateIs(st, taskNone) != 1 && st.slot("launched") == "" {
		a.viol(x, st, "C24.next", pos, "the result of a rewrite has been taken, but no later rewrite can start")
	}
	if st.slot("claimed") != "" && st.slot("launched") == "" {
		a.viol(x, st, "C24.next", pos, "a rewrite is announced but not started: no later one can start")
	}
	a.ob(x, "C24.install", pos)
	if received && !renamed && st.slot("tempgone") == "" {
		// fine: the old log stays in use
		_ = received
	}
	if st.slot("tempgone") != "" && !renamed && !a.anyFailure(st) && received {
		a.viol(x, st, "C24.install", pos, "the result of a rewrite is thrown away although nothing has failed")
	}
}

// anyFailure: some operation on the new log has failed on this path.
func (a *fileAn) anyFailure(st *State) bool {
	for b, v := range st.bools {
		if !v && b.op == "cmp" && b.aux == "eq" && (strings.Contains(b.String(), "err:os.") || strings.Contains(b.String(), "err:(*os.File)") || strings.Contains(b.String(), "err:io.") || strings.Contains(b.String(), "Stat")) {
			return true
		}
	}
	return false
}

// start builds the state of the server before a callback.
func (a *fileAn) start(st *State, e *cbEnv) {
	a.srv = e.srv
	a.file0 = nonNil(st, a.field(st, "aofFile"))
	fset(st, a.file0, "out", stringType, mkStr(""))
	fset(st, a.file0, "dirty", boolType, mkBool(a.unsynced))
	fset(st, a.file0, "failed", boolType, tFalse)
	fset(st, a.file0, "closed", boolType, tFalse)
	fset(st, a.file0, "syncfail", boolType, tFalse)
	fset(st, a.file0, "name", stringType, a.field(st, "aofFilename"))
	fset(st, a.file0, "append", boolType, tTrue)
	a.buf0 = a.text(st, "aofBuf")
	a.rw0 = a.text(st, "aofRewriteBuf")
	if a.noneRW && a.state0 == taskNone {
		a.rw0 = mkStr("")
	}
	st.mem[sbCell(a.addr("aofBuf"))], st.mem[sbCell(a.addr("aofRewriteBuf"))] = a.buf0, a.rw0
	st.slots["g:buf0"], st.slots["g:rw0"] = a.buf0, a.rw0
	if a.policy != "" {
		st.mem[a.addr("aofFsync")] = mkStr(a.policy)
	}
	if a.kind != "launch" {
		st.assume(a.field(st, "aofEnable"), true)
	}
	if a.unsynced && a.flag != "" {
		st.assume(a.field(st, a.flag), true)
	}
	if c, _ := a.stateCell(); c != nil && a.state0 >= 0 {
		st.mem[c] = mkInt(a.state0)
	}
}

// flagFields: the boolean fields of Server that the function before each wait writes.
func (p *Prog) flagFields() (out []string) {
	seen := map[string]bool{}
	for f := range p.reach(p.sleepProcs(), nil) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					n := fieldName(s.Addr)
					if strings.HasPrefix(n, "server.Server.") && s.Val.Type().Underlying() == types.Typ[types.Bool] && !seen[n] {
						seen[n] = true
						out = append(out, strings.TrimPrefix(n, "server.Server."))
					}
				}
			}
		}
	}
	sort.Strings(out)
	return append(out, "")
}

type fileCfg struct {
	policy   string
	unsynced bool
}

// taskConst: the value of a constant of the background task type.
func (p *Prog) taskConst(name string, def int64) int64 {
	if nt := p.namedType("server", "TypeBackgroundTask"); nt != nil {
		if c, ok := nt.Obj().Pkg().Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constant.Int64Val(c.Val()); ok {
				return v
			}
		}
	}
	return def
}

func exploreFile(p *Prog, r *Report, prop string, kinds ...string) {
	for _, n := range []string{"aofFile", "aofFilename", "aofBuf", "aofRewriteBuf", "aofFsync", "aofEnable", "aofRewriteDoneCh", "backgroundTaskTypeAtomic"} {
		if p.fieldType("server", "Server", n) == nil {
			r.fail("undecided", "server.Server", "-", "the field %s is not found: the state of the log is not understood", n)
			return
		}
	}
	taskNone, taskRewrite = p.taskConst("TypeBackgroundTaskNone", 0), p.taskConst("TypeBackgroundTaskAOFRewrite", 2)
	rwSynced := exploreRewriter(p, newReport(prop), prop)
	type variant struct {
		flag   string
		noneRW bool
	}
	var vs []variant
	flags := []string{""}
	if prop == "C17" {
		flags = p.flagFields()
	}
	for _, f := range flags {
		vs = append(vs, variant{f, true})
		if prop == "C22" {
			vs = append(vs, variant{f, false})
		}
	}
	var best *Report
	for _, v := range vs {
		rep := newReport(prop)
		for _, k := range kinds {
			exploreFileKind(p, rep, prop, k, v.flag, v.noneRW, rwSynced)
		}
		if best == nil || len(rep.violations) < len(best.violations) {
			best = rep
		}
		if len(best.violations) == 0 {
			break
		}
	}
	r.merge(best)
}

func (r *Report) merge(o *Report) {
	r.addAll(o.violations)
	for rule, ss := range o.samples {
		for _, s := range ss {
			r.oblig(rule, s)
		}
	}
	for f := range o.funcs {
		r.funcs[f] = true
	}
	r.paths += o.paths
	r.states += o.states
	r.notes = append(r.notes, o.notes...)
}

func exploreFileKind(p *Prog, r *Report, prop, kind, flag string, noneRW, rwSynced bool) {
	cfgs := []fileCfg{{"everysec", true}}
	switch {
	case prop == "C16" && kind == "sleep":
		cfgs = []fileCfg{{"always", false}, {"everysec", false}, {"no", false}}
	case prop == "C17":
		cfgs = []fileCfg{{"always", false}, {"everysec", false}, {"no", false}, {"always", true}, {"everysec", true}, {"no", true}}
	}
	var roots []cbRoot
	switch kind {
	case "sleep", "time":
		for _, c := range p.callbacks() {
			if c.kind == kind {
				roots = append(roots, c)
			}
		}
	case "launch":
		roots = p.launchRoots()
	}
	if len(roots) == 0 {
		r.fail("undecided", kind, "-", "no %s functions found", kind)
	}
	for _, c := range roots {
		for _, cfg := range cfgs {
			for _, s0 := range []int64{taskNone, taskRewrite} {
				if kind == "sleep" && s0 != taskNone {
					continue
				}
				a := &fileAn{p: p, r: r, prop: prop, kind: kind, policy: cfg.policy, unsynced: cfg.unsynced, flag: flag, noneRW: noneRW, rwSynced: rwSynced, state0: s0,
					times: map[string]bool{}, relevant: map[*ssa.Function]bool{}}
				x := newExec(p, r, a.hooks())
				x.joinHeads = true
				x.entry = fmt.Sprintf("%s (policy %s, unsynced %v)", fnName(c.fn), cfg.policy, cfg.unsynced)
				st := newState()
				e := newCbEnv(p, st)
				st.mem[fldOf("server.Client.srv", types.NewPointer(p.namedType("server", "Server")), e.client)] = e.srv
				args, free := e.args(st, c)
				a.start(st, e)
				x.Run(c.fn, st, args, free)
				r.use(x)
			}
		}
	}
}

// launchRoots: the commands that can start a rewrite.
func (p *Prog) launchRoots() (out []cbRoot) {
	cmds, err := p.commandTable()
	if err != nil {
		return nil
	}
	for _, c := range cmds {
		hit := false
		for g := range p.reach([]*ssa.Function{c.proc}, nil) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if gi, ok := in.(*ssa.Go); ok {
						for _, t := range p.callTargets(gi) {
							if p.isRewriter(t) {
								hit = true
							}
						}
					}
				}
			}
		}
		if hit {
			out = append(out, cbRoot{fn: c.proc, kind: "launch"})
		}
	}
	return
}

// exploreRewriter explores the goroutine that writes the new log; the result tells whether it forces it to disk.
func exploreRewriter(p *Prog, r *Report, prop string) bool {
	synced := true
	n := 0
	for f := range p.goTargets() {
		if !p.isRewriter(f) {
			continue
		}
		n++
		a := &fileAn{p: p, r: r, prop: prop, kind: "rewriter", state0: -1, times: map[string]bool{}, relevant: map[*ssa.Function]bool{}}
		h := a.hooks()
		h.Send = func(x *Exec, st *State, ch, v *Term, in ssa.Instruction) {
			a.send(x, st, ch, v, in)
			if st.slots["g:sentdirty"] == tTrue {
				synced = false
			}
		}
		x := newExec(p, r, h)
		x.joinHeads = true
		x.entry = fnName(f)
		st := newState()
		e := newCbEnv(p, st)
		args, free := e.args(st, cbRoot{fn: f})
		a.start(st, e)
		x.Run(f, st, args, free)
		r.use(x)
	}
	if n == 0 {
		r.fail("undecided", "rewrite", "-", "no goroutine that rewrites the log is found")
		return false
	}
	return synced
}

// exploreSync explores the goroutines that force the log to disk.
func exploreSync(p *Prog, r *Report, prop string) {
	for f := range p.goTargets() {
		if p.isRewriter(f) || !p.reaches(f, "(*os.File).Sync") || p.reaches(f, "syscall.EpollWait") {
			continue
		}
		a := &fileAn{p: p, r: r, prop: prop, kind: "sync", state0: -1, times: map[string]bool{}, relevant: map[*ssa.Function]bool{}}
		x := newExec(p, r, a.hooks())
		x.entry = fnName(f)
		st := newState()
		e := newCbEnv(p, st)
		args, free := e.args(st, cbRoot{fn: f})
		a.start(st, e)
		x.Run(f, st, args, free)
		r.use(x)
	}
}
