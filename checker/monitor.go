package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// monitor watches the effects of command execution: replies, key-space changes, log records.
type monitor struct {
	p         *Prog
	r         *Report
	prop      string
	mode      string // command, cron, replay
	cmd       *cmdInfo
	table     map[string]*cmdInfo
	lookup    *ssa.Function
	oddArgs   bool // the number of words is odd
	client    *Term
	srv       *Term
	args      *Term
	db0       *Term
	auth0     *Term
	sel0      *Term
	replacers map[string]bool
	encoders  map[*ssa.Function]encShape
	w         *WorldHooks
	hooks     *Hooks
	fate      map[string]string // what happens to the fields of the client on the paths without an error
}

func (m *monitor) viol(x *Exec, st *State, rule string, pos token.Pos, construct, format string, a ...any) {
	if !strings.HasPrefix(rule, m.prop+".") {
		return
	}
	if m.cmd != nil {
		construct = m.cmd.name + ": " + construct
	}
	x.violate(st, rule, construct, pos, format, a...)
}

func (m *monitor) ob(rule, format string, a ...any) {
	if !strings.HasPrefix(rule, m.prop+".") {
		return
	}
	s := fmt.Sprintf(format, a...)
	if m.cmd != nil {
		s = m.cmd.name + ": " + s
	}
	m.r.oblig(rule, s)
}

func newMonitor(p *Prog, r *Report, prop string) *monitor {
	m := &monitor{p: p, r: r, prop: prop, replacers: map[string]bool{}, table: map[string]*cmdInfo{}}
	m.w = &WorldHooks{Mutate: m.mutate, Read: m.read, Random: m.random}
	if prop == "C10" {
		m.w.Yield = func(st *State, more bool) {
			// tells the states at the head of a loop over entries apart, so that what is known of the entry survives
			if delete(st.slots, "it"); more {
				st.setSlot("it", "1")
			}
		}
	}
	m.hooks = &Hooks{Call: m.call, Store: m.store, Return: m.ret, Oblig: m.oblig, Append: m.append, Load: m.load, SB: m.sb,
		ListPush: m.listPush, ListRemove: m.listRemove, TypeIs: m.typeIs, Canon: m.canon}
	m.encoders = p.encoderCands()
	return m
}

// slotUse lists the properties that need a piece of path history; it is forgotten for the others, so that paths
// that differ only in it are merged.
var slotUse = map[string]string{
	"mut": "C08", "regfail": "C03", "wrong": "C07", "pend": "C13", "pendx": "C13", "pendxdb": "C13", "xp": "C13 C14 C15", "xpdb": "C13 C14 C15", "rw": "C22", "g:logsel": "C15",
	"fxset": "C14", "fxclock": "C14", "fxexp": "C14", "fxrand": "C14", "argsmod": "C14",
	"expset": "C11", "ow": "C11", "ddel": "C11 C36", "rem1": "C34", "rem2": "C34", "new": "C34",
}

func (m *monitor) prune(st *State) {
	for k := range st.slots {
		if u, ok := slotUse[k]; ok && !strings.Contains(u, m.prop) {
			delete(st.slots, k)
		}
	}
}

func (m *monitor) settleExpire(st *State) {
	k := st.slots["pendx"]
	if k == nil {
		return
	}
	if v := dictCell(st, st.slots["pendxdb"], k); v == nil || st.evalNil(v) != 1 {
		st.setSlot("pend", "m")
	}
	delete(st.slots, "pendx")
	delete(st.slots, "pendxdb")
}

func (m *monitor) aofOff(st *State) bool {
	return m.srv != nil && st.eval(m.srvField(st, "aofEnable", boolType)) == 0
}

// canon forgets what no longer matters when a loop is entered again.
func (m *monitor) canon(x *Exec, st *State) {
	m.settleExpire(st)
	m.settleScored(st)
	if m.prop == "C07" && m.wrongType(st) != nil {
		st.setSlot("wrong", "1")
	}
	m.prune(st)
	if st.slots["xp"] != nil && !m.aofOff(st) {
		for _, p := range []string{"C13", "C14"} {
			m.viol(x, st, p+".expirylogged", token.NoPos, pathFn(st), "the removal of expired key %v is not logged before the next step of a loop", st.slots["xp"])
		}
	}
	delete(st.slots, "xp")
	delete(st.slots, "xpdb")
	if st.slots["rw"] != nil {
		if !m.noRewrite(st) {
			m.viol(x, st, "C22.feed", token.NoPos, pathFn(st), "a logged change is not kept for the log rewrite in progress")
		}
		delete(st.slots, "rw")
	}
	for _, s := range []string{"rem1", "rem2"} {
		if t := st.slots[s]; t != nil && m.goneOrFull(x, st, t) {
			delete(st.slots, s)
		}
	}
	if t := st.slots["new"]; t != nil && st.provesGE(x.csize(st, t), tOne) {
		delete(st.slots, "new")
	}
	if m.prop == "C15" && m.srv != nil {
		// the remembered database in one form
		if cur := m.srvField(st, "aofSelectDBID", intType); st.provesEqInt(cur, m.selBefore(st)) {
			st.slots["g:logsel"] = cur
		}
	}
}

// goneOrFull: the container has elements left or is no longer in the key space.
func (m *monitor) goneOrFull(x *Exec, st *State, t *Term) bool {
	if st.provesGE(x.csize(st, t), tOne) {
		return true
	}
	if cell := keyspaceCell(t); cell != nil {
		if v := dictCell(st, dbOf(cell.args[0]), cell.args[1]); v != nil && st.evalNil(v) == 1 {
			return true
		}
	}
	return false
}

var boolType types.Type = types.Typ[types.Bool]
var intType types.Type = types.Typ[types.Int]

func (m *monitor) srvField(st *State, name string, typ types.Type) *Term {
	return st.load(fldOf("server.Server."+name, typ, m.srv), typ)
}
func (m *monitor) cliField(st *State, name string, typ types.Type) *Term {
	return st.load(fldOf("server.Client."+name, typ, m.client), typ)
}

func nonNil(st *State, t *Term) *Term {
	st.assume(mkCmp("eq", t, tNil), false)
	return t
}

// nonNilFields are set by the constructors and never cleared (checked by ctorRules).
var nonNilFields = map[string]bool{
	"server.Client.srv": true, "server.Client.db": true, "server.Client.replayHead": true, "server.Server.eventLoop": true,
	"database.Databse.Dict": true, "database.Databse.Expire": true, "server.Server.aofRewriteDoneCh": true,
	"datastruct.Set.dict": true, "datastruct.Zset.dict": true, "datastruct.Zset.skiplist": true, "datastruct.Quicklist.data": true,
	"datastruct.DictIterator.dict": true, "datastruct.QuicklistIterator.quicklist": true, "ae.EventLoop.timeEventHead": true,
	"datastruct.Skiplist.Head": true,
}

func (m *monitor) load(x *Exec, st *State, addr *Term, typ types.Type) *Term {
	if m.mode == "cron" && m.prop == "C36" && addr.op == "elem" && shortType(typ) == "*database.Databse" {
		st.setSlot("visit", "") // another database is taken up
	}
	if t := worldLoad(x, st, addr, typ); t != nil {
		return t
	}
	if addr.op == "fld" && nonNilFields[addr.aux] || addr.op == "elem" && typ != nil && shortType(typ) == "*database.Databse" {
		if _, ok := st.mem[addr]; !ok || true {
			t := st.load(addr, typ)
			if t.op == "init" && st.evalNil(t) < 0 {
				nonNil(st, t)
			}
			return t
		}
	}
	return nil
}

// typeIs justifies type assertions by the homogeneity of stored data: expiry tables hold int64, containers hold
// strings (both checked where they are stored).
func (m *monitor) typeIs(x *Exec, st *State, v *Term, ty string) bool {
	if ty == "string" && v.op == "init" && v.args[0].op == "fld" && v.args[0].aux == fEntryKey {
		return true
	}
	if ty == "string" && (st.hasFact("isstring", v)) {
		return true
	}
	if st.evalNil(v) != 0 {
		return false
	}
	if v.op == "init" && v.args[0].op == "dcell" {
		switch dictRole(v.args[0].args[0]) {
		case "Expire":
			return ty == "int64"
		case "":
			return ty == "string"
		}
		return false
	}
	if ty == "string" {
		for f, b := range st.bools {
			if b && f.op == "app" && f.aux == "@elemof" && f.args[0] == v {
				return true
			}
		}
	}
	return false
}

func isKeyspace(t *Term) bool { return dictRole(t) == "Dict" }

// keyspaceCell returns the key-space cell a container or value term was read from.
func keyspaceCell(t *Term) *Term {
	var found *Term
	t.walk(func(u *Term) {
		if u.op == "dcell" && isKeyspace(u.args[0]) && found == nil {
			found = u
		}
	})
	return found
}

func expireDict(st *State, db *Term) *Term {
	var typ types.Type
	return st.load(mkFull("fld", "database.Databse.Expire", typ, nil, nil, db), typ)
}

// expireOf finds the expiry-table cell of a key in a database if the path has looked at it.
func expireCell(st *State, db, key *Term) *Term {
	for c, v := range st.mem {
		if c.op == "dcell" && dictRole(c.args[0]) == "Expire" && dbOf(c.args[0]) == db && st.equalTerms(c.args[1], key) {
			return v
		}
	}
	return nil
}

func dictCell(st *State, db, key *Term) *Term {
	for c, v := range st.mem {
		if c.op == "dcell" && dictRole(c.args[0]) == "Dict" && dbOf(c.args[0]) == db && st.equalTerms(c.args[1], key) {
			return v
		}
	}
	return nil
}

func whenOf(v *Term) *Term {
	if v.op == "iface" {
		return v.args[0]
	}
	return mkFull("app", "unbox:int64", types.Typ[types.Int64], nil, nil, v)
}

// clocks lists the millisecond clock readings of the path.
func clocks(st *State) []*Term {
	var r []*Term
	for f, b := range st.bools {
		if b && f.op == "app" && f.aux == "@clock" && f.args[0].aux == "nowUnixMilli" {
			r = append(r, f.args[0])
		}
	}
	return r
}

// passed: the value's time has provably passed.
func passed(st *State, v *Term) bool {
	for _, c := range clocks(st) {
		if st.provesGE(c, whenOf(v)) {
			return true
		}
	}
	return false
}

func notPassed(st *State, v *Term) bool {
	for _, c := range clocks(st) {
		if st.provesGE(whenOf(v), c) {
			return true
		}
	}
	return false
}

func (m *monitor) loading(st *State) bool {
	return m.srv != nil && st.eval(m.srvField(st, "loading", boolType)) == 1
}

// fresh: the path has established that the key has not expired (or is gone).
func (m *monitor) fresh(st *State, db, key *Term) bool {
	if m.loading(st) {
		return true
	}
	if v := expireCell(st, db, key); v != nil {
		if st.evalNil(v) == 1 || notPassed(st, v) {
			return true
		}
	}
	if v := dictCell(st, db, key); v != nil && st.evalNil(v) == 1 {
		return true
	}
	return st.hasFact("fresh", db, key)
}

// isExpired: the path has established that the key's time has passed.
func (m *monitor) isExpired(st *State, db, key *Term) bool {
	if v := expireCell(st, db, key); v != nil && st.evalNil(v) == 0 && passed(st, v) {
		return true
	}
	return st.hasFact("expired", db, key)
}

func (m *monitor) random(x *Exec, st *State, v *Term) { st.setFact("random", true, v) }

func pathFn(st *State) string { return fnName(st.top().fn) }

func keyTerm(key *Term) string {
	if key == nil {
		return "?"
	}
	return key.String()
}

// ---------------------------------------------------------------- reads

func (m *monitor) read(x *Exec, st *State, obj, key *Term, op string, c *Call) {
	pos := c.instr.Pos()
	if role := dictRole(obj); role != "" {
		m.dbRule(x, st, obj, pos)
	}
	if !isKeyspace(obj) || key == nil {
		return
	}
	switch op {
	case "get", "find", "delete":
		if op == "delete" && (m.isExpired(st, dbOf(obj), key)) {
			return
		}
		if op == "delete" && m.mode == "cron" {
			return
		}
		m.ob("C10.fresh", "%s %s in %s", op, x.p.pos(pos), pathFn(st))
		if !m.fresh(st, dbOf(obj), key) {
			m.viol(x, st, "C10.fresh", pos, pathFn(st)+" "+op, "the key space is asked for %v on a path that has not established that the key has not expired", key)
		}
	}
}

func (m *monitor) dbRule(x *Exec, st *State, d *Term, pos token.Pos) {
	if m.mode != "command" {
		return
	}
	m.ob("C09.selected", "data access %s in %s", x.p.pos(pos), pathFn(st))
	cur := m.cliField(st, "db", nil)
	if !st.equalTerms(dbOf(d), cur) {
		m.viol(x, st, "C09.selected", pos, pathFn(st), "database %v is accessed, the client has selected %v", dbOf(d), cur)
	}
}

// ---------------------------------------------------------------- changes

// stored: the object is (part of) the data set.
func (m *monitor) isStored(st *State, obj *Term) bool {
	if dictRole(obj) != "" {
		return true
	}
	r := rootOf(obj)
	if r.op == "alloc" {
		return st.hasFact("stored", r)
	}
	return true
}

func (m *monitor) mutate(x *Exec, st *State, mu *Mut, c *Call) {
	defer m.prune(st)
	pos := c.instr.Pos()
	role := dictRole(mu.obj)
	if role != "" {
		m.dbRule(x, st, mu.obj, pos)
	}
	if !m.isStored(st, mu.obj) {
		if mu.kind == "add" || mu.kind == "readd" || mu.kind == "update" {
			if st.slots["new"] == mu.obj {
				delete(st.slots, "new")
			}
			st.setFact("hadadd", true, mu.obj)
		}
		return
	}
	db := dbOf(mu.obj)
	// expiry?
	if mu.kind == "delete" && role != "" {
		if m.isExpired(st, db, mu.key) || role == "Expire" && mu.val != nil && st.evalNil(mu.val) == 0 && passed(st, mu.val) {
			st.setFact("expired", true, db, mu.key)
			m.expiryDelete(x, st, mu, c)
			return
		}
		if m.mode == "cron" {
			m.ob("C36.expired", "removal %s in %s", x.p.pos(pos), pathFn(st))
			m.viol(x, st, "C36.expired", pos, pathFn(st), "key %v is removed by background expiry on a path that has not established that its time has passed", mu.key)
		}
	}
	st.setSlot("mut", "1")
	if m.oddArgs {
		m.ob("C06.pair", "change %s %s in %s", mu.kind, x.p.pos(pos), pathFn(st))
		m.viol(x, st, "C06.pair", pos, pathFn(st), "a request with an incomplete pair changes data (%s of %v)", mu.kind, keyTerm(mu.key))
	}
	if mu.kind == "delete" && role == "Expire" {
		// a time-to-live without a key is not part of the data set: decided once the key has been looked at
		m.settleExpire(st)
		st.slots["pendx"] = mu.key
		st.slots["pendxdb"] = db
	} else {
		st.setSlot("pend", "m")
	}
	if m.cmd != nil {
		m.ob("C12.pure", "change %s %s in %s", mu.kind, x.p.pos(pos), pathFn(st))
		if readCommands[m.cmd.name] {
			m.viol(x, st, "C12.pure", pos, pathFn(st), "a query changes stored data (%s of %v in %v)", mu.kind, keyTerm(mu.key), mu.obj)
		}
		m.ob("C07.untouched", "change %s %s in %s", mu.kind, x.p.pos(pos), pathFn(st))
		if v := m.wrongType(st); v != nil && !(mu.kind == "set" && role == "" && mu.fresh) {
			m.viol(x, st, "C07.untouched", pos, pathFn(st), "data is changed (%s of %v) although %v holds another type", mu.kind, keyTerm(mu.key), v)
		}
	}
	switch {
	case role == "Dict" && mu.kind == "set":
		if v := mu.val; v != nil {
			inner := v
			if v.op == "iface" {
				inner = v.args[0]
			}
			if inner.op == "alloc" {
				st.setFact("stored", true, inner)
				if !st.hasFact("hadadd", inner) {
					st.slots["new"] = inner
				}
			}
			m.storedType(x, st, v, pos)
		}
		st.slots["fxset"] = mk("fx", "set", mu.key, mu.val)
		if st.slots["expset"] == mu.key {
			delete(st.slots, "expset")
			st.setFact("ttlset", true, db, mu.key)
		}
		// a plain overwrite must not inherit the time to live
		if !mu.fresh {
			ev := expireCell(st, db, mu.key)
			m.ob("C11.overwrite", "overwrite %s in %s", x.p.pos(pos), pathFn(st))
			if !(ev != nil && st.evalNil(ev) == 1) && !st.hasFact("ttlset", db, mu.key) {
				st.slots["ow"] = mu.key
			}
		}
		if m.stringKey(mu.key) != "" {
			m.viol(x, st, "C01.key", pos, pathFn(st), "a key of unknown type is stored: %s", m.stringKey(mu.key))
		}
	case role == "Dict" && mu.kind == "delete":
		ev := expireCell(st, db, mu.key)
		m.ob("C11.together", "removal %s in %s", x.p.pos(pos), pathFn(st))
		if !(ev != nil && st.evalNil(ev) == 1) {
			st.slots["ddel"] = mu.key
		}
	case role == "Expire" && mu.kind == "set":
		dv := dictCell(st, db, mu.key)
		m.ob("C11.exists", "expiry set %s in %s", x.p.pos(pos), pathFn(st))
		if dv != nil && st.evalNil(dv) == 0 {
			st.setFact("ttlset", true, db, mu.key)
		} else {
			st.slots["expset"] = mu.key
		}
		if st.slots["ow"] == mu.key {
			delete(st.slots, "ow")
		}
		m.ob("C01.expirevalue", "expiry set %s", x.p.pos(pos))
		if mu.val == nil || mu.val.op != "iface" || mu.val.aux != "int64" {
			m.viol(x, st, "C01.expirevalue", pos, pathFn(st), "an expiry time that is not an int64 is stored")
		} else {
			cl := false
			mu.val.walk(func(u *Term) {
				if u.op == "app" && strings.HasPrefix(u.aux, "nowUnix") {
					cl = true
				}
			})
			fx := mk("fx", "expire", mu.key, mu.val.args[0])
			if cl {
				st.slots["fxclock"] = fx
			} else {
				st.slots["fxexp"] = fx
			}
		}
	case role == "Expire" && mu.kind == "delete":
		// cleared in the delete hook below, whether or not an entry was present
	default:
		// a container
		if mu.kind == "set" && !mu.fresh {
			st.assumeGE(x.csize(st, mu.obj), tOne)
		}
		if mu.kind == "remove" || mu.kind == "delete" {
			if mu.key != nil && st.hasFact("random", mu.key) {
				st.slots["fxrand"] = mu.key
			}
			if st.slots["rem1"] == nil || st.slots["rem1"] == mu.obj {
				st.slots["rem1"] = mu.obj
			} else {
				st.slots["rem2"] = mu.obj
			}
			m.ob("C34.removal", "removal %s in %s", x.p.pos(pos), pathFn(st))
		} else if st.slots["new"] == rootOf(mu.obj) {
			delete(st.slots, "new")
		}
		if mu.kind == "set" || mu.kind == "add" {
			m.ob("C01.element", "element stored %s in %s", x.p.pos(pos), pathFn(st))
			for _, e := range []*Term{mu.key, mu.val} {
				if e == nil || mu.kind == "add" && e == mu.val {
					continue
				}
				if why := m.stringKey(e); why != "" {
					m.viol(x, st, "C01.element", pos, pathFn(st), "an element that is not a string is stored in a container: %s", why)
				}
			}
		}
	}
}

// stringKey returns "" if the value is a string.
func (m *monitor) stringKey(t *Term) string {
	if t.op == "iface" {
		if t.aux == "string" {
			return ""
		}
		return "value of type " + t.aux
	}
	if t.typ != nil && isStringType(t.typ) || t.op == "str" || t.op == "concat" {
		return ""
	}
	if t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Interface); !ok {
			return "value of type " + shortType(t.typ)
		}
	}
	switch t.op {
	case "nil", "int", "bool", "alloc", "slice":
		return "value " + t.String()
	}
	return ""
}

// storedType: only the value types known to every part of the server are stored in the key space.
func (m *monitor) storedType(x *Exec, st *State, v *Term, pos token.Pos) {
	m.ob("C20.stored", "value stored %s in %s", x.p.pos(pos), pathFn(st))
	if v.op == "iface" {
		switch v.aux {
		case "string":
			return
		case "*datastruct.Dict", "*datastruct.Quicklist", "*datastruct.Set", "*datastruct.Zset":
			m.ob("C01.nilstored", "value stored %s in %s", x.p.pos(pos), pathFn(st))
			if st.evalNil(v.args[0]) != 0 {
				m.viol(x, st, "C01.nilstored", pos, pathFn(st), "a container pointer that may be nil is stored")
			}
			return
		}
		m.viol(x, st, "C20.stored", pos, pathFn(st), "a value of type %s is stored, which the log rewrite does not know", v.aux)
	}
}

func (m *monitor) expiryDelete(x *Exec, st *State, mu *Mut, c *Call) {
	pos := c.instr.Pos()
	db := dbOf(mu.obj)
	defer m.expiryLogged(x, st, mu, pos)
	if m.mode == "cron" {
		m.ob("C36.expired", "removal %s in %s", x.p.pos(pos), pathFn(st))
	}
	if dictRole(mu.obj) != "Dict" {
		return
	}
	ev := expireCell(st, db, mu.key)
	m.ob("C11.together", "expiry %s in %s", x.p.pos(pos), pathFn(st))
	if !(ev != nil && st.evalNil(ev) == 1) {
		st.slots["ddel"] = mu.key
	}
}

// expiryLogged: the removal of an expired key has to be logged before anything else happens.
func (m *monitor) expiryLogged(x *Exec, st *State, mu *Mut, pos token.Pos) {
	m.ob("C14.expirylogged", "expiry %s in %s", x.p.pos(pos), pathFn(st))
	m.ob("C13.expirylogged", "expiry %s in %s", x.p.pos(pos), pathFn(st))
	if m.loadingPossible(st) {
		m.viol(x, st, "C14.replayclock", pos, pathFn(st), "a key is expired by the clock while the log may be being replayed")
	}
	if st.slots["xp"] != nil && !st.equalTerms(st.slots["xp"], mu.key) {
		for _, p := range []string{"C14", "C13"} {
			m.viol(x, st, p+".expirylogged", pos, pathFn(st), "the removal of expired key %v is not logged before the next one", st.slots["xp"])
		}
	}
	st.slots["xp"] = mu.key
	st.slots["xpdb"] = dbOf(mu.obj)
}

func (m *monitor) loadingPossible(st *State) bool {
	if m.mode == "cron" {
		return false // timers run after recovery (C37)
	}
	return st.eval(m.srvField(st, "loading", boolType)) != 0
}

// ---------------------------------------------------------------- calls

func (m *monitor) call(x *Exec, st *State, c *Call) ([]Outcome, bool) {
	if c.fn != nil && c.fn == m.lookup {
		if m.cmd == nil {
			st.note("%s: the command is unknown", x.p.pos(c.instr.Pos()))
			return one(st, tNil), true
		}
		t := sym("cmd", resType(c, 0))
		nonNil(st, t)
		cmdT := m.p.namedType("server", "command").Underlying().(*types.Struct)
		for i := 0; i < cmdT.NumFields(); i++ {
			f := cmdT.Field(i)
			var v *Term
			switch {
			case isStringType(f.Type()):
				v = mkStr(m.cmd.name)
			case isIntType(f.Type()):
				v = mkInt(m.cmd.arity)
			default:
				if _, ok := f.Type().Underlying().(*types.Signature); ok {
					v = mkFull("func", fmt.Sprintf("%s#%p", fnName(m.cmd.proc), m.cmd.proc), nil, m.cmd.proc, nil)
				}
			}
			if v != nil {
				st.mem[x.fieldAddr(t, m.p.namedType("server", "command"), i)] = v
			}
		}
		if !st.assume(mkCmp("eq", c.args[0], mkStr(m.cmd.name)), true) {
			return nil, true
		}
		return one(st, t), true
	}
	if c.fn != nil && m.cmd != nil && c.fn == m.cmd.proc && st.slot("ran") == "" {
		m.procCall(x, st, c)
	}
	if sh, ok := m.encoders[c.fn]; ok && c.fn != nil {
		rec := m.record(x, st, c.args[sh.args])
		if sh.sb < 0 {
			return one(st, rec), true
		}
		c2 := *c
		c2.name = "(*strings.Builder).WriteString"
		c2.args = []*Term{c.args[sh.sb], rec}
		outs := models["(*strings.Builder).WriteString"](x, st, &c2)
		for i := range outs {
			outs[i].res = nil
			if c.sig.Results().Len() == 1 {
				outs[i].res = []*Term{tNil}
			}
		}
		return outs, true
	}
	if m.prop == "C32" && c.fn != nil && strings.HasPrefix(c.name, tZset) {
		m.scores(x, st, c)
	}
	if m.mode == "cron" && m.prop == "C36" && sampling[c.name] && len(c.args) > 0 {
		m.visit(x, st, c.args[0])
	}
	switch c.name {
	case "(*ae.EventLoop).AddFileEvent":
		m.ob("C03.register", "%s", x.p.pos(c.instr.Pos()))
		return x.errFork(st, c, func(s *State) []*Term {
			if k, ok := c.args[2].intVal(); ok && k == 2 && m.prop == "C27" {
				s.setSlot("regw", "1")
			}
			return nil
		}, func(s *State) []*Term {
			s.setSlot("regfail", "1")
			return nil
		}), true
	case tDict + "Delete":
		if len(c.args) == 2 {
			k := stripKey(c.args[1])
			if dictRole(c.args[0]) == "Expire" {
				if st.slots["ddel"] != nil && st.equalTerms(st.slots["ddel"], k) {
					delete(st.slots, "ddel")
				}
				if st.slots["ow"] != nil && st.equalTerms(st.slots["ow"], k) {
					delete(st.slots, "ow")
				}
			}
		}
	}
	return m.w.call(x, st, c)
}

// scores: what a command hands to a sorted set as score or limits.
func (m *monitor) scores(x *Exec, st *State, c *Call) {
	var fl []*Term
	var count *Term
	off := len(c.args) - c.sig.Params().Len()
	for i := 0; i < c.sig.Params().Len(); i++ {
		t := c.sig.Params().At(i).Type()
		switch {
		case isFloatType(t):
			fl = append(fl, c.args[i+off])
		case isIntType(t):
			count = c.args[i+off]
		}
	}
	pos, name := c.instr.Pos(), fnName(c.instr.Parent())
	parsed := func(t *Term) *Term {
		if t.op == "app" && t.aux == "strconv.ParseFloat" {
			return t.args[0]
		}
		return nil
	}
	switch len(fl) {
	case 1:
		m.ob("C32.nan", "%s of %s", x.p.pos(pos), m.cmd.name)
		if st.eval(mkFull("app", "math.IsNaN", boolType, nil, nil, fl[0])) == 0 {
			return
		}
		if fl[0].op == "fnum" || fl[0].op == "fconst" {
			return
		}
		if parsed(fl[0]) == nil {
			m.settleScored(st)
			if st.slot("nan") == "" && (fl[0].op == "fld" || fl[0].op == "elem" || fl[0].op == "init") {
				return // kept since it has been parsed and tested
			}
			if st.slot("nan") == "" {
				m.r.fail("undecided", name+" score", x.p.pos(pos), "where the score comes from is not understood [%s] %s", m.cmd.name, fl[0].op)
				return
			}
		}
		m.viol(x, st, "C32.nan", pos, name, "a score that is not a number may be stored; it compares with nothing, so that the order is lost")
	case 2:
		for i, t := range fl {
			m.ob("C32.arguments", "%s of %s: argument %d", x.p.pos(pos), m.cmd.name, i+2)
			want := st.load(mkFull("elem", "", stringType, nil, nil, mk("arr", "", m.args), mkInt(int64(i+2))), stringType)
			s := parsed(t)
			if s == nil {
				m.r.fail("undecided", name+" limits", x.p.pos(pos), "where the limits come from is not understood [%s]", m.cmd.name)
				continue
			}
			if !st.equalTerms(s, want) {
				m.viol(x, st, "C32.arguments", pos, name, "the %s of the interval is not the one the client has sent", []string{"lower end", "upper end"}[i])
			}
		}
		if count != nil {
			if n, ok := count.intVal(); ok && n >= 0 {
				m.viol(x, st, "C32.arguments", pos, name, "only %d elements of the interval are asked for", n)
			}
		}
	}
}

// kept notes a parsed number that is kept in memory.
func (m *monitor) kept(st *State, v *Term, depth int) {
	if m.prop != "C32" || v == nil || depth > 4 {
		return
	}
	if v.op == "app" && v.aux == "strconv.ParseFloat" {
		m.settleScored(st)
		st.slots["scored"] = v
		return
	}
	if v.op == "struct" {
		for _, a := range v.args {
			m.kept(st, a, depth+1)
		}
	}
}

func (m *monitor) settleScored(st *State) {
	if v := st.slots["scored"]; v != nil {
		if st.eval(mkFull("app", "math.IsNaN", boolType, nil, nil, v)) != 0 {
			st.setSlot("nan", "1")
		}
		delete(st.slots, "scored")
	}
}

// sampling: how background expiry finds candidates.
var sampling = map[string]bool{tDict + "GetRandomKey": true, "datastruct.NewDictIterator": true}

// visit counts the databases whose time-to-live table is looked at, from the first one up and from the last one down.
func (m *monitor) visit(x *Exec, st *State, d *Term) {
	if dictRole(d) != "Expire" || d.op != "init" {
		return
	}
	db := dbOf(d)
	if db == nil || db.op != "init" || db.args[0].op != "elem" {
		return
	}
	e := db.args[0]
	b, o, l := x.sliceParts(m.srvField(st, "dbs", m.p.fieldType("server", "Server", "dbs")))
	if e.args[0] != b {
		return
	}
	i := tSub(e.args[1], o)
	if st.slot("visit") != "" {
		return
	}
	st.setSlot("visit", "1")
	if up := st.ghost("up"); st.provesEqInt(i, up) {
		st.setGhost("up", tAdd(up, tOne))
	}
	if down := st.ghost("down"); st.provesEqInt(i, tSub(tSub(l, tOne), down)) {
		st.setGhost("down", tAdd(down, tOne))
	}
}

// visitedAll: at the end of a timer that expires keys every database has been looked at.
func (m *monitor) visitedAll(x *Exec, st *State, pos token.Pos, name string) {
	fn := st.top().fn
	does := false
	for n := range sampling {
		does = does || m.p.reaches(fn, n)
	}
	if !does {
		return
	}
	m.ob("C36.all", "path end of %s", name)
	for c, v := range st.mem {
		if c.op == "fld" && c.aux == "ae.EventLoop.stop" && v == tTrue {
			return
		}
	}
	_, _, l := x.sliceParts(m.srvField(st, "dbs", m.p.fieldType("server", "Server", "dbs")))
	if !st.provesGE(st.ghost("up"), l) && !st.provesGE(st.ghost("down"), l) {
		m.viol(x, st, "C36.all", pos, name, "background expiry ends although not every database has been looked at")
	}
}

// record renders a log record as a term.
func (m *monitor) record(x *Exec, st *State, s *Term) *Term {
	base, off, ln := x.sliceParts(s)
	n, ok := ln.intVal()
	if !ok {
		lo, hi := st.lin.rangeOf(linOf(ln), fullRange)
		if lo.Cmp(hi) == 0 && lo.IsInt64() && lo.Int64() <= 16 {
			n, ok = lo.Int64(), true
		}
	}
	if ok && n <= 16 {
		var es []*Term
		for i := int64(0); i < n; i++ {
			es = append(es, st.load(mkFull("elem", "", stringType, nil, nil, base, tAdd(off, mkInt(i))), stringType))
		}
		return mkFull("app", "respcmd", stringType, nil, nil, es...)
	}
	return mkFull("app", "respcmd*", stringType, nil, nil, s)
}

func (m *monitor) procCall(x *Exec, st *State, c *Call) {
	pos := c.instr.Pos()
	st.setSlot("ran", "1")
	n := lenOf(m.args)
	m.ob("C06.arity", "command runs only with its arity (%d)", m.cmd.arity)
	ar := m.cmd.arity
	if ar > 0 && !st.provesEqInt(n, mkInt(ar)) || ar < 0 && !st.provesGE(n, mkInt(-ar)) || ar == 0 {
		m.viol(x, st, "C06.arity", pos, fnName(m.cmd.proc), "the command may run with an argument count outside its arity %d", ar)
	}
	m.ob("C05.gate", "command runs only after authentication")
	if m.cmd.name != "auth" {
		if st.eval(m.cliField(st, "authenticated", boolType)) != 1 && st.eval(mkCmp("eq", m.srvField(st, "requirePassword", stringType), mkStr(""))) != 1 {
			m.viol(x, st, "C05.gate", pos, fnName(m.cmd.proc), "the command may run although a password is configured and the client has not authenticated")
		}
	}
}

// ---------------------------------------------------------------- stores

func (m *monitor) store(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
	pos := in.Pos()
	m.kept(st, val, 0)
	switch {
	case addr.op == "fld" && addr.aux == "server.Client.authenticated" && !isAllocRoot(addr):
		m.ob("C05.grant", "authenticated is set at %s", x.p.pos(pos))
		if val != tFalse {
			req := m.srvField(st, "requirePassword", stringType)
			arg1 := st.load(mkFull("elem", "", stringType, nil, nil, mk("arr", "", m.args), tOne), stringType)
			_, off, _ := x.sliceParts(m.args)
			base, _, _ := x.sliceParts(m.args)
			arg1 = st.load(mkFull("elem", "", stringType, nil, nil, base, tAdd(off, tOne)), stringType)
			ok := m.cmd != nil && m.cmd.name == "auth" && val == tTrue &&
				(st.eval(mkCmp("eq", req, mkStr(""))) == 1 || st.eval(mkCmp("eq", req, arg1)) == 1)
			if !ok {
				// the stored value may itself be the comparison
				ok = m.cmd != nil && m.cmd.name == "auth" && impliesPassword(st, val, req, arg1)
			}
			if !ok {
				m.viol(x, st, "C05.grant", pos, pathFn(st), "the connection becomes authenticated without the configured password having been presented")
			}
		}
	case addr.op == "fld" && addr.aux == "server.Client.db" && !isAllocRoot(addr):
		m.ob("C09.select", "selection changes at %s", x.p.pos(pos))
		if addr.args[0] != m.client {
			m.viol(x, st, "C09.select", pos, pathFn(st), "the selected database of another connection is changed")
		}
		base, off, _ := x.sliceParts(m.args)
		arg1 := st.load(mkFull("elem", "", stringType, nil, nil, base, tAdd(off, tOne)), stringType)
		okIdx := false
		if val.op == "init" && val.args[0].op == "elem" {
			e := val.args[0]
			b, o, l := x.sliceParts(m.srvField(st, "dbs", nil))
			idx := tSub(e.args[1], o)
			if e.args[0] == b && st.provesGE(idx, tZero) && st.provesGE(l, tAdd(idx, tOne)) {
				if idx.op == "app" && strings.HasPrefix(idx.aux, "strconv.") && idx.args[0] == arg1 {
					okIdx = true
				}
			}
		}
		if m.cmd == nil || m.cmd.name != "select" || !okIdx {
			m.viol(x, st, "C09.select", pos, pathFn(st), "the selection is changed to %v, which is not the database with the requested valid index", val)
		}
	case addr.op == "fld" && strings.HasPrefix(addr.aux, "database.Databse.") && !isAllocRoot(addr),
		addr.op == "elem" && addr.typ != nil && shortType(addr.typ) == "*database.Databse" && !isAllocRoot(addr):
		for _, p := range []string{"C09", "C13"} {
			m.viol(x, st, p+".replaced", pos, pathFn(st), "a database is replaced as a whole (%v)", addr)
		}
	case addr.op == "fld" && addr.aux == fEntryVal && addr.args[0].op == "app" && addr.args[0].aux == "entry":
		e := addr.args[0]
		x.dput(st, e.args[0], e.args[1], val)
		m.mutate(x, st, &Mut{"set", e.args[0], e.args[1], val, false}, &Call{name: "DictEntry.Value store", instr: callAt(in)})
	case addr.op == "fld" && strings.HasPrefix(addr.aux, "datastruct.") && !isAllocRoot(addr) && x.fnInPkg(st, "server"):
		m.viol(x, st, "C12.internal", pos, pathFn(st), "command code writes the internals of a data structure (%v)", addr)
		st.setSlot("mut", "1")
		st.setSlot("pend", "m")
	case addr.op == "elem":
		if b, _, _ := x.sliceParts(m.args); m.args != nil && addr.args[0] == b {
			st.setSlot("argsmod", "1")
		}
	case addr.op == "fld" && addr.aux == "server.Server.dirty":
	}
}

// impliesPassword: the stored boolean being true means that the password matched (or none is set).
func impliesPassword(st *State, val, req, arg *Term) bool {
	s := st.clone()
	if !s.assume(val, true) {
		return true
	}
	return s.eval(mkCmp("eq", req, mkStr(""))) == 1 || s.eval(mkCmp("eq", req, arg)) == 1
}

type fakeCall struct{ ssa.CallInstruction }

func callAt(in ssa.Instruction) ssa.CallInstruction { return &posCall{in: in} }

type posCall struct {
	ssa.CallInstruction
	in ssa.Instruction
}

func (c *posCall) Pos() token.Pos { return c.in.Pos() }

func (x *Exec) fnInPkg(st *State, pkg string) bool {
	return strings.HasPrefix(fnName(st.top().fn), pkg+".") || strings.HasPrefix(fnName(st.top().fn), "(*"+pkg+".")
}

// ---------------------------------------------------------------- output

// leak reports data of a key that is shown without its freshness being established.
func (m *monitor) leak(x *Exec, st *State, t *Term, pos token.Pos, what string) {
	if m.mode != "command" {
		return
	}
	t.walk(func(u *Term) {
		for f, b := range st.bools {
			if b && f.op == "app" && f.aux == "@listed" && f.args[0] == u && isKeyspace(f.args[1]) {
				m.ob("C10.listed", "%s %s in %s", what, x.p.pos(pos), pathFn(st))
				if v := dictCell(st, dbOf(f.args[1]), u); v != nil && st.evalNil(v) == 1 {
					m.viol(x, st, "C10.listed", pos, pathFn(st), "a key found by iteration or random choice is shown although it has been removed")
				} else if !m.fresh(st, dbOf(f.args[1]), u) {
					m.viol(x, st, "C10.listed", pos, pathFn(st), "a key found by iteration or random choice is shown although it may have expired")
				}
			}
		}
	})
}

func (m *monitor) append(x *Exec, st *State, base, added, result *Term, in ssa.Instruction) {
	if es, ok := x.variadicElems(st, added); ok {
		for _, e := range es {
			m.kept(st, e, 0)
			m.leak(x, st, e, in.Pos(), "append")
		}
	}
}

func (m *monitor) isReplyList(st *State, l *Term) bool {
	return m.client != nil && st.equalTerms(l, m.cliField(st, "replayHead", nil))
}

func (m *monitor) listPush(x *Exec, st *State, l, v *Term, c *Call) {
	if !m.isReplyList(st, l) {
		return
	}
	pos := c.instr.Pos()
	if c.name != "(*container/list.List).PushBack" {
		m.viol(x, st, "C27.queue", pos, pathFn(st), "a reply is not queued at the end of the reply list")
	}
	t := v
	if t.op == "iface" {
		t = t.args[0]
	}
	m.leak(x, st, t, pos, "reply")
	site := m.replySite(st)
	if m.prop == "C27" {
		m.ob("C27.queue", "reply at %s", site)
		if !st.provesGE(x.listLenVal(st, l), mkInt(2)) && st.slot("regw") == "" && st.eval(mkCmp("ige", m.cliField(st, "fd", intType), tZero)) != 0 {
			m.viol(x, st, "C27.queue", pos, site, "a reply is queued although the connection may not be registered for writing")
		}
		if !st.provesGE(lenOf(t), tOne) {
			m.viol(x, st, "C27.queue", pos, site, "an empty reply may be queued (it would never be removed)")
		}
		return
	}
	m.ob("C04.message", "reply at %s", site)
	m.ob("C03.once", "reply at %s", site)
	ts := toksOf(t)
	if len(ts) == 0 {
		return
	}
	for len(ts) > 0 {
		msg, rest, why := m.parseMsg(st, ts)
		if why != "" {
			m.viol(x, st, "C04.message", pos, site, "%s (text %v)", why, t)
			if st.slot("reply") == "" {
				st.setSlot("reply", "ok")
			}
			return
		}
		ts = rest
		kind := "ok"
		if msg.kind == '-' {
			kind = "err"
		}
		switch st.slot("reply") {
		case "":
			if msg.kind == '*' {
				if v, ok := msg.count.intVal(); ok && v == 0 {
					st.setSlot("reply", "ok")
				} else {
					st.setSlot("reply", "arr")
					st.setGhost("need", msg.count)
					st.setGhost("got", tZero)
				}
			} else {
				st.setSlot("reply", kind)
			}
		case "arr":
			if msg.kind == '*' {
				m.viol(x, st, "C04.message", pos, site, "an array is nested in an array reply")
			}
			st.setGhost("got", tAdd(st.ghost("got"), tOne))
		default:
			m.viol(x, st, "C03.once", pos, site, "a second reply is queued for the same request")
		}
	}
}

func (m *monitor) listRemove(x *Exec, st *State, l, e *Term, c *Call) {
	if m.isReplyList(st, l) {
		m.viol(x, st, "C27.queue", c.instr.Pos(), pathFn(st), "a queued reply is removed before it is sent")
	}
}

// replySite names the command code position from which the reply was queued.
func (m *monitor) replySite(st *State) string {
	s := ""
	for i := len(st.frames) - 1; i > 0 && len(s) < 300; i-- {
		f := st.frames[i]
		if f.site != nil {
			s = m.p.pos(f.site.Pos())
			if fnName(f.fn) != "" && i >= 2 && strings.Contains(fnName(st.frames[i-1].fn), "Command") {
				break
			}
		}
	}
	return s
}

// ---------------------------------------------------------------- log

func pieces(t *Term) []*Term {
	if t.op == "concat" {
		return t.args
	}
	if s, ok := t.strVal(); ok && s == "" {
		return nil
	}
	return []*Term{t}
}

func isField(t *Term, name string, base *Term) bool {
	return t.op == "fld" && t.aux == name && t.args[0] == base
}

func (m *monitor) sb(x *Exec, st *State, sb, added *Term, c *Call) {
	if m.srv == nil {
		return
	}
	switch {
	case isField(sb, "server.Server.aofBuf", m.srv):
		m.logAppend(x, st, added, c)
	case isField(sb, "server.Server.aofRewriteBuf", m.srv):
		if st.slots["rw"] == added {
			delete(st.slots, "rw")
		} else {
			m.viol(x, st, "C22.feed", c.instr.Pos(), pathFn(st), "the rewrite buffer receives text that was not just logged")
		}
	}
}

// rawRecords parses log text that was not produced by a verified encoder.
func (m *monitor) rawRecords(st *State, t *Term) ([]*Term, bool) {
	var out []*Term
	for _, p := range pieces(t) {
		if p.op == "app" && (p.aux == "respcmd" || p.aux == "respcmd*") {
			out = append(out, p)
			continue
		}
		out = nil
		break
	}
	if out != nil {
		return out, true
	}
	ts := toksOf(t)
	for len(ts) > 0 {
		msg, rest, why := m.parseMsg(st, ts)
		if why != "" || msg.kind != '*' {
			return nil, false
		}
		n, ok := msg.count.intVal()
		if !ok {
			return nil, false
		}
		ts = rest
		var es []*Term
		for i := int64(0); i < n; i++ {
			b, rest, why := m.parseMsg(st, ts)
			if why != "" || b.kind != '$' {
				return nil, false
			}
			var parts []*Term
			for _, k := range b.text {
				if k.t != nil {
					parts = append(parts, k.t)
				} else {
					parts = append(parts, mkStr(string(k.ch)))
				}
			}
			es = append(es, mkConcat(parts...))
			ts = rest
		}
		out = append(out, mkFull("app", "respcmd", stringType, nil, nil, es...))
	}
	return out, len(out) > 0
}

func recName(r *Term) string {
	if r.aux == "respcmd" && len(r.args) > 0 {
		s, _ := r.args[0].strVal()
		return s
	}
	return ""
}

func (m *monitor) logAppend(x *Exec, st *State, added *Term, c *Call) {
	defer m.prune(st)
	pos := c.instr.Pos()
	rw := m.srv != nil
	if rw {
		st.slots["rw"] = added
	}
	m.ob("C22.feed", "log append %s", x.p.pos(pos))
	m.ob("C15.select", "log append %s", x.p.pos(pos))
	m.ob("C14.record", "log append %s", x.p.pos(pos))
	recs, ok := m.rawRecords(st, added)
	if !ok {
		for _, p := range []string{"C13", "C14", "C15", "C18"} {
			m.viol(x, st, p+".record", pos, pathFn(st), "text appended to the log is not a sequence of encoded commands: %v", added)
		}
		st.setSlot("pend", "")
		delete(st.slots, "xp")
		return
	}
	// the database
	db := st.slots["xpdb"]
	if db == nil {
		db = m.db0
	}
	if st.slots["xp"] == nil && m.mode == "command" {
		db = m.cliField(st, "db", nil)
	}
	if db != nil {
		id := st.load(fldOf("database.Databse.ID", intType, db), intType)
		cur := m.selBefore(st)
		if recName(recs[0]) == "select" && len(recs[0].args) == 2 && !(m.cmd != nil && m.cmd.name == "select") {
			t := recs[0].args[1]
			if t.op == "app" && t.aux == "itoa" {
				cur = t.args[0]
			} else {
				cur = mkInt(-99)
			}
			recs = recs[1:]
		}
		if !st.provesEqInt(cur, id) {
			m.viol(x, st, "C15.select", pos, pathFn(st), "a record of database %v is appended while the log may select another database (%v)", id, cur)
		}
		st.slots["g:logsel"] = id
		if len(recs) == 0 {
			return
		}
	}
	for _, r := range recs {
		if r.aux != "respcmd" {
			continue
		}
		nm := recName(r)
		ci := m.table[nm]
		if nm != "" && (ci == nil || ci.arity > 0 && int64(len(r.args)) != ci.arity || ci.arity < 0 && int64(len(r.args)) < -ci.arity) {
			m.viol(x, st, "C14.record", pos, pathFn(st), "the logged command %v is not one the server accepts", r)
		}
	}
	if xp := st.slots["xp"]; xp != nil {
		if len(recs) == 1 && recName(recs[0]) == "del" && len(recs[0].args) == 2 && st.equalTerms(stripKey(recs[0].args[1]), stripKey(xp)) {
			delete(st.slots, "xp")
			delete(st.slots, "xpdb")
			return
		}
		for _, p := range []string{"C13", "C14"} {
			m.viol(x, st, p+".expirylogged", pos, pathFn(st), "the removal of expired key %v is logged as %v", xp, recs[0])
		}
		delete(st.slots, "xp")
		return
	}
	if m.cmd == nil {
		return
	}
	defer func() {
		st.setSlot("pend", "")
		delete(st.slots, "pendx")
		delete(st.slots, "pendxdb")
	}()
	switch {
	case st.slots["fxclock"] != nil:
		fx := st.slots["fxclock"]
		key, val := fx.args[0], fx.args[1]
		okExp, okSet := false, st.slots["fxset"] == nil
		for _, r := range recs {
			switch recName(r) {
			case "set":
				if s := st.slots["fxset"]; s != nil && !okExp && len(r.args) == 3 && st.equalTerms(r.args[1], s.args[0]) && st.equalTerms(r.args[2], stripKey(s.args[1])) {
					okSet = true
				}
			case "expireat":
				if len(r.args) == 3 && st.equalTerms(r.args[1], key) && r.args[2].op == "app" && r.args[2].aux == "itoa" && sameMoment(val, r.args[2].args[0]) {
					okExp = true
				}
			}
		}
		if !okExp {
			m.viol(x, st, "C14.record", pos, pathFn(st), "the expiry time %v, relative to now, is not logged as the absolute time: %v", val, recs)
		}
		if !okSet {
			m.viol(x, st, "C14.record", pos, pathFn(st), "the new value is not logged before its expiry time: %v", recs)
		}
	case st.slots["fxrand"] != nil:
		k := st.slots["fxrand"]
		ok := false
		for _, r := range recs {
			if r.aux != "respcmd" || len(r.args) != 3 || m.cmd != nil && recName(r) == m.cmd.name {
				continue
			}
			base, off, _ := x.sliceParts(m.args)
			key := st.load(mkFull("elem", "", stringType, nil, nil, base, tAdd(off, tOne)), stringType)
			if recName(r) == "srem" && st.equalTerms(stripKey(r.args[2]), k) && st.equalTerms(r.args[1], key) {
				ok = true
			}
		}
		if !ok || len(recs) != 1 {
			m.viol(x, st, "C14.record", pos, pathFn(st), "the member %v was chosen at random, but the log record does not name it: %v", k, recs)
		}
	default:
		if len(recs) != 1 || !m.isOriginal(x, st, recs[0]) {
			if !(len(recs) == 1 && m.sameExpireAt(st, recs[0])) {
				m.viol(x, st, "C14.record", pos, pathFn(st), "the logged record is not the executed command: %v", recs)
			}
		}
	}
}

func (m *monitor) sameExpireAt(st *State, r *Term) bool {
	fx := st.slots["fxexp"]
	return fx != nil && recName(r) == "expireat" && len(r.args) == 3 && st.equalTerms(r.args[1], fx.args[0]) &&
		r.args[2].op == "app" && r.args[2].aux == "itoa" && tMulC(r.args[2].args[0], 1000) == fx.args[1]
}

// sameMoment: ms is a moment in milliseconds and s the same moment in seconds, both built on the clock.
func sameMoment(ms, s *Term) bool {
	d := linOf(tSub(ms, tMulC(s, 1000)))
	var cm, cs int64
	for _, a := range d.at {
		switch {
		case a.t.op == "app" && a.t.aux == "nowUnixMilli":
			cm += a.k
		case a.t.op == "app" && a.t.aux == "nowUnix":
			cs += a.k
		default:
			return false
		}
	}
	return d.c == 0 && (cm == 1 && cs == -1000 || cm == 0 && cs == 0)
}

// isOriginal: the record has exactly the words of the executed command.
func (m *monitor) isOriginal(x *Exec, st *State, r *Term) bool {
	if st.slot("argsmod") != "" {
		return false
	}
	base, off, ln := x.sliceParts(m.args)
	if r.aux == "respcmd*" {
		b, o, l := x.sliceParts(r.args[0])
		return b == base && st.provesEqInt(o, off) && st.provesEqInt(l, ln)
	}
	if !st.provesEqInt(ln, mkInt(int64(len(r.args)))) {
		return false
	}
	for i, e := range r.args {
		o := mkFull("init", "", stringType, nil, nil, mkFull("elem", "", stringType, nil, nil, base, tAdd(off, mkInt(int64(i)))))
		if i == 0 {
			if s, ok := e.strVal(); ok && m.cmd != nil && s == m.cmd.name {
				continue
			}
		}
		if !st.equalTerms(e, o) {
			return false
		}
	}
	return true
}

// selBefore: the database selected at the end of the log before this append.
func (m *monitor) selBefore(st *State) *Term {
	if t := st.slots["g:logsel"]; t != nil {
		return t
	}
	return m.sel0
}

// ---------------------------------------------------------------- end of a path

// wrongType returns a key-space value that the path has found not to have the expected type.
func (m *monitor) wrongType(st *State) *Term {
	neg := map[*Term]bool{}
	pos := map[*Term]bool{}
	for f, b := range st.bools {
		if f.op == "app" && f.aux == "typeis" {
			v := f.args[0]
			if b {
				pos[v] = true
			} else if v.op == "init" && v.args[0].op == "dcell" && isKeyspace(v.args[0].args[0]) && st.evalNil(v) == 0 {
				neg[v] = true
			}
		}
	}
	for v := range neg {
		if !pos[v] {
			return v
		}
	}
	return nil
}

func (m *monitor) ret(x *Exec, st *State, res []*Term) {
	pos := st.top().fn.Pos()
	name := fnName(st.top().fn)
	if m.cmd != nil {
		name = fnName(m.cmd.proc)
		pos = m.cmd.proc.Pos()
	}
	aofOff := m.aofOff(st)
	if m.mode == "command" {
		ok := len(res) == 0 || st.evalNil(res[len(res)-1]) == 1
		if ok && m.fate != nil {
			m.fates(x, st)
		}
		m.ob("C03.once", "path end")
		if !ok && len(res) != 0 && st.evalNil(res[len(res)-1]) == 0 && st.slot("regfail") == "" {
			m.viol(x, st, "C03.once", pos, name, "a request ends with an error of the server instead of a reply, although nothing of the connection has failed")
		}
		if ok {
			switch st.slot("reply") {
			case "":
				m.viol(x, st, "C03.once", pos, name, "a request is executed without any reply")
			case "arr":
				m.ob("C04.count", "array reply")
				m.ob("C03.complete", "array reply")
				if !st.provesEqInt(st.ghost("need"), st.ghost("got")) {
					m.viol(x, st, "C03.complete", pos, name, "the announced array length %v is not the number of elements queued %v", st.ghost("need"), st.ghost("got"))
					m.viol(x, st, "C04.count", pos, name, "the announced array length %v is not the number of elements queued %v", st.ghost("need"), st.ghost("got"))
					if st.provesGE(st.ghost("got"), tAdd(st.ghost("need"), tOne)) {
						m.viol(x, st, "C03.once", pos, name, "more elements than announced are queued")
					}
				}
			}
		}
		isErr := st.slot("reply") == "err"
		if m.oddArgs {
			m.ob("C06.pair", "path end with an incomplete pair (%s)", m.cmd.name)
			if ok && !isErr {
				m.viol(x, st, "C06.pair", pos, name, "a request with an incomplete pair is not answered with an error")
			}
		}
		m.ob("C08.unchanged", "path end")
		if isErr && st.slot("mut") != "" {
			m.viol(x, st, "C08.unchanged", pos, name, "the command answers with an error although it has changed data")
		}
		if isErr && st.eval(mkCmp("eq", m.cliField(st, "db", nil), m.db0)) != 1 && m.cliField(st, "db", nil) != m.db0 {
			m.viol(x, st, "C09.select", pos, name, "the command answers with an error although it has changed the selection")
		}
		if m.cmd == nil || st.slot("ran") == "" {
			m.ob("C06.refuse", "path end without execution")
			if ok && !isErr {
				m.viol(x, st, "C06.refuse", pos, name, "a request that is not executed is not answered with an error")
			}
		}
		if m.wrongType(st) != nil || st.slot("wrong") != "" {
			m.ob("C07.refuse", "path with a value of another type")
			if ok && !isErr {
				m.viol(x, st, "C07.refuse", pos, name, "the key holds another type, but the reply is not an error")
			}
		}
		if m.cmd != nil && m.cmd.name == "auth" && st.slot("ran") != "" && isErr {
			m.ob("C05.failed", "failed authentication")
			a := m.cliField(st, "authenticated", boolType)
			if st.eval(a) == 1 && m.auth0 != a {
				m.viol(x, st, "C05.failed", pos, name, "a failed authentication leaves the connection authenticated")
			}
			if a == m.auth0 && st.eval(a) != 0 {
				m.viol(x, st, "C05.failed", pos, name, "a failed authentication does not revoke an earlier one")
			}
		}
	}
	if m.mode == "cron" && m.prop == "C36" {
		m.visitedAll(x, st, pos, name)
	}
	if m.mode == "command" || m.mode == "cron" {
		m.ob("C13.logged", "path end")
		m.settleExpire(st)
		if st.slot("pend") != "" && !aofOff {
			m.viol(x, st, "C13.logged", pos, name, "the data set has been changed without a record being appended to the log")
		}
		if st.slots["xp"] != nil && !aofOff {
			for _, p := range []string{"C13", "C14"} {
				m.viol(x, st, p+".expirylogged", pos, name, "the removal of expired key %v is not logged", st.slots["xp"])
			}
		}
		if st.slots["rw"] != nil {
			bt := st.load(mkFull("fld", "atomic.v", types.Typ[types.Uint32], nil, nil, fldOf("server.Server.backgroundTaskTypeAtomic", nil, m.srv)), types.Typ[types.Uint32])
			_ = bt
			if !m.noRewrite(st) {
				m.viol(x, st, "C22.feed", pos, name, "a logged change is not kept for the log rewrite in progress")
			}
		}
		if t := st.slots["g:logsel"]; t != nil {
			cur := m.srvField(st, "aofSelectDBID", intType)
			if !st.provesEqInt(cur, t) && !st.provesEqInt(cur, mkInt(-1)) {
				m.viol(x, st, "C15.select", pos, name, "the remembered database of the log (%v) differs from the one its last record selected (%v)", cur, t)
			}
		} else if m.srv != nil {
			cur := m.srvField(st, "aofSelectDBID", intType)
			m.ob("C15.remember", "path end")
			if !st.provesEqInt(cur, m.sel0) && !st.provesEqInt(cur, mkInt(-1)) {
				m.viol(x, st, "C15.remember", pos, name, "the remembered database of the log changes to %v without a record being appended", cur)
			}
		}
		if t := st.slots["expset"]; t != nil {
			m.viol(x, st, "C11.exists", pos, name, "a time-to-live is set for %v, which may not exist", t)
		}
		if t := st.slots["ddel"]; t != nil {
			m.viol(x, st, "C11.together", pos, name, "key %v is removed, but its time-to-live may remain", t)
			m.viol(x, st, "C36.complete", pos, name, "key %v is removed, but its time-to-live may remain", t)
		}
		if t := st.slots["ow"]; t != nil {
			m.viol(x, st, "C11.overwrite", pos, name, "key %v is overwritten, but its time-to-live may remain", t)
		}
		if t := st.slots["new"]; t != nil {
			m.ob("C34.created", "created container")
			m.viol(x, st, "C34.created", pos, name, "an empty collection is left behind")
		}
		for _, s := range []string{"rem1", "rem2"} {
			t := st.slots[s]
			if t == nil {
				continue
			}
			if m.goneOrFull(x, st, t) {
				continue
			}
			n := x.csize(st, t)
			m.viol(x, st, "C34.removal", pos, name, "elements of %v are removed, and the key may remain although the collection is empty (size %v)", t, n)
		}
	}
}

// fates records whether the dispatcher leaves the fields of the client alone or puts them back to their first value.
func (m *monitor) fates(x *Exec, st *State) {
	for f, old := range m.fate {
		if old == "mixed" {
			continue
		}
		name, want := f, ""
		if i := strings.Index(f, "="); i > 0 {
			name, want = f[:i], f[i+1:]
		}
		t := m.p.fieldType("server", "Client", name)
		addr := fldOf("server.Client."+name, t, m.client)
		cur := st.load(addr, t)
		first := mkFull("init", "", t, nil, nil, addr)
		now := "mixed"
		switch {
		case cur == first:
			now = "same"
		case name == "args" && (cur == tNil || st.provesEqInt(lenOf(cur), tZero)):
			now = "reset"
		case want != "" && cur.String() == want:
			now = "reset"
		}
		if old != "" && old != now {
			now = "mixed"
		}
		m.fate[f] = now
	}
}

func (m *monitor) noRewrite(st *State) bool {
	cell := mkFull("fld", "atomic.v", types.Typ[types.Uint32], nil, nil, m.p.atomicField(m.srv))
	v := st.load(cell, types.Typ[types.Uint32])
	return st.eval(mkCmp("ieq", v, mkInt(2))) == 0
}

func (p *Prog) atomicField(srv *Term) *Term {
	return mkFull("fld", "server.Server.backgroundTaskTypeAtomic", p.fieldType("server", "Server", "backgroundTaskTypeAtomic"), nil, nil, srv)
}

func (p *Prog) fieldType(pkg, typ, field string) types.Type {
	n := p.namedType(pkg, typ)
	if n == nil {
		return nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return s.Field(i).Type()
		}
	}
	return nil
}

// ---------------------------------------------------------------- obligations

func (m *monitor) oblig(x *Exec, st *State, kind string, ok bool, in ssa.Instruction, detail string) {
	rules := []string{}
	switch kind {
	case "overflow":
		rules = []string{"C39.overflow"}
		if m.cmd != nil && readCommands[m.cmd.name] && m.loading(st) {
			return // a query in the log changes nothing and is not answered
		}
	case "index":
		rules = []string{"C01.index"}
		if m.mode == "command" {
			rules = append(rules, "C06.argument")
		}
	case "typeassert":
		rules = []string{"C01.typeassert", "C07.assert"}
	case "nilderef":
		if !ok && !strings.Contains(detail, "!nil") {
			// only lookups that may yield nothing
		}
		rules = []string{"C01.nil"}
	default:
		rules = []string{"C01." + kind}
	}
	for _, r := range rules {
		m.ob(r, "%s at %s in %s", kind, x.p.pos(in.Pos()), fnName(in.Parent()))
		if !ok {
			m.viol(x, st, r, in.Pos(), fnName(in.Parent()), "%s not shown: %s", kind, detail)
		}
	}
}

var readCommands = map[string]bool{}

func init() {
	for _, n := range strings.Fields("ping select auth get ttl keys randomget hget hexists hkeys hlen llen lindex lrange scard sismember smembers sdiff sinter sunion zrange zrangebyscore zcard zcount zscore bgrewriteaof " +
		"exists type pttl mget strlen hgetall hvals hmget srandmember zrank zrevrank zrevrange echo dbsize scan") {
		readCommands[n] = true
	}
}
