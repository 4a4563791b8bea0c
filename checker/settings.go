package main

import (
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The settings: from the sample configuration file through the configuration record to what the server does.

type docKey struct {
	name   string
	line   int
	kinds  map[string]bool // int, bool, string, size
	values []string        // documented values of the key, as text
}

var (
	tomlKey  = regexp.MustCompile(`^#?\s*([A-Za-z][A-Za-z0-9_.-]*)\s*=\s*(.+?)\s*$`)
	altLine  = regexp.MustCompile(`^#\s*([a-z]+(?:\s*\|\s*[a-z]+)+)\s*$`)
	sizeText = regexp.MustCompile(`^[0-9]+\s*[kKmMgGtT]?[bB]$`)
)

// documented reads the sample configuration: settings in use, settings that are commented out, lists of alternatives.
func documented(root string) ([]*docKey, error) {
	data, err := os.ReadFile(filepath.Join(root, "config.toml"))
	if err != nil {
		return nil, err
	}
	by := map[string]*docKey{}
	var out []*docKey
	var alts []string
	for i, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if m := altLine.FindStringSubmatch(l); m != nil {
			alts = nil
			for _, v := range strings.Split(m[1], "|") {
				alts = append(alts, strings.TrimSpace(v))
			}
			continue
		}
		m := tomlKey.FindStringSubmatch(l)
		if m == nil {
			alts = nil
			continue
		}
		k := by[m[1]]
		if k == nil {
			k = &docKey{name: m[1], line: i + 1, kinds: map[string]bool{}}
			by[m[1]] = k
			out = append(out, k)
		}
		k.values = append(k.values, alts...)
		alts = nil
		v := m[2]
		switch {
		case v == "true" || v == "false":
			k.kinds["bool"] = true
		case strings.HasPrefix(v, "\""):
			s := strings.Trim(v, "\"")
			k.values = append(k.values, s)
			if sizeText.MatchString(s) {
				k.kinds["size"] = true
			} else {
				k.kinds["string"] = true
			}
		default:
			if _, err := strconv.ParseInt(v, 10, 64); err == nil {
				k.kinds["int"] = true
			}
		}
	}
	return out, nil
}

type settings struct {
	p    *Prog
	r    *Report
	cfg  *types.Named
	tags map[string]int // key → field
}

func exploreSettings(p *Prog, r *Report) {
	a := &settings{p: p, r: r, cfg: p.namedType("config", "Config"), tags: map[string]int{}}
	if a.cfg == nil {
		r.fail("undecided", "config.Config", "-", "the configuration record is not found")
		return
	}
	a.keys()
	a.read()
	a.ctor()
	a.bind()
	a.levels()
	a.rewrite()
}

func (a *settings) st() *types.Struct { return a.cfg.Underlying().(*types.Struct) }

// keys: every documented key sets a field of the right kind.
func (a *settings) keys() {
	p, r := a.p, a.r
	keys, err := documented(p.repo)
	if err != nil {
		r.fail("undecided", "config.toml", "-", "%v", err)
		return
	}
	for i := 0; i < a.st().NumFields(); i++ {
		tag := reflect.StructTag(a.st().Tag(i)).Get("mapstructure")
		if tag = strings.Split(tag, ",")[0]; tag == "" {
			tag = a.st().Field(i).Name()
		}
		if tag != "-" {
			a.tags[strings.ToLower(tag)] = i
		}
	}
	got := a.explicit()
	for _, k := range keys {
		r.oblig("C38.key", "config.toml:"+strconv.Itoa(k.line)+" "+k.name)
		where := "config.toml:" + strconv.Itoa(k.line)
		if fn, ok := got[strings.ToLower(k.name)]; ok {
			if k.kinds["size"] && !strings.HasSuffix(fn, "GetSizeInBytes") {
				r.fail("C38.key", "config.LoadConfig", where, "the option %s is a size with a unit, but it is read with %s", k.name, fn)
			}
			if i, ok := a.tags[strings.ToLower(k.name)]; ok && k.kinds["size"] {
				r.fail("C38.key", "config.Config", p.pos(a.st().Field(i).Pos()), "the option %s is a size with a unit: reading it into a number fails", k.name)
			}
			continue
		}
		i, ok := a.tags[strings.ToLower(k.name)]
		if !ok {
			r.fail("C38.key", "config.Config", where, "no field of the configuration record is set by the documented option %s: it has no effect", k.name)
			continue
		}
		f := a.st().Field(i)
		b, _ := f.Type().Underlying().(*types.Basic)
		if b == nil {
			continue
		}
		okKind := true
		switch {
		case k.kinds["size"]:
			okKind = b.Info()&types.IsString != 0
		case k.kinds["string"]:
			okKind = b.Info()&types.IsString != 0
		case k.kinds["bool"]:
			okKind = b.Info()&types.IsBoolean != 0
		case k.kinds["int"]:
			okKind = b.Info()&types.IsInteger != 0
		}
		if !okKind {
			r.fail("C38.key", "config.Config", p.pos(f.Pos()), "the documented value of the option %s does not fit the field %s (%s)", k.name, f.Name(), f.Type())
		}
		// documented alternatives are the constants of the field's type
		if nt, ok := f.Type().(*types.Named); ok && nt.Obj().Pkg() == a.cfg.Obj().Pkg() && b.Info()&types.IsString != 0 {
			vals := map[string]string{}
			sc := nt.Obj().Pkg().Scope()
			for _, n := range sc.Names() {
				if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), nt) {
					v := constText(c)
					r.oblig("C38.value", n)
					if vals[v] != "" {
						r.fail("C38.value", n, p.pos(c.Pos()), "%s and %s are the same value %q: one of the behaviours cannot be chosen", n, vals[v], v)
					}
					vals[v] = n
				}
			}
			for _, v := range k.values {
				if vals[v] == "" {
					r.fail("C38.value", nt.Obj().Name(), where, "the documented value %q of the option %s is not among the values the server knows", v, k.name)
				}
			}
		}
	}
}

func constText(c *types.Const) string {
	if s, err := strconv.Unquote(c.Val().ExactString()); err == nil {
		return s
	}
	return c.Val().ExactString()
}

// explicit: the keys that are read one by one, with the function that reads them.
func (a *settings) explicit() map[string]string {
	out := map[string]string{}
	for _, f := range a.p.funcs {
		if pkgName(f) != "config" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || !strings.Contains(fnName(g), "viper.Get") {
					continue
				}
				for _, arg := range ci.Common().Args {
					if c, ok := arg.(*ssa.Const); ok && c.Value != nil && isStringType(c.Type()) {
						if s, err := strconv.Unquote(c.Value.ExactString()); err == nil {
							k := strings.ToLower(s)
							if old := out[k]; old == "" || strings.HasSuffix(old, "GetSizeInBytes") {
								out[k] = fnName(g)
							}
						}
					}
				}
			}
		}
	}
	return out
}

// read: loading the configuration reads the given file into the record that is returned, on every path.
func (a *settings) read() {
	p, r := a.p, a.r
	n := 0
	for _, f := range p.funcs {
		if pkgName(f) != "config" || f.Parent() != nil || f.Signature.Results().Len() == 0 || shortType(f.Signature.Results().At(0).Type()) != "*config.Config" {
			continue
		}
		n++
		explicit := a.explicit()
		// the part that runs once is a closure
		for g := range p.withClosures(f) {
			reads := false
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if c := ci.Common().StaticCallee(); c != nil && strings.HasSuffix(fnName(c), "viper.ReadInConfig") {
							reads = true
						}
					}
				}
			}
			if !reads {
				continue
			}
			h := &Hooks{}
			h.Call = func(x *Exec, st *State, c *Call) ([]Outcome, bool) {
				pos := c.instr.Pos()
				switch {
				case strings.HasSuffix(c.name, "viper.SetConfigFile"):
					r.oblig("C38.file", p.pos(pos))
					if _, isConst := c.args[0].strVal(); isConst {
						x.violate(st, "C38.file", pathFn(st), pos, "the configuration is always read from %v", c.args[0])
					}
					st.setSlot("file", "1")
				case strings.HasSuffix(c.name, "viper.ReadInConfig"):
					if st.slot("file") == "" {
						x.violate(st, "C38.file", pathFn(st), pos, "the configuration is read before the file has been named")
					}
					outs := x.freshResults(st, c)
					for _, o := range outs {
						if o.res[0] == tNil {
							o.st.setSlot("read", "1")
						}
					}
					return outs, true
				case strings.HasSuffix(c.name, "viper.Unmarshal"):
					outs := x.freshResults(st, c)
					for _, o := range outs {
						if o.res[0] == tNil && o.st.slot("read") != "" {
							o.st.setSlot("decoded", "1")
							o.st.slots["g:cfg"] = c.args[0]
						}
					}
					return outs, true
				case strings.Contains(c.name, "viper.Get"):
					if k, ok := c.args[0].strVal(); ok {
						v := x.fresh(st, "setting", c.sig.Results().At(0).Type())
						st.slots["g:set:"+strings.ToLower(k)] = v
						return one(st, v), true
					}
				}
				if c.fn != nil && !inRepo(c.fn) && findModel(c) == nil {
					return x.freshResults(st, c), true
				}
				return nil, false
			}
			h.Return = func(x *Exec, st *State, res []*Term) {
				r.oblig("C38.read", p.pos(g.Pos()))
				if st.slot("decoded") == "" {
					x.violate(st, "C38.read", pathFn(st), g.Pos(), "loading the configuration returns without having read the file into the record")
					return
				}
				var ks []string
				for k := range explicit {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					v := st.slots["g:set:"+k]
					ok := false
					for c, w := range st.mem {
						if c.op == "fld" && strings.HasPrefix(c.aux, "config.Config.") && v != nil && w == v {
							ok = true
						}
					}
					if !ok {
						x.violate(st, "C38.read", pathFn(st), g.Pos(), "the option %s is not set in the configuration record on every path", k)
					}
				}
			}
			x := newExec(p, r, h)
			x.entry = fnName(g)
			st := newState()
			e := newCbEnv(p, st)
			args, free := e.args(st, cbRoot{fn: g})
			x.Run(g, st, args, free)
			r.use(x)
		}
	}
	if n == 0 {
		r.fail("undecided", "config", "-", "the function that loads the configuration is not found")
	}
}

// wiring: the field of the server that holds a setting.
var wiring = map[string]string{"Host": "host", "Port": "port", "RequirePassword": "requirePassword", "AofEnable": "aofEnable", "AofFilename": "aofFilename",
	"AofFsync": "aofFsync", "AofRewritePercent": "aofRewritePercent", "AofRewriteMinSize": "aofRewriteMinSize"}

// ctor: the constructor takes over every setting unchanged.
func (a *settings) ctor() {
	p, r := a.p, a.r
	// every field of the record is used outside of the configuration package
	for i := 0; i < a.st().NumFields(); i++ {
		f := a.st().Field(i)
		used := false
		for _, g := range p.funcs {
			if pkgName(g) == "config" {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && fieldName(u.X) == "config.Config."+f.Name() {
						used = true
					}
				}
			}
		}
		r.oblig("C38.used", f.Name())
		if !used {
			r.fail("C38.used", "config.Config."+f.Name(), p.pos(f.Pos()), "the setting %s is never used", f.Name())
		}
	}
	for _, f := range p.funcs {
		if pkgName(f) != "server" || f.Parent() != nil || f.Signature.Results().Len() == 0 || shortType(f.Signature.Results().At(0).Type()) != "*server.Server" {
			continue
		}
		var cfg *Term
		h := &Hooks{}
		dbsT := p.fieldType("server", "Server", "dbs")
		h.Call = func(x *Exec, st *State, c *Call) ([]Outcome, bool) {
			if c.fn != nil && inRepo(c.fn) && (pkgName(c.fn) == "server" || pkgName(c.fn) == "database") {
				return nil, false
			}
			if c.fn != nil && findModel(c) == nil {
				outs := x.freshResults(st, c)
				for _, o := range outs {
					for _, v := range o.res {
						if v.typ != nil {
							if _, isPtr := v.typ.Underlying().(*types.Pointer); isPtr && inRepo(c.fn) {
								o.st.assume(mkCmp("eq", v, tNil), false)
							}
						}
					}
				}
				return outs, true
			}
			return nil, false
		}
		put := func(x *Exec, st *State, i, val *Term, in ssa.Instruction) {
			idT := p.fieldType("database", "Databse", "ID")
			if idT == nil {
				return
			}
			r.oblig("C38.databases", p.pos(in.Pos()))
			if id := st.load(fldOf("database.Databse.ID", idT, val), idT); !st.provesEqInt(id, i) {
				x.violate(st, "C38.databases", pathFn(st), in.Pos(), "database number %v of the server has the number %v: its changes are recorded for another one", i, id)
			}
			if n := st.ghost("made"); st.provesEqInt(i, n) {
				st.setGhost("made", tAdd(n, tOne))
			}
		}
		h.Store = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok || addr.op != "elem" || shortType(s.Val.Type()) != "*database.Databse" {
				return
			}
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
				if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
					return
				}
			}
			put(x, st, addr.args[1], val, in)
		}
		h.Append = func(x *Exec, st *State, base, added, result *Term, in ssa.Instruction) {
			v, ok := in.(ssa.Value)
			if !ok || shortType(v.Type()) != "[]*database.Databse" {
				return
			}
			es, ok := x.variadicElems(st, added)
			if !ok {
				x.giveUp("databases appended at %s", p.pos(in.Pos()))
				return
			}
			n := tZero
			if base.op != "nil" {
				n = lenOf(base)
			}
			for i, e := range es {
				put(x, st, tAdd(n, mkInt(int64(i))), e, in)
			}
		}
		h.Return = func(x *Exec, st *State, res []*Term) {
			if len(st.frames) > 1 || len(res) == 0 || st.evalNil(res[0]) == 1 {
				return
			}
			for _, cf := range sortedKeys(wiring) {
				ct, stt := p.fieldType("config", "Config", cf), p.fieldType("server", "Server", wiring[cf])
				if ct == nil || stt == nil {
					r.fail("undecided", "setting "+cf, "-", "the setting %s or the server's field %s is not found", cf, wiring[cf])
					continue
				}
				r.oblig("C38.taken", cf)
				want := st.load(fldOf("config.Config."+cf, ct, cfg), ct)
				got := st.load(fldOf("server.Server."+wiring[cf], stt, res[0]), stt)
				if got != want && !st.equalTerms(got, want) && !sameBool(st, got, want) {
					x.violate(st, "C38.taken", pathFn(st), f.Pos(), "the server runs with %v instead of the setting %s", got, cf)
				}
			}
			if dbsT == nil {
				return
			}
			r.oblig("C38.databases", p.pos(f.Pos()))
			n := lenOf(st.load(fldOf("server.Server.dbs", dbsT, res[0]), dbsT))
			want := st.load(fldOf("config.Config.DatabaseNum", intType, cfg), intType)
			if !st.provesGE(n, tOne) {
				x.violate(st, "C38.databases", pathFn(st), f.Pos(), "the server may have no database: the first connection crashes it")
			}
			if st.eval(mkCmp("ige", want, tOne)) != 0 && !st.provesEqInt(n, want) {
				x.violate(st, "C38.databases", pathFn(st), f.Pos(), "the server has %v databases instead of the number that has been set", n)
			}
			if !st.provesGE(st.ghost("made"), n) {
				x.violate(st, "C38.databases", pathFn(st), f.Pos(), "not all databases of the server are made")
			}
		}
		x := newExec(p, r, h)
		x.entry = fnName(f)
		st := newState()
		var args []*Term
		for _, pr := range f.Params {
			t := sym(pr.Name(), pr.Type())
			if shortType(pr.Type()) == "*config.Config" {
				cfg = nonNil(st, t)
			}
			args = append(args, t)
		}
		if cfg == nil {
			r.fail("undecided", fnName(f), p.pos(f.Pos()), "the constructor does not take the configuration")
			return
		}
		st.setGhost("made", tZero)
		x.Run(f, st, args, nil)
		r.use(x)
	}
}

func sortedKeys(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func sameBool(st *State, a, b *Term) bool {
	x, y := st.eval(a), st.eval(b)
	return x >= 0 && x == y && a.typ != nil && types.Identical(a.typ.Underlying(), boolType)
}

// bind: the server listens at the address and port that have been set.
func (a *settings) bind() {
	p, r := a.p, a.r
	n := 0
	for _, f := range p.runRoots() {
		n++
		bound := 0
		h := &Hooks{}
		var srv *Term
		h.Call = func(x *Exec, st *State, c *Call) ([]Outcome, bool) {
			pos := c.instr.Pos()
			get := func(n string) *Term {
				t := p.fieldType("server", "Server", n)
				if t == nil {
					return nil
				}
				return st.load(fldOf("server.Server."+n, t, srv), t)
			}
			switch c.name {
			case "net.ParseIP":
				r.oblig("C38.bind", p.pos(pos))
				if w := get("host"); w == nil || !st.equalTerms(c.args[0], w) {
					x.violate(st, "C38.bind", pathFn(st), pos, "the server listens at %v instead of the address that has been set", c.args[0])
				}
				return one(st, x.fresh(st, "parsedip", c.sig.Results().At(0).Type())), true
			case "(net.IP).To4":
				return one(st, x.fresh(st, "ip4", c.sig.Results().At(0).Type())), true
			case "syscall.Bind":
				bound++
				r.oblig("C38.bind", p.pos(pos))
				sa := c.args[1]
				if sa.op == "iface" {
					sa = sa.args[0]
				}
				pt := types.Typ[types.Int]
				port := st.mem[fldOf("syscall.SockaddrInet4.Port", pt, sa)]
				if w := get("port"); port == nil || w == nil || port != w && !st.provesEqInt(port, w) {
					x.violate(st, "C38.bind", pathFn(st), pos, "the server listens on port %v instead of the port that has been set", port)
				}
				if st.slot("copied") == "" {
					x.violate(st, "C38.bind", pathFn(st), pos, "the server does not listen at the address that has been set")
				}
				return x.freshResults(st, c), true
			}
			if c.fn != nil && inRepo(c.fn) && c.fn.Blocks != nil {
				if p.reaches(c.fn, "syscall.Bind") || pkgName(c.fn) == "socket" && !p.reachesNet(c.fn) {
					return nil, false
				}
				return x.freshResults(st, c), true
			}
			if c.fn != nil && findModel(c) == nil {
				return x.freshResults(st, c), true
			}
			return nil, false
		}
		h.CopyTo = func(x *Exec, st *State, dst, src *Term, in ssa.Instruction) {
			b, _, _ := x.sliceParts(dst)
			if b.op == "fld" && strings.HasPrefix(b.aux, "syscall.Sockaddr") && strings.HasPrefix(src.String(), "ip4") {
				st.setSlot("copied", "1")
			}
		}
		x := newExec(p, r, h)
		x.joinHeads = true
		x.entry = fnName(f)
		st := newState()
		e := newCbEnv(p, st)
		srv = e.srv
		args, free := e.args(st, cbRoot{fn: f})
		x.Run(f, st, args, free)
		r.use(x)
		if bound == 0 {
			r.fail("undecided", fnName(f), p.pos(f.Pos()), "the function that runs the server does not bind an address")
		}
	}
	if n == 0 {
		r.fail("undecided", "server", "-", "no function that runs the event loop is found")
	}
}

// levels: every documented log level selects that level, and the log file that has been set is used.
func (a *settings) levels() {
	p, r := a.p, a.r
	keys, err := documented(p.repo)
	if err != nil {
		return
	}
	var vals []string
	for _, k := range keys {
		if k.name == "loglevel" {
			vals = append(vals, k.values...)
		}
	}
	sort.Strings(vals)
	lt, ft := p.fieldType("config", "Config", "LogLevel"), p.fieldType("config", "Config", "LogFilepath")
	if lt == nil || ft == nil {
		r.fail("undecided", "config.Config", "-", "the settings of the log are not found")
		return
	}
	for f := range p.loggerInits() {
		for g := range p.withClosures(f) {
			makes := false
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if gl, ok := s.Addr.(*ssa.Global); ok && isFuncVar(gl) {
							makes = true
						}
					}
				}
			}
			if !makes {
				continue
			}
			seen := map[string]bool{}
			for _, v := range vals {
				if seen[v] {
					continue
				}
				seen[v] = true
				var cfg *Term
				h := &Hooks{}
				h.Call = func(x *Exec, st *State, c *Call) ([]Outcome, bool) {
					if c.fn == nil || inRepo(c.fn) && pkgName(c.fn) == "log" {
						return nil, false
					}
					if i := strings.Index(c.name, "logger.With"); i >= 0 && strings.HasSuffix(c.name, "Level") {
						st.setSlot("level", strings.ToLower(strings.TrimSuffix(c.name[i+len("logger.With"):], "Level")))
					}
					if strings.Contains(c.name, "logger.WithFile") {
						if st.equalTerms(c.args[0], st.load(fldOf("config.Config.LogFilepath", ft, cfg), ft)) {
							st.setSlot("file", "1")
						}
					}
					if findModel(c) == nil {
						return x.freshResults(st, c), true
					}
					return nil, false
				}
				h.Return = func(x *Exec, st *State, res []*Term) {
					if len(st.frames) > 1 {
						return
					}
					r.oblig("C38.level", v)
					if l := st.slot("level"); l != v {
						if l == "" {
							l = "default"
						}
						x.violate(st, "C38.level", pathFn(st), g.Pos(), "with the log level %q the level %q is in effect", v, l)
					}
					r.oblig("C38.logfile", p.pos(g.Pos()))
					name := st.load(fldOf("config.Config.LogFilepath", ft, cfg), ft)
					if st.slot("file") == "" && st.eval(mkCmp("eq", name, mkStr(""))) != 1 {
						x.violate(st, "C38.logfile", pathFn(st), g.Pos(), "the log file that has been set is not used")
					}
				}
				x := newExec(p, r, h)
				x.entry = fnName(g) + " with level " + v
				st := newState()
				e := newCbEnv(p, st)
				cfg = nonNil(st, sym("cfg", types.NewPointer(a.cfg)))
				st.mem[fldOf("config.Config.LogLevel", lt, cfg)] = mkStr(v)
				args, free := e.args(st, cbRoot{fn: g})
				for i, pr := range g.Params {
					if shortType(pr.Type()) == "*config.Config" {
						args[i] = cfg
					}
				}
				for i, fv := range g.FreeVars {
					switch shortType(fv.Type()) {
					case "*config.Config":
						free[i] = cfg
					case "**config.Config":
						st.mem[free[i]] = cfg
					}
				}
				x.Run(g, st, args, free)
				r.use(x)
			}
		}
	}
}

// rewrite: the automatic rewrite starts only above the size and growth that have been set, and does start there.
func (a *settings) rewrite() {
	p, r := a.p, a.r
	taskNone, taskRewrite = p.taskConst("TypeBackgroundTaskNone", 0), p.taskConst("TypeBackgroundTaskAOFRewrite", 2)
	n := 0
	for _, c := range p.callbacks() {
		if c.kind != "time" {
			continue
		}
		launches := false
		for g := range p.reach([]*ssa.Function{c.fn}, nil) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if gi, ok := in.(*ssa.Go); ok {
						for _, t := range p.callTargets(gi) {
							launches = launches || p.isRewriter(t)
						}
					}
				}
			}
		}
		if !launches {
			continue
		}
		n++
		fa := &fileAn{p: p, r: r, prop: "C38", kind: "time", policy: "no", noneRW: true, state0: taskNone, times: map[string]bool{}, relevant: map[*ssa.Function]bool{}}
		h := fa.hooks()
		var pct, min, size *Term
		h.Go = func(x *Exec, st *State, c *Call) {
			if c.fn == nil || !p.isRewriter(c.fn) {
				return
			}
			st.setSlot("launched", "1")
			r.oblig("C38.rewrite", p.pos(c.instr.Pos()))
			if !st.provesGE(pct, tOne) {
				x.violate(st, "C38.rewrite", pathFn(st), c.instr.Pos(), "the log is rewritten automatically on a path that has not established that auto-aof-rewrite-percentage is not 0")
			}
			if !st.provesGE(size, min) {
				x.violate(st, "C38.rewrite", pathFn(st), c.instr.Pos(), "the log is rewritten automatically on a path that has not established that it has the size auto-aof-rewrite-min-size")
			}
		}
		h.Return = func(x *Exec, st *State, res []*Term) {
			if len(st.frames) > 1 || st.slot("launched") != "" || st.slot("impossible") != "" {
				return
			}
			r.oblig("C38.rewrite", p.pos(c.fn.Pos()))
			// the path has found a reason: switched off, too small, not grown enough
			if st.provesGE(tZero, pct) || st.provesGE(min, size) {
				return
			}
			grown := false
			for _, l := range st.lin.ge {
				hasP, hasS := false, false
				mkLin(l).walk(func(t *Term) {
					hasP = hasP || t == pct || mentions(t, pct)
					hasS = hasS || mentions(t, size) && t != size
				})
				grown = grown || hasP && hasS
			}
			if !grown {
				x.violate(st, "C38.rewrite", pathFn(st), c.fn.Pos(), "the log is not rewritten on a path that has not found it to be smaller, or to have grown less, than has been set")
			}
		}
		x := newExec(p, r, h)
		x.joinHeads = true
		x.entry = fnName(c.fn)
		st := newState()
		e := newCbEnv(p, st)
		args, free := e.args(st, c)
		fa.start(st, e)
		for _, f := range []struct {
			n string
			t **Term
		}{{"aofRewritePercent", &pct}, {"aofRewriteMinSize", &min}, {"aofCurrentSize", &size}} {
			if fa.p.fieldType("server", "Server", f.n) == nil {
				r.fail("undecided", "server.Server", "-", "the field %s is not found", f.n)
				return
			}
			*f.t = fa.field(st, f.n)
			st.assumeGE(*f.t, tZero)
			st.assumeGE(mkInt(1<<55), *f.t)
		}
		x.Run(c.fn, st, args, free)
		r.use(x)
	}
	if n == 0 {
		r.fail("C38.rewrite", "timers", "-", "no timer rewrites the log: auto-aof-rewrite-percentage and auto-aof-rewrite-min-size have no effect")
	}
}
