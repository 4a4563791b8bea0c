package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/IfanTsai/metis"

// Prog is the type-checked program in SSA form.
type Prog struct {
	rpoOf     map[*ssa.Function]map[*ssa.BasicBlock]int
	repo      string
	fset      *token.FileSet
	pkgs      []*packages.Package // repository packages
	ssa       *ssa.Program
	byPath    map[string]*ssa.Package
	funcs     []*ssa.Function // all functions with a body declared in the repository
	byName    map[string]*ssa.Function
	neverNil  map[string]string
	encCands  map[*ssa.Function]encShape
	roGlob    map[*ssa.Global]bool // globals that are assigned during initialisation only
	loops     map[*ssa.Function]*loopForest
	live      map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	callers   map[*ssa.Function][]ssa.CallInstruction
	allFns    map[*ssa.Function]bool
	addrTaken []*ssa.Function
}

func loadProg(repo string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check failed: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{repo: repo, fset: prog.Fset, pkgs: ps, ssa: prog, byPath: map[string]*ssa.Package{},
		byName: map[string]*ssa.Function{}, roGlob: map[*ssa.Global]bool{},
		loops: map[*ssa.Function]*loopForest{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{},
		callers: map[*ssa.Function][]ssa.CallInstruction{}}
	for _, sp := range prog.AllPackages() {
		p.byPath[sp.Pkg.Path()] = sp
	}
	all := ssautil.AllFunctions(prog)
	p.allFns = all
	for fn := range all {
		if fn.Blocks != nil && inRepo(fn) && fn.Synthetic == "" {
			p.funcs = append(p.funcs, fn)
			p.byName[fnName(fn)] = fn
		} else if inRepo(fn) && fn.Name() == "init" {
			p.byName[fnName(fn)] = fn
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return fnName(p.funcs[i]) < fnName(p.funcs[j]) })
	// read-only globals of the repository and of its dependencies
	written := map[*ssa.Global]bool{}
	for fn := range all {
		if fn.Blocks == nil {
			continue
		}
		isInit := fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil && inRepo(fn) {
						p.callers[cal] = append(p.callers[cal], c)
					}
				}
				if isInit {
					continue
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					// any use other than a plain load may modify it
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					if _, ok := in.(*ssa.FieldAddr); ok { // address of a field: conservatively written
						written[g] = true
						continue
					}
					written[g] = true
				}
			}
		}
	}
	for _, sp := range prog.AllPackages() {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !written[g] {
				p.roGlob[g] = true
			}
		}
	}
	return p, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return f.Origin().Pkg.Pkg
		}
	}
	return nil
}

func inRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// fnName is a canonical function name with the module prefix removed, e.g. (*datastruct.Dict).Set.
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func shortType(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, nil), modPath+"/", "")
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.fset.Position(pos)
	return strings.TrimPrefix(q.Filename, p.repo+"/") + ":" + fmt.Sprint(q.Line)
}

func (p *Prog) fn(name string) *ssa.Function { return p.byName[name] }

// namedType looks up a type of the repository, e.g. ("server","Client").
func (p *Prog) namedType(pkg, name string) *types.Named {
	sp := p.byPath[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// ---------------------------------------------------------------- loops

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	name   string
}

type loopForest struct {
	heads map[*ssa.BasicBlock]*loopInfo
}

func (p *Prog) loopsOf(fn *ssa.Function) *loopForest {
	if f, ok := p.loops[fn]; ok {
		return f
	}
	lf := &loopForest{heads: map[*ssa.BasicBlock]*loopInfo{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := lf.heads[s]
				if li == nil {
					li = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}, name: fmt.Sprintf("%s.%d", fnName(fn), s.Index)}
					lf.heads[s] = li
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if li.blocks[x] {
						continue
					}
					li.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	p.loops[fn] = lf
	return lf
}

// liveIn computes the values live at the start of each block (after its phis).
func (p *Prog) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := p.live[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		res[b] = map[ssa.Value]bool{}
	}
	isLocal := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range res[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					live[v] = true
				}
				pi := -1
				for j, pr := range s.Preds {
					if pr == b {
						pi = j
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for j, pr := range s.Preds {
						if pr == b && isLocal(ph.Edges[j]) {
							live[ph.Edges[j]] = true
						}
					}
				}
				_ = pi
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if ph, ok := in.(*ssa.Phi); ok {
					_ = ph
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isLocal(*op) {
						live[*op] = true
					}
				}
			}
			for v := range live {
				if !res[b][v] {
					res[b][v] = true
					changed = true
				}
			}
		}
	}
	p.live[fn] = res
	return res
}
