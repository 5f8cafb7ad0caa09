package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is one type-checked, SSA-built view of the repository for one GOOS.
type Prog struct {
	GOOS     string
	Dir      string
	Mod      string
	SSA      *ssa.Program
	Pkgs     []*packages.Package
	ByRel    map[string]*ssa.Package // "internal/runner" -> package ("" is main)
	Fset     *token.FileSet
	repo     map[*ssa.Package]bool
	Funcs    []*ssa.Function // all repo source functions incl. anonymous
	lives    map[*ssa.Function]*liveness
	loops    map[*ssa.Function]*loopForest
	impls    map[*types.Interface][]types.Type
	constC   map[*ssa.Alloc]bool
	mutM     map[string]map[*ssa.Function]bool
	mutF     map[string]bool
	edgeMemo map[*ssa.Function][]*ssa.Function
	methMemo map[string][]*ssa.Function
	extD     map[*types.Package]*packages.Package
}

func repoDir() string {
	if d := os.Getenv("BABVERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func Load(goos string) (*Prog, error) {
	dir := repoDir()
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOOS", "CGO_ENABLED", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOOS="+goos)
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check/load errors (%d): %s", len(errs), strings.Join(errs[:min(3, len(errs))], "; "))
	}
	if len(pk) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", dir)
	}
	prog, ps := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{GOOS: goos, Dir: dir, SSA: prog, Pkgs: pk, ByRel: map[string]*ssa.Package{}, Fset: prog.Fset,
		repo: map[*ssa.Package]bool{}, lives: map[*ssa.Function]*liveness{}, loops: map[*ssa.Function]*loopForest{}}
	for i, q := range pk {
		if q.Module != nil {
			p.Mod = q.Module.Path
		}
		_ = i
	}
	if p.Mod == "" {
		return nil, fmt.Errorf("module path not found")
	}
	for i, q := range pk {
		if ps[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", q.PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(q.PkgPath, p.Mod), "/")
		p.ByRel[rel] = ps[i]
		p.repo[ps[i]] = true
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && p.InRepo(fn) && fn.Synthetic == "" {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	return p, nil
}

func (p *Prog) InRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return p.repo[f.Pkg]
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return p.repo[o.Pkg]
		}
	}
	// synthetic wrappers: look at the receiver / object package
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), p.Mod)
	}
	return false
}

// Rel gives the repo-relative package of a function ("internal/runner").
func (p *Prog) Rel(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), p.Mod), "/")
		}
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.TrimPrefix(strings.TrimPrefix(o.Pkg().Path(), p.Mod), "/")
	}
	return "?"
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// Func finds "pkgrel.Name" or "pkgrel.Type.Method" (pointer or value receiver).
func (p *Prog) Func(rel, name string) (*ssa.Function, error) {
	pkg := p.ByRel[rel]
	if pkg == nil {
		return nil, fmt.Errorf("anchor: package %q not found", rel)
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		obj := pkg.Pkg.Scope().Lookup(tn)
		if obj == nil {
			return nil, fmt.Errorf("anchor: type %s.%s not found", rel, tn)
		}
		for _, t := range []types.Type{types.NewPointer(obj.Type()), obj.Type()} {
			ms := p.SSA.MethodSets.MethodSet(t)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == mn {
					f := p.SSA.MethodValue(ms.At(k))
					if f != nil && f.Synthetic != "" {
						if o, ok := ms.At(k).Obj().(*types.Func); ok {
							if g := p.SSA.FuncValue(o); g != nil && g.Blocks != nil {
								return g, nil
							}
						}
					}
					if f != nil && f.Blocks != nil {
						return f, nil
					}
				}
			}
		}
		return nil, fmt.Errorf("anchor: method %s.%s not found", rel, name)
	}
	f := pkg.Func(name)
	if f == nil || f.Blocks == nil {
		return nil, fmt.Errorf("anchor: function %s.%s not found", rel, name)
	}
	return f, nil
}

func (p *Prog) Type(rel, name string) (types.Type, error) {
	pkg := p.ByRel[rel]
	if pkg == nil {
		return nil, fmt.Errorf("anchor: package %q not found", rel)
	}
	o := pkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil, fmt.Errorf("anchor: type %s.%s not found", rel, name)
	}
	return o.Type(), nil
}

// Implementers lists repo types (value or pointer) implementing iface.
func (p *Prog) Implementers(iface *types.Interface) []types.Type {
	if p.impls == nil {
		p.impls = map[*types.Interface][]types.Type{}
	}
	if r, ok := p.impls[iface]; ok {
		return r
	}
	var out []types.Type
	var rels []string
	for r := range p.ByRel {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		sc := p.ByRel[r].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), iface) {
				out = append(out, tn.Type())
			} else if types.Implements(types.NewPointer(tn.Type()), iface) {
				out = append(out, types.NewPointer(tn.Type()))
			}
		}
	}
	p.impls[iface] = out
	return out
}

// ---- liveness ------------------------------------------------------------

type liveness struct {
	in  []map[ssa.Value]bool // live at block entry, after phis are assigned
	mid map[[2]int]map[ssa.Value]bool
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (p *Prog) Live(fn *ssa.Function) *liveness {
	if l, ok := p.lives[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	in := make([]map[ssa.Value]bool, n)
	for i := range in {
		in[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			live := blockOut(fn.Blocks[i], in)
			for k := len(fn.Blocks[i].Instrs) - 1; k >= 0; k-- {
				stepLive(fn.Blocks[i].Instrs[k], live)
			}
			// phis are assigned on entry: they are live-in iff used
			for v := range live {
				if !in[i][v] {
					in[i][v] = true
					changed = true
				}
			}
		}
	}
	l := &liveness{in: in, mid: map[[2]int]map[ssa.Value]bool{}}
	p.lives[fn] = l
	return l
}

func blockOut(b *ssa.BasicBlock, in []map[ssa.Value]bool) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		phis := map[ssa.Value]bool{}
		for _, ins := range s.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			phis[ph] = true
			for k, pr := range s.Preds {
				if pr == b && tracked(ph.Edges[k]) {
					live[ph.Edges[k]] = true
				}
			}
		}
		for v := range in[s.Index] {
			if !phis[v] {
				live[v] = true
			}
		}
	}
	return live
}

func stepLive(ins ssa.Instruction, live map[ssa.Value]bool) {
	if _, ok := ins.(*ssa.Phi); ok {
		return // handled at edges; a phi stays live at entry when used
	}
	if v, ok := ins.(ssa.Value); ok {
		delete(live, v)
	}
	var ops [12]*ssa.Value
	for _, o := range ins.Operands(ops[:0]) {
		if o != nil && *o != nil && tracked(*o) {
			live[*o] = true
		}
	}
}

// LiveAt gives values live just before instruction pc of block b.
func (p *Prog) LiveAt(b *ssa.BasicBlock, pc int) map[ssa.Value]bool {
	l := p.Live(b.Parent())
	if pc <= 0 {
		return l.in[b.Index]
	}
	key := [2]int{b.Index, pc}
	if m, ok := l.mid[key]; ok {
		return m
	}
	live := blockOut(b, l.in)
	for k := len(b.Instrs) - 1; k >= pc; k-- {
		stepLive(b.Instrs[k], live)
	}
	l.mid[key] = live
	return live
}

// ---- loops ---------------------------------------------------------------

type loopForest struct {
	header map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body blocks
}

func (p *Prog) Loops(fn *ssa.Function) *loopForest {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	lf := &loopForest{header: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				body := lf.header[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					lf.header[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	p.loops[fn] = lf
	return lf
}

// repoStruct: t is a struct type declared in the repository.
func (p *Prog) repoStruct(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), p.Mod) {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

// mutableField: some repository function stores to the field (or lets its
// address escape) on an object it did not just allocate.
func (p *Prog) mutableField(t types.Type, f string) bool {
	if p.mutF == nil {
		p.mutF = map[string]bool{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					fa, ok := ins.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					pt := ptrElem(fa.X.Type())
					if !p.repoStruct(pt) {
						continue
					}
					if _, local := fa.X.(*ssa.Alloc); local && !localReused(fa) {
						continue
					}
					for _, r := range *fa.Referrers() {
						switch u := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
							continue
						case *ssa.Store:
							if u.Addr != ssa.Value(fa) {
								continue
							}
						}
						p.mutF[typeKey(pt)+"."+structOf(pt).Field(fa.Field).Name()] = true
					}
				}
			}
		}
	}
	return p.mutF[typeKey(t)+"."+f]
}

// localReused: an alloc that is not a fresh composite (a local variable that
// may be stored to repeatedly) still counts as initialisation.
func localReused(*ssa.FieldAddr) bool { return false }

// constCell: a variable that is assigned once, where it is declared, and is
// otherwise only read (closures that capture it included).
func (p *Prog) constCell(a *ssa.Alloc) bool {
	if v, ok := p.constC[a]; ok {
		return v
	}
	if p.constC == nil {
		p.constC = map[*ssa.Alloc]bool{}
	}
	stores := 0
	var readOnly func(v ssa.Value, top bool) bool
	readOnly = func(v ssa.Value, top bool) bool {
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
			case *ssa.Store:
				if u.Addr != v || !top {
					return false
				}
				stores++
			case *ssa.MakeClosure:
				fn := u.Fn.(*ssa.Function)
				for i, b := range u.Bindings {
					if b == v && !readOnly(fn.FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	_, isStruct := ptrElem(a.Type()).Underlying().(*types.Struct)
	r := !isStruct && readOnly(a, true) && stores <= 1
	p.constC[a] = r
	return r
}

// mutatesMap: the function, or one it reaches, changes a map of this type.
func (p *Prog) mutatesMap(fn *ssa.Function, t types.Type) bool {
	k := typeKey(t.Underlying())
	if p.mutM == nil {
		p.mutM = map[string]map[*ssa.Function]bool{}
	}
	if p.mutM[k] == nil {
		p.mutM[k] = p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
			switch x := ins.(type) {
			case *ssa.MapUpdate:
				return typeKey(x.Map.Type().Underlying()) == k
			case ssa.CallInstruction:
				c := x.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && len(c.Args) > 0 {
					return typeKey(c.Args[0].Type().Underlying()) == k
				}
				switch p.CalleeName(c) {
				case "maps.Copy", "maps.DeleteFunc", "maps.Insert":
					return len(c.Args) > 0 && typeKey(c.Args[0].Type().Underlying()) == k
				}
			}
			return false
		})
	}
	return p.mutM[k][fn]
}
