package main

// Whole-program, flow-insensitive backward provenance of a value: parameters
// are followed to every call site in the repository, fields to every store,
// free variables to their bindings, locals to their stores.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type srcWalk struct {
	p *Prog
	// through: a call that passes its n-th argument on (-1: not)
	through func(name string) int
	seen    map[ssa.Value]bool
	leaves  map[string]ssa.Value
}

type progIndex struct {
	calls  map[*ssa.Function][]ssa.CallInstruction
	stores map[string][]*ssa.Store // "pkg.Type.field"
	binds  map[*ssa.FreeVar][]ssa.Value
	escape map[*ssa.Function]bool // used as a value other than a direct callee
}

var idxMemo = map[*Prog]*progIndex{}

func fieldKey(fa ssa.Value) string {
	switch x := fa.(type) {
	case *ssa.FieldAddr:
		st := structOf(ptrElem(x.X.Type()))
		return strings.TrimPrefix(x.X.Type().String(), "*") + "." + st.Field(x.Field).Name()
	case *ssa.Field:
		return x.X.Type().String() + "." + structOf(x.X.Type()).Field(x.Field).Name()
	}
	return ""
}

func (p *Prog) index() *progIndex {
	if ix, ok := idxMemo[p]; ok {
		return ix
	}
	ix := &progIndex{map[*ssa.Function][]ssa.CallInstruction{}, map[string][]*ssa.Store{}, map[*ssa.FreeVar][]ssa.Value{}, map[*ssa.Function]bool{}}
	idxMemo[p] = ix
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var direct *ssa.Function
				if ci, ok := ins.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						for _, g := range p.methodsNamed(cc.Method) {
							ix.calls[g] = append(ix.calls[g], ci)
						}
					} else if g := cc.StaticCallee(); g != nil {
						direct = g
						ix.calls[g] = append(ix.calls[g], ci)
					}
				}
				switch x := ins.(type) {
				case *ssa.Store:
					if k := fieldKey(x.Addr); k != "" {
						ix.stores[k] = append(ix.stores[k], x)
					}
				case *ssa.MakeClosure:
					g := x.Fn.(*ssa.Function)
					for i, fv := range g.FreeVars {
						ix.binds[fv] = append(ix.binds[fv], x.Bindings[i])
					}
					ix.escape[g] = true
				}
				for _, o := range ins.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && g != direct {
						ix.escape[g] = true
					}
				}
			}
		}
	}
	return ix
}

// Sources lists where v may come from, by leaf description.
func (p *Prog) Sources(v ssa.Value, through func(name string) int) map[string]ssa.Value {
	w := &srcWalk{p: p, through: through, seen: map[ssa.Value]bool{}, leaves: map[string]ssa.Value{}}
	w.walk(v)
	return w.leaves
}

func sourceNames(m map[string]ssa.Value) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (w *srcWalk) leaf(s string, v ssa.Value) { w.leaves[s] = v }

func (w *srcWalk) walk(v ssa.Value) {
	if v == nil || w.seen[v] {
		return
	}
	w.seen[v] = true
	p, ix := w.p, w.p.index()
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			w.leaf("nil", v)
		} else {
			w.leaf("const", v)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			w.walk(e)
		}
	case *ssa.MakeInterface:
		w.walk(x.X)
	case *ssa.ChangeInterface:
		w.walk(x.X)
	case *ssa.ChangeType:
		w.walk(x.X)
	case *ssa.Convert:
		w.walk(x.X)
	case *ssa.TypeAssert:
		w.walk(x.X)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			w.call(call, x.Index)
			return
		}
		w.walk(x.Tuple)
	case *ssa.Call:
		w.call(x, 0)
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			w.field(fieldKey(a), a)
		case *ssa.Alloc, *ssa.FreeVar:
			w.cell(a)
		case *ssa.Global:
			w.leaf("global "+a.RelString(nil), v)
		case *ssa.IndexAddr:
			w.leaf("element", v)
		default:
			w.leaf("load", v)
		}
	case *ssa.Field:
		w.field(fieldKey(x), x)
	case *ssa.FreeVar:
		for _, b := range ix.binds[x] {
			w.walk(b)
		}
	case *ssa.Alloc:
		w.cell(x)
	case *ssa.Parameter:
		fn := x.Parent()
		i := -1
		for k, q := range fn.Params {
			if q == x {
				i = k
			}
		}
		if ix.escape[fn] && len(ix.calls[fn]) == 0 {
			w.leaf("callback "+p.FnName(fn), v)
		}
		for _, ci := range ix.calls[fn] {
			args := ci.Common().Args
			if ci.Common().IsInvoke() {
				if i == 0 {
					continue
				}
				args = append([]ssa.Value{nil}, args...)
			}
			if i < len(args) {
				w.walk(args[i])
			}
		}
		if len(ix.calls[fn]) == 0 && !ix.escape[fn] {
			w.leaf("entry "+p.FnName(fn), v)
		}
	default:
		w.leaf("value", v)
	}
}

func (w *srcWalk) field(k string, v ssa.Value) {
	ix := w.p.index()
	if len(ix.stores[k]) == 0 {
		w.leaf("field "+k, v)
	}
	for _, st := range ix.stores[k] {
		w.walk(st.Val)
	}
}

// cell: everything stored into a local variable (also by closures).
func (w *srcWalk) cell(a ssa.Value) {
	if w.seen[a] && a != nil {
		if _, ok := a.(*ssa.Alloc); !ok {
			return
		}
	}
	w.seen[a] = true
	ix := w.p.index()
	var uses func(v ssa.Value)
	done := map[ssa.Value]bool{}
	uses = func(v ssa.Value) {
		if done[v] {
			return
		}
		done[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					w.walk(x.Val)
				}
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						uses(g.FreeVars[i])
					}
				}
			}
		}
	}
	if fv, ok := a.(*ssa.FreeVar); ok {
		for _, b := range ix.binds[fv] {
			if _, isPtr := b.Type().Underlying().(*types.Pointer); isPtr {
				w.cell(b)
			}
		}
		return
	}
	uses(a)
}

func (w *srcWalk) call(c *ssa.Call, res int) {
	n := w.p.CalleeName(&c.Call)
	if w.through != nil {
		if i := w.through(n); i >= 0 && i < len(c.Call.Args) {
			w.walk(c.Call.Args[i])
			return
		}
	}
	if g := c.Call.StaticCallee(); g != nil && g.Blocks != nil && w.p.InRepo(g) {
		for _, b := range g.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(rt.Results) {
				w.walk(rt.Results[res])
			}
		}
		return
	}
	w.leaf("call "+n, c)
}
