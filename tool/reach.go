package main

// Call-graph facts computed from SSA without running anything: which
// repository functions can (transitively) reach a given kind of instruction.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FnName is the identity name of a function with the module prefix trimmed.
func (p *Prog) FnName(fn *ssa.Function) string {
	n := fn.RelString(nil)
	if o := fn.Origin(); o != nil {
		n = o.RelString(nil)
	}
	return strings.ReplaceAll(n, p.Mod+"/", "")
}

// CalleeName names the target of a call instruction ("" when dynamic).
func (p *Prog) CalleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke " + strings.ReplaceAll(c.Method.FullName(), p.Mod+"/", "")
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return p.FnName(v)
	case *ssa.Builtin:
		return "builtin." + v.Name()
	case *ssa.MakeClosure:
		return p.FnName(v.Fn.(*ssa.Function))
	}
	return ""
}

// edges returns the repository functions fn may enter directly or hand out.
func (p *Prog) edges(fn *ssa.Function) []*ssa.Function {
	if p.edgeMemo == nil {
		p.edgeMemo = map[*ssa.Function][]*ssa.Function{}
	}
	if r, ok := p.edgeMemo[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			var ops [12]*ssa.Value
			for _, o := range ins.Operands(ops[:0]) {
				if o == nil || *o == nil {
					continue
				}
				if g, ok := (*o).(*ssa.Function); ok {
					add(g)
				}
			}
			if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
				if u, ok := ci.Common().Value.(*ssa.UnOp); ok {
					if fv, ok := u.X.(*ssa.FreeVar); ok {
						add(p.capturedFn(fv))
					}
				}
			}
			if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
				m := ci.Common().Method
				for _, g := range p.methodsNamed(m) {
					add(g)
				}
			}
		}
	}
	p.edgeMemo[fn] = out
	return out
}

// methodsNamed: repository methods an interface call to m may resolve to.
func (p *Prog) methodsNamed(m *types.Func) []*ssa.Function {
	if p.methMemo == nil {
		p.methMemo = map[string][]*ssa.Function{}
		for _, pk := range p.ByRel {
			for _, mem := range pk.Members {
				t, ok := mem.(*ssa.Type)
				if !ok {
					continue
				}
				for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := p.SSA.MethodSets.MethodSet(T)
					for i := 0; i < ms.Len(); i++ {
						if g := p.SSA.MethodValue(ms.At(i)); g != nil {
							p.methMemo[ms.At(i).Obj().Name()] = append(p.methMemo[ms.At(i).Obj().Name()], g)
						}
					}
				}
			}
		}
	}
	return p.methMemo[m.Name()]
}

// Reaching returns the functions from which an instruction satisfying pred is
// reachable (any function, including synthetic wrappers met on the way).
func (p *Prog) Reaching(pred func(fn *ssa.Function, ins ssa.Instruction) bool) map[*ssa.Function]bool {
	rev := map[*ssa.Function][]*ssa.Function{}
	var all []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		all = append(all, fn)
		for _, g := range p.edges(fn) {
			rev[g] = append(rev[g], fn)
			if g.Blocks != nil && (p.InRepo(g) || g.Synthetic != "") {
				visit(g)
			}
		}
	}
	for _, fn := range p.Funcs {
		visit(fn)
	}
	res := map[*ssa.Function]bool{}
	var q []*ssa.Function
	for _, fn := range all {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if !res[fn] && pred(fn, ins) {
					res[fn] = true
					q = append(q, fn)
				}
			}
		}
	}
	for len(q) > 0 {
		fn := q[0]
		q = q[1:]
		for _, c := range rev[fn] {
			if !res[c] {
				res[c] = true
				q = append(q, c)
			}
		}
	}
	return res
}

// ReachableFrom lists repository functions reachable from the roots.
func (p *Prog) ReachableFrom(roots ...*ssa.Function) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	q := append([]*ssa.Function(nil), roots...)
	for len(q) > 0 {
		fn := q[0]
		q = q[1:]
		if res[fn] || fn.Blocks == nil || !(p.InRepo(fn) || fn.Synthetic != "") {
			continue
		}
		res[fn] = true
		q = append(q, p.edges(fn)...)
	}
	return res
}

// SCC head: functions on a call cycle through fn.
func (p *Prog) OnCycle(fn *ssa.Function) bool {
	for _, g := range p.edges(fn) {
		if p.ReachableFrom(g)[fn] {
			return true
		}
	}
	return false
}

// calls reports whether ins is a call to one of the named functions.
func (p *Prog) calls(ins ssa.Instruction, names map[string]bool) bool {
	ci, ok := ins.(ssa.CallInstruction)
	return ok && names[p.CalleeName(ci.Common())]
}

// capturedFn: the function a captured variable holds, when it is assigned
// once.
func (p *Prog) capturedFn(fv *ssa.FreeVar) *ssa.Function {
	fn := fv.Parent()
	par := fn.Parent()
	if par == nil {
		return nil
	}
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	var res *ssa.Function
	for _, b := range par.Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) || idx >= len(mc.Bindings) {
				continue
			}
			var g *ssa.Function
			switch v := mc.Bindings[idx].(type) {
			case *ssa.FreeVar:
				g = p.capturedFn(v)
			case *ssa.Alloc:
				if !p.constCell(v) {
					return nil
				}
				for _, r := range *v.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(v) {
						switch w := st.Val.(type) {
						case *ssa.MakeClosure:
							g, _ = w.Fn.(*ssa.Function)
						case *ssa.Function:
							g = w
						}
					}
				}
			}
			if g == nil || res != nil && res != g {
				return nil
			}
			res = g
		}
	}
	return res
}
