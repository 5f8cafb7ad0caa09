package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Labels of parallel items: every label stands next to the item it belongs to.

func isLabelCall(name string) bool {
	return strings.HasSuffix(name, "babfile.ParallelRun).ItemLabel")
}

func isStrList(t *Term) bool {
	return t != nil && t.T != nil && strings.HasSuffix(t.T.Underlying().String(), "[]string")
}

// itemIndex: the position t's run item was taken from.
func itemIndex(p *Prog, t *Term) *Term {
	var r *Term
	t.any(func(x *Term) bool {
		if r == nil && x.K == KElem && x.A[0].T != nil && isItemSlice(p, x.A[0].T) {
			r = x.A[1]
		}
		return r != nil
	})
	return r
}

// labelIndex: the position t's label was taken from.
func labelIndex(t *Term) *Term {
	var r *Term
	t.any(func(x *Term) bool {
		switch {
		case r != nil:
		case x.K == KCall && isLabelCall(x.S) && len(x.A) == 2:
			r = x.A[1]
		case x.K == KElem && isStrList(x.A[0]):
			r = x.A[1]
		}
		return r != nil
	})
	return r
}

// labelPairs checks that items and labels that are put into lists side by side
// come from the same position.
func labelPairs(c *Ctx, p *Prog) {
	calls := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && isLabelCall(p.CalleeName(ci.Common())) {
					return true
				}
			}
		}
		return false
	}
	walks := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if strings.HasSuffix(fieldKey(x), "ParallelRun.Items") {
						return true
					}
				case *ssa.Field:
					if strings.HasSuffix(fieldKey(x), "ParallelRun.Items") {
						return true
					}
				}
			}
		}
		return false
	}
	// near: fn comes to a use of labels without passing another walker
	memo := map[*ssa.Function]bool{}
	var near func(fn *ssa.Function, d int) bool
	near = func(fn *ssa.Function, d int) bool {
		if v, ok := memo[fn]; ok {
			return v
		}
		memo[fn] = false
		r := calls(fn)
		for _, g := range p.edges(fn) {
			if !r && d < 4 && p.Rel(g) == "internal/runner" && !walks(g) && near(g, d+1) {
				r = true
			}
		}
		memo[fn] = r
		return r
	}
	n := 0
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/runner" || fn.Parent() != nil || !walks(fn) || !near(fn, 0) {
			continue
		}
		n++
		labelPairsIn(c, p, fn, func(g *ssa.Function) bool { return memo[g] && !walks(g) })
	}
	if n == 0 {
		c.Violate("anchor:labels of parallel items", "?", "no function of the runner pairs parallel items with their labels")
	}
}

func labelPairsIn(c *Ctx, p *Prog, root *ssa.Function, near func(fn *ssa.Function) bool) {
	moves := func(fn *ssa.Function) bool {
		r := fn.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			if isItemSlice(p, r.At(i).Type()) || r.At(i).Type().String() == "[]string" {
				return p.Rel(fn) == "internal/runner" && len(p.Loops(fn).header) == 0
			}
		}
		return false
	}
	cl := &Client{Name: "labels", CollapseErr: true, Abstract: irrelevantRunner("*bool", "io.Writer", "map[string]string", "*tea.Program", "*runner.ParallelContext"),
		Inline: func(g *ssa.Function) bool {
			return p.Rel(g) == "internal/runner" && (near(g) || moves(g) || g.Parent() == root && !spawned(g))
		}}
	e := NewEngine(p, cl)
	where := p.FnName(root)
	side := func(s *State, pos token.Pos) {
		a, b := s.Get("itm"), s.Get("lbl")
		switch {
		case a == "" && b == "":
		case a == "" && b != "":
			s.Set("lblonly", "1")
		case a != "" && b == "":
			s.Set("itmonly", "1")
		case a != b:
			e.Report(s, "label of another item in "+where, pos, "a parallel item is listed with the label of another item")
		default:
			e.Count("item listed with its label")
			s.Set("both", "1")
		}
		if s.Get("both") != "" && (s.Get("lblonly") != "" || s.Get("itmonly") != "") {
			e.Report(s, "labels out of step in "+where, pos, "a label or an item can be listed without the other, so that later ones no longer stand side by side")
		}
		s.Set("itm", "")
		s.Set("lbl", "")
	}
	note := func(s *State, list, x *Term, pos token.Pos) {
		if list == nil || list.T == nil {
			return
		}
		switch {
		case isItemSlice(p, list.T):
			if i := itemIndex(p, x); i != nil {
				s.Set("itm", itoa(i.id))
			}
		case isStrList(list):
			if i := labelIndex(x); i != nil {
				s.Set("lbl", itoa(i.id))
			}
		default:
			if sv := structOf(strip(x).T); sv != nil {
				i, l := itemIndex(p, x), labelIndex(x)
				if i != nil && l != nil {
					s.Set("itm", itoa(i.id))
					s.Set("lbl", itoa(l.id))
				}
			}
		}
	}
	cl.OnAppend = func(e *Engine, s *State, base *Term, elems []*Term, res *Term, pos token.Pos) {
		for _, x := range elems {
			note(s, res, x, pos)
		}
	}
	cl.OnStore = func(e *Engine, s *State, addr, val *Term, pos token.Pos) {
		if addr.K != KIndexAddr || addr.A[0].K != KAlloc {
			return
		}
		// a slot of a list made in this function, but not of a variadic tail
		if _, ok := addr.A[1].IntVal(); ok {
			return
		}
		note(s, &Term{T: sliceOfPtr(addr.T)}, val, pos)
	}
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) { side(s, root.Pos()) }
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		side(s, root.Pos())
		for _, k := range []string{"both", "lblonly", "itmonly"} {
			s.Set(k, "")
		}
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if !isLabelCall(ev.Name) || len(ev.Args) != 2 {
			return
		}
		if v := strip(ev.Args[0]); v.K == KStruct {
			base := func(f string) *Term {
				t := e.T.Fld(v, f, nil)
				if t.K == KFld && t.S == f {
					return t.A[0]
				}
				return nil
			}
			if a, b := base("Items"), base("Labels"); a != nil && b != nil && a == b {
				return
			}
			e.Report(s, "label looked up in another list in "+where, ev.Pos, "a label is looked up by the position of an item in a list from which items were left out")
		}
	}
	e.Run(e.NewState(root, nil))
	c.Absorb(e)
}

// spawned: the closure is started as a goroutine.
func spawned(fn *ssa.Function) bool {
	if fn.Parent() == nil {
		return false
	}
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if g, ok := ins.(*ssa.Go); ok {
				if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == fn {
					return true
				}
				if g.Call.Value == fn {
					return true
				}
			}
		}
	}
	return false
}

func sliceOfPtr(t types.Type) types.Type {
	if e := ptrElem(t); e != nil {
		return types.NewSlice(e)
	}
	return nil
}
