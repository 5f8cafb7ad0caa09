package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// c16Log: the text of a log item goes to the writer of the item when it has
// one, not past it to the terminal.
func c16Log(c *Ctx, p *Prog) {
	for _, root := range p.Funcs {
		if p.Rel(root) != "internal/runner" || root.Parent() != nil {
			continue
		}
		var ws []*ssa.Parameter
		item := false
		for _, prm := range root.Params {
			if writerIn(prm.Type()) {
				ws = append(ws, prm)
			}
			item = item || p.named(prm.Type(), "internal/babfile", "RunItem") || p.named(prm.Type(), "internal/babfile", "LogRun")
		}
		if !item || len(ws) == 0 {
			continue
		}
		cl := &Client{Name: "C16", CollapseErr: true, KeepFact: keepDry}
		cl.Inline = func(g *ssa.Function) bool {
			if p.Rel(g) != "internal/runner" || g.Parent() != nil && spawned(g) || p.OnCycle(g) {
				return false
			}
			for _, prm := range g.Params {
				if prm.Type().String() == "string" || p.named(prm.Type(), "internal/babfile", "LogRun") {
					return true
				}
			}
			return g.Parent() != nil
		}
		e := NewEngine(p, cl)
		var dry, has []*Term
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if ev.Inline || !strings.HasPrefix(ev.Name, logPkg+".") && !strings.HasPrefix(ev.Name, "(*"+logPkg+".Logger).") {
				return
			}
			text := false
			for _, a := range e.flat(s, ev.Args) {
				text = text || a.any(func(x *Term) bool {
					return x.K == KFld && x.S == "Log" && x.A[0].T != nil && p.named(x.A[0].T, "internal/babfile", "LogRun")
				})
			}
			if !text {
				return
			}
			for _, d := range dry {
				if v, k := e.Decide(s, d); k && v {
					return
				}
			}
			for _, w := range has {
				if e.Nilness(s, w) == 1 {
					e.Count("log item past no writer")
					return
				}
			}
			e.Report(s, "log item past its writer in "+p.FnName(root), ev.Pos, "the text of a log item can be printed past the writer of its item: its line is not shown behind the item's label")
		}
		s := e.NewState(root, nil)
		for _, prm := range root.Params {
			if el := ptrElem(prm.Type()); el != nil && p.named(el, "internal/runner", "Runner") {
				i := fieldIdx(prm.Type(), "DryRun")
				dry = append(dry, e.load(s, e.fieldAddr(s.top().env[prm], structOf(el), i), structOf(el).Field(i).Type()))
			}
		}
		for _, w := range ws {
			t := s.top().env[w]
			st := structOf(w.Type())
			if st == nil {
				has = append(has, t)
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Type().String() != "io.Writer" {
					continue
				}
				if ptrElem(w.Type()) != nil {
					has = append(has, e.load(s, e.fieldAddr(t, st, i), st.Field(i).Type()))
				} else {
					has = append(has, e.T.Fld(t, st.Field(i).Name(), st.Field(i).Type()))
				}
			}
		}
		e.Run(s)
		c.Absorb(e)
	}
}

// writerIn: t is a writer or holds one.
func writerIn(t types.Type) bool {
	if t.String() == "io.Writer" {
		return true
	}
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "io.Writer" {
			return true
		}
	}
	return false
}
