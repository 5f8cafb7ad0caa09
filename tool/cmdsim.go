package main

// Shared by the checks that follow a command from the run item to the process
// start: everything in the runner is entered down to os/exec.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cmdInline enters every runner and model function except those named opaque.
func (rs *runSim) cmdInline(opaque func(fn *ssa.Function) bool, also ...func(fn *ssa.Function) bool) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		if opaque != nil && opaque(fn) {
			return false
		}
		for _, f := range also {
			if rs.p.Rel(fn) == "internal/runner" && f(fn) {
				return true
			}
		}
		switch rs.p.Rel(fn) {
		case "internal/babfile":
			return true
		case "internal/runner":
			return rs.reach[fn] || execReach(rs.p)[fn] || fn.Parent() != nil || handlesCmd(fn)
		}
		return false
	}
}

// cmdItem finds the command item whose text the process runs, from the
// arguments of exec.CommandContext.
func (rs *runSim) cmdItem(e *Engine, s *State, cmd *Term) *Term {
	find := func(t *Term) (r *Term) {
		t.any(func(x *Term) bool {
			if x.K == KFld && x.S == "Cmd" && x.A[0].T != nil && rs.p.named(x.A[0].T, "internal/babfile", "CommandRun") {
				r = x.A[0]
			}
			return r != nil
		})
		return r
	}
	if r := find(cmd); r != nil {
		return r
	}
	var r *Term
	for _, a := range cmd.A {
		ls := e.leaves(a)
		if len(ls) < 2 {
			continue
		}
		for i, l := range ls {
			x := find(l)
			if x == nil || i > 0 && x != r {
				return nil
			}
			r = x
		}
	}
	return r
}

// leaves: the values a term may stand for where paths were joined at a loop.
func (e *Engine) leaves(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.K == KLoop {
			if li := e.Loops[t]; li != nil {
				for x := range li.Entry {
					walk(x)
				}
				for x := range li.Back {
					walk(x)
				}
				return
			}
		}
		out = append(out, t)
	}
	walk(t)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// template: the one template every value of t was interpolated from.
func (e *Engine) template(t *Term) *Term {
	var r *Term
	for i, l := range e.leaves(t) {
		x := interpArg(l)
		if x == nil || i > 0 && x != r {
			return nil
		}
		r = x
	}
	return r
}

// taskOfItem: the task whose run list holds the item (directly or through a
// parallel block of it).
func (rs *runSim) taskOfItem(e *Engine, item *Term) *Term {
	var r *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || r != nil {
			return
		}
		seen[t] = true
		t.any(func(x *Term) bool {
			if r != nil {
				return true
			}
			if x.K == KFld && x.S == "Run" && rs.p.isRunColl(x) {
				r = x.A[0]
				return true
			}
			if x.K == KLoop && isItemSlice(rs.p, x.T) {
				_, el := e.seqLeaves(x)
				for _, y := range el {
					walk(y)
				}
			}
			return false
		})
	}
	walk(item)
	return r
}

// cmdField is the value assigned to a field of the exec.Cmd on this path (nil
// when the field was never set).
func (e *Engine) cmdField(s *State, cmd *Term, f string) *Term {
	for k, v := range s.mem {
		if k.K == KFieldAddr && k.S == f && k.A[0] == cmd {
			return v
		}
	}
	return nil
}

// strEmpty decides whether a string term is empty on this path.
func (e *Engine) strEmpty(s *State, t *Term) (bool, bool) {
	return e.Decide(s, e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, t, e.T.Str("")))
}

// interpArg: t is the text result of Interpolate; returns its template.
func interpArg(t *Term) *Term {
	if t.K == KExt && t.S == "0" || t.K == KExt {
		if c := t.A[0]; c.K == KCall && c.S == interpFn {
			return c.A[0]
		}
	}
	return nil
}

// wiring checks that Runner.Run fills the runner's fields from the parse
// result before it enters the tasks.
func (rs *runSim) wiring(c *Ctx, name string, want map[string]string) {
	p := rs.p
	cl := &Client{Name: name, CollapseErr: true, Inline: func(fn *ssa.Function) bool {
		return p.Rel(fn) == "internal/runner" && fn != rs.m.Entry && !rs.reach[fn] || fn == rs.m.Run
	}}
	e := NewEngine(p, cl)
	heads := map[*ssa.Function]bool{rs.m.Entry: true}
	for _, h := range rs.m.Heads {
		heads[h] = true
	}
	root := rs.m.Run
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Fn == nil || !heads[ev.Fn] {
			return
		}
		r := e.Recv
		for f, pf := range want {
			var v *Term
			for k, x := range s.mem {
				if k.K == KFieldAddr && k.S == f && k.A[0] == r {
					v = x
				}
			}
			ok := v != nil && v.any(func(x *Term) bool {
				return x.K == KFld && x.S == pf && x.A[0].any(func(y *Term) bool {
					return y.K == KCall && strings.HasPrefix(y.S, "internal/parser.") || y.K == KCall && strings.HasPrefix(y.S, "internal/runner.")
				})
			})
			if !ok {
				e.Report(s, "global setting lost: "+f, ev.Pos, "the tasks are run without the %s of the Babfile (Runner.%s is %s)", pf, f, termOr(v, "never set"))
			} else {
				e.Count("global setting handed over")
			}
		}
	}
	s0 := e.NewState(root, nil)
	e.Recv = s0.top().env[root.Params[0]]
	e.Run(s0)
	c.Absorb(e)
}

func termOr(t *Term, s string) string {
	if t == nil {
		return s
	}
	return t.String()
}

// handlesCmd: the function takes or returns an *exec.Cmd.
func handlesCmd(fn *ssa.Function) bool {
	sg := fn.Signature
	for _, tp := range []*types.Tuple{sg.Params(), sg.Results()} {
		for i := 0; i < tp.Len(); i++ {
			if tp.At(i).Type().String() == "*os/exec.Cmd" {
				return true
			}
		}
	}
	return false
}

// returns: functions with a result of one of the given types.
func returns(ts ...string) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		r := fn.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			for _, t := range ts {
				if r.At(i).Type().String() == t {
					return true
				}
			}
		}
		return false
	}
}
