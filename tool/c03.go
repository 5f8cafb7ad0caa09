package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C03",
		Technique: "path-sensitive interprocedural property simulation over SSA (must-precede typestate dependencies→body, failure typestate with a success and a failure outcome at every fallible call)",
		Explain:   "Every path through the task executor is simulated with a success and a failure outcome at each call that can fail (task entry, process, prompt, condition, interpolation). A task's run list is entered only on paths where its dependency list was walked to the end and every dependency was entered synchronously; after a failure no further command, prompt or task of that task starts, and no path returns success; success is reported only when dependencies and run list were both completed.",
		Run:       runC03,
		Floors:    map[string]int{"body after dependencies": 1, "dependency entered": 1, "failure propagated": 10, "completed task": 1, "finish recorded after completion": 1, "process failure propagated": 2},
	})
}

// fallible: a call whose failure must fail the task.
func (rs *runSim) fallible(ev *CallEvent) bool {
	if ev.Inline {
		return false
	}
	if k := effectKind(ev.Name); k == "exec" || k == "prompt" || k == "tui" || ev.Name == "(*os/exec.Cmd).Wait" {
		return true
	}
	if rs.headCall(ev) || rs.uiCall(ev) {
		return true
	}
	switch ev.Name {
	case condFn, interpFn, resolveVarsFn, resolveVarsF2:
		return true
	}
	return ev.Fn != nil && rs.p.InRepo(ev.Fn) && rs.interpReach()[ev.Fn]
}

// interpReach: functions that (transitively) interpolate text, resolve
// variables, evaluate a condition, or start a process.
func (rs *runSim) interpReach() map[*ssa.Function]bool {
	if rs.interp == nil {
		rs.interp = rs.p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n := rs.p.CalleeName(ci.Common())
			return n == condFn || n == interpFn || n == resolveVarsFn || n == resolveVarsF2 || effectKind(n) == "exec"
		})
	}
	return rs.interp
}

func inGoroutine(s *State) bool {
	for _, f := range s.frames {
		if f.kind == 'g' {
			return true
		}
	}
	return false
}

// taskList: t is field name (Deps, Run) of some task value; returns the task.
func (p *Prog) taskList(t *Term, field string) *Term {
	if t.K == KFld && t.S == field && p.named(t.A[0].T, "internal/babfile", "Task") {
		return t.A[0]
	}
	return nil
}

func runC03(c *Ctx) {
	for _, goos := range c.goosList() {
		p := c.Prog(goos)
		c.GOOSList = append(c.GOOSList, goos)
		rs := newRunSim(c, p)
		rs.c = c
		c03Explore(c, p, rs, nil)
		rs.performerErrors(c, "C03")
	}
}

// c03Explore runs the simulation of task entries; only restricts what is
// reported.
func c03Explore(c *Ctx, p *Prog, rs *runSim, only func(key string) bool) {
	rs.explore(func(root *ssa.Function) (*Engine, *Client) {
		tg := taskGate{rs}
		cl := &Client{Name: "C03", Only: only, CollapseErr: true, Abstract: irrelevantRunner(append(runAbs, "map[string]runner.status")...), Inline: rs.inline(nil), KeepFact: keepDry}
		e := NewEngine(p, cl)
		id := func(t *Term) string { return itoa(t.id) }
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if handlePlatform(e, ev) {
				return
			}
			where := p.FnName(ev.Instr.Parent())
			kind, items := rs.action(e, s, ev)
			if kind != "" && kind != "print" {
				if f := s.Get("fail"); f != "" {
					e.Report(s, kind+" after a failure in "+where, ev.Pos, "%s although %s failed earlier on this path", kind, f)
				}
				if f := s.Get("gfail"); f != "" && !inGoroutine(s) {
					e.Report(s, kind+" after a parallel failure in "+where, ev.Pos, "%s although a parallel item failed earlier on this path", kind)
				}
				for _, i := range items {
					if p.isRunColl(i.A[0]) && inGoroutine(s) {
						e.Report(s, "item of a run list runs concurrently in "+where, ev.Pos, "%s for an item of a task's run list is started on another goroutine, outside a parallel block", kind)
					}
				}
			}
			if kind == "run task" {
				for _, a := range ev.Args {
					a.any(func(x *Term) bool {
						if x.K == KElem {
							if t := p.taskList(x.A[0], "Deps"); t != nil {
								if inGoroutine(s) {
									e.Report(s, "dependency entered concurrently in "+where, ev.Pos, "a dependency is started on another goroutine")
								}
								if s.Get("dep:"+id(x.A[0])) != "" {
									s.Set("dep:"+id(x.A[0]), "done")
									e.Count("dependency entered")
								}
							}
						}
						return false
					})
				}
			}
			if rs.fallible(ev) {
				g := inGoroutine(s)
				n := ev.Name
				e.splitErr(s, ev, nil, func(s *State) {
					if g {
						s.Set("gfail", "1")
					} else {
						s.Set("fail", n)
					}
				})
			}
		}
		depClose := func(e *Engine, s *State, coll *Term) {
			if s.Get("dep:"+id(coll)) == "pending" {
				s.Set("depbad:"+id(coll), "1")
			}
			s.Set("dep:"+id(coll), "")
		}
		bodyStart := func(e *Engine, s *State, t *Term) {
			if s.Get("deps:"+id(t)) == "" {
				e.Report(s, "body before dependencies in "+p.FnName(root), s.top().fn.Pos(), "the run list of a task is entered on a path where not every dependency of that task was entered and finished")
			} else {
				e.Count("body after dependencies")
			}
		}
		cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
			if t := p.taskList(coll, "Deps"); t != nil {
				depClose(e, s, coll)
				s.Set("dep:"+id(coll), "pending")
			}
			if t := p.taskList(coll, "Run"); t != nil {
				bodyStart(e, s, t)
				for k := range s.auto {
					for _, pre := range []string{"tw:", "deps:", "run:"} {
						if strings.HasPrefix(k, pre) {
							n, _ := strconv.Atoi(strings.TrimSuffix(k[len(pre):], ":skip"))
							if e.T.all[n].any(func(x *Term) bool { return x.K == KElem && x.A[0] == coll }) {
								s.Set(k, "")
							}
						}
					}
				}
			}
		}
		cl.OnExh = func(e *Engine, s *State, coll *Term) {
			if t := p.taskList(coll, "Deps"); t != nil {
				depClose(e, s, coll)
				if s.Get("depbad:"+id(coll)) == "" {
					s.Set("deps:"+id(t), "1")
				}
				s.Set("depbad:"+id(coll), "")
			}
			if t := p.taskList(coll, "Run"); t != nil {
				s.Set("run:"+id(t), "1")
			}
		}
		cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
			tg.onBranch(e, s, a, v)
			if v && a.K == KBin && a.S == "==" && a.A[0].K == KLen && a.A[1].S == "0" {
				if t := p.taskList(a.A[0].A[0], "Deps"); t != nil {
					s.Set("deps:"+id(t), "1")
				}
				if t := p.taskList(a.A[0].A[0], "Run"); t != nil {
					s.Set("run:"+id(t), "1")
				}
			}
			if v && a.K == KMapOK && a.A[0].T != nil && p.isStatusMap(a.A[0].T) && a.A[1].K == KSym {
				s.Set("entered", "1")
			}
			if a.K == KBin && a.S == "==" && a.A[0].K == KMapVal && a.A[0].A[0].T != nil && p.isStatusMap(a.A[0].A[0].T) && a.A[1].K == KConst {
				if a.A[0].A[1].K == KSym && v == (a.A[1].S != "0") {
					s.Set("entered", "1")
				}
				if a.A[1].S != "0" && v && a.A[0].A[1].K == KElem && s.Get("dep:"+id(a.A[0].A[1].A[0])) == "pending" && a.A[1].S == rs.doneConst() {
					s.Set("dep:"+id(a.A[0].A[1].A[0]), "done")
				}
			}
		}
		complete := func(s *State) bool {
			for k := range s.auto {
				if strings.HasPrefix(k, "deps:") && s.Get("run:"+k[5:]) != "" || strings.HasPrefix(k, "tw:") && strings.HasSuffix(k, ":skip") {
					return true
				}
			}
			return false
		}
		cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
			if m.T != nil && p.isStatusMap(m.T) && v != nil && v.S == rs.doneConst() && k.K == KSym && isStringT(k.T) {
				if !complete(s) {
					e.Report(s, "finished too early in "+p.FnName(root), pos, "a task is recorded as finished before its dependencies and its run list were completed; others waiting on it may start")
				} else {
					e.Count("finish recorded after completion")
				}
			}
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			if len(ret) == 0 {
				return
			}
			failed := s.Get("fail") != "" || s.Get("gfail") != ""
			if e.Nilness(s, ret[len(ret)-1]) == -1 {
				if failed {
					e.Count("failure propagated")
				}
				return
			}
			if failed {
				what := s.Get("fail")
				if what == "" {
					what = "a parallel item"
				}
				e.Report(s, "failure swallowed: "+what+" in "+p.FnName(root), root.Pos(), "a path reports success although %s failed", what)
				return
			}
			if s.Get("entered") == "" && root != rs.m.Entry {
				if !complete(s) {
					e.Report(s, "incomplete task reported done in "+p.FnName(root), root.Pos(), "a path reports success for a newly entered task although its dependencies or its run list were not completed")
					return
				}
				e.Count("completed task")
			}
		}
		return e, cl
	}, assumeDry(false))
}

// doneConst is the status value that marks a finished task.
func (rs *runSim) doneConst() string {
	if pk := rs.p.ByRel["internal/runner"]; pk != nil {
		if m, ok := pk.Members["done"].(*ssa.NamedConst); ok {
			return m.Value.Value.ExactString()
		}
	}
	return "2"
}

// performerErrors: a failing process, interpolation or lookup inside a command
// helper makes the helper fail.
func (rs *runSim) performerErrors(c *Ctx, name string) {
	p := rs.p
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/runner" || !rs.performer(fn) {
			continue
		}
		fn := fn
		cl := &Client{Name: name, CollapseErr: true, KeepFact: keepDry, Abstract: irrelevantRunner(append(runAbs, "bool")...),
			Inline: func(g *ssa.Function) bool { return g.Parent() != nil }}
		e := NewEngine(p, cl)
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if rs.fallible(ev) || ev.Name == "os.Stat" || ev.Name == "os.Lstat" {
				if f := s.Get("fail"); f != "" && (effectKind(ev.Name) == "exec" || (ev.Fn != nil && rs.performer(ev.Fn))) {
					e.Report(s, "process after a failure in "+p.FnName(fn), ev.Pos, "a process is started although %s failed earlier on this path", f)
				}
				n := ev.Name
				e.splitErr(s, ev, nil, func(s *State) { s.Set("fail", n) })
			}
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			if s.Get("fail") == "" || len(ret) == 0 {
				return
			}
			if e.Nilness(s, ret[len(ret)-1]) != -1 {
				e.Report(s, "failure swallowed: "+s.Get("fail")+" in "+p.FnName(fn), fn.Pos(), "%s can report success although %s failed", p.FnName(fn), s.Get("fail"))
				return
			}
			e.Count("process failure propagated")
		}
		s := e.NewState(fn, nil)
		e.Run(s)
		c.Absorb(e)
	}
}
