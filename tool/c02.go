package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C02",
		Technique: "path-sensitive interprocedural property simulation over SSA (per-item typestate with platform and condition gates at every nesting level, list provenance for filtered item lists)",
		Explain:   "Every path through the task executor is simulated. An item (top-level or inside a parallel block) may only be acted upon (process started, prompt shown, task entered, log printed) on a path where its platform test against the build platform and its own condition were both passed; on every successful path each item is acted upon unless one of these two gates failed. A task's dependencies and items are reached only past the task's own condition.",
		Run:       runC02,
		Floors:    map[string]int{"gated action: run command": 2, "gated action: prompt": 1, "gated action: run task": 2, "gated action: print": 1, "item skipped by gate": 4, "gated list element": 1, "task condition gate": 2, "complete item list": 2, "success only after the process ran": 2},
	})
}

// gateTrack follows the condition of whole tasks.
type taskGate struct{ rs *runSim }

func (g taskGate) isTask(t *Term) bool {
	return t.T != nil && g.rs.p.named(t.T, "internal/babfile", "Task")
}

func (g taskGate) key(base *Term) string { return "tw:" + itoa(base.id) }

func (g taskGate) onBranch(e *Engine, s *State, a *Term, v bool) {
	if a.K == KBin && a.S == "==" && a.A[1].S == `""` && a.A[0].K == KFld && a.A[0].S == "When" && g.isTask(a.A[0].A[0]) {
		if v {
			s.Set(g.key(a.A[0].A[0]), "1")
		}
		return
	}
	if k, arg := g.rs.p.gateAtom(a); k == "when" && arg.K == KFld && arg.S == "When" && g.isTask(arg.A[0]) {
		if v {
			s.Set(g.key(arg.A[0]), "1")
		} else {
			s.Set(g.key(arg.A[0])+":skip", "1")
		}
	}
}

// owner finds the task whose field list (Run, Deps) t is an element of.
func (g taskGate) owner(t *Term, field string) *Term {
	var r *Term
	t.any(func(x *Term) bool {
		if r == nil && x.K == KElem && x.A[0].K == KFld && x.A[0].S == field && g.isTask(x.A[0].A[0]) {
			r = x.A[0].A[0]
		}
		return false
	})
	return r
}

func runC02(c *Ctx) {
	for _, goos := range c.goosList() {
		p := c.Prog(goos)
		c.GOOSList = append(c.GOOSList, goos)
		rs := newRunSim(c, p)
		rs.c = c
		rs.explore(func(root *ssa.Function) (*Engine, *Client) {
			it := newItemTrack(rs)
			tg := taskGate{rs}
			cl := &Client{Name: "C02", CollapseErr: true, Abstract: irrelevantRunner(runAbs...), Inline: rs.inline(nil), KeepFact: keepDry}
			e := NewEngine(p, cl)
			cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
				if handlePlatform(e, ev) {
					return
				}
				kind, items := rs.action(e, s, ev)
				if kind == "" {
					return
				}
				where := p.FnName(ev.Instr.Parent())
				for _, i := range items {
					k := it.key(i)
					if s.vals[k] != i {
						e.Report(s, kind+" for an item outside its list iteration in "+where, ev.Pos, "an item is acted upon outside the iteration that gated it (%s)", i)
						continue
					}
					if kind == "print" && s.Get(k+":skip") != "" {
						continue // explanation of a skipped item
					}
					if !it.gated(e, s, i) {
						miss := "platforms"
						if s.Get(k+":p") != "" {
							miss = "when"
						}
						e.Report(s, kind+" ignores item "+miss+" in "+where, ev.Pos, "a run item takes effect (%s) on a path where its %s gate was not passed", kind, miss)
						continue
					}
					e.Count("gated action: " + kind)
					s.Set(k, "done")
					for _, up := range s.vals {
						if up != i && up.K == KElem && i.contains(up) && it.itemColl(up.A[0]) && s.Get(it.key(up)) != "" {
							s.Set(it.key(up), "done")
						}
					}
				}
				if kind == "run task" || kind == "run command" || kind == "prompt" {
					for _, a := range ev.Args {
						for _, f := range []string{"Deps", "Run"} {
							if t := tg.owner(a, f); t != nil {
								if s.Get(tg.key(t)) == "" {
									e.Report(s, kind+" ignores task condition in "+where, ev.Pos, "%s of a task take effect (%s) on a path where the task's own condition was not passed", f, kind)
								} else {
									e.Count("task condition gate")
								}
							}
						}
					}
				}
			}
			closeIter := func(e *Engine, s *State, coll *Term) {
				k := "it:" + itoa(coll.id)
				switch {
				case s.Get(k) == "pending" && s.Get(k+":skip") != "":
					e.Count("item skipped by gate")
				case s.Get(k) == "pending":
					s.Set("bad:"+itoa(coll.id), "1")
				}
				s.Set(k, "")
				s.Set(k+":p", "")
				s.Set(k+":w", "")
				s.Set(k+":skip", "")
				delete(s.vals, k)
			}
			// settle closes the books on lists that belong to one past
			// iteration of a task's run list
			settle := func(s *State, outer *Term) {
				if s.Get("owed") != "" {
					s.Set("dropped", "1")
					s.vals["dropped"] = outer
					s.Set("owed", "")
				}
				for k := range s.auto {
					switch {
					case strings.HasPrefix(k, "open:"):
						l := s.vals[k]
						if l == nil || l == outer {
							continue
						}
						if s.Get("all:"+k[5:]) == "" {
							s.Set("dropped", "1")
							s.vals["dropped"] = l
						}
						s.Set(k, "")
						s.Set("all:"+k[5:], "")
						delete(s.vals, k)
					case strings.HasPrefix(k, "tw:"):
						id, _ := strconv.Atoi(strings.TrimSuffix(k[3:], ":skip"))
						if b := e.T.all[id]; b.any(func(x *Term) bool { return x.K == KElem && x.A[0] == outer }) {
							s.Set(k, "")
						}
					}
				}
			}
			acted := func(e *Engine, s *State, coll *Term) {
				// iterating the items of a parallel block acts on the block itself
				for k, up := range s.vals {
					if up.K == KElem && it.itemColl(up.A[0]) && k == it.key(up) && coll != up.A[0] && coll.contains(up) && s.Get(k) == "pending" {
						if !it.gated(e, s, up) {
							e.Report(s, "parallel block ignores its gates", s.top().fn.Pos(), "a parallel block is entered on a path where its platform or condition gate was not passed")
						}
						s.Set(k, "done")
					}
				}
			}
			cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
				if !it.itemColl(coll) {
					return
				}
				if coll.K != KFld {
					s.Set("owed", "")
				}
				acted(e, s, coll)
				closeIter(e, s, coll)
				if p.isRunColl(coll) {
					settle(s, coll)
				}
				s.Set("open:"+itoa(coll.id), "1")
				s.vals["open:"+itoa(coll.id)] = coll
				it.onIter(e, s, coll, key)
			}
			cl.OnExh = func(e *Engine, s *State, coll *Term) {
				if !it.itemColl(coll) {
					return
				}
				if coll.K != KFld {
					s.Set("owed", "")
				}
				acted(e, s, coll)
				closeIter(e, s, coll)
				id := itoa(coll.id)
				if s.Get("bad:"+id) == "" {
					s.Set("open:"+id, "1")
					s.vals["open:"+id] = coll
					s.Set("all:"+id, "1")
					e.Count("complete item list")
				}
				s.Set("bad:"+id, "")
			}
			cl.OnAppend = func(e *Engine, s *State, base *Term, elems []*Term, res *Term, pos tokenPos) {
				if !it.itemColl(res) {
					return
				}
				for _, x := range elems {
					k := it.key2(x)
					if k == "" || s.vals[k] != x {
						it.appended[x] = false
						continue
					}
					g := it.gated(e, s, x)
					if old, ok := it.appended[x]; ok {
						g = g && old
					}
					it.appended[x] = g
					if g {
						e.Count("gated list element")
					}
					s.Set(k, "done")
					// the list now owes this item's execution
					s.Set("owed", "1")
				}
			}
			cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
				if a.K == KBin && a.S == "==" && a.A[0].K == KLen && a.A[1].S == "0" && v && it.itemColl(a.A[0].A[0]) && a.A[0].A[0].K != KFld {
					s.Set("owed", "") // nothing was collected
				}
				it.onBranch(e, s, a, v)
				tg.onBranch(e, s, a, v)
			}
			cl.OnSelect = func(e *Engine, s *State, ins *ssa.Select, idx int, chans []*Term) {
				// cancellation ends an item early (its error is C14's subject)
				if idx >= 0 && idx < len(chans) && isDoneChan(chans[idx]) {
					for k, up := range s.vals {
						if up.K == KElem && it.itemColl(up.A[0]) && k == it.key(up) {
							s.Set(k, "done")
						}
					}
				}
			}
			cl.OnExit = func(e *Engine, s *State, ret []*Term) {
				if len(ret) > 0 && e.Nilness(s, ret[len(ret)-1]) == -1 {
					return
				}
				if s.Get("owed") != "" {
					e.Report(s, "collected items never executed in "+p.FnName(root), root.Pos(), "a path reports success although run items that passed their gates were collected and then not executed")
				}
				if s.Get("dropped") != "" {
					e.Report(s, "items silently dropped in "+p.FnName(root), root.Pos(), "a path reports success although some item of %s was neither acted upon nor skipped by its platform or condition", s.vals["dropped"])
				}
				for k, v := range s.auto {
					if v == "1" && len(k) > 5 && k[:5] == "open:" && s.Get("all:"+k[5:]) == "" {
						e.Report(s, "items silently dropped in "+p.FnName(root), root.Pos(), "a path reports success although some item of %s was neither acted upon nor skipped by its platform or condition", s.vals[k])
					}
				}
			}
			return e, cl
		}, assumeDry(false))
		rs.performers(c, "C02")
		platformPredicates(c, p)
	}
}

// performers: each function that carries out a command item reports success
// only after the process was started.
func (rs *runSim) performers(c *Ctx, name string) {
	p := rs.p
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/runner" || !rs.performer(fn) {
			continue
		}
		sig := fn.Signature
		if sig.Results().Len() == 0 || !isErrT(sig.Results().At(sig.Results().Len()-1).Type()) {
			c.Violate("process helper without error result: "+p.FnName(fn), p.Pos(fn.Pos()), "%s starts a process but cannot report its failure", p.FnName(fn))
			continue
		}
		cl := &Client{Name: name, CollapseErr: true, KeepFact: keepDry,
			Abstract: irrelevantRunner(append(runAbs, "bool")...),
			Inline:   func(g *ssa.Function) bool { return false }}
		e := NewEngine(p, cl)
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if effectKind(ev.Name) == "exec" || (ev.Fn != nil && ev.Fn != fn && rs.performer(ev.Fn)) {
				s.Set("ran", "1")
			}
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			if e.Nilness(s, ret[len(ret)-1]) == -1 {
				return
			}
			if s.Get("ran") == "" {
				e.Report(s, "success without running in "+p.FnName(fn), fn.Pos(), "%s can report success although the command was never started", p.FnName(fn))
				return
			}
			e.Count("success only after the process ran")
		}
		s := e.NewState(fn, nil)
		assumeDry(false)(e, s, fn)
		e.Run(s)
		c.Absorb(e)
	}
}

// isDoneChan: the cancellation channel of a context.
func isDoneChan(t *Term) bool {
	t = strip(t)
	return t.K == KCall && t.S == "invoke (context.Context).Done" || t.K == KExt && len(t.A) > 0 && isDoneChan(t.A[0])
}

// platformPredicates: a platform list admits a system exactly when it is empty
// or names that system.
func platformPredicates(c *Ctx, p *Prog) {
	for _, fn := range p.Funcs {
		if !p.platformPred(fn) {
			continue
		}
		fn := fn
		cl := &Client{Name: "C02"}
		e := NewEngine(p, cl)
		s := e.NewState(fn, nil)
		list, want := s.top().env[fn.Params[0]], s.top().env[fn.Params[1]]
		isElem := func(t *Term) bool { t = strip(t); return t.K == KElem && t.A[0] == list }
		cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
			switch {
			case a.K == KBin && a.S == "==" && (isElem(a.A[0]) && strip(a.A[1]) == want || isElem(a.A[1]) && strip(a.A[0]) == want):
				if v {
					s.Set("in", "1")
				} else {
					s.Set("miss", "1")
				}
			case a.K == KBin && a.S == "==" && a.A[0].K == KLen && a.A[0].A[0] == list && a.A[1].S == "0", a.K == KBin && a.S == "==" && a.A[0] == list && a.A[1].IsNil():
				if v {
					s.Set("in", "1")
				} else {
					s.Set("nonempty", "1")
				}
			case a.K == KCall && a.S == "slices.Contains" && a.A[0] == list && strip(a.A[1]) == want:
				if v {
					s.Set("in", "1")
				} else {
					s.Set("all", "1")
				}
			}
		}
		cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
			if coll == list {
				if s.Get("it") != "" && s.Get("miss") == "" {
					s.Set("bad", "1")
				}
				s.Set("it", "1")
				s.Set("nonempty", "1")
				s.Set("miss", "")
			}
		}
		cl.OnExh = func(e *Engine, s *State, coll *Term) {
			if coll == list {
				if s.Get("it") != "" && s.Get("miss") == "" {
					s.Set("bad", "1")
				}
				s.Set("all", "1")
			}
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			r := ret[0]
			if v, ok := e.Decide(s, r); ok {
				r = e.T.Bool(v)
			}
			bad := ""
			switch v, isC := r.BoolVal(); {
			case !isC && r.K == KCall && r.S == "slices.Contains" && r.A[0] == list && strip(r.A[1]) == want && s.Get("nonempty") != "":
			case !isC:
				bad = "its answer does not follow from the list and the system"
			case v && s.Get("in") == "":
				bad = "it admits a system that a non-empty list does not name"
			case !v && (s.Get("in") != "" || s.Get("all") == "" || s.Get("nonempty") == "" || s.Get("bad") != ""):
				bad = "it rejects a system although the list is empty or may name it"
			}
			if bad != "" {
				e.Report(s, "platform test "+p.FnName(fn), fn.Pos(), "%s: %s", p.FnName(fn), bad)
				return
			}
			e.Count("platform test outcome")
		}
		e.Run(s)
		c.Absorb(e)
	}
}
