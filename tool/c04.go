package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C04",
		Technique: "path-sensitive property simulation over SSA (claim typestate: status looked up and set within one critical section before any effect; status identity across recursive calls)",
		Explain:   "Every path of the task-entry function: before any process, prompt, log line or entry into another task, the status of exactly the task being entered was read as 'never entered' and overwritten inside one unbroken critical section of a mutex; on paths where the status was not 'never entered' nothing runs. The status table handed to every recursive entry is the one received, and one run creates exactly one table; a status is never reset.",
		Run:       runC04,
		Floors:    map[string]int{"effect after claim": 3, "atomic claim": 1, "shared status table": 3, "finished task not rerun": 1},
	})
}

// statusHolder: the type is the status table or (a pointer to) a struct that
// holds it.
func (p *Prog) statusHolder(t types.Type) bool {
	if p.isStatusMap(t) {
		return true
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if p.isStatusMap(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

func isMutexOp(name string) (lock, unlock bool) {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return true, false
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return false, true
	}
	return false, false
}

func runC04(c *Ctx) {
	for _, goos := range c.goosList() {
		p := c.Prog(goos)
		c.GOOSList = append(c.GOOSList, goos)
		rs := newRunSim(c, p)
		rs.c = c
		rs.explore(func(root *ssa.Function) (*Engine, *Client) {
			cl := &Client{Name: "C04", CollapseErr: true, Abstract: irrelevantRunner(runAbs...), Inline: rs.inline(nil), KeepFact: keepDry}
			e := NewEngine(p, cl)
			var holder *ssa.Parameter
			for _, prm := range root.Params {
				if p.statusHolder(prm.Type()) {
					holder = prm
				}
			}
			id := func(t *Term) string { return itoa(t.id) }
			isParam := func(t *Term) bool {
				return t != nil && t.K == KSym && t.T != nil && isStringT(t.T)
			}
			var entryState *Term // status table created by this run
			cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
				if handlePlatform(e, ev) {
					return
				}
				if l, u := isMutexOp(ev.Name); l || u {
					s.Set("held", "")
					for k := range s.auto {
						if strings.HasPrefix(k, "lk:") {
							s.Set(k, "")
						}
					}
					if l {
						s.Set("held", "1")
					}
					return
				}
				where := p.FnName(ev.Instr.Parent())
				kind, items := rs.action(e, s, ev)
				if kind == "" {
					return
				}
				if root == rs.m.Entry {
					if kind == "run task" {
						st := holderArg(p, ev)
						switch {
						case st == nil:
							e.Report(s, "no status table in "+where, ev.Pos, "a task is entered without a table of task states")
						case entryState != nil && entryState != st:
							e.Report(s, "two status tables in "+where, ev.Pos, "one run enters tasks with two different tables of task states")
						default:
							entryState = st
							e.Count("shared status table")
						}
					} else {
						e.Report(s, kind+" before any claim in "+where, ev.Pos, "%s outside any task", kind)
					}
					return
				}
				if kind == "run task" {
					st := holderArg(p, ev)
					if holder == nil || st == nil || st != s.frames[0].env[holder] && st != e.T.Sym("p:"+holder.Name(), holder.Type()) && !sameParam(e, s, st, holder) {
						e.Report(s, "different status table in "+where, ev.Pos, "a task is entered with a table of task states other than the one of this run, so tasks already run are run again")
					} else {
						e.Count("shared status table")
					}
				}
				ck := s.vals["claimed"]
				if s.Get("st") == "!" {
					return
				}
				if s.Get("claimed") == "" {
					e.Report(s, kind+" without claim in "+where, ev.Pos, "%s on a path where the task was not claimed as new in one critical section: the task can run more than once", kind)
					return
				}
				for _, i := range items {
					bad := i.any(func(x *Term) bool {
						return x.K == KMapVal && x.A[0].T != nil && p.named(x.A[0].T, "internal/babfile", "TaskMap") && ck != nil && x.A[1] != ck
					})
					if bad {
						e.Report(s, "claim of another name in "+where, ev.Pos, "%s for an item of a task that is not the one claimed", kind)
						return
					}
				}
				e.Count("effect after claim")
			}
			cl.OnLookup = func(e *Engine, s *State, m, k *Term, pos tokenPos) {
				if m.T != nil && p.isStatusMap(m.T) && s.Get("held") != "" && s.Get("claimed") == "" {
					s.Set("lk:"+id(k), "?")
				}
			}
			cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
				if !(a.K == KBin && a.S == "==" && a.A[0].K == KMapVal && a.A[0].A[0].T != nil && p.isStatusMap(a.A[0].A[0].T) && a.A[1].K == KConst) {
					// presence test: st, ok := m[k]
					if a.K == KMapOK && a.A[0].T != nil && p.isStatusMap(a.A[0].T) && isParam(a.A[1]) {
						if !v && s.Get("lk:"+id(a.A[1])) == "?" {
							s.Set("lk:"+id(a.A[1]), "0")
						}
						if !v && s.Get("claimed") == "" {
							s.Set("st", "0")
						}
						if v && s.Get("claimed") == "" {
							if s.Get("st") == "" {
								s.Set("st", "?")
							}
							rs.excluded(s, a.A[0].T, "0")
						}
					}
					return
				}
				k := a.A[0].A[1]
				if v && a.A[1].S == "0" && s.Get("lk:"+id(k)) == "?" {
					s.Set("lk:"+id(k), "0")
				}
				if isParam(k) && !v && s.Get("claimed") == "" {
					rs.excluded(s, a.A[0].A[0].T, a.A[1].S)
				}
				if isParam(k) && v && (s.Get("st") == "" || s.Get("st") == "?") {
					s.Set("st", a.A[1].S)
				}
				if isParam(k) && !v && s.Get("st") == "" {
					s.Set("st", "?")
				}
			}
			cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
				if m.T == nil || !p.isStatusMap(m.T) {
					return
				}
				if v == nil || v.K != KConst || v.S == "0" {
					if sameHolderMap(m) {
						e.Report(s, "status reset in "+p.FnName(s.top().fn), pos, "the state of a task is set to a value that may mean 'never entered'")
					}
					return
				}
				if s.Get("held") == "" && m.K != KMNew && sameHolderMap(m) {
					e.Report(s, "status written without lock in "+p.FnName(s.top().fn), pos, "the table of task states is written outside its critical section")
				}
				if s.Get("lk:"+id(k)) == "0" && isParam(k) && v.S != rs.doneConst() {
					s.vals["claimed"] = k
					s.Set("claimed", id(k))
					e.Count("atomic claim")
				}
			}
			cl.OnExit = func(e *Engine, s *State, ret []*Term) {
				if root == rs.m.Entry || len(ret) == 0 || s.Get("claimed") != "" {
					return
				}
				if s.Get("st") == "!" {
					return
				}
				nn := e.Nilness(s, ret[len(ret)-1])
				switch st := s.Get("st"); st {
				case rs.doneConst():
					if nn == -1 {
						e.Report(s, "finished task is an error in "+p.FnName(root), root.Pos(), "a reference to a task that already finished is reported as a failure")
					} else {
						e.Count("finished task not rerun")
					}
				case "", "0":
				default:
					if nn != -1 {
						e.Report(s, "unfinished task taken as finished in "+p.FnName(root), root.Pos(), "a reference to a task that was entered but has not finished returns success")
					} else {
						e.Report(s, "running task is an error in task entry", root.Pos(), "a task that another parallel item is running is reported as a dependency cycle")
					}
				}
			}
			return e, cl
		}, assumeDry(false))
		// the record says finished only of a task that was completed
		c03Explore(c, p, rs, func(key string) bool {
			return strings.HasPrefix(key, "finished too early") || strings.HasPrefix(key, "anchor")
		})
	}
}

// sameHolderMap: the table is reached through a value that outlives the
// function (not a local copy).
func sameHolderMap(m *Term) bool {
	return !m.any(func(x *Term) bool { return x.K == KMNew || x.K == KAlloc })
}

// holderArg: the status-table argument of a call.
func holderArg(p *Prog, ev *CallEvent) *Term {
	for i, prm := range ev.Fn.Params {
		if p.statusHolder(prm.Type()) && i < len(ev.Args) {
			return ev.Args[i]
		}
	}
	return nil
}

func sameParam(e *Engine, s *State, t *Term, prm *ssa.Parameter) bool {
	return t.K == KSym && t.T != nil && types.Identical(t.T, prm.Type())
}

// excluded records a task-state value ruled out on this path; when every value
// of the enumeration is ruled out the path is infeasible (only declared values
// are ever written).
func (rs *runSim) excluded(s *State, mt types.Type, v string) {
	s.Set("no:"+v, "1")
	n := types.Unalias(mt.Underlying().(*types.Map).Elem()).(*types.Named)
	all := s.Get("no:0") != ""
	for _, nm := range n.Obj().Pkg().Scope().Names() {
		if k, ok := n.Obj().Pkg().Scope().Lookup(nm).(*types.Const); ok && types.Identical(k.Type(), n) && s.Get("no:"+k.Val().ExactString()) == "" {
			all = false
		}
	}
	if all {
		s.Set("st", "!")
	}
}
