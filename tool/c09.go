package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C09",
		Technique: "path-sensitive value provenance over SSA: the environment of every process start as an ordered list of layers (inherited, hints, map layers), with separately verified contracts for the helpers that merge, interpolate and list maps",
		Explain:   "At every process start, on every path, the environment of the command is an ordered list of layers. It must begin with the inherited environment; then come bab's own hints, then the entries of the global env, the task's env and the command's env, in this order, so that the later setting of a name wins; each of the three is present unless it is known to be empty on that path, and when no environment is set all three are empty. The helpers that merge, interpolate and list maps are verified on their own: no entry is lost, renamed or reordered across maps.",
		Run:       runC09,
		Floors:    map[string]int{"environment of a process start": 10, "map helper contract": 4, "global setting handed over": 1},
	})
}

func newMapTrack(p *Prog) *mapTrack {
	mt := &mapTrack{p: p, kind: map[*ssa.Function]string{}}
	for _, fn := range p.Funcs {
		if r := p.Rel(fn); r == "internal/runner" || r == "internal/babfile" {
			if k := p.mapHelper(fn); k != "" {
				mt.kind[fn] = k
			}
		}
	}
	return mt
}

func runC09(c *Ctx) {
	for _, goos := range c.goosList() {
		p := c.Prog(goos)
		c.GOOSList = append(c.GOOSList, goos)
		rs := newRunSim(c, p)
		rs.c = c
		newMapTrack(p).helperContracts(c, "C09")
		envExplore(c, rs, "C09", func(e *Engine, s *State, ev *CallEvent, mt *mapTrack, cr, task *Term, where string) {
			c09Check(e, s, ev, p, mt, cr, task, where)
		})
		rs.wiring(c, "C09", map[string]string{"GlobalEnv": "GlobalEnv"})
	}
}

// envExplore follows the environment maps to every process start.
func envExplore(c *Ctx, rs *runSim, name string, check func(e *Engine, s *State, ev *CallEvent, mt *mapTrack, cr, task *Term, where string)) {
	p := rs.p
	mt := newMapTrack(p)
	rs.explore(func(root *ssa.Function) (*Engine, *Client) {
		cl := &Client{Name: name, CollapseErr: true, KeepFact: keepDry,
			Abstract: irrelevantRunner("*bool", "*tea.Program", "*runner.ParallelContext", "map[string]runner.status", "[]error"),
			Inline:   rs.cmdInline(func(fn *ssa.Function) bool { return mt.kind[fn] != "" || c09Opaque(rs, fn) }, returns("[]string", "map[string]string"))}
		e := NewEngine(p, cl)
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if handlePlatform(e, ev) || mt.onCall(e, s, ev) {
				return
			}
			if effectKind(ev.Name) == "exec" && len(ev.Args) > 0 {
				where := p.FnName(ev.Instr.Parent())
				cr := rs.cmdItem(e, s, ev.Args[0])
				if cr == nil {
					e.Report(s, "process of no command item in "+where, ev.Pos, "a process is started whose text is not that of a command item")
					return
				}
				task := rs.taskOfItem(e, cr)
				if task == nil || e.Recv == nil {
					e.Undecided(name+": no task for the command item %s", cr)
					return
				}
				check(e, s, ev, mt, cr, task, where)
			}
			if rs.fallible(ev) {
				e.splitErr(s, ev, nil, nil)
			}
		}
		cl.GCAutos = mt.gcAutos
		cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
			if isItemSlice(p, coll.T) {
				mt.forget(e, s, coll)
			}
			mt.onIter(e, s, coll, key, 0)
		}
		cl.OnExh = func(e *Engine, s *State, coll *Term) { mt.onExh(e, s, coll, 0) }
		cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) { mt.onPut(e, s, m, k, v, pos) }
		cl.OnAppend = func(e *Engine, s *State, base *Term, elems []*Term, res *Term, pos tokenPos) {
			mt.onAppend(e, s, elems, pos)
		}
		cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) { mt.onBranch(e, s, a, v) }
		cl.OnReturn = func(e *Engine, s *State, fn *ssa.Function, ret []*Term) {
			if rs.performer(fn) && fn.Signature.Results().Len() <= 1 && !strMapResult(fn) {
				for k := range s.auto {
					if len(k) > 4 && k[:4] == "emp:" {
						s.Set(k, "")
					}
				}
			}
		}
		return e, cl
	}, assumeDry(false))
}

func strMapResult(fn *ssa.Function) bool {
	return fn.Signature.Results().Len() > 0 && strMap(fn.Signature.Results().At(0).Type())
}

// c09Opaque: helpers that yield a string and an error (directories, texts)
// have no part in the environment.
func c09Opaque(rs *runSim, fn *ssa.Function) bool {
	if execReach(rs.p)[fn] || fn.Parent() != nil {
		return false
	}
	r := fn.Signature.Results()
	return r.Len() == 2 && isStringT(r.At(0).Type()) && isErrT(r.At(1).Type())
}

func c09Check(e *Engine, s *State, ev *CallEvent, p *Prog, mt *mapTrack, cr, task *Term, where string) {
	srcs := []struct {
		what string
		ok   func(t *Term) bool
		t    *Term
	}{
		{"global env", func(t *Term) bool { return t.K == KFld && t.S == "GlobalEnv" && t.A[0] == e.Recv }, nil},
		{"env of the task", func(t *Term) bool {
			return t.K == KFld && t.S == "Env" && p.named(t.A[0].T, "internal/babfile", "Task") && t.A[0] == task
		}, nil},
		{"env of the command", func(t *Term) bool { return t.K == KFld && t.S == "Env" && t.A[0] == cr }, nil},
	}
	terms := []*Term{fieldTerm(e, e.Recv, "GlobalEnv"), fieldTerm(e, task, "Env"), fieldTerm(e, cr, "Env")}
	env := e.cmdField(s, ev.Args[0], "Env")
	alts := [][]envEntry{nil}
	if env != nil && !env.IsNil() {
		alts = mt.envSeq(e, s, env, nil, 0)
	}
	for _, seq := range alts {
		if env != nil && !env.IsNil() {
			if len(seq) == 0 || seq[0].kind != "environ" {
				e.Report(s, "inherited environment lost in "+where, ev.Pos, "a command is started without the inherited environment, or with settings before it (%s)", env)
				return
			}
			seq = seq[1:]
		}
		next := 0
		for _, en := range seq {
			switch en.kind {
			case "const":
				if next > 0 {
					e.Report(s, "hint overrides settings in "+where, ev.Pos, "%s is put after the env of the Babfile and overrides it", en.t)
					return
				}
			case "map":
				j := -1
				for i := range srcs {
					if srcs[i].ok(en.t) {
						j = i
					}
				}
				if j < 0 {
					e.Report(s, "foreign environment in "+where, ev.Pos, "the environment of a command takes entries from %s", en.t)
					return
				}
				if j < next {
					e.Report(s, "environment order in "+where, ev.Pos, "the %s is applied after a more specific one", srcs[j].what)
					return
				}
				for ; next < j; next++ {
					if !mt.knownEmpty(e, s, terms[next]) {
						e.Report(s, "environment layer lost: "+srcs[next].what+" in "+where, ev.Pos, "the %s does not reach the command", srcs[next].what)
						return
					}
				}
				next = j + 1
			default:
				e.Report(s, "unknown environment in "+where, ev.Pos, "the environment of a command contains %s", en.t)
				return
			}
		}
		for ; next < 3; next++ {
			if !mt.knownEmpty(e, s, terms[next]) {
				e.Report(s, "environment layer lost: "+srcs[next].what+" in "+where, ev.Pos, "the %s does not reach the command", srcs[next].what)
				return
			}
		}
	}
	e.Count("environment of a process start")
}

func fieldTerm(e *Engine, base *Term, f string) *Term {
	st := structOf(base.T)
	if st == nil {
		return e.T.Fld(base, f, nil)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return e.T.Fld(base, f, st.Field(i).Type())
		}
	}
	return e.T.Fld(base, f, nil)
}
