package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C10",
		Technique: "path-sensitive value provenance over SSA: the working directory of every process start as a term over the Babfile's fields, compared with the directory cascade under the branch facts of the path",
		Explain:   "At every process start, on every path, the Dir of the command is a term over the command item, its task, the runner and the interpolation result. Under the emptiness facts of that path it must be the first non-empty of the command's dir, the task's dir and the global dir, interpolated, taken as is when absolute and otherwise joined to the directory of the task's source file; with none set it is the directory of the source file. The runner's global dir must be the parse result's.",
		Run:       runC10,
		Floors:    map[string]int{"directory of the source file": 1, "own dir": 2, "dir of the task": 2, "global dir": 2, "global setting handed over": 1},
	})
}

func runC10(c *Ctx) {
	for _, goos := range c.goosList() {
		p := c.Prog(goos)
		c.GOOSList = append(c.GOOSList, goos)
		rs := newRunSim(c, p)
		rs.c = c
		str := types.Typ[types.String]
		rs.explore(func(root *ssa.Function) (*Engine, *Client) {
			cl := &Client{Name: "C10", CollapseErr: true, KeepFact: keepDry,
				Abstract: irrelevantRunner(append(runAbs, "map[string]runner.status", "[]error", "*exec.Cmd$")...),
				Inline:   rs.cmdInline(nil, returns("string"))}
			e := NewEngine(p, cl)
			cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
				if handlePlatform(e, ev) {
					return
				}
				if effectKind(ev.Name) == "exec" && len(ev.Args) > 0 {
					where := p.FnName(ev.Instr.Parent())
					cmd := ev.Args[0]
					cr := rs.cmdItem(e, s, cmd)
					if cr == nil {
						e.Report(s, "process of no command item in "+where, ev.Pos, "a process is started whose text is not that of a command item (%s)", cmd)
						return
					}
					task := rs.taskOfItem(e, cr)
					r := e.Recv
					if task == nil || r == nil {
						e.Undecided("C10: no task for the command item %s", cr)
						return
					}
					c10Check(e, s, ev, p, cr, task, r, e.cmdField(s, cmd, "Dir"), where, str)
				}
				if rs.fallible(ev) {
					e.splitErr(s, ev, nil, nil)
				}
			}
			cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
				if a.K == KBin && a.S == "==" && a.A[1].S == `""` {
					if w := c10Level(p, a.A[0]); w != "" {
						s.Set("d:"+w, map[bool]string{true: "empty", false: "set"}[v])
					}
				}
				if a.K == KCall && a.S == "path/filepath.IsAbs" {
					s.Set("abs", map[bool]string{true: "yes", false: "no"}[v])
				}
			}
			clear := func(s *State) {
				for _, k := range []string{"d:own dir", "d:dir of the task", "d:global dir", "abs"} {
					s.Set(k, "")
				}
			}
			cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
				if isItemSlice(p, coll.T) {
					clear(s)
				}
			}
			cl.OnReturn = func(e *Engine, s *State, fn *ssa.Function, ret []*Term) {
				if rs.performer(fn) && fn.Signature.Results().Len() == 1 {
					clear(s)
				}
			}
			return e, cl
		}, assumeDry(false))
		rs.wiring(c, "C10", map[string]string{"GlobalDir": "GlobalDir"})
	}
}

func c10Check(e *Engine, s *State, ev *CallEvent, p *Prog, cr, task, r, dir *Term, where string, str types.Type) {
	base := e.T.mk(KCall, "path/filepath.Dir", "", str, false, nil, e.T.Fld(task, "SourcePath", str))
	isBase := func(t *Term) bool {
		return t.K == KCall && t.S == "path/filepath.Dir" && len(t.A) == 1 && t.A[0] == base.A[0]
	}
	cands := []struct {
		what string
		t    *Term
	}{{"own dir", e.T.Fld(cr, "Dir", str)}, {"dir of the task", e.T.Fld(task, "Dir", str)}, {"global dir", e.T.Fld(r, "GlobalDir", str)}}
	what := "directory of the source file"
	var chosen *Term
	for _, cd := range cands {
		em, known := e.strEmpty(s, cd.t)
		if g := s.Get("d:" + cd.what); !known && g != "" {
			em, known = g == "empty", true
		}
		if !known {
			e.Report(s, "cascade skips "+cd.what+" in "+where, ev.Pos, "the working directory is chosen without looking at the %s (it is %s)", cd.what, termOr(dir, "unset"))
			return
		}
		if !em {
			what, chosen = cd.what, cd.t
			break
		}
	}
	if dir == nil || dir.S == `""` {
		// left unset only when the resolved directory is empty
		ok := false
		for a, v := range s.facts {
			if v && a.K == KBin && a.S == "==" && a.A[1].S == `""` {
				if c10Match(e, s, a.A[0], chosen, isBase) == "" {
					ok = true
				}
			}
		}
		if !ok {
			e.Report(s, "working directory unset in "+where, ev.Pos, "a command is started in bab's own working directory instead of the %s", what)
		}
		return
	}
	for _, d := range e.leaves(dir) {
		if why := c10Match(e, s, d, chosen, isBase); why != "" {
			e.Report(s, "wrong directory ("+what+") in "+where, ev.Pos, "the working directory must be the %s but is %s: %s", what, d, why)
			return
		}
	}
	e.Count(what)
}

// c10Match: t denotes the directory for the chosen text (nil: the default).
func c10Match(e *Engine, s *State, t, chosen *Term, isBase func(*Term) bool) string {
	for t.K == KCall && t.S == "path/filepath.Clean" || t.K == KExt && t.A[0].K == KCall && t.A[0].S == "path/filepath.Abs" {
		if t.K == KExt {
			t = t.A[0]
		}
		t = t.A[0]
	}
	if chosen == nil {
		if !isBase(t) {
			return "not the directory of the file that defines the task"
		}
		return ""
	}
	text := func(x *Term) bool { a := e.template(x); return a == chosen }
	isAbs := func(x *Term) (bool, bool) {
		if v, ok := e.Decide(s, e.T.mk(KCall, "path/filepath.IsAbs", "", types.Typ[types.Bool], false, nil, x)); ok {
			return v, ok
		}
		return s.Get("abs") == "yes", s.Get("abs") != ""
	}
	if text(t) {
		if v, known := isAbs(t); !known || !v {
			return "a relative dir is not taken relative to the Babfile"
		}
		return ""
	}
	if t.K == KCall && t.S == "path/filepath.Join" && len(t.A) == 2 {
		if !isBase(t.A[0]) {
			return "a relative dir is not taken relative to the file that defines the task"
		}
		if !text(t.A[1]) {
			return "not the text that was set"
		}
		if v, known := isAbs(t.A[1]); !known || v {
			return "an absolute dir is taken as relative"
		}
		return ""
	}
	return "not derived from the text that was set"
}

// c10Level names the level of the directory cascade a text belongs to.
func c10Level(p *Prog, t *Term) string {
	if t.K != KFld || t.A[0].T == nil {
		return ""
	}
	switch {
	case t.S == "Dir" && p.named(t.A[0].T, "internal/babfile", "CommandRun"):
		return "own dir"
	case t.S == "Dir" && p.named(t.A[0].T, "internal/babfile", "Task"):
		return "dir of the task"
	case t.S == "GlobalDir" && p.named(t.A[0].T, "internal/runner", "Runner"):
		return "global dir"
	}
	return ""
}
