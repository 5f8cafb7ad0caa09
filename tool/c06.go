package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C06",
		Technique: "path-sensitive simulation of parsing over SSA: per-task obligations (every dependency, every reference, every alias looked up; a failed look-up ends in an error), with separately verified contracts for the walkers over run items, the listing helpers and the list of errors",
		Explain:   "On every path on which parsing succeeds, for every task: each name in deps was looked up in the tasks and found; its run items were walked by a function that does the same for every task item and goes into every parallel block; each alias was found to be no task name and not among the aliases seen before (in a table that outlives the task), and was entered there. A failed look-up leads to an error that is returned. The alias table has each alias point to its task, and the runner runs that task.",
		Run:       runC06,
		Floors:    map[string]int{"parse succeeds with all duties": 1, "dependency looked up": 1, "reference looked up": 1, "parallel block entered": 1, "alias checked": 1, "alias table entry": 1, "names of all tasks": 1, "aliases of a task": 1, "error list contract": 3, "alias resolved": 2},
	})
}

func runC06(c *Ctx) {
	goos := c.goosList()[0]
	p := c.Prog(goos)
	c.GOOSList = append(c.GOOSList, goos)
	ps := newParseSim(c, p)
	if ps.parse == nil {
		return
	}
	ps.verrContracts(c, "C06")
	ps.nameContracts(c, "C06")
	bad := c06Walkers(c, ps)
	c06Parse(c, ps, bad)
	c06Table(c, ps)
	c06Resolve(c, p)
}

// missingRef: a branch on whether x names a task. found: 1 yes, -1 no.
func taskLookup(p *Prog, a *Term, v bool) (m, key *Term, found int) {
	if a.K == KMapOK && isTaskMap(p, a.A[0].T) {
		if v {
			return a.A[0], a.A[1], 1
		}
		return a.A[0], a.A[1], -1
	}
	if a.K == KBin && a.S == "==" && a.A[1].IsNil() && a.A[0].K == KMapVal && isTaskMap(p, a.A[0].A[0].T) {
		if v {
			return a.A[0].A[0], a.A[0].A[1], -1
		}
		return a.A[0].A[0], a.A[0].A[1], 1
	}
	return nil, nil, 0
}

// c06Walkers verifies the functions that walk run items, assuming in turn that
// the items are task items and parallel blocks. It yields those that leave a
// reference unchecked.
func c06Walkers(c *Ctx, ps *parseSim) map[*ssa.Function][]Violation {
	p := ps.p
	res := map[*ssa.Function][]Violation{}
	for _, fn := range p.Funcs {
		if !ps.walk[fn] {
			continue
		}
		fn := fn
		at := p.FnName(fn)
		var ri *Term
		_ = ri
		for _, kind := range []string{"TaskRun", "ParallelRun", "other"} {
			kind := kind
			cl := &Client{Name: "C06", Inline: func(g *ssa.Function) bool { return g != fn && ps.inline(g) }}
			e := NewEngine(p, cl)
			var items, tasks, verrs *Term
			isElem := func(x *Term) bool { return x.K == KElem && x.A[0] == items }
			cl.Oracle = func(e *Engine, s *State, a *Term) (bool, bool) {
				if a.K == KIsType && isElem(a.A[0]) {
					task, par := p.named(a.T, "internal/babfile", "TaskRun"), p.named(a.T, "internal/babfile", "ParallelRun")
					if kind == "other" && !task && !par {
						return false, false
					}
					return kind == "TaskRun" && task || kind == "ParallelRun" && par, true
				}
				return false, false
			}
			of := func(s *State, x *Term, f string) bool {
				x = strip(x)
				return x.K == KFld && x.S == f && x.A[0].any(func(y *Term) bool { return y == s.vals["item"] })
			}
			end := func(e *Engine, s *State) {
				switch s.Get("it") {
				case "todo":
					if kind == "other" {
						return
					}
					if kind == "TaskRun" {
						e.Report(s, "reference not looked up in "+at, fn.Pos(), "%s can pass over a task item without looking its task up", at)
					} else {
						e.Report(s, "parallel block not entered in "+at, fn.Pos(), "%s can pass over a parallel block without checking its items", at)
					}
				case "missing":
					e.Report(s, "missing task accepted in "+at, fn.Pos(), "%s finds a referenced task missing and records no error", at)
				}
			}
			cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
				if coll != items {
					return
				}
				end(e, s)
				s.Set("it", "todo")
				s.vals["item"] = e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
			}
			cl.OnExh = func(e *Engine, s *State, coll *Term) {
				if coll == items {
					end(e, s)
					s.Set("it", "")
					s.Set("all", "1")
				}
			}
			cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
				if m, k, f := taskLookup(p, a, v); f != 0 && strip(m) == tasks && of(s, k, "Task") {
					if f > 0 {
						if s.Get("it") == "todo" {
							s.Set("it", "ok")
						}
						e.Count("reference looked up")
					} else {
						s.Set("it", "missing")
					}
				}
			}
			cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
				if k := verrMethod(p, ev.Fn); k != "" {
					if k == "Add" && ev.Args[0] == verrs && e.Nilness(s, ev.Args[1]) != 1 {
						s.Set("err", "1")
						if s.Get("it") == "missing" {
							s.Set("it", "ok")
						}
					}
					return
				}
				ci, _ := ev.Instr.(ssa.CallInstruction)
				if ev.Fn == fn || ev.Rec || ev.Fn == nil && strings.HasPrefix(ev.Name, "dynamic *free:") && types.Identical(ci.Common().Signature(), fn.Signature) {
					okItems := false
					same := true
					for i, a := range ev.Args {
						switch t := fn.Params[i].Type(); {
						case isItemSlice(p, t):
							okItems = of(s, a, "Items")
						case isTaskMap(p, t):
							same = same && a == tasks
						case isVerrs(p, t):
							same = same && a == verrs
						}
					}
					if kind == "ParallelRun" && okItems && same {
						s.Set("it", "ok")
						e.Count("parallel block entered")
					}
				}
			}
			cl.OnExit = func(e *Engine, s *State, ret []*Term) {
				if s.Get("all") == "" && s.Get("err") == "" {
					e.Report(s, "walk ends early in "+at, fn.Pos(), "%s can end before it has gone through all items", at)
				}
			}
			s := e.NewState(fn, nil)
			find := func(v ssa.Value, t *Term) {
				switch {
				case isItemSlice(p, v.Type()):
					items = t
				case isTaskMap(p, v.Type()):
					tasks = t
				case isVerrs(p, v.Type()):
					verrs = t
				}
			}
			for _, q := range fn.Params {
				find(q, s.top().env[q])
			}
			for _, q := range fn.FreeVars {
				if pe := ptrElem(q.Type()); pe != nil {
					v := e.load(s, s.top().env[q], pe)
					switch {
					case isTaskMap(p, pe):
						tasks = v
					case isVerrs(p, pe):
						verrs = v
					}
				}
			}
			if tasks == nil || verrs == nil {
				res[fn] = append(res[fn], Violation{Key: "no reference check", Msg: at + " takes no task table"})
				continue
			}
			e.Run(s)
			res[fn] = append(res[fn], e.Viol...)
			e.Viol = nil
			c.Absorb(e)
		}
	}
	return res
}

func c06Parse(c *Ctx, ps *parseSim, bad map[*ssa.Function][]Violation) {
	p := ps.p
	root := ps.parse
	cl := &Client{Name: "C06", CollapseErr: true, Inline: ps.inline}
	e := NewEngine(p, cl)
	duties := []string{"deps", "runs", "aliases"}
	what := map[string]string{"deps": "dependencies", "runs": "task references of the run items", "aliases": "aliases"}
	inv := func(s *State, f string, t *Term) bool { // field f of the current task
		t = strip(t)
		return t.K == KFld && t.S == f && s.vals["name"] != nil && t.A[0].any(func(x *Term) bool { return x == s.vals["name"] || x == s.vals["task"] })
	}
	aliasColl := func(s *State, t *Term) bool {
		if t.K != KCall || len(t.A) != 1 || !isStrSlice(t.T) {
			return false
		}
		return p.named(t.A[0].T, "internal/babfile", "Task") && s.vals["name"] != nil && t.A[0].any(func(x *Term) bool { return x == s.vals["name"] || x == s.vals["task"] })
	}
	anyVerr := func(s *State) bool {
		for k, v := range s.auto {
			if v != "" && len(k) > 5 && k[:5] == "verr:" {
				return true
			}
		}
		return false
	}
	// end of one task
	endTask := func(e *Engine, s *State) {
		if s.Get("in") == "" {
			return
		}
		for _, d := range duties {
			if s.Get("i:"+d) != "ok" && !anyVerr(s) {
				s.Set("L:"+d, "bad")
			}
			s.Set("i:"+d, "")
		}
		s.Set("in", "")
	}
	endDep := func(e *Engine, s *State) {
		if (s.Get("dep") == "todo" || s.Get("missing") != "") && !anyVerr(s) {
			s.Set("i:deps", "bad")
		}
		s.Set("dep", "")
		s.Set("missing", "")
	}
	endAlias := func(e *Engine, s *State) {
		if s.Get("al") == "" {
			return
		}
		if s.Get("al:skip") == "" && !anyVerr(s) {
			if s.Get("al:task") == "" || s.Get("al:dup") == "" || s.Get("al:put") == "" || s.Get("al:put") != s.Get("al:dup") || s.Get("missing") != "" {
				s.Set("i:aliases", "bad")
			} else {
				e.Count("alias checked")
			}
		}
		for _, k := range []string{"al", "al:task", "al:dup", "al:put", "al:skip", "missing"} {
			s.Set(k, "")
		}
	}
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
		if m, n := ps.namesOf(e, coll, key); m != nil {
			endTask(e, s)
			if s.Get("first") == "" {
				s.Set("first", "1")
				for a := range s.mem {
					if a.K == KAlloc && a.S == "map" {
						s.Set("pre:"+itoa(a.id), "1")
					}
				}
			}
			s.Set("in", "1")
			s.vals["name"], s.vals["tasks"] = n, strip(m)
			if isMapT(coll.T) && elem != nil {
				s.vals["task"] = elem
			} else {
				delete(s.vals, "task")
			}
			return
		}
		switch {
		case inv(s, "Deps", coll):
			endDep(e, s)
			s.Set("dep", "todo")
			s.vals["dep"] = e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
		case aliasColl(s, coll):
			endAlias(e, s)
			s.Set("al", "1")
			s.vals["alias"] = e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
		}
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		if m, _ := ps.namesOf(e, coll, nil); m != nil {
			endTask(e, s)
			for _, d := range duties {
				if s.Get("L:"+d) == "" {
					s.Set("D:"+d, "1")
				}
				s.Set("L:"+d, "")
			}
			for k := range s.auto {
				if len(k) > 4 && k[:4] == "pre:" {
					s.Set(k, "")
				}
			}
			s.Set("first", "")
			delete(s.vals, "name")
			delete(s.vals, "task")
			return
		}
		switch {
		case inv(s, "Deps", coll):
			endDep(e, s)
			if s.Get("i:deps") != "bad" {
				s.Set("i:deps", "ok")
			}
		case aliasColl(s, coll):
			endAlias(e, s)
			if s.Get("i:aliases") != "bad" {
				s.Set("i:aliases", "ok")
			}
		}
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
		if m, k, f := taskLookup(p, a, v); f != 0 {
			switch {
			case strip(m) != s.vals["tasks"]:
			case k == s.vals["dep"] && s.vals["dep"] != nil:
				s.Set("dep", "done")
				if f < 0 {
					s.Set("missing", "dependency")
				} else {
					e.Count("dependency looked up")
				}
			case k == s.vals["alias"] && s.vals["alias"] != nil:
				s.Set("al:task", "1")
				if f > 0 {
					s.Set("missing", "alias")
				}
			}
			return
		}
		x := s.vals["alias"]
		if x == nil {
			return
		}
		if a.K == KMapOK && a.A[1] == x {
			if v {
				s.Set("missing", "alias")
			}
			s.Set("al:dup", s.Get("al:look"))
		}
		if a.K == KBin && a.S == "==" && v && (a.A[0] == x && a.A[1].S == `""` || a.A[0].K == KLen && a.A[0].A[0] == x && a.A[1].S == "0") {
			s.Set("al:skip", "1")
		}
	}
	cl.OnLookup = func(e *Engine, s *State, m, k *Term, pos tokenPos) {
		if k != s.vals["alias"] || k == nil || isTaskMap(p, m.T) {
			return
		}
		if m.K == KAlloc && s.Get("pre:"+itoa(m.id)) == "" {
			return // a table made for this task
		}
		s.Set("al:look", itoa(m.id))
		if e.mapContents(s, m).K == KMNew {
			s.Set("al:dup", itoa(m.id))
		}
	}
	cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
		if k == s.vals["alias"] && k != nil {
			s.Set("al:put", itoa(m.id))
		}
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ps.verrCall(e, s, ev) {
			return
		}
		if ev.Fn != nil && ps.walk[ev.Fn] && s.Get("in") != "" {
			good := false
			same := true
			for i, a := range ev.Args {
				switch t := ev.Fn.Params[i].Type(); {
				case isItemSlice(p, t):
					good = inv(s, "Run", a)
				case isTaskMap(p, t):
					same = same && strip(a) == s.vals["tasks"]
				}
			}
			for i, q := range ev.Fn.FreeVars {
				if pe := ptrElem(q.Type()); pe != nil && isTaskMap(p, pe) && i < len(ev.Free) {
					same = same && s.mem[ev.Free[i]] != nil && strip(s.mem[ev.Free[i]]) == s.vals["tasks"]
				}
			}
			if good && same {
				if len(bad[ev.Fn]) > 0 {
					for _, v := range bad[ev.Fn] {
						e.Viol = append(e.Viol, v)
					}
					bad[ev.Fn] = nil
				} else {
					s.Set("i:runs", "ok")
				}
			}
		}
		if ev.Fn != nil && ps.reads[ev.Fn] {
			e.splitErr(s, ev, nil, nil)
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if len(ret) != 2 || e.Nilness(s, ret[1]) == -1 {
			return
		}
		if e.Nilness(s, ret[1]) == 0 {
			e.Report(s, "error unknown", root.Pos(), "whether parsing succeeds is not decided by the errors found")
			return
		}
		if verrPending(s) {
			e.Report(s, "errors dropped", root.Pos(), "parsing can succeed although errors were recorded")
			return
		}
		ok := true
		for _, d := range duties {
			if s.Get("D:"+d) == "" {
				ok = false
				e.Report(s, "unchecked: "+d, root.Pos(), "parsing can succeed without the %s of every task having been checked", what[d])
			}
		}
		t := strip(fieldTerm(e, ret[0], "Tasks"))
		if v := s.vals["tasks"]; v != nil && t != v {
			e.Report(s, "other tasks returned", root.Pos(), "the tasks returned (%s) are not those that were checked (%s)", t, v)
			ok = false
		}
		if ok {
			e.Count("parse succeeds with all duties")
		}
	}
	e.Run(e.NewState(root, nil))
	c.Absorb(e)
}

// c06Table: the alias table of the result has every alias of every task.
func c06Table(c *Ctx, ps *parseSim) {
	p := ps.p
	for _, fn := range p.Funcs {
		pr, rs := prms(fn), fn.Signature.Results()
		if p.Rel(fn) != "internal/parser" || fn.Synthetic != "" || len(pr) != 1 || !isTaskMap(p, pr[0]) || rs.Len() != 1 || rs.At(0).Type().String() != "map[string]string" {
			continue
		}
		fn := fn
		at := p.FnName(fn)
		cl := &Client{Name: "C06", Inline: ps.inline}
		e := NewEngine(p, cl)
		var tasks *Term
		end := func(e *Engine, s *State) {
			if s.Get("al") == "1" {
				e.Report(s, "alias not entered in "+at, fn.Pos(), "%s can leave an alias out of the alias table", at)
			}
			s.Set("al", "")
		}
		endTask := func(e *Engine, s *State) {
			if s.Get("in") == "1" {
				e.Report(s, "aliases of a task skipped in "+at, fn.Pos(), "%s can skip the aliases of a task", at)
			}
			s.Set("in", "")
		}
		mine := func(s *State, t *Term) bool {
			return t.K == KCall && len(t.A) == 1 && isStrSlice(t.T) && p.named(t.A[0].T, "internal/babfile", "Task") && s.vals["name"] != nil &&
				t.A[0].any(func(x *Term) bool { return x == s.vals["name"] || x == s.vals["task"] })
		}
		cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
			if m, n := ps.namesOf(e, coll, key); m != nil && strip(m) == tasks {
				endTask(e, s)
				s.Set("in", "1")
				s.vals["name"] = n
				delete(s.vals, "task")
				if isMapT(coll.T) && elem != nil {
					s.vals["task"] = elem
				}
			} else if mine(s, coll) {
				end(e, s)
				s.Set("al", "1")
				s.vals["alias"] = e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
			}
		}
		cl.OnExh = func(e *Engine, s *State, coll *Term) {
			if m, _ := ps.namesOf(e, coll, nil); m != nil && strip(m) == tasks {
				endTask(e, s)
				s.Set("all", "1")
			} else if mine(s, coll) {
				end(e, s)
				s.Set("in", "ok")
			}
		}
		cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
			if x := s.vals["alias"]; x != nil && v && a.K == KBin && a.S == "==" && (a.A[0] == x && a.A[1].S == `""` || a.A[0].K == KLen && a.A[0].A[0] == x && a.A[1].S == "0") {
				s.Set("al", "ok")
			}
		}
		cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
			if isTaskMap(p, m.T) {
				return
			}
			if k != s.vals["alias"] || v != s.vals["name"] {
				e.Report(s, "foreign entry in "+at, pos, "%s has %s stand for %s", at, k, v)
				return
			}
			s.Set("al", "ok")
			s.Set("m", itoa(m.id))
			e.Count("alias table entry")
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			if s.Get("all") == "" {
				e.Report(s, "tasks skipped in "+at, fn.Pos(), "%s can return before it has gone through all tasks", at)
			}
			if m := s.Get("m"); m != "" && m != itoa(ret[0].id) {
				e.Report(s, "table lost in "+at, fn.Pos(), "%s does not return the table it filled", at)
			}
		}
		s := e.NewState(fn, nil)
		tasks = s.top().env[fn.Params[0]]
		e.Run(s)
		c.Absorb(e)
	}
}

// c06Resolve: Runner.Run enters the task an alias stands for.
func c06Resolve(c *Ctx, p *Prog) {
	m := runModel(c, p)
	heads := map[*ssa.Function]bool{m.Entry: true}
	for _, h := range m.Heads {
		heads[h] = true
	}
	cl := &Client{Name: "C06", CollapseErr: true, KeepFact: func(e *Engine, a *Term) bool {
		return a.K == KMapOK || a.K == KBin && a.A[0].K == KFld && a.A[0].S == "Aliases"
	},
		Inline: func(fn *ssa.Function) bool { return p.Rel(fn) == "internal/runner" && !heads[fn] }}
	e := NewEngine(p, cl)
	var name *Term
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Fn == nil || !heads[ev.Fn] {
			return
		}
		var n, tm *Term
		for i, a := range ev.Args {
			if t := ev.Fn.Params[i].Type(); isTaskMap(p, t) {
				tm = a
			} else if isStringT(t) {
				n = a
			}
		}
		if n == nil || tm == nil {
			return
		}
		src := func(t *Term) *Term { // the parse result
			if t.K == KFld && len(t.A) == 1 {
				return strip(t.A[0])
			}
			return nil
		}
		known := 0
		var table *Term
		for f, v := range s.facts {
			if f.K == KMapOK && f.A[1] == name && f.A[0].K == KFld && f.A[0].S == "Aliases" {
				known = -1
				if v {
					known = 1
				}
				table = f.A[0]
			}
			if f.K == KBin && f.S == "==" && v && f.A[0].K == KFld && f.A[0].S == "Aliases" && f.A[1].IsNil() || f.K == KBin && f.S == "==" && v && f.A[0].K == KLen && f.A[0].A[0].K == KFld && f.A[0].A[0].S == "Aliases" && f.A[1].S == "0" {
				known, table = -1, f.A[0]
				if table.K == KLen {
					table = table.A[0]
				}
			}
		}
		switch {
		case known == 0:
			e.Report(s, "alias not resolved", ev.Pos, "a task is run without its name having been looked up among the aliases")
			return
		case src(table) == nil || src(table) != src(tm):
			e.Report(s, "foreign aliases", ev.Pos, "the name is looked up in %s, which is not the alias table of the tasks that are run", table)
			return
		case known > 0 && !(n.K == KMapVal && n.A[0] == table && n.A[1] == name):
			e.Report(s, "alias not resolved", ev.Pos, "an alias is given and %s is run", n)
			return
		case known < 0 && n != name:
			e.Report(s, "other task run", ev.Pos, "a task name is given and %s is run", n)
			return
		}
		e.Count("alias resolved")
	}
	root := m.Run
	s := e.NewState(root, nil)
	e.Recv = s.top().env[root.Params[0]]
	for _, q := range root.Params {
		if isStringT(q.Type()) {
			name = s.top().env[q]
		}
	}
	e.Run(s)
	c.Absorb(e)
}
