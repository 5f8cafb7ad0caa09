package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parseSim holds the anchors of the parser: they are found by what the
// functions take, return and reach, not by their names.
type parseSim struct {
	p     *Prog
	c     *Ctx
	parse *ssa.Function          // the exported entry that yields a *ParseResult
	reads map[*ssa.Function]bool // functions that read files (the include recursion)
	names map[*ssa.Function]bool // TaskMap -> []string: the names of all tasks
	alias map[*ssa.Function]bool // *Task -> []string: all aliases of a task
	walk  map[*ssa.Function]bool // recursive functions over run items
	files []*ssa.Function        // functions on the include recursion
}

func isTaskMap(p *Prog, t types.Type) bool {
	if t == nil {
		return false
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		pt, ok := m.Elem().(*types.Pointer)
		return ok && p.named(pt, "internal/babfile", "Task") && isStringT(m.Key())
	}
	return false
}

func isStrSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isStringT(sl.Elem())
}

// prms: all parameters, the receiver included.
func prms(fn *ssa.Function) []types.Type {
	var r []types.Type
	for _, q := range fn.Params {
		r = append(r, q.Type())
	}
	return r
}

func newParseSim(c *Ctx, p *Prog) *parseSim {
	ps := &parseSim{p: p, c: c, names: map[*ssa.Function]bool{}, alias: map[*ssa.Function]bool{}, walk: map[*ssa.Function]bool{}}
	ps.reads = p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
		return p.calls(ins, map[string]bool{"os.ReadFile": true, "os.Open": true, "os.OpenFile": true, "io.ReadAll": true})
	})
	for _, fn := range p.Funcs {
		rel := p.Rel(fn)
		if rel != "internal/parser" && rel != "internal/babfile" || fn.Synthetic != "" {
			continue
		}
		pr, rs := prms(fn), fn.Signature.Results()
		if rel == "internal/parser" {
			for _, t := range pr {
				if isItemSlice(p, t) && ps.recursive(fn) {
					ps.walk[fn] = true
				}
			}
			if ps.reads[fn] && p.OnCycle(fn) {
				ps.files = append(ps.files, fn)
			}
			if fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() && rs.Len() == 2 && p.named(rs.At(0).Type(), "internal/parser", "ParseResult") {
				ps.parse = fn
			}
		}
		if len(pr) == 1 && rs.Len() == 1 && isStrSlice(rs.At(0).Type()) {
			if isTaskMap(p, pr[0]) {
				ps.names[fn] = true
			}
			if p.named(pr[0], "internal/babfile", "Task") {
				ps.alias[fn] = true
			}
		}
	}
	return ps
}

// recursive: the function calls itself, or is a closure that may.
func (ps *parseSim) recursive(fn *ssa.Function) bool {
	return ps.p.OnCycle(fn) || callsCaptured(fn)
}

// inline: the parser's own straight-line code.
func (ps *parseSim) inline(fn *ssa.Function) bool {
	rel := ps.p.Rel(fn)
	if rel != "internal/parser" && rel != "internal/babfile" && rel != "internal/errs" {
		return false
	}
	return !ps.reads[fn] && !ps.names[fn] && !ps.alias[fn] && !ps.recursive(fn) && verrMethod(ps.p, fn) == ""
}

// verrMethod: a method of the list of validation errors.
func verrMethod(p *Prog, fn *ssa.Function) string {
	if fn == nil || fn.Signature.Recv() == nil || !p.named(fn.Signature.Recv().Type(), "internal/errs", "ValidationErrors") {
		return ""
	}
	switch fn.Name() {
	case "Add", "HasErrors", "OrNil":
		return fn.Name()
	}
	return ""
}

func isVerrs(p *Prog, t types.Type) bool {
	_, ptr := t.(*types.Pointer)
	return ptr && p.named(t, "internal/errs", "ValidationErrors")
}

// verrCall follows the list of validation errors: "verr:" lists with an error,
// "pass:" lists handed to code that is not followed.
func (ps *parseSim) verrCall(e *Engine, s *State, ev *CallEvent) bool {
	k := verrMethod(ps.p, ev.Fn)
	if k == "" {
		if !ev.Inline {
			args := ev.Args
			for _, a := range ev.Free {
				if v := s.mem[a]; v != nil {
					args = append(args[:len(args):len(args)], v)
				}
			}
			for _, a := range args {
				if a.T != nil && isVerrs(ps.p, a.T) {
					s.Set("pass:"+itoa(a.id), "1")
				}
			}
		}
		return false
	}
	r := itoa(ev.Args[0].id)
	ev.Handled = true
	yes, no := e.T.Bool(true), e.T.Bool(false)
	if k == "OrNil" {
		yes, no = e.T.mk(KHavoc, "err!", "", ev.Fn.Signature.Results().At(0).Type(), false, nil), e.T.Nil()
	}
	switch {
	case k == "Add":
		if e.Nilness(s, ev.Args[1]) == 1 {
			ev.Results = []Outcome{{Ret: e.T.Nil()}}
			return true
		}
		s.Set("verr:"+r, "1")
		s.Set("missing", "")
		ev.Results = []Outcome{{Ret: e.T.Nil()}}
	case s.Get("verr:"+r) != "":
		ev.Results = []Outcome{{Ret: yes}}
	case s.Get("pass:"+r) == "":
		ev.Results = []Outcome{{Ret: no}}
	default:
		ev.Results = []Outcome{{Ret: yes, Do: func(s *State) { s.Set("verr:"+r, "1") }}, {Ret: no, Do: func(s *State) { s.Set("pass:"+r, "") }}}
	}
	return true
}

// dropped: an error was found but is not in what is returned.
func verrPending(s *State) bool {
	for k, v := range s.auto {
		if v != "" && (strings.HasPrefix(k, "verr:") || strings.HasPrefix(k, "pass:")) {
			return true
		}
	}
	return false
}

// verrContracts verifies Add, HasErrors and OrNil on their own.
func (ps *parseSim) verrContracts(c *Ctx, name string) {
	p := ps.p
	for _, fn := range p.Funcs {
		k := verrMethod(p, fn)
		if k == "" || fn.Synthetic != "" {
			continue
		}
		fn := fn
		cl := &Client{Name: name, Inline: func(g *ssa.Function) bool { return p.Rel(g) == "internal/errs" }, KeepFact: func(e *Engine, a *Term) bool { return true }}
		e := NewEngine(p, cl)
		var recv, list *Term
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			var cur *Term
			for a, v := range s.mem {
				if a.K == KFieldAddr && a.S == "Errors" && a.A[0] == recv {
					cur = v
				}
			}
			if k == "Add" {
				x := s.top2(fn, 1)
				if e.Nilness(s, x) == 1 {
					return
				}
				if cur == nil || cur.K != KAppend || cur.S != "1" || cur.A[1] != x || !isField(cur.A[0], "Errors", recv) {
					e.Report(s, "error not recorded", fn.Pos(), "an error added to the list of errors can be lost")
					return
				}
				e.Count("error list contract")
				return
			}
			if cur != nil && !isField(cur, "Errors", recv) {
				e.Report(s, "errors forgotten", fn.Pos(), "%s changes the list of errors", fn.Name())
				return
			}
			empty := func(s *State) (bool, bool) {
				for f, v := range s.facts {
					if f.K == KBin && f.S == "==" && f.A[0].K == KLen && isField(f.A[0].A[0], "Errors", recv) && f.A[1].S == "0" {
						return v, true
					}
				}
				return false, false
			}
			chk := func(s *State, has bool) {
				v, ok := empty(s)
				if !ok || v == has {
					e.Report(s, "errors forgotten", fn.Pos(), "%s can answer that there are no errors although there are, or the reverse", fn.Name())
					return
				}
				e.Count("error list contract")
			}
			if k == "OrNil" {
				chk(s, e.Nilness(s, ret[0]) == -1)
				return
			}
			for _, v := range []bool{true, false} {
				u := s.clone()
				if e.Assume(u, ret[0], v) {
					chk(u, v)
				}
			}
		}
		s := e.NewState(fn, nil)
		recv = s.top().env[fn.Params[0]]
		if k == "Add" {
			s.vals["arg"] = s.top().env[fn.Params[1]]
		}
		_ = list
		e.Run(s)
		c.Absorb(e)
	}
}

// top2: the term a parameter was given at the start.
func (s *State) top2(fn *ssa.Function, i int) *Term { return s.vals["arg"] }

func isField(t *Term, f string, base *Term) bool {
	return t.K == KFld && t.S == f && t.A[0] == base || t.K == KFld && t.S == f && t.A[0].K == KDeref && t.A[0].A[0] == base
}

// namesOf: the task map whose names coll lists, and the name of the current
// element.
func (ps *parseSim) namesOf(e *Engine, coll, key *Term) (m, name *Term) {
	if coll.T != nil && isTaskMap(ps.p, coll.T) {
		return coll, key
	}
	if coll.K == KCall && len(coll.A) == 1 && isTaskMap(ps.p, coll.A[0].T) && isStrSlice(coll.T) {
		m = coll.A[0]
	} else if m = keysOfMap(coll); m == nil || !isTaskMap(ps.p, m.T) {
		return nil, nil
	}
	if key == nil {
		return m, nil
	}
	return m, e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
}

// nameContracts verifies the functions that list the names of all tasks, and
// those that list all aliases of a task.
func (ps *parseSim) nameContracts(c *Ctx, name string) {
	p := ps.p
	for _, fn := range p.Funcs {
		if !ps.names[fn] {
			continue
		}
		fn := fn
		at := p.FnName(fn)
		cl := &Client{Name: name, Inline: func(g *ssa.Function) bool { return p.InRepo(g) && !ps.names[g] }}
		e := NewEngine(p, cl)
		var tasks *Term
		end := func(e *Engine, s *State) {
			if s.Get("cur") == "1" {
				e.Report(s, "task name left out by "+at, fn.Pos(), "%s can leave out the name of a task", at)
			}
		}
		cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
			if m, n := ps.namesOf(e, coll, key); m == tasks {
				end(e, s)
				s.Set("cur", "1")
				s.vals["name"] = n
			}
		}
		cl.OnAppend = func(e *Engine, s *State, base *Term, elems []*Term, res *Term, pos tokenPos) {
			for _, x := range elems {
				if x == s.vals["name"] {
					s.Set("cur", "done")
				}
			}
		}
		cl.OnStore = func(e *Engine, s *State, addr, val *Term, pos tokenPos) {
			if addr.K == KIndexAddr && val == s.vals["name"] {
				s.Set("cur", "done")
			}
		}
		cl.OnExh = func(e *Engine, s *State, coll *Term) {
			if m, _ := ps.namesOf(e, coll, nil); m == tasks {
				end(e, s)
				s.Set("cur", "")
				s.Set("all", "1")
			}
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			r := strip(ret[0])
			if m, _ := ps.namesOf(e, r, nil); m == tasks {
				e.Count("names of all tasks")
				return
			}
			if s.Get("all") == "" {
				e.Report(s, "task name left out by "+at, fn.Pos(), "%s can return without going through all tasks", at)
				return
			}
			if r.IsConst() {
				e.Report(s, "task name left out by "+at, fn.Pos(), "%s yields %s instead of the names of all tasks", at, r)
				return
			}
			e.Count("names of all tasks")
		}
		s := e.NewState(fn, nil)
		tasks = s.top().env[fn.Params[0]]
		e.Run(s)
		c.Absorb(e)
	}
	for _, fn := range p.Funcs {
		if !ps.alias[fn] {
			continue
		}
		fn := fn
		at := p.FnName(fn)
		cl := &Client{Name: name, Inline: func(g *ssa.Function) bool { return p.InRepo(g) }, KeepFact: func(e *Engine, a *Term) bool { return true }}
		e := NewEngine(p, cl)
		var task *Term
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			if e.Nilness(s, task) == 1 {
				return
			}
			// parts of the result: single aliases and whole lists
			var one, all bool
			var walk func(t *Term)
			walk = func(t *Term) {
				switch {
				case t.K == KAppend:
					walk(t.A[0])
					if t.S == "1" {
						if isField(strip(t.A[1]), "Alias", task) {
							one = true
						}
					} else {
						walk(t.A[1])
					}
				case isField(t, "Aliases", task):
					all = true
				case t.K == KCall && (t.S == "slices.Concat" || t.S == "slices.Clone"):
					for _, x := range t.A {
						walk(x)
					}
				case t.K == KLoop || t.K == KSub || t.K == KSlice:
					if l, ok := e.flatSeq(s, t); ok {
						for _, x := range l {
							if isField(strip(x), "Alias", task) {
								one = true
							}
						}
						return
					}
					bs, els := e.seqLeaves(t)
					for _, b := range bs {
						if b != t {
							walk(b)
						}
					}
					for _, x := range els {
						if isField(strip(x), "Alias", task) {
							one = true
						}
						if x.K == KElem && isField(x.A[0], "Aliases", task) && s.Get("all") != "" {
							all = true
						}
					}
				}
			}
			walk(ret[0])
			for f, v := range s.facts {
				if f.K == KBin && f.S == "==" && v {
					if isField(f.A[0], "Alias", task) && f.A[1].S == `""` {
						one = true
					}
					if f.A[0].K == KLen && isField(f.A[0].A[0], "Alias", task) && f.A[1].S == "0" {
						one = true
					}
					if f.A[0].K == KLen && isField(f.A[0].A[0], "Aliases", task) && f.A[1].S == "0" {
						all = true
					}
				}
			}
			if !one || !all {
				e.Report(s, "alias left out by "+at, fn.Pos(), "%s can leave out an alias of the task", at)
				return
			}
			e.Count("aliases of a task")
		}
		end := func(e *Engine, s *State) {
			if s.Get("cur") == "1" {
				e.Report(s, "alias left out by "+at, fn.Pos(), "%s can leave out an alias of the task", at)
			}
		}
		cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
			if isField(coll, "Aliases", task) {
				end(e, s)
				s.Set("cur", "1")
				s.vals["a"] = e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
			}
		}
		cl.OnAppend = func(e *Engine, s *State, base *Term, elems []*Term, res *Term, pos tokenPos) {
			for _, x := range elems {
				if x == s.vals["a"] {
					s.Set("cur", "done")
				}
			}
		}
		cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
			if x := s.vals["a"]; v && x != nil && (a.K == KBin && a.S == "==" && a.A[0] == x && a.A[1].S == `""`) {
				s.Set("cur", "done")
			}
		}
		cl.OnExh = func(e *Engine, s *State, coll *Term) {
			if isField(coll, "Aliases", task) {
				end(e, s)
				s.Set("cur", "")
				s.Set("all", "1")
			}
		}
		s := e.NewState(fn, nil)
		task = s.top().env[fn.Params[0]]
		e.Run(s)
		c.Absorb(e)
	}
}

// callsCaptured: a closure that calls a function kept in a captured variable,
// as closures that call themselves or each other do.
func callsCaptured(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
				v := ci.Common().Value
				if u, ok := v.(*ssa.UnOp); ok {
					v = u.X
				}
				if _, ok := v.(*ssa.FreeVar); ok {
					return true
				}
			}
		}
	}
	return false
}
