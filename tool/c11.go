package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C11",
		Technique: "path-sensitive value provenance over SSA: interpolation counted along the path of every text from the Babfile to its use, provenance of the variables each interpolation sees, typestate of prompt answers",
		Explain:   "Every text given to interpolation must be raw Babfile text: never the result of another interpolation, the value of a variable, or an answer of the user. Every use (text and environment of a process, printed log line, message, default, placeholder and options of a prompt, condition) takes its text from exactly one interpolation, unless it is known to be empty. The variables each interpolation sees are the resolved variables of that task over the global ones; an answer is entered under the name of its prompt before the next item, and every map of variables used afterwards contains it.",
		Run:       runC11,
		Floors:    map[string]int{"text interpolated": 9, "text of a process": 2, "log line": 2, "field of a prompt": 5, "answer stored": 1, "variables seen": 9, "environment of a process start": 4, "global variables resolved": 1},
	})
}

var promptTexts = []string{"Message", "Default", "Placeholder", "Options", "Defaults"}

type c11sim struct {
	rs   *runSim
	p    *Prog
	mt   *mapTrack
	prm  []*Term
	root *ssa.Function
}

// resolveCall: t is the map a variable resolution yields.
func resolveCall(t *Term) *Term {
	if t.K == KExt && t.A[0].K == KCall {
		c := t.A[0]
		if strings.HasPrefix(c.S, "internal/interpolate.") && len(c.A) >= 2 && t.T != nil && strMap(t.T) {
			return c
		}
	}
	return nil
}

// mapBase strips stores and loop joins off the contents of a map.
func (e *Engine) mapBase(t *Term) *Term {
	var r *Term
	bad := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		t = strip(t)
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.K == KMPut || t.K == KMDel:
			walk(t.A[0])
			return
		case t.K == KLoop:
			if li := e.Loops[t]; li != nil {
				for x := range li.Entry {
					walk(x)
				}
				for x := range li.Back {
					walk(x)
				}
				return
			}
		}
		if r != nil && r != t {
			bad = true
		}
		r = t
	}
	walk(t)
	if bad {
		return nil
	}
	return r
}

// raw: text as it stands in the Babfile; owner is the model value it is of.
func (cs *c11sim) raw(e *Engine, s *State, t *Term) (owner *Term, ok bool) {
	switch t.K {
	case KConst:
		return nil, true
	case KFld:
		if t.A[0].T != nil {
			n := strings.TrimPrefix(shortType(t.A[0].T), "*")
			if strings.HasPrefix(n, "babfile.") && !t.A[0].contains2(func(x *Term) bool { return x.K == KStruct }) {
				return t.A[0], true
			}
			if cs.p.named(t.A[0].T, "internal/runner", "Runner") && strings.HasPrefix(t.S, "Global") {
				return nil, true
			}
		}
	case KElem:
		if t.A[0].K == KFld {
			return cs.raw(e, s, t.A[0])
		}
	case KMapVal:
		for _, l := range cs.mt.layers(e, s, t.A[0]) {
			if l.interp > 0 || !cs.rawMap(l.t) {
				return nil, false
			}
		}
		return nil, true
	}
	return nil, false
}

func (t *Term) contains2(f func(x *Term) bool) bool { return t.any(f) }

// rawMap: an env map of the Babfile.
func (cs *c11sim) rawMap(t *Term) bool {
	return t.IsNil() || t.K == KFld && (t.S == "Env" || t.S == "GlobalEnv") || t.K == KSym || t.K == KElem && t.A[0].K == KSym
}

// ctxVars: the variables map of an interpolation context.
func (cs *c11sim) ctxVars(e *Engine, s *State, ctx *Term) *Term {
	ctx = strip(ctx)
	if ctx.K == KCall && strings.HasPrefix(ctx.S, "internal/interpolate.") && len(ctx.A) > 0 && ctx.A[0].T != nil && strMap(ctx.A[0].T) {
		return ctx.A[0]
	}
	if st := structOf(ctx.T); st != nil && ctx.K == KAlloc {
		if i := fieldIdx(ctx.T, "Vars"); i >= 0 {
			return e.load(s, e.fieldAddr(ctx, st, i), st.Field(i).Type())
		}
	}
	return nil
}

// scope checks the variables an interpolation of text sees.
func (cs *c11sim) scope(e *Engine, s *State, ev *CallEvent, owner, ctx *Term, where string) {
	p := cs.p
	vars := cs.ctxVars(e, s, ctx)
	if vars == nil {
		e.Report(s, "no variables in "+where, ev.Pos, "a text is interpolated over %s, not over the variables of its task", ctx)
		return
	}
	ls := cs.mt.layers(e, s, vars)
	for _, l := range ls {
		b := e.mapBase(l.t)
		if b == nil || resolveCall(b) == nil || len(ls) != 1 {
			e.Report(s, "foreign variables in "+where, ev.Pos, "a text is interpolated over %s, not over the resolved variables of its task", vars)
			return
		}
		c := resolveCall(b)
		var task *Term
		if c.A[0].K == KFld && c.A[0].S == "Vars" && p.named(c.A[0].A[0].T, "internal/babfile", "Task") {
			task = c.A[0].A[0]
		}
		var own *Term
		switch {
		case owner == nil:
		case p.named(owner.T, "internal/babfile", "Task"):
			own = owner
		default:
			own = cs.rs.taskOfItem(e, owner)
		}
		switch {
		case task == nil || own != nil && own != task:
			e.Report(s, "variables of another task in "+where, ev.Pos, "a text is interpolated over the variables %s, which are not those of its task", c)
			return
		case !(c.A[1].K == KFld && c.A[1].S == "GlobalVars"):
			e.Report(s, "global variables lost in "+where, ev.Pos, "the variables of a task are resolved over %s instead of the global variables", c.A[1])
			return
		}
	}
	if len(ls) == 0 && !cs.zero(e, s) {
		e.Report(s, "no variables in "+where, ev.Pos, "a text is interpolated over no variables")
		return
	}
	if s.Get("stale:"+itoa(strip(vars).id)) != "" {
		e.Report(s, "answers lost in "+where, ev.Pos, "a text is interpolated over a copy of the variables made before a prompt was answered")
		return
	}
	e.Count("variables seen")
}

// zero: the variables of the task were gone through and there were none.
func (cs *c11sim) zero(e *Engine, s *State) bool {
	for k, v := range s.auto {
		if strings.HasPrefix(k, "zero:") && v != "" {
			t := e.T.all[atoi(k[5:])]
			if b := e.mapBase(t); b != nil && resolveCall(b) != nil {
				return true
			}
			// a copy of them
			ls := cs.mt.layers(e, s, t)
			n := 0
			for _, l := range ls {
				if b := e.mapBase(l.t); b != nil && resolveCall(b) != nil {
					n++
				}
			}
			if n > 0 && n == len(ls) {
				return true
			}
		}
	}
	return false
}

func runC11(c *Ctx) {
	for _, goos := range c.goosList() {
		p := c.Prog(goos)
		c.GOOSList = append(c.GOOSList, goos)
		rs := newRunSim(c, p)
		rs.c = c
		for _, dry := range []bool{false, true} {
			mt := newMapTrack(p)
			var cur *c11sim
			rs.explore(func(root *ssa.Function) (*Engine, *Client) {
				cl := &Client{Name: "C11", CollapseErr: true, KeepFact: keepDry,
					Abstract: irrelevantRunner("*bool", "io.Writer", "*tea.Program", "*runner.ParallelContext", "map[string]runner.status", "[]error"),
					Inline:   rs.cmdInline(func(fn *ssa.Function) bool { return mt.kind[fn] != "" }, returns("[]string", "map[string]string", "babfile.PromptRun"), takesVars)}
				e := NewEngine(p, cl)
				cs := &c11sim{rs: rs, p: p, mt: mt, root: root}
				cur = cs
				mt.odd = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) { cs.put(e, s, m, k, v, pos) }
				mt.dropped = func(e *Engine, s *State, src *Term, pos tokenPos) {
					e.Report(s, "variables lost", pos, "a copy of the variables can leave some of them out (%s)", src)
				}
				cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
					if handlePlatform(e, ev) {
						return
					}
					cs.call(e, s, ev)
					if mt.onCall(e, s, ev) || ev.Handled {
						return
					}
					if rs.fallible(ev) {
						e.splitErr(s, ev, nil, nil)
					}
				}
				cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
					if isItemSlice(p, coll.T) {
						cs.settle(e, s, 0)
						cs.clear(s)
					}
					mt.onIter(e, s, coll, key, 0)
				}
				cl.OnExh = func(e *Engine, s *State, coll *Term) {
					if isItemSlice(p, coll.T) {
						cs.settle(e, s, 0)
						cs.clear(s)
					}
					mt.onExh(e, s, coll, 0)
				}
				cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) { mt.onPut(e, s, m, k, v, pos) }
				cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
					if a.K != KBin || a.S != "==" {
						return
					}
					x := a.A[0]
					switch {
					case a.A[1].S == `""`:
					case x.K == KLen && a.A[1].S == "0":
						x = x.A[0]
					case a.A[1].IsNil():
					default:
						return
					}
					if f := cs.promptField(x); f != "" {
						s.Set("pf:"+f, map[bool]string{true: "empty", false: "set"}[v])
					}
				}
				return e, cl
			}, func(e *Engine, s *State, root *ssa.Function) {
				for _, prm := range root.Params {
					cur.prm = append(cur.prm, s.frames[0].env[prm])
				}
				assumeDry(dry)(e, s, root)
			})
		}
		c11Globals(c, rs)
		envExplore(c, rs, "C11", func(e *Engine, s *State, ev *CallEvent, mt *mapTrack, cr, task *Term, where string) {
			env := e.cmdField(s, ev.Args[0], "Env")
			if env == nil || env.IsNil() {
				e.Count("environment of a process start")
				return
			}
			for _, seq := range mt.envSeq(e, s, env, nil, 0) {
				for _, en := range seq {
					if en.kind == "map" && en.n != 1 {
						e.Report(s, "environment interpolated wrongly in "+where, ev.Pos, "the values of %s are interpolated %d times on their way to the environment of a command", en.t, en.n)
						return
					}
				}
			}
			e.Count("environment of a process start")
		})
		mt := newMapTrack(p)
		mt.helperContracts(c, "C11")
	}
}

// takesVars: fn is given a map of variables.
func takesVars(fn *ssa.Function) bool {
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if strMap(fn.Signature.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

// promptField: t is a text of a prompt item as it stands in the Babfile.
func (cs *c11sim) promptField(t *Term) string {
	if t.K != KFld || t.A[0].T == nil || !cs.p.named(t.A[0].T, "internal/babfile", "PromptRun") {
		return ""
	}
	for _, f := range promptTexts {
		if t.S == f {
			return f
		}
	}
	return ""
}

func (cs *c11sim) clear(s *State) {
	for _, f := range promptTexts {
		s.Set("pf:"+f, "")
	}
}

// settle: an answer must have been stored before the next item.
func (cs *c11sim) settle(e *Engine, s *State, pos tokenPos) {
	if s.Get("ans") == "1" {
		e.Report(s, "answer not stored", pos, "the answer to a prompt is not entered into the variables before the next item")
	}
	s.Set("ans", "")
	delete(s.vals, "ansv")
	delete(s.vals, "ansitem")
}

// put judges a store into a map that copies no entry of another.
func (cs *c11sim) put(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
	var base *Term
	ls := cs.mt.layers(e, s, m)
	for _, l := range ls {
		if b := e.mapBase(l.t); b != nil && resolveCall(b) != nil {
			base = b
		}
	}
	if base == nil {
		return
	}
	isPrompt := k.K == KFld && k.S == "Prompt" && k.A[0].T != nil && cs.p.named(k.A[0].T, "internal/babfile", "PromptRun")
	if !isPrompt {
		e.Report(s, "variable overwritten", pos, "the variable %s of a task is set while its items run, though it is not the name of a prompt", k)
		return
	}
	dry, known := false, false
	if e.Recv != nil {
		dry, known = e.Decide(s, fieldTerm(e, e.Recv, "DryRun"))
	}
	if !(known && dry) {
		if v == nil || s.vals["ansv"] != v {
			e.Report(s, "answer altered", pos, "the variable of a prompt is set to %s, which is not the answer", termOr(v, "nothing"))
			return
		}
		if s.vals["ansitem"] != k.A[0] {
			e.Report(s, "answer under another name", pos, "an answer is entered under %s", k)
			return
		}
	}
	if len(ls) != 1 || strip(m).K == KAlloc {
		e.Report(s, "answer entered into a copy", pos, "an answer is entered into a copy of the variables, which later items do not see")
		return
	}
	if s.Get("ans") == "1" {
		e.Count("answer stored")
	}
	s.Set("ans", "")
	// copies made before are out of date
	for key := range s.auto {
		if strings.HasPrefix(key, "ly:") {
			n := atoi(key[3:])
			for _, l := range cs.mt.layers(e, s, e.T.all[n]) {
				if e.mapBase(l.t) == base && e.T.all[n] != strip(m) {
					s.Set("stale:"+itoa(n), "1")
				}
			}
		}
	}
}

func (cs *c11sim) call(e *Engine, s *State, ev *CallEvent) {
	p, rs := cs.p, cs.rs
	where := p.FnName(ev.Instr.Parent())
	switch {
	case ev.Name == interpFn || ev.Name == condFn:
		for _, t := range e.leaves(ev.Args[0]) {
			owner, ok := cs.raw(e, s, t)
			if !ok {
				e.Report(s, "text is not raw in "+where, ev.Pos, "interpolation is applied to %s, which is not text as it stands in the Babfile", t)
				continue
			}
			e.Count("text interpolated")
			if t.K != KConst {
				cs.scope(e, s, ev, owner, ev.Args[1], where)
			}
		}
	case cs.mt.kind[ev.Fn] == "interp":
		for _, a := range ev.Args {
			if cs.p.named(a.T, "internal/interpolate", "Context") {
				cs.scope(e, s, ev, nil, a, where)
			}
			if a.T != nil && strMap(a.T) {
				for _, l := range cs.mt.layers(e, s, a) {
					if l.interp > 0 || !cs.rawMap(l.t) {
						e.Report(s, "values are not raw in "+where, ev.Pos, "interpolation is applied to the values of %s, which are not as they stand in the Babfile", l.t)
					}
				}
			}
		}
	case effectKind(ev.Name) == "exec" && len(ev.Args) > 0:
		item := rs.cmdItem(e, s, ev.Args[0])
		ok := false
		for _, a := range ev.Args[0].A {
			x := a
			if l, isSeq := e.flatSeq(s, a); isSeq && len(l) > 0 {
				x = l[len(l)-1]
			}
			if t := e.template(x); item != nil && t != nil && t.K == KFld && t.S == "Cmd" && t.A[0] == item {
				ok = true
			}
		}
		if !ok {
			e.Report(s, "text of a process not interpolated in "+where, ev.Pos, "a process is started with %s, not with the interpolated text of a command", ev.Args[0])
		} else {
			e.Count("text of a process")
		}
	case printer(ev.Name):
		for _, a := range e.flat(s, ev.Args) {
			for _, l := range e.leaves(a) {
				raw, n := cs.bare(l)
				if raw != nil {
					e.Report(s, "log line not interpolated in "+where, ev.Pos, "%s is shown without interpolation", raw)
				} else if n {
					e.Count("log line")
				}
			}
		}
	case rs.uiCall(ev):
		for _, a := range ev.Args {
			if a.T != nil && p.named(a.T, "internal/babfile", "PromptRun") {
				cs.prompt(e, s, ev, a, where)
				return
			}
		}
	}
}

// bare looks for the text of a log item outside an interpolation.
func (cs *c11sim) bare(t *Term) (raw *Term, found bool) {
	if t.K == KFld && t.S == "Log" && t.A[0].T != nil && cs.p.named(t.A[0].T, "internal/babfile", "LogRun") {
		return t, false
	}
	if x := interpArg(t); x != nil {
		return nil, x.K == KFld && x.S == "Log"
	}
	for _, a := range t.A {
		r, f := cs.bare(a)
		if r != nil {
			return r, false
		}
		found = found || f
	}
	return nil, found
}

// prompt checks what a prompt is asked with and follows its answer.
func (cs *c11sim) prompt(e *Engine, s *State, ev *CallEvent, a *Term, where string) {
	name := fieldTerm(e, a, "Prompt")
	var item *Term
	if name.K == KFld && name.S == "Prompt" {
		item = name.A[0]
	}
	if item == nil {
		e.Report(s, "prompt of no item in "+where, ev.Pos, "a prompt is opened whose variable is %s", name)
		return
	}
	for _, f := range promptTexts {
		rawF := fieldTerm(e, item, f)
		good := func(t *Term) bool {
			if x := e.template(t); x != nil {
				return x == rawF || x.K == KElem && x.A[0] == rawF
			}
			return false
		}
		v := fieldTerm(e, a, f)
		empty := s.Get("pf:"+f) == "empty"
		bad := ""
		for _, l := range e.leaves(v) {
			switch {
			case good(l), l.IsNil(), l.K == KConst && l.S == `""`, empty && l == rawF:
			case l == rawF:
				bad = "as it stands in the Babfile"
			case isStringT(l.T):
				bad = "as " + l.String()
			default:
				bases, els := e.seqLeaves(l)
				for _, b := range bases {
					if b == rawF && !empty {
						bad = "as it stands in the Babfile"
					} else if b != rawF {
						bad = "as " + b.String()
					}
				}
				for _, x := range els {
					if !good(x) {
						bad = "with " + x.String()
					}
				}
				l.any(func(al *Term) bool {
					if al.K == KAlloc {
						for k, m := range s.mem {
							if k.K == KIndexAddr && k.A[0] == al {
								for _, x := range e.leaves(m) {
									if !good(x) && x.K != KConst && !(x.K == KElem && x.A[0].any(func(y *Term) bool { return y == al })) && !(x.K == KDeref) {
										bad = "with " + x.String()
									}
								}
							}
						}
					}
					return false
				})
			}
		}
		if bad != "" {
			e.Report(s, "text of a prompt ("+f+") in "+where, ev.Pos, "a prompt is opened with its %s %s instead of interpolated", strings.ToLower(f), bad)
		} else {
			e.Count("field of a prompt")
		}
	}
	// a message given on its own
	for _, x := range ev.Args {
		if x.T != nil && isStringT(x.T) && x.K != KConst {
			if t := e.template(x); t == nil || t != fieldTerm(e, item, "Message") {
				e.Report(s, "text of a prompt (message argument) in "+where, ev.Pos, "a prompt is opened with the message %s", x)
			}
		}
	}
	sig := ev.Fn.Signature
	call := e.CallTerm(s, ev, sig)
	e.splitErr(s, ev, func(s *State) {
		s.Set("ans", "1")
		s.vals["ansv"] = e.ext(call, 0, sig.Results().At(0).Type())
		s.vals["ansitem"] = item
		cs.clear(s)
	}, func(s *State) { cs.clear(s) })
}

// c11Globals: the runner's variables are the resolved global ones.
func c11Globals(c *Ctx, rs *runSim) {
	p := rs.p
	cl := &Client{Name: "C11", CollapseErr: true, Inline: func(fn *ssa.Function) bool {
		return p.Rel(fn) == "internal/runner" && fn != rs.m.Entry && !rs.reach[fn] || fn == rs.m.Run
	}}
	e := NewEngine(p, cl)
	heads := map[*ssa.Function]bool{rs.m.Entry: true}
	for _, h := range rs.m.Heads {
		heads[h] = true
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Fn == nil || !heads[ev.Fn] {
			return
		}
		v := fieldOf(s, e.Recv, "GlobalVars")
		ok := false
		if v != nil {
			if rc := resolveCall(strip(v)); rc != nil {
				ok = rc.A[0].K == KFld && rc.A[0].S == "GlobalVars" && (rc.A[1].IsNil() || rc.A[1].K == KAlloc)
			}
		}
		if !ok {
			e.Report(s, "global variables not resolved", ev.Pos, "the tasks are run with %s as global variables, which are not the resolved ones of the Babfile", termOr(v, "nothing"))
		} else {
			e.Count("global variables resolved")
		}
	}
	s0 := e.NewState(rs.m.Run, nil)
	e.Recv = s0.top().env[rs.m.Run.Params[0]]
	e.Run(s0)
	c.Absorb(e)
}

func fieldOf(s *State, base *Term, f string) *Term {
	for k, x := range s.mem {
		if k.K == KFieldAddr && k.S == f && k.A[0] == base {
			return x
		}
	}
	return nil
}
