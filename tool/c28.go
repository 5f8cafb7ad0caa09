package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C28",
		Technique: "call-graph effect analysis (which functions can reach a process, prompt, screen, network or file write) combined with path-sensitive simulation of the command handler over SSA: an effect is allowed only where the flags asking for information are known to be unset",
		Explain:   "Flags are matched to the variables they are bound to. On every path of the command handler a call that can reach an effect needs list, validate and completion known to be unset; the runner must be made with the dry-run and Babfile settings; it must be asked for the name given, or, when none was given, for the task picked, once; a path that succeeds has loaded the Babfile for list and validate, printed the script of the shell asked for, or run the task. Completion of names reaches no effect and offers every task and alias that starts with the text typed.",
		Run:       func(c *Ctx) { runCLI(c, true, false) },
		Floors:    map[string]int{"flag bound": 5, "effect allowed": 2, "named task run": 1, "picked task run": 1, "Babfile loaded": 2, "completion script": 4, "completion without effect": 1, "candidate offered": 2},
	})
	register(&Check{
		ID:        "C29",
		Technique: "path-sensitive error-flow simulation over SSA from every call that can fail, through the command handler and the runner, to the exit status",
		Explain:   "On every path of the command handler, of the functions that load the Babfile, and of the functions between them, a call of this repository that fails leads to an error that is returned; the handler's error is what the command returns; and the exit status of the process is 0 only on paths where the command succeeded or its error is a cancellation, and non-zero only where it failed. The message of an error is logged before a failing exit, and each error of a validation is.",
		Run:       func(c *Ctx) { runCLI(c, false, true); c29Exit(c) },
		Floors:    map[string]int{"failure reported": 6, "success": 4, "exit status": 3, "message shown": 2, "error handed up": 3},
	})
}

// cliFlags maps each flag name to the struct field it is bound to.
func cliFlags(p *Prog) map[string]string {
	r := map[string]string{}
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "cmd" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(p.CalleeName(ci.Common()), "(*github.com/spf13/pflag.FlagSet).") {
					continue
				}
				a := ci.Common().Args
				if len(a) < 3 {
					continue
				}
				fa, ok := a[1].(*ssa.FieldAddr)
				k, ok2 := a[2].(*ssa.Const)
				if !ok || !ok2 || k.Value == nil {
					continue
				}
				r[strings.Trim(k.Value.ExactString(), `"`)] = structOf(fa.X.Type()).Field(fa.Field).Name()
			}
		}
	}
	return r
}

// cobraFuncs are the functions stored in a field of a command.
func cobraFuncs(p *Prog, field string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "cmd" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || ptrElem(fa.X.Type()) == nil || ptrElem(fa.X.Type()).String() != "github.com/spf13/cobra.Command" || structOf(fa.X.Type()).Field(fa.Field).Name() != field {
					continue
				}
				v := st.Val
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				switch x := v.(type) {
				case *ssa.MakeClosure:
					out = append(out, x.Fn.(*ssa.Function))
				case *ssa.Function:
					out = append(out, x)
				}
			}
		}
	}
	return out
}

// effectful: functions that can reach an effect on the world.
func effectful(p *Prog) map[*ssa.Function]bool {
	return p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		return ok && effectKind(p.CalleeName(ci.Common())) != ""
	})
}

func returnsParse(p *Prog, fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return rs.Len() == 2 && p.named(rs.At(0).Type(), "internal/parser", "ParseResult") && isErrT(rs.At(1).Type())
}

func returnsRunner(p *Prog, fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return rs.Len() == 1 && p.named(rs.At(0).Type(), "internal/runner", "Runner")
}

func runCLI(c *Ctx, what, errs bool) {
	goos := c.goosList()[0]
	p := c.Prog(goos)
	c.GOOSList = append(c.GOOSList, goos)
	flags := cliFlags(p)
	reach := effectful(p)
	if what {
		for _, f := range []string{"list", "validate", "completion", "dry-run", "babfile"} {
			if flags[f] != "" {
				c.Ok("flag bound")
			}
		}
	}
	roots := append(cobraFuncs(p, "RunE"), cobraFuncs(p, "Run")...)
	for _, fn := range roots {
		cliHandler(c, p, fn, flags, reach, what, errs)
	}
	if what {
		for _, fn := range cobraFuncs(p, "ValidArgsFunction") {
			if reach[fn] {
				c.Violate("completion has effects", p.Pos(fn.Pos()), "completing names can reach an effect (a command, prompt, network access or file write) through %s", p.FnName(fn))
			} else {
				c.Ok("completion without effect")
			}
			cliComplete(c, p, fn, reach)
		}
		return
	}
	// the functions between the handler and the parser
	for _, fn := range p.Funcs {
		if !returnsParse(p, fn) || p.Rel(fn) == "internal/parser" {
			continue
		}
		c29Prop(c, p, fn)
	}
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/runner" || fn.Parent() != nil || fn.Synthetic != "" || fn.Signature.Recv() == nil || !p.named(fn.Signature.Recv().Type(), "internal/runner", "Runner") {
			continue
		}
		for _, t := range prms(fn) {
			if t.String() == "context.Context" && fn.Signature.Results().Len() == 1 && isErrT(fn.Signature.Results().At(0).Type()) && fn.Object().Exported() {
				c29Prop(c, p, fn)
			}
		}
	}
}

// c29Prop: fn returns an error whenever a call of it that can fail did.
func c29Prop(c *Ctx, p *Prog, fn *ssa.Function) {
	at := p.FnName(fn)
	m := runModel(c, p)
	cl := &Client{Name: "C29", CollapseErr: true}
	cl.Inline = func(g *ssa.Function) bool {
		return p.Rel(g) == p.Rel(fn) && g != fn && g != m.Entry && !p.OnCycle(g)
	}
	e := NewEngine(p, cl)
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Fn != nil && !ev.Inline && p.InRepo(ev.Fn) && ev.Kind == 'n' {
			e.splitErr(s, ev, nil, func(s *State) { s.Set("failed", p.FnName(ev.Fn)) })
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		bad := e.Nilness(s, ret[len(ret)-1])
		switch {
		case s.Get("failed") != "" && bad != -1:
			e.Report(s, "error lost in "+at, fn.Pos(), "%s can report success although %s failed", at, s.Get("failed"))
		case s.Get("failed") != "":
			e.Count("error handed up")
		}
	}
	e.Run(e.NewState(fn, nil))
	c.Absorb(e)
}

func cliHandler(c *Ctx, p *Prog, fn *ssa.Function, flags map[string]string, reach map[*ssa.Function]bool, what, errs bool) {
	name := "C29"
	if what {
		name = "C28"
	}
	cl := &Client{Name: name, CollapseErr: true}
	cl.Inline = func(g *ssa.Function) bool {
		switch p.Rel(g) {
		case "cmd":
			return true
		case "internal/runner":
			return !reach[g] && !returnsParse(p, g) && returnsRunner(p, g)
		}
		return false
	}
	e := NewEngine(p, cl)
	isFlag := func(t *Term, f string) bool {
		t = strip(t)
		if t.K == KFld && t.S == flags[f] && flags[f] != "" && p.Rel2(t.A[0].T) == "cmd" {
			return true
		}
		if t.K == KExt && t.A[0].K == KCall && strings.HasPrefix(t.A[0].S, "(*github.com/spf13/pflag.FlagSet).Get") {
			for _, a := range t.A[0].A {
				if k, ok := a.StrVal(); ok && k == f {
					return true
				}
			}
		}
		return false
	}
	// flagIs: 1 set, -1 unset, 0 unknown
	flagIs := func(s *State, f string) int {
		for a, v := range s.facts {
			if isFlag(a, f) {
				if v {
					return 1
				}
				return -1
			}
			if a.K == KBin && a.S == "==" && isFlag(a.A[0], f) {
				k, ok := a.A[1].StrVal()
				if ok && k == "" {
					if v {
						return -1
					}
					return 1
				}
				if ok && v {
					return 1
				}
			}
		}
		return 0
	}
	cl.KeepFact = func(e *Engine, a *Term) bool {
		for f := range flags {
			if isFlag(a, f) || a.K == KBin && isFlag(a.A[0], f) {
				return true
			}
		}
		return a.K == KBin && a.any(func(x *Term) bool { return x.K == KLen })
	}
	var args *Term
	given := func(s *State) int { // is there a name on the command line?
		if args == nil {
			return 0
		}
		if v, ok := e.Decide(s, e.T.Bin(token.EQL, e.T.Len(args), e.T.Int(0), types.Typ[types.Bool])); ok {
			if v {
				return -1
			}
			return 1
		}
		if v, ok := e.Decide(s, e.T.Bin(token.GTR, e.T.Len(args), e.T.Int(0), types.Typ[types.Bool])); ok {
			if v {
				return 1
			}
			return -1
		}
		return 0
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Inline {
			return
		}
		if i := strings.Index(ev.Name, "cobra.Command).Gen"); i >= 0 {
			sh := strings.ToLower(strings.SplitN(ev.Name[i+len("cobra.Command).Gen"):], "Completion", 2)[0])
			if sh == "powershell" || sh == "bash" || sh == "zsh" || sh == "fish" {
				ok := false
				for a, v := range s.facts {
					if v && a.K == KBin && a.S == "==" && isFlag(a.A[0], "completion") {
						k, _ := a.A[1].StrVal()
						ok = k == sh
					}
				}
				if what {
					if !ok {
						e.Report(s, "completion script of another shell", ev.Pos, "the script for %s can be printed when it was not asked for", sh)
					} else {
						e.Count("completion script")
					}
				}
				s.Set("done", "completion")
			}
			e.splitErr(s, ev, nil, func(s *State) { s.Set("failed", ev.Name) })
			return
		}
		eff := effectKind(ev.Name) != "" || ev.Fn != nil && reach[ev.Fn]
		if eff && what {
			for _, f := range []string{"list", "validate", "completion"} {
				if flagIs(s, f) != -1 {
					e.Report(s, "effect with --"+f, ev.Pos, "%s, which can start a command, open a prompt or screen, or write, is reached although --%s may be given", ev.Name, f)
				}
			}
			e.Count("effect allowed")
		}
		if ev.Fn == nil || !p.InRepo(ev.Fn) {
			return
		}
		if returnsParse(p, ev.Fn) {
			if what {
				if len(ev.Args) != 1 || !isFlag(ev.Args[0], "babfile") {
					e.Report(s, "another Babfile", ev.Pos, "a Babfile is loaded from %s, not as asked", termList(ev.Args))
				}
			}
			if s.Get("done") == "" {
				s.Set("done", "loaded")
			}
		}
		rs := ev.Fn.Signature.Results()
		if rs.Len() == 2 && p.named(rs.At(0).Type(), "internal/babfile", "Task") {
			if what && given(s) != -1 {
				e.Report(s, "picker although a name was given", ev.Pos, "a task can be picked although the command line may name one")
			}
			s.Set("done", "picked")
			s.vals["sel"] = e.ext(e.CallTerm(s, ev, ev.Fn.Signature), 0, rs.At(0).Type())
		}
		if len(ev.Args) > 0 && p.named(ev.Args[0].T, "internal/runner", "Runner") && reach[ev.Fn] {
			r := ev.Args[0]
			var nm *Term
			for _, a := range ev.Args[1:] {
				if isStringT(a.T) {
					nm = a
				}
			}
			if s.Get("done") == "run" && what {
				e.Report(s, "run twice", ev.Pos, "a task can be run twice")
			}
			s.Set("done", "run")
			if what && nm != nil {
				st := structOf(r.T)
				for f, k := range map[string]string{"DryRun": "dry-run", "Babfile": "babfile"} {
					if i := fieldIdx(r.T, f); i >= 0 {
						v := e.load(s, e.fieldAddr(r, st, i), st.Field(i).Type())
						if !isFlag(v, k) {
							if b, ok := v.BoolVal(); ok && b == (flagIs(s, k) == 1) && flagIs(s, k) != 0 {
								continue
							}
							e.Report(s, "run without --"+k, ev.Pos, "the task runs with %s = %s, not as --%s says", f, v, k)
						}
					}
				}
				switch {
				case given(s) == 1:
					if nm.K == KElem && nm.A[0] == args && nm.A[1].S == "0" {
						e.Count("named task run")
					} else {
						e.Report(s, "another task than named", ev.Pos, "the task run is %s, not the one named", nm)
					}
				case given(s) == -1:
					if nm.K == KFld && nm.S == "Name" && s.vals["sel"] != nil && baseOf(nm.A[0]) == s.vals["sel"] {
						e.Count("picked task run")
					} else {
						e.Report(s, "another task than picked", ev.Pos, "the task run is %s, not the one picked", nm)
					}
				default:
					e.Report(s, "name unknown", ev.Pos, "a task is run without looking whether one was named")
				}
			}
		}
		if ev.Kind == 'n' {
			e.splitErr(s, ev, nil, func(s *State) { s.Set("failed", p.FnName(ev.Fn)) })
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		bad := 1
		if len(ret) > 0 {
			bad = e.Nilness(s, ret[len(ret)-1])
		}
		if errs {
			switch {
			case s.Get("failed") != "" && bad != -1:
				e.Report(s, "error lost", fn.Pos(), "the command can report success although %s failed", s.Get("failed"))
			case s.Get("failed") != "":
				e.Count("failure reported")
			case bad == 1:
				e.Count("success")
			}
		}
		if !what || bad == -1 {
			return
		}
		lf, vf, cf := flagIs(s, "list"), flagIs(s, "validate"), flagIs(s, "completion")
		d := s.Get("done")
		switch {
		case cf == 1:
			if d != "completion" {
				e.Report(s, "no completion script", fn.Pos(), "--completion can succeed without having printed a script")
			}
		case cf == 0 && d == "":
			e.Report(s, "nothing done", fn.Pos(), "the command can succeed without having done anything")
		case vf == 1 || lf == 1 && cf == -1:
			if lf == 1 && vf != 1 && s.Get("listed") == "" {
				e.Report(s, "tasks not listed", fn.Pos(), "--list can succeed without having gone through the tasks")
			}
			if d != "loaded" {
				e.Report(s, "Babfile not loaded", fn.Pos(), "--validate or --list can succeed without having loaded the Babfile")
			} else {
				e.Count("Babfile loaded")
			}
		case d == "picked":
			if x := s.vals["sel"]; x == nil || e.Nilness(s, x) != 1 {
				e.Report(s, "picked task not run", fn.Pos(), "the command can succeed without running the task picked")
			}
		case d != "run":
			e.Report(s, "task not run", fn.Pos(), "the command can succeed without running the task named")
		}
	}
	tasksOf := func(x *Term) bool {
		return x.K == KFld && x.S == "Tasks" && p.named(x.A[0].T, "internal/parser", "ParseResult")
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		if coll.any(tasksOf) {
			s.Set("listed", "1")
		}
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
		if v && a.K == KBin && a.S == "==" && a.A[0].K == KLen && a.A[0].any(tasksOf) && a.A[1].S == "0" {
			s.Set("listed", "1")
		}
	}
	s := e.NewState(fn, nil)
	for _, q := range fn.Params {
		if isStrSlice(q.Type()) {
			args = s.top().env[q]
		}
	}
	e.Run(s)
	c.Absorb(e)
}

// cliComplete: every task and alias that starts with the typed text is offered.
func cliComplete(c *Ctx, p *Prog, fn *ssa.Function, reach map[*ssa.Function]bool) {
	cl := &Client{Name: "C28", CollapseErr: true, Inline: inPkg(p, "cmd")}
	e := NewEngine(p, cl)
	var typed *Term
	src := func(m *Term) string {
		m = strip(m)
		if m.K == KFld && (m.S == "Tasks" || m.S == "Aliases") && p.named(m.A[0].T, "internal/parser", "ParseResult") {
			return m.S
		}
		return ""
	}
	end := func(e *Engine, s *State) {
		if s.Get("cand") == "todo" {
			e.Report(s, "candidate left out", fn.Pos(), "a task or alias that starts with the typed text can be left out of the completions")
		}
		s.Set("cand", "")
	}
	keyOf := func(coll, key *Term) (string, *Term) {
		if isMapT(coll.T) && src(coll) != "" {
			return src(coll), key
		}
		if m := keysOfMap(coll); m != nil && src(m) != "" {
			if key == nil {
				return src(m), nil
			}
			return src(m), e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
		}
		return "", nil
	}
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
		if k, n := keyOf(coll, key); k != "" {
			end(e, s)
			s.Set("cand", "todo")
			s.vals["n"] = n
			if elem != nil && k == "Tasks" {
				s.vals["t"] = elem
			} else {
				delete(s.vals, "t")
			}
		}
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		if k, _ := keyOf(coll, nil); k != "" {
			end(e, s)
			s.Set("all"+k, "1")
		}
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
		n := s.vals["n"]
		if n == nil || s.Get("cand") != "todo" {
			return
		}
		switch {
		case a.K == KCall && a.S == "strings.HasPrefix" && a.A[0] == n && a.A[1] == typed && !v:
			s.Set("cand", "skip")
		case a.K == KBin && a.S == "==" && a.A[1].IsNil() && v && (a.A[0] == s.vals["t"] || a.A[0].K == KMapVal && src(a.A[0].A[0]) == "Tasks" && a.A[0].A[1] == n):
			s.Set("cand", "skip")
		}
	}
	cl.OnAppend = func(e *Engine, s *State, base *Term, elems []*Term, res *Term, pos tokenPos) {
		n := s.vals["n"]
		if n == nil || s.Get("cand") == "" {
			return
		}
		for _, x := range elems {
			l := e.concat(s, x)
			if l[0] != n {
				continue
			}
			if len(l) > 1 {
				k, ok := l[1].StrVal()
				if !ok || !strings.HasPrefix(k, "\t") {
					e.Report(s, "candidate changed", pos, "a completion is %s, not the name followed by a description", x)
				}
			}
			s.Set("cand", "done")
			e.Count("candidate offered")
		}
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Fn != nil && !ev.Inline && returnsParse(p, ev.Fn) {
			e.splitErr(s, ev, func(s *State) { s.Set("loaded", "1") }, nil)
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if s.Get("loaded") != "" && (s.Get("allTasks") == "" || s.Get("allAliases") == "") {
			e.Report(s, "candidates left out", fn.Pos(), "completing can end without having looked at all tasks and aliases")
		}
		if s.Get("loaded") != "" && ret[0].IsNil() {
			e.Report(s, "candidates dropped", fn.Pos(), "the completions collected are not returned")
		}
	}
	s := e.NewState(fn, nil)
	for _, q := range fn.Params {
		if isStringT(q.Type()) {
			typed = s.top().env[q]
		}
	}
	e.Run(s)
	c.Absorb(e)
}

func baseOf(t *Term) *Term {
	for t.K == KDeref {
		t = t.A[0]
	}
	return t
}

func termList(l []*Term) string {
	var b []string
	for _, t := range l {
		b = append(b, t.String())
	}
	return strings.Join(b, ", ")
}

// Rel2: the package of a named type or of what it points to.
func (p *Prog) Rel2(t types.Type) string {
	if t == nil {
		return ""
	}
	for {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), p.Mod), "/")
}

// c29Exit: from the command's error to the exit status.
func c29Exit(c *Ctx) {
	goos := c.goosList()[0]
	p := c.Prog(goos)
	var mainFn *ssa.Function
	for _, fn := range p.Funcs {
		if p.Rel(fn) == "" && fn.Name() == "main" && fn.Parent() == nil {
			mainFn = fn
		}
	}
	if mainFn == nil {
		c.Violate("floor:main", "?", "the main function is not found")
		return
	}
	exec := p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		return ok && strings.HasPrefix(p.CalleeName(ci.Common()), "(*github.com/spf13/cobra.Command).Execute")
	})
	cl := &Client{Name: "C29"}
	cl.Inline = func(g *ssa.Function) bool {
		return p.Rel(g) == "" || exec[g] || returns("bool")(g) && p.Rel(g) == "cmd" || p.Rel(g) == "internal/errs" && false
	}
	e := NewEngine(p, cl)
	cerr := e.T.mk(KHavoc, "command error", "", types.Universe.Lookup("error").Type(), false, nil)
	canceled := func(s *State) int {
		for a, v := range s.facts {
			if a.K == KCall && a.S == "errors.Is" && a.A[0].any(func(x *Term) bool { return x == cerr }) && strings.Contains(a.A[1].String(), "Canceled") {
				if v {
					return 1
				}
				return -1
			}
		}
		return 0
	}
	cl.KeepFact = func(e *Engine, a *Term) bool { return a.any(func(x *Term) bool { return x == cerr }) }
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		switch {
		case strings.HasPrefix(ev.Name, "(*github.com/spf13/cobra.Command).Execute") && ev.Kind == 'n':
			ev.Handled = true
			if ev.Name != "(*github.com/spf13/cobra.Command).Execute" && ev.Name != "(*github.com/spf13/cobra.Command).ExecuteContext" {
				ev.Handled = false
				return
			}
			ev.Results = []Outcome{
				{Ret: e.T.Nil(), Do: func(s *State) { s.Set("cmd", "ok") }},
				{Ret: cerr, Facts: map[*Term]bool{e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, cerr, e.T.Nil()): false}, Do: func(s *State) { s.Set("cmd", "failed") }},
			}
		case ev.Name == "os.Exit" && len(ev.Args) == 1:
			code := ev.Args[0]
			n, ok := code.IntVal()
			switch {
			case !ok:
				e.Report(s, "exit status", ev.Pos, "the exit status is %s", code)
			case s.Get("cmd") == "ok" && n != 0:
				e.Report(s, "failing exit after success", ev.Pos, "bab can exit with status %d although the command succeeded", n)
			case s.Get("cmd") == "failed" && n == 0 && canceled(s) != 1:
				e.Report(s, "successful exit after failure", ev.Pos, "bab can exit with status 0 although the command failed")
			case s.Get("cmd") == "":
				e.Report(s, "exit without command", ev.Pos, "bab can exit without having run the command")
			default:
				if n != 0 && s.Get("shown") == "" && !emptyMsg(s, cerr) {
					e.Report(s, "failure without message", ev.Pos, "bab can fail without a message")
				}
				e.Count("exit status")
			}
			s.Set("exited", "1")
		case (printer(ev.Name) || ev.Name == "fmt.Fprintln") && s.Get("cmd") == "failed":
			for _, a := range e.flat(s, ev.Args) {
				if a.any(func(x *Term) bool { return x == cerr || x == s.vals["ve"] && x != nil }) {
					s.Set("shown", "1")
					if s.Get("each") == "todo" {
						s.Set("each", "done")
					}
					e.Count("message shown")
				}
			}
		}
	}
	isErrs := func(coll *Term) bool {
		sl, ok := coll.T.Underlying().(*types.Slice)
		return ok && isErrT(sl.Elem())
	}
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
		if coll.T != nil && isErrs(coll) {
			if s.Get("each") == "todo" || coll.K == KSub || cut(coll) {
				e.Report(s, "validation error not shown", mainFn.Pos(), "an error of a validation can be left out")
			}
			s.Set("each", "todo")
			s.vals["ve"] = elem
			if elem == nil {
				s.vals["ve"] = e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
			}
		}
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		if coll.T != nil && isErrs(coll) {
			if s.Get("each") == "todo" {
				e.Report(s, "validation error not shown", mainFn.Pos(), "an error of a validation can be left out")
			}
			s.Set("each", "")
			s.Set("shown", "1")
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if s.Get("exited") == "" && s.Get("cmd") != "ok" {
			e.Report(s, "no exit status", mainFn.Pos(), "main can end normally although the command failed")
		}
	}
	e.Run(e.NewState(mainFn, nil))
	c.Absorb(e)
}

// emptyMsg: the error is known to have no text.
func emptyMsg(s *State, cerr *Term) bool {
	for a, v := range s.facts {
		if v && a.K == KBin && a.S == "==" && a.A[1].S == `""` && a.A[0].any(func(x *Term) bool { return x == cerr }) {
			return true
		}
	}
	return false
}
