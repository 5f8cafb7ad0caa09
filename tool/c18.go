package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C18",
		Technique: "whole-program forward taint analysis over SSA from the answers of prompts to everything that is shown, logged, stored or outlives the task; path-sensitive simulation of the password prompt",
		Explain:   "Sources are the cells the prompts write answers to. The only way on is through interpolation of a text of the Babfile. No log call, message, error, file, global, field of the runner or of a Babfile type receives tainted data. On every path of a password prompt each field hides its input before it is shown, an answer comes back only from a prompt on a terminal, and with confirmation wanted only after a second one that accepts nothing but the same text.",
		Run:       runC18,
		Floors:    map[string]int{"answer followed": 20, "answer stored": 1, "hidden": 2, "confirmed": 1, "not asked without terminal": 1},
	})
}

func huhCall(name, m string) bool {
	i := strings.LastIndexByte(name, '.')
	return strings.Contains(name, huhPkg) && i >= 0 && name[i+1:] == m
}

func runC18(c *Ctx) {
	for _, goos := range c.goosList() {
		p := c.Prog(goos)
		c.GOOSList = append(c.GOOSList, goos)
		c18Taint(c, p)
	}
	c18Password(c, c.Prog(c.goosList()[0]))
}

func sinkWhy(name string, cc *ssa.CallCommon) string {
	switch {
	case strings.HasPrefix(name, "github.com/charmbracelet/log.") || strings.Contains(name, "charmbracelet/log.Logger)") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "log/slog.") || strings.HasPrefix(name, "(*log"):
		return "writes it to the log"
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"):
		return "prints it"
	case name == "fmt.Errorf", name == "errors.New":
		return "puts it into an error"
	case name == "fmt.Sprint" || name == "fmt.Sprintf" || name == "fmt.Sprintln" || name == "fmt.Append":
		return ""
	case strings.HasSuffix(name, ".Program).Send"), strings.HasSuffix(name, ".Program).Printf"), strings.HasSuffix(name, ".Program).Println"):
		return "shows it"
	case name == "io.WriteString", strings.HasPrefix(name, "invoke (io.") && strings.HasSuffix(name, ").Write"), strings.HasPrefix(name, "(*bufio.Writer)"):
		return "writes it"
	case strings.HasPrefix(name, "os/exec."), strings.HasPrefix(name, "(*os/exec."), strings.HasPrefix(name, "syscall."):
		return "hands it to a process"
	case strings.HasPrefix(name, "os."), strings.HasPrefix(name, "(*os."):
		return "hands it to the system"
	case strings.HasPrefix(name, "net"):
		return "sends it"
	}
	return ""
}

func c18Taint(c *Ctx, p *Prog) {
	t := NewTaint(p)
	t.Clean = func(n string) bool {
		return n == interpFn || strings.Contains(n, huhPkg)
	}
	t.Sink = sinkWhy
	errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	t.FieldSink = func(st types.Type, field string) string {
		if st == nil {
			return "keeps it for the whole program"
		}
		if types.Implements(st, errT) || types.Implements(types.NewPointer(st), errT) {
			return "puts it into an error"
		}
		if n, ok := types.Unalias(st).(*types.Named); ok && n.Obj().Pkg() != nil {
			path := strings.TrimPrefix(n.Obj().Pkg().Path(), p.Mod+"/")
			if path == "internal/babfile" && n.Obj().Name() != "PromptRun" || p.named(st, "internal/runner", "Runner") {
				return "keeps it beyond the task that asked"
			}
		}
		return ""
	}
	t.Report = func(key string, pos token.Pos, why string, trail []string) {
		k := "answer leaves through " + key
		if c.vseen[k] {
			return
		}
		c.vseen[k] = true
		c.Viol = append(c.Viol, Violation{Key: k, Pos: p.Pos(pos), Msg: "the answer to a prompt reaches " + key + ", which " + why, Tr: trail})
	}
	hides := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && huhCall(p.CalleeName(ci.Common()), "EchoMode") {
					hides[fn] = true
				}
			}
		}
	}
	n := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := p.CalleeName(ci.Common())
				args := ci.Common().Args
				switch {
				case huhCall(name, "Value") && len(args) == 2:
					n++
					t.Source(args[1], "answer of a prompt")
				case huhCall(name, "Validate") && len(args) == 2 && hides[fn]:
					for _, g := range p.dynTargets(args[1]) {
						for _, prm := range g.Params {
							t.Source(prm, "answer of a prompt, to be validated")
						}
					}
				case (huhCall(name, "GetString") || huhCall(name, "GetValue") || huhCall(name, "Get")) && len(args) > 0:
					if v, ok := ins.(ssa.Value); ok {
						n++
						t.Source(v, "answer of a prompt")
					}
				}
			}
		}
	}
	t.Run()
	for {
		// what is handed on as a whole
		before := len(t.vals)
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if mi, ok := ins.(*ssa.MakeInterface); ok && t.holds(mi.X.Type(), 0) && !types.Implements(mi.X.Type(), errT) {
						t.add(mi, nil)
					}
				}
			}
		}
		t.Run()
		if len(t.vals) == before {
			break
		}
	}
	c.OkN("answer followed", len(t.vals))
	for v := range t.vals {
		for _, r := range refsOf(v) {
			if mu, ok := r.(*ssa.MapUpdate); ok && mu.Value == v && strMap(mu.Map.Type()) {
				c.Ok("answer stored")
			}
		}
	}
	for _, f := range t.Funcs() {
		c.funcs[p.FnName(f)] = true
	}
	c.steps += len(t.vals)
	if n == 0 {
		c.Violate("no source", "?", "no prompt that writes its answer to a variable was found")
	}
}

func refsOf(v ssa.Value) []ssa.Instruction {
	if r := v.Referrers(); r != nil {
		return *r
	}
	return nil
}

// c18Password: the prompt with the type held to be password.
func c18Password(c *Ctx, p *Prog) {
	var roots []*ssa.Function
	for _, fn := range p.Funcs {
		sg := fn.Signature
		if fn.Parent() != nil || sg.Recv() != nil || !p.InRepo(fn) || fn.Synthetic != "" || sg.Results().Len() != 2 || !isStringT(sg.Results().At(0).Type()) || !isErrT(sg.Results().At(1).Type()) {
			continue
		}
		takes := false
		for i := 0; i < sg.Params().Len(); i++ {
			takes = takes || p.named(sg.Params().At(i).Type(), "internal/babfile", "PromptRun")
		}
		if !takes || p.Rel(fn) != "internal/tui" {
			continue
		}
		// called from other packages
		for _, ci := range p.index().calls[fn] {
			if p.Rel(ci.Parent()) != p.Rel(fn) {
				roots = append(roots, fn)
				break
			}
		}
	}
	pw := ""
	for _, fn := range roots {
		if pkg := p.ByRel["internal/babfile"]; pkg != nil {
			if nc, ok := pkg.Members["PromptTypePassword"].(*ssa.NamedConst); ok {
				pw = constant.StringVal(nc.Value.Value)
			}
		}
		c18Prompt(c, p, fn, pw)
	}
}

func c18Prompt(c *Ctx, p *Prog, root *ssa.Function, pw string) {
	name := p.FnName(root)
	cl := &Client{Name: "C18", CollapseErr: true}
	cl.Inline = func(f *ssa.Function) bool { return p.Rel(f) == p.Rel(root) && !p.OnCycle(f) }
	cl.KeepFact = func(e *Engine, a *Term) bool { return true }
	e := NewEngine(p, cl)
	var prompt *Term
	cl.Oracle = func(e *Engine, s *State, a *Term) (bool, bool) {
		if a.K == KBin && a.S == "==" {
			x, y := a.A[0], a.A[1]
			if x.IsConst() {
				x, y = y, x
			}
			for x.K == KConv && len(x.A) == 1 {
				x = x.A[0]
			}
			if x.K == KFld && x.S == "Type" && x.A[0] == prompt {
				if v, ok := y.StrVal(); ok {
					return v == pw, true
				}
			}
		}
		return false, false
	}
	// a form field is known by the call that made it
	base := func(t *Term) *Term {
		for i := 0; i < 20 && t.K == KCall && strings.Contains(t.S, huhPkg) && len(t.A) > 0 && strings.HasPrefix(t.S, "(*"); i++ {
			t = t.A[0]
		}
		return t
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if !strings.Contains(ev.Name, huhPkg) {
			if strings.HasSuffix(ev.Name, "term.IsTerminal") {
				s.vals["tty"] = e.CallTerm(s, ev, ev.Fn.Signature)
			}
			return
		}
		m := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
		switch m {
		case "NewInput", "NewText", "NewSelect", "NewMultiSelect", "NewConfirm", "NewFilePicker":
			if s.Get("f") == "plain" {
				e.Report(s, "password visible", ev.Pos, "a password prompt has a field that does not hide what is typed")
			}
			s.Set("f", "plain")
			s.vals["f"] = e.CallTerm(s, ev, ev.Fn.Signature)
			s.Set("val", "")
		case "EchoMode":
			if base(ev.Args[0]) == s.vals["f"] {
				n, ok := ev.Args[1].IntVal()
				switch {
				case ok && n != 0:
					s.Set("f", "hidden")
				default:
					s.Set("f", "plain")
				}
			}
		case "Password":
			if b, ok := ev.Args[len(ev.Args)-1].BoolVal(); ok && base(ev.Args[0]) == s.vals["f"] {
				s.Set("f", map[bool]string{true: "hidden", false: "plain"}[b])
			}
		case "Value":
			if base(ev.Args[0]) == s.vals["f"] {
				s.vals["cell"] = ev.Args[1]
				s.Set("val", "1")
			}
		case "Validate":
			if base(ev.Args[0]) == s.vals["f"] && s.vals["ans"] != nil {
				if c18Same(c, p, e, s, ev.Args[1]) {
					s.Set("same", "1")
				}
			}
		case "Run", "RunWithContext":
			switch s.Get("f") {
			case "plain":
				e.Report(s, "password visible", ev.Pos, "a password prompt shows what is typed")
			case "hidden":
				e.Count("hidden")
			}
			s.Set("f", "")
			if s.vals["ans"] == nil {
				s.vals["ans"] = s.vals["cell"]
			} else if s.vals["cell"] != s.vals["ans"] {
				if s.Get("same") == "1" {
					s.Set("again", "1")
				}
			}
			e.splitErr(s, ev, func(s *State) { s.Set("n", s.Get("n")+"1") }, func(s *State) { s.Set("bad", "1") })
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		nil_ := e.Nilness(s, ret[1])
		if s.Get("bad") != "" && nil_ != -1 {
			e.Report(s, "cancelled prompt succeeds", root.Pos(), "%s can succeed although the prompt was cancelled or failed", name)
			return
		}
		if nil_ == -1 {
			if s.Get("n") == "" {
				e.Count("not asked without terminal")
			}
			return
		}
		if s.Get("n") == "" {
			e.Report(s, "password made up", root.Pos(), "%s can yield a password that nobody typed", name)
			return
		}
		if t := s.vals["tty"]; t == nil || !e.Holds(s, t) {
			e.Report(s, "password without terminal", root.Pos(), "%s can ask for a password without a terminal", name)
		}
		wanted, known := false, false
		for a, v := range s.facts {
			if a.contains(prompt) && a.any(func(x *Term) bool { return x.K == KFld && x.S == "Confirm" && x.A[0] == prompt }) {
				if a.K == KBin && a.S == "==" && a.A[1].IsNil() {
					if v {
						known = true
					}
					continue
				}
				known, wanted = true, v
			}
		}
		switch {
		case !known && s.Get("again") == "":
			e.Report(s, "confirmation not looked at", root.Pos(), "%s can yield a password without having looked whether it is to be confirmed", name)
		case wanted && s.Get("again") == "":
			e.Report(s, "password not confirmed", root.Pos(), "%s can yield a password that was not confirmed by the same text", name)
		case wanted:
			e.Count("confirmed")
		}
		ans := s.vals["ans"]
		if ans == nil || ret[0] != e.load(s, ans, types.Typ[types.String]) {
			e.Report(s, "password altered", root.Pos(), "%s yields %s instead of the text typed", name, ret[0])
		}
	}
	s := e.NewState(root, nil)
	for _, prm := range root.Params {
		if p.named(prm.Type(), "internal/babfile", "PromptRun") {
			prompt = s.top().env[prm]
		}
	}
	e.Run(s)
	c.Absorb(e)
}

// c18Same: the validator f accepts only the text that was typed first.
func c18Same(c *Ctx, p *Prog, e0 *Engine, s0 *State, f *Term) bool {
	fn := f.Fn
	if fn == nil || fn.Blocks == nil || len(fn.Params) != 1 {
		return false
	}
	first := s0.vals["ans"]
	// which captured variable holds the first answer
	var fv *ssa.FreeVar
	for i, b := range f.A {
		if b == first && i < len(fn.FreeVars) {
			fv = fn.FreeVars[i]
		}
	}
	if fv == nil {
		return false
	}
	cl := &Client{Name: "C18", CollapseErr: true, Inline: func(g *ssa.Function) bool { return p.Rel(g) == p.Rel(fn) && !p.OnCycle(g) }}
	cl.KeepFact = func(e *Engine, a *Term) bool { return true }
	e := NewEngine(p, cl)
	good, n := true, 0
	var typed, want *Term
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		n++
		if e.Nilness(s, ret[0]) == -1 {
			return
		}
		want = e.load(s, s.top().env[fv], types.Typ[types.String])
		eq := e.T.Bin(token.EQL, typed, want, types.Typ[types.Bool])
		if v, ok := e.Decide(s, eq); !ok || !v {
			good = false
		}
	}
	s := e.NewState(fn, nil)
	typed = s.top().env[fn.Params[0]]
	e.Run(s)
	c.Absorb(e)
	return good && n > 0
}
