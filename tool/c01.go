package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C01",
		Technique: "path-sensitive interprocedural property simulation over SSA (effect-sink reachability under the fact dryRun=true; per-item typestate pending/previewed/skipped), plus dataflow from the --dry-run flag to the runner",
		Explain:   "Every path from Runner.Run and from the recursive task executor is simulated with dryRun known true: no path may reach a process, prompt, TUI, network or filesystem-write call; every run item that is neither skipped by platform nor by its condition must be printed (with its interpolated content) before the iteration ends; the --dry-run flag value must be what the runner receives.",
		Run:       runC01,
		Floors:    map[string]int{"dry-run path end": 3, "item previewed": 4, "item skipped": 2, "flag wiring": 2, "effect sink classified": 4},
	})
}

func runC01(c *Ctx) {
	for _, goos := range c.goosList() {
		p := c.Prog(goos)
		m := runModel(c, p)
		// the sinks exist at all (positive example for the zero-count rule)
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok && effectKind(p.CalleeName(ci.Common())) != "" && strings.HasPrefix(p.Rel(fn), "internal/") {
						c.Ok("effect sink classified")
					}
				}
			}
		}
		reach := p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n := p.CalleeName(ci.Common())
			return effectKind(n) != "" || (printer(n) && p.Rel(fn) == "internal/runner") || n == condFn || n == platAtom || n == "internal/interpolate.Interpolate"
		})
		mk := func(dry func(e *Engine, s *State)) (*Engine, *Client) {
			cl := &Client{Name: "C01", CollapseErr: true,
				Abstract: irrelevantRunner("*bool", "io.Writer", "map[string]string", "[]string", "*tea.Program", "*runner.ParallelContext"),
				Inline: func(fn *ssa.Function) bool {
					switch p.Rel(fn) {
					case "internal/babfile":
						return true
					case "internal/interpolate", "internal/condition", "internal/errs", "internal/output", "internal/parser", "internal/finder":
						return effectReach(p)[fn]
					}
					return reach[fn]
				},
				KeepFact: func(e *Engine, a *Term) bool {
					return a.K == KFld && a.S == "DryRun"
				},
			}
			e := NewEngine(p, cl)
			cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
				if handlePlatform(e, ev) {
					return
				}
				if k := effectKind(ev.Name); k != "" {
					e.Report(s, "dry-run reaches "+k+" sink "+ev.Name+" in "+p.FnName(ev.Instr.Parent()), ev.Pos,
						"with dry-run set, %s (%s) is reachable", ev.Name, k)
				}
				if (ev.Name == logPkg+".SetOutput" || ev.Name == "(*"+logPkg+".Logger).SetOutput") && !strings.Contains(ev.Args[len(ev.Args)-1].String(), "os.Std") {
					e.Report(s, "previews hidden in "+p.FnName(ev.Instr.Parent()), ev.Pos, "with dry-run set, log messages are sent away from the terminal")
				}
				if ev.Rec && p.Rel(ev.Fn) == "internal/runner" && len(ev.Args) > 0 && p.named(ev.Args[0].T, "internal/runner", "Runner") {
					if v, ok := e.Decide(s, e.load(s, e.fieldAddr(ev.Args[0], structOf(ev.Args[0].T), fieldIdx(ev.Args[0].T, "DryRun")), types.Typ[types.Bool])); !ok || !v {
						e.Report(s, "recursion drops dry-run in "+p.FnName(ev.Instr.Parent()), ev.Pos, "a nested task runs on a runner whose dry-run flag is not known to be set")
					}
				}
				if printer(ev.Name) {
					if it := s.vals["item"]; it != nil && s.Get("item") == "pending" {
						if previewMentions(e, s, it, e.flat(s, ev.Args)) {
							s.Set("item", "previewed")
							e.Count("item previewed")
						}
					} else if it != nil && s.Get("item") == "skipped" && previewMentions(e, s, it, e.flat(s, ev.Args)) {
						e.Report(s, "skipped item previewed in "+p.FnName(ev.Instr.Parent()), ev.Pos, "an item skipped by its platform or condition is previewed as if it would run")
					}
				}
			}
			cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
				it := s.vals["item"]
				if it == nil {
					return
				}
				if k, arg := p.gateAtom(a); k != "" && !v && arg.contains(it) && s.Get("item") == "pending" {
					s.Set("item", "skipped")
					e.Count("item skipped")
				}
			}
			check := func(e *Engine, s *State, where string) {
				if s.Get("item") == "pending" {
					it := s.vals["item"]
					e.Report(s, "unpreviewed item: "+itemKind(e, s, it), s.top().fn.Pos(), "an applicable run item (%s) is neither previewed nor skipped under dry-run (%s)", itemKind(e, s, it), where)
				}
				s.Set("item", "")
				delete(s.vals, "item")
			}
			cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
				if !p.isRunColl(coll) {
					return
				}
				check(e, s, "next item")
				s.Set("item", "pending")
				s.vals["item"] = e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
			}
			cl.OnExh = func(e *Engine, s *State, coll *Term) {
				if p.isRunColl(coll) {
					check(e, s, "end of list")
				}
			}
			cl.OnExit = func(e *Engine, s *State, ret []*Term) {
				e.Count("dry-run path end")
				if len(ret) > 0 && e.Nilness(s, ret[len(ret)-1]) != -1 {
					check(e, s, "successful return")
				}
			}
			return e, cl
		}
		roots := append([]*ssa.Function{m.Run, m.Entry}, m.Heads...)
		heads := map[*ssa.Function]bool{}
		for _, h := range m.Heads {
			heads[h] = true
		}
		for _, root := range roots {
			e, cl := mk(nil)
			inl := cl.Inline
			isHead := heads[root]
			cl.Inline = func(fn *ssa.Function) bool {
				if heads[fn] && !isHead {
					return false
				}
				return inl(fn)
			}
			s := e.NewState(root, nil)
			r := s.top().env[root.Params[0]]
			e.Assume(s, e.T.Fld(r, "DryRun", types.Typ[types.Bool]), true)
			e.Run(s)
			c.Absorb(e)
		}
		c.GOOSList = append(c.GOOSList, goos)
		if goos == "linux" {
			c01Wiring(c, p)
			c01Level(c, p)
		}
	}
}

var effReachMemo = map[*Prog]map[*ssa.Function]bool{}

func effectReach(p *Prog) map[*ssa.Function]bool {
	if r, ok := effReachMemo[p]; ok {
		return r
	}
	r := p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		return ok && effectKind(p.CalleeName(ci.Common())) != ""
	})
	effReachMemo[p] = r
	return r
}

func fieldIdx(t types.Type, name string) int {
	st := structOf(t)
	if st == nil {
		return 0
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return 0
}

func elemType(t types.Type) types.Type {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return sl.Elem()
	}
	return nil
}

func itemKind(e *Engine, s *State, it *Term) string {
	for f, v := range s.facts {
		if v && f.K == KIsType && f.A[0] == it {
			return f.S
		}
	}
	return "any kind"
}

// contentField is the field whose (interpolated) value a preview must show.
var contentField = map[string]string{"babfile.CommandRun": "Cmd", "babfile.TaskRun": "Task", "babfile.LogRun": "Log", "babfile.PromptRun": "Prompt", "babfile.ParallelRun": "Items"}

func previewMentions(e *Engine, s *State, it *Term, args []*Term) bool {
	k := itemKind(e, s, it)
	f, ok := contentField[k]
	if !ok {
		return false
	}
	for _, a := range args {
		if shownWhole(a, func(x *Term) bool {
			return x.K == KFld && x.S == f && x.A[0].contains(it)
		}) {
			if f == "Cmd" || f == "Log" {
				// must be the interpolated value, not the raw template
				if !a.any(func(x *Term) bool { return x.K == KCall && x.S == "internal/interpolate.Interpolate" }) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// c01Level: previews are written at the info level, so nothing raises the
// level above it.
func c01Level(c *Ctx, p *Prog) {
	var above func(v ssa.Value, d int) bool
	above = func(v ssa.Value, d int) bool {
		switch x := v.(type) {
		case *ssa.Const:
			n, ok := constant.Int64Val(constant.ToInt(x.Value))
			return x.Value != nil && ok && n > 0
		case *ssa.Phi:
			for _, e := range x.Edges {
				if d < 5 && above(e, d+1) {
					return true
				}
			}
		case *ssa.Convert:
			return above(x.X, d)
		case *ssa.ChangeType:
			return above(x.X, d)
		}
		return false
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case ssa.CallInstruction:
					n := p.CalleeName(x.Common())
					if n != logPkg+".SetLevel" && n != "(*"+logPkg+".Logger).SetLevel" {
						continue
					}
					if a := x.Common().Args; above(a[len(a)-1], 0) {
						c.Violate("log level raised in "+p.FnName(fn), p.Pos(ins.Pos()), "messages at the info level, which previews are, are no longer shown")
					} else {
						c.Ok("log level")
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					st := structOf(ptrElem(fa.X.Type()))
					if st == nil || st.Field(fa.Field).Name() != "Level" || types.TypeString(st.Field(fa.Field).Type(), nil) != logPkg+".Level" {
						continue
					}
					if above(x.Val, 0) {
						c.Violate("log level raised in "+p.FnName(fn), p.Pos(ins.Pos()), "messages at the info level, which previews are, are not shown")
					} else {
						c.Ok("log level")
					}
				}
			}
		}
	}
}

// shownWhole: want occurs in t and is not cut on the way out.
func shownWhole(t *Term, want func(x *Term) bool) bool {
	if want(t) {
		return true
	}
	switch {
	case t.K == KElem && t.A[0].K == KCall && cutsText(t.A[0].S),
		t.K == KExt && t.A[0].K == KCall && cutsText(t.A[0].S),
		t.K == KCall && cutsText(t.S),
		t.K == KSub && t.T != nil && isStringT(t.T):
		return false
	}
	for _, a := range t.A {
		if shownWhole(a, want) {
			return true
		}
	}
	return false
}

// cutsText: the result of the function is only a part of its text.
func cutsText(name string) bool {
	switch name {
	case "strings.TrimSpace", "strings.Trim", "strings.TrimRight", "strings.TrimLeft":
		return false
	}
	for _, pre := range []string{"strings.Split", "strings.Cut", "strings.Trim", "strings.Fields", "strings.Index", "bytes.Split", "path/filepath.Base", "path.Base"} {
		if strings.HasPrefix(name, pre) {
			return true
		}
	}
	return strings.HasSuffix(name, ".Truncate") || strings.HasSuffix(name, ".TruncateLeft")
}

func c01Wiring(c *Ctx, p *Prog) {
	// the flag variable
	var field string
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "cmd" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || !strings.Contains(p.CalleeName(ci.Common()), "pflag.FlagSet).BoolVar") {
					continue
				}
				args := ci.Common().Args
				if len(args) < 4 {
					continue
				}
				if k, ok := args[2].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "dry-run" {
					if fa, ok := args[1].(*ssa.FieldAddr); ok {
						field = structOf(fa.X.Type()).Field(fa.Field).Name()
						if d, ok := args[len(args)-2].(*ssa.Const); ok && d.Value != nil && d.Value.Kind() == constant.Bool && constant.BoolVal(d.Value) {
							c.Violate("dry-run default", p.Pos(ins.Pos()), "the dry-run flag defaults to true")
						}
					}
				}
			}
		}
	}
	if field == "" {
		c.Violate("anchor:dry-run flag", "?", "no flag named dry-run bound to a CLI field was found")
		return
	}
	c.Ok("flag wiring")
	// no other writer of the flag field or of Runner.DryRun
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt := ptrElem(fa.X.Type())
				nm := structOf(pt).Field(fa.Field).Name()
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				if p.named(pt, "cmd", "CLI") && nm == field || p.named(pt, "internal/runner", "Runner") && nm == "DryRun" {
					c.Violate("dry-run rewritten in "+p.FnName(fn), p.Pos(st.Pos()), "the dry-run setting is overwritten after the flag was parsed")
				}
			}
		}
	}
	// every run reached from the command tree carries it
	reach := p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
		return p.calls(ins, map[string]bool{"(*internal/runner.Runner).Run": true, "(*internal/runner.Runner).RunWithTasks": true})
	})
	n := 0
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "cmd" || !reach[fn] {
			continue
		}
		// roots: functions of package cmd whose receiver/free variables are the CLI
		cl := &Client{Name: "C01w", CollapseErr: true, Inline: func(g *ssa.Function) bool {
			return p.Rel(g) == "cmd" && reach[g] || p.FnName(g) == "internal/runner.New"
		}}
		e := NewEngine(p, cl)
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if ev.Name != "(*internal/runner.Runner).Run" && ev.Name != "(*internal/runner.Runner).RunWithTasks" {
				return
			}
			r := ev.Args[0]
			v := e.load(s, e.fieldAddr(r, structOf(r.T), fieldIdx(r.T, "DryRun")), types.Typ[types.Bool])
			if v.K == KFld && v.S == field {
				n++
				return
			}
			if r.K == KSym {
				return // decided in the caller
			}
			e.Report(s, "dry-run not wired in "+p.FnName(ev.Instr.Parent()), ev.Pos, "the runner is started with DryRun = %s instead of the --dry-run flag", v)
		}
		e.Run(e.NewState(fn, nil))
		c.Absorb(e)
	}
	c.OkN("flag wiring", n)
}
