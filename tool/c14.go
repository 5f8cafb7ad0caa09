package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C14",
		Technique: "whole-program provenance of every context argument to the signal context; path-sensitive typestate over SSA (cancellation test before each item, cancelled paths neither act nor succeed); typestate of each process start (own process group, group kill on cancel) and of the key handler of the parallel screens",
		Explain:   "Every context handed to a process, prompt, picker or task entry is traced back through parameters, fields, closures and derived contexts to the context that the signal handler cancels. On every path of the task executor an item of a run list acts only after a cancellation test in the same iteration, and a path that saw the cancellation starts nothing further and returns an error. Every process is started in its own process group with a cancel action that kills that group on every path, and its failure is reported as the cancellation when there was one. The cancel key of the parallel screens cancels the context that their items run under.",
		Run:       runC14,
		Floors:    map[string]int{"context derives from the signal handler": 6, "cancellation tested before item": 3, "cancelled path ends in an error": 2, "process in its own group": 1, "group killed on cancel": 1, "cancellation reported": 1, "cancel key": 2, "screen cancels its items": 2, "signals handled": 1},
	})
}

const (
	ctxDoneFn = "invoke (context.Context).Done"
	withCtx   = "context.With"
)

// ctxThrough: a derived context is cancelled with the one it is derived from.
func ctxThrough(n string) int {
	switch n {
	case "context.WithCancel", "context.WithCancelCause", "context.WithTimeout", "context.WithDeadline", "context.WithTimeoutCause", "context.WithDeadlineCause", "context.WithValue", "os/signal.NotifyContext",
		teaPkg + ".WithContext":
		if n == "os/signal.NotifyContext" {
			return -1
		}
		return 0
	}
	return -1
}

func (p *Prog) ctxType(t interface{ String() string }) bool { return t.String() == "context.Context" }

func runC14(c *Ctx) {
	for _, goos := range c.goosList() {
		p := c.Prog(goos)
		c.GOOSList = append(c.GOOSList, goos)
		rs := newRunSim(c, p)
		rs.c = c
		c14Provenance(c, p, rs)
		c14Signals(c, p)
		c14Run(c, p, rs)
		c14Process(c, p, rs, goos)
		c14Keys(c, p)
	}
}

// c14Provenance: A.
func c14Provenance(c *Ctx, p *Prog, rs *runSim) {
	e := NewEngine(p, &Client{Name: "C14"})
	heads := map[*ssa.Function]bool{rs.m.Entry: true, rs.m.Run: true}
	for _, h := range rs.m.Heads {
		heads[h] = true
	}
	check := func(fn *ssa.Function, v ssa.Value, what string, pos tokenPos) {
		src := p.Sources(v, ctxThrough)
		for _, n := range sourceNames(src) {
			if n == "call os/signal.NotifyContext" {
				continue
			}
			if strings.HasSuffix(n, "cobra.Command).Context") && c14Cobra(p) {
				continue
			}
			e.Report(nil, "context of "+what+" in "+p.FnName(fn), pos, "the context given to %s may be %s: an interrupt does not reach it", what, n)
			return
		}
		if len(src) == 0 {
			e.Report(nil, "context of "+what+" in "+p.FnName(fn), pos, "the context given to %s has no source", what)
			return
		}
		e.Count("context derives from the signal handler")
	}
	for _, fn := range p.Funcs {
		rel := p.Rel(fn)
		if rel == "internal/update" || rel == "" && fn.Pkg != nil && fn.Pkg.Pkg.Name() != "main" {
			continue
		}
		e.Funcs[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				n := p.CalleeName(cc)
				switch {
				case n == "os/exec.Command" || n == "os.StartProcess" || n == "syscall.ForkExec":
					e.Report(nil, "process without context in "+p.FnName(fn), ins.Pos(), "a process is created with %s: an interrupt cannot stop it", n)
				case n == "os/exec.CommandContext":
					check(fn, cc.Args[0], "a process", ins.Pos())
				case effectKind(n) == "prompt":
					if !strings.HasSuffix(n, "WithContext") {
						e.Report(nil, "prompt without context in "+p.FnName(fn), ins.Pos(), "a prompt is opened with %s: an interrupt does not end it", n)
						continue
					}
					check(fn, cc.Args[1], "a prompt", ins.Pos())
				case n == teaPkg+".WithContext":
					check(fn, cc.Args[0], "a full-screen program", ins.Pos())
				default:
					if g := cc.StaticCallee(); g != nil && heads[g] {
						for i, prm := range g.Params {
							if p.ctxType(prm.Type()) && i < len(cc.Args) {
								check(fn, cc.Args[i], "a task", ins.Pos())
							}
						}
					}
				}
			}
		}
	}
	c.Absorb(e)
}

// c14Cobra: the command tree is executed with a context from the signal handler.
func c14Cobra(p *Prog) bool {
	ok := false
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, is := ins.(ssa.CallInstruction); is {
					n := p.CalleeName(ci.Common())
					if strings.HasSuffix(n, "cobra.Command).ExecuteContext") || strings.HasSuffix(n, "cobra.Command).ExecuteContextC") {
						src := p.Sources(ci.Common().Args[1], ctxThrough)
						if len(src) != 1 || src["call os/signal.NotifyContext"] == nil {
							return false
						}
						ok = true
					}
				}
			}
		}
	}
	return ok
}

// c14Signals: F. the signal handler covers interrupt and termination, and
// stays in place until the command has been executed.
func c14Signals(c *Ctx, p *Prog) {
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "" || fn.Parent() != nil {
			continue
		}
		uses := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && p.CalleeName(ci.Common()) == "os/signal.NotifyContext" {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		fn := fn
		cl := &Client{Name: "C14", CollapseErr: true, Inline: func(g *ssa.Function) bool { return p.Rel(g) == "" }}
		e := NewEngine(p, cl)
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if ev.Name == "os/signal.NotifyContext" {
				in, te := false, false
				for _, a := range e.flat(s, ev.Args)[1:] {
					a.any(func(x *Term) bool {
						if strings.Contains(x.S, "os.Interrupt") {
							in = true
						}
						if x.K == KConst && x.S == "2" {
							in = true
						}
						if x.K == KConst && x.S == "15" {
							te = true
						}
						return false
					})
				}
				if !in || !te {
					e.Report(s, "signals not handled in "+p.FnName(fn), ev.Pos, "the signal handler does not cover both interrupt and termination")
				} else {
					e.Count("signals handled")
				}
			}
			if strings.HasPrefix(ev.Name, "dynamic ") || ev.Name == "os/signal.Stop" || ev.Name == "os/signal.Reset" || ev.Name == "os/signal.Ignore" {
				if ev.Name == "os/signal.Ignore" || strings.Contains(ev.Name, "NotifyContext") || strings.HasPrefix(ev.Name, "os/signal") {
					if s.Get("ran") == "" && s.Get("seen") == "" && ev.Kind != 'd' {
						e.Report(s, "signal handler removed early in "+p.FnName(fn), ev.Pos, "the signal handler is removed before the command was executed")
					}
				}
			}
			if ev.Fn != nil && p.Rel(ev.Fn) == "cmd" {
				for _, a := range ev.Args {
					if a.any(func(x *Term) bool { return x.K == KCall && x.S == "os/signal.NotifyContext" }) {
						s.Set("ran", "1")
					}
				}
			}
		}
		cl.OnSend = func(e *Engine, s *State, ch *Term, pos tokenPos, recv bool) {
			if recv && inGoroutine(s) && ch.any(func(x *Term) bool { return x.K == KCall && x.S == ctxDoneFn }) {
				s.Set("seen", "1")
			}
		}
		cl.OnGo = func(e *Engine, s *State, f *Term, args []*Term, pos tokenPos, end bool) {
			if end {
				s.Set("seen", "")
			}
		}
		s := e.NewState(fn, nil)
		e.Run(s)
		c.Absorb(e)
	}
}

// ctxCall: the WithCancel call a context term derives from.
func ctxCalls(t *Term) []*Term {
	var r []*Term
	t.any(func(x *Term) bool {
		if x.K == KCall && strings.HasPrefix(x.S, withCtx) {
			r = append(r, x)
		}
		return false
	})
	return r
}

// c14Run: B, C and the screens' cancel wiring.
func c14Run(c *Ctx, p *Prog, rs *runSim) {
	// small helpers that test the context are followed
	tests := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if n := p.CalleeName(ci.Common()); n == ctxErrFn || n == ctxDoneFn || n == "context.Cause" {
						tests[fn] = true
					}
				}
			}
		}
	}
	extra := func(fn *ssa.Function) (bool, bool) {
		if tests[fn] && p.Rel(fn) == "internal/runner" && !rs.performer(fn) {
			return true, true
		}
		return false, false
	}
	rs.explore(func(root *ssa.Function) (*Engine, *Client) {
		it := newItemTrack(rs)
		cl := &Client{Name: "C14", CollapseErr: true, Abstract: irrelevantRunner(append(runAbs, "map[string]runner.status", "[]error")...), Inline: rs.inline(extra), KeepFact: keepDry, Stable: []string{"cx"}}
		e := NewEngine(p, cl)
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if handlePlatform(e, ev) {
				return
			}
			where := p.FnName(ev.Instr.Parent())
			// a cancel function handed to a screen
			if ev.Fn != nil && !ev.Inline {
				for i, a := range ev.Args {
					if i < len(ev.Fn.Params) && strings.HasPrefix(ev.Fn.Params[i].Type().String(), "context.Cancel") {
						s.Set("cx", "none")
						if a.K == KExt && len(ctxCalls(a.A[0])) > 0 {
							s.Set("cx", itoa(a.A[0].id))
						}
					}
				}
			}
			if a := ev.Args; strings.HasPrefix(ev.Name, "dynamic ") && len(a) == 0 && strings.Contains(ev.Name, withCtx) && !inGoroutine(s) && s.Get("gopend") != "" {
				e.Report(s, "own items cancelled in "+where, ev.Pos, "the items of a parallel block are cancelled before they have finished")
			}
			if ev.Name == "(*sync.WaitGroup).Wait" {
				s.Set("gopend", "")
			}
			kind, items := rs.action(e, s, ev)
			if kind != "" {
				if s.Get("can") != "" {
					e.Report(s, kind+" after cancellation in "+where, ev.Pos, "%s on a path that saw the cancellation of the run", kind)
				}
				for _, i := range items {
					if p.isRunColl(i.A[0]) && !inGoroutine(s) {
						if s.Get("chk") == "" {
							e.Report(s, "item without cancellation test in "+where, ev.Pos, "%s for an item of a run list without testing the cancellation since the previous item", kind)
						} else {
							e.Count("cancellation tested before item")
						}
					}
				}
				if s.Get("cx") != "" && inGoroutine(s) {
					for _, a := range ev.Args {
						if a.T == nil || !p.ctxType(a.T) {
							continue
						}
						ok := false
						for _, x := range ctxCalls(a) {
							if itoa(x.id) == s.Get("cx") {
								ok = true
							}
						}
						if !ok {
							e.Report(s, "screen cancels something else in "+where, ev.Pos, "the cancel key of the parallel screen does not cancel the context its items run under")
						} else {
							e.Count("screen cancels its items")
						}
					}
				}
			}
			if rs.fallible(ev) {
				e.splitErr(s, ev, nil, nil)
			}
		}
		cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
			if it.itemColl(coll) && p.isRunColl(coll) {
				s.Set("chk", "")
				s.Set("cx", "")
			}
		}
		cl.OnExh = func(e *Engine, s *State, coll *Term) {
			if it.itemColl(coll) && p.isRunColl(coll) {
				s.Set("chk", "")
				s.Set("cx", "")
			}
		}
		cancelled := func(s *State) {
			if inGoroutine(s) {
				s.Set("gcan", "1")
			}
			s.Set("can", "1")
		}
		cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
			if a.K == KBin && a.S == "==" && a.A[1].IsNil() && a.A[0].K == KCall && (a.A[0].S == ctxErrFn || a.A[0].S == "context.Cause") {
				if v {
					s.Set("chk", "1")
				} else {
					cancelled(s)
				}
			}
		}
		cl.OnSelect = func(e *Engine, s *State, ins *ssa.Select, idx int, chans []*Term) {
			done := -1
			for i, ch := range chans {
				if ch.K == KCall && ch.S == ctxDoneFn {
					done = i
				}
			}
			if done < 0 {
				return
			}
			switch {
			case idx == done:
				cancelled(s)
			case idx < 0:
				s.Set("chk", "1")
			}
		}
		cl.OnSend = func(e *Engine, s *State, ch *Term, pos tokenPos, recv bool) {
			if recv && ch.K == KCall && ch.S == ctxDoneFn {
				cancelled(s)
			}
		}
		cl.OnGo = func(e *Engine, s *State, fn *Term, args []*Term, pos tokenPos, end bool) {
			if end {
				s.Set("can", "")
				s.Set("gopend", "1")
			}
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			if len(ret) == 0 || s.Get("can") == "" && s.Get("gcan") == "" {
				return
			}
			if e.Nilness(s, ret[len(ret)-1]) != -1 {
				e.Report(s, "cancellation swallowed in "+p.FnName(root), root.Pos(), "a path that saw the cancellation of the run reports success")
			} else {
				e.Count("cancelled path ends in an error")
			}
		}
		return e, cl
	}, assumeDry(false))
}

// c14Process: D.
func c14Process(c *Ctx, p *Prog, rs *runSim, goos string) {
	for _, fn := range p.Funcs {
		if p.Rel(fn) == "internal/update" || fn.Parent() != nil || !startsProcess(p, fn) {
			continue
		}
		fn := fn
		cl := &Client{Name: "C14", KeepFact: keepDry, Abstract: irrelevantRunner("map[string]string", "[]string"),
			Inline: func(g *ssa.Function) bool { return p.Rel(g) == p.Rel(fn) && (g.Parent() != nil || !execReach(p)[g]) }}
		e := NewEngine(p, cl)
		killers := map[*ssa.Function]tokenPos{}
		cl.OnStore = func(e *Engine, s *State, addr, val *Term, pos tokenPos) {
			if addr.K != KFieldAddr || !strings.Contains(addr.A[0].String(), "os/exec.Command") && !execCmdAddr(addr) {
				return
			}
			switch addr.S {
			case "SysProcAttr":
				s.Set("grp", "")
				v := strip(val)
				for k, x := range s.mem {
					if k.K == KFieldAddr && k.A[0] == v && (k.S == "Setpgid" || k.S == "Setsid") && x.S == "true" {
						s.Set("grp", "1")
					}
				}
				for k, x := range s.mem {
					if k.K == KFieldAddr && k.A[0] == v && k.S == "Pgid" && x.S != "0" {
						s.Set("grp", "")
					}
				}
			case "Cancel":
				s.Set("kill", "")
				if v := strip(val); v.Fn != nil {
					s.Set("kill", "1")
					killers[v.Fn] = pos
				}
			}
		}
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if effectKind(ev.Name) != "exec" && ev.Name != "(*os/exec.Cmd).Wait" {
				return
			}
			if ev.Name != "(*os/exec.Cmd).Wait" {
				if goos != "windows" && s.Get("grp") == "" {
					e.Report(s, "process not in its own group in "+p.FnName(fn), ev.Pos, "a process is started without its own process group: its children cannot be stopped with it")
				} else {
					e.Count("process in its own group")
				}
				if goos != "windows" && s.Get("kill") == "" {
					e.Report(s, "process without cancel action in "+p.FnName(fn), ev.Pos, "a process is started without a cancel action for its group: on interrupt its children keep running")
				}
			}
			e.splitErr(s, ev, nil, func(s *State) { s.Set("xfail", "1"); s.Set("asked", "") })
		}
		cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
			if s.Get("xfail") != "" && a.K == KBin && a.S == "==" && a.A[1].IsNil() && a.A[0].K == KCall && (a.A[0].S == ctxErrFn || a.A[0].S == "context.Cause") {
				if v {
					s.Set("asked", "no")
				} else {
					s.Set("asked", "yes")
				}
			}
		}
		cl.OnSelect = func(e *Engine, s *State, ins *ssa.Select, idx int, chans []*Term) {
			for i, ch := range chans {
				if ch.K == KCall && ch.S == ctxDoneFn && s.Get("xfail") != "" {
					if idx == i {
						s.Set("asked", "yes")
					} else {
						s.Set("asked", "no")
					}
				}
			}
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			if s.Get("xfail") == "" || len(ret) == 0 {
				return
			}
			r := ret[len(ret)-1]
			switch s.Get("asked") {
			case "":
				e.Report(s, "cancellation not told apart in "+p.FnName(fn), fn.Pos(), "a process that fails because the run was cancelled is reported as an ordinary failure")
			case "yes":
				if !r.any(func(x *Term) bool { return x.K == KCall && (x.S == ctxErrFn || x.S == "context.Cause") }) && !strings.Contains(r.String(), "context.Canceled") {
					e.Report(s, "cancellation not reported in "+p.FnName(fn), fn.Pos(), "a process that fails because the run was cancelled does not report the cancellation (%s)", r)
				} else {
					e.Count("cancellation reported")
				}
			}
		}
		e.Run(e.NewState(fn, nil))
		c.Absorb(e)
		for k, pos := range killers {
			c14Kill(c, p, k, pos, goos)
		}
	}
}

func execCmdAddr(a *Term) bool {
	return a.A[0].T != nil && strings.TrimPrefix(a.A[0].T.String(), "*") == "os/exec.Cmd"
}

// startsProcess: fn itself creates and starts a process.
func startsProcess(p *Prog, fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok && effectKind(p.CalleeName(ci.Common())) == "exec" {
				return true
			}
		}
	}
	return false
}

// c14Kill: the cancel action kills the whole group whenever there is a process.
func c14Kill(c *Ctx, p *Prog, fn *ssa.Function, pos tokenPos, goos string) {
	cl := &Client{Name: "C14", CollapseErr: true, Inline: func(g *ssa.Function) bool { return p.InRepo(g) }}
	e := NewEngine(p, cl)
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		switch ev.Name {
		case "syscall.Kill", "golang.org/x/sys/unix.Kill":
			a := strip(ev.Args[0])
			neg := a.K == KUn && a.S == "-" || a.K == KBin && (a.S == "-" && a.A[0].S == "0" || a.S == "*")
			pid := a.any(func(x *Term) bool {
				return x.K == KFld && x.S == "Pid" || x.K == KCall && strings.HasSuffix(x.S, ".Getpgid")
			})
			sig := strip(ev.Args[1])
			if neg && pid && sig.S == "9" {
				s.Set("killed", "1")
			} else if !neg {
				s.Set("how", "only the process itself is signalled, not its group")
			} else if sig.S != "9" {
				s.Set("how", "the signal can be ignored by the command")
			}
		case "(*os.Process).Kill":
			if goos == "windows" {
				s.Set("killed", "1")
			} else {
				s.Set("how", "only the process itself is killed, not its group")
			}
		}
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
		if v && a.K == KBin && a.S == "==" && a.A[1].IsNil() && a.A[0].T != nil && a.A[0].T.String() == "*os.Process" {
			s.Set("none", "1")
		}
		// the process has already ended
		if v && strings.Contains(a.String(), "ProcessState") {
			s.Set("none", "1")
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if s.Get("killed") != "" {
			e.Count("group killed on cancel")
			return
		}
		if s.Get("none") == "" {
			how := s.Get("how")
			if how == "" {
				how = "a path kills nothing"
			}
			e.Report(s, "group not killed in "+p.FnName(fn), pos, "the cancel action of a process does not kill its whole group: %s", how)
		}
	}
	e.Run(e.NewState(fn, nil))
	c.Absorb(e)
}

// c14Keys: E. screens that own a cancel function call it for ctrl+c.
func c14Keys(c *Ctx, p *Prog) {
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/tui" || fn.Name() != "Update" || fn.Signature.Recv() == nil || fn.Synthetic != "" {
			continue
		}
		fn := fn
		cl := &Client{Name: "C14", CollapseErr: true, Inline: func(g *ssa.Function) bool {
			return p.Rel(g) == "internal/tui" && reachesCancel(p)[g]
		}}
		e := NewEngine(p, cl)
		viaField := map[string]bool{}
		setField := map[string]tokenPos{}
		n := 0
		cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
			if v && a.K == KBin && a.S == "==" && a.A[1].S == `"ctrl+c"` {
				s.Set("key", "1")
			}
			if v && a.K == KBin && a.S == "==" && a.A[1].IsNil() && a.A[0].T != nil && strings.HasPrefix(a.A[0].T.String(), "context.Cancel") {
				s.Set("nocancel", "1")
			}
			if v && a.K == KFld && a.T != nil && a.T.String() == "bool" && s.Get("key") != "" {
				s.Set("via", a.S)
			}
		}
		cl.OnStore = func(e *Engine, s *State, addr, val *Term, pos tokenPos) {
			if addr.K == KFieldAddr && val.S == "true" {
				s.Set("set:"+addr.S, "1")
			}
		}
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if ci, ok := ev.Instr.(ssa.CallInstruction); ok && strings.HasPrefix(ci.Common().Value.Type().String(), "context.Cancel") {
				s.Set("called", "1")
			}
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			did := s.Get("called") != "" || s.Get("nocancel") != ""
			for k := range s.auto {
				if strings.HasPrefix(k, "set:") && !did {
					setField[k[4:]] = s.top0(fn)
				}
			}
			if s.Get("key") == "" {
				return
			}
			n++
			switch {
			case did:
			case s.Get("via") != "":
				viaField[s.Get("via")] = true
			default:
				e.Report(s, "cancel key ignored in "+p.FnName(fn), fn.Pos(), "ctrl+c does not cancel the items of the parallel screen on some path")
			}
		}
		e.Run(e.NewState(fn, nil))
		if n == 0 {
			e.Report(nil, "no cancel key in "+p.FnName(fn), fn.Pos(), "the parallel screen does not react to ctrl+c")
		} else {
			e.Count("cancel key")
		}
		for f := range viaField {
			if pos, ok := setField[f]; ok {
				e.Report(nil, "cancel key disabled in "+p.FnName(fn), pos, "%s is set without cancelling, after which ctrl+c does nothing", f)
			}
		}
		c.Absorb(e)
	}
}

func (s *State) top0(fn *ssa.Function) tokenPos { return fn.Pos() }

var reachesCancelMemo = map[*Prog]map[*ssa.Function]bool{}

// reachesCancel: functions from which a cancel function is called or a key is
// compared.
func reachesCancel(p *Prog) map[*ssa.Function]bool {
	if r, ok := reachesCancelMemo[p]; ok {
		return r
	}
	r := p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		return ok && strings.HasPrefix(ci.Common().Value.Type().String(), "context.Cancel")
	})
	reachesCancelMemo[p] = r
	return r
}
