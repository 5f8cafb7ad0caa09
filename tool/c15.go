package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C15",
		Technique: "path-sensitive property simulation over SSA (wait-group and semaphore typestate of every goroutine that carries out a parallel item; provenance of the semaphore capacity; failure typestate)",
		Explain:   "Every goroutine that can carry out an item of a parallel block is followed from its go statement on every path: it is added to a wait group before it starts and marks itself done exactly once, after its last effect; the function that started it waits before it returns and before it reads what the goroutines wrote. With a limit, an item acts only between one acquire and one release of a channel whose capacity is the block's limit, and a slot is given back on every path; without a limit nothing is acquired. Items are not serialised by a lock or by waiting inside the loop, and failed or abandoned items make the block fail.",
		Run:       runC15,
		Floors:    map[string]int{"item under wait group": 2, "slot held": 2, "unlimited": 2, "waited before return": 2, "failed or abandoned item reported": 2},
	})
}

// limitTerm: the Limit field of a parallel block.
func (p *Prog) limitTerm(t *Term) *Term {
	var r *Term
	t.any(func(x *Term) bool {
		if x.K == KFld && x.S == "Limit" && x.A[0].T != nil && p.named(x.A[0].T, "internal/babfile", "ParallelRun") {
			r = x
		}
		return r != nil
	})
	return r
}

// limitBranch evaluates a comparison of the limit with a constant: which of
// "no limit" (0) and "limited" (1, 2, ...) it is consistent with.
func limitBranch(a *Term, lim *Term, v bool) (zero, pos bool) {
	if a.K != KBin || len(a.A) != 2 {
		return true, true
	}
	ops := map[string]token.Token{"==": token.EQL, "!=": token.NEQ, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}
	op, ok := ops[a.S]
	if !ok {
		return true, true
	}
	ev := func(n int64) (bool, bool) {
		x := func(t *Term) (int64, bool) {
			if t == lim || strip(t) == lim {
				return n, true
			}
			return t.IntVal()
		}
		l, ok1 := x(a.A[0])
		r, ok2 := x(a.A[1])
		if !ok1 || !ok2 {
			return true, true
		}
		return constant.Compare(constant.MakeInt64(l), op, constant.MakeInt64(r)) == v, false
	}
	z, u := ev(0)
	if u {
		return true, true
	}
	for n := int64(1); n < 4; n++ {
		if r, _ := ev(n); r {
			pos = true
		}
	}
	return z, pos
}

func runC15(c *Ctx) {
	for _, goos := range c.goosList() {
		p := c.Prog(goos)
		c.GOOSList = append(c.GOOSList, goos)
		rs := newRunSim(c, p)
		rs.c = c
		rs.explore(func(root *ssa.Function) (*Engine, *Client) {
			it := newItemTrack(rs)
			cl := &Client{Name: "C15", Stable: []string{"lim"}, CollapseErr: true, Abstract: irrelevantRunner(append(runAbs, "map[string]runner.status", "[]error")...), Inline: rs.inline(nil), KeepFact: keepDry}
			e := NewEngine(p, cl)
			gw := map[*Term]bool{} // cells written by item goroutines
			inPar := func(i *Term) bool { return !p.isRunColl(i.A[0]) }
			depCall := func(ev *CallEvent) bool {
				for _, a := range ev.Args {
					if a.any(func(x *Term) bool { return x.K == KFld && x.S == "Deps" }) {
						return true
					}
				}
				return false
			}
			cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
				if handlePlatform(e, ev) {
					return
				}
				where := p.FnName(ev.Instr.Parent())
				if l, u := isMutexOp(ev.Name); l || u {
					if l {
						s.Set("held", "1")
					} else {
						s.Set("held", "")
					}
					return
				}
				switch ev.Name {
				case "(*sync.WaitGroup).Add":
					n := "1"
					if v, ok := ev.Args[1].IntVal(); !ok {
						n = "all"
					} else if v != 1 {
						n = "n"
					}
					if s.Get("wgadd") == "all" {
						n = "all"
					}
					s.Set("wgadd", n)
					return
				case "(*sync.WaitGroup).Done":
					if s.Get("gadd") != "" {
						if s.Get("gdone") != "" {
							e.Report(s, "done twice in "+where, ev.Pos, "the goroutine of a parallel item marks itself done twice")
						}
						s.Set("gdone", "1")
					}
					return
				case "(*sync.WaitGroup).Wait":
					for k, v := range s.auto {
						if strings.HasPrefix(k, "sp:") && v == "open" {
							e.Report(s, "serialised items in "+where, ev.Pos, "the block waits for an item before the following items are started")
						}
					}
					if inGoroutine(s) {
						s.Set("gwait", "1")
						return
					}
					s.Set("pending", "")
					e.Count("waited before return")
					return
				}
				kind, items := rs.action(e, s, ev)
				if kind != "" {
					par := false
					for _, i := range items {
						if inPar(i) && !(kind == "run task" && depCall(ev)) {
							par = true
							if !inGoroutine(s) {
								e.Report(s, "item not concurrent in "+where, ev.Pos, "%s for an item of a parallel block outside a goroutine: the items run one after the other", kind)
							}
							if s.Get("iter:"+itoa(i.A[0].id)) != "" {
								s.Set("sp:"+itoa(i.A[0].id), "open")
							}
						}
					}
					if par && inGoroutine(s) {
						s.Set("gacted", "1")
						if s.Get("gadd") == "" {
							e.Report(s, "item not waited for in "+where, ev.Pos, "%s for a parallel item in a goroutine that was not added to a wait group before it was started", kind)
						} else {
							e.Count("item under wait group")
						}
						if s.Get("gdone") != "" {
							e.Report(s, "item after done in "+where, ev.Pos, "%s for a parallel item after the goroutine marked itself done", kind)
						}
						if s.Get("held") != "" {
							e.Report(s, "items serialised by a lock in "+where, ev.Pos, "%s for a parallel item while a lock is held: items cannot run concurrently", kind)
						}
						switch {
						case s.Get("lim") == "none":
							e.Count("unlimited")
						case s.Get("acq") == "":
							e.Report(s, "no slot held in "+where, ev.Pos, "%s for a parallel item without holding a slot of the block's limit (a channel of exactly that capacity)", kind)
						default:
							e.Count("slot held")
						}
					}
				}
				if rs.fallible(ev) {
					g := inGoroutine(s)
					e.splitErr(s, ev, nil, func(s *State) {
						if g {
							s.Set("gfail", "1")
						}
					})
				}
			}
			cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
				if it.itemColl(coll) {
					s.Set("iter:"+itoa(coll.id), "1")
					if p.isRunColl(coll) {
						s.Set("lim", "")
					}
				}
			}
			cl.OnExh = func(e *Engine, s *State, coll *Term) {
				if it.itemColl(coll) {
					s.Set("iter:"+itoa(coll.id), "")
					s.Set("sp:"+itoa(coll.id), "")
					if p.isRunColl(coll) {
						s.Set("lim", "")
					}
					if s.Get("wgadd") == "all" {
						s.Set("wgadd", "")
					}
				}
			}
			cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
				if !v && inGoroutine(s) {
					if k, arg := p.gateAtom(a); k != "" && p.itemOf(arg) != nil {
						s.Set("gskip", "1")
					}
				}
				if lim := p.limitTerm(a); lim != nil {
					z, ps := limitBranch(a, lim, v)
					switch {
					case z && !ps:
						s.Set("lim", "none")
					case ps && !z:
						s.Set("lim", "yes")
					}
				}
			}
			acquire := func(e *Engine, s *State, ch *Term, pos tokenPos, recv bool) {
				// a goroutine that waits and then signals a channel
				if !recv && inGoroutine(s) && s.Get("gwait") != "" {
					s.Set("wc:"+itoa(ch.id), "1")
				}
				if recv && !inGoroutine(s) && s.Get("wc:"+itoa(ch.id)) != "" {
					s.Set("pending", "")
					s.Set("wc:"+itoa(ch.id), "")
					e.Count("waited before return")
				}
				cp, ok := s.mem[e.T.mk(KFieldAddr, "$cap", "", nil, false, nil, ch)]
				if !ok || p.limitTerm(cp) == nil {
					return
				}
				where := p.FnName(s.top().fn)
				if strip(cp) != p.limitTerm(cp) {
					e.Report(s, "slots differ from the limit in "+where, pos, "the number of slots is %s, not the block's limit", cp)
					return
				}
				if recv {
					if s.Get("acq") == "" {
						e.Report(s, "slot released twice in "+where, pos, "a slot of the limit is given back that is not held: one more item than the limit can run")
					}
					s.Set("acq", "")
					return
				}
				if s.Get("lim") != "yes" {
					e.Report(s, "slot taken without limit in "+where, pos, "a slot is taken although the block has no limit: its items block")
				}
				if s.Get("acq") != "" {
					e.Report(s, "slot taken twice in "+where, pos, "one item takes two slots of the limit")
				}
				s.Set("acq", "1")
			}
			cl.OnSend = acquire
			cl.OnSelect = func(e *Engine, s *State, ins *ssa.Select, idx int, chans []*Term) {
				if idx >= 0 && idx < len(chans) {
					acquire(e, s, chans[idx], ins.Pos(), ins.States[idx].Dir == 2)
				}
			}
			cl.OnGo = func(e *Engine, s *State, fn *Term, args []*Term, pos tokenPos, end bool) {
				if !end {
					s.Set("gadd", s.Get("wgadd"))
					if s.Get("wgadd") == "1" {
						s.Set("wgadd", "")
					}
					s.Set("gdone", "")
					s.Set("gacted", "")
					return
				}
				if s.Get("gadd") != "" && s.Get("gdone") == "" {
					e.Report(s, "never done in "+p.FnName(s.top().fn), pos, "the goroutine of a parallel item can end without marking itself done: the block never returns")
				}
				if s.Get("acq") != "" {
					e.Report(s, "slot leaked in "+p.FnName(s.top().fn), pos, "the goroutine of a parallel item can end without giving its slot back: later items never start")
					s.Set("acq", "")
				}
				if s.Get("gadd") != "" || s.Get("gacted") != "" {
					s.Set("pending", "1")
					if s.Get("gacted") == "" && s.Get("gfail") == "" {
						if s.Get("gskip") == "" {
							s.Set("gfail", "1")
						}
					}
				}
				for _, k := range []string{"gadd", "gdone", "gacted", "gskip", "held", "gwait"} {
					s.Set(k, "")
				}
			}
			cl.OnStore = func(e *Engine, s *State, addr, val *Term, pos tokenPos) {
				if inGoroutine(s) && s.Get("gadd") != "" && addr.K == KAlloc && !isErrNil(val) {
					if own := s.frames[0]; own != nil {
						gw[addr] = true
					}
				}
			}
			cl.OnLoad = func(e *Engine, s *State, addr, val *Term, pos tokenPos) {
				if !inGoroutine(s) && gw[addr] && s.Get("pending") != "" && s.Get("held") == "" {
					e.Report(s, "result read before the wait in "+p.FnName(s.top().fn), pos, "%s is written by the goroutines of the parallel items and read before they have finished", addr)
				}
			}
			cl.OnReturn = func(e *Engine, s *State, fn *ssa.Function, ret []*Term) {
				if !inGoroutine(s) && startsGo(fn) {
					defer func() {
						for k := range s.auto {
							if strings.HasPrefix(k, "wc:") {
								s.Set(k, "")
							}
						}
					}()
				}
				if s.Get("pending") != "" && !inGoroutine(s) && len(s.frames) > 1 && startsGo(fn) {
					e.Report(s, "returned before waiting in "+p.FnName(fn), fn.Pos(), "%s can return while goroutines carrying out parallel items are still running", p.FnName(fn))
					s.Set("pending", "")
				}
			}
			cl.OnExit = func(e *Engine, s *State, ret []*Term) {
				if len(ret) == 0 {
					return
				}
				if s.Get("pending") != "" {
					e.Report(s, "returned before waiting in "+p.FnName(root), root.Pos(), "%s can return while goroutines carrying out parallel items are still running", p.FnName(root))
				}
				if s.Get("gfail") != "" {
					if e.Nilness(s, ret[len(ret)-1]) != -1 {
						e.Report(s, "failed or abandoned item not reported in "+p.FnName(root), root.Pos(), "a path reports success although an item of a parallel block failed or was abandoned")
					} else {
						e.Count("failed or abandoned item reported")
					}
				}
			}
			return e, cl
		}, assumeDry(false))
	}
}

func isErrNil(t *Term) bool { return t == nil || t.IsNil() }

// startsGo: the function body contains a go statement.
func startsGo(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Go); ok {
				return true
			}
		}
	}
	return false
}
