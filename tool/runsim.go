package main

// Shared scaffolding for properties of the execution engine: every recursive
// task-execution function and the public entry are simulated as roots with
// symbolic parameters; functions that cannot reach a relevant event stay
// opaque.

import (
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type runSim struct {
	c     *Ctx
	p     *Prog
	m     *RunModel
	reach map[*ssa.Function]bool

	deciding map[*ssa.Function]bool
	interp   map[*ssa.Function]bool
}

var runSimMemo = map[*Prog]*runSim{}

func newRunSim(c *Ctx, p *Prog) *runSim {
	if r, ok := runSimMemo[p]; ok {
		return r
	}
	rs := &runSim{c: c, p: p, m: runModel(c, p)}
	rs.reach = p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
		if mu, ok := ins.(*ssa.MapUpdate); ok && p.Rel(fn) == "internal/runner" {
			return p.isStatusMap(mu.Map.Type())
		}
		if lu, ok := ins.(*ssa.Lookup); ok && p.Rel(fn) == "internal/runner" {
			return p.isStatusMap(lu.X.Type())
		}
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := p.CalleeName(ci.Common())
		return effectKind(n) != "" || (printer(n) && p.Rel(fn) == "internal/runner") || n == condFn || n == platAtom || n == interpFn || n == resolveVarsFn
	})
	runSimMemo[p] = rs
	return rs
}

const (
	interpFn      = "internal/interpolate.Interpolate"
	resolveVarsFn = "internal/interpolate.ResolveVarsWithLocation"
	resolveVarsF2 = "internal/interpolate.ResolveVars"
)

// isStatusMap: a map from task name to an enumeration declared in the runner.
func (p *Prog) isStatusMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	n, ok := types.Unalias(m.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != p.Mod+"/internal/runner" {
		return false
	}
	b, ok := n.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// uiCall: a call into the prompt/TUI package that (transitively) opens a
// prompt or a full-screen program.
func (rs *runSim) uiCall(ev *CallEvent) bool {
	return ev.Fn != nil && strings.HasPrefix(rs.p.Rel(ev.Fn), "internal/tui") && effectReach(rs.p)[ev.Fn]
}

// headCall: a call that runs a task (re-entry into the recursive executor).
func (rs *runSim) headCall(ev *CallEvent) bool {
	if ev.Fn == nil {
		return false
	}
	for _, h := range rs.m.Heads {
		if ev.Fn == h {
			return true
		}
	}
	return false
}

// performer: a function of the runner that carries out one command item: it
// starts a process but decides nothing about which items or tasks run (no
// condition, platform test, item list or task entry is reachable from it).
func (rs *runSim) performer(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil || !rs.p.InRepo(fn) || !execReach(rs.p)[fn] {
		return false
	}
	if rs.deciding == nil {
		heads := map[*ssa.Function]bool{}
		for _, h := range rs.m.Heads {
			heads[h] = true
		}
		rs.deciding = rs.p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
			for _, o := range ins.Operands(nil) {
				if g, ok := (*o).(*ssa.Function); ok && heads[g] {
					return true
				}
			}
			if v, ok := ins.(ssa.Value); ok && isItemSlice(rs.p, v.Type()) {
				return true
			}
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n := rs.p.CalleeName(ci.Common())
			return n == condFn || n == platAtom
		})
	}
	return !rs.deciding[fn] && len(fn.FreeVars) == 0
}

// mentionsRepo: the type is built from a type the repository declares.
func (p *Prog) mentionsRepo(t types.Type, d int) bool {
	if d > 6 {
		return false
	}
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		if pk := x.Obj().Pkg(); pk != nil && (pk.Path() == p.Mod || strings.HasPrefix(pk.Path(), p.Mod+"/")) {
			return true
		}
		return false
	case *types.Pointer:
		return p.mentionsRepo(x.Elem(), d+1)
	case *types.Slice:
		return p.mentionsRepo(x.Elem(), d+1)
	case *types.Array:
		return p.mentionsRepo(x.Elem(), d+1)
	case *types.Map:
		return p.mentionsRepo(x.Key(), d+1) || p.mentionsRepo(x.Elem(), d+1)
	case *types.Chan:
		return p.mentionsRepo(x.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if p.mentionsRepo(x.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

var execReachMemo = map[*Prog]map[*ssa.Function]bool{}

// execReach: functions from which a process start is reachable.
func execReach(p *Prog) map[*ssa.Function]bool {
	if r, ok := execReachMemo[p]; ok {
		return r
	}
	r := p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		return ok && effectKind(p.CalleeName(ci.Common())) == "exec"
	})
	execReachMemo[p] = r
	return r
}

func (rs *runSim) inline(extra func(fn *ssa.Function) (bool, bool)) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		if extra != nil {
			if v, ok := extra(fn); ok {
				return v
			}
		}
		switch rs.p.Rel(fn) {
		case "internal/babfile":
			return true
		case "internal/runner", "":
			if fn.Parent() != nil {
				return true
			}
			return rs.reach[fn] && !rs.performer(fn)
		}
		return false
	}
}

var runAbs = []string{"*bool", "io.Writer", "map[string]string", "[]string", "*tea.Program", "*runner.ParallelContext"}

// explore runs mk() for every head and for the public entry.
func (rs *runSim) explore(mk func(root *ssa.Function) (*Engine, *Client), init func(e *Engine, s *State, root *ssa.Function)) {
	roots := append([]*ssa.Function{rs.m.Entry}, rs.m.Heads...)
	heads := map[*ssa.Function]bool{}
	for _, h := range rs.m.Heads {
		heads[h] = true
	}
	for _, root := range roots {
		e, cl := mk(root)
		inl := cl.Inline
		root := root
		cl.Inline = func(fn *ssa.Function) bool {
			if heads[fn] {
				return false
			}
			return inl(fn)
		}
		if d := os.Getenv("DIFFFN"); d != "" {
			diffHook(cl, d)
		}
		s := e.NewState(root, nil)
		for _, prm := range root.Params {
			if rs.p.named(prm.Type(), "internal/runner", "Runner") {
				e.Recv = s.top().env[prm]
			}
		}
		if init != nil {
			init(e, s, root)
		}
		e.Run(s)
		rs.c.Absorb(e)
	}
}

// assumeDry fixes Runner.DryRun on the root's receiver.
func assumeDry(v bool) func(e *Engine, s *State, root *ssa.Function) {
	return func(e *Engine, s *State, root *ssa.Function) {
		for _, prm := range root.Params {
			if e.P.named(prm.Type(), "internal/runner", "Runner") {
				e.Assume(s, e.T.Fld(s.top().env[prm], "DryRun", types.Typ[types.Bool]), v)
			}
		}
	}
}

func keepDry(e *Engine, a *Term) bool { return a.K == KFld && a.S == "DryRun" }

// splitErr replaces a fallible call by a success and a failure outcome; onFail
// runs on the failing state.
func (e *Engine) splitErr(s *State, ev *CallEvent, onOK, onFail func(s *State)) {
	var sig *types.Signature
	if ev.Fn != nil {
		sig = ev.Fn.Signature
	} else if ev.Method != nil {
		sig = ev.Method.Type().(*types.Signature)
	} else if ci, ok := ev.Instr.(ssa.CallInstruction); ok {
		sig = ci.Common().Signature()
	}
	if sig == nil || sig.Results().Len() == 0 {
		return
	}
	n := sig.Results().Len()
	et := sig.Results().At(n - 1).Type()
	if !isErrT(et) {
		return
	}
	call := e.CallTerm(s, ev, sig)
	for a := range s.facts {
		if a.contains(call) {
			delete(s.facts, a)
		}
	}
	bad := e.T.mk(KHavoc, "err!", "", et, false, nil)
	mk := func(errv *Term) *Term {
		if n == 1 {
			return errv
		}
		var xs []*Term
		for i := 0; i < n-1; i++ {
			xs = append(xs, e.ext(call, i, sig.Results().At(i).Type()))
		}
		xs = append(xs, errv)
		return e.T.mk(KTuple, "", "", sig.Results(), false, nil, xs...)
	}
	ev.Handled = true
	ev.Results = []Outcome{{Ret: mk(bad), Do: func(s *State) {
		s.note(ev.Pos, ev.Name+" fails")
		if onFail != nil {
			onFail(s)
		}
	}}, {Ret: mk(e.T.Nil()), Do: onOK}}
}

// seqLeaves walks the sources of a sequence value: bases that are not built
// here, and the elements appended to it.
func (e *Engine) seqLeaves(t *Term) (bases, elems []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.K {
		case KLoop:
			if li := e.Loops[t]; li != nil {
				for x := range li.Entry {
					walk(x)
				}
				for x := range li.Back {
					walk(x)
				}
				return
			}
			bases = append(bases, t)
		case KAppend:
			walk(t.A[0])
			if t.S == "1" {
				elems = append(elems, t.A[1])
			} else {
				walk(t.A[1])
			}
		case KSub:
			walk(t.A[0])
		case KSlice:
			// freshly made storage
		case KConst:
		default:
			bases = append(bases, t)
		}
	}
	walk(t)
	sort.Slice(bases, func(i, j int) bool { return bases[i].id < bases[j].id })
	sort.Slice(elems, func(i, j int) bool { return elems[i].id < elems[j].id })
	return
}

// item tracking ---------------------------------------------------------------

// itemTrack maintains, per collection of run items, the state of the item of
// the current iteration: gate bits learnt on the path and whether the item has
// been acted upon.
type itemTrack struct {
	rs       *runSim
	appended map[*Term]bool // element term -> gated at every append
	prefix   string
}

func newItemTrack(rs *runSim) *itemTrack {
	return &itemTrack{rs: rs, appended: map[*Term]bool{}}
}

// itemColl: a collection of run items.
func (it *itemTrack) itemColl(coll *Term) bool { return isItemSlice(it.rs.p, coll.T) }

// listGated: every element of a derived list was gated when it was appended.
func (it *itemTrack) listGated(e *Engine, coll *Term) bool {
	if coll.K == KFld {
		return false
	}
	bases, elems := e.seqLeaves(coll)
	if len(bases) > 0 || len(elems) == 0 {
		return false
	}
	for _, x := range elems {
		if g, ok := it.appended[x]; !ok || !g {
			return false
		}
	}
	return true
}

func (it *itemTrack) key(item *Term) string { return "it:" + itoa(item.A[0].id) }

// gated reports whether both gates are known to be passed for the item.
func (it *itemTrack) gated(e *Engine, s *State, item *Term) bool {
	return s.Get(it.key(item)+":p") != "" && s.Get(it.key(item)+":w") != ""
}

func (it *itemTrack) onIter(e *Engine, s *State, coll, key *Term) *Term {
	if !it.itemColl(coll) {
		return nil
	}
	item := e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
	k := it.key(item)
	s.vals[k] = item
	s.Set(k, "pending")
	s.Set(k+":p", "")
	s.Set(k+":w", "")
	s.Set(k+":skip", "")
	if it.listGated(e, coll) {
		s.Set(k+":p", "1")
		s.Set(k+":w", "1")
	}
	return item
}

func (it *itemTrack) onBranch(e *Engine, s *State, a *Term, v bool) {
	p := it.rs.p
	// an empty condition passes the when gate
	if a.K == KBin && a.S == "==" && a.A[1].S == `""` && a.A[0].K == KFld && a.A[0].S == "When" {
		if i := p.itemOf(a.A[0]); i != nil && s.vals[it.key(i)] == i && v {
			s.Set(it.key(i)+":w", "1")
		}
		return
	}
	// an empty platform list passes the platform gate
	if v && (a.K == KBin && a.S == "==" && a.A[1].K == KConst && (a.A[0].K == KLen && platList(p, a.A[0].A[0]) && a.A[1].S == "0" || platList(p, a.A[0]) && a.A[1].IsNil())) {
		pl := a.A[0]
		if pl.K == KLen {
			pl = pl.A[0]
		}
		if i := p.itemOf(pl); i != nil && s.vals[it.key(i)] == i && pl.K == KFld && pl.S == "Platforms" {
			s.Set(it.key(i)+":p", "1")
		}
		return
	}
	k, arg := p.gateAtom(a)
	if k == "" {
		return
	}
	i := p.itemOf(arg)
	if i == nil || s.vals[it.key(i)] != i {
		return
	}
	switch {
	case k == "platform" && !it.platOK(a):
		return
	case k == "when" && !whenOf(arg):
		return
	case v && k == "platform":
		s.Set(it.key(i)+":p", "1")
	case v:
		s.Set(it.key(i)+":w", "1")
	default:
		s.Set(it.key(i)+":skip", k)
	}
}

// platOK: the platform test compares the item's own platforms with the
// system the program is built for.
func (it *itemTrack) platOK(a *Term) bool {
	if len(a.A) != 2 || !(a.A[0].K == KFld && a.A[0].S == "Platforms") {
		return false
	}
	s, ok := a.A[1].StrVal()
	return ok && s == it.rs.p.GOOS
}

// whenOf: the condition evaluated is the item's own, untransformed.
func whenOf(arg *Term) bool { return arg.K == KFld && arg.S == "When" }

func itoa(n int) string {
	const d = "0123456789"
	if n == 0 {
		return "0"
	}
	var b []byte
	for n > 0 {
		b = append([]byte{d[n%10]}, b...)
		n /= 10
	}
	return string(b)
}

// logText: the message printed is the text of a log item.
func (rs *runSim) logText(e *Engine, s *State, ev *CallEvent) bool {
	for _, a := range e.flat(s, ev.Args) {
		if a.any(func(x *Term) bool {
			return x.K == KFld && x.S == "Log" && x.A[0].T != nil && rs.p.named(x.A[0].T, "internal/babfile", "LogRun")
		}) {
			return true
		}
	}
	return false
}

// action classifies a call that makes a run item take effect (or, under
// dry-run, previews it) and returns the items it acts for.
func (rs *runSim) action(e *Engine, s *State, ev *CallEvent) (kind string, items []*Term) {
	kind = ""
	k := effectKind(ev.Name)
	switch {
	case k == "exec" || (!ev.Inline && rs.performer(ev.Fn)):
		kind = "run command"
	case k == "prompt" || k == "tui" || (rs.uiCall(ev) && !ev.Inline):
		kind = "prompt"
	case rs.headCall(ev):
		kind = "run task"
	case (printer(ev.Name) || strings.HasPrefix(ev.Name, logPkg+".Debug")) && rs.logText(e, s, ev):
		kind = "print"
	}
	if kind == "" {
		return "", nil
	}
	seen := map[*Term]bool{}
	args := e.flat(s, ev.Args)
	for _, a := range args {
		a.any(func(x *Term) bool {
			if x.K == KElem && rs.p.named(x.T, "internal/babfile", "RunItem") && !seen[x] {
				seen[x] = true
				items = append(items, x)
			}
			return false
		})
	}
	// keep the innermost items only
	var in []*Term
	for _, x := range items {
		inner := true
		for _, y := range items {
			if y != x && y.contains(x) {
				inner = false
			}
		}
		if inner {
			in = append(in, x)
		}
	}
	return kind, in
}

func (it *itemTrack) key2(x *Term) string {
	if x.K != KElem {
		return ""
	}
	return it.key(x)
}
