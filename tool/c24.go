package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C24",
		Technique: "path-sensitive protocol (typestate) simulation over SSA of the full-screen view of a parallel block and of every message its items send, with a provenance analysis of message keys and a dominance analysis of the handlers and of the status that is shown",
		Explain:   "The function that opens the view tells it that all is done exactly after the goroutines of the items have ended, waits for it to close before it returns or prints, and has the log off the screen for exactly that time. Every goroutine that reports on an item starts it before it acts, ends it exactly once on every path with the outcome of the item, and uses one key that depends on the item. Nested blocks register their items and remove them. The handlers keep what a message says for the item it names, close the view only when all is done, and no item is shown or summed up as successful unless it is done without error.",
		Run:       runC24,
		Floors:    map[string]int{"item reported done": 2, "item reported started": 1, "view closed": 1, "log kept off the view": 1, "message handled": 5, "status shown": 2, "key of an item": 3},
	})
}

func (p *Prog) uiMsg(t types.Type) string {
	if t == nil {
		return ""
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != p.Mod+"/internal/tui" || !strings.HasSuffix(n.Obj().Name(), "Msg") {
		return ""
	}
	return n.Obj().Name()
}

// opensView: the call starts a full-screen program and hands it back.
func (p *Prog) opensView(ev *CallEvent) bool {
	if ev.Fn == nil || !strings.HasPrefix(p.Rel(ev.Fn), "internal/tui") {
		return false
	}
	r := ev.Fn.Signature.Results()
	return r.Len() > 0 && shortType(r.At(0).Type()) == "*tea.Program"
}

// summarised: the outcomes of a block are shown together once it is over.
func (p *Prog) summarised() bool {
	r := false
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/runner" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && p.Rel(g) == "internal/output" {
						for _, prm := range g.Params {
							if sl, is := prm.Type().Underlying().(*types.Slice); is && isErrT(sl.Elem()) {
								r = true
							}
						}
					}
				}
			}
		}
	}
	return r
}

type c24cand struct {
	fn  *ssa.Function
	key string
	msg string
	pos token.Pos
}

func runC24(c *Ctx) {
	for _, goos := range c.goosList() {
		p := c.Prog(goos)
		c.GOOSList = append(c.GOOSList, goos)
		labelPairs(c, p)
		rs := newRunSim(c, p)
		rs.c = c
		reports := map[*ssa.Function]bool{} // goroutines that send messages about an item
		var cands []c24cand
		regd, unregd := 0, 0
		summed := p.summarised()
		var unregPos token.Pos
		rs.explore(func(root *ssa.Function) (*Engine, *Client) {
			var abs []string
			for _, a := range runAbs {
				if a != "*tea.Program" && a != "*runner.ParallelContext" {
					abs = append(abs, a)
				}
			}
			cl := &Client{Name: "C24", CollapseErr: true, Abstract: irrelevantRunner(append(abs, "map[string]runner.status")...), Inline: rs.inline(func(fn *ssa.Function) (bool, bool) {
				// helpers that are given what to do
				if p.Rel(fn) == "internal/runner" {
					for _, prm := range fn.Params {
						if _, ok := prm.Type().Underlying().(*types.Signature); ok && fn.Parent() == nil {
							return true, true
						}
					}
				}
				// helpers that only send messages
				if p.Rel(fn) == "internal/runner" && sendsMsg(p)[fn] && fn.Signature.Recv() == nil {
					return true, true
				}
				return false, false
			}), KeepFact: keepDry}
			e := NewEngine(p, cl)
			gfns := map[string]*ssa.Function{}
			gfn := func(s *State) *ssa.Function {
				for _, f := range s.frames {
					if f.kind == 'g' {
						return f.fn
					}
				}
				return gfns[s.Get("gfn")]
			}
			cand := func(s *State, key, msg string, pos token.Pos) {
				cands = append(cands, c24cand{gfn(s), key, msg, pos})
			}
			cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
				if handlePlatform(e, ev) {
					return
				}
				where := p.FnName(ev.Instr.Parent())
				g := inGoroutine(s)
				switch {
				case ev.Name == "(*sync.WaitGroup).Wait":
					if g {
						s.Set("gwait", "1")
						return
					}
					s.Set("pending", "")
					return
				case p.opensView(ev) && !g:
					if s.Get("view") != "" {
						e.Report(s, "second view in "+where, ev.Pos, "a full-screen view is opened while another one is on the screen")
					}
					if s.Get("nested") == "1" {
						e.Report(s, "second view in "+where, ev.Pos, "a full-screen view is opened although there is one already")
					}
					e.splitErr(s, ev, func(s *State) { s.Set("view", "open"); s.Set("all", ""); s.Set("opened", "1") }, nil)
					return
				case strings.HasSuffix(ev.Name, ".Program).Wait") && strings.Contains(ev.Name, teaPkg):
					if s.Get("view") == "open" && s.Get("all") == "" {
						e.Report(s, "waits forever in "+where, ev.Pos, "the view is waited for without having been told that all is done: it never closes")
					}
					if s.Get("view") == "open" {
						e.Count("view closed")
					}
					s.Set("view", "")
					return
				case strings.HasSuffix(ev.Name, ".Program).Quit") || strings.HasSuffix(ev.Name, ".Program).Kill"):
					if s.Get("pending") != "" {
						e.Report(s, "closed early in "+where, ev.Pos, "the view is closed while items are running")
					}
					s.Set("all", "1")
					return
				case ev.Name == logPkg+".SetOutput":
					a := ev.Args[0]
					std := a.any(func(x *Term) bool { return x.K == KGlobal && (x.S == "os.Stderr" || x.S == "os.Stdout") })
					if !std {
						s.Set("quiet", "1")
						return
					}
					if s.Get("quiet") == "" {
						e.Report(s, "log switched on in "+where, ev.Pos, "log output is directed to the terminal by a function that did not divert it: a view that is open is garbled")
					}
					if s.Get("view") == "open" {
						e.Report(s, "log switched on in "+where, ev.Pos, "log output is directed to the terminal while the view is still on it")
					}
					if s.Get("opened") == "" {
						e.Report(s, "log switched by another in "+where, ev.Pos, "log output is diverted and directed to the terminal again by a block that did not open the view: a view that is open is garbled")
					}
					s.Set("quiet", "")
					return
				case ev.Fn != nil && p.Rel(ev.Fn) == "internal/output" && !strings.HasPrefix(ev.Fn.Name(), "Render") && !g && s.Get("view") == "open":
					e.Report(s, "printed over the view in "+where, ev.Pos, "%s prints while the full-screen view is on the terminal", p.FnName(ev.Fn))
				case strings.HasSuffix(ev.Name, ".Program).Send") && strings.Contains(ev.Name, teaPkg):
					rs.viewMsg(e, s, ev, where, reports, cand)
					return
				}
				// a writer that reports lines of an item
				if g && ev.Fn != nil && p.InRepo(ev.Fn) {
					if k := rs.lineWriterKey(e, s, ev); k != nil {
						rs.itemKey(e, s, k, where, ev.Pos)
					}
				}
				kind, items := rs.action(e, s, ev)
				if g && kind != "" && len(items) > 0 && strings.HasPrefix(p.Rel(ev.Instr.Parent()), "internal/runner") {
					s.Set("gacted", "1")
					rs.handedPath(e, s, ev, where)
					if s.Get("gdone") != "" {
						e.Report(s, "acts after done in "+where, ev.Pos, "%s for an item that was already reported as done", kind)
					}
					if s.Get("gstart") == "" {
						cand(s, "not started", "an item is carried out without having been reported as started", ev.Pos)
					} else {
						e.Count("item reported started")
					}
					if s.Get("view") == "open" {
						if s.Get("quiet") == "" {
							cand(s, "log over the view", "items are carried out while log output still goes to the terminal the view is on", ev.Pos)
						} else {
							e.Count("log kept off the view")
						}
					}
				}
				if rs.fallible(ev) && !p.opensView(ev) {
					e.splitErr(s, ev, nil, func(s *State) {
						if g {
							s.Set("gfail", "1")
						}
					})
				}
			}
			cl.OnStore = func(e *Engine, s *State, addr, val *Term, pos token.Pos) {
				if inGoroutine(s) && addr.K == KIndexAddr && isErrT(ptrElem(addr.T)) {
					s.Set("gerr", "?")
					switch e.Nilness(s, val) {
					case -1:
						s.Set("gerr", "err")
					case 1:
						s.Set("gerr", "nil")
					}
				}
			}
			cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
				if !v && inGoroutine(s) {
					if k, arg := p.gateAtom(a); k != "" && p.itemOf(arg) != nil {
						s.Set("gskip", "1")
					}
				}
			}
			cl.OnSend = func(e *Engine, s *State, ch *Term, pos token.Pos, recv bool) {
				if !recv && inGoroutine(s) && s.Get("gwait") != "" {
					s.Set("wc:"+itoa(ch.id), "1")
				}
				if recv && !inGoroutine(s) && s.Get("wc:"+itoa(ch.id)) != "" {
					s.Set("pending", "")
					s.Set("wc:"+itoa(ch.id), "")
				}
			}
			cl.OnGo = func(e *Engine, s *State, fn *Term, args []*Term, pos token.Pos, end bool) {
				if !end {
					if fn != nil && fn.Fn != nil {
						gfns[fn.Fn.RelString(nil)] = fn.Fn
						s.Set("gfn", fn.Fn.RelString(nil))
					}
					for _, k := range []string{"gstart", "gdone", "gacted", "gfail", "gskip", "gkey", "gwait", "gerr"} {
						s.Set(k, "")
					}
					return
				}
				if s.Get("gdone") == "" {
					cand(s, "never done", "the goroutine of an item can end without reporting the item as done: it is shown as running", pos)
				}
				if summed && (s.Get("gfail") != "" || s.Get("gacted") == "" && s.Get("gskip") == "" && s.Get("gstart") == "") {
					if s.Get("gerr") != "err" {
						cand(s, "not in the summary", "an item that failed or was abandoned can be missing among the errors of the block: the summary shows it as successful", pos)
					} else {
						e.Count("failure in the summary")
					}
				}
				if s.Get("gacted") != "" || s.Get("gdone") != "" || s.Get("gstart") != "" {
					s.Set("pending", "1")
				}
				if s.Get("gdone") != "" && s.Get("view") == "" {
					s.Set("clear", "1")
					if s.Get("reg") != "" {
						regd++
					} else {
						unregd++
						unregPos = pos
					}
				}
				for _, k := range []string{"gstart", "gdone", "gacted", "gfail", "gskip", "gkey", "gwait", "gerr"} {
					s.Set(k, "")
				}
			}
			cl.OnExit = func(e *Engine, s *State, ret []*Term) {
				if inGoroutine(s) {
					return
				}
				if s.Get("view") == "open" {
					e.Report(s, "view left open in "+p.FnName(root), root.Pos(), "a path returns while the full-screen view is on the terminal")
				}
				if s.Get("quiet") != "" {
					e.Report(s, "log left off in "+p.FnName(root), root.Pos(), "a path returns with log output still thrown away")
				}
				if s.Get("clear") != "" {
					e.Report(s, "items left in the view in "+p.FnName(root), root.Pos(), "a nested block returns without removing its items from the view")
				}
			}
			return e, cl
		}, assumeDry(false))
		e := NewEngine(p, &Client{Name: "C24"})
		seen := map[string]bool{}
		for _, x := range cands {
			if x.fn == nil || !reports[x.fn] {
				continue
			}
			k := x.key + " in " + p.FnName(x.fn)
			if !seen[k] {
				seen[k] = true
				e.Report(nil, k, x.pos, "%s", x.msg)
			}
		}
		if unregd > 0 && regd == 0 {
			e.Report(nil, "never registered", unregPos, "the items of a nested block are reported on without having been registered with the view")
		}
		(&c24{p: p, e: e, ctx: c, roles: map[string]string{}}).run()
		c.Absorb(e)
	}
}

var sendsMsgMemo = map[*Prog]map[*ssa.Function]bool{}

// sendsMsg: the function itself sends a message to a view.
func sendsMsg(p *Prog) map[*ssa.Function]bool {
	if r, ok := sendsMsgMemo[p]; ok {
		return r
	}
	r := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mi, ok := ins.(*ssa.MakeInterface); ok && p.uiMsg(mi.X.Type()) != "" {
					r[fn] = true
				}
			}
		}
	}
	sendsMsgMemo[p] = r
	return r
}

// lineWriterKey: the call makes a writer that reports lines of an item; the
// key it is given.
func (rs *runSim) lineWriterKey(e *Engine, s *State, ev *CallEvent) *Term {
	r := ev.Fn.Signature.Results()
	if r.Len() == 0 || ev.Fn.Signature.Recv() != nil {
		return nil
	}
	n, ok := types.Unalias(c23Deref(r.At(0).Type())).(*types.Named)
	if !ok {
		return nil
	}
	sends := false
	for i := 0; i < n.NumMethods(); i++ {
		if m := rs.p.SSA.FuncValue(n.Method(i)); m != nil {
			sends = sends || sendsMsg(rs.p)[m]
			for _, g := range m.AnonFuncs {
				sends = sends || sendsMsg(rs.p)[g]
			}
		}
	}
	if !sends {
		return nil
	}
	for i, prm := range ev.Fn.Params {
		if isStr(prm.Type()) {
			return ev.Args[i]
		}
	}
	return nil
}

func (rs *runSim) itemKey(e *Engine, s *State, k *Term, where string, pos token.Pos) {
	if o := s.Get("gkey"); o != "" && o != itoa(k.id) {
		e.Report(s, "keys differ in "+where, pos, "one goroutine reports on its item under different keys")
		return
	}
	s.Set("gkey", itoa(k.id))
	e.Count("key of an item")
}

// handedPath: the place in the view that an item's own blocks are told to add
// to is the item's, not that of the block it is in.
func (rs *runSim) handedPath(e *Engine, s *State, ev *CallEvent, where string) {
	for _, a := range ev.Args {
		el := ptrElem(a.T)
		st := structOf(el)
		if el == nil || st == nil || a.K != KAlloc || !rs.p.named(el, "internal/runner", "ParallelContext") {
			continue
		}
		v := e.load(s, a, el)
		for i := 0; i < st.NumFields(); i++ {
			sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			w := e.T.Fld(v, st.Field(i).Name(), st.Field(i).Type())
			if w.K == KSub && !w.A[2].IsNil() || w.IsNil() || w.K == KFld && !w.any(func(x *Term) bool { return x.K == KAlloc }) {
				e.Report(s, "place of another item in "+where, ev.Pos, "the blocks inside an item are told to show their items at a place (%s) that is not the item's", w)
			} else {
				e.Count("place of an item")
			}
		}
	}
}

func (rs *runSim) viewMsg(e *Engine, s *State, ev *CallEvent, where string, reports map[*ssa.Function]bool, cand func(s *State, key, msg string, pos token.Pos)) {
	p := rs.p
	m := strip(ev.Args[1])
	name := p.uiMsg(m.T)
	if name == "" {
		return
	}
	g := inGoroutine(s)
	if g && strings.HasPrefix(name, "Item") && name != "ItemRegisterMsg" && name != "ItemClearChildrenMsg" {
		for _, f := range s.frames {
			if f.kind == 'g' {
				reports[f.fn] = true
				break
			}
		}
		rs.itemKey(e, s, e.T.Fld(m, "Key", types.Typ[types.String]), where, ev.Pos)
	}
	switch name {
	case "ItemRegisterMsg":
		s.Set("reg", "1")
	case "ItemStartMsg":
		s.Set("gstart", "1")
	case "ItemDoneMsg":
		if !g {
			return
		}
		if s.Get("gdone") != "" {
			e.Report(s, "done twice in "+where, ev.Pos, "an item is reported as done twice")
		}
		s.Set("gdone", "1")
		e.Count("item reported done")
		n := e.Nilness(s, e.T.Fld(m, "Err", types.Universe.Lookup("error").Type()))
		switch {
		case s.Get("gfail") != "" && n != -1:
			e.Report(s, "failure not shown in "+where, ev.Pos, "an item that failed is reported as done without its error")
		case s.Get("gfail") == "" && s.Get("gacted") != "" && n == -1:
			e.Report(s, "success shown as failure in "+where, ev.Pos, "an item that succeeded is reported as failed")
		case s.Get("gacted") == "" && s.Get("gskip") == "" && n != -1 && s.Get("gstart") == "":
			e.Report(s, "abandoned item shown as done in "+where, ev.Pos, "an item that was never carried out is reported as done without an error")
		}
	case "ItemClearChildrenMsg":
		if s.Get("pending") != "" {
			e.Report(s, "removed early in "+where, ev.Pos, "the items of a nested block are removed from the view while they are running")
		}
		s.Set("clear", "")
	case "AllDoneMsg":
		if g {
			return
		}
		if s.Get("view") != "open" {
			e.Report(s, "closed by another in "+where, ev.Pos, "a view is told that all is done by a block that did not open it")
		}
		if s.Get("pending") != "" {
			e.Report(s, "closed early in "+where, ev.Pos, "the view is told that all is done while items are running")
		}
		s.Set("all", "1")
	}
}

type c24 struct {
	p     *Prog
	e     *Engine
	ctx   *Ctx
	roles map[string]string // what a field of an item keeps
}

// run analyses what the view does with the messages and what it shows.
func (c *c24) run() {
	p, e0 := c.p, c.e
	// the models of the views: Update methods that lead to a message of an item
	reach := p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
		ta, ok := ins.(*ssa.TypeAssert)
		return ok && p.Rel(fn) == "internal/tui" && p.uiMsg(ta.AssertedType) != ""
	})
	seen := map[string]bool{}
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/tui" || fn.Name() != "Update" || fn.Signature.Recv() == nil || len(fn.Params) != 2 || !reach[fn] || fn.Synthetic != "" {
			continue
		}
		c.update(fn, seen)
	}
	for _, m := range []string{"ItemRegisterMsg", "ItemStartMsg", "ItemOutputMsg", "ItemDoneMsg", "ItemClearChildrenMsg", "AllDoneMsg"} {
		if !seen[m] {
			e0.Report(nil, "not handled "+m, token.NoPos, "no view does anything with %s", m)
		}
	}
	c.shown()
	c.keys()
}

// itemField: the store goes to a field of an item that the view keeps.
func c24Item(addr *Term) (item *Term, field string) {
	if addr.K != KFieldAddr {
		return nil, ""
	}
	b := addr.A[0]
	if b.K == KMapVal {
		return b, addr.S
	}
	return nil, ""
}

func (c *c24) update(fn *ssa.Function, seen map[string]bool) {
	p := c.p
	pkg := fn.Pkg.Pkg
	for _, name := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || p.uiMsg(tn.Type()) == "" {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		c.updateMsg(fn, name, tn.Type(), st, seen)
	}
	// anything else that is told apart from the rest
	done := map[string]bool{}
	for _, g := range p.Funcs {
		if p.Rel(g) != "internal/tui" {
			continue
		}
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				ta, ok := ins.(*ssa.TypeAssert)
				if !ok || p.uiMsg(ta.AssertedType) != "" || types.IsInterface(ta.AssertedType) || shortType(ta.X.Type()) != shortType(fn.Params[1].Type()) || done[typeKey(ta.AssertedType)] {
					continue
				}
				done[typeKey(ta.AssertedType)] = true
				c.updateMsg(fn, shortType(ta.AssertedType), ta.AssertedType, nil, seen)
			}
		}
	}
}

func (c *c24) updateMsg(fn *ssa.Function, name string, mt types.Type, st *types.Struct, seen map[string]bool) {
	p, e0 := c.p, c.e
	cl := &Client{Name: "C24", KeepFact: func(*Engine, *Term) bool { return true }, Inline: func(g *ssa.Function) bool {
		return p.Rel(g) == "internal/tui"
	}}
	e := NewEngine(p, cl)
	msg := e.T.Sym("msg", mt)
	field := func(n string) *Term { return e.T.mk(KFld, n, "", nil, false, nil, msg) }
	key, line, merr, parent := field("Key"), field("Line"), field("Err"), field("Parent")
	has := func(t, x *Term) bool { return t.any(func(y *Term) bool { return y == x }) }
	where := p.FnName(fn)
	cl.OnLookup = func(e *Engine, s *State, m, k *Term, pos token.Pos) {
		mm, ok := m.T.Underlying().(*types.Map)
		if !ok {
			return
		}
		v, okT := e.lookup(s, m, k, mm)
		n := ""
		switch strip(k) {
		case key:
			n = "item"
		case parent:
			n = "parent"
		default:
			return
		}
		if v.K == KMapVal && s.vals[n] == nil {
			s.vals[n], s.vals[n+"ok"] = v, okT
		}
	}
	absent := func(s *State, n string) bool {
		if s.Get("absent:"+n) != "" {
			return true
		}
		v := s.vals[n]
		if v == nil {
			return false
		}
		if e.Nilness(s, v) == 1 {
			return true
		}
		b, known := e.Decide(s, s.vals[n+"ok"])
		return known && !b
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos token.Pos) {
		for _, n := range []string{"item", "parent"} {
			if absent(s, n) || n == "parent" && c24Empty(e, s, parent) {
				s.Set("absent:"+n, "1")
			}
		}
	}
	cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos token.Pos) {
		if k == key {
			s.Set("put", "1")
			if name != "ItemRegisterMsg" {
				e.Report(s, "item replaced in "+where, pos, "%s replaces what is known about an item", name)
			}
			if lbl := field("Label"); name == "ItemRegisterMsg" {
				ok := false
				if sv, is := s.mem[v]; is && has(sv, lbl) {
					ok = true
				}
				for a, x := range s.mem {
					if a.K == KFieldAddr && a.A[0] == v && has(x, lbl) {
						ok = true
					}
				}
				if !ok {
					e.Report(s, "label lost in "+where, pos, "an item is registered without the label it was given")
				}
			}
		}
	}
	cl.OnStore = func(e *Engine, s *State, addr, val *Term, pos token.Pos) {
		it, f := c24Item(addr)
		if it == nil {
			return
		}
		if st == nil {
			if t := ptrElem(addr.T); isErrT(t) || isBoolT(t) {
				e.Report(s, "outcome changed by another message in "+where, pos, "%s changes %s of an item", name, f)
			}
			return
		}
		t := ptrElem(addr.T)
		switch {
		case it.A[1] == key && name == "ItemStartMsg" && isBoolT(t):
			if b, ok := val.BoolVal(); ok && b {
				s.Set("started", f)
			}
		case it.A[1] == key && name == "ItemDoneMsg" && isBoolT(t):
			if b, ok := val.BoolVal(); ok && b {
				s.Set("done", f)
			} else {
				e.Report(s, "done taken back in "+where, pos, "%s is not set when an item is done", f)
			}
		case it.A[1] == key && name == "ItemDoneMsg" && isErrT(t):
			if val != merr && !(val.K == KHavoc) && !has(val, merr) && !(val.IsNil() && e.Nilness(s, merr) == 1) {
				e.Report(s, "outcome replaced in "+where, pos, "what is kept as the outcome of an item is not the error it ended with")
			} else {
				s.Set("err", f)
			}
		case it.A[1] == key && name == "ItemOutputMsg":
			if has(val, line) {
				if x := val; x.K == KSub && !x.A[2].IsNil() && x.A[2] != e.T.Len(x.A[0]) {
					e.Report(s, "newest line dropped in "+where, pos, "the line just written is cut off")
				}
				s.Set("lines", f)
			} else if s.Get("lines") == f {
				e.Report(s, "line dropped in "+where, pos, "the line just written is dropped again")
			}
		case it.A[1] == parent && name == "ItemRegisterMsg":
			if has(val, key) {
				s.Set("child", f)
			}
		case it.A[1] == key && name == "ItemClearChildrenMsg":
			s.Set("cleared", s.Get("cleared")+f+" ")
		}
		if (isErrT(t) && name != "ItemDoneMsg") || (isBoolT(t) && name != "ItemDoneMsg" && name != "ItemStartMsg") {
			e.Report(s, "outcome changed by another message in "+where, pos, "%s changes %s of an item", name, f)
		}
		if it.A[1] != key && name != "ItemRegisterMsg" && name != "ItemClearChildrenMsg" {
			e.Report(s, "another item in "+where, pos, "%s changes an item that is not the one it names", name)
		}
	}
	role := map[string]string{}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		quit := false
		for _, r := range ret {
			if r.any(func(x *Term) bool {
				return x.K == KFunc && x.S == teaPkg+".Quit" || x.K == KCall && x.S == teaPkg+".Quit"
			}) {
				quit = true
			}
		}
		if quit != (name == "AllDoneMsg") {
			if quit {
				e.Report(s, "view closed on "+name+" in "+where, fn.Pos(), "the view closes on %s although items may be running", name)
			} else {
				e.Report(s, "view not closed in "+where, fn.Pos(), "the view does not close when all is done: bab hangs")
			}
		}
		if st == nil {
			e.Count("other message keeps the view open")
			return
		}
		for _, k := range []string{"started", "done", "err", "lines", "child"} {
			if f := s.Get(k); f != "" {
				role[k] = f
			}
		}
		miss := func(what string) {
			e.Report(s, name+" ignored in "+where, fn.Pos(), "%s on some path although the item is known", what)
		}
		switch name {
		case "ItemStartMsg":
			if s.Get("started") == "" && !absent(s, "item") {
				miss("that an item has started is not kept")
			}
		case "ItemDoneMsg":
			if (s.Get("done") == "" || s.Get("err") == "") && !absent(s, "item") {
				miss("that an item is done, or its error, is not kept")
			}
		case "ItemOutputMsg":
			if s.Get("lines") == "" && !absent(s, "item") {
				miss("a line of an item is not kept")
			}
		case "ItemRegisterMsg":
			if s.Get("put") == "" {
				miss("an item of a nested block is not added")
			}
			if s.Get("child") == "" && !absent(s, "parent") {
				miss("an item of a nested block is not added to the item it belongs to")
			}
		case "ItemClearChildrenMsg":
			if s.Get("cleared") == "" && !absent(s, "item") {
				miss("the items of a nested block stay")
			}
		}
		seen[name] = true
		e.Count("message handled")
	}
	e.Run(e.NewState(fn, []*Term{nil, e.T.mk(KIface, "", "", mt, true, nil, msg)}))
	for k, f := range role {
		if o := c.roles[k]; o != "" && o != f {
			e0.Report(nil, "roles differ in "+where, fn.Pos(), "%s is kept in %s here and in %s elsewhere", k, f, o)
		}
		c.roles[k] = f
	}
	c.ctx.Absorb(e)
}

func c24Empty(e *Engine, s *State, t *Term) bool {
	return e.Holds(s, e.T.Bin(token.EQL, t, e.T.Str(""), types.Typ[types.Bool]))
}

// c24Outcome: a parameter that carries the outcome of items.
func c24Outcome(t types.Type) bool {
	if isErrT(t) {
		return true
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return c24Outcome(sl.Elem())
	}
	if st, ok := c23Deref(t).Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isErrT(st.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

const (
	c24OK     = "✓"
	c24Failed = "✗"
	c24Gone   = "⊘"
)

func c24Glyph(t *Term) string {
	g := ""
	t.any(func(x *Term) bool {
		if sv, ok := x.StrVal(); ok {
			for _, k := range []string{c24OK, c24Failed, c24Gone} {
				if strings.Contains(sv, k) {
					g = k
				}
			}
		}
		return g != ""
	})
	return g
}

func (c *c24) shown() {
	p := c.p
	in := func(fn *ssa.Function) bool { return p.Rel(fn) == "internal/tui" || p.Rel(fn) == "internal/output" }
	uses := func(fn *ssa.Function, ins ssa.Instruction) bool {
		if !in(fn) {
			return false
		}
		for _, op := range ins.Operands(nil) {
			if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.ContainsAny(constant.StringVal(k.Value), c24OK+c24Failed) {
				return true
			}
		}
		return false
	}
	reach := p.Reaching(uses)
	for _, fn := range p.Funcs {
		if !in(fn) || !reach[fn] || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		carries := false
		for i, prm := range fn.Params {
			if (i > 0 || fn.Signature.Recv() == nil || len(fn.Params) == 1) && c24Outcome(prm.Type()) {
				carries = true
			}
			if i == 0 && fn.Signature.Recv() != nil && c24Outcome(prm.Type()) {
				carries = true
			}
		}
		if carries {
			c.show(fn, in)
		}
	}
}

func (c *c24) show(fn *ssa.Function, in func(*ssa.Function) bool) {
	p := c.p
	where := p.FnName(fn)
	cl := &Client{Name: "C24", KeepFact: func(*Engine, *Term) bool { return true }, Inline: in}
	e := NewEngine(p, cl)
	// the outcomes a path knows about
	outcome := func(s *State) (err *Term, nilness int) {
		var best *Term
		n := 0
		for a := range s.facts {
			a.any(func(x *Term) bool {
				if x.T != nil && isErrT(x.T) && (x.K == KSym || x.K == KFld || x.K == KElem) {
					if k := e.Nilness(s, x); k != 0 && (best == nil || x.K == KElem) {
						best, n = x, k
					}
				}
				return false
			})
		}
		return best, n
	}
	canc := func(s *State, err *Term) (bool, bool) {
		for a, v := range s.facts {
			if a.K == KCall && a.S == "errors.Is" && len(a.A) == 2 && a.A[0] == err {
				return v, true
			}
		}
		return false, false
	}
	// about: something else is known to be true of the outcome
	about := func(s *State, err *Term) bool {
		for a, v := range s.facts {
			if v && a.contains(err) && !(a.K == KBin && a.S == "==" && a.A[1].IsNil()) {
				return true
			}
		}
		return false
	}
	isDone := func(s *State, err *Term) (val, known, has bool) {
		if err == nil || err.K != KFld || c.roles["done"] == "" {
			return false, false, false
		}
		d := e.T.Fld(err.A[0], c.roles["done"], types.Typ[types.Bool])
		v, k := e.Decide(s, d)
		return v, k, true
	}
	var ixs func(t *Term, pos token.Pos) map[*Term]bool
	ixs = func(t *Term, pos token.Pos) map[*Term]bool {
		r := map[*Term]bool{}
		t.any(func(x *Term) bool {
			if x.K == KElem && x.T != nil && isStr(x.T) {
				r[x.A[1]] = true
			}
			return false
		})
		return r
	}
	show := func(s *State, t *Term, pos token.Pos) {
		g := c24Glyph(t)
		if g == "" {
			return
		}
		s.Set("glyph", s.Get("glyph")+g)
		err, n := outcome(s)
		done, dk, hasDone := isDone(s, err)
		if hasDone && !dk {
			done = false
		}
		switch g {
		case c24OK:
			if n != 1 {
				e.Report(s, "success shown in "+where, pos, "an item is shown as successful although it is not known to have ended without an error")
			} else if hasDone && !done {
				e.Report(s, "success shown too early in "+where, pos, "an item is shown as successful before it is done")
			}
		case c24Failed:
			if n != -1 {
				e.Report(s, "failure shown in "+where, pos, "an item is shown as failed although it is not known to have failed")
			} else if hasDone && !done {
				e.Report(s, "failure shown too early in "+where, pos, "an item is shown as failed before it is done")
			} else if v, k := canc(s, err); k && v {
				e.Report(s, "cancelled shown as failed in "+where, pos, "an item that was cancelled is shown as failed")
			}
		case c24Gone:
			if n == 1 && (!hasDone || done) {
				e.Report(s, "success shown as cancelled in "+where, pos, "an item that succeeded is shown as cancelled")
			} else if v, k := canc(s, err); n == -1 && !(k && v) && !about(s, err) && hasDone && done {
				e.Report(s, "failure shown as cancelled in "+where, pos, "an item that failed and is not known to have been cancelled is shown as cancelled")
			} else if n == -1 && k && !v && (!hasDone || done) {
				e.Report(s, "failure shown as cancelled in "+where, pos, "an item that failed is shown as cancelled")
			}
		}
		if err != nil && err.K == KElem {
			for ix := range ixs(t, pos) {
				if ix != err.A[1] {
					e.Report(s, "outcome of another item in "+where, pos, "the label of one item is shown with the outcome of another")
				}
			}
		}
		e.Count("status shown")
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Inline {
			return
		}
		for _, a := range ev.Args {
			if a.K == KConst || a.K == KBin || a.K == KIface || a.K == KSlice {
				x := a
				if a.K == KSlice {
					if v, ok := s.mem[a.A[0]]; ok {
						x = v
					}
					for k, v := range s.mem {
						if k.K == KIndexAddr && k.A[0] == a.A[0] {
							show(s, v, ev.Pos)
						}
					}
				}
				show(s, x, ev.Pos)
			}
		}
	}
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) { s.Set("glyph", ""); s.Set("iter", "1") }
	cl.OnBack = func(e *Engine, s *State, f *Frame, hdr *ssa.BasicBlock) {
		if s.Get("iter") == "" {
			return
		}
		err, n := outcome(s)
		if err == nil || n == 0 || err.K != KElem {
			return
		}
		if s.Get("glyph") == "" {
			e.Report(s, "item left out in "+where, fn.Pos(), "an item is left out of the summary although its outcome is known")
		}
		s.Set("iter", "")
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		for _, r := range ret {
			if r.K == KConst || r.K == KBin {
				show(s, r, fn.Pos())
			}
		}
		err, n := outcome(s)
		if err == nil || err.K == KElem {
			return
		}
		done, dk, hasDone := isDone(s, err)
		if n == 1 && (!hasDone || dk && done) && !strings.Contains(s.Get("glyph"), c24OK) {
			e.Report(s, "success not shown in "+where, fn.Pos(), "an item that is done without error is not shown as such")
		}
		if n == -1 && (!hasDone || dk && done) && s.Get("glyph") == "" {
			e.Report(s, "failure not shown in "+where, fn.Pos(), "an item that is done with an error is not shown as such")
		}
	}
	e.Run(e.NewState(fn, nil))
	c.ctx.Absorb(e)
}

// keys: the key an item is reported under depends on the item.
func (c *c24) keys() {
	p := c.p
	target := map[*ssa.Function]bool{}
	sites := map[*ssa.Function][][]ssa.Value{} // arguments at go statements
	var closure func(v ssa.Value) *ssa.Function
	closure = func(v ssa.Value) *ssa.Function {
		switch x := v.(type) {
		case *ssa.Function:
			return x
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function)
		}
		return nil
	}
	isGo := func(ins ssa.Instruction) (*ssa.Function, []ssa.Value) {
		switch x := ins.(type) {
		case *ssa.Go:
			f := x.Call.StaticCallee()
			if f == nil {
				f = closure(x.Call.Value)
			}
			return f, x.Call.Args
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && f.Name() == "Go" && len(x.Call.Args) == 2 && !p.InRepo(f) {
				return closure(x.Call.Args[1]), nil
			}
		}
		return nil, nil
	}
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/runner" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if f, args := isGo(ins); f != nil {
					target[f] = true
					sites[f] = append(sites[f], args)
				}
			}
		}
	}
	starts := p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
		f, _ := isGo(ins)
		return f != nil && p.Rel(fn) == "internal/runner"
	})
	inner := map[*ssa.Function]bool{}
	var q []*ssa.Function
	for f := range target {
		inner[f] = true
		q = append(q, f)
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		add := func(g *ssa.Function) {
			if g != nil && g.Blocks != nil && p.InRepo(g) && !inner[g] && !starts[g] {
				inner[g] = true
				q = append(q, g)
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					g := ci.Common().StaticCallee()
					add(g)
					if g != nil && inner[g] {
						if _, isG := ins.(*ssa.Go); !isG {
							sites[g] = append(sites[g], ci.Common().Args)
						}
					}
					for _, a := range ci.Common().Args {
						add(closure(a))
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	binds := map[*ssa.FreeVar][]ssa.Value{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					for i, fv := range g.FreeVars {
						binds[fv] = append(binds[fv], mc.Bindings[i])
					}
				}
			}
		}
	}
	varies := func(v ssa.Value) bool {
		seen := map[ssa.Value]bool{}
		found := false
		var walk func(v ssa.Value)
		var into func(v ssa.Value) // what is stored in the memory v leads to
		into = func(v ssa.Value) {
			if v.Referrers() == nil {
				return
			}
			for _, r := range *v.Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					if x.Addr == v {
						walk(x.Val)
					}
				case *ssa.IndexAddr:
					if x.X == v {
						into(x)
					}
				case *ssa.FieldAddr:
					into(x)
				case *ssa.Slice:
					into(x)
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && x.Call.Args[0] == v {
						walk(x.Call.Args[1])
					}
				}
			}
		}
		walk = func(v ssa.Value) {
			if found || v == nil || seen[v] {
				return
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Phi:
				if _, ok := p.Loops(x.Parent()).header[x.Block()]; ok {
					found = true
					return
				}
				for _, e := range x.Edges {
					walk(e)
				}
			case *ssa.Next:
				found = true
			case *ssa.Parameter:
				if !inner[x.Parent()] {
					return
				}
				for _, args := range sites[x.Parent()] {
					if i := paramIndex(x.Parent(), x); i >= 0 && i < len(args) {
						walk(args[i])
					}
				}
			case *ssa.FreeVar:
				for _, b := range binds[x] {
					walk(b)
					into(b)
				}
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
				into(v)
			case *ssa.UnOp:
				walk(x.X)
			case ssa.Instruction:
				for _, op := range x.Operands(nil) {
					if *op != nil {
						if _, isF := (*op).(*ssa.Function); !isF {
							walk(*op)
						}
					}
				}
				if c, ok := v.(*ssa.Call); ok {
					_ = c
				} else {
					switch v.(type) {
					case *ssa.Slice, *ssa.FieldAddr, *ssa.IndexAddr:
						into(v)
					}
				}
			}
		}
		walk(v)
		return found
	}
	doneShape, regShape := map[string]bool{}, map[string]bool{}
	var regPos token.Pos
	c.order(varies)
	for _, fn := range p.Funcs {
		if p.Rel(fn) == "internal/runner" {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if mi, ok := ins.(*ssa.MakeInterface); ok && p.uiMsg(mi.X.Type()) == "ItemRegisterMsg" {
						for _, k := range c24Key(mi.X) {
							c.shape(k, inner, sites, binds, regShape)
							regPos = mi.Pos()
						}
					}
				}
			}
		}
		if !inner[fn] || p.Rel(fn) != "internal/runner" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				mi, ok := ins.(*ssa.MakeInterface)
				if !ok || p.uiMsg(mi.X.Type()) != "ItemDoneMsg" {
					continue
				}
				for _, k := range c24Key(mi.X) {
					c.e.Funcs[fn] = true
					c.shape(k, inner, sites, binds, doneShape)
					if varies(k) {
						c.e.Count("key of an item")
						continue
					}
					c.e.Report(nil, "key does not depend on the item in "+p.FnName(fn), mi.Pos(), "the items of a parallel block are reported under a key that does not depend on which item it is: the outcome of one replaces that of another")
				}
			}
		}
	}
	if len(doneShape) == 0 {
		return
	}
	for f := range doneShape {
		if f == "join-empty" {
			c.e.Report(nil, "keys run together", regPos, "the key of an item is put together from several numbers with nothing between them: two items can have the same key")
		}
	}
	if len(regShape) > 0 {
		for f := range regShape {
			if !doneShape[f] {
				c.e.Report(nil, "registered under another key", regPos, "the items of a nested block are registered under a key that is made in another way (%s) than the one they are reported under", f)
			}
		}
		for f := range doneShape {
			if !regShape[f] {
				c.e.Report(nil, "registered under another key", regPos, "the items of a nested block are reported under a key that is made in another way (%s) than the one they are registered under", f)
			}
		}
		c.e.Count("key of an item")
	}
	// the items a view starts with
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/tui" {
			continue
		}
		lists := false
		for _, prm := range fn.Params {
			if sl, ok := prm.Type().Underlying().(*types.Slice); ok {
				if n, ok := types.Unalias(sl.Elem()).(*types.Named); ok && n.Obj().Pkg() == fn.Pkg.Pkg {
					lists = true
				}
			}
		}
		if !lists {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok || !isStr(mu.Key.Type()) {
					continue
				}
				sh := map[string]bool{}
				c.shape(mu.Key, inner, sites, binds, sh)
				for f := range sh {
					if !doneShape[f] {
						c.e.Report(nil, "known under another key in "+p.FnName(fn), mu.Pos(), "the items of a view are known under a key that is made in another way (%s) than the one they are reported under", f)
					}
				}
				if !varies(mu.Key) {
					c.e.Report(nil, "one key for all in "+p.FnName(fn), mu.Pos(), "the items of a view are known under a key that does not depend on the item")
				}
				c.e.Count("key of an item")
			}
		}
	}
}

// c24Index: the index of a loop itself.
func c24Index(v ssa.Value) bool {
	if _, ok := v.(*ssa.Phi); ok {
		return true
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	ph, ok := b.X.(*ssa.Phi)
	return ok && ph.Comment == "rangeindex"
}

// order: what belongs to item i is put at place i.
func (c *c24) order(varies func(ssa.Value) bool) {
	p := c.p
	for _, fn := range p.Funcs {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		rel := p.Rel(fn)
		if !(rel == "internal/runner" && c24Views(p, top)) && !(rel == "internal/tui" && strings.HasPrefix(strings.ToLower(fn.Name()), "new")) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ia, ok := ins.(*ssa.IndexAddr)
				if !ok || ia.Referrers() == nil {
					continue
				}
				stored := false
				for _, r := range *ia.Referrers() {
					switch x := r.(type) {
					case *ssa.Store:
						stored = stored || x.Addr == ia
					case *ssa.FieldAddr:
						for _, r2 := range *x.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == x {
								stored = true
							}
						}
					}
				}
				if bo, is := ia.Index.(*ssa.BinOp); is && stored && !c24Index(bo) && varies(bo) {
					c.e.Report(nil, "items out of order in "+p.FnName(fn), ia.Pos(), "what belongs to one item of a parallel block is put at the place of another")
				}
			}
		}
	}
}

// c24Views: the function sends messages or opens a view.
func c24Views(p *Prog, fn *ssa.Function) bool {
	if sendsMsg(p)[fn] {
		return true
	}
	for _, g := range fn.AnonFuncs {
		if c24Views(p, g) {
			return true
		}
	}
	return false
}

// shape: how a key is made, down to the calls and constants.
func (c *c24) shape(v ssa.Value, inner map[*ssa.Function]bool, sites map[*ssa.Function][][]ssa.Value, binds map[*ssa.FreeVar][]ssa.Value, out map[string]bool) {
	p := c.p
	seen := map[ssa.Value]bool{}
	var walk, into func(v ssa.Value)
	into = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					walk(x.Val)
				}
			case *ssa.IndexAddr:
				if x.X == v {
					into(x)
				}
			case *ssa.Slice:
				into(x)
			case *ssa.MakeInterface:
				into(x)
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && !p.InRepo(g) && len(x.Call.Args) > 1 && x.Call.Args[0] == v && (strings.HasPrefix(g.Name(), "Write") || strings.HasPrefix(g.Name(), "Fprint") || strings.HasPrefix(g.Name(), "Append")) {
					for _, a := range x.Call.Args[1:] {
						walk(a)
					}
					if strings.HasPrefix(g.Name(), "Fprint") || strings.HasPrefix(g.Name(), "AppendInt") {
						out["number"] = true
					}
				}
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && x.Call.Args[0] == v {
					walk(x.Call.Args[1])
				}
			}
		}
	}
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if c24Index(v) {
			if ph, ok := v.(*ssa.Phi); ok {
				if _, hdr := p.Loops(ph.Parent()).header[ph.Block()]; hdr && !isStr(ph.Type()) {
					return
				}
				for _, e := range ph.Edges {
					walk(e)
				}
			}
			return
		}
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String && strings.Trim(constant.StringVal(x.Value), "%dvs") != "" {
				out["const "+x.Value.String()] = true
			}
		case *ssa.BinOp:
			out[x.Op.String()+" on "+x.X.Type().String()] = true
			walk(x.X)
			walk(x.Y)
		case *ssa.Parameter:
			if !inner[x.Parent()] {
				return
			}
			for _, args := range sites[x.Parent()] {
				if i := paramIndex(x.Parent(), x); i >= 0 && i < len(args) {
					walk(args[i])
				}
			}
		case *ssa.FreeVar:
			for _, b := range binds[x] {
				walk(b)
				into(b)
			}
		case *ssa.Alloc, *ssa.MakeSlice:
			into(v)
		case *ssa.IndexAddr:
			walk(x.X)
		case *ssa.FieldAddr:
			walk(x.X)
		case *ssa.UnOp:
			walk(x.X)
		case *ssa.Slice:
			walk(x.X)
			into(v)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					for _, a := range x.Call.Args {
						walk(a)
					}
				}
				return
			}
			g := x.Call.StaticCallee()
			for _, a := range x.Call.Args {
				walk(a)
			}
			switch {
			case g == nil:
				out["call"] = true
			case p.InRepo(g) && g.Blocks != nil:
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						if r, ok := ins.(*ssa.Return); ok {
							for _, rv := range r.Results {
								walk(rv)
							}
						}
					}
				}
			default:
				n := g.RelString(nil)
				switch {
				case n == "strconv.Itoa" || strings.HasPrefix(n, "strconv.Format") || strings.HasPrefix(n, "fmt.Sprint"):
					n = "number"
				case n == "strings.Join":
					if k, ok := x.Call.Args[1].(*ssa.Const); ok && k.Value != nil && constant.StringVal(k.Value) == "" {
						out["join-empty"] = true
					}
				case strings.HasPrefix(n, "slices."):
					return
				}
				if n == "number" || strings.HasPrefix(n, "strings.") && n != "strings.Join" {
					out[n] = true
				}
			}
		case ssa.Instruction:
			for _, op := range x.Operands(nil) {
				if *op != nil {
					walk(*op)
				}
			}
		}
	}
	walk(v)
}

// c24Key: the values given as Key of a message.
func c24Key(v ssa.Value) []ssa.Value {
	var r []ssa.Value
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	if u.X.Referrers() == nil {
		return nil
	}
	for _, ref := range *u.X.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok && fieldKeyName(fa) == "Key" {
			for _, st := range *fa.Referrers() {
				if s, ok := st.(*ssa.Store); ok && s.Addr == fa {
					r = append(r, s.Val)
				}
			}
		}
	}
	return r
}

func fieldKeyName(fa *ssa.FieldAddr) string {
	return c23Deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
}
