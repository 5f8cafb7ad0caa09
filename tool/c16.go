package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C16",
		Technique: "path-sensitive simulation over SSA of the line writers with symbolic text: conservation of the bytes written, one emission per line under a lock, an inferred character filter, and flush-before-done typestate",
		Explain:   "For every writer the runner hands to parallel items: on every path of Write, the bytes kept from before and the new ones are cut at the first newline, what is before it is shown exactly once behind the writer's label in one go while the lock is held, the search goes on right after it, and what is left without newline is kept (in storage of its own); all bytes are reported as taken. Flushing shows what is kept, once, and empties it. Functions the text passes through return it, its part after the last carriage return that is not at its end, or a filtered copy in which each piece is either copied or known to be a control sequence other than a colour, and none of these is copied. Writers of one block share a lock made outside the loop. Each writer is flushed after its item ends and before the item is reported as done.",
		Run:       runC16,
		Floors:    map[string]int{"line shown": 2, "rest kept": 2, "rest flushed": 2, "text overwritten": 1, "piece copied": 2, "control left out": 2, "flushed before done": 3, "shared lock": 2, "item listed with its label": 1},
	})
}

func runC16(c *Ctx) {
	for _, goos := range c.goosList() {
		c16(c, goos)
	}
}

// lineWriters: the types of the runner that are writers with a way to flush.
func lineWriters(p *Prog) map[*types.Named][2]*ssa.Function {
	out := map[*types.Named][2]*ssa.Function{}
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/runner" || fn.Name() != "Write" || fn.Signature.Recv() == nil || fn.Synthetic != "" {
			continue
		}
		ps, rs := fn.Signature.Params(), fn.Signature.Results()
		if ps.Len() != 1 || rs.Len() != 2 || !isErrT(rs.At(1).Type()) {
			continue
		}
		n, ok := types.Unalias(deref(fn.Signature.Recv().Type())).(*types.Named)
		if !ok {
			continue
		}
		w := [2]*ssa.Function{fn, nil}
		for _, g := range p.Funcs {
			if g.Signature.Recv() == nil || g.Synthetic != "" || g == fn || g.Signature.Params().Len() != 0 || g.Signature.Results().Len() > 1 {
				continue
			}
			if m, ok := types.Unalias(deref(g.Signature.Recv().Type())).(*types.Named); ok && m == n {
				if rs := g.Signature.Results(); rs.Len() == 0 || isErrT(rs.At(0).Type()) {
					w[1] = g
				}
			}
		}
		out[n] = w
	}
	return out
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func isBytesT(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// textFn: a repository function from text (and flags) to text.
func textFn(p *Prog, fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil || len(p.Loops(fn).header) == 0 || !p.InRepo(fn) || fn.Signature.Recv() != nil || fn.Parent() != nil {
		return false
	}
	ps, rs := fn.Signature.Params(), fn.Signature.Results()
	if rs.Len() != 1 || !isStringT(rs.At(0).Type()) || ps.Len() == 0 || !isStringT(ps.At(0).Type()) {
		return false
	}
	for i := 1; i < ps.Len(); i++ {
		if !isBoolT(ps.At(i).Type()) {
			return false
		}
	}
	return true
}

func textFns(p *Prog) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, fn := range p.Funcs {
		if textFn(p, fn) {
			out[p.FnName(fn)] = fn
		}
	}
	return out
}

func c16(c *Ctx, goos string) {
	p := c.Prog(goos)
	c.GOOSList = append(c.GOOSList, goos)
	ws := lineWriters(p)
	var names []*types.Named
	for n := range ws {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].String() < names[j].String() })
	tx := &texter{c: c, p: p, byName: textFns(p), memo: map[*ssa.Function]*textKind{}}
	for _, n := range names {
		w := ws[n]
		c16Writer(c, p, w[0], true, tx)
		if w[1] == nil {
			c.Violate("no flush: "+n.Obj().Name(), p.Pos(w[0].Pos()), "%s has no way to flush an incomplete last line", n.Obj().Name())
			continue
		}
		c16Writer(c, p, w[1], false, tx)
	}
	c16Use(c, p, ws)
	labelPairs(c, p)
	c16Log(c, p)
}

// crCut: the bytes before or after a newline.
func isNL(t *Term) bool {
	if n, ok := t.IntVal(); ok {
		return n == '\n'
	}
	if v, ok := t.StrVal(); ok {
		return v == "\n"
	}
	return false
}

func c16Writer(c *Ctx, p *Prog, root *ssa.Function, write bool, tx *texter) {
	cl := &Client{Name: "C16", CollapseErr: true}
	cl.Inline = func(f *ssa.Function) bool { return p.Rel(f) == p.Rel(root) && !textFn(p, f) && !p.OnCycle(f) }
	e := NewEngine(p, cl)
	cl.KeepFact = func(e *Engine, a *Term) bool { return true }
	byName := tx.byName
	recv := (*Term)(nil)
	var param *Term
	name := p.FnName(root)
	var kept *Term // what was kept from before
	var keptAddr *Term
	ofRecv := func(t *Term) bool { return t.contains(recv) }
	isKept := func(t *Term) bool {
		if kept != nil {
			return t == kept
		}
		if t.K == KFld && isBytesT(t.T) && ofRecv(t) {
			kept = t
			return true
		}
		return false
	}
	// rest: what is still to be cut
	var rest func(t *Term, d int) bool
	nlIndex := func(t, of *Term) bool {
		return t.K == KCall && (t.S == "bytes.IndexByte" || t.S == "bytes.IndexRune" || t.S == "bytes.IndexAny") && t.A[0] == of && isNL(t.A[1])
	}
	after := func(t, of *Term) bool {
		if t.K == KSub && t.A[0] == of && t.A[1].K == KBin && t.A[1].S == "+" && (t.A[2].IsNil() || t.A[2].K == KLen && t.A[2].A[0] == of) {
			x, y := t.A[1].A[0], t.A[1].A[1]
			if y.S != "1" {
				x, y = y, x
			}
			return y.S == "1" && nlIndex(x, of)
		}
		return t.K == KExt && t.S == "1" && t.A[0].K == KCall && t.A[0].S == "bytes.Cut" && t.A[0].A[0] == of
	}
	before := func(t *Term) *Term {
		if t.K == KSub && (t.A[1].IsNil() || t.A[1].S == "0") && nlIndex(t.A[2], t.A[0]) {
			return t.A[0]
		}
		if t.K == KExt && t.S == "0" && t.A[0].K == KCall && t.A[0].S == "bytes.Cut" {
			return t.A[0].A[0]
		}
		return nil
	}
	rest = func(t *Term, d int) bool {
		if d > 8 {
			return false
		}
		if t.K == KAppend && len(t.A) == 2 && t.A[1] == param && isKept(t.A[0]) {
			return true
		}
		if li := e.Loops[t]; li != nil {
			if len(li.Entry) == 0 {
				return false
			}
			for x := range li.Entry {
				if !rest(x, d+1) {
					return false
				}
			}
			for x := range li.Back {
				if x != t && !after(x, t) {
					return false
				}
			}
			return true
		}
		// unrolled
		if t.K == KSub && rest(t.A[0], d+1) {
			return after(t, t.A[0])
		}
		return false
	}
	// line: what bytes a shown line is made from; why it is no rendering of them
	line := func(s *State, t *Term) (src *Term, why string) {
		var chain []*ssa.Function // outermost first
		strippedAt := -1
		cr := false
		crIndex := func(t, of *Term) bool {
			return t.K == KCall && strings.HasPrefix(t.S, "strings.LastIndex") && t.A[0] == of && isCR(t.A[1])
		}
		noCR := func(of *Term) bool {
			for a, v := range s.facts {
				if !v && a.K == KCall && strings.HasPrefix(a.S, "strings.Contains") && a.A[0] == of && isCR(a.A[1]) {
					return true
				}
				if a.K == KBin && len(a.A) == 2 && (crIndex(a.A[0], of) || crIndex(a.A[1], of)) {
					if has, ok := signOf(a, v, crIndex(a.A[1], of)); ok && !has {
						return true
					}
				}
			}
			return false
		}
		for i := 0; i < 20; i++ {
			switch {
			case t.K == KCall && byName[t.S] != nil && !cr:
				chain = append(chain, byName[t.S])
				t = t.A[0]
			case t.K == KCall && strings.HasSuffix(t.S, "ansi.Strip") && !cr:
				on := false
				for a, v := range s.facts {
					on = on || v && a.K == KFld && isBoolT(a.T) && ofRecv(a)
				}
				if !on {
					return t, "colours are taken out of it though it is not known that they should be"
				}
				strippedAt = len(chain)
				t = t.A[0]
			case t.K == KSub && t.A[2].IsNil() && t.A[1].K == KBin && t.A[1].S == "+" && !cr:
				x, y := t.A[1].A[0], t.A[1].A[1]
				if y.S != "1" {
					x, y = y, x
				}
				if y.S != "1" || !crIndex(x, t.A[0]) {
					return t, ""
				}
				e.Count("text overwritten")
				cr = true
				t = t.A[0]
			case t.K == KCall && t.S == "strings.TrimRight" && len(t.A) == 2 && isCR(t.A[1]):
				if !cr && !noCR(t) {
					return t, "text before a carriage return can stay in it"
				}
				cr = true
				t = t.A[0]
				for t.K == KConv && len(t.A) == 1 {
					t = t.A[0]
				}
				k := textKind{}
				for j := len(chain); j >= 0; j-- {
					if j == strippedAt {
						k = textKind{true, true}
					}
					if j > 0 {
						g, ok := tx.through(chain[j-1], k)
						if !ok {
							return t, "control characters are taken out before sequences are looked for"
						}
						k = g
					}
				}
				if !k.seq || !k.ctl {
					return t, "control sequences can stay in it"
				}
				return t, ""
			default:
				if before(t) != nil || isKept(t) || t.K == KConv {
					switch {
					case !cr:
						return t, "text before a carriage return can stay in it"
					default:
						return t, "the text of a line that ends in a carriage return is lost"
					}
				}
				return t, ""
			}
		}
		return t, ""
	}
	const found = "1"
	locks := func(s *State) bool { return s.Get("lk") != "" }
	emit := func(s *State, pos tokenPos, pieces []*Term, send bool) {
		if !locks(s) {
			e.Report(s, "shown without lock", pos, "%s can show text without holding its lock", name)
		}
		if s.Get("own") != "" && !send {
			e.Report(s, "lock of its own", pos, "%s writes to a shared destination under a lock of its own", name)
		}
		// label, text, newline
		st := s.Get("out")
		for _, x := range pieces {
			tag := ""
			src, why := line(s, x)
			switch {
			case x.K == KConst && x.S == `"\n"`:
				tag = "N"
			case x.K == KConst && x.S == `""`:
				continue
			case x.K == KFld && isStringT(x.T) && ofRecv(x):
				tag = "P"
			case why != "":
				e.Report(s, "line altered: "+why, pos, "%s shows a line other than as written: %s", name, why)
				return
			case write && before(src) != nil && rest(before(src), 0):
				tag = "L"
				if s.Get("pend") != found || s.vals["rest"] != before(src) {
					e.Report(s, "line shown twice", pos, "%s can show a line again", name)
				}
			case !write && isKept(src):
				tag = "L"
			default:
				e.Report(s, "foreign text shown", pos, "%s shows %s, which is not a line written", name, x)
				return
			}
			st += tag
		}
		if !strings.HasPrefix("PLN", st) {
			e.Report(s, "line shown wrongly", pos, "%s does not show the label, the line and a newline, in this order (%s)", name, st)
			return
		}
		s.Set("out", st)
		if st == "PLN" {
			s.Set("out", "")
			s.Set("pend", "")
			s.Set("n", s.Get("n")+"1")
			if write {
				s.Set("n", "1")
			}
		}
	}
	settle := func(s *State, pos tokenPos) {
		if s.Get("pend") == found {
			e.Report(s, "line lost", pos, "%s can pass over a line without showing it", name)
		}
		if s.Get("out") != "" {
			e.Report(s, "line incomplete", pos, "%s can leave a line incomplete", name)
		}
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
		r, hit := cutFound(a, v)
		if r == nil || !rest(r, 0) {
			return
		}
		if hit {
			s.Set("pend", found)
			s.vals["rest"] = r
		} else {
			s.vals["tail"] = r
		}
	}
	cl.OnStore = func(e *Engine, s *State, addr, val *Term, pos tokenPos) {
		if isBytesT(val.T) || isBytesT(ptrElem(addr.T)) {
			if addr.K == KFieldAddr && ofRecv(addr) {
				keptAddr = addr
				if !locks(s) {
					e.Report(s, "kept without lock", pos, "%s can change what is kept without holding its lock", name)
				}
			}
		}
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Inline {
			return
		}
		switch ev.Name {
		case "(*sync.Mutex).Lock":
			if ofRecv(ev.Args[0]) {
				s.Set("lk", "1")
				s.Set("own", "")
				if ev.Args[0].K == KFieldAddr {
					s.Set("own", "1")
				}
			}
		case "(*sync.Mutex).Unlock":
			s.Set("lk", "")
			if s.Get("out") != "" {
				e.Report(s, "line torn", ev.Pos, "%s can let go of its lock within a line", name)
			}
		case "bytes.IndexByte", "bytes.Cut", "bytes.IndexRune", "bytes.IndexAny":
			if rest(ev.Args[0], 0) {
				settle(s, ev.Pos)
			}
		case "fmt.Fprintln", "fmt.Fprint", "fmt.Fprintf", "io.WriteString", "(io.Writer).Write", "invoke (io.Writer).Write":
			var ps []*Term
			args := e.flat(s, ev.Args[1:])
			switch ev.Name {
			case "fmt.Fprintln":
				for i, a := range args {
					if i > 0 {
						ps = append(ps, e.T.Str(" "))
					}
					ps = append(ps, e.concat(s, a)...)
				}
				ps = append(ps, e.T.Str("\n"))
			case "fmt.Fprintf":
				f, _ := args[0].StrVal()
				k := 1
				for len(f) > 0 {
					i := strings.Index(f, "%s")
					if i < 0 {
						ps = append(ps, e.T.Str(f))
						break
					}
					if i > 0 {
						ps = append(ps, e.T.Str(f[:i]))
					}
					if k < len(args) {
						ps = append(ps, e.concat(s, args[k])...)
						k++
					}
					f = f[i+2:]
				}
			default:
				for _, a := range args {
					for a.K == KConv {
						a = a.A[0]
					}
					ps = append(ps, e.concat(s, a)...)
				}
			}
			emit(s, ev.Pos, ps, false)
			e.splitErr(s, ev, nil, func(s *State) { s.Set("fail", "1") })
		case "(*" + teaPkg + ".Program).Send":
			m := strip(ev.Args[1])
			var ps []*Term
			if st := structOf(m.T); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if isStringT(st.Field(i).Type()) {
						ps = append(ps, fieldTerm(e, m, st.Field(i).Name()))
					}
				}
			}
			sort.SliceStable(ps, func(i, j int) bool { return ps[i].K == KFld && ps[j].K != KFld })
			emit(s, ev.Pos, append(ps, e.T.Str("\n")), true)
		}
	}
	empty := func(t *Term) bool {
		return t.IsNil() || t.K == KSub && (t.A[1].IsNil() || t.A[1].S == "0") && t.A[2].S == "0"
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if locks(s) {
			e.Report(s, "lock kept", root.Pos(), "%s can end without letting go of its lock", name)
		}
		if s.Get("fail") != "" {
			if len(ret) > 0 && e.Nilness(s, ret[len(ret)-1]) != -1 {
				e.Report(s, "failure lost", root.Pos(), "%s can succeed although showing a line failed", name)
			}
			return
		}
		settle(s, root.Pos())
		var now *Term
		if keptAddr != nil {
			now = e.load(s, keptAddr, ptrElem(keptAddr.T))
		}
		if write {
			if ret[0] != e.T.Len(param) {
				e.Report(s, "bytes not taken", root.Pos(), "%s reports %s bytes as written, not all", name, ret[0])
			}
			if e.Nilness(s, ret[1]) != 1 {
				e.Report(s, "error made up", root.Pos(), "%s can fail although nothing went wrong", name)
			}
			if s.Get("n") != "" {
				e.Count("line shown")
			}
			switch tail := s.vals["tail"]; {
			case now == nil:
				e.Report(s, "rest lost", root.Pos(), "%s keeps nothing of an incomplete line", name)
			case tail == nil:
				if !empty(now) {
					if ok := restEmpty(e, s, rest); !ok || !rest(now, 0) {
						e.Report(s, "line kept", root.Pos(), "%s can keep %s although every line was shown", name, now)
						return
					}
				}
				if !restEmpty(e, s, rest) {
					e.Report(s, "rest not looked at", root.Pos(), "%s can end before all lines were shown", name)
				}
			case now.K == KAppend && len(now.A) == 2 && now.A[1] == tail && empty(now.A[0]),
				now.K == KCall && (now.S == "bytes.Clone" || now.S == "slices.Clone") && now.A[0] == tail,
				now == tail:
				e.Count("rest kept")
			default:
				e.Report(s, "rest lost", root.Pos(), "%s keeps %s of an incomplete line instead of all of it", name, now)
			}
			return
		}
		isEmpty, known := false, false
		for a, v := range s.facts {
			if a.K == KBin && a.S == "==" && a.A[0].K == KLen && isKept(a.A[0].A[0]) && a.A[1].S == "0" {
				isEmpty, known = v, true
			}
		}
		switch {
		case s.Get("n") == "" && !(known && isEmpty):
			e.Report(s, "rest not flushed", root.Pos(), "%s can leave an incomplete last line unshown", name)
		case s.Get("n") == "1" && (now == nil || !empty(now)):
			e.Report(s, "rest flushed twice", root.Pos(), "%s leaves %s behind: a second flush shows it again", name, now)
		case s.Get("n") == "1" && !(known && !isEmpty):
			e.Report(s, "empty line flushed", root.Pos(), "%s can show a line although nothing was kept", name)
		case s.Get("n") == "1":
			e.Count("rest flushed")
		case s.Get("n") != "":
			e.Report(s, "rest flushed twice", root.Pos(), "%s can show the last line twice", name)
		}
	}
	s := e.NewState(root, nil)
	recv = s.top().env[root.Params[0]]
	if write {
		param = s.top().env[root.Params[1]]
	}
	e.Run(s)
	c.Absorb(e)
}

// cutFound: whether the branch says that t has a newline.
func cutFound(a *Term, v bool) (*Term, bool) {
	if a.K == KExt && a.S == "2" && a.A[0].K == KCall && a.A[0].S == "bytes.Cut" {
		return a.A[0].A[0], v
	}
	if a.K != KBin || len(a.A) != 2 {
		return nil, false
	}
	x, y := a.A[0], a.A[1]
	if x.K == KConst {
		x = y
	}
	if x.K != KCall || !strings.HasPrefix(x.S, "bytes.Index") || !isNL(x.A[1]) {
		return nil, false
	}
	if has, ok := signOf(a, v, x == a.A[1]); ok {
		return x.A[0], has
	}
	return nil, false
}

// signOf: what a comparison of an index with a constant says about whether
// something was found.
func signOf(a *Term, v bool, right bool) (has, ok bool) {
	y, op := a.A[1], a.S
	if right {
		y = a.A[0]
		op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
	}
	switch op + y.S {
	case "<0", "==-1", "<=-1":
		return !v, true
	case ">=0", "!=-1", ">-1":
		return v, true
	}
	return false, false
}

func restEmpty(e *Engine, s *State, rest func(t *Term, d int) bool) bool {
	for a, v := range s.facts {
		if y := emptyFact(a, v); y != nil && rest(y, 0) {
			return true
		}
	}
	return false
}

// emptyFact: what a fact says is empty.
func emptyFact(a *Term, v bool) *Term {
	if a.K != KBin || len(a.A) != 2 {
		return nil
	}
	switch {
	case a.S == "==" && v && a.A[0].K == KLen && a.A[1].S == "0":
		return a.A[0].A[0]
	case a.S == "==" && v && a.A[1].S == `""`:
		return a.A[0]
	case a.S == "<" && !v && a.A[1].K == KLen && a.A[0].S == "0":
		return a.A[1].A[0]
	}
	return nil
}

func isCR(t *Term) bool {
	if n, ok := t.IntVal(); ok {
		return n == '\r'
	}
	v, ok := t.StrVal()
	return ok && v == "\r"
}

// textKind: what a function that text passes through takes out: sequences
// other than colours, and control characters.
type textKind struct{ seq, ctl bool }

func (a textKind) and(b textKind) textKind { return textKind{a.seq && b.seq, a.ctl && b.ctl} }

type texter struct {
	c      *Ctx
	p      *Prog
	byName map[string]*ssa.Function
	memo   map[*ssa.Function]*textKind
}

func (x *texter) kind(fn *ssa.Function) textKind {
	if k := x.memo[fn]; k != nil {
		return *k
	}
	k := &textKind{}
	x.memo[fn] = k
	*k = x.text(fn)
	return *k
}

// through: the kind of text that passed fn after it was of kind k.
func (x *texter) through(fn *ssa.Function, k textKind) (textKind, bool) {
	g := x.kind(fn)
	if g.seq && k.ctl && !k.seq {
		return g, false
	}
	return textKind{g.seq || k.seq, g.ctl || k.ctl}, true
}

// mustDrop, mustKeep: what becomes of a character outside sequences.
func mustDrop(r int64) bool { return r < 0x20 && r != '\t' && r != 0x1b }
func mustKeep(r int64) bool { return !mustDrop(r) && (r < 0x7f || r > 0x9f) }

// runeReps: one character for each interval the facts about r distinguish.
func runeReps(facts map[*Term]bool, r *Term) []int64 {
	set := map[int64]bool{}
	add := func(n int64) {
		for _, m := range []int64{n - 1, n, n + 1} {
			if m >= 0 && m <= 0x10ffff {
				set[m] = true
			}
		}
	}
	for _, n := range []int64{0, '\b', '\t', '\n', '\r', 0x1b, 0x20, 'A', 0x7f, 0x9b, 0xa0, 0xe9, 0x4e2d, 0x1f600} {
		add(n)
	}
	for a := range facts {
		if a.contains(r) {
			a.any(func(y *Term) bool {
				if n, ok := y.IntVal(); ok {
					add(n)
				}
				return false
			})
		}
	}
	var out []int64
	for n := range set {
		ok := true
		for a, v := range facts {
			if b, known := runeFact(a, r, n); known && b != v {
				ok = false
			}
		}
		if ok {
			out = append(out, n)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func runeFact(a, r *Term, n int64) (bool, bool) {
	peel := func(t *Term) *Term {
		for t.K == KConv && len(t.A) == 1 {
			t = t.A[0]
		}
		return t
	}
	if a.K == KCall && len(a.A) == 1 && peel(a.A[0]) == r {
		switch a.S {
		case "unicode.IsControl":
			return unicode.IsControl(rune(n)), true
		case "unicode.IsPrint":
			return unicode.IsPrint(rune(n)), true
		case "unicode.IsGraphic":
			return unicode.IsGraphic(rune(n)), true
		case "unicode.IsSpace":
			return unicode.IsSpace(rune(n)), true
		}
	}
	if a.K != KBin || len(a.A) != 2 {
		return false, false
	}
	val := func(t *Term) (int64, bool) {
		if peel(t) == r {
			return n, true
		}
		return t.IntVal()
	}
	x, ok1 := val(a.A[0])
	y, ok2 := val(a.A[1])
	if !ok1 || !ok2 {
		return false, false
	}
	switch a.S {
	case "<":
		return x < y, true
	case "<=":
		return x <= y, true
	case ">":
		return x > y, true
	case ">=":
		return x >= y, true
	case "==":
		return x == y, true
	case "!=":
		return x != y, true
	}
	return false, false
}

// runeFn runs a function of one character and calls f for each of its paths.
func (x *texter) runeFn(fn *ssa.Function, f func(e *Engine, s *State, r, ret *Term)) bool {
	if fn == nil || fn.Blocks == nil || len(fn.Params) != 1 {
		return false
	}
	cl := &Client{Name: "C16", Inline: func(g *ssa.Function) bool { return x.p.Rel(g) == x.p.Rel(fn) && !x.p.OnCycle(g) }}
	cl.KeepFact = func(e *Engine, a *Term) bool { return true }
	e := NewEngine(x.p, cl)
	var r *Term
	n := 0
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		n++
		f(e, s, r, ret[0])
	}
	s := e.NewState(fn, nil)
	r = s.top().env[fn.Params[0]]
	e.Run(s)
	x.c.Absorb(e)
	return n > 0
}

// findsControl: the predicate holds for every character that is to be left out.
func (x *texter) findsControl(f *Term) bool {
	good := true
	ok := x.runeFn(f.Fn, func(e *Engine, s *State, r, ret *Term) {
		for _, v := range []bool{true, false} {
			u := s.clone()
			if !e.Assume(u, ret, v) {
				continue
			}
			for _, n := range runeReps(u.facts, r) {
				if !v && mustDrop(n) {
					good = false
				}
			}
		}
	})
	return ok && good
}

const ansiPkg = "github.com/charmbracelet/x/ansi"

func (x *texter) text(root *ssa.Function) textKind {
	p, c := x.p, x.c
	name := p.FnName(root)
	cl := &Client{Name: "C16", CollapseErr: true}
	cl.Inline = func(f *ssa.Function) bool {
		return p.Rel(f) == p.Rel(root) && x.byName[p.FnName(f)] == nil && !p.OnCycle(f)
	}
	cl.KeepFact = func(e *Engine, a *Term) bool { return true }
	e := NewEngine(p, cl)
	var param *Term
	res := textKind{true, true}
	inputs := map[*Term]bool{}
	calls := map[*Term]*Term{} // input -> decoding
	ansiIs := func(s *State, what string, seq *Term) (bool, bool) {
		for a, v := range s.facts {
			if a.K == KCall && strings.HasPrefix(a.S, ansiPkg+".") && strings.TrimPrefix(baseName(a.S), "Has") == what+"Prefix" && len(a.A) > 0 && a.A[0] == seq {
				return v, true
			}
		}
		return false, false
	}
	colour := func(s *State) (bool, bool) {
		for a, v := range s.facts {
			if a.K == KBin && a.S == "==" && a.A[0].any(func(y *Term) bool {
				return y.K == KCall && (strings.HasSuffix(y.S, "Parser).Command") || strings.HasSuffix(y.S, ".Cmd).Final") || strings.HasSuffix(y.S, ".Command).Command") || strings.HasSuffix(y.S, ".Cmd).Command"))
			}) {
				if n, ok := a.A[1].IntVal(); ok && n == 'm' {
					return v, true
				}
			}
		}
		return false, false
	}
	// control: 1 the sequence is known to be one to leave out, -1 one to show
	control := func(s *State, seq *Term) int {
		csi, known := ansiIs(s, "Csi", seq)
		if !known {
			return 0
		}
		if csi {
			switch m, ok := colour(s); {
			case !ok:
				return 0
			case m:
				return -1
			}
			return 1
		}
		all := true
		for _, w := range []string{"Osc", "Esc", "Dcs", "Apc"} {
			switch v, ok := ansiIs(s, w, seq); {
			case ok && v:
				return 1
			case !ok:
				all = false
			}
		}
		if all {
			return -1
		}
		return 0
	}
	settle := func(s *State, pos tokenPos) {
		switch s.Get("pc") {
		case "seq":
			if s.facts[e.T.Bin(token.EQL, e.ext(s.vals["dec"], 2, types.Typ[types.Int]), e.T.Int(0), types.Typ[types.Bool])] {
				break
			}
			e.Report(s, "text left out in "+name, pos, "%s can leave out a piece of a line that is not known to be a control sequence other than a colour", name)
		case "rune":
			e.Report(s, "text left out in "+name, pos, "%s can leave out a character that is not known to be a control character", name)
		case "ctl":
			e.Count("control left out")
		}
		s.Set("pc", "")
	}
	// whether the piece at hand is known to be one to leave out
	judge := func(s *State) {
		switch s.Get("pc") {
		case "seq":
			if control(s, s.vals["pc"]) == 1 {
				s.Set("pc", "ctl")
			}
		case "rune":
			for _, n := range runeReps(s.facts, s.vals["pc"]) {
				if mustKeep(n) {
					return
				}
			}
			s.Set("pc", "ctl")
		}
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) { judge(s) }
	isDecode := func(n string) bool { return strings.HasPrefix(n, ansiPkg+".DecodeSequence") }
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
		if !isStringT(coll.T) {
			return
		}
		settle(s, root.Pos())
		s.Set("pc", "rune")
		s.Set("kind", "r")
		s.vals["pc"] = elem
		s.vals["src"] = coll
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		if isStringT(coll.T) {
			settle(s, root.Pos())
			s.Set("kind", "r")
			s.vals["src"] = coll
			s.Set("all", "1")
		}
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Inline {
			return
		}
		switch {
		case isDecode(ev.Name):
			settle(s, ev.Pos)
			s.Set("pc", "seq")
			s.Set("kind", "s")
			s.Set("all", "")
			d := e.CallTerm(s, ev, ev.Fn.Signature)
			s.vals["dec"] = d
			s.vals["pc"] = e.ext(d, 0, ev.Fn.Signature.Results().At(0).Type())
			s.vals["src"] = ev.Args[0]
			inputs[ev.Args[0]] = true
			calls[ev.Args[0]] = d
		case (strings.HasPrefix(ev.Name, "(*strings.Builder).Write") || strings.HasPrefix(ev.Name, "(*bytes.Buffer).Write")) && len(ev.Args) == 2:
			what := ev.Args[1]
			for what.K == KConv && len(what.A) == 1 {
				what = what.A[0]
			}
			switch {
			case what != s.vals["pc"] || s.Get("pc") == "":
				e.Report(s, "foreign text in "+name, ev.Pos, "%s puts %s into a line, which is not the piece it is at", name, what)
				return
			case s.Get("kind") == "s":
				if control(s, what) != -1 {
					e.Report(s, "control sequence shown by "+name, ev.Pos, "%s can let through a sequence that is not known to be text or a colour", name)
				} else {
					e.Count("piece copied")
				}
			default:
				bad := false
				for _, n := range runeReps(s.facts, what) {
					if mustDrop(n) {
						bad = true
						e.Report(s, "control character shown by "+name, ev.Pos, "%s can let through the control character %q", name, rune(n))
						break
					}
				}
				if !bad {
					e.Count("piece copied")
				}
			}
			s.Set("pc", "")
			if b := s.vals["to"]; b != nil && b != ev.Args[0] {
				e.Report(s, "two results in "+name, ev.Pos, "%s puts a line into two places", name)
			}
			s.vals["to"] = ev.Args[0]
		}
	}
	// known: what is known not to be in a text
	known := func(s *State, t *Term) textKind {
		k := textKind{}
		esc, c1 := false, false
		for a, v := range s.facts {
			b := a
			has := v
			if a.K == KBin && len(a.A) == 2 && (a.A[0].K == KCall || a.A[1].K == KCall) {
				right := a.A[1].K == KCall
				b = a.A[0]
				if right {
					b = a.A[1]
				}
				h, ok := signOf(a, v, right)
				if !ok {
					continue
				}
				has = h
			}
			if has || b.K != KCall || len(b.A) != 2 || b.A[0] != t {
				continue
			}
			switch n, isN := b.A[1].IntVal(); {
			case strings.HasSuffix(b.S, "Func") && x.findsControl(b.A[1]):
				k.ctl = true
			case isN && n == 0x1b:
				esc = true
			case isN && n == 0x9b:
				c1 = true
			case strings.HasSuffix(b.S, "Any"):
				v, _ := b.A[1].StrVal()
				esc = esc || strings.ContainsRune(v, 0x1b)
				c1 = c1 || strings.ContainsRune(v, 0x9b)
			default:
				if v, ok := b.A[1].StrVal(); ok {
					esc = esc || v == "\x1b"
					c1 = c1 || v == "\u009b"
				}
			}
		}
		k.seq = esc && c1
		return k
	}
	var of func(s *State, t *Term, d int) textKind
	of = func(s *State, t *Term, d int) textKind {
		switch {
		case d > 6:
		case t == param:
			return known(s, t)
		case t.K == KConst && t.S == `""`:
			for a, v := range s.facts {
				if emptyFact(a, v) == param {
					return textKind{true, true}
				}
			}
		case t.K == KCall && x.byName[t.S] != nil:
			k, ok := x.through(x.byName[t.S], of(s, t.A[0], d+1))
			if !ok {
				e.Report(s, "filters in the wrong order in "+name, root.Pos(), "%s takes control characters out before it looks for sequences", name)
			}
			return k
		case t.K == KCall && t.S == "strings.Map" && t.A[0].Fn != nil:
			bad := false
			x.runeFn(t.A[0].Fn, func(e2 *Engine, s2 *State, r, ret *Term) {
				for _, n := range runeReps(s2.facts, r) {
					v, isC := ret.IntVal()
					switch {
					case isC && v < 0 && mustKeep(n), !isC && ret != r, isC && v >= 0 && v != n:
						bad = true
						e.Report(s, "text left out in "+name, root.Pos(), "%s can leave out the character %q", name, rune(n))
						return
					case (!isC || v >= 0) && mustDrop(n):
						bad = true
						e.Report(s, "control character shown by "+name, root.Pos(), "%s can let through the control character %q", name, rune(n))
						return
					}
				}
				e.Count("piece copied")
				e.Count("control left out")
			})
			k := of(s, t.A[1], d+1)
			k.ctl = k.ctl || !bad
			return k
		case t.K == KCall && (t.S == "(*strings.Builder).String" || t.S == "(*bytes.Buffer).String"):
			if b := s.vals["to"]; b != nil && b != t.A[0] {
				break
			}
			src := s.vals["src"]
			switch s.Get("kind") {
			case "r":
				if s.Get("all") == "" {
					e.Report(s, "line cut off in "+name, root.Pos(), "%s can end before it went through all of a line", name)
				}
				k := of(s, src, d+1)
				k.ctl = true
				return k
			case "s":
				if d := s.vals["dec"]; d != nil && s.Get("all") == "" {
					done := s.facts[e.T.Bin(token.EQL, e.ext(d, 2, types.Typ[types.Int]), e.T.Int(0), types.Typ[types.Bool])]
					for a, v := range s.facts {
						done = done || inputs[emptyFact(a, v)]
					}
					if !done {
						e.Report(s, "line cut off in "+name, root.Pos(), "%s can end before it went through all of a line", name)
					}
				}
				return textKind{seq: true, ctl: known(s, t).ctl}
			case "":
				// nothing to go through
				for a, v := range s.facts {
					if y := emptyFact(a, v); y != nil && (y == param || e.Loops[y] != nil && e.Loops[y].Entry[param]) {
						return textKind{true, true}
					}
				}
			}
		}
		e.Report(s, "foreign text from "+name, root.Pos(), "%s yields %s, which is not its text with control sequences left out", name, t)
		return textKind{}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		settle(s, root.Pos())
		res = res.and(of(s, ret[0], 0))
	}
	s := e.NewState(root, nil)
	param = s.top().env[root.Params[0]]
	e.Run(s)
	for in := range inputs {
		li := e.Loops[in]
		ok := in == param
		if li != nil {
			ok = true
			for y := range li.Entry {
				ok = ok && y == param
			}
			for y := range li.Back {
				ok = ok && (y == in || y.K == KSub && y.A[0] == in && y.A[2].IsNil() && y.A[1].K == KExt && y.A[1].S == "2" && y.A[1].A[0] == calls[in])
			}
		}
		if !ok {
			c.Violate("line gone through wrongly: "+name, p.Pos(root.Pos()), "%s does not go through its text from one sequence to the next", name)
		}
	}
	c.Absorb(e)
	return res
}

func baseName(s string) string {
	if i := strings.IndexByte(s, '['); i >= 0 {
		s = s[:i]
	}
	return s[strings.LastIndexByte(s, '.')+1:]
}

// c16Use judges what is done with the writers made for parallel items.
func c16Use(c *Ctx, p *Prog, ws map[*types.Named][2]*ssa.Function) {
	lw := func(t types.Type) *types.Named {
		n, _ := types.Unalias(deref(t)).(*types.Named)
		if _, ok := ws[n]; ok {
			return n
		}
		return nil
	}
	isCtor := func(fn *ssa.Function) bool {
		return fn != nil && fn.Blocks != nil && p.InRepo(fn) && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Signature.Results().Len() == 1 && lw(fn.Signature.Results().At(0).Type()) != nil && len(p.Loops(fn).header) == 0
	}
	makes := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok && isCtor(call.Common().StaticCallee()) {
					return true
				}
				if a, ok := ins.(*ssa.Alloc); ok && lw(a.Type()) != nil && !isCtor(fn) {
					return true
				}
			}
		}
		return false
	}
	spawns := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Go:
					return true
				case ssa.CallInstruction:
					if p.CalleeName(x.Common()) == "(*sync.WaitGroup).Go" {
						return true
					}
				}
			}
		}
		return false
	}
	direct := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if p.Rel(fn) == "internal/runner" && makes(fn) {
			direct[fn] = true
		}
	}
	// reach: whether fn comes to a maker without passing another spawner
	var roots []*ssa.Function
	for _, fn := range p.Funcs {
		if p.Rel(fn) == "internal/runner" && fn.Parent() == nil && spawns(fn) {
			roots = append(roots, fn)
		}
	}
	isRoot := map[*ssa.Function]bool{}
	for _, fn := range roots {
		isRoot[fn] = true
	}
	reach := map[*ssa.Function]bool{}
	var comes func(fn *ssa.Function, seen map[*ssa.Function]bool) bool
	comes = func(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
		if direct[fn] {
			return true
		}
		if seen[fn] {
			return false
		}
		seen[fn] = true
		for _, g := range p.edges(fn) {
			if p.Rel(g) == "internal/runner" && !isRoot[g] && comes(g, seen) {
				return true
			}
		}
		return false
	}
	for _, fn := range p.Funcs {
		if p.Rel(fn) == "internal/runner" && comes(fn, map[*ssa.Function]bool{}) {
			reach[fn] = true
		}
	}
	for _, root := range roots {
		if reach[root] {
			c16Block(c, p, ws, root, lw, isCtor, func(g *ssa.Function) bool { return reach[g] && !isRoot[g] })
		}
	}
}

func c16Block(c *Ctx, p *Prog, ws map[*types.Named][2]*ssa.Function, root *ssa.Function, lw func(t types.Type) *types.Named, isCtor, inl func(fn *ssa.Function) bool) {
	name := p.FnName(root)
	cl := &Client{Name: "C16", CollapseErr: true}
	cl.Inline = func(f *ssa.Function) bool {
		if isCtor(f) {
			return false
		}
		return inl(f) || f.Parent() != nil && p.Rel(f) == "internal/runner"
	}
	e := NewEngine(p, cl)
	outer := map[string]bool{}
	in := map[*ssa.BasicBlock]bool{}
	for _, body := range p.Loops(root).header {
		for b := range body {
			in[b] = true
		}
	}
	done := func(s *State, pos tokenPos, how string) {
		for k, v := range s.auto {
			if strings.HasPrefix(k, "w:") && v == "used" {
				e.Report(s, "not flushed before "+how, pos, "%s: an item ends (%s) while the last line of its output may not have been shown", name, how)
			}
			if strings.HasPrefix(k, "w:") && v == "flushed" {
				e.Count("flushed before done")
			}
		}
	}
	cl.OnGo = func(e *Engine, s *State, fn *Term, args []*Term, pos tokenPos, end bool) {
		if end {
			done(s, pos, "end of its goroutine")
		}
		for k := range s.auto {
			if strings.HasPrefix(k, "w:") {
				s.Set(k, "")
			}
		}
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Inline {
			return
		}
		if ev.Fn != nil && isCtor(ev.Fn) {
			for _, a := range ev.Args {
				pt, ok := a.T.(*types.Pointer)
				if !ok {
					continue
				}
				if n, ok := types.Unalias(pt.Elem()).(*types.Named); !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
					continue
				}
				if r := rootAlloc(a); r != nil && r.K == KAlloc && !outer[r.Site] {
					e.Report(s, "lock not shared", ev.Pos, "%s: the writers of a block do not share a lock", name)
				} else {
					e.Count("shared lock")
				}
			}
			s.Set("w:"+iid(ev.Instr), "new")
			s.vals["w:"+iid(ev.Instr)] = e.CallTerm(s, ev, ev.Fn.Signature)
			delete(s.vals, "wl:"+iid(ev.Instr))
			for _, a := range ev.Args {
				if b, ok := a.T.Underlying().(*types.Basic); ok && b.Kind() == types.String {
					if x := labelIndex(a); x != nil {
						s.vals["wl:"+iid(ev.Instr)] = x
					}
				}
			}
			return
		}
		if ev.Name == "(*sync.WaitGroup).Done" {
			done(s, ev.Pos, "wait group")
			return
		}
		if ev.Name == "(*"+teaPkg+".Program).Send" {
			if st := structOf(strip(ev.Args[1]).T); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if isErrT(st.Field(i).Type()) {
						done(s, ev.Pos, "report that it is done")
					}
				}
			}
		}
		var item *Term
		for _, a := range ev.Args {
			if nm, ok := types.Unalias(a.T).(*types.Named); ok && nm.Obj().Name() == "RunItem" {
				item = itemIndex(p, a)
			}
		}
		for k, w := range s.vals {
			if !strings.HasPrefix(k, "w:") || s.Get(k) == "" {
				continue
			}
			if l := s.vals["wl:"+strings.TrimPrefix(k, "w:")]; l != nil && item != nil {
				for _, a := range ev.Args {
					if strip(a) != w {
						continue
					}
					if l != item {
						e.Report(s, "label of another item", ev.Pos, "%s: the output of an item is shown behind the label of another item (%s instead of %s)", name, l.String(), item.String())
					} else {
						e.Count("output behind its own label")
					}
				}
			}
			for i, a := range ev.Args {
				if strip(a) != w {
					continue
				}
				if i == 0 && ev.Fn != nil && ev.Fn == ws[lw(w.T)][1] {
					s.Set(k, "flushed")
				} else {
					s.Set(k, "used")
				}
			}
		}
	}
	s := e.NewState(root, nil)
	for _, b := range root.Blocks {
		for _, ins := range b.Instrs {
			if a, ok := ins.(*ssa.Alloc); ok && !in[b] {
				outer[s.top().ctx+"@"+iid(a)] = true
			}
		}
	}
	e.Run(s)
	c.Absorb(e)
}
