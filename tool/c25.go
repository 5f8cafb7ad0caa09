package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C25",
		Technique: "path-sensitive simulation over SSA of every type of prompt, its validators run on the symbolic answer, and of the acceptance of prompts at load; the facts known at each end are compared with what the Babfile asks for",
		Explain:   "Each type of prompt is explored with the form failing and succeeding. In the form the validator that was set runs on a symbolic answer: an answer passes only where every constraint is known to hold and is refused only where one is known to fail. What is returned is that answer in its documented form. Without a terminal the default is returned, or an error when there is none. The function that accepts prompts at load lets one through only with a default among its options, a pattern that compiles, min not above max and a numeric default for numbers.",
		Run:       runC25,
		Floors:    map[string]int{"answer": 8, "default without terminal": 5, "no default: error": 5, "cancelled: error": 5, "answer refused": 4, "options complete": 2, "accepted at load": 6},
	})
}

func runC25(c *Ctx) {
	p := c.Prog(c.goosList()[0])
	c.GOOSList = append(c.GOOSList, c.goosList()[0])
	kinds := promptTypes(p)
	if len(kinds) == 0 {
		c.Violate("no types", "?", "no prompt types were found")
	}
	n := 0
	for _, root := range promptRoots(p) {
		for _, k := range kinds {
			if k.name != "password" {
				c25Prompt(c, p, root, k.name)
				n++
			}
		}
	}
	if n == 0 {
		c.Violate("no prompt", "?", "no function that asks prompts was found")
	}
	for _, root := range promptMakers(p) {
		for _, k := range kinds {
			c25Accept(c, p, root, k.name)
		}
	}
}

type promptKind struct{ name, cname string }

func promptTypes(p *Prog) []promptKind {
	var out []promptKind
	pkg := p.ByRel["internal/babfile"]
	if pkg == nil {
		return nil
	}
	for _, n := range pkg.Pkg.Scope().Names() {
		if nc, ok := pkg.Members[n].(*ssa.NamedConst); ok && p.named(nc.Type(), "internal/babfile", "PromptType") && nc.Value.Value.Kind() == constant.String {
			out = append(out, promptKind{constant.StringVal(nc.Value.Value), n})
		}
	}
	return out
}

// promptRoots: the functions other packages open prompts with.
func promptRoots(p *Prog) []*ssa.Function {
	var roots []*ssa.Function
	for _, fn := range p.Funcs {
		sg := fn.Signature
		if fn.Parent() != nil || sg.Recv() != nil || !p.InRepo(fn) || fn.Synthetic != "" || sg.Results().Len() != 2 || !isStringT(sg.Results().At(0).Type()) || !isErrT(sg.Results().At(1).Type()) {
			continue
		}
		takes := false
		for i := 0; i < sg.Params().Len(); i++ {
			takes = takes || p.named(sg.Params().At(i).Type(), "internal/babfile", "PromptRun")
		}
		if !takes || p.Rel(fn) != "internal/tui" {
			continue
		}
		for _, ci := range p.index().calls[fn] {
			if p.Rel(ci.Parent()) != p.Rel(fn) {
				roots = append(roots, fn)
				break
			}
		}
	}
	return roots
}

// promptMakers: the functions of the parser that make a prompt of a Babfile.
func promptMakers(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/parser" || fn.Synthetic != "" {
			continue
		}
		made := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && p.named(ptrElem(fa.X.Type()), "internal/babfile", "PromptRun") {
					if a, ok := fa.X.(*ssa.Alloc); ok && a.Parent() == fn {
						made = true
					}
				}
			}
		}
		// only a copy with other names does not make one
		if made && fn.Signature.Results().Len() == 2 {
			out = append(out, fn)
		}
	}
	return out
}

func typeOracle(kind string, is func(x *Term) bool) func(e *Engine, s *State, a *Term) (bool, bool) {
	return func(e *Engine, s *State, a *Term) (bool, bool) {
		if a.K == KBin && a.S == "==" {
			x, y := a.A[0], a.A[1]
			if x.IsConst() {
				x, y = y, x
			}
			for x.K == KConv && len(x.A) == 1 {
				x = x.A[0]
			}
			if is(x) {
				if v, ok := y.StrVal(); ok {
					return v == kind, true
				}
			}
		}
		return false, false
	}
}

func huhBase(t *Term) *Term {
	for i := 0; i < 20 && t.K == KCall && strings.Contains(t.S, huhPkg) && len(t.A) > 0 && strings.HasPrefix(t.S, "(*"); i++ {
		t = t.A[0]
	}
	return t
}

type c25sim struct {
	p      *Prog
	e      *Engine
	kind   string
	prompt *Term
	root   *ssa.Function
	name   string
}

func (cs *c25sim) fld(f string) *Term { return fieldTerm(cs.e, cs.prompt, f) }

// empty tells whether the text or list of the prompt is known (not) to be
// empty: 1, -1, 0 unknown.
func (cs *c25sim) empty(s *State, t *Term) int {
	if isStringT(t.T) {
		if v, ok := cs.e.Decide(s, cs.e.T.Bin(token.EQL, t, cs.e.T.Str(""), types.Typ[types.Bool])); ok {
			if v {
				return 1
			}
			return -1
		}
		return 0
	}
	if v, ok := cs.e.Decide(s, cs.e.T.Bin(token.EQL, cs.e.T.Len(t), cs.e.T.Int(0), types.Typ[types.Bool])); ok {
		if v {
			return 1
		}
		return -1
	}
	if n := cs.e.Nilness(s, t); n == 1 {
		return 1
	}
	for a, v := range s.facts {
		if v && a.K == KBin && a.S == "<" && a.A[1] == cs.e.T.Len(t) {
			return -1
		}
	}
	return 0
}

// words the path compared the default with.
func (cs *c25sim) words(s *State) (pos, neg map[string]bool) {
	pos, neg = map[string]bool{}, map[string]bool{}
	d := cs.fld("Default")
	for a, v := range s.facts {
		if !a.contains(d) {
			continue
		}
		w := ""
		// in any case
		if !a.any(func(x *Term) bool {
			return x.K == KCall && (x.S == "strings.ToLower" || x.S == "strings.ToUpper" || x.S == "strings.EqualFold")
		}) {
			continue
		}
		switch {
		case a.K == KBin && a.S == "==":
			for _, x := range a.A {
				if t, ok := x.StrVal(); ok {
					w = t
				}
			}
		case a.K == KCall && a.S == "strings.EqualFold":
			for _, x := range a.A {
				if t, ok := x.StrVal(); ok {
					w = t
				}
			}
		}
		w = strings.ToLower(w)
		if w == "" {
			continue
		}
		if v {
			pos[w] = true
		} else {
			neg[w] = true
		}
	}
	return
}

var yesWords = map[string]bool{"true": true, "yes": true, "y": true, "1": true}

// yesNo: v is what the default of a confirm prompt means on this path.
func (cs *c25sim) yesNo(s *State, v bool) bool {
	pos, neg := cs.words(s)
	if v {
		if len(pos) == 0 {
			return false
		}
		for w := range pos {
			if !yesWords[w] {
				return false
			}
		}
		return true
	}
	for w := range pos {
		if yesWords[w] {
			return false
		}
	}
	if len(pos) > 0 {
		return true
	}
	for w := range yesWords {
		if !neg[w] {
			return false
		}
	}
	return true
}

// number: t is the number the text a stands for.
func numberOf(t, a *Term) bool {
	for t.K == KConv && len(t.A) == 1 {
		t = t.A[0]
	}
	return t.K == KExt && t.A[0].K == KCall && (t.A[0].S == "strconv.Atoi" || t.A[0].S == "strconv.ParseInt") && len(t.A[0].A) > 0 && trimmed(t.A[0].A[0]) == a
}

func trimmed(t *Term) *Term {
	for t.K == KCall && t.S == "strings.TrimSpace" {
		t = t.A[0]
	}
	return t
}

// bound: how the quantity stands to min or max: 1 within, -1 beyond, 0
// unknown.
func (cs *c25sim) bound(s *State, f string, is func(t *Term) bool) int {
	lim := cs.fld(f)
	if cs.e.Nilness(s, lim) == 1 {
		return 1
	}
	isLim := func(t *Term) bool {
		for t.K == KConv && len(t.A) == 1 {
			t = t.A[0]
		}
		return t != lim && t.contains(lim) && t.K != KBin
	}
	for a, v := range s.facts {
		if a.K != KBin || a.S != "<" {
			continue
		}
		low := is(a.A[0]) && isLim(a.A[1])  // n < lim
		high := isLim(a.A[0]) && is(a.A[1]) // lim < n
		switch {
		case f == "Min" && low, f == "Max" && high:
			if v {
				return -1
			}
			return 1
		case f == "Min" && high && v, f == "Max" && low && v:
			return 1
		}
	}
	return 0
}

// constraint judges one answer: 1 every constraint is known to hold, -1 one
// is known to fail, 0 neither; what names the constraint that is open.
func (cs *c25sim) constraint(s *State, a *Term) (int, string) {
	e := cs.e
	e.recall(s)
	switch cs.kind {
	case "input":
		pat := cs.fld("Validate")
		if cs.empty(s, pat) == 1 {
			return 1, ""
		}
		for f, v := range s.facts {
			if f.K == KExt {
				f = f.A[0]
			}
			if f.K == KCall && strings.Contains(f.S, "Match") && f.contains(pat) && len(f.A) > 0 && f.A[len(f.A)-1] == a && strings.HasPrefix(strings.TrimPrefix(f.S, "(*"), "regexp.") {
				if v {
					return 1, ""
				}
				return -1, ""
			}
		}
		return 0, "validate"
	case "number":
		isN := func(t *Term) bool { return numberOf(t, a) }
		emp := cs.empty(s, a)
		if emp == 1 {
			switch cs.empty(s, cs.fld("Default")) {
			case -1:
				return 1, ""
			case 1:
				return -1, ""
			}
		}
		num := 0
		for f, v := range s.facts {
			if f.K == KBin && f.S == "==" && f.A[1].IsNil() && f.A[0].K == KExt && f.A[0].A[0].K == KCall {
				g := f.A[0].A[0]
				if (g.S == "strconv.Atoi" || g.S == "strconv.ParseInt") && len(g.A) > 0 && trimmed(g.A[0]) == a {
					num = -1
					if v {
						num = 1
					}
				}
			}
		}
		lo, hi := cs.bound(s, "Min", isN), cs.bound(s, "Max", isN)
		switch {
		case num == -1 && emp != 1:
			return -1, ""
		case num == 0:
			return 0, "a number"
		case lo == -1 || hi == -1:
			return -1, ""
		case lo == 0:
			return 0, "min"
		case hi == 0:
			return 0, "max"
		}
		return 1, ""
	case "multiselect":
		isN := func(t *Term) bool { return t == e.T.Len(a) }
		lo, hi := cs.bound(s, "Min", isN), cs.bound(s, "Max", isN)
		switch {
		case lo == -1 || hi == -1:
			return -1, ""
		case lo == 0:
			// none chosen is below any positive min: an explicit test decides
			return 0, "min"
		case hi == 0:
			return 0, "max"
		}
		return 1, ""
	}
	return 1, ""
}

var fieldKinds = map[string][]string{"confirm": {"NewConfirm"}, "input": {"NewInput", "NewText"}, "select": {"NewSelect"}, "multiselect": {"NewMultiSelect"}, "number": {"NewInput"}}

func c25Prompt(c *Ctx, p *Prog, root *ssa.Function, kind string) {
	cl := &Client{Name: "C25", CollapseErr: true}
	cl.Inline = func(f *ssa.Function) bool {
		r := p.Rel(f)
		return (r == p.Rel(root) || r == "internal/babfile") && !p.OnCycle(f)
	}
	cl.KeepFact = func(e *Engine, a *Term) bool { return true }
	e := NewEngine(p, cl)
	volatile := func(x *Term) bool { return x.K == KLoop || x.K == KElem || x.K == KHavoc }
	cl.Keep = func(a *Term) bool { return !a.any(volatile) }
	cs := &c25sim{p: p, e: e, kind: kind, root: root, name: p.FnName(root)}
	key := func(k string) string { return k + " (" + kind + ")" }
	cl.Oracle = typeOracle(kind, func(x *Term) bool { return x.K == KFld && x.S == "Type" && x.A[0] == cs.prompt })
	opaque := func(s *State, ev *CallEvent) *Term {
		var t *Term
		if ev.Fn != nil {
			t = e.CallTerm(s, ev, ev.Fn.Signature)
		} else if ev.Method != nil {
			t = e.CallTerm(s, ev, ev.Method.Type().(*types.Signature))
		} else {
			return nil
		}
		ev.Handled = true
		ev.Results = []Outcome{{Ret: t}}
		return t
	}
	isOption := func(t *Term) bool {
		return t.K == KCall && strings.Contains(t.S, huhPkg) && strings.Contains(t.S, "Option")
	}
	option := func(s *State, v *Term, pos token.Pos) {
		opts := cs.fld("Options")
		b := v
		for isOption(b) && !strings.HasSuffix(b.S, ".NewOption") && len(b.A) > 0 {
			b = b.A[0]
		}
		if !strings.HasSuffix(b.S, ".NewOption") || len(b.A) != 2 {
			return
		}
		x := strip(b.A[1])
		if x.K != KElem || x.A[0] != opts {
			e.Report(s, key("option altered"), pos, "an option with the value %s is offered instead of one the Babfile lists", x)
			return
		}
		if !b.A[0].contains(x) {
			e.Report(s, key("option mislabelled"), pos, "the option %s is shown as %s", x, b.A[0])
		}
		s.Set("it", "done")
	}
	cl.OnStore = func(e *Engine, s *State, addr, val *Term, pos token.Pos) {
		if addr.K == KIndexAddr && isOption(val) {
			option(s, val, pos)
		}
	}
	cl.OnAppend = func(e *Engine, s *State, base *Term, elems []*Term, res *Term, pos token.Pos) {
		for _, x := range elems {
			if isOption(x) {
				option(s, x, pos)
			}
		}
	}
	cl.OnIter = func(e *Engine, s *State, coll, k, elem *Term) {
		if coll == cs.fld("Options") {
			if s.Get("it") == "pending" {
				e.Report(s, key("option dropped"), root.Pos(), "%s can leave out an option", cs.name)
			}
			s.Set("it", "pending")
			s.Set("all", "")
		}
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		if coll == cs.fld("Options") {
			if s.Get("it") == "pending" {
				e.Report(s, key("option dropped"), root.Pos(), "%s can leave out an option", cs.name)
			}
			s.Set("all", "1")
		}
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if !strings.Contains(ev.Name, huhPkg) {
			if strings.HasSuffix(ev.Name, ".IsTerminal") {
				if t := e.CallTerm(s, ev, ev.Fn.Signature); t.any(func(x *Term) bool { return strings.HasSuffix(x.S, "Stdin") }) {
					s.vals["tty"] = t
				}
			}
			return
		}
		m := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
		switch {
		case (m == "Run" || m == "RunWithContext") && isErrT(lastResult(ev)):
			// the password screens have their own check
			ev.Take = func(e *Engine, s *State, ins ssa.Instruction) bool { return cs.run(s, ev, ins) }
			return
		case strings.HasPrefix(m, "New") && m != "NewForm" && m != "NewGroup" && m != "NewOption" && m != "NewOptions":
			if t := opaque(s, ev); t != nil {
				ok := false
				for _, w := range fieldKinds[kind] {
					ok = ok || w == m
				}
				switch {
				case s.vals["f"] != nil && s.Get("asked") == "":
					e.Report(s, key("two fields"), ev.Pos, "a prompt asks with more than one field")
				case !ok:
					e.Report(s, key("wrong field"), ev.Pos, "a prompt of type %s asks with %s", kind, m)
				}
				s.vals["f"] = t
				delete(s.vals, "cell")
				delete(s.vals, "validator")
				s.Set("asked", "")
				s.Set("opts", "")
				s.Set("title", "")
			}
			return
		}
		t := opaque(s, ev)
		if t == nil || len(ev.Args) < 2 || huhBase(ev.Args[0]) != s.vals["f"] {
			if m == "Selected" && len(ev.Args) == 2 && ev.Args[1].contains(cs.fld("Defaults")) {
				s.Set("sel", "1")
			}
			return
		}
		switch m {
		case "Value":
			s.vals["cell"] = ev.Args[1]
		case "Validate":
			s.vals["validator"] = ev.Args[1]
		case "Title", "Description":
			a := ev.Args[1]
			if a.contains(cs.fld("Message")) || a.any(func(x *Term) bool { return x.K == KSym && isStringT(x.T) }) {
				s.Set("title", "1")
			}
		case "Options":
			a := ev.Args[1]
			switch {
			case a.K == KCall && strings.HasSuffix(a.S, ".NewOptions") && len(a.A) == 1 && a.A[0] == cs.fld("Options"):
				s.Set("opts", "1")
			case s.Get("all") != "" && a.K != KSub && !cut(a):
				s.Set("opts", "1")
			}
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) { cs.exit(s, ret) }
	s := e.NewState(root, nil)
	for _, prm := range root.Params {
		if p.named(prm.Type(), "internal/babfile", "PromptRun") {
			cs.prompt = s.top().env[prm]
		}
	}
	e.Run(s)
	c.Absorb(e)
}

func lastResult(ev *CallEvent) types.Type {
	if ev.Fn == nil || ev.Fn.Signature.Results().Len() == 0 {
		return types.Typ[types.Invalid]
	}
	r := ev.Fn.Signature.Results()
	return r.At(r.Len() - 1).Type()
}

// run: the user answers, or gives up.
func (cs *c25sim) run(s *State, ev *CallEvent, ins ssa.Instruction) bool {
	e := cs.e
	key := func(k string) string { return k + " (" + cs.kind + ")" }
	bad := e.T.mk(KHavoc, "err!", "", lastResult(ev), false, nil)
	if s.Get("title") == "" {
		e.Report(s, key("message not shown"), ev.Pos, "a prompt asks without its message")
	}
	if (cs.kind == "select" || cs.kind == "multiselect") && s.Get("opts") == "" {
		e.Report(s, key("options"), ev.Pos, "a prompt is asked without (all of) its options")
	} else if cs.kind == "select" || cs.kind == "multiselect" {
		e.Count("options complete")
	}
	if s.Get("asked") != "" {
		e.Report(s, key("asked twice"), ev.Pos, "the same form is shown again")
	}
	cell := s.vals["cell"]
	if cell == nil || ptrElem(cell.T) == nil {
		e.Report(s, key("answer not taken"), ev.Pos, "a prompt is asked without a variable for its answer")
		return false
	}
	cs.preset(s, e.load(s, cell, ptrElem(cell.T)), ev.Pos)
	s.Set("asked", "1")
	s.Set("n", s.Get("n")+"1")
	u := s.clone()
	u.Set("bad", "1")
	u.note(ev.Pos, "the prompt is cancelled or fails")
	e.finishOpaque(u, ins, bad)
	e.push(u)

	ans := e.T.mk(KHavoc, "answer", s.top().ctx+"@"+iid(ev.Instr), ptrElem(cell.T), false, nil)
	e.store(s, cell, ans)
	s.vals["ans"] = ans
	v := s.vals["validator"]
	for v != nil && (v.K == KConv || v.K == KIface) {
		v = v.A[0]
	}
	if v == nil || v.Fn == nil || v.Fn.Blocks == nil || !e.P.InRepo(v.Fn) {
		e.finishOpaque(s, ins, e.T.Nil())
		return true
	}
	e.callInto(s, ins, ev.Instr, v, []*Term{ans}, func(e *Engine, s *State, ret []*Term) {
		if len(ret) == 1 && e.Nilness(s, ret[0]) == 1 {
			e.finishOpaque(s, ins, e.T.Nil())
			return
		}
		s.dead = true
		if j, what := cs.constraint(s, ans); j != -1 {
			if what == "" {
				what = "every constraint"
			}
			e.Report(s, key("answer refused"), v.Fn.Pos(), "an answer is refused although it is not known to violate %s", what)
		} else {
			e.Count("answer refused")
		}
	})
	return true
}

// preset: what the form starts with.
func (cs *c25sim) preset(s *State, init *Term, pos token.Pos) {
	e := cs.e
	e.recall(s)
	d := cs.fld("Default")
	emp := cs.empty(s, d)
	ok := true
	switch cs.kind {
	case "confirm":
		v, known := e.Decide(s, init)
		if b, isc := init.BoolVal(); isc {
			v, known = b, true
		}
		switch {
		case !known:
			ok = false
		case emp == 1:
			ok = !v
		default:
			ok = cs.yesNo(s, v)
			if emp == 0 && !v && !ok {
				pos, _ := cs.words(s)
				ok = len(pos) == 0
			}
		}
	case "multiselect":
		ds := cs.fld("Defaults")
		ok = s.Get("sel") != "" || s.Get("it") == "" && s.Get("all") != "" || init.contains(ds) || cs.empty(s, ds) == 1
		if !ok && init.K == KHavoc {
			ok = true
		}
	default:
		v, isc := init.StrVal()
		switch {
		case init == d:
		case isc && v == "":
			ok = emp == 1
		default:
			ok = false
		}
	}
	if !ok {
		e.Report(s, "default not preset ("+cs.kind+")", pos, "the prompt starts with %s instead of its default", init)
	}
}

func (cs *c25sim) exit(s *State, ret []*Term) {
	e := cs.e
	key := func(k string) string { return k + " (" + cs.kind + ")" }
	e.recall(s)
	pos := cs.root.Pos()
	fails := e.Nilness(s, ret[1]) == -1
	dflt := cs.fld("Default")
	if cs.kind == "multiselect" {
		dflt = cs.fld("Defaults")
	}
	tty, ttyKnown := false, false
	if t := s.vals["tty"]; t != nil {
		tty, ttyKnown = e.Decide(s, t)
	}
	if s.Get("n") == "" {
		if fails {
			if ttyKnown && tty {
				if !cs.otherFailure(s) {
					e.Report(s, key("not asked"), pos, "%s can fail on a terminal without having asked", cs.name)
				}
				return
			}
			switch {
			case cs.empty(s, dflt) == 1:
				e.Count("no default: error")
			case !cs.otherFailure(s):
				e.Report(s, key("default not used"), pos, "%s can fail without a terminal although there may be a default", cs.name)
			}
			return
		}
		if !ttyKnown || tty {
			e.Report(s, key("not asked"), pos, "%s can answer for the user although there may be a terminal", cs.name)
			return
		}
		ok := cs.empty(s, dflt) == -1
		r := ret[0]
		switch cs.kind {
		case "confirm":
			v, isc := r.StrVal()
			ok = ok && isc && (v == "true" || v == "false") && cs.yesNo(s, v == "true")
		case "multiselect":
			ok = ok && joined(r, dflt)
		default:
			ok = ok && r == dflt
		}
		if !ok {
			e.Report(s, key("wrong default"), pos, "without a terminal %s yields %s instead of the default, or yields it though there may be none", cs.name, r)
			return
		}
		e.Count("default without terminal")
		return
	}
	if !ttyKnown || !tty {
		e.Report(s, key("asked without terminal"), pos, "%s can ask without a terminal", cs.name)
	}
	if s.Get("bad") != "" {
		if !fails {
			e.Report(s, key("cancelled prompt succeeds"), pos, "%s can succeed although the prompt was cancelled or failed", cs.name)
		} else {
			e.Count("cancelled: error")
		}
		return
	}
	ans := s.vals["ans"]
	if fails {
		if !cs.otherFailure(s) {
			e.Report(s, key("answer lost"), pos, "%s can fail although an answer was given", cs.name)
		}
		return
	}
	if j, what := cs.constraint(s, ans); j != 1 {
		if what == "" {
			what = "a constraint"
		}
		e.Report(s, key("answer against "+what), pos, "%s can yield an answer that is not known to satisfy %s", cs.name, what)
		return
	}
	r := ret[0]
	ok := false
	switch cs.kind {
	case "confirm":
		v, known := e.Decide(s, ans)
		if w, isc := r.StrVal(); isc {
			ok = known && w == map[bool]string{true: "true", false: "false"}[v]
		} else {
			ok = r.K == KCall && (r.S == "strconv.FormatBool" || r.S == "fmt.Sprint") && len(r.A) == 1 && strip(r.A[0]) == ans ||
				r.K == KCall && r.S == "fmt.Sprintf" && len(r.A) == 2 && strip(r.A[1]) == ans && (r.A[0] == e.T.Str("%t") || r.A[0] == e.T.Str("%v"))
		}
	case "multiselect":
		ok = joined(r, ans)
	case "number":
		switch cs.empty(s, ans) {
		case 1:
			ok = r == dflt
		case -1:
			ok = trimmed(r) == ans
		default:
			for f, v := range s.facts {
				if v && trimmed(r) == ans && f.K == KBin && f.S == "==" && f.A[1].IsNil() && f.A[0].K == KExt && f.A[0].A[0].contains(ans) {
					ok = true
				}
			}
		}
		if ok && r == ans {
			// what was found to be a number is what is given back
			exact := cs.empty(s, ans) == 1
			for f := range s.facts {
				if f.K == KBin && f.S == "==" && f.A[1].IsNil() && f.A[0].K == KExt && f.A[0].A[0].K == KCall {
					g := f.A[0].A[0]
					if (g.S == "strconv.Atoi" || g.S == "strconv.ParseInt") && len(g.A) > 0 && g.A[0] == ans {
						exact = true
					}
				}
			}
			ok = exact
		}
	default:
		ok = r == ans
	}
	if !ok {
		e.Report(s, key("answer altered"), pos, "%s yields %s instead of the answer given", cs.name, r)
		return
	}
	e.Count("answer")
}

// cut: the list is what a function made of another one.
func cut(t *Term) bool {
	return t.any(func(x *Term) bool {
		return x.K == KCall && strings.HasPrefix(x.S, "slices.") && !strings.HasPrefix(x.S, "slices.Clone") && !strings.HasPrefix(x.S, "slices.Clip") && !strings.HasPrefix(x.S, "slices.Concat") && !strings.HasPrefix(x.S, "slices.Grow")
	})
}

func joined(r, list *Term) bool {
	if r.K != KCall || r.S != "strings.Join" || len(r.A) != 2 || r.A[0] != list {
		return false
	}
	v, ok := r.A[1].StrVal()
	return ok && v == ","
}

// otherFailure: a call that can fail for reasons of its own is known to have
// failed on this path.
func (cs *c25sim) otherFailure(s *State) bool {
	for f, v := range s.facts {
		if f.K != KBin || f.S != "==" || !f.A[1].IsNil() || v {
			continue
		}
		x := f.A[0]
		if x.K == KExt {
			x = x.A[0]
		}
		if x.K == KCall && (strings.HasPrefix(x.S, "regexp.") || x.S == ctxErrFn || strings.HasPrefix(x.S, "invoke (context.")) {
			return true
		}
	}
	return false
}

// memberFact: a says that x (any text if nil) is in the list, or in a map.
func memberFact(a, x, list *Term) bool {
	switch {
	case a.K == KCall && a.S == "slices.Contains" && len(a.A) == 2:
		return a.A[0] == list && (x == nil || a.A[1] == x)
	case (a.K == KMapVal || a.K == KMapOK) && len(a.A) >= 2:
		return x == nil || a.A[1] == x
	}
	return false
}

var fieldsUsed = map[string][]string{"confirm": {"Message"}, "password": {"Message"}, "input": {"Message", "Validate"}, "select": {"Message", "Options", "Default"}, "multiselect": {"Message", "Options", "Defaults", "Min", "Max"}, "number": {"Message", "Default", "Min", "Max"}}

// c25Accept: which prompts get past the parser.
func c25Accept(c *Ctx, p *Prog, root *ssa.Function, kind string) {
	cl := &Client{Name: "C25", CollapseErr: true}
	cl.Inline = func(f *ssa.Function) bool {
		r := p.Rel(f)
		return (r == p.Rel(root) || r == "internal/babfile") && !p.OnCycle(f)
	}
	cl.KeepFact = func(e *Engine, a *Term) bool { return true }
	e := NewEngine(p, cl)
	name := p.FnName(root)
	var typ, dfltT, opts *Term
	var care []*Term // the fields this type of prompt uses
	volatile := func(x *Term) bool { return x.K == KLoop || x.K == KElem || x.K == KHavoc }
	cl.Keep = func(a *Term) bool {
		about := false
		for _, x := range care {
			about = about || a.contains(x)
		}
		return about && !a.any(volatile)
	}
	isType := func(x *Term) bool { return typ != nil && x == typ }
	cl.Oracle = typeOracle(kind, isType)
	key := func(k string) string { return k + " (" + kind + ")" }
	var dflts *Term
	elemOf := func(t, coll *Term) bool {
		return coll != nil && t.any(func(x *Term) bool { return x.K == KElem && x.A[0] == coll })
	}
	cl.OnIter = func(e *Engine, s *State, coll, k, elem *Term) {
		if coll == dflts {
			if s.Get("d") == "pending" && s.Get("rej") == "" {
				s.Set("skip", "1")
			}
			s.Set("d", "pending")
			s.Set("dall", "")
		}
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		if coll == dflts {
			if s.Get("d") == "pending" && s.Get("rej") == "" {
				s.Set("skip", "1")
			}
			s.Set("dall", "1")
		}
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos token.Pos) {
		if v && a.K == KBin && a.S == "==" && (a.A[0] == dfltT || a.A[1] == dfltT) && elemOf(a, opts) {
			s.Set("in", "1")
		}
		if elemOf(a, dflts) && s.Get("d") == "pending" {
			isDef := func(x *Term) bool { return x.K == KElem && x.A[0] == dflts }
			same := a.K == KBin && a.S == "==" && (isDef(a.A[0]) && elemOf(a.A[1], opts) || isDef(a.A[1]) && elemOf(a.A[0], opts))
			if v && (same || memberFact(a, nil, opts) && (a.K == KCall || s.Get("other") == "")) {
				s.Set("d", "ok")
			}
		}
	}
	cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos token.Pos) {
		if opts != nil && elemOf(k, opts) {
			return
		}
		s.Set("other", "1") // a set of something else
	}
	// the type is one of those declared
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Fn != nil && ev.Fn.Signature.Recv() != nil && p.named(ev.Fn.Signature.Recv().Type(), "internal/errs", "ValidationErrors") && len(ev.Args) > 1 {
			s.Set("rej", "1")
		}
		if ev.Fn != nil && ev.Fn.Signature.Recv() != nil && p.named(ev.Fn.Signature.Recv().Type(), "internal/babfile", "PromptType") && len(p.Loops(ev.Fn).header) > 0 && ev.Fn.Signature.Results().Len() == 1 && types.Identical(ev.Fn.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
			ev.Handled = true
			ev.Results = []Outcome{{Ret: e.T.Bool(true)}}
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		e.recall(s)
		if s.Get("rej") != "" {
			return
		}
		item := strip(ret[0])
		if ret[0].K != KIface {
			if ret[0].IsNil() {
				return
			}
		}
		if v, ok := ret[1].BoolVal(); ok && !v {
			return
		}
		if isErrT(root.Signature.Results().At(1).Type()) && e.Nilness(s, ret[1]) == -1 {
			return
		}
		get := func(f string) *Term {
			return fieldTerm(e, item, f)
		}
		emp := func(t *Term) int { return (&c25sim{e: e}).empty(s, t) }
		d, opts, ds, pat, mn, mx := get("Default"), get("Options"), get("Defaults"), get("Validate"), get("Min"), get("Max")
		if os.Getenv("C25D") == kind {
			println(item.String())
			for a, v := range s.facts {
				println("  ", v, a.String())
			}
			println("  --")
		}
		fail := func(k, f string, a ...any) { e.Report(s, key(k), root.Pos(), "%s "+f, append([]any{name}, a...)...) }
		okd := true
		if emp(get("Message")) != -1 {
			fail("accepted without message", "can accept a prompt without a message")
			okd = false
		}
		if kind == "select" || kind == "multiselect" {
			if emp(opts) != -1 {
				fail("accepted without options", "can accept a %s prompt that may have no options", kind)
				okd = false
			}
		}
		if kind == "select" && emp(d) != 1 {
			in := s.Get("in") != ""
			for a, v := range s.facts {
				if v && memberFact(a, d, opts) && (a.K == KCall || s.Get("other") == "") {
					in = true
				}
			}
			if !in {
				fail("default not an option", "can accept a default that is not known to be among the options")
				okd = false
			}
		}
		if kind == "multiselect" && emp(ds) != 1 && (s.Get("dall") == "" || s.Get("skip") != "") {
			fail("default not an option", "can accept defaults that are not all known to be among the options")
			okd = false
		}
		if kind == "number" && emp(d) != 1 {
			in := false
			for a, v := range s.facts {
				if v && a.K == KBin && a.S == "==" && a.A[1].IsNil() && a.A[0].K == KExt && a.A[0].A[0].K == KCall && strings.HasPrefix(a.A[0].A[0].S, "strconv.") && a.A[0].A[0].contains(d) {
					in = true
				}
			}
			if !in {
				fail("default not a number", "can accept a default that is not known to be a number")
				okd = false
			}
		}
		if kind == "input" && emp(pat) != 1 {
			in := false
			for a, v := range s.facts {
				if v && a.K == KBin && a.S == "==" && a.A[1].IsNil() && a.A[0].K == KExt && a.A[0].A[0].K == KCall && strings.HasPrefix(a.A[0].A[0].S, "regexp.Compile") && a.A[0].A[0].contains(pat) {
					in = true
				}
			}
			if !in {
				fail("pattern not compiled", "can accept a pattern that is not known to compile")
				okd = false
			}
		}
		if (kind == "number" || kind == "multiselect") && e.Nilness(s, mn) != 1 && e.Nilness(s, mx) != 1 {
			in := false
			for a, v := range s.facts {
				if a.K == KBin && a.S == "<" && a.contains(mn) && a.contains(mx) {
					if a.A[0].contains(mx) && !v || a.A[0].contains(mn) && v {
						in = true
					}
				}
			}
			if !in {
				fail("min above max", "can accept a min that is above max")
				okd = false
			}
		}
		if okd {
			e.Count("accepted at load")
		}
	}
	// the terms the type and the defaults come from
	e0 := NewEngine(p, &Client{Name: "C25", CollapseErr: true, Inline: cl.Inline, KeepFact: cl.KeepFact})
	e0.T = e.T
	e0.C.OnExit = func(e *Engine, s *State, ret []*Term) {
		if v, ok := ret[1].BoolVal(); ret[0].IsNil() || ok && !v {
			return
		}
		item := strip(ret[0])
		typ, dflts = fieldTerm(e, item, "Type"), fieldTerm(e, item, "Defaults")
		dfltT, opts = fieldTerm(e, item, "Default"), fieldTerm(e, item, "Options")
		care = nil
		for _, f := range fieldsUsed[kind] {
			care = append(care, fieldTerm(e, item, f))
		}
		for typ.K == KConv {
			typ = typ.A[0]
		}
	}
	e0.Run(e0.NewState(root, nil))
	if typ == nil {
		return
	}
	e.Run(e.NewState(root, nil))
	c.Absorb(e)
}
