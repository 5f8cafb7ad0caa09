package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C12",
		Technique: "path-sensitive simulation of interpolation and of the variable resolver over SSA: failed lookups followed to the error, provenance of substituted text, typestate of in-progress and finished marks, re-entry of the resolver under every state it can recurse in",
		Explain:   "A reference that names no variable makes the interpolation fail, whatever other references the text holds; the text substituted is the value of the named variable or of the environment and nothing else, substituted text is not looked at again, and escaped references come out literally. Resolving variables resolves every reference of a value to the own variables first, takes a definition in preference to an inherited one, keeps all inherited variables, fails when one resolution fails, and a variable that is reached again while it is being resolved is an error, never a value and never endless recursion.",
		Run:       runC12,
		Floors:    map[string]int{"failed lookup reaches the error": 1, "substituted value": 2, "own variable resolved": 1, "re-entry is an error": 1, "value of a variable": 1},
	})
}

func runC12(c *Ctx) {
	for _, goos := range c.goosList()[:1] {
		p := c.Prog(goos)
		c.GOOSList = append(c.GOOSList, goos)
		for _, fn := range p.Funcs {
			switch p.FnName(fn) {
			case interpFn:
				c12interp(c, p, fn)
			case resolveVarsFn, resolveVarsF2:
			}
		}
		c12resolve(c, p)
	}
}

// interpolate.Interpolate.
func c12interp(c *Ctx, p *Prog, fn *ssa.Function) {
	cl := &Client{Name: "C12", CollapseErr: true, CallbackTwice: true, Inline: inPkg(p, "internal/interpolate")}
	e := NewEngine(p, cl)
	varsOf := func(m *Term) bool {
		return m.any(func(x *Term) bool { return (x.K == KFld || x.K == KFieldAddr) && x.S == "Vars" }) || m.K == KAlloc || m.K == KLoop || m.K == KMNew
	}
	input := (*Term)(nil)
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
		if a.K == KMapOK && !v && isStringT(a.A[1].T) && strMap(a.A[0].T) && varsOf(a.A[0]) {
			s.Set("fail", "1")
		}
		if a.K == KMapOK && v {
			s.Set("has", itoa(a.id))
		}
	}
	cl.OnLookup = func(e *Engine, s *State, m, k *Term, pos tokenPos) {
		if m.T != nil && strMap(m.T) && strip(m).K == KAlloc {
			// the empty map made for a missing context
			if ct := e.mapContents(s, strip(m)); ct.K == KMNew || ct == strip(m) {
				s.Set("fail", "1")
			}
		}
	}
	subst := func(n string) bool {
		return strings.HasPrefix(n, "(*regexp.Regexp).ReplaceAll") && strings.HasSuffix(n, "Func") || n == "os.Expand"
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if !subst(ev.Name) || len(ev.Args) < 2 {
			return
		}
		text := ev.Args[1]
		switch {
		case text.any(func(x *Term) bool { return x.K == KCall && subst(x.S) }):
			e.Report(s, "substituted text scanned again", ev.Pos, "references are looked for in text that was already substituted")
		case text == input:
			e.Report(s, "escapes not protected", ev.Pos, "references are substituted in the text as given, so an escaped reference is substituted too")
		}
	}
	cl.OnReturn = func(e *Engine, s *State, f *ssa.Function, ret []*Term) {
		if s.top().kind != 'c' || len(ret) != 1 || !isStringT(ret[0].T) || len(f.Params) != 1 {
			return
		}
		match := s.top().env[f.Params[0]]
		for _, r := range e.leaves(ret[0]) {
			nameOf := func(k *Term) bool { // the name inside the match
				return k.any(func(x *Term) bool { return x.K == KHavoc && strings.HasPrefix(x.S, "cbarg0") })
			}
			switch {
			case s.Get("fail") != "":
			case r.K == KMapVal && varsOf(r.A[0]) && nameOf(r.A[1]):
				if h := s.Get("has"); h == "" || e.T.all[atoi(h)].A[0] != r.A[0] || e.T.all[atoi(h)].A[1] != r.A[1] {
					e.Report(s, "unknown variable substituted", f.Pos(), "the value of a variable is substituted though it was not found to exist")
				} else {
					e.Count("substituted value")
				}
			case r.K == KCall && (r.S == "os.Getenv") && nameOf(r.A[0]), r.K == KExt && r.A[0].K == KCall && r.A[0].S == "os.LookupEnv":
				e.Count("substituted value")
			case match != nil && r == match || r.K == KHavoc && strings.HasPrefix(r.S, "cbarg0"):
				// only where the match has no name
				ok := false
				for a, v := range s.facts {
					if a.K == KBin && v && (a.S == "<" && a.A[0].K == KLen || a.S == "==" && (a.A[1].IsNil() || a.A[0].K == KLen)) && nameOf(a.A[0]) {
						ok = true
					}
					if a.K == KBin && !v && a.A[0].K == KLen && (a.S == "==" || a.S == ">=" || a.S == ">") && nameOf(a.A[0]) {
						ok = true
					}
				}
				if !ok {
					e.Report(s, "reference left as it is", f.Pos(), "a reference is left in the text without an error")
				}
			default:
				e.Report(s, "foreign text substituted", f.Pos(), "a reference is replaced by %s, which is not the value of its variable", r)
			}
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if s.Get("fail") != "" {
			if e.Nilness(s, ret[1]) != -1 {
				e.Report(s, "unknown variable is no error", fn.Pos(), "a text whose reference names no variable can be interpolated without an error")
			} else {
				e.Count("failed lookup reaches the error")
			}
			return
		}
		if e.Nilness(s, ret[1]) == -1 {
			return
		}
		// escaped references come back literally
		var prot, back *Term
		for _, r := range e.leaves(ret[0]) {
			r.any(func(x *Term) bool {
				if x.K != KCall {
					return false
				}
				switch {
				case strings.HasPrefix(x.S, "(*regexp.Regexp).Replace") && !subst(x.S) && len(x.A) == 3 && x.A[1] == input:
					prot = x.A[2]
				case x.S == "strings.ReplaceAll" && len(x.A) == 3 && x.A[0] == input:
					prot = x.A[2]
				case x.S == "strings.ReplaceAll" && len(x.A) == 3:
					back = x
				}
				return false
			})
		}
		if prot != nil {
			if back == nil || back.A[1] != prot || back.A[2].S != `"${{"` {
				e.Report(s, "escape not turned back", fn.Pos(), "an escaped reference does not come out as the literal text it stands for")
			} else {
				e.Count("escape turned back")
			}
		}
	}
	s := e.NewState(fn, nil)
	for _, prm := range fn.Params {
		if isStringT(prm.Type()) && input == nil {
			input = s.top().env[prm]
		}
	}
	e.Run(s)
	c.Absorb(e)
}

// c12resolve: the recursive resolution of variables.
func c12resolve(c *Ctx, p *Prog) {
	var root *ssa.Function
	for _, fn := range p.Funcs {
		if n := p.FnName(fn); n == resolveVarsF2 || n == resolveVarsFn && root == nil {
			root = fn
		}
	}
	// follow plain wrappers to the function that does the work
	for _, fn := range p.Funcs {
		if p.FnName(fn) == resolveVarsFn {
			root = fn
		}
	}
	in := inPkg(p, "internal/interpolate")
	// functions that can come back to themselves, calls through variables of
	// the same type included
	cyc := map[*ssa.Function]bool{}
	callees := func(fn *ssa.Function) (out []*ssa.Function) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					_ = mc
				}
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if sc := ci.Common().StaticCallee(); sc != nil {
					if in(sc) {
						out = append(out, sc)
					}
				} else if !ci.Common().IsInvoke() {
					for _, g := range p.Funcs {
						if in(g) && g.Parent() != nil && types.Identical(g.Signature, ci.Common().Value.Type().Underlying()) {
							out = append(out, g)
						}
					}
				}
			}
		}
		return
	}
	for _, fn := range p.Funcs {
		if !in(fn) {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			for _, g := range callees(f) {
				if !seen[g] {
					seen[g] = true
					walk(g)
				}
			}
		}
		walk(fn)
		cyc[fn] = seen[fn]
	}
	// the entry of the recursion: called from outside the cycle
	var entry *ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, g := range callees(f) {
			if cyc[g] {
				if !cyc[f] && entry == nil {
					entry = g
				}
				continue
			}
			walk(g)
		}
	}
	if root == nil {
		c.Absorb(NewEngine(p, &Client{Name: "C12"}))
		return
	}
	walk(root)
	if entry == nil {
		return
	}
	isRec := func(ev *CallEvent) bool {
		if ev.Fn != nil {
			return ev.Fn == entry
		}
		if ci, ok := ev.Instr.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
			return types.Identical(ci.Common().Value.Type().Underlying(), entry.Signature)
		}
		return false
	}
	h := &c12head{c: c, p: p, fn: entry, isRec: isRec, marks: map[string]bool{}, memo: map[string]bool{}, snaps: map[string]*c12snap{}}
	h.main()
	h.reenter()
	c12root(c, p, root, h)
}

type c12snap struct {
	facts map[string]bool // atom text -> value
	puts  map[string]*Term
	app   bool
	pos   tokenPos
}

type c12head struct {
	c      *Ctx
	p      *Prog
	fn     *ssa.Function
	isRec  func(ev *CallEvent) bool
	marks  map[string]bool // maps whose marks let a value through
	memo   map[string]bool // maps whose values are returned
	snaps  map[string]*c12snap
	puts   []c12put
	stores bool // the resolver stores the value itself
	noPut  bool
	V      string
}

type c12put struct {
	m    string
	ok   bool // after a success for that name
	val  bool // the value resolved for that name
	text string
	pos  tokenPos
	s    *State
}

func baseMap(m *Term) *Term {
	m = strip(m)
	for m.K == KMPut || m.K == KMDel {
		m = m.A[0]
	}
	return m
}

func (h *c12head) client() *Client {
	return &Client{Name: "C12", CollapseErr: true, Inline: func(g *ssa.Function) bool {
		return inPkg(h.p, "internal/interpolate")(g) && h.p.FnName(g) != interpFn && g != h.fn && !listOfText(g)
	}}
}

// listOfText: a function that yields strings found in a text.
func listOfText(g *ssa.Function) bool {
	sg := g.Signature
	if sg.Results().Len() != 1 || sg.Params().Len() != 1 || !isStringT(sg.Params().At(0).Type()) {
		return false
	}
	sl, ok := sg.Results().At(0).Type().Underlying().(*types.Slice)
	return ok && isStringT(sl.Elem())
}

// names: the string parameters of the resolver.
func (h *c12head) isName(s *State, t *Term) bool {
	return t.K == KSym && isStringT(t.T) && !strings.HasPrefix(t.S, "free:")
}

// raw: V[name], the text of the variable being resolved.
func (h *c12head) raw(t *Term) (v, name *Term) {
	if t.K == KMapVal && h.isName(nil, t.A[1]) {
		return baseMap(t.A[0]), t.A[1]
	}
	return nil, nil
}

func (h *c12head) main() {
	p := h.p
	cl := h.client()
	e := NewEngine(p, cl)
	var name, vmap *Term
	// the name is the parameter whose text is interpolated
	pre := h.client()
	pe := NewEngine(p, pre)
	pre.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Name == interpFn {
			for _, t := range e.leaves(ev.Args[0]) {
				if v, n := h.raw(t); v != nil {
					vmap, name = v, n
				}
			}
		}
		if h.isRec(ev) || ev.Name == interpFn {
			pe.splitErr(s, ev, nil, nil)
		}
	}
	pe.Run(pe.NewState(h.fn, nil))
	if name == nil {
		pe.Report(pe.NewState(h.fn, nil), "own text not interpolated", h.fn.Pos(), "%s never interpolates the text of the variable it is asked for", p.FnName(h.fn))
		h.c.Absorb(pe)
		return
	}
	nm, vs := name.S, vmap.String()
	h.V = vs
	isNm := func(t *Term) bool { return t.K == KSym && t.S == nm && isStringT(t.T) }
	// entry atoms: membership or value of M[name]
	about := func(a *Term) *Term {
		var m *Term
		a.any(func(x *Term) bool {
			if (x.K == KMapVal || x.K == KMapOK) && isNm(x.A[1]) && m == nil {
				m = baseMap(x.A[0])
			}
			return false
		})
		return m
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
		if m := about(a); m != nil && s.Get("w:"+itoa(m.id)) == "" {
			s.Set("f:"+itoa(a.id), map[bool]string{true: "t", false: "f"}[v])
		}
		if a.K == KCall && strings.HasPrefix(a.S, "slices.Contains") && len(a.A) == 2 && isNm(a.A[1]) {
			s.Set("f:"+itoa(a.id), map[bool]string{true: "t", false: "f"}[v])
		}
		// settled references
		switch {
		case s.Get("ref") != "pending":
		case a.K == KBin && a.A[0].K == KLen && (a.S == "<" && v || (a.S == ">=" || a.S == ">" || a.S == "==") && !v):
			s.Set("ref", "ok")
		case a.K == KCall && a.S == "strings.HasPrefix" && v && a.A[1].S == `"env."`, a.K == KExt && a.A[0].K == KCall && a.A[0].S == "strings.CutPrefix" && v:
			s.Set("ref", "ok")
		case a.K == KMapOK && baseMap(a.A[0]).String() == vs && !isNm(a.A[1]) && !v:
			s.Set("ref", "ok")
		}
	}
	ofText := func(t *Term) bool {
		return t.any(func(x *Term) bool {
			v, n := h.raw(x)
			return v != nil && n.S == nm && v.String() == vs
		})
	}
	refColl := func(coll *Term) (text *Term) {
		coll.any(func(x *Term) bool {
			if x.K == KCall && len(x.A) > 0 {
				for _, a := range x.A {
					if isStringT(a.T) && ofText(a) && text == nil {
						text = a
					}
				}
			}
			return false
		})
		return
	}
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
		if t := refColl(coll); t != nil {
			if s.Get("ref") == "pending" {
				e.Report(s, "reference not resolved", h.fn.Pos(), "a reference to another variable can be left unresolved before the text is interpolated")
			}
			if v, _ := h.raw(t); v != nil {
				e.Report(s, "escaped reference resolved", h.fn.Pos(), "the references of a value are looked for in its text as given, so an escaped reference counts as one")
			}
			s.Set("ref", "pending")
		}
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		if refColl(coll) != nil {
			if s.Get("ref") == "pending" {
				e.Report(s, "reference not resolved", h.fn.Pos(), "a reference to another variable can be left unresolved before the text is interpolated")
			}
			s.Set("ref", "")
			s.Set("exh", "1")
		}
	}
	cl.OnAppend = func(e *Engine, s *State, base *Term, elems []*Term, res *Term, pos tokenPos) {
		for _, x := range elems {
			if isNm(x) {
				s.Set("ap", "1")
			}
		}
	}
	cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
		b := baseMap(m)
		if isNm(k) {
			for key := range s.auto {
				if strings.HasPrefix(key, "f:") && s.auto[key] != "" {
					if am := about(e.T.all[atoi(key[2:])]); am == b {
						s.Set(key, "")
					}
				}
			}
			id := "nil"
			if v != nil {
				id = itoa(v.id)
			}
			s.Set("w:"+itoa(b.id), id)
		}
		if v == nil {
			return
		}
		if bv, isB := v.BoolVal(); isB && !bv {
			return
		}
		pt := c12put{m: b.String(), text: k.String(), pos: pos, s: s.clone()}
		switch {
		case isNm(k):
			pt.ok = s.Get("iok") != ""
			pt.val = v.K == KExt && v.A[0].K == KCall && v.A[0].S == interpFn
			if pt.val {
				s.Set("st:"+b.String(), "1")
			}
		default:
			pt.ok = s.Get("rok:"+itoa(k.id)) != ""
			v.any(func(x *Term) bool {
				if x.K == KExt && x.A[0].K == KCall {
					for _, a := range x.A[0].A {
						if a == k {
							pt.val = true
						}
					}
				}
				return false
			})
		}
		h.puts = append(h.puts, pt)
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		switch {
		case h.isRec(ev):
			sn := &c12snap{facts: map[string]bool{}, puts: map[string]*Term{}, app: s.Get("ap") != "", pos: ev.Pos}
			var ks []string
			for key, v := range s.auto {
				if v == "" {
					continue
				}
				if strings.HasPrefix(key, "f:") {
					a := e.T.all[atoi(key[2:])]
					if about(a) == nil {
						continue
					}
					sn.facts[a.String()] = v == "t"
					ks = append(ks, a.String()+v)
				}
				if strings.HasPrefix(key, "w:") {
					b := e.T.all[atoi(key[2:])]
					var x *Term
					if v != "nil" {
						x = e.T.all[atoi(v)]
					}
					sn.puts[b.String()] = x
					ks = append(ks, "w"+b.String()+v)
				}
			}
			sort.Strings(ks)
			h.snaps[strings.Join(ks, ";")+s.Get("ap")] = sn
			arg := ""
			var args []*Term
			for _, a := range ev.Args {
				if isStringT(a.T) {
					args = append(args, a)
				}
			}
			_ = arg
			e.splitErr(s, ev, func(s *State) {
				for _, a := range args {
					s.Set("rok:"+itoa(a.id), "1")
				}
				s.Set("ref", "ok")
			}, func(s *State) { s.Set("bad", "1") })
		case ev.Name == interpFn:
			raw := false
			for _, t := range e.leaves(ev.Args[0]) {
				if v, n := h.raw(t); v != nil && n.S == nm && v.String() == vs {
					raw = true
				}
			}
			if raw && s.Get("exh") == "" && !h.noRefs(s, ofText) {
				e.Report(s, "references not resolved first", ev.Pos, "the text of a variable can be interpolated before the variables it refers to are resolved")
			}
			e.splitErr(s, ev, func(s *State) {
				if raw {
					s.Set("iok", "1")
				}
			}, func(s *State) { s.Set("bad", "1") })
		}
	}
	h.stores = true
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		n := len(ret)
		if e.Nilness(s, ret[n-1]) == -1 {
			return
		}
		if s.Get("bad") != "" {
			e.Report(s, "failure swallowed", h.fn.Pos(), "the resolution of a variable can succeed although the resolution of a reference or its interpolation failed")
			return
		}
		var val *Term
		for _, r := range ret[:n-1] {
			if isStringT(r.T) {
				val = r
			}
		}
		memoExit := func() {
			for a, v := range s.facts {
				if m := about(a); m != nil && v && m.String() != vs && (a.K == KMapVal || a.K == KMapOK) {
					h.marks[m.String()] = true
				}
			}
		}
		inV, known := false, false
		for a, v := range s.facts {
			if a.K == KMapOK && isNm(a.A[1]) && baseMap(a.A[0]).String() == vs {
				inV, known = v, true
			}
		}
		if val == nil {
			// no value: the resolver fills a map
			if s.Get("iok") == "" && !(known && !inV) {
				memoExit()
			}
			if s.Get("iok") != "" {
				e.Count("value of a variable")
			}
		} else {
			for _, r := range e.leaves(val) {
				switch {
				case r.K == KExt && r.A[0].K == KCall && r.A[0].S == interpFn && s.Get("iok") != "":
					e.Count("value of a variable")
				case r.K == KMapVal && isNm(r.A[1]) && known && !inV:
					e.Count("inherited value")
				case r.K == KMapVal && isNm(r.A[1]) && baseMap(r.A[0]).String() != vs:
					memoExit()
					h.memo[baseMap(r.A[0]).String()] = true
				default:
					e.Report(s, "foreign value", h.fn.Pos(), "a variable can get the value %s, which is neither its interpolated text, nor its finished nor its inherited value", r)
				}
			}
		}
		if s.Get("iok") != "" {
			st := false
			for k, v := range s.auto {
				if strings.HasPrefix(k, "st:") && v != "" {
					st = true
				}
			}
			if !st {
				h.stores = false
			}
		}
	}
	e.Run(e.NewState(h.fn, nil))
	for _, pt := range h.puts {
		switch {
		case h.marks[pt.m] && !pt.ok:
			e.Report(pt.s, "finished mark set early", pt.pos, "a variable is marked as finished in %s before it was resolved", pt.m)
		case h.memo[pt.m] && !pt.val:
			e.Report(pt.s, "foreign value kept", pt.pos, "the value kept for a variable in %s is not the one resolved for it", pt.m)
		}
	}
	h.c.Absorb(e)
}

// noRefs: the text was found to hold no references.
func (h *c12head) noRefs(s *State, ofText func(t *Term) bool) bool {
	for a, v := range s.facts {
		if !a.any(func(x *Term) bool { return x.K == KCall && ofText(x) }) {
			continue
		}
		switch {
		case a.K == KBin && a.S == "==" && a.A[0].K == KLen && a.A[1].S == "0" && v, a.K == KCall && !v:
			return true
		}
	}
	return false
}

// reenter follows the resolver under every state it recurses in, as if the
// reference led back to the same variable.
func (h *c12head) reenter() {
	var keys []string
	for k := range h.snaps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		sn := h.snaps[k]
		cl := h.client()
		e := NewEngine(h.p, cl)
		cl.Oracle = func(e *Engine, s *State, a *Term) (bool, bool) {
			if v, ok := sn.facts[a.String()]; ok {
				return v, true
			}
			if a.K == KCall && strings.HasPrefix(a.S, "slices.Contains") && sn.app {
				return true, true
			}
			x := a
			var cmp *Term
			if a.K == KBin && a.S == "==" {
				x, cmp = a.A[0], a.A[1]
			}
			if (x.K != KMapVal && x.K != KMapOK) || x.A[1].K != KSym {
				return false, false
			}
			v, ok := sn.puts[strip(x.A[0]).String()]
			if !ok {
				return false, false
			}
			switch {
			case x.K == KMapOK:
				return v != nil, true
			case v == nil:
				if cmp == nil {
					return false, true
				}
				return false, false
			case cmp == nil:
				return v.BoolVal()
			case v.K == KConst && cmp.K == KConst:
				return v == cmp || v.S == cmp.S, true
			}
			return false, false
		}
		bad := false
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			switch {
			case h.isRec(ev):
				if !bad {
					e.Report(s, "endless recursion", sn.pos, "a variable that refers to itself, directly or through others, is resolved over and over")
				}
				bad = true
				e.splitErr(s, ev, nil, nil)
			case ev.Name == interpFn:
				e.splitErr(s, ev, nil, nil)
			}
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			if e.Nilness(s, ret[len(ret)-1]) != -1 {
				e.Report(s, "cycle is no error", h.fn.Pos(), "a variable that is reached again while it is being resolved can get a value instead of an error")
				return
			}
			e.Count("re-entry is an error")
		}
		e.Run(e.NewState(h.fn, nil))
		h.c.Absorb(e)
	}
}

// c12root: every own variable is resolved over a copy of the inherited ones.
func c12root(c *Ctx, p *Prog, root *ssa.Function, h *c12head) {
	cl := h.client()
	e := NewEngine(p, cl)
	mt := newMapTrack(p)
	var prm []*Term
	mt.dropped = func(e *Engine, s *State, src *Term, pos tokenPos) {
		e.Report(s, "inherited variable lost", pos, "an inherited variable can be left out of the resolved ones")
	}
	mt.odd = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {}
	own := func(coll *Term) bool {
		return len(prm) > 0 && (coll == prm[0] || keysOfMap(coll) == prm[0])
	}
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
		if own(coll) {
			if s.Get("own") == "pending" {
				e.Report(s, "own variable left out", root.Pos(), "a variable can be left unresolved")
			}
			s.Set("own", "pending")
			k := key
			if !isMapT(coll.T) {
				k = e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
			}
			s.vals["own"] = k
			return
		}
		mt.onIter(e, s, coll, key, root.Pos())
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		if own(coll) {
			if s.Get("own") == "pending" {
				e.Report(s, "own variable left out", root.Pos(), "a variable can be left unresolved")
			}
			s.Set("own", "")
			delete(s.vals, "own")
			s.Set("all", "1")
			return
		}
		mt.onExh(e, s, coll, root.Pos())
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) { mt.onBranch(e, s, a, v) }
	cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
		if s.vals["own"] != nil && k == s.vals["own"] && s.Get("res") == "1" {
			s.Set("put", "1")
		}
		mt.onPut(e, s, m, k, v, pos)
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if h.isRec(ev) || ev.Fn == h.fn {
			// a map of marks must not hold inherited variables
			if ev.Fn == h.fn {
				for i, fv := range h.fn.FreeVars {
					if i < len(ev.Free) && h.marks["*free:"+fv.Name()] {
						m := ev.Free[i]
						if pe := ptrElem(m.T); pe != nil {
							m = e.load(s, m, pe)
						}
						for _, l := range mt.layers(e, s, m) {
							if len(prm) > 1 && l.t == prm[1] {
								e.Report(s, "inherited value preferred", ev.Pos, "an inherited variable counts as already resolved, so it wins over the own definition")
							}
						}
					}
				}
			}
			hit := false
			for _, a := range ev.Args {
				hit = hit || a == s.vals["own"]
			}
			e.splitErr(s, ev, func(s *State) {
				if hit {
					s.Set("own", "ok")
					s.Set("res", "1")
					e.Count("own variable resolved")
				}
			}, func(s *State) { s.Set("bad", "1") })
			return
		}
		mt.onCall(e, s, ev)
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if len(ret) != 2 || e.Nilness(s, ret[1]) == -1 {
			return
		}
		if s.Get("bad") != "" {
			e.Report(s, "failure swallowed", root.Pos(), "resolving variables can succeed although one of them could not be resolved")
			return
		}
		if s.Get("all") == "" && !mt.knownEmpty(e, s, prm[0]) {
			e.Report(s, "own variable left out", root.Pos(), "resolving variables can succeed without going through all of them")
		}
		if strip(ret[0]).K != KAlloc {
			e.Report(s, "variables shared", root.Pos(), "the resolved variables are %s, not a map of their own", ret[0])
			return
		}
		found := false
		for _, l := range mt.layers(e, s, ret[0]) {
			found = found || l.t == prm[1] && l.interp == 0
		}
		if !found && !mt.knownEmpty(e, s, prm[1]) {
			e.Report(s, "inherited variable lost", root.Pos(), "the resolved variables can be without the inherited ones")
		} else {
			e.Count("inherited variables kept")
		}
		if !h.stores && s.Get("res") != "" && s.Get("put") == "" {
			e.Report(s, "value not stored", root.Pos(), "the value resolved for a variable is not stored")
		}
	}
	s := e.NewState(root, nil)
	for _, x := range root.Params {
		if strMap(x.Type()) {
			prm = append(prm, s.top().env[x])
		}
	}
	e.Run(s)
	c.Absorb(e)
}
