package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C07",
		Technique: "path-sensitive value provenance over SSA: every field of every included task, run item and result as a function of the field it comes from, per included file and per item, with separately verified contracts for the helpers that prefix lists and rewrite run items",
		Explain:   "Every include of a file is read, from its absolute path or from the directory of the including file. For every task of an included file, on every path, the task entered in the table under namespace:name has exactly the fields of the original, except: its name, alias, aliases and dependencies carry the namespace; references in run items carry it at every depth; vars and env are the file's own below the task's; silent and output fall back to the file's own; dir falls back to the file's own and then to the file's directory. A name already taken is an error. The tasks of the file itself are entered unchanged, and its global settings are handed on.",
		Run:       runC07,
		Floors:    map[string]int{"included task entered": 1, "own task entered": 1, "include resolved": 2, "name list prefixed": 2, "run item rewritten": 5, "result complete": 1, "collision is an error": 1},
	})
}

// concat flattens string concatenation.
func (e *Engine) concat(s *State, t *Term) []*Term {
	t = strip(t)
	switch {
	case t.K == KBin && t.S == "+" && isStringT(t.T):
		return append(append([]*Term(nil), e.concat(s, t.A[0])...), e.concat(s, t.A[1])...)
	case t.K == KCall && t.S == "fmt.Sprintf" && len(t.A) >= 2:
		f, ok := t.A[0].StrVal()
		l, lok := t.A[1:], true
		if sl, is := t.A[1].T.(*types.Slice); is && len(t.A) == 2 && types.IsInterface(sl.Elem()) {
			l, lok = e.flatSeq(s, t.A[1])
		}
		if !ok || !lok {
			return []*Term{t}
		}
		var out []*Term
		for i := 0; f != ""; {
			j := strings.IndexByte(f, '%')
			if j < 0 || j+1 >= len(f) {
				out = append(out, e.T.Str(f))
				break
			}
			if j > 0 {
				out = append(out, e.T.Str(f[:j]))
			}
			if (f[j+1] != 's' && f[j+1] != 'v') || i >= len(l) {
				return []*Term{t}
			}
			out = append(out, e.concat(s, strip(l[i]))...)
			i++
			f = f[j+2:]
		}
		return out
	case t.K == KCall && t.S == "strings.Join" && len(t.A) == 2:
		l, ok := e.flatSeq(s, t.A[0])
		if !ok {
			return []*Term{t}
		}
		var out []*Term
		for i, x := range l {
			if i > 0 {
				out = append(out, t.A[1])
			}
			out = append(out, e.concat(s, x)...)
		}
		return out
	}
	return []*Term{t}
}

// qualified: t is ns + ":" + name.
func (e *Engine) qualified(s *State, t, ns, name *Term) bool {
	l := e.concat(s, t)
	return len(l) == 3 && l[0] == ns && l[1].K == KConst && l[1].S == `":"` && l[2] == name
}

func c07Prefixer(fn *ssa.Function, p *Prog) bool {
	pr, rs := prms(fn), fn.Signature.Results()
	if p.Rel(fn) != "internal/parser" || fn.Synthetic != "" || fn.Parent() != nil || rs.Len() != 1 || !isStrSlice(rs.At(0).Type()) || len(pr) != 2 {
		return false
	}
	return isStrSlice(pr[0]) && isStringT(pr[1]) || isStrSlice(pr[1]) && isStringT(pr[0])
}

func c07Rewriter(fn *ssa.Function, p *Prog, ps *parseSim) bool {
	rs := fn.Signature.Results()
	if !ps.walk[fn] || rs.Len() != 1 || !isItemSlice(p, rs.At(0).Type()) {
		return false
	}
	for _, t := range prms(fn) {
		if isStringT(t) {
			return true
		}
	}
	return false
}

func runC07(c *Ctx) {
	goos := c.goosList()[0]
	p := c.Prog(goos)
	c.GOOSList = append(c.GOOSList, goos)
	ps := newParseSim(c, p)
	ps.nameContracts(c, "C07")
	mt := newMapTrack(p)
	mt.helperContracts(c, "C07")
	for _, fn := range p.Funcs {
		if c07Prefixer(fn, p) {
			c07Lists(c, p, fn)
		}
		if c07Rewriter(fn, p, ps) {
			c07Items(c, p, ps, fn)
		}
	}
	for _, fn := range ps.files {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if p.calls(ins, map[string]bool{"os.ReadFile": true, "os.Open": true}) {
					c07File(c, p, ps, mt, fn)
				}
			}
		}
	}
}

// seqFill follows a loop that fills one list from another, element by element.
type seqFill struct {
	src   *Term
	elemT types.Type     // type of the list filled, if not that of src
	good  map[*Term]bool // accepted values
	what  string
	at    string
	fn    *ssa.Function
	accep func(e *Engine, s *State, v *Term) string // "" or what is wrong
}

func (q *seqFill) listT() types.Type {
	if q.elemT != nil {
		return q.elemT
	}
	return q.src.T
}

func (q *seqFill) end(e *Engine, s *State) {
	if s.Get("it") == "todo" {
		e.Report(s, q.what+" lost in "+q.at, q.fn.Pos(), "%s can leave out a %s", q.at, q.what)
	}
	s.Set("it", "")
}

func (q *seqFill) hooks(cl *Client) {
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
		if coll != q.src {
			return
		}
		q.end(e, s)
		s.Set("it", "todo")
		s.vals["idx"] = key
		s.vals["el"] = e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		if coll == q.src {
			q.end(e, s)
			s.Set("all", "1")
			delete(s.vals, "el")
		}
	}
	put := func(e *Engine, s *State, v *Term, pos tokenPos) bool {
		if s.Get("it") == "" {
			e.Report(s, "foreign "+q.what+" in "+q.at, pos, "%s adds %s", q.at, v)
			return false
		}
		if s.Get("it") == "done" {
			e.Report(s, q.what+" twice in "+q.at, pos, "%s can add a %s twice", q.at, q.what)
		}
		if w := q.accep(e, s, v); w != "" {
			e.Report(s, w+" in "+q.at, pos, "%s: %s (%s)", q.at, w, v)
		}
		s.Set("it", "done")
		q.good[v] = true
		return true
	}
	cl.OnStore = func(e *Engine, s *State, addr, val *Term, pos tokenPos) {
		if addr.K != KIndexAddr || !types.Identical(ptrElem(addr.T), elemType(q.listT())) {
			return
		}
		if r := rootAlloc(addr); r != nil && r.S == "varargs" {
			return
		}
		if addr.A[1] != s.vals["idx"] {
			e.Report(s, q.what+" moved in "+q.at, pos, "%s stores a %s at another place (%s)", q.at, q.what, addr.A[1])
			return
		}
		if put(e, s, val, pos) {
			s.Set("cont", itoa(addr.A[0].id))
		}
	}
	cl.OnAppend = func(e *Engine, s *State, base *Term, elems []*Term, res *Term, pos tokenPos) {
		if res.T == nil || !types.Identical(res.T.Underlying(), q.listT().Underlying()) {
			return
		}
		for _, x := range elems {
			put(e, s, x, pos)
		}
	}
}

// result checks that what is returned is the list that was filled.
func (q *seqFill) result(e *Engine, s *State, ret *Term) bool {
	if s.Get("all") == "" {
		for f, v := range s.facts {
			if v && f.K == KBin && f.S == "==" && (f.A[0].K == KLen && f.A[0].A[0] == q.src && f.A[1].S == "0" || f.A[0] == q.src && f.A[1].IsNil()) {
				return true
			}
		}
		e.Report(s, q.what+" lost in "+q.at, q.fn.Pos(), "%s can return before it has gone through the whole list", q.at)
		return false
	}
	r := strip(ret)
	root := r
	for root.K == KSub || root.K == KSlice {
		root = root.A[0]
	}
	if s.Get("cont") != "" {
		if itoa(root.id) != s.Get("cont") && itoa(r.id) != s.Get("cont") {
			e.Report(s, "other list returned by "+q.at, q.fn.Pos(), "%s returns %s, not the list it filled", q.at, r)
			return false
		}
		return true
	}
	bases, elems := e.seqLeaves(r)
	for _, x := range elems {
		if !q.good[x] {
			e.Report(s, "other list returned by "+q.at, q.fn.Pos(), "%s returns a list with %s", q.at, x)
			return false
		}
	}
	for _, b := range bases {
		if b.K != KAlloc {
			e.Report(s, "other list returned by "+q.at, q.fn.Pos(), "%s returns a list made from %s", q.at, b)
			return false
		}
	}
	return true
}

// c07Lists: a helper that puts the namespace before every name of a list.
func c07Lists(c *Ctx, p *Prog, fn *ssa.Function) {
	at := p.FnName(fn)
	cl := &Client{Name: "C07", Inline: inPkg(p, "internal/parser")}
	e := NewEngine(p, cl)
	var ns *Term
	q := &seqFill{good: map[*Term]bool{}, what: "name", at: at, fn: fn}
	q.accep = func(e *Engine, s *State, v *Term) string {
		if !e.qualified(s, v, ns, s.vals["el"]) {
			return "name without its namespace"
		}
		return ""
	}
	q.hooks(cl)
	cl.KeepFact = func(e *Engine, a *Term) bool {
		return a.K == KBin && (a.A[0].K == KLen && a.A[0].A[0] == q.src || a.A[0] == q.src)
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if q.result(e, s, ret[0]) {
			e.Count("name list prefixed")
		}
	}
	s := e.NewState(fn, nil)
	for _, prm := range fn.Params {
		if isStringT(prm.Type()) {
			ns = s.top().env[prm]
		} else {
			q.src = s.top().env[prm]
		}
	}
	e.Run(s)
	c.Absorb(e)
}

// c07Items: the helper that puts the namespace into run items.
func c07Items(c *Ctx, p *Prog, ps *parseSim, fn *ssa.Function) {
	at := p.FnName(fn)
	it := p.runItem()
	if it == nil {
		return
	}
	for _, typ := range p.Implementers(it) {
		typ := typ
		cl := &Client{Name: "C07", Inline: func(g *ssa.Function) bool { return p.Rel(g) == "internal/parser" && g != fn }}
		e := NewEngine(p, cl)
		var ns *Term
		q := &seqFill{good: map[*Term]bool{}, what: "run item", at: at, fn: fn}
		cl.Oracle = func(e *Engine, s *State, a *Term) (bool, bool) {
			if a.K == KIsType && a.A[0] == s.vals["el"] && a.A[0] != nil && !types.IsInterface(a.T) {
				return types.Identical(a.T, typ), true
			}
			return false, false
		}
		st := structOf(typ)
		q.accep = func(e *Engine, s *State, v *Term) string {
			el := s.vals["el"]
			if v == el {
				if p.named(typ, "internal/babfile", "TaskRun") || p.named(typ, "internal/babfile", "ParallelRun") {
					return "references of a " + shortType(typ) + " without their namespace"
				}
				e.Count("run item rewritten")
				return ""
			}
			if v.K != KIface || !types.Identical(v.T, typ) {
				return "run item of another kind"
			}
			src := e.T.mk(KAsrt, shortType(typ), "", typ, true, nil, el)
			val := v.A[0]
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				got, want := e.T.Fld(val, f.Name(), f.Type()), e.T.Fld(src, f.Name(), f.Type())
				switch {
				case p.named(typ, "internal/babfile", "TaskRun") && f.Name() == "Task":
					if !e.qualified(s, got, ns, want) {
						return "reference without its namespace"
					}
				case isItemSlice(p, f.Type()):
					if got.K != KCall || got.S != "rewritten" || got.A[0] != want || got.A[1] != ns {
						return "items of a block not rewritten"
					}
				case got != want:
					return "field " + f.Name() + " of a " + shortType(typ) + " changed"
				}
			}
			e.Count("run item rewritten")
			return ""
		}
		q.hooks(cl)
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if ev.Fn != fn {
				return
			}
			var items, n *Term
			for i, a := range ev.Args {
				if t := fn.Params[i].Type(); isItemSlice(p, t) {
					items = a
				} else if isStringT(t) {
					n = a
				}
			}
			ev.Handled = true
			ev.Results = []Outcome{{Ret: e.T.mk(KCall, "rewritten", "", fn.Signature.Results().At(0).Type(), false, nil, items, n)}}
		}
		cl.KeepFact = func(e *Engine, a *Term) bool {
			return a.K == KBin && (a.A[0].K == KLen && a.A[0].A[0] == q.src || a.A[0] == q.src)
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) { q.result(e, s, ret[0]) }
		s := e.NewState(fn, nil)
		for _, prm := range fn.Params {
			if isStringT(prm.Type()) {
				ns = s.top().env[prm]
			} else if isItemSlice(p, prm.Type()) {
				q.src = s.top().env[prm]
			}
		}
		e.Run(s)
		c.Absorb(e)
	}
}

// runItem: the interface of run items.
func (p *Prog) runItem() *types.Interface {
	t, err := p.Type("internal/babfile", "RunItem")
	if err != nil {
		return nil
	}
	it, _ := t.Underlying().(*types.Interface)
	return it
}

// c07File: reading one file with its includes.
func c07File(c *Ctx, p *Prog, ps *parseSim, mt *mapTrack, fn *ssa.Function) {
	at := p.FnName(fn)
	cl := &Client{Name: "C07", CollapseErr: true}
	cl.Inline = func(g *ssa.Function) bool {
		if p.Rel(g) == "internal/babfile" {
			return mt.kind[g] == "" && !ps.names[g] && !ps.recursive(g)
		}
		if p.Rel(g) != "internal/parser" || g == fn || mt.kind[g] != "" || ps.names[g] || c07Prefixer(g, p) || ps.recursive(g) && !ps.reads[g] {
			return false
		}
		return !takesYAML(g) && !returns("*babfile.Schema")(g)
	}
	var path *Term
	taskT, err := p.Type("internal/babfile", "Task")
	if err != nil {
		return
	}
	st := structOf(taskT)
	e := NewEngine(p, cl)
	isBf := func(t *Term) bool { // the file as decoded
		t = strip(t)
		return t.T != nil && p.named(t.T, "internal/babfile", "Schema")
	}
	isInc := func(m *Term) bool { // its includes
		m = strip(m)
		return m.K == KFld && m.S == "Includes" && isBf(m.A[0])
	}
	isOwn := func(m *Term) bool {
		m = strip(m)
		return m.K == KFld && m.S == "Tasks" && isBf(m.A[0])
	}
	isRes := func(m *Term) *Term { // the tasks of an included file
		m = strip(m)
		if m.K == KFld && m.S == "Tasks" && p.named(m.A[0].T, "internal/parser", "ParseResult") {
			return m.A[0]
		}
		return nil
	}
	keys := func(coll, key *Term) (m, k *Term) {
		if isMapT(coll.T) {
			return coll, key
		}
		if m, k := ps.namesOf(e, coll, key); m != nil {
			return m, k
		}
		if m := keysOfMap(coll); m != nil {
			if key == nil {
				return m, nil
			}
			return m, e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
		}
		return nil, nil
	}
	srcFld := func(s *State, t *Term, f string) bool {
		t = strip(t)
		if t.K != KFld || t.S != f {
			return false
		}
		b := t.A[0]
		for b.K == KDeref {
			b = b.A[0]
		}
		if b == s.vals["src"] {
			return true
		}
		return b.K == KMapVal && b.A[1] == s.vals["name"] && (isRes(baseMap(b.A[0])) != nil && isRes(baseMap(b.A[0])) == s.vals["res"])
	}
	endTask := func(e *Engine, s *State) {
		// a loop over the tasks that enters none of them may be a test before
		// the loop that does
		switch s.Get("task") {
		case "todo":
			s.Set("lmiss", "1")
			if s.Get("free") == "" {
				s.Set("lunfree", "1")
			}
		case "done":
			s.Set("lput", "1")
		}
		if s.Get("lmiss") != "" && s.Get("lput") != "" {
			e.Report(s, "included task left out", fn.Pos(), "a task of an included file can be left out")
			s.Set("lmiss", "")
		}
		s.Set("task", "")
	}
	endOwn := func(e *Engine, s *State) {
		if s.Get("own") == "todo" {
			e.Report(s, "own task left out", fn.Pos(), "a task of the file can be left out")
		}
		s.Set("own", "")
	}
	endInc := func(e *Engine, s *State) {
		switch s.Get("inc") {
		case "todo":
			e.Report(s, "include skipped", fn.Pos(), "an include can be skipped")
		case "read":
			e.Report(s, "tasks of an include skipped", fn.Pos(), "the tasks of an included file can be left out")
		}
		s.Set("inc", "")
	}
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
		m, k := keys(coll, key)
		if m == nil {
			return
		}
		switch {
		case isInc(m):
			endInc(e, s)
			s.Set("inc", "todo")
			s.Set("allfree", "")
			s.vals["ns"] = k
			s.vals["incs"] = strip(m)
		case isOwn(m):
			endOwn(e, s)
			s.Set("own", "todo")
			s.vals["oname"] = k
		case isRes(m) != nil && isRes(m) == s.vals["res"]:
			endTask(e, s)
			s.Set("task", "todo")
			s.Set("free", "")
			s.vals["name"] = k
			delete(s.vals, "src")
			if isMapT(coll.T) && elem != nil {
				s.vals["src"] = elem
			}
		}
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		m, _ := keys(coll, nil)
		if m == nil {
			return
		}
		switch {
		case isInc(m):
			endInc(e, s)
			s.Set("allinc", "1")
			delete(s.vals, "ns")
		case isOwn(m):
			endOwn(e, s)
			s.Set("allown", "1")
		case isRes(m) != nil && isRes(m) == s.vals["res"]:
			endTask(e, s)
			if s.Get("inc") == "read" && s.Get("lmiss") == "" {
				s.Set("inc", "done")
			}
			if s.Get("lput") == "" && s.Get("lunfree") == "" {
				s.Set("allfree", "1")
			}
			for _, k := range []string{"lput", "lmiss", "lunfree"} {
				s.Set(k, "")
			}
			delete(s.vals, "name")
			delete(s.vals, "src")
		}
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
		if m, k, f := taskLookup(p, a, v); f != 0 && s.vals["name"] != nil && rootAllocOf(e, s, m) && e.qualified(s, k, s.vals["ns"], s.vals["name"]) {
			if f > 0 {
				s.Set("coll", "1")
				if s.Get("task") == "todo" {
					s.Set("task", "collides")
				}
			} else {
				s.Set("free", "1")
			}
		}
		if w := s.vals["inpath"]; w != nil && a.K == KCall && a.S == "path/filepath.IsAbs" && a.A[0] == w {
			s.Set("abs", map[bool]string{true: "yes", false: "no"}[v])
		}
		mt.onBranch(e, s, a, v)
	}
	cl.KeepFact = func(e *Engine, a *Term) bool {
		return a.K == KCall && a.S == "path/filepath.IsAbs" || a.K == KBin && a.A[0].K == KFld
	}
	wrong := func(e *Engine, s *State, pos tokenPos, what string, v *Term) {
		e.Report(s, what, pos, "an included task has the wrong %s: %s", what, termOr(v, "unset"))
	}
	cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
		if m.T == nil || !isTaskMap(p, m.T) || v == nil {
			mt.onPut(e, s, m, k, v, pos)
			return
		}
		if v.T == nil {
			return
		}
		get := func(f string) *Term {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					return e.load(s, e.fieldAddr(v, st, i), st.Field(i).Type())
				}
			}
			return nil
		}
		ns := s.vals["ns"]
		switch {
		case s.Get("own") != "" && s.Get("task") == "":
			if k != s.vals["oname"] {
				e.Report(s, "own task under another name", pos, "a task is entered as %s", k)
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i).Name()
				got := get(f)
				ok := false
				switch f {
				case "Name":
					ok = got == k
				case "SourcePath":
					ok = got == path
				default:
					g := strip(got)
					ok = g.K == KFld && g.S == f && g.A[0].any(func(x *Term) bool { return x == k }) && g.A[0].any(isBfTerm(p))
				}
				if !ok {
					e.Report(s, "own task changed: "+f, pos, "a task of the file is entered with the wrong %s: %s", f, got)
					return
				}
			}
			s.Set("own", "done")
			s.Set("map", itoa(m.id))
			e.Count("own task entered")
		case s.Get("task") != "":
			name := s.vals["name"]
			if ns == nil || !e.qualified(s, k, ns, name) {
				e.Report(s, "included task under another name", pos, "a task of an included file is entered as %s", k)
				return
			}
			if s.Get("free") == "" && s.Get("allfree") == "" {
				e.Report(s, "task replaced", pos, "a task of an included file can replace another of the same name")
			}
			bad := false
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i).Name()
				got := get(f)
				ok := false
				src := func(g *Term, f string) bool { return srcFld(s, g, f) }
				glob := func(g *Term, f string) bool {
					g = strip(g)
					return g.K == KFld && g.S == f && g.A[0] == s.vals["res"]
				}
				srcTerm := func(f string) *Term { // as the code reads it
					if x := s.vals["src"]; x != nil {
						return fieldTerm(e, x, f)
					}
					return e.T.Fld(e.T.mk(KMapVal, "", "", types.NewPointer(taskT), false, nil, fieldTerm(e, s.vals["res"], "Tasks"), name), f, st.Field(i).Type())
				}
				unset := func(x *Term) int { // 1 unset, -1 set, 0 unknown
					if isStringT(x.T) {
						if em, known := e.strEmpty(s, x); known {
							if em {
								return 1
							}
							return -1
						}
						return 0
					}
					return e.Nilness(s, x)
				}
				switch f {
				case "Name":
					ok = e.qualified(s, got, ns, name)
				case "Alias":
					x := srcTerm("Alias")
					switch unset(x) {
					case 1:
						ok = got.K == KConst && got.S == `""` || got == x
					case -1:
						ok = e.qualified(s, got, ns, x)
					}
				case "Aliases", "Deps":
					x := srcTerm(f)
					if got.K == KCall && len(got.A) == 2 {
						ok = got.A[0] == x && got.A[1] == ns || got.A[1] == x && got.A[0] == ns
					}
				case "Run":
					if got.K == KCall && len(got.A) >= 2 {
						hasNs, hasSrc := false, false
						for _, a := range got.A {
							hasNs = hasNs || a == ns
							hasSrc = hasSrc || src(a, "Run")
						}
						ok = hasNs && hasSrc
					}
				case "Vars", "Env":
					ls := mt.layers(e, s, got)
					ok = len(ls) == 2 && glob(ls[0].t, "Global"+f) && src(ls[1].t, f)
				case "Silent", "Output":
					switch {
					case src(got, f):
						ok = unset(got) == -1 || glob(fieldTerm(e, s.vals["res"], "Global"+f), "Global"+f) && unset(got) == -1
					case glob(got, "Global"+f):
						ok = unset(srcTerm(f)) == 1
					case got.IsNil():
						ok = unset(srcTerm(f)) == 1 && unset(fieldTerm(e, s.vals["res"], "Global"+f)) == 1
					}
				case "Dir":
					gd := fieldTerm(e, s.vals["res"], "GlobalDir")
					switch {
					case src(got, f):
						ok = unset(got) == -1
					case glob(got, "GlobalDir"):
						ok = unset(srcTerm(f)) == 1 && unset(got) == -1
					case got.K == KConst && (got.S == `"."` || got.S == `"./"`):
						ok = unset(srcTerm(f)) == 1 && unset(gd) == 1
					}
				default:
					ok = src(got, f)
				}
				if !ok {
					wrong(e, s, pos, f, got)
					bad = true
				}
			}
			s.Set("task", "done")
			s.Set("map", itoa(m.id))
			if !bad {
				e.Count("included task entered")
			}
		default:
			e.Report(s, "foreign task", pos, "a task is entered that is neither of the file nor of an include: %s", k)
		}
	}
	cl.OnAppend = func(e *Engine, s *State, base *Term, elems []*Term, res *Term, pos tokenPos) {
		mt.onAppend(e, s, elems, pos)
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if mt.onCall(e, s, ev) {
			return
		}
		if ev.Name == "path/filepath.IsAbs" {
			s.vals["inpath"] = ev.Args[0]
		}
		if ev.Fn == fn {
			ns := s.vals["ns"]
			if ns == nil || s.Get("inc") != "todo" {
				e.Report(s, "foreign file read", ev.Pos, "a file is read that no include names")
				return
			}
			var pa *Term
			for i, a := range ev.Args {
				if isStringT(fn.Params[i].Type()) {
					pa = a
				}
			}
			x := pa
			for x.K == KCall && x.S == "path/filepath.Clean" {
				x = x.A[0]
			}
			isP := func(t *Term) bool {
				return t.K == KFld && t.S == "Babfile" && t.A[0].K == KMapVal && strip(t.A[0].A[0]) == s.vals["incs"] && t.A[0].A[1] == ns ||
					t.K == KFld && t.S == "Babfile" && t.A[0].any(func(y *Term) bool { return y == ns })
			}
			known := func(t *Term) string {
				if v, ok := e.Decide(s, e.T.mk(KCall, "path/filepath.IsAbs", "", types.Typ[types.Bool], false, nil, t)); ok {
					return map[bool]string{true: "yes", false: "no"}[v]
				}
				if t == s.vals["inpath"] {
					return s.Get("abs")
				}
				return ""
			}
			ok := false
			if isP(x) {
				ok = known(x) == "yes"
			} else if x.K == KCall && x.S == "path/filepath.Join" {
				l, lok := e.flatSeq(s, x.A[0])
				if !lok {
					l = x.A
				}
				if len(l) == 2 && isP(l[1]) && l[0].K == KCall && l[0].S == "path/filepath.Dir" && l[0].A[0] == path {
					ok = known(l[1]) == "no"
				}
			}
			if !ok {
				e.Report(s, "include path", ev.Pos, "an include is read from %s, which is neither its absolute path nor its path from the including file", pa)
			} else {
				e.Count("include resolved")
			}
			s.Set("inc", "read")
			// what the file yields is named after the include, not after its path,
			// so that the ways to its path do not make different results
			sig, args := fn.Signature, ev.Args
			ev.Args = []*Term{ns}
			defer func() { ev.Args = args }()
			call := e.CallTerm(s, ev, sig)
			s.vals["res"] = e.ext(call, 0, sig.Results().At(0).Type())
			e.splitErr(s, ev, nil, func(s *State) { s.Set("failed", "1") })
			return
		}
		if ev.Fn != nil && !ev.Inline && p.InRepo(ev.Fn) || ev.Name == "os.ReadFile" {
			e.splitErr(s, ev, nil, func(s *State) { s.Set("failed", "1") })
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		bad := e.Nilness(s, ret[1]) == -1
		if s.Get("coll") != "" {
			if !bad {
				e.Report(s, "collision accepted", fn.Pos(), "%s can succeed although two tasks have the same name", at)
			} else {
				e.Count("collision is an error")
			}
			return
		}
		if s.Get("failed") != "" && !bad {
			e.Report(s, "failure accepted", fn.Pos(), "%s can succeed although reading the file or an include failed", at)
			return
		}
		if bad {
			return
		}
		ok := true
		fail := func(key, f string, a ...any) {
			e.Report(s, key, fn.Pos(), f, a...)
			ok = false
		}
		if s.Get("allown") == "" {
			fail("own tasks left out", "%s can succeed without having entered the file's own tasks", at)
		}
		if s.Get("allinc") == "" {
			fail("includes left out", "%s can succeed without having read all includes", at)
		}
		rst := structOf(ret[0].T)
		for i := 0; i < rst.NumFields(); i++ {
			f := rst.Field(i).Name()
			got := strip(e.load(s, e.fieldAddr(ret[0], rst, i), rst.Field(i).Type()))
			switch {
			case f == "Path":
				if got != path {
					fail("result: "+f, "%s yields the path %s", at, got)
				}
			case strings.HasPrefix(f, "Global"):
				if got.K != KFld || got.S != f[6:] || !isBf(got.A[0]) {
					fail("result: "+f, "%s yields %s as %s", at, got, f)
				}
			case f == "Tasks":
				if m := s.Get("map"); m != "" && m != itoa(got.id) {
					fail("result: "+f, "%s yields other tasks than those it entered", at)
				}
			}
		}
		if ok {
			e.Count("result complete")
		}
	}
	s := e.NewState(fn, nil)
	for _, q := range fn.Params {
		if isStringT(q.Type()) {
			path = s.top().env[q]
		}
	}
	if path == nil {
		return
	}
	e.Run(s)
	c.Absorb(e)
}

func isBfTerm(p *Prog) func(t *Term) bool {
	return func(t *Term) bool { return t.T != nil && p.named(t.T, "internal/babfile", "Schema") }
}

// rootAllocOf: the table is one made here (or what it holds by now).
func rootAllocOf(e *Engine, s *State, m *Term) bool {
	for _, c := range s.mem {
		if c == m {
			return true
		}
	}
	b := baseMap(m)
	return b.K == KAlloc || b.K == KMNew || b.K == KLoop || b.K == KHavoc || b.K == KSym
}

// takesYAML: the function decodes YAML nodes or raw data.
func takesYAML(fn *ssa.Function) bool {
	for _, t := range prms(fn) {
		if strings.Contains(t.String(), "yaml") || t.String() == "[]byte" {
			return true
		}
	}
	return false
}
