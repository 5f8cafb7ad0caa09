package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C27",
		Technique: "path-sensitive typestate of every candidate file (untested, missing, directory, file) and of the directory walk over SSA, with the list of names read from the source",
		Explain:   "The file names tried are the documented ones in their order. On every path of the search, each candidate is the name joined to the current directory, is tested, and is passed over only when it is missing or a directory; a file is returned at once, and nothing but the candidate just found to be a file is returned. The current directory starts at the working directory and only ever becomes its own parent, after all names were tried in it; the search fails only at a directory that is its own parent. A Babfile given by the user is loaded as given, and the search is used only when none is.",
		Run:       runC27,
		Floors:    map[string]int{"names in order": 1, "candidate found": 1, "candidate passed over": 2, "directory left": 1, "not found": 1, "path loaded": 2},
	})
}

var babNames = []string{"Babfile", "Babfile.yaml", "Babfile.yml", "babfile.yaml", "babfile.yml"}

// stringList: the constants a package-level list of strings is initialised
// with, when nothing else writes to it.
func (p *Prog) stringList(g *ssa.Global) ([]string, bool) {
	init := g.Pkg.Func("init")
	var arr ssa.Value
	for _, fn := range append(p.Funcs, init) {
		if fn == nil || fn.Pkg != g.Pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				if fn != init || arr != nil {
					return nil, false
				}
				switch v := st.Val.(type) {
				case *ssa.Slice:
					arr = v.X
				case *ssa.UnOp:
					arr = v.X
				default:
					return nil, false
				}
			}
		}
	}
	if at, ok := ptrElem(g.Type()).Underlying().(*types.Array); ok && arr == nil && init != nil {
		return p.constArray(g, at)
	}
	if arr == nil {
		return nil, false
	}
	at, ok := ptrElem(arr.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	return p.constArray(arr, at)
}

// constArray: the constants stored in the elements of an array.
func (p *Prog) constArray(arr ssa.Value, at *types.Array) ([]string, bool) {
	out := make([]string, at.Len())
	refs := arr.Referrers()
	var ins []ssa.Instruction
	if refs != nil {
		ins = *refs
	} else if g, ok := arr.(*ssa.Global); ok {
		for _, fn := range append(p.Funcs, g.Pkg.Func("init")) {
			if fn == nil || fn.Pkg != g.Pkg {
				continue
			}
			for _, b := range fn.Blocks {
				for _, x := range b.Instrs {
					if ia, ok := x.(*ssa.IndexAddr); ok && ia.X == arr {
						if _, c := ia.Index.(*ssa.Const); c || fn.Name() == "init" {
							ins = append(ins, x)
						}
					}
				}
			}
		}
	}
	for _, r := range ins {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok {
				k, ok := st.Val.(*ssa.Const)
				if !ok {
					return nil, false
				}
				out[i.Int64()] = strings.Trim(k.Value.ExactString(), `"`)
			}
		}
	}
	return out, true
}

func runC27(c *Ctx) {
	goos := c.goosList()[0]
	p := c.Prog(goos)
	c.GOOSList = append(c.GOOSList, goos)
	stat := map[string]bool{"os.Stat": true, "os.Lstat": true, "os.Open": true, "os.ReadFile": true}
	find := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		rs := fn.Signature.Results()
		if p.Rel(fn) == "internal/finder" && fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() && rs.Len() == 2 && isStringT(rs.At(0).Type()) {
			find[fn] = true
			c27Find(c, p, fn, stat)
		}
	}
	for _, fn := range p.Funcs {
		if returnsParse(p, fn) && p.Rel(fn) != "internal/parser" {
			c27Load(c, p, fn, find)
		}
	}
}

func c27Find(c *Ctx, p *Prog, fn *ssa.Function, stat map[string]bool) {
	cl := &Client{Name: "C27", CollapseErr: true, ConstIter: true, Inline: inPkg(p, "internal/finder")}
	e := NewEngine(p, cl)
	var names *Term
	var wd *Term
	// parents of directories in which every name was tried
	okDir := map[*Term]bool{}
	// isCur: t runs from the working directory upwards
	var isCur func(t *Term) bool
	isCur = func(t *Term) bool {
		if t == wd {
			return wd != nil
		}
		if okDir[t] {
			return true
		}
		li := e.Loops[t]
		if li == nil || wd == nil || len(li.Entry) == 0 {
			return false
		}
		for x := range li.Entry {
			if x != wd && !okDir[x] {
				return false
			}
		}
		for x := range li.Back {
			if x != t && !okDir[x] {
				return false
			}
		}
		return true
	}
	end := func(e *Engine, s *State) {
		switch s.Get("c") {
		case "todo":
			e.Report(s, "candidate not tested", fn.Pos(), "the search can pass over a name without having tested it")
		case "there", "file":
			e.Report(s, "file passed over", fn.Pos(), "the search can pass over a file of the right name")
		case "gone", "dir":
			e.Count("candidate passed over")
		}
		s.Set("c", "")
	}
	isNames := func(coll *Term) bool {
		if coll.T == nil {
			return false
		}
		t := coll.T.Underlying()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem().Underlying()
		}
		switch x := t.(type) {
		case *types.Slice:
			return isStringT(x.Elem())
		case *types.Array:
			return isStringT(x.Elem())
		}
		return false
	}
	setNames := func(s *State, coll *Term) {
		if !isNames(coll) {
			return
		}
		if names == nil {
			names = coll
			ok := false
			if l, k := e.flatSeq(s, coll); k {
				var got []string
				for _, x := range l {
					v, _ := x.StrVal()
					got = append(got, v)
				}
				ok = strings.Join(got, " ") == strings.Join(babNames, " ")
			} else {
				coll.any(func(x *Term) bool {
					if g, is := x.Obj.(*ssa.Global); is {
						if l, k := p.stringList(g); k {
							ok = strings.Join(l, " ") == strings.Join(babNames, " ")
						}
					}
					return false
				})
			}
			if !ok {
				e.Report(s, "names", fn.Pos(), "the names tried are not %s, in this order", strings.Join(babNames, ", "))
			} else {
				e.Count("names in order")
			}
		}
	}
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
		setNames(s, coll)
		if coll != names {
			return
		}
		end(e, s)
		s.Set("c", "todo")
		s.Set("exh", "")
		s.vals["n"] = elem
		if elem == nil {
			b := coll
			if b.K == KSlice {
				b = b.A[0]
			}
			ty := types.Typ[types.String]
			s.vals["n"] = e.load(s, e.T.mk(KIndexAddr, "", "", types.NewPointer(ty), false, nil, b, key), ty)
		}
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		setNames(s, coll)
		if coll == names && names != nil {
			end(e, s)
			s.Set("exh", "1")
			delete(s.vals, "n")
			delete(s.vals, "path")
			delete(s.vals, "info")
		}
	}
	cand := func(s *State, t *Term) bool {
		if t.K != KCall || t.S != "path/filepath.Join" {
			return false
		}
		l, ok := e.flatSeq(s, t.A[0])
		if !ok {
			l = t.A
		}
		return len(l) == 2 && isCur(l[0]) && l[1] == s.vals["n"] && l[1] != nil
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		switch {
		case ev.Name == "os.Getwd":
			e.splitErr(s, ev, nil, func(s *State) { s.Set("nowd", "1") })
			wd = e.ext(e.CallTerm(s, ev, ev.Fn.Signature), 0, types.Typ[types.String])
		case stat[ev.Name]:
			if !cand(s, ev.Args[0]) {
				e.Report(s, "foreign candidate", ev.Pos, "the search tests %s, which is not the next name in the current directory", ev.Args[0])
				return
			}
			s.vals["path"] = ev.Args[0]
			s.vals["dir"] = ev.Args[0].A[0]
			if l, ok := e.flatSeq(s, ev.Args[0].A[0]); ok {
				s.vals["dir"] = l[0]
			}
			s.vals["info"] = e.ext(e.CallTerm(s, ev, ev.Fn.Signature), 0, ev.Fn.Signature.Results().At(0).Type())
			e.splitErr(s, ev, func(s *State) { s.Set("c", "there") }, func(s *State) { s.Set("c", "gone") })
		case ev.Name == "path/filepath.Dir" && isCur(ev.Args[0]):
			if s.Get("exh") == "" && s.Get("c") != "" {
				e.Report(s, "directory left early", ev.Pos, "the search can go to the parent before all names were tried")
			} else if s.Get("exh") != "" {
				e.Count("directory left")
				if d := s.vals["dir"]; d == ev.Args[0] {
					okDir[e.CallTerm(s, ev, ev.Fn.Signature)] = true
				}
			}
		}
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
		if s.Get("c") == "there" && s.vals["info"] != nil && a.K == KCall && strings.HasSuffix(a.S, ".IsDir") && a.any(func(x *Term) bool { return x == s.vals["info"] }) {
			s.Set("c", map[bool]string{true: "dir", false: "file"}[v])
		}
	}
	cl.KeepFact = func(e *Engine, a *Term) bool {
		return a.K == KBin && a.any(func(x *Term) bool { return x.K == KCall && x.S == "path/filepath.Dir" })
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if e.Nilness(s, ret[1]) != -1 {
			switch {
			case s.vals["path"] == nil || ret[0] != s.vals["path"]:
				e.Report(s, "foreign path returned", fn.Pos(), "the search returns %s, which is not the candidate it found", ret[0])
			case s.Get("c") != "file":
				e.Report(s, "untested path returned", fn.Pos(), "the search can return a path that is not known to be a file")
			default:
				e.Count("candidate found")
			}
			return
		}
		if s.Get("nowd") != "" {
			return
		}
		if s.Get("c") == "file" || s.Get("c") == "there" {
			e.Report(s, "file not returned", fn.Pos(), "the search can fail although it found a file")
			return
		}
		root := false
		for a, v := range s.facts {
			if v && a.K == KBin && a.S == "==" {
				x, y := a.A[0], a.A[1]
				if y.K == KCall && y.S == "path/filepath.Dir" {
					x, y = y, x
				}
				if x.K == KCall && x.S == "path/filepath.Dir" && x.A[0] == y && isCur(y) {
					root = true
				}
			}
		}
		if !root || s.Get("exh") == "" {
			e.Report(s, "search ends early", fn.Pos(), "the search can fail before it has tried every directory up to the root")
		} else {
			e.Count("not found")
		}
	}
	e.Run(e.NewState(fn, nil))
	c.Absorb(e)
}

// c27Load: what is loaded when.
func c27Load(c *Ctx, p *Prog, fn *ssa.Function, find map[*ssa.Function]bool) {
	cl := &Client{Name: "C27", CollapseErr: true}
	cl.Inline = func(g *ssa.Function) bool { return p.Rel(g) == p.Rel(fn) && g != fn && !p.OnCycle(g) }
	e := NewEngine(p, cl)
	var given *Term
	cl.KeepFact = func(e *Engine, a *Term) bool { return a.K == KBin && a.A[0] == given }
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Fn == nil || ev.Inline {
			return
		}
		if find[ev.Fn] {
			if em, ok := e.strEmpty(s, given); !ok || !em {
				e.Report(s, "search although a Babfile was given", ev.Pos, "the search can be used although the user gave a Babfile")
			}
			s.vals["found"] = e.ext(e.CallTerm(s, ev, ev.Fn.Signature), 0, types.Typ[types.String])
			e.splitErr(s, ev, nil, nil)
			return
		}
		if returnsParse(p, ev.Fn) && len(ev.Args) == 1 {
			a := ev.Args[0]
			em, ok := e.strEmpty(s, given)
			switch {
			case a == given && ok && !em, a == s.vals["found"] && ok && em:
				e.Count("path loaded")
			default:
				e.Report(s, "another file loaded", ev.Pos, "%s loads %s", p.FnName(fn), a)
			}
			s.Set("n", s.Get("n")+"1")
			s.vals["res"] = e.ext(e.CallTerm(s, ev, ev.Fn.Signature), 0, ev.Fn.Signature.Results().At(0).Type())
			e.splitErr(s, ev, nil, nil)
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if e.Nilness(s, ret[1]) == -1 {
			return
		}
		if s.Get("n") != "1" || ret[0] != s.vals["res"] {
			e.Report(s, "another result", fn.Pos(), "%s can yield something else than the file it loaded", p.FnName(fn))
		}
	}
	s := e.NewState(fn, nil)
	for _, q := range fn.Params {
		if isStringT(q.Type()) {
			given = s.top().env[q]
		}
	}
	if given == nil {
		return
	}
	e.Run(s)
	c.Absorb(e)
	_ = token.EQL
}
