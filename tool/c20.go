package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C20",
		Technique: "path-sensitive typestate of the temporary file (created, written, synced, closed, renamed) over SSA with fault injection at every call, and the acceptance rule of the reader",
		Explain:   "Every call of the update cache that changes the file system is classified on every path, with each fallible call explored failing and succeeding: the cache file itself is only ever the target of a rename of a temporary file made in its directory that was completely written, synced and closed without error, and a temporary file not renamed is removed. Removals are of that temporary file or of a leftover that has its name pattern and is older than an hour; every such leftover is removed. The reader yields contents only after reading and decoding succeeded, the version is not empty and the time of the check is not in the future, and then always. The structure written is the one read, field by field.",
		Run:       runC20,
		Floors:    map[string]int{"cache replaced": 1, "temporary removed": 3, "leftover removed": 1, "leftover kept": 3, "cache accepted": 1, "cache refused": 4, "field round trip": 3},
	})
}

// cachePath: the term is the path of the cache file (result 0 of the function
// that names it).
func cachePath(t *Term) bool {
	return t.K == KExt && t.S == "0" && t.A[0].K == KCall && strings.HasSuffix(t.A[0].S, ".CacheFile")
}

func updateStruct(p *Prog, t types.Type) *types.Named {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != p.Mod+"/internal/update" {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

func readsFile(name string) bool { return name == "os.ReadFile" || name == "os.Open" }

func runC20(c *Ctx) {
	for _, goos := range c.goosList() {
		c20(c, goos)
	}
}

func c20(c *Ctx, goos string) {
	p := c.Prog(goos)
	c.GOOSList = append(c.GOOSList, goos)
	reach := func(pred func(string) bool) map[*ssa.Function]bool {
		return p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			return ok && p.Rel(fn) == "internal/update" && pred(p.CalleeName(ci.Common()))
		})
	}
	writes := reach(func(n string) bool { return effectKind(n) == "fs-write" })
	reads := reach(readsFile)
	var model *types.Named
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/update" || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		if fn.Object() != nil && fn.Object().Exported() && writes[fn] {
			c20Write(c, p, fn)
		}
		rs := fn.Signature.Results()
		if rs.Len() >= 1 && reads[fn] {
			if n := updateStruct(p, rs.At(0).Type()); n != nil && !n.Obj().Exported() {
				model = n
				c20Read(c, p, fn, n)
			}
		}
	}
	if model == nil {
		return
	}
	st := model.Underlying().(*types.Struct)
	seen := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		name, _, _ := strings.Cut(tag, ",")
		if name == "" {
			name = f.Name()
		}
		name = strings.ToLower(name)
		if !f.Exported() || name == "-" || seen[name] {
			c.Violate("field lost: "+f.Name(), p.Pos(f.Pos()), "field %s of the cache does not survive writing and reading", f.Name())
			continue
		}
		seen[name] = true
		c.Ok("field round trip")
	}
}

// c20Write: what a root of the package does to the file system.
func c20Write(c *Ctx, p *Prog, root *ssa.Function) {
	cl := &Client{Name: "C20", CollapseErr: true}
	cl.Inline = func(fn *ssa.Function) bool { return p.Rel(fn) == "internal/update" && !p.OnCycle(fn) }
	cl.DropFact = func(a *Term) bool {
		return a.any(func(x *Term) bool {
			return x.K == KCall && (strings.HasPrefix(x.S, "os.Getenv") || strings.Contains(x.S, "http"))
		})
	}
	e := NewEngine(p, cl)
	age := func(s *State, ent *Term) bool {
		for a, v := range s.facts {
			if a.K != KBin {
				continue
			}
			l, r, op := a.A[0], a.A[1], a.S
			k, isK := r.IntVal()
			flip := false
			if !isK {
				k, isK = l.IntVal()
				l, flip = r, true
			}
			if !isK || k < int64(3600)*1e9 || l.K != KCall || l.S != "time.Since" || !l.any(func(x *Term) bool { return x == ent }) {
				continue
			}
			switch {
			case !flip && (op == ">" || op == ">=") && v, !flip && (op == "<" || op == "<=") && !v,
				flip && (op == "<" || op == "<=") && v, flip && (op == ">" || op == ">=") && !v:
				return true
			}
		}
		return false
	}
	// young: the entry is known not to be older than an hour (or its age is
	// unknown).
	excuse := func(s *State, ent *Term) bool {
		if s.Get("noinfo") != "" {
			return true
		}
		for a, v := range s.facts {
			switch {
			case a.K == KCall && strings.HasSuffix(a.S, ".IsDir") && v, a.K == KCall && (a.S == "strings.HasPrefix" || a.S == "strings.HasSuffix" || a.S == "path/filepath.Match") && !v:
				if a.any(func(x *Term) bool { return x == ent }) {
					return true
				}
			case a.K == KBin && a.any(func(x *Term) bool { return x == ent }) && a.any(func(x *Term) bool { return x.K == KCall && x.S == "time.Since" }):
				if !age(s, ent) {
					return true
				}
			}
		}
		return false
	}
	nameOf := func(t, ent *Term) bool {
		return t.K == KCall && strings.HasSuffix(t.S, ".Name") && t.any(func(x *Term) bool { return x == ent })
	}
	// inDir: the directory of the cache file
	inDir := func(t *Term) bool { return t.K == KCall && t.S == "path/filepath.Dir" && cachePath(t.A[0]) }
	tmpName := func(s *State, t *Term) bool {
		return t.K == KCall && t.S == "(*os.File).Name" && s.vals["tmp"] != nil && t.A[0] == s.vals["tmp"]
	}
	endEntry := func(s *State) {
		if ent := s.vals["ent"]; ent != nil {
			switch {
			case s.Get("rm") != "":
				e.Count("leftover removed")
			case excuse(s, ent):
				e.Count("leftover kept")
			default:
				e.Report(s, "leftover stays", root.Pos(), "a leftover temporary file older than an hour can stay for ever")
			}
		}
		s.Set("rm", "")
		s.Set("noinfo", "")
		delete(s.vals, "ent")
	}
	isEntries := func(t *Term) bool { return t.K == KExt && t.A[0].K == KCall && t.A[0].S == "os.ReadDir" }
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
		if !isEntries(coll) {
			return
		}
		endEntry(s)
		if elem == nil && coll.T != nil {
			elem = e.elem(s, coll, key, coll.T.Underlying().(*types.Slice).Elem())
		}
		s.vals["ent"] = elem
		s.Set("depth", strconv.Itoa(len(s.frames)))
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		if isEntries(coll) {
			endEntry(s)
			s.Set("depth", "")
		}
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
		if ent := s.vals["ent"]; ent != nil && excuse(s, ent) {
			s.Set("noinfo", "1")
		}
	}
	cl.KeepFact = func(e *Engine, a *Term) bool {
		ent := e.cur.vals["ent"]
		return ent != nil && a.any(func(x *Term) bool { return x == ent })
	}
	step := func(ev *CallEvent, s *State, from, to string) {
		if s.Get("f") != from {
			to = "bad"
		}
		e.splitErr(s, ev, func(s *State) { s.Set("f", to) }, func(s *State) { s.Set("f", "bad") })
	}
	content := func(s *State, t *Term) bool {
		t = strip(t)
		for t.K == KConv || t.K == KSub && false {
			t = t.A[0]
		}
		return t.K == KExt && t.S == "0" && t.A[0].K == KCall && strings.HasPrefix(t.A[0].S, "encoding/json.Marshal")
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Inline {
			return
		}
		onTmp := len(ev.Args) > 0 && s.vals["tmp"] != nil && strip(ev.Args[0]) == s.vals["tmp"]
		switch ev.Name {
		case "os.CreateTemp":
			pat, ok := ev.Args[1].StrVal()
			pre, suf, star := strings.Cut(pat, "*")
			switch {
			case !inDir(ev.Args[0]):
				e.Report(s, "temporary elsewhere", ev.Pos, "the temporary file is made in %s, from where a rename need not be atomic", ev.Args[0])
			case !ok || !star || pre == "" || suf == "":
				e.Report(s, "temporary unrecognisable", ev.Pos, "the temporary file has no name by which a leftover is recognised")
			case s.vals["tmp"] != nil && s.Get("f") != "":
				e.Report(s, "second temporary", ev.Pos, "a second temporary file is made before the first was dealt with")
			}
			e.Events["pattern "+pre+" "+suf]++
			tmp := e.ext(e.CallTerm(s, ev, ev.Fn.Signature), 0, ev.Fn.Signature.Results().At(0).Type())
			e.splitErr(s, ev, func(s *State) { s.vals["tmp"] = tmp; s.Set("f", "new") }, nil)
		case "(*os.File).Write", "(*os.File).WriteString":
			if !onTmp {
				e.Report(s, "other file written", ev.Pos, "the update cache writes to %s", ev.Args[0])
				return
			}
			if !content(s, ev.Args[1]) {
				e.Report(s, "partial content", ev.Pos, "what is written is %s, not the encoded cache", ev.Args[1])
			}
			step(ev, s, "new", "full")
		case "(*encoding/json.Encoder).Encode":
			if r := ev.Args[0]; r.K == KCall && r.S == "encoding/json.NewEncoder" && strip(r.A[0]) == s.vals["tmp"] && s.vals["tmp"] != nil {
				step(ev, s, "new", "full")
			}
		case "(*os.File).Sync":
			if onTmp {
				step(ev, s, "full", "synced")
			}
		case "(*os.File).Close":
			if onTmp {
				if s.Get("f") == "gone" || s.Get("f") == "done" || s.Get("f") == "closed" {
					e.splitErr(s, ev, nil, nil)
					return
				}
				step(ev, s, "synced", "closed")
			}
		case "os.Rename":
			switch {
			case !tmpName(s, ev.Args[0]) || !cachePath(ev.Args[1]):
				e.Report(s, "foreign rename", ev.Pos, "%s is renamed to %s", ev.Args[0], ev.Args[1])
			case s.Get("f") != "closed":
				e.Report(s, "incomplete file renamed", ev.Pos, "the temporary file can replace the cache although it was not completely written, synced and closed")
			default:
				e.Count("cache replaced")
			}
			e.splitErr(s, ev, func(s *State) { s.Set("f", "done") }, nil)
		case "os.Remove":
			a := ev.Args[0]
			ent := s.vals["ent"]
			switch {
			case tmpName(s, a):
				if s.Get("f") != "done" {
					s.Set("f", "gone")
				}
			case cachePath(a) && p.GOOS == "windows" && s.Get("f") == "closed":
			case a.K == KCall && a.S == "path/filepath.Join" && ent != nil:
				l, ok := e.flatSeq(s, a.A[0])
				if !ok {
					l = a.A
				}
				pre, suf := "", ""
				dir := false
				for f, v := range s.facts {
					if f.K != KCall || len(f.A) != 2 || !f.A[0].any(func(x *Term) bool { return x == ent }) {
						if v == false && f.K == KCall && strings.HasSuffix(f.S, ".IsDir") && f.any(func(x *Term) bool { return x == ent }) {
							dir = true
						}
						continue
					}
					k, _ := f.A[1].StrVal()
					if f.S == "strings.HasPrefix" && v {
						pre = k
					}
					if f.S == "strings.HasSuffix" && v {
						suf = k
					}
				}
				switch {
				case len(l) != 2 || !inDir(l[0]) || !nameOf(l[1], ent):
					e.Report(s, "foreign file removed", ev.Pos, "%s is removed", a)
				case pre == "" || suf == "":
					e.Report(s, "unrelated file removed", ev.Pos, "a file of the cache directory can be removed whose name is not that of a temporary file")
				case !age(s, ent):
					e.Report(s, "live temporary removed", ev.Pos, "a temporary file another bab may still be writing can be removed: its age is not known to be over an hour")
				default:
					e.Events["cleanup "+pre+" "+suf]++
					s.Set("rm", "1")
				}
				_ = dir
			default:
				e.Report(s, "foreign file removed", ev.Pos, "%s is removed", a)
			}
			e.splitErr(s, ev, nil, nil)
		case "os.ReadDir", "os.ReadFile":
			e.splitErr(s, ev, nil, nil)
		default:
			if effectKind(ev.Name) == "fs-write" {
				e.Report(s, "written in place", ev.Pos, "%s changes the file system outside the write-and-rename sequence", ev.Name)
				return
			}
			if ent := s.vals["ent"]; ent != nil && strings.HasSuffix(ev.Name, ".Info") && len(ev.Args) == 1 {
				e.splitErr(s, ev, nil, func(s *State) { s.Set("noinfo", "1") })
			}
			if strings.HasPrefix(ev.Name, "encoding/json.Marshal") || strings.HasSuffix(ev.Name, ".CacheFile") {
				e.splitErr(s, ev, nil, nil)
			}
		}
	}
	cl.OnReturn = func(e *Engine, s *State, fn *ssa.Function, ret []*Term) {
		if s.Get("depth") == strconv.Itoa(len(s.frames)) {
			e.Report(s, "clean-up ends early", fn.Pos(), "%s can end before every leftover was looked at", p.FnName(fn))
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		switch s.Get("f") {
		case "", "done":
		case "gone":
			e.Count("temporary removed")
		default:
			e.Report(s, "temporary left", root.Pos(), "%s can end with its temporary file neither renamed nor removed", p.FnName(root))
		}
	}
	e.Run(e.NewState(root, nil))
	// the clean-up recognises exactly the temporary files
	var pats, cleans []string
	for k := range e.Events {
		if x, ok := strings.CutPrefix(k, "pattern "); ok {
			pats = append(pats, x)
			delete(e.Events, k)
		}
		if x, ok := strings.CutPrefix(k, "cleanup "); ok {
			cleans = append(cleans, x)
			delete(e.Events, k)
		}
	}
	for _, x := range pats {
		for _, y := range cleans {
			if x != y {
				e.Report(nil, "leftovers not recognised", root.Pos(), "temporary files are named %q but the clean-up looks for %q", x, y)
			}
		}
	}
	c.Absorb(e)
}

// c20Read: when the contents of the cache file count.
func c20Read(c *Ctx, p *Prog, root *ssa.Function, model *types.Named) {
	cl := &Client{Name: "C20", CollapseErr: true}
	cl.Inline = func(fn *ssa.Function) bool { return p.Rel(fn) == "internal/update" && !p.OnCycle(fn) }
	e := NewEngine(p, cl)
	cl.KeepFact = func(e *Engine, a *Term) bool { return true }
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		switch {
		case readsFile(ev.Name):
			if !cachePath(ev.Args[0]) {
				e.Report(s, "other file read", ev.Pos, "the cache is read from %s", ev.Args[0])
			}
			e.splitErr(s, ev, func(s *State) { s.Set("read", "1") }, func(s *State) { s.Set("bad", "1") })
			s.vals["data"] = e.ext(e.CallTerm(s, ev, ev.Fn.Signature), 0, nil)
		case ev.Name == "encoding/json.Unmarshal":
			s.vals["dec"] = e.CallTerm(s, ev, ev.Fn.Signature)
			s.vals["into"] = strip(ev.Args[1])
			s.Set("dec", "1")
		case strings.HasSuffix(ev.Name, "json.Decoder).Decode"):
			s.vals["dec"] = e.CallTerm(s, ev, ev.Fn.Signature)
			s.vals["into"] = strip(ev.Args[1])
			s.Set("dec", "1")
		}
	}
	about := func(t, into *Term, field string) bool {
		return t.any(func(x *Term) bool {
			return (x.K == KFld || x.K == KFieldAddr || x.K == KHavoc || x.K == KDeref) && strings.Contains(x.String(), field)
		})
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		empty, future := 0, 0 // 1: known to be, -1: known not to be
		into := s.vals["into"]
		for a, v := range s.facts {
			sgn := map[bool]int{true: 1, false: -1}[v]
			switch {
			case a.K == KBin && a.S == "==" && a.A[1].S == `""` && about(a.A[0], into, "LatestVersion"), a.K == KBin && a.S == "==" && a.A[0].K == KLen && a.A[1].S == "0" && about(a.A[0], into, "LatestVersion"):
				empty = sgn
			case a.K == KCall && a.S == "(time.Time).After" && about(a.A[0], into, "CheckedAt") && isNow(a.A[1]):
				future = sgn
			case a.K == KCall && a.S == "(time.Time).Before" && about(a.A[1], into, "CheckedAt") && isNow(a.A[0]):
				future = sgn
			case a.K == KBin && a.A[0].K == KCall && (a.A[0].S == "time.Since" || a.A[0].S == "time.Until") && a.A[1].S == "0" && about(a.A[0].A[0], into, "CheckedAt"):
				neg := a.S == "<" || a.S == "<="
				if a.A[0].S == "time.Until" {
					neg = !neg
				}
				if neg {
					future = sgn
				} else {
					future = -sgn
				}
			}
		}
		dec := 0
		if s.Get("dec") != "" {
			dec = -e.Nilness(s, s.vals["dec"]) // 1: failed
			if e.Nilness(s, s.vals["dec"]) == 1 {
				dec = -1
			} else if e.Nilness(s, s.vals["dec"]) == -1 {
				dec = 1
			}
		}
		yield := e.Nilness(s, ret[0]) != 1
		if yield {
			switch {
			case s.Get("read") == "" || s.Get("bad") != "":
				e.Report(s, "unread cache counts", root.Pos(), "contents are yielded that were not read")
			case dec != -1:
				e.Report(s, "undecodable cache counts", root.Pos(), "a cache that could not be decoded can count")
			case empty != -1:
				e.Report(s, "empty version counts", root.Pos(), "a cache without a version can count")
			case future != -1:
				e.Report(s, "future check counts", root.Pos(), "a cache dated in the future can count: no new version would be looked for until then")
			default:
				e.Count("cache accepted")
			}
			return
		}
		switch {
		case s.Get("read") == "", s.Get("bad") != "", dec == 1, empty == 1, future == 1:
			e.Count("cache refused")
		default:
			e.Report(s, "good cache refused", root.Pos(), "a readable cache with a version and a past date can be ignored")
		}
	}
	e.Run(e.NewState(root, nil))
	c.Absorb(e)
}

func isNow(t *Term) bool {
	for t.K == KCall && (t.S == "(time.Time).UTC" || t.S == "(time.Time).Local" || t.S == "(time.Time).In") {
		t = t.A[0]
	}
	return t.K == KCall && t.S == "time.Now"
}
