package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C19",
		Technique: "path-sensitive effect analysis over SSA of the update check: which effects are reached under which branch facts, in the background or not, and value provenance of the version stored and reported",
		Explain:   "On every path of the update package's entry points used by the command, with every fallible call explored failing and succeeding: a request, a file access or a goroutine is reached only after the opt-out variables and a development version were tested and found not to apply; a request is made only in a goroutine, at most once, over https with a time limit, only when there is no cached answer or it is over 24 hours old, and then always; the foreground never waits, and no path prints, panics or exits. What is stored is the version of an answer with status 200, or the cached one confirmed by status 304, and not empty; the answer is read through a size limit. An entry is reported exactly when the cached version compares greater than the running one, with these two versions, and the command shows it.",
		Run:       runC19,
		Floors:    map[string]int{"effect after opt-out test": 4, "refresh started": 1, "refresh not needed": 1, "request in background": 1, "version stored": 2, "update reported": 1, "nothing to report": 3, "report shown": 1, "answer limited": 1},
	})
}

func isUpdateInfo(p *Prog, t types.Type) bool {
	n := updateStruct(p, t)
	return n != nil && n.Obj().Exported()
}

func runC19(c *Ctx) {
	for _, goos := range c.goosList() {
		c19(c, goos)
	}
}

func c19(c *Ctx, goos string) {
	p := c.Prog(goos)
	c.GOOSList = append(c.GOOSList, goos)
	mainFn, err := p.Func("", "main")
	must(c, 0, err)
	live := p.ReachableFrom(mainFn)
	net := net0(p)
	for fn := range net {
		if live[fn] && p.InRepo(fn) && p.Rel(fn) != "internal/update" {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok && effectKind(p.CalleeName(ci.Common())) == "net" {
						c.Violate("network elsewhere", p.Pos(ins.Pos()), "%s uses the network", p.FnName(fn))
					}
				}
			}
		}
	}
	entries := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if p.Rel(fn) == "internal/update" && fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() && live[fn] && fn.Signature.Recv() == nil {
			entries[fn] = true
			c19Entry(c, p, fn, net[fn])
		}
	}
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/update" || !live[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					if _, ok := ins.(*ssa.Panic); ok {
						c.Violate("panic", p.Pos(ins.Pos()), "%s can panic", p.FnName(fn))
					}
					continue
				}
				n := p.CalleeName(ci.Common())
				if printer(n) || strings.HasPrefix(n, logPkg+".Fatal") || strings.HasPrefix(n, "log.") || n == "os.Exit" {
					c.Violate("not silent", p.Pos(ins.Pos()), "%s calls %s", p.FnName(fn), n)
				}
			}
		}
		c.Ok("silent function")
	}
	// the callers show what is reported
	for _, fn := range p.Funcs {
		if p.Rel(fn) == "internal/update" || !live[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(*ssa.Call); ok && entries[ci.Call.StaticCallee()] && ci.Type() != nil && isPtrInfo(p, ci.Type()) {
					c19Show(c, p, fn, entries)
				}
			}
		}
	}
}

func net0(p *Prog) map[*ssa.Function]bool {
	return p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		return ok && effectKind(p.CalleeName(ci.Common())) == "net"
	})
}

func isPtrInfo(p *Prog, t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok && isUpdateInfo(p, t)
}

func c19Show(c *Ctx, p *Prog, fn *ssa.Function, entries map[*ssa.Function]bool) {
	cl := &Client{Name: "C19", CollapseErr: true}
	cl.Inline = func(g *ssa.Function) bool {
		if p.Rel(g) != p.Rel(fn) || p.OnCycle(g) {
			return false
		}
		for _, q := range g.Params {
			if isPtrInfo(p, q.Type()) {
				return true
			}
		}
		return false
	}
	e := NewEngine(p, cl)
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Fn != nil && entries[ev.Fn] && isPtrInfo(p, resultType(ev.Fn)) {
			s.vals["info"] = e.CallTerm(s, ev, ev.Fn.Signature)
			s.Set("shown", "")
			return
		}
		if info := s.vals["info"]; info != nil && printer(ev.Name) {
			for _, a := range e.flat(s, ev.Args) {
				if a.any(func(x *Term) bool { return x == info }) {
					if e.Nilness(s, info) != -1 {
						e.Report(s, "nothing shown as update", ev.Pos, "an update can be announced without there being one")
					}
					s.Set("shown", "1")
				}
			}
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		info := s.vals["info"]
		if info == nil {
			return
		}
		if s.Get("shown") != "" {
			e.Count("report shown")
		} else if e.Nilness(s, info) != 1 {
			e.Report(s, "update not shown", fn.Pos(), "a newer version can go unannounced")
		}
	}
	e.Run(e.NewState(fn, nil))
	c.Absorb(e)
}

func resultType(fn *ssa.Function) types.Type {
	if fn.Signature.Results().Len() == 0 {
		return types.Typ[types.Invalid]
	}
	return fn.Signature.Results().At(0).Type()
}

func c19Entry(c *Ctx, p *Prog, root *ssa.Function, net bool) {
	cl := &Client{Name: "C19", CollapseErr: true}
	writes := p.Reaching(func(fn *ssa.Function, ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		return ok && effectKind(p.CalleeName(ci.Common())) == "fs-write"
	})
	netFns := net0(p)
	// isSave: the function that stores an answer (how is C20's subject)
	isSave := func(fn *ssa.Function) bool {
		if fn == root || !writes[fn] || netFns[fn] {
			return false
		}
		for _, q := range fn.Params {
			if n := updateStruct(p, q.Type()); n != nil && !n.Obj().Exported() {
				return true
			}
		}
		return false
	}
	cl.Inline = func(fn *ssa.Function) bool {
		return p.Rel(fn) == "internal/update" && !p.OnCycle(fn) && !isSave(fn)
	}
	e := NewEngine(p, cl)
	var version *Term
	const day = int64(24 * 3600 * 1e9)
	env := func(t *Term, name string) bool {
		if t.K == KExt {
			t = t.A[0]
		}
		if t.K != KCall || t.S != "os.Getenv" && t.S != "os.LookupEnv" {
			return false
		}
		k, _ := t.A[0].StrVal()
		return k == name
	}
	opts := []struct{ what, val string }{{"BAB_NO_UPDATE_CHECK", "1"}, {"CI", "true"}, {"CI", "1"}, {"", "dev"}, {"", ""}}
	is := func(t *Term, what string) bool {
		if what == "" {
			return t == version
		}
		return env(t, what)
	}
	// optOut: 1 the check is known to be off, -1 known to be on, 0 unknown
	optOut := func(s *State) (int, string) {
		off := make([]int, len(opts))
		for a, v := range s.facts {
			for i, o := range opts {
				hit := false
				switch {
				case a.K == KBin && a.S == "==" && is(a.A[0], o.what) && a.A[1].K == KConst:
					k, ok := a.A[1].StrVal()
					hit = ok && k == o.val
					if v && ok && k != o.val {
						off[i] = -1
					}
				case a.K == KBin && a.S == "==" && a.A[0].K == KLen && is(a.A[0].A[0], o.what) && o.val == "":
					hit = a.A[1].S == "0"
				case a.K == KCall && a.S == "slices.Contains" && is(a.A[1], o.what):
					if l, ok := e.flatSeq(s, a.A[0]); ok {
						in := false
						for _, x := range l {
							if k, ok := x.StrVal(); ok && k == o.val {
								in = true
							}
						}
						if in && !v {
							off[i] = -1
						} else if v {
							off[i] = 1
						}
					}
				}
				if hit {
					off[i] = map[bool]int{true: 1, false: -1}[v]
				}
			}
		}
		res, miss := -1, ""
		for i, x := range off {
			if x == 1 {
				return 1, ""
			}
			if x == 0 && res == -1 {
				res, miss = 0, opts[i].what+"="+opts[i].val
				if opts[i].what == "" {
					miss = "version " + opts[i].val
				}
			}
		}
		return res, miss
	}
	// fresh: 1 the cached answer is known to be under a day old, -1 over
	fresh := func(s *State) int {
		for a, v := range s.facts {
			sgn := map[bool]int{true: 1, false: -1}[v]
			mentions := func(t *Term) bool {
				return t.any(func(x *Term) bool { return strings.Contains(x.S, "CheckedAt") })
			}
			if !mentions(a) {
				continue
			}
			if a.K == KBin {
				l, r, op := a.A[0], a.A[1], a.S
				k, ok := r.IntVal()
				flip := false
				if !ok {
					k, ok = l.IntVal()
					l, flip = r, true
				}
				if !ok || k != day || l.K != KCall || l.S != "time.Since" {
					continue
				}
				switch {
				case (op == "<" || op == "<=") != flip:
					return sgn
				default:
					return -sgn
				}
			}
			if a.K == KCall && (a.S == "(time.Time).After" || a.S == "(time.Time).Before") {
				x, y, before := a.A[0], a.A[1], a.S == "(time.Time).Before"
				if isNow(y) {
					x, y, before = y, x, !before
				}
				// now before checked+day: fresh
				if isNow(x) && y.K == KCall && y.S == "(time.Time).Add" {
					if k, ok := y.A[1].IntVal(); ok && k == day {
						if before {
							return sgn
						}
						return -sgn
					}
				}
			}
		}
		return 0
	}
	cl.KeepFact = func(e *Engine, a *Term) bool {
		return a.any(func(x *Term) bool {
			return x == version || strings.Contains(x.S, "CheckedAt") || strings.Contains(x.S, "Getenv") || strings.Contains(x.S, "GreaterThan") || strings.Contains(x.S, "LessThan") || strings.Contains(x.S, "Version).Compare") || strings.Contains(x.S, "StatusCode") || strings.Contains(x.S, "LatestVersion") || strings.Contains(x.S, "TagName") || strings.Contains(x.S, "ReadFile") || strings.Contains(x.S, "json")
		})
	}
	effect := func(s *State, what string, pos tokenPos) {
		switch on, miss := optOut(s); on {
		case -1:
			e.Count("effect after opt-out test")
		case 1:
			e.Report(s, "effect although off", pos, "the update check reaches %s although it is switched off", what)
		default:
			e.Report(s, "effect before opt-out test", pos, "the update check reaches %s without having tested %s", what, miss)
		}
	}
	anyEmpty := func(s *State) bool {
		for a, v := range s.facts {
			if v && a.K == KBin && a.S == "==" && a.A[1].S == `""` && (a.A[0].contains(version) || strings.Contains(a.A[0].String(), "LatestVersion")) {
				return true
			}
		}
		return false
	}
	// noCache: nothing was read, or the reader refused it (C20)
	noCache := func(s *State) bool {
		return s.Get("rd") == "" || s.Get("rd") == "none" || cacheRefused(e, s) || anyEmpty(s)
	}
	cl.OnGo = func(e *Engine, s *State, fn *Term, args []*Term, pos tokenPos, end bool) {
		if end {
			s.Set("bg", "")
			return
		}
		s.Set("bg", "1")
		s.Set("started", "1")
		effect(s, "a goroutine", pos)
		if !net {
			return
		}
		switch f := fresh(s); {
		case f == 1:
			e.Report(s, "refresh too early", pos, "the server can be asked again although the last answer is under 24 hours old")
		case f == 0 && !noCache(s):
			e.Report(s, "refresh without looking", pos, "the server can be asked without the age of the last answer being known to be over 24 hours")
		default:
			e.Count("refresh started")
		}
	}
	cl.OnPanic = func(e *Engine, s *State, pos tokenPos) {
		e.Report(s, "panic", pos, "the update check can panic")
	}
	cl.OnSend = func(e *Engine, s *State, ch *Term, pos tokenPos, recv bool) {
		if s.Get("bg") == "" {
			e.Report(s, "foreground waits", pos, "the update check can wait on a channel in the foreground")
		}
	}
	body := func(t *Term) bool {
		return strip(t).any(func(x *Term) bool { return strings.HasSuffix(x.S, "Body") && x.K == KFld })
	}
	limited := func(t *Term) bool {
		return t.any(func(x *Term) bool {
			return x.K == KCall && (x.S == "io.LimitReader" || x.S == "net/http.MaxBytesReader") || strings.HasSuffix(x.S, "io.LimitedReader")
		})
	}
	statusIs := func(s *State, code string) bool {
		for a, v := range s.facts {
			if v && a.K == KBin && a.S == "==" && strings.HasSuffix(a.A[0].String(), "StatusCode") && a.A[1].S == code {
				return true
			}
		}
		return false
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Inline {
			return
		}
		switch k := effectKind(ev.Name); {
		case k == "exec" || k == "prompt" || k == "tui" || k == "process-state":
			e.Report(s, "foreign effect", ev.Pos, "the update check reaches %s", ev.Name)
			return
		case k == "net":
			effect(s, ev.Name, ev.Pos)
			switch {
			case s.Get("bg") == "":
				e.Report(s, "request in foreground", ev.Pos, "the server is asked in the foreground: bab waits for it")
			case s.Get("asked") != "":
				e.Report(s, "second request", ev.Pos, "the server can be asked more than once")
			case !timeLimited(e, s, ev):
				e.Report(s, "request without limit", ev.Pos, "the request has no time limit")
			default:
				e.Count("request in background")
			}
			s.Set("asked", "1")
			e.splitErr(s, ev, nil, func(s *State) { s.Set("asked", "failed") })
			return
		case k == "fs-write", strings.HasSuffix(ev.Name, ".CacheFile"):
			effect(s, ev.Name, ev.Pos)
		}
		switch {
		case readsFile(ev.Name):
			effect(s, ev.Name, ev.Pos)
			s.Set("rd", "1")
			e.splitErr(s, ev, nil, func(s *State) { s.Set("rd", "none") })
			return
		case strings.HasPrefix(ev.Name, "net/http.NewRequest"):
			for _, a := range ev.Args {
				if k, ok := a.StrVal(); ok && strings.Contains(k, "://") {
					if !strings.HasPrefix(k, "https://api.github.com/repos/bab-sh/bab/") {
						e.Report(s, "another server", ev.Pos, "the version is asked for at %s", k)
					}
					s.Set("url", "1")
				}
			}
			e.splitErr(s, ev, nil, nil)
			return
		case strings.HasPrefix(ev.Name, "(net/http.Header).") && len(ev.Args) == 3:
			if k, _ := ev.Args[1].StrVal(); k == "If-None-Match" && !strings.Contains(ev.Args[2].String(), "ETag") {
				e.Report(s, "wrong tag sent", ev.Pos, "the tag sent is %s, not that of the cached version", ev.Args[2])
			}
		case ev.Name == "time.Sleep" || strings.HasSuffix(ev.Name, ").Wait") && strings.HasPrefix(ev.Name, "(*sync."):
			if s.Get("bg") == "" {
				e.Report(s, "foreground waits", ev.Pos, "the update check can wait in the foreground")
			}
		case ev.Name == "encoding/json.NewDecoder" || ev.Name == "io.ReadAll":
			if body(ev.Args[0]) {
				if !limited(ev.Args[0]) {
					e.Report(s, "answer unlimited", ev.Pos, "the answer is read without a limit on its size")
				} else {
					e.Count("answer limited")
				}
			}
		case jsonDecoder(ev.Name):
			if updateStruct(p, strip(ev.Args[1]).T) == nil {
				s.vals["dec"] = e.CallTerm(s, ev, ev.Fn.Signature)
			}
		case strings.HasPrefix(ev.Name, "encoding/json.Marshal"), ev.Fn != nil && isSave(ev.Fn):
			// what is stored
			obj := strip(ev.Args[0])
			for _, a := range ev.Args {
				if updateStruct(p, strip(a).T) != nil {
					obj = strip(a)
				}
			}
			effect(s, ev.Name, ev.Pos)
			get := func(f string) *Term {
				var st *types.Struct
				n := updateStruct(p, obj.T)
				if n == nil {
					return nil
				}
				st = n.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == f {
						if obj.K == KStruct {
							return fieldTerm(e, obj, f)
						}
						return e.load(s, e.fieldAddr(obj, st, i), st.Field(i).Type())
					}
				}
				return nil
			}
			v := get("LatestVersion")
			if v == nil {
				e.Report(s, "foreign content stored", ev.Pos, "what is stored is %s", obj)
				break
			}
			em, known := e.strEmpty(s, v)
			fromTag := strings.Contains(v.String(), "TagName")
			fromCache := strings.Contains(v.String(), "LatestVersion")
			switch {
			case s.Get("asked") != "1":
				e.Report(s, "stored without answer", ev.Pos, "a version is stored without an answer from the server")
			case fromTag && (s.vals["dec"] == nil || e.Nilness(s, s.vals["dec"]) != 1):
				e.Report(s, "undecoded version stored", ev.Pos, "a version can be stored from an answer that could not be decoded")
			case fromTag && statusIs(s, "200"), fromCache && statusIs(s, "304"):
				if !known || em {
					e.Report(s, "empty version stored", ev.Pos, "an empty version can be stored")
				} else {
					e.Count("version stored")
				}
			default:
				e.Report(s, "foreign version stored", ev.Pos, "the version stored, %s, is not that of a successful answer", v)
			}
			at := get("CheckedAt")
			for at != nil && at.K == KCall && at.S == "(time.Time).UTC" {
				at = at.A[0]
			}
			if at == nil || !isNow(at) {
				e.Report(s, "wrong time stored", ev.Pos, "the time stored is %s, not that of the answer", at)
			}
			e.splitErr(s, ev, nil, nil)
		case strings.HasSuffix(ev.Name, ".NewVersion") || strings.HasSuffix(ev.Name, ".NewSemver"):
			e.splitErr(s, ev, nil, func(s *State) { s.Set("badver", "1") })
		}
	}
	// verOf: the version text behind a parsed version
	verOf := func(t *Term) *Term {
		if t.K == KExt && t.A[0].K == KCall && strings.HasSuffix(t.A[0].S, ".NewVersion") {
			t = t.A[0].A[0]
			for t.K == KCall && strings.HasPrefix(t.S, "strings.Trim") {
				t = t.A[0]
			}
			return t
		}
		return nil
	}
	newer := func(s *State) (latest *Term, res int) {
		for a, v := range s.facts {
			sgn := map[bool]int{true: 1, false: -1}[v]
			switch {
			case a.K == KCall && strings.HasSuffix(a.S, "Version).GreaterThan"):
				if verOf(a.A[1]) == version {
					return verOf(a.A[0]), sgn
				}
			case a.K == KCall && strings.HasSuffix(a.S, "Version).LessThan"):
				if verOf(a.A[0]) == version {
					return verOf(a.A[1]), sgn
				}
			case a.K == KBin && len(a.A) == 2 && a.A[0].K == KCall && strings.HasSuffix(a.A[0].S, "Version).Compare") && a.A[1].S == "0" && verOf(a.A[0].A[1]) == version:
				if a.S == ">" {
					return verOf(a.A[0].A[0]), sgn
				}
				if a.S == "<=" {
					return verOf(a.A[0].A[0]), -sgn
				}
			case a.K == KBin && len(a.A) == 2 && a.A[1].K == KCall && strings.HasSuffix(a.A[1].S, "Version).Compare") && a.A[0].S == "0" && verOf(a.A[1].A[1]) == version:
				if a.S == "<" {
					return verOf(a.A[1].A[0]), sgn
				}
			}
		}
		return nil, 0
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		on, _ := optOut(s)
		if net {
			if s.Get("started") == "" {
				switch {
				case on == 1, fresh(s) == 1:
					e.Count("refresh not needed")
				default:
					e.Report(s, "refresh omitted", root.Pos(), "the server can go unasked although the check is on and there is no answer under 24 hours old")
				}
			}
		}
		if len(ret) == 0 || !isUpdateInfo(p, root.Signature.Results().At(0).Type()) {
			return
		}
		latest, res := newer(s)
		if e.Nilness(s, ret[0]) == 1 {
			switch {
			case on == 1, noCache(s), res == -1, s.Get("badver") != "":
				e.Count("nothing to report")
			default:
				e.Report(s, "update kept quiet", root.Pos(), "a cached version that is newer can go unreported")
			}
			return
		}
		get := func(f string) *Term {
			st := structOf(ptrElem(ret[0].T))
			if st == nil {
				return nil
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					return e.load(s, e.fieldAddr(ret[0], st, i), st.Field(i).Type())
				}
			}
			return nil
		}
		switch {
		case on != -1:
			e.Report(s, "report although off", root.Pos(), "a version can be reported although the check is off")
		case res != 1:
			e.Report(s, "version not compared", root.Pos(), "a version can be reported that is not known to be newer than the running one")
		case get("LatestVersion") != latest || get("CurrentVersion") != version || !strings.Contains(latest.String(), "LatestVersion"):
			e.Report(s, "other version reported", root.Pos(), "the versions reported are not the ones compared: %s, %s", get("LatestVersion"), get("CurrentVersion"))
		default:
			e.Count("update reported")
		}
	}
	s := e.NewState(root, nil)
	for _, q := range root.Params {
		if isStringT(q.Type()) {
			version = s.top().env[q]
		}
	}
	if version == nil {
		c.Violate("no version", p.Pos(root.Pos()), "%s does not know the running version", p.FnName(root))
		return
	}
	e.Run(s)
	c.Absorb(e)
}

// cacheRefused: the reader found the cache unusable (judged by C20).
func cacheRefused(e *Engine, s *State) bool {
	for a, v := range s.facts {
		if a.K == KBin && a.S == "==" && a.A[1].IsNil() && !v && a.A[0].K == KCall && strings.Contains(a.A[0].S, "json") {
			return true
		}
		if a.K == KCall && (a.S == "(time.Time).After" || a.S == "(time.Time).Before") && v && a.any(isNow) {
			return true
		}
		if a.K == KBin && a.S == "==" && v && a.A[0].K == KExt && cachePath(a.A[0]) {
			return true
		}
	}
	return false
}

// timeLimited: the client making the request has a time limit, or the
// context of the request has one.
func timeLimited(e *Engine, s *State, ev *CallEvent) bool {
	cl := ev.Args[0]
	if st := structOf(ptrElem(cl.T)); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Timeout" {
				if k, ok := e.load(s, e.fieldAddr(cl, st, i), st.Field(i).Type()).IntVal(); ok && k > 0 && k <= 60e9 {
					return true
				}
			}
		}
	}
	for _, a := range ev.Args {
		if a.any(func(x *Term) bool {
			return x.K == KCall && (x.S == "context.WithTimeout" || x.S == "context.WithDeadline")
		}) {
			return true
		}
	}
	return false
}
