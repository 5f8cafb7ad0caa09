package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C08",
		Technique: "path-sensitive property simulation over SSA under every decision-table row of the silent/output settings, comparing the announcement and the output streams of each process start, and the override handed to each task reference, with the first setting of the row",
		Explain:   "The settings of a role (silent, output) are those of the command or reference, of the enclosing parallel block, of the reference that led here, of the task and of the Babfile. For each of them, and for both values, all paths are followed with that setting as the first that is set, every less specific one set to the opposite, and the other role set the other way round (plus the row where none is set). At every process start the command text must have been shown exactly when the silent setting of the row is off, and the output streams discarded exactly when the output setting is off. The same decides the announcement of a task. The override handed on with a task reference must be the first that is set of the reference, its block and the override in force.",
		Run:       runC08,
		Floors:    map[string]int{"announcement of a command": 3, "output of a command": 3, "announcement of a task": 2, "override handed on": 4, "global setting handed over": 2},
	})
}

var c08Roles = []string{"Silent", "Output"}

func isBoolPtr(t *Term) bool { return t != nil && t.T != nil && t.T.String() == "*bool" }

// overrideRoles assigns each *bool parameter of a task entry its role, from
// the settings that flow into it at its call sites.
func (rs *runSim) overrideRoles(e *Engine, h *ssa.Function) map[int]string {
	p := rs.p
	votes := map[int]map[string]bool{}
	var slice func(v ssa.Value, out map[string]bool, d int, args []ssa.Value)
	seen := map[ssa.Value]bool{}
	slice = func(v ssa.Value, out map[string]bool, d int, args []ssa.Value) {
		if d > 14 || seen[v] {
			return
		}
		seen[v] = true
		defer delete(seen, v)
		field := func(k string) {
			for _, r := range c08Roles {
				if strings.HasSuffix(k, "."+r) || strings.HasSuffix(k, ".Global"+r) {
					out[r] = true
				}
			}
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			field(fieldKey(x))
		case *ssa.Field:
			field(fieldKey(x))
		case *ssa.Parameter:
			if args != nil {
				for i, q := range x.Parent().Params {
					if q == x && i < len(args) {
						slice(args[i], out, d+1, nil)
					}
				}
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				c08Call(p, c, x.Index, func(w ssa.Value, a []ssa.Value) { slice(w, out, d+1, a) })
			}
		case *ssa.Call:
			c08Call(p, x, 0, func(w ssa.Value, a []ssa.Value) { slice(w, out, d+1, a) })
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				switch u := r.(type) {
				case *ssa.Store:
					if u.Addr == x {
						slice(u.Val, out, d+1, args)
					}
				case *ssa.IndexAddr:
					for _, q := range *u.Referrers() {
						if st, ok := q.(*ssa.Store); ok {
							slice(st.Val, out, d+1, args)
						}
					}
				}
			}
		default:
			if ins, ok := v.(ssa.Instruction); ok {
				for _, o := range ins.Operands(nil) {
					if *o != nil {
						slice(*o, out, d+1, args)
					}
				}
			}
		}
	}
	for _, ci := range p.index().calls[h] {
		a := ci.Common().Args
		for i, prm := range h.Params {
			if prm.Type().String() != "*bool" || i >= len(a) {
				continue
			}
			if votes[i] == nil {
				votes[i] = map[string]bool{}
			}
			slice(a[i], votes[i], 0, nil)
		}
	}
	r := map[int]string{}
	for i, m := range votes {
		switch {
		case len(m) == 2:
			e.Report(nil, "settings mixed in "+h.Params[i].Name()+" of "+p.FnName(h), h.Pos(), "the override %s of %s receives silent as well as output settings", h.Params[i].Name(), p.FnName(h))
		case m["Silent"]:
			r[i] = "Silent"
		case m["Output"]:
			r[i] = "Output"
		}
	}
	return r
}

func c08Call(p *Prog, c *ssa.Call, res int, f func(v ssa.Value, args []ssa.Value)) {
	g := c.Call.StaticCallee()
	if g != nil && g.Blocks != nil && p.InRepo(g) {
		variadic := g.Signature.Variadic()
		for _, b := range g.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(rt.Results) {
				if !variadic {
					f(rt.Results[res], c.Call.Args)
				}
			}
		}
		if !variadic {
			return
		}
	}
	for _, a := range c.Call.Args {
		f(a, nil)
	}
}

var c08Levels = []string{"own", "block", "reference", "task", "global"}

// c08row is one row of the decision table: the first setting that is set, and
// its value for silent (output has the opposite).
type c08row struct {
	first  int // index into c08Levels; len: none is set
	silent bool
	piped  bool // the entry was given writers
}

type c08sim struct {
	row   c08row
	rs    *runSim
	p     *Prog
	root  *ssa.Function
	roles map[*ssa.Function]map[int]string
	prm   []*Term // the parameters of the root
}

// level names the setting a pointer stands for.
func (cs *c08sim) level(s *State, t *Term) (level int, role string) {
	if t.K == KFld && t.A[0].T != nil {
		if r := strings.TrimPrefix(t.S, "Global"); r != t.S {
			return 4, r
		}
		for l, ns := range [][]string{{"CommandRun", "TaskRun"}, {"ParallelRun"}, nil, {"Task"}} {
			for _, n := range ns {
				if cs.p.named(t.A[0].T, "internal/babfile", n) {
					if n == "Task" && !cs.ownTask(s, t.A[0]) {
						return 9, t.S
					}
					return l, t.S
				}
			}
		}
	}
	for i := range cs.root.Params {
		if r := cs.roles[cs.root][i]; r != "" && cs.prm[i] == t {
			return 2, r
		}
	}
	return -1, ""
}

// ownTask: the task this entry was called for.
func (cs *c08sim) ownTask(s *State, t *Term) bool {
	for _, prm := range cs.prm {
		if isStringT(prm.T) && t.contains(prm) {
			return true
		}
	}
	return false
}

func (cs *c08sim) set(level int) bool { return level >= cs.row.first && cs.row.first < len(c08Levels) }

// value of a setting that is set.
func (cs *c08sim) value(level int, role string) bool {
	return (cs.row.silent == (level == cs.row.first)) == (role == "Silent")
}

// oracle decides the atoms about settings under the row.
func (cs *c08sim) oracle(e *Engine, s *State, a *Term) (bool, bool) {
	var ptr *Term
	null := false
	switch {
	case a.K == KBin && a.S == "==" && a.A[1].IsNil() && isBoolPtr(a.A[0]):
		ptr, null = a.A[0], true
	case a.K == KDeref && isBoolPtr(a.A[0]):
		ptr = a.A[0]
	case a.K == KBin && a.S == "==" && a.A[1].IsNil():
		for _, prm := range cs.prm {
			if prm.T.String() == "io.Writer" && prm == a.A[0] {
				return !cs.row.piped, true
			}
		}
		return false, false
	default:
		return false, false
	}
	first := true
	var r bool
	for _, l := range e.leaves(ptr) {
		var v bool
		lv, role := cs.level(s, l)
		switch {
		case l.IsNil() && null:
			v = true
		case lv < 0:
			return false, false
		case null:
			v = !cs.set(lv)
		case !cs.set(lv):
			return false, false
		default:
			v = cs.value(lv, role)
		}
		if !first && v != r {
			return false, false
		}
		r, first = v, false
	}
	return r, !first
}

// want: the value that decides, given the levels that exist here.
func (cs *c08sim) want(role string, has [5]bool) bool {
	for l := range c08Levels {
		if has[l] && cs.set(l) {
			return cs.value(l, role)
		}
	}
	return role == "Output"
}

func (cs *c08sim) describe() string {
	if cs.row.first == len(c08Levels) {
		return "when no setting is given"
	}
	return "when the first setting given is the " + []string{"command's own", "parallel block's", "task reference's", "task's", "Babfile's"}[cs.row.first]
}

// block: the parallel block whose item list holds the item.
func (cs *c08sim) block(e *Engine, item *Term) *Term {
	var r *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		t.any(func(x *Term) bool {
			if r != nil {
				return true
			}
			if cs.p.isParColl(x) {
				r = x.A[0]
				return true
			}
			if x.K == KLoop && isItemSlice(cs.p, x.T) {
				_, el := e.seqLeaves(x)
				for _, y := range el {
					walk(y)
				}
			}
			return false
		})
	}
	walk(item)
	return r
}

func (cs *c08sim) levels(e *Engine, item *Term, role string) (has [5]bool) {
	has[0] = fieldIdx(item.T, role) >= 0
	has[1] = cs.block(e, item) != nil
	has[2] = cs.isHead(cs.root)
	has[3], has[4] = true, true
	return
}

func runC08(c *Ctx) {
	var rows []c08row
	for _, piped := range []bool{false, true} {
		for i := range c08Levels {
			rows = append(rows, c08row{i, true, piped}, c08row{i, false, piped})
		}
		rows = append(rows, c08row{first: len(c08Levels), piped: piped})
	}
	for _, goos := range c.goosList() {
		p := c.Prog(goos)
		c.GOOSList = append(c.GOOSList, goos)
		rs := newRunSim(c, p)
		rs.c = c
		ptrFn := func(fn *ssa.Function) bool {
			sig := fn.Signature
			for i := 0; i < sig.Params().Len(); i++ {
				if t := sig.Params().At(i).Type().String(); t == "*bool" || t == "[]*bool" {
					return true
				}
			}
			return false
		}
		for i := range rows {
			row := rows[i]
			var cur *c08sim
			rs.explore(func(root *ssa.Function) (*Engine, *Client) {
				cl := &Client{Name: "C08", CollapseErr: true, KeepFact: keepDry,
					Abstract: irrelevantRunner("map[string]string", "[]string", "*tea.Program", "*runner.ParallelContext", "map[string]runner.status", "[]error"),
					Inline: rs.cmdInline(func(fn *ssa.Function) bool {
						return !execReach(p)[fn] && !ptrFn(fn) && fn.Parent() == nil && returns("map[string]string", "[]string", "string")(fn)
					}, ptrFn)}
				e := NewEngine(p, cl)
				cs := &c08sim{row: row, rs: rs, p: p, root: root, roles: map[*ssa.Function]map[int]string{}}
				for _, h := range rs.m.Heads {
					cs.roles[h] = rs.overrideRoles(e, h)
				}
				cur = cs
				cl.Oracle = cs.oracle
				cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
					if handlePlatform(e, ev) {
						return
					}
					cs.call(e, s, ev)
					if rs.fallible(ev) && !ev.Handled {
						e.splitErr(s, ev, nil, nil)
					}
				}
				cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
					if isItemSlice(p, coll.T) {
						s.Set("echo", "")
					}
				}
				return e, cl
			}, func(e *Engine, s *State, root *ssa.Function) {
				for _, prm := range root.Params {
					cur.prm = append(cur.prm, s.frames[0].env[prm])
				}
				assumeDry(false)(e, s, root)
			})
		}
		rs.wiring(c, "C08", map[string]string{"GlobalSilent": "GlobalSilent", "GlobalOutput": "GlobalOutput"})
	}
}

func (cs *c08sim) call(e *Engine, s *State, ev *CallEvent) {
	p, rs := cs.p, cs.rs
	where := p.FnName(ev.Instr.Parent())
	show := printer(ev.Name) || ev.Fn != nil && p.Rel(ev.Fn) == "internal/output" && ev.Fn.Signature.Results().Len() == 0
	if show {
		cs.shown(e, s, ev, where)
		return
	}
	if effectKind(ev.Name) == "exec" && len(ev.Args) > 0 {
		item := rs.cmdItem(e, s, ev.Args[0])
		if item == nil {
			e.Report(s, "process of no command item in "+where, ev.Pos, "a process is started whose text is not that of a command item")
			return
		}
		cs.header(e, s, ev.Pos, where)
		silent := cs.want("Silent", cs.levels(e, item, "Silent"))
		if silent == (s.Get("echo") == "1") {
			e.Report(s, "announcement wrong in "+where, ev.Pos, "the command is %s although it is %s %s", map[bool]string{true: "shown", false: "not shown"}[s.Get("echo") == "1"], map[bool]string{true: "silent", false: "not silent"}[silent], cs.describe())
		} else {
			e.Count("announcement of a command")
		}
		s.Set("echo", "")
		on := cs.want("Output", cs.levels(e, item, "Output"))
		for _, f := range []string{"Stdout", "Stderr"} {
			w := e.cmdField(s, ev.Args[0], f)
			off := true
			if w != nil {
				for i, l := range e.leaves(w) {
					o := cs.discards(e, s, l)
					if i > 0 && o != off {
						e.Report(s, "output undecided in "+where, ev.Pos, "whether %s is discarded is not decided (%s)", f, w)
						return
					}
					off = o
				}
			}
			if off == on {
				e.Report(s, "output wrong ("+f+") in "+where, ev.Pos, "the %s of the command is %s although its output is %s %s (%s)", f, map[bool]string{true: "discarded", false: "shown"}[off], map[bool]string{true: "on", false: "off"}[on], cs.describe(), termOr(w, "unset"))
				return
			}
		}
		e.Count("output of a command")
		return
	}
	if rs.headCall(ev) {
		cs.reference(e, s, ev, where)
	}
}

// shown notes what a printing call shows: a command's text, or the name of
// the task.
func (cs *c08sim) shown(e *Engine, s *State, ev *CallEvent, where string) {
	var item *Term
	name := false
	names := map[*Term]bool{}
	for _, prm := range cs.prm {
		if isStringT(prm.T) {
			names[prm] = true
		}
	}
	for _, a := range e.flat(s, ev.Args) {
		for _, l := range e.leaves(a) {
			l.any(func(x *Term) bool {
				if x.K == KFld && x.S == "Cmd" && cs.p.named(x.A[0].T, "internal/babfile", "CommandRun") {
					item = x.A[0]
				}
				return item != nil
			})
			name = name || cs.says(l, names)
		}
	}
	switch {
	case item != nil && !strings.HasPrefix(ev.Name, "fmt.Errorf"):
		s.Set("echo", "1")
		if cs.want("Silent", cs.levels(e, item, "Silent")) {
			e.Report(s, "silent command shown in "+where, ev.Pos, "the command text is shown although it is silent %s", cs.describe())
		}
	case name && cs.isHead(cs.root):
		s.Set("hdr", "1")
		if cs.want("Silent", [5]bool{2: true, 3: true, 4: true}) {
			e.Report(s, "silent task announced in "+where, ev.Pos, "the task is announced although it is silent %s", cs.describe())
		}
	}
}

// says: the text contains the name of the task itself.
func (cs *c08sim) says(t *Term, names map[*Term]bool) bool {
	switch {
	case names[t]:
		return true
	case t.K == KFld:
		return t.S == "Name" && cs.p.named(t.A[0].T, "internal/babfile", "Task") && cs.ownTask(nil, t.A[0])
	case t.K == KMapVal, t.K == KMapOK, t.K == KElem, t.K == KDeref:
		return false
	case t.K == KCall && t.S == interpFn:
		return false
	}
	for _, a := range t.A {
		if cs.says(a, names) {
			return true
		}
	}
	return false
}

// reference checks the overrides handed to a task entry.
func (cs *c08sim) reference(e *Engine, s *State, ev *CallEvent, where string) {
	p := cs.p
	var item *Term
	dep, ownDep := false, false
	for _, a := range ev.Args {
		if a.T == nil || !isStringT(a.T) {
			continue
		}
		for _, l := range e.leaves(a) {
			if l.any(func(x *Term) bool { return x.K == KFld && x.S == "Deps" }) {
				dep = true
				if l.any(func(x *Term) bool {
					return x.K == KFld && x.S == "Deps" && x.A[0].any(func(y *Term) bool {
						return y.K == KMapVal && y.A[1].K == KSym && isStringT(y.A[1].T)
					})
				}) {
					ownDep = true
				}
				continue
			}
			l.any(func(x *Term) bool {
				if x.K == KFld && x.S == "Task" && p.named(x.A[0].T, "internal/babfile", "TaskRun") {
					item = x.A[0]
				}
				return item != nil
			})
		}
	}
	if dep {
		item = nil
	}
	for i, a := range ev.Args {
		role := cs.roles[ev.Fn][i]
		if role == "" {
			continue
		}
		want := -1
		if item != nil {
			has := cs.levels(e, item, role)
			for l := 0; l < 3 && want < 0; l++ {
				if has[l] && cs.set(l) {
					want = l
				}
			}
		}
		why := ""
		for _, l := range e.leaves(a) {
			lv, r := -1, ""
			if !l.IsNil() {
				lv, r = cs.level(s, l)
				switch {
				case lv < 0:
					why = "it is " + l.String()
				case r != role:
					why = "the " + strings.ToLower(r) + " setting is handed on instead"
				case !cs.set(lv):
					lv = -1
				}
			}
			switch {
			case why != "":
			case item != nil && lv != want:
				why = "the setting that decides here is not the one handed on (" + l.String() + ") " + cs.describe()
			case item == nil && lv >= 0 && lv != 1 && lv != 2:
				// a dependency: no override, or the one in force here
				why = "a dependency is given " + l.String()
			case item == nil && ownDep && lv >= 0:
				why = "the setting of the reference to a task reaches the dependencies of that task"
			}
		}
		if why != "" {
			e.Report(s, "override ("+role+") handed on in "+where, ev.Pos, "the %s override of a task reference: %s", strings.ToLower(role), why)
		} else {
			e.Count("override handed on")
		}
	}
	// writers come in pairs
	n, null := 0, 0
	for i, prm := range ev.Fn.Params {
		if prm.Type().String() == "io.Writer" && i < len(ev.Args) {
			n++
			if e.Nilness(s, ev.Args[i]) == 1 {
				null++
			}
		}
	}
	if n > 0 && null != 0 && null != n {
		e.Report(s, "half a pair of writers in "+where, ev.Pos, "a task is entered with only one of its output writers set")
	}
	if cs.isHead(cs.root) {
		cs.header(e, s, ev.Pos, where)
	}
}

func (cs *c08sim) isHead(fn *ssa.Function) bool {
	for _, h := range cs.rs.m.Heads {
		if h == fn {
			return true
		}
	}
	return false
}

// header: the announcement of the task itself, before anything of it acts.
func (cs *c08sim) header(e *Engine, s *State, pos tokenPos, where string) {
	if !cs.isHead(cs.root) || s.Get("hdrok") != "" {
		return
	}
	s.Set("hdrok", "1")
	silent := cs.want("Silent", [5]bool{2: true, 3: true, 4: true})
	if silent == (s.Get("hdr") == "1") {
		e.Report(s, "task announcement wrong in "+where, pos, "the task is %s although it is %s %s", map[bool]string{true: "announced", false: "not announced"}[s.Get("hdr") == "1"], map[bool]string{true: "silent", false: "not silent"}[silent], cs.describe())
	} else {
		e.Count("announcement of a task")
	}
}

// discards: the writer throws everything away.
func (cs *c08sim) discards(e *Engine, s *State, w *Term) bool {
	w = strip(w)
	if w.IsNil() || e.Nilness(s, w) == 1 {
		return true
	}
	return w.any(func(x *Term) bool {
		return x.K == KGlobal && x.S == "io.Discard" || strings.HasSuffix(x.S, "io.Discard")
	})
}
