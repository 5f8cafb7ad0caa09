package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C05",
		Technique: "typestate of the depth-first search over SSA: the marks of a task before, during and after its visit are read off the code, and every edge (dependency, task item at any depth) is evaluated under each of the three assumptions; the same for the marks of included files",
		Explain:   "The marks a visit sets on its own task before following edges (in progress) and leaves at its end (finished) are computed for all paths. For every edge - each dependency, each task item, each item of a parallel block through the recursive walker - the code is then explored assuming the target unvisited, in progress and finished: an edge to a task in progress must record a cycle error and not recurse, one to an unvisited existing task must visit it, one to a finished or unvisited task must record no cycle. Every task is visited from the top, with tables that start empty, and the errors are returned. For includes: a file is read only after its path was found unmarked and was marked; a marked path ends in an error; the mark is gone after a successful end; paths are normalised before they are used as marks.",
		Run:       runC05,
		Floors:    map[string]int{"dependency edge to a task in progress": 1, "dependency edge to an unvisited task": 1, "dependency edge to a finished task": 1, "reference edge to a task in progress": 1, "reference edge to an unvisited task": 1, "reference edge to a finished task": 1, "parallel block entered": 1, "every task visited": 1, "file read once marked": 1, "file in progress refused": 1, "mark removed": 1, "include path normalised": 2},
	})
}

type colour map[string]string // table -> mark (constant text), "" = none

func (c colour) key() string {
	var ks []string
	for k, v := range c {
		if v != "" {
			ks = append(ks, k+"="+v)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

type dfsSim struct {
	ps     *parseSim
	p      *Prog
	dfs    *ssa.Function
	prm    int             // the task name among its parameters
	walk   []*ssa.Function // walkers that visit
	marks  map[string]bool
	gray   colour
	black  []colour
	errors []string
}

func runC05(c *Ctx) {
	goos := c.goosList()[0]
	p := c.Prog(goos)
	c.GOOSList = append(c.GOOSList, goos)
	ps := newParseSim(c, p)
	if ps.parse == nil {
		return
	}
	ps.verrContracts(c, "C05")
	ps.nameContracts(c, "C05")
	var cand, direct []*ssa.Function
	for _, fn := range p.Funcs {
		if p.Rel(fn) != "internal/parser" || fn.Synthetic != "" || !ps.recursive(fn) || ps.reads[fn] || ps.walk[fn] {
			continue
		}
		cand = append(cand, fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mu, ok := ins.(*ssa.MapUpdate); ok && isMarks(mu.Map.Type()) && (len(direct) == 0 || direct[len(direct)-1] != fn) {
					direct = append(direct, fn)
				}
			}
		}
	}
	if len(direct) > 0 {
		cand = direct // the function that sets the marks is the visit
	}
	for _, fn := range cand {
		d := &dfsSim{ps: ps, p: p, dfs: fn, prm: -1, marks: map[string]bool{}}
		if d.prelim(c) {
			for _, w := range p.Funcs {
				if ps.walk[w] && d.calls(w) {
					d.walk = append(d.walk, w)
				}
			}
			for _, col := range []string{"white", "gray", "black"} {
				d.visit(c, col)
				for _, w := range d.walk {
					d.walker(c, w, col)
				}
			}
			d.top(c)
		}
	}
	c05Files(c, ps)
}

// isMarks: a table of marks by name.
func isMarks(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isStringT(m.Key()) {
		return false
	}
	switch u := m.Elem().Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsInteger) != 0
	case *types.Struct:
		return u.NumFields() == 0
	}
	return false
}

func cycleErr(e *Engine, t *Term) bool {
	for t.K == KIface {
		t = t.A[0]
	}
	return t.T != nil && e.P.named(t.T, "internal/errs", "CircularDepError")
}

// table names a table of marks.
func tableName(e *Engine, m *Term) string {
	m = strip(m)
	s := m.String()
	if i := strings.Index(s, "free:"); i >= 0 {
		return s[i+5:]
	}
	return s
}

// frees binds captured tables, tasks and error lists.
func frees(e *Engine, s *State, fn *ssa.Function, f func(t types.Type, v *Term)) {
	for _, q := range fn.Params {
		f(q.Type(), s.top().env[q])
	}
	for _, q := range fn.FreeVars {
		if pe := ptrElem(q.Type()); pe != nil {
			f(pe, e.load(s, s.top().env[q], pe))
		}
		f(q.Type(), s.top().env[q])
	}
}

// calls: w leads to the visit function.
func (d *dfsSim) calls(w *ssa.Function) bool {
	return d.p.ReachableFrom(w)[d.dfs]
}

func (d *dfsSim) visitCall(ev *CallEvent) bool {
	if ev.Fn == d.dfs {
		return true
	}
	ci, ok := ev.Instr.(ssa.CallInstruction)
	return ok && ev.Fn == nil && strings.HasPrefix(ev.Name, "dynamic ") && types.Identical(ci.Common().Signature(), d.dfs.Signature)
}

func (d *dfsSim) walkCall(ev *CallEvent) *ssa.Function {
	for _, w := range d.walk {
		if ev.Fn == w {
			return w
		}
		if ci, ok := ev.Instr.(ssa.CallInstruction); ok && ev.Fn == nil && strings.HasPrefix(ev.Name, "dynamic ") && types.Identical(ci.Common().Signature(), w.Signature) {
			return w
		}
	}
	return nil
}

func (d *dfsSim) inline(fn *ssa.Function) bool {
	return fn != d.dfs && !d.ps.walk[fn] && (d.ps.inline(fn) || fn.Parent() != nil && fn.Parent() == d.dfs.Parent())
}

func markText(v *Term) string {
	switch {
	case v == nil, v.K == KConst && (v.S == "false" || v.S == "0"):
		return ""
	case v.K == KConst:
		return v.S
	}
	return "set"
}

// prelim finds the name parameter and the marks during and after a visit.
func (d *dfsSim) prelim(c *Ctx) bool {
	p := d.p
	fn := d.dfs
	cl := &Client{Name: "C05", Inline: d.inline}
	e := NewEngine(p, cl)
	byTerm := map[*Term]int{}
	cl.OnLookup = func(e *Engine, s *State, m, k *Term, pos tokenPos) {
		if i, ok := byTerm[k]; ok && m.T != nil && isTaskMap(p, m.T) {
			d.prm = i
		}
	}
	s := e.NewState(fn, nil)
	for i, q := range fn.Params {
		if isStringT(q.Type()) {
			byTerm[s.top().env[q]] = i
		}
	}
	if len(byTerm) == 0 {
		return false
	}
	e.Run(s)
	if d.prm < 0 {
		return false
	}
	// the marks
	at := p.FnName(fn)
	e = NewEngine(p, cl)
	cl.OnLookup = nil
	var name *Term
	grays := map[string]colour{}
	blacks := map[string]colour{}
	cur := func(s *State) colour {
		r := colour{}
		for k, v := range s.auto {
			if strings.HasPrefix(k, "mk:") {
				r[k[3:]] = v
			}
		}
		return r
	}
	edge := func(s *State) {
		x := cur(s)
		grays[x.key()] = x
	}
	cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
		if !isMarks(m.T) {
			return
		}
		if k != name {
			e.Report(s, "foreign mark in "+at, pos, "%s marks %s, which is not the task it visits", at, k)
			return
		}
		t := tableName(e, m)
		d.marks[t] = true
		s.Set("mk:"+t, markText(v))
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if k := verrMethod(p, ev.Fn); k == "Add" && cycleErr(e, ev.Args[1]) {
			s.Set("err", "1")
		}
		if d.visitCall(ev) {
			edge(s)
		}
		for _, a := range ev.Args {
			if !ev.Inline && a.T != nil && isItemSlice(p, a.T) {
				edge(s)
			}
		}
	}
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
		if isStrSlice(coll.T) {
			edge(s)
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if s.Get("err") == "" {
			x := cur(s)
			blacks[x.key()] = x
		}
	}
	s = e.NewState(fn, nil)
	name = s.top().env[fn.Params[d.prm]]
	e.Run(s)
	switch {
	case len(d.marks) == 0:
		return false
	case len(grays) == 0:
		e.Report(nil, "no edges in "+at, fn.Pos(), "%s follows no edges", at)
	case len(grays) > 1:
		e.Report(nil, "marks differ in "+at, fn.Pos(), "%s follows edges with different marks on its task: %s", at, keysOf(grays))
	}
	for k, g := range grays {
		if k == "" {
			e.Report(nil, "task not marked in "+at, fn.Pos(), "%s follows the edges of a task that it has not marked as in progress", at)
		}
		for kb := range blacks {
			if kb == k {
				e.Report(nil, "mark not taken back in "+at, fn.Pos(), "%s can end with its task still marked as in progress (%s): a later path to it is reported as a cycle", at, k)
			}
		}
		d.gray = g
	}
	for _, k := range keysOf(blacks) {
		d.black = append(d.black, blacks[k])
	}
	c.Absorb(e)
	return len(e.Viol) == 0
}

func keysOf(m map[string]colour) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// assume decides look-ups of marks of the target by its colour.
type markOracle struct {
	e    *Engine
	d    *dfsSim
	col  colour
	is   func(s *State, k *Term) bool
	look map[*Term][2]*Term // value or ok term -> table, key
}

func (o *markOracle) onLookup(e *Engine, s *State, m, k *Term, pos tokenPos) {
	if m.T == nil || !isMarks(m.T) && !isTaskMap(o.d.p, m.T) {
		return
	}
	v, ok := e.lookup(s, m, k, m.T)
	o.look[v] = [2]*Term{m, k}
	o.look[ok] = [2]*Term{m, k}
}

func (o *markOracle) oracle(e *Engine, s *State, a *Term) (bool, bool) {
	get := func(x *Term) (mark string, tasks, ok bool) {
		l, is := o.look[x]
		if !is || !o.is(s, l[1]) {
			return "", false, false
		}
		if isTaskMap(o.d.p, l[0].T) {
			return "", true, true
		}
		return o.col[tableName(e, l[0])], false, true
	}
	if mark, tasks, ok := get(a); ok {
		if tasks {
			return true, a.K == KMapOK // the task exists
		}
		if a.K == KMapOK {
			return mark != "", true
		}
		return mark != "" && mark != "false", true
	}
	if a.K == KBin && a.S == "==" {
		for i := 0; i < 2; i++ {
			if mark, tasks, ok := get(a.A[i]); ok && a.A[1-i].K == KConst {
				if tasks {
					return false, a.A[1-i].IsNil()
				}
				w := a.A[1-i].S
				if w == "0" || w == "false" {
					w = ""
				}
				return mark == w, true
			}
		}
	}
	if a.K == KBin && (a.S == "<" || a.S == "<=" || a.S == ">" || a.S == ">=") {
		for i := 0; i < 2; i++ {
			if mark, _, ok := get(a.A[i]); ok {
				if n, isn := a.A[1-i].IntVal(); isn {
					x := int64(atoi(mark))
					y := n
					if i == 1 {
						x, y = y, x
					}
					return map[string]bool{"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[a.S], true
				}
			}
		}
	}
	return false, false
}

func (d *dfsSim) colours(col string) []colour {
	switch col {
	case "white":
		return []colour{{}}
	case "gray":
		return []colour{d.gray}
	}
	return d.black
}

var colourName = map[string]string{"white": "an unvisited task", "gray": "a task in progress", "black": "a finished task"}

// edgeState judges one edge.
type edgeState struct {
	d          *dfsSim
	col        string
	kind, at   string
	fn         *ssa.Function
	countLabel string
}

func (es *edgeState) end(e *Engine, s *State) {
	if s.Get("edge") == "" {
		return
	}
	visited, err := s.Get("visited") != "", s.Get("cyc") != ""
	switch es.col {
	case "white":
		switch {
		case err:
			// reported where it was added
		case !visited:
			e.Report(s, es.kind+" not followed in "+es.at, es.fn.Pos(), "%s can leave a %s to an unvisited task unfollowed: a cycle through it is not found", es.at, es.kind)
		default:
			e.Count(es.kind + " edge to an unvisited task")
		}
	case "gray":
		if !err {
			e.Report(s, "cycle not reported in "+es.at, es.fn.Pos(), "%s can meet a %s to a task in progress and record no cycle", es.at, es.kind)
		} else {
			e.Count(es.kind + " edge to a task in progress")
		}
	case "black":
		if !err {
			e.Count(es.kind + " edge to a finished task")
		}
	}
	for _, k := range []string{"edge", "visited", "cyc"} {
		s.Set(k, "")
	}
}

func (es *edgeState) add(e *Engine, s *State, pos tokenPos) {
	s.Set("err", "1")
	if s.Get("edge") == "" {
		e.Report(s, "cycle without an edge in "+es.at, pos, "%s records a cycle that no edge stands for", es.at)
		return
	}
	s.Set("cyc", "1")
	if es.col != "gray" {
		e.Report(s, "false cycle in "+es.at, pos, "%s can record a cycle for a %s to %s", es.at, es.kind, colourName[es.col])
	}
}

// visit judges the dependency edges of the visit function.
func (d *dfsSim) visit(c *Ctx, col string) {
	p := d.p
	fn := d.dfs
	at := p.FnName(fn)
	for _, assume := range d.colours(col) {
		cl := &Client{Name: "C05", Inline: d.inline}
		e := NewEngine(p, cl)
		es := &edgeState{d: d, col: col, kind: "dependency", at: at, fn: fn}
		var name, tasks, verrs *Term
		o := &markOracle{e: e, d: d, col: assume, look: map[*Term][2]*Term{}, is: func(s *State, k *Term) bool { return k == s.vals["dep"] && k != nil }}
		cl.OnLookup = o.onLookup
		isTask := func(t *Term) bool { return t.any(func(x *Term) bool { return x == name }) }
		deps := func(coll *Term) bool { return coll.K == KFld && coll.S == "Deps" && isTask(coll) }
		cl.Oracle = func(e *Engine, s *State, a *Term) (bool, bool) {
			if v, ok := o.oracle(e, s, a); ok {
				return v, ok
			}
			// the task visited exists
			if a.K == KMapOK && a.A[1] == name && isTaskMap(p, a.A[0].T) {
				return true, true
			}
			if a.K == KBin && a.S == "==" && a.A[1].IsNil() && a.A[0].K == KMapVal && a.A[0].A[1] == name && isTaskMap(p, a.A[0].A[0].T) {
				return false, true
			}
			return false, false
		}
		cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
			if deps(coll) {
				es.end(e, s)
				s.Set("edge", "1")
				s.vals["dep"] = e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
			}
		}
		cl.OnExh = func(e *Engine, s *State, coll *Term) {
			if deps(coll) {
				es.end(e, s)
				s.Set("deps", "1")
				delete(s.vals, "dep")
			}
		}
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if k := verrMethod(p, ev.Fn); k == "Add" && cycleErr(e, ev.Args[1]) {
				if ev.Args[0] != verrs && !(verrs == nil && strings.Contains(ev.Args[0].String(), "free:")) {
					e.Report(s, "error lost in "+at, ev.Pos, "%s records a cycle in a list of its own", at)
				}
				es.add(e, s, ev.Pos)
				return
			}
			if d.visitCall(ev) {
				t := ev.Args[d.prm]
				switch {
				case s.Get("edge") == "" || t != s.vals["dep"]:
					e.Report(s, "visit without an edge in "+at, ev.Pos, "%s visits %s, to which no edge leads", at, t)
				case col == "gray":
					e.Report(s, "task in progress visited in "+at, ev.Pos, "%s can enter a task that is in progress: the search does not end", at)
				}
				s.Set("visited", "1")
				return
			}
			if w := d.walkCall(ev); w != nil {
				for i, a := range ev.Args {
					if isItemSlice(p, w.Params[i].Type()) && a.K == KFld && a.S == "Run" && isTask(a) {
						s.Set("run", "1")
					}
					if isTaskMap(p, w.Params[i].Type()) && a != tasks {
						e.Report(s, "other tasks in "+at, ev.Pos, "%s follows references in other tasks", at)
					}
				}
			}
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			es.end(e, s)
			if s.Get("err") != "" {
				return
			}
			if s.Get("deps") == "" {
				e.Report(s, "dependencies not followed in "+at, fn.Pos(), "%s can end before it has followed all dependencies", at)
			}
			if s.Get("run") == "" {
				e.Report(s, "references not followed in "+at, fn.Pos(), "%s can end without having followed the task references of the run items", at)
			}
		}
		s := e.NewState(fn, nil)
		name = s.top().env[fn.Params[d.prm]]
		frees(e, s, fn, func(t types.Type, v *Term) {
			if isTaskMap(p, t) {
				tasks = v
			} else if isVerrs(p, t) {
				verrs = v
			}
		})
		e.Run(s)
		c.Absorb(e)
	}
}

// walker judges the reference edges of a walker over run items.
func (d *dfsSim) walker(c *Ctx, fn *ssa.Function, col string) {
	p := d.p
	at := p.FnName(fn)
	for _, assume := range d.colours(col) {
		for _, kind := range []string{"TaskRun", "ParallelRun", "other"} {
			kind := kind
			cl := &Client{Name: "C05", Inline: func(g *ssa.Function) bool { return g != fn && d.inline(g) }}
			e := NewEngine(p, cl)
			es := &edgeState{d: d, col: col, kind: "reference", at: at, fn: fn}
			var items, tasks, verrs *Term
			of := func(s *State, x *Term, f string) bool {
				x = strip(x)
				return x.K == KFld && x.S == f && s.vals["item"] != nil && x.A[0].any(func(y *Term) bool { return y == s.vals["item"] })
			}
			o := &markOracle{e: e, d: d, col: assume, look: map[*Term][2]*Term{}, is: func(s *State, k *Term) bool { return of(s, k, "Task") }}
			cl.OnLookup = o.onLookup
			cl.Oracle = func(e *Engine, s *State, a *Term) (bool, bool) {
				if a.K == KIsType && a.A[0].K == KElem && a.A[0].A[0] == items {
					task, par := p.named(a.T, "internal/babfile", "TaskRun"), p.named(a.T, "internal/babfile", "ParallelRun")
					if kind == "other" && !task && !par {
						return false, false
					}
					return kind == "TaskRun" && task || kind == "ParallelRun" && par, true
				}
				return o.oracle(e, s, a)
			}
			end := func(e *Engine, s *State) {
				switch kind {
				case "TaskRun":
					es.end(e, s)
				case "ParallelRun":
					if s.Get("it") == "todo" {
						e.Report(s, "parallel block not entered in "+at, fn.Pos(), "%s can pass over a parallel block without following its items", at)
					}
					s.Set("it", "")
				}
			}
			cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
				if coll == items {
					end(e, s)
					if kind == "TaskRun" {
						s.Set("edge", "1")
					}
					s.Set("it", "todo")
					s.vals["item"] = e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
				}
			}
			cl.OnExh = func(e *Engine, s *State, coll *Term) {
				if coll == items {
					end(e, s)
					s.Set("all", "1")
				}
			}
			cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
				if isMarks(m.T) && d.marks[tableName(e, m)] {
					e.Report(s, "foreign mark in "+at, pos, "%s marks %s while it walks the items of another task", at, k)
				}
			}
			cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
				if k := verrMethod(p, ev.Fn); k == "Add" && cycleErr(e, ev.Args[1]) {
					if ev.Args[0] != verrs && !(verrs == nil && strings.Contains(ev.Args[0].String(), "free:")) {
						e.Report(s, "error lost in "+at, ev.Pos, "%s records a cycle in a list of its own", at)
					}
					es.add(e, s, ev.Pos)
					return
				}
				if d.visitCall(ev) {
					switch {
					case !of(s, ev.Args[d.prm], "Task"):
						e.Report(s, "visit without an edge in "+at, ev.Pos, "%s visits %s, to which no edge leads", at, ev.Args[d.prm])
					case col == "gray":
						e.Report(s, "task in progress visited in "+at, ev.Pos, "%s can enter a task that is in progress: the search does not end", at)
					}
					s.Set("visited", "1")
					return
				}
				ci, _ := ev.Instr.(ssa.CallInstruction)
				if ev.Fn == fn || ev.Rec || ev.Fn == nil && strings.HasPrefix(ev.Name, "dynamic ") && types.Identical(ci.Common().Signature(), fn.Signature) {
					ok, same := false, true
					for i, a := range ev.Args {
						switch t := fn.Params[i].Type(); {
						case isItemSlice(p, t):
							ok = of(s, a, "Items")
						case isTaskMap(p, t):
							same = same && a == tasks
						case isVerrs(p, t):
							same = same && a == verrs
						}
					}
					if ok && same && kind == "ParallelRun" {
						s.Set("it", "ok")
						e.Count("parallel block entered")
					}
				}
			}
			cl.OnExit = func(e *Engine, s *State, ret []*Term) {
				end(e, s)
				if s.Get("all") == "" && s.Get("err") == "" {
					e.Report(s, "walk ends early in "+at, fn.Pos(), "%s can end before it has gone through all items", at)
				}
			}
			s := e.NewState(fn, nil)
			frees(e, s, fn, func(t types.Type, v *Term) {
				switch {
				case isItemSlice(p, t):
					items = v
				case isTaskMap(p, t):
					tasks = v
				case isVerrs(p, t):
					verrs = v
				}
			})
			e.Run(s)
			c.Absorb(e)
		}
	}
}

// top: parsing visits every task, with tables that start empty.
func (d *dfsSim) top(c *Ctx) {
	p, ps := d.p, d.ps
	root := ps.parse
	cl := &Client{Name: "C05", CollapseErr: true, Inline: ps.inline}
	e := NewEngine(p, cl)
	o := &markOracle{e: e, d: d, col: colour{}, look: map[*Term][2]*Term{}, is: func(s *State, k *Term) bool { return k == s.vals["name"] && k != nil }}
	cl.OnLookup = o.onLookup
	cl.Oracle = o.oracle
	endTask := func(s *State) {
		if s.Get("in") == "todo" {
			s.Set("L", "bad")
		}
		s.Set("in", "")
	}
	cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
		if m, n := ps.namesOf(e, coll, key); m != nil {
			endTask(s)
			s.Set("in", "todo")
			s.vals["name"], s.vals["tasks"] = n, strip(m)
		}
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		if m, _ := ps.namesOf(e, coll, nil); m != nil {
			endTask(s)
			if s.Get("L") == "" {
				s.Set("D", "1")
			}
			s.Set("L", "")
			delete(s.vals, "name")
		}
	}
	cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
		if isMarks(m.T) {
			s.Set("put:"+itoa(m.id), "1")
		}
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if d.visitCall(ev) {
			s2 := func(t *Term) *Term { return strip(t) }
			same := true
			for i, q := range d.dfs.FreeVars {
				if i >= len(ev.Free) {
					break
				}
				v := s.mem[ev.Free[i]]
				pe := ptrElem(q.Type())
				if pe == nil {
					continue
				}
				if isTaskMap(p, pe) {
					same = same && v != nil && s2(v) == s.vals["tasks"]
				}
				if isMarks(pe) && d.marks[q.Name()] {
					if v == nil || v.K != KAlloc || s.Get("put:"+itoa(v.id)) != "" {
						e.Report(s, "marks from elsewhere", ev.Pos, "the search starts with a table of marks that is not empty")
					}
				}
			}
			for i, a := range ev.Args {
				if i < len(d.dfs.Params) && isTaskMap(p, d.dfs.Params[i].Type()) {
					same = same && s2(a) == s.vals["tasks"]
				}
			}
			if same && ev.Args[d.prm] == s.vals["name"] && s.Get("in") == "todo" {
				s.Set("in", "ok")
			}
		}
		if ps.verrCall(e, s, ev) {
			return
		}
		if ev.Fn != nil && ps.reads[ev.Fn] {
			e.splitErr(s, ev, nil, nil)
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if len(ret) != 2 || e.Nilness(s, ret[1]) == -1 {
			return
		}
		switch {
		case verrPending(s):
			e.Report(s, "errors dropped", root.Pos(), "parsing can succeed although errors were recorded")
		case s.Get("D") == "":
			e.Report(s, "tasks not visited", root.Pos(), "parsing can succeed without every task having been visited by the search for cycles")
		case s.vals["tasks"] != nil && strip(fieldTerm(e, ret[0], "Tasks")) != s.vals["tasks"]:
			e.Report(s, "other tasks returned", root.Pos(), "the tasks returned are not those that were searched")
		default:
			e.Count("every task visited")
		}
	}
	e.Run(e.NewState(root, nil))
	c.Absorb(e)
}

// c05Files: the include recursion.
func c05Files(c *Ctx, ps *parseSim) {
	p := ps.p
	var heads []*ssa.Function // functions that read a file named by a parameter, and recurse
	for _, fn := range ps.files {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if p.calls(ins, map[string]bool{"os.ReadFile": true, "os.Open": true}) {
					heads = append(heads, fn)
				}
			}
		}
	}
	clean := func(t *Term) bool {
		t = strip(t)
		if t.K == KExt {
			t = t.A[0]
		}
		return t.K == KCall && (t.S == "path/filepath.Clean" || t.S == "path/filepath.Join" || t.S == "path/filepath.Abs")
	}
	for _, fn := range heads {
		fn := fn
		at := p.FnName(fn)
		cl := &Client{Name: "C05", CollapseErr: true, Inline: func(g *ssa.Function) bool {
			if p.Rel(g) != "internal/parser" || g == fn {
				return false
			}
			rs := g.Signature.Results()
			return p.ReachableFrom(g)[fn] || g.Parent() == fn || rs.Len() > 0 && isStringT(rs.At(0).Type()) && !ps.recursive(g)
		}, KeepFact: func(e *Engine, a *Term) bool { return false }}
		e := NewEngine(p, cl)
		var path, marks *Term
		look := map[*Term]bool{}
		var neg func(a *Term, v bool) (bool, bool)
		neg = func(a *Term, v bool) (bool, bool) { // set?
			if look[a] {
				return v, true
			}
			if a.K == KBin && a.S == "==" && look[a.A[0]] && a.A[1].K == KConst {
				z := a.A[1].S == "false" || a.A[1].S == "0"
				return v != z, true
			}
			return false, false
		}
		cl.OnLookup = func(e *Engine, s *State, m, k *Term, pos tokenPos) {
			if m == marks && k == path {
				v, ok := e.lookup(s, m, k, m.T)
				look[v], look[ok] = true, true
			}
		}
		cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) {
			if set, ok := neg(a, v); ok && s.Get("mark") == "" {
				if set {
					s.Set("seen", "yes")
				} else {
					s.Set("seen", "no")
				}
			}
		}
		cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
			if m != marks {
				return
			}
			if k != path {
				e.Report(s, "foreign mark in "+at, pos, "%s changes the mark of %s, which is not the file it reads", at, k)
				return
			}
			s.Set("mark", markText(v))
			if v == nil || markText(v) == "" {
				s.Set("mark", "off")
			}
		}
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			switch {
			case ev.Name == "os.ReadFile" || ev.Name == "os.Open":
				switch {
				case ev.Args[0] != path:
					e.Report(s, "other file read in "+at, ev.Pos, "%s reads %s, not the file whose mark it checks", at, ev.Args[0])
				case s.Get("seen") == "":
					e.Report(s, "mark not looked up in "+at, ev.Pos, "%s can read a file without having looked whether it is in progress", at)
				case s.Get("seen") == "yes":
					e.Report(s, "file in progress read in "+at, ev.Pos, "%s can read a file that is in progress", at)
				case s.Get("mark") == "" || s.Get("mark") == "off":
					e.Report(s, "file not marked in "+at, ev.Pos, "%s can read a file that it has not marked as in progress", at)
				default:
					e.Count("file read once marked")
				}
				e.splitErr(s, ev, nil, nil)
			case ev.Fn == fn:
				if s.Get("mark") == "" || s.Get("mark") == "off" {
					e.Report(s, "file not marked in "+at, ev.Pos, "%s can read included files without having marked the including one", at)
				}
				for i, a := range ev.Args {
					switch t := fn.Params[i].Type(); {
					case isMarks(t):
						if a != marks {
							e.Report(s, "other marks in "+at, ev.Pos, "an included file is read with other marks (%s)", a)
						}
					case isStringT(t):
						if !clean(a) && a.any(func(x *Term) bool { return x == path }) {
							e.Report(s, "include path not normalised", ev.Pos, "an included file is read under a path that grows from that of the including file: %s", a)
						} else {
							e.Count("include path normalised")
						}
					}
				}
				e.splitErr(s, ev, nil, func(s *State) { s.Set("failed", "1") })
			}
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			bad := e.Nilness(s, ret[len(ret)-1]) == -1
			if s.Get("seen") == "yes" {
				if !bad {
					e.Report(s, "file in progress accepted in "+at, fn.Pos(), "%s can succeed for a file that is in progress", at)
				} else {
					e.Count("file in progress refused")
				}
				return
			}
			if s.Get("failed") != "" && !bad {
				e.Report(s, "failed include accepted in "+at, fn.Pos(), "%s can succeed although an included file could not be read", at)
			}
			if bad {
				return
			}
			if s.Get("mark") != "off" {
				e.Report(s, "mark not removed in "+at, fn.Pos(), "%s can succeed and leave its file marked as in progress: including it again is reported as a cycle", at)
			} else {
				e.Count("mark removed")
			}
		}
		s := e.NewState(fn, nil)
		for _, q := range fn.Params {
			switch {
			case isStringT(q.Type()):
				path = s.top().env[q]
			case isMarks(q.Type()):
				marks = s.top().env[q]
			}
		}
		if path == nil || marks == nil {
			e.Report(nil, "no marks in "+at, fn.Pos(), "%s recurses without a path and a table of marks", at)
			c.Absorb(e)
			continue
		}
		e.Run(s)
		c.Absorb(e)
		// the entry
		cl2 := &Client{Name: "C05", CollapseErr: true, Inline: func(g *ssa.Function) bool { return p.Rel(g) == "internal/parser" && !ps.reads[g] }}
		e2 := NewEngine(p, cl2)
		cl2.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if ev.Fn != fn {
				return
			}
			for i, a := range ev.Args {
				switch t := fn.Params[i].Type(); {
				case isMarks(t):
					if e.mapContents(s, a).K != KMNew {
						e.Report(s, "marks from elsewhere", ev.Pos, "the first file is read with marks already set")
					}
				case isStringT(t):
					if !clean(a) {
						e.Report(s, "path not normalised", ev.Pos, "the first file is read under a path that is not normalised: %s", a)
					} else {
						e.Count("include path normalised")
					}
				}
			}
		}
		e2.Run(e2.NewState(ps.parse, nil))
		c.Absorb(e2)
	}
}
