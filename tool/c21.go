package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C21",
		Technique: "path-sensitive value provenance over SSA from every key of the YAML tree to the field of the model it names, with per-pair and per-item obligations on every loop of the reader and separately verified helpers",
		Explain:   "For every level of a Babfile the reader is followed over an arbitrary YAML tree. On every path and for every pair of a mapping, the value of each documented key ends up, decoded as what that key takes, in the field of that name of the task or run item returned, and in no other; or an error is recorded and the load fails. Values are of the right kind when they are taken. Pairs of env, vars, tasks and includes and the items of run and parallel are entered once each, in order, or an error is recorded; a task name given twice is an error. Unset fields stay empty apart from the defaults of level and mode. A well-formed value is not rejected.",
		Run:       runC21,
		Floors: map[string]int{"reader of mapping": 3, "reader of items": 1, "fields of Schema": 1, "fields of Task": 1, "fields of CommandRun": 1, "fields of TaskRun": 1, "fields of LogRun": 1,
			"fields of PromptRun": 1, "fields of ParallelRun": 1, "value read": 40, "pair entered": 4, "item entered": 1, "list of values": 4, "label of item": 1},
	})
}

// readKeys: the keys of each level and what their values are.
var readKeys = map[string]map[string]string{
	"Schema":      {"vars": "map", "env": "map", "silent": "bool", "output": "bool", "dir": "str", "includes": "includes", "tasks": "tasks"},
	"Task":        {"desc": "str", "alias": "str", "aliases": "list", "vars": "map", "env": "map", "silent": "bool", "output": "bool", "dir": "str", "when": "str", "deps": "list", "run": "items"},
	"CommandRun":  {"cmd": "str", "dir": "str", "env": "map", "silent": "bool", "output": "bool", "platforms": "list", "when": "str"},
	"TaskRun":     {"task": "str", "silent": "bool", "output": "bool", "platforms": "list", "when": "str"},
	"LogRun":      {"log": "str", "level": "str", "platforms": "list", "when": "str"},
	"PromptRun":   {"prompt": "str", "type": "str", "message": "str", "default": "str", "defaults": "list", "options": "list", "placeholder": "str", "validate": "str", "min": "int", "max": "int", "confirm": "bool", "platforms": "list", "when": "str"},
	"ParallelRun": {"parallel": "node", "mode": "str", "limit": "int", "color": "bool", "silent": "bool", "output": "bool", "platforms": "list", "when": "str"},
}

// defaults of keys that are not given.
var defaults = map[string]string{"level": "info", "mode": "interleaved"}

// validLists: the values some types allow.
var validLists = map[string]string{
	"LogLevel": "debug error info warn", "ParallelMode": "grouped interleaved tabs", "Platform": "darwin linux windows",
	"PromptType": "confirm input multiselect number password select",
}

// fieldOfKey: the field of a model type that a key names.
func fieldOfKey(st *types.Struct, key string) *types.Var {
	if key == "parallel" {
		key = "items"
	}
	for i := 0; i < st.NumFields(); i++ {
		if strings.EqualFold(st.Field(i).Name(), key) {
			return st.Field(i)
		}
	}
	return nil
}

func isYAMLNode(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	return ok && pt.String() == "*gopkg.in/yaml.v3.Node"
}

type unmatched struct {
	hdr  *ssa.BasicBlock
	keys []string
	pos  token.Pos
	st   *State
}

type holding struct {
	key   string
	where map[string]bool
	pos   token.Pos
	st    *State
}

type reader struct {
	c      *Ctx
	p      *Prog
	ps     *parseSim
	roots  map[*ssa.Function]string
	valids map[*ssa.Function][]string
	fn     *ssa.Function
	kind   string
	at     string
	e      *Engine
	node   *Term // the node read
	verrs  *Term

	matched map[*ssa.BasicBlock]map[string]bool
	unm     []unmatched
	holds   []holding
	nodeLoc map[string]map[string]bool // location -> keys whose node it held
	mapKeys map[*Term]map[string]bool  // map -> keys whose pairs it got
	outLoc  map[string]map[string]bool // key -> locations that reach the result
	outMap  map[string]map[*Term]bool
	types   map[string]bool // result types
	deleg   bool
	labels  *Term
	post    []func()
	final   []func()
	seen    map[string]bool        // fields that are filled from their key
	entries map[*ssa.Function]bool // readers of items that get them as they are
}

func runC21(c *Ctx) {
	goos := c.goosList()[0]
	p := c.Prog(goos)
	c.GOOSList = append(c.GOOSList, goos)
	ps := newParseSim(c, p)
	ps.verrContracts(c, "C21")
	roots := map[*ssa.Function]string{}
	valids := map[*ssa.Function][]string{}
	for _, fn := range p.Funcs {
		if l, ok := validMethod(p, fn); ok {
			valids[fn] = l
			c21Valid(c, p, fn, l)
		}
		if k := readerKind(p, fn); k != "" {
			roots[fn] = k
		}
	}
	c21Include(c, p)
	var fns []*ssa.Function
	for fn := range roots {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return p.FnName(fns[i]) < p.FnName(fns[j]) })
	entries := map[*ssa.Function]bool{}
	for _, items := range []bool{true, false} {
		for _, fn := range fns {
			r := &reader{c: c, p: p, ps: ps, roots: roots, valids: valids, fn: fn, kind: roots[fn], at: p.FnName(fn), entries: entries}
			if (r.kind == "items") != items {
				continue
			}
			if items {
				r.items()
			} else {
				r.mapping()
			}
		}
	}
}

// readerKind: what a function of the parser reads from a YAML node.
func readerKind(p *Prog, fn *ssa.Function) string {
	rs := fn.Signature.Results()
	if p.Rel(fn) != "internal/parser" || fn.Synthetic != "" || fn.Parent() != nil || rs.Len() == 0 {
		return ""
	}
	node, bytes := false, false
	for _, t := range prms(fn) {
		if isYAMLNode(t) {
			node = true
			continue
		}
		if t.String() == "[]byte" {
			bytes = true
			continue
		}
		if isVerrs(p, t) {
			continue
		}
		// values already read
		if carriesModel(p, t, 0) {
			return ""
		}
	}
	t := rs.At(0).Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	switch {
	case bytes && p.named(t, "internal/babfile", "Schema") && rs.Len() == 2:
		return "file"
	case !node:
		return ""
	case p.named(t, "internal/babfile", "Task"):
		return "task"
	case isItemSlice(p, t) && p.OnCycle(fn):
		return "items"
	case p.OnCycle(fn) && types.IsInterface(t) && p.named(t, "internal/babfile", "RunItem"):
		return "item"
	}
	return ""
}

// carriesModel: values of this type can hold settings already read.
func carriesModel(p *Prog, t types.Type, d int) bool {
	if d > 4 || t == nil || isVerrs(p, t) || isYAMLNode(t) {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/babfile") {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if _, basic := u.Elem().Underlying().(*types.Basic); basic {
			return true
		}
		return carriesModel(p, u.Elem(), d+1)
	case *types.Slice:
		return true
	case *types.Map:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if carriesModel(p, u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// validMethod: a predicate of a string type of the model that looks at a list.
func validMethod(p *Prog, fn *ssa.Function) ([]string, bool) {
	sg := fn.Signature
	if p.Rel(fn) != "internal/babfile" || fn.Synthetic != "" || sg.Recv() == nil || sg.Params().Len() != 0 || sg.Results().Len() != 1 || !isBoolT(sg.Results().At(0).Type()) || !isStringT(sg.Recv().Type()) {
		return nil, false
	}
	n, ok := sg.Recv().Type().(*types.Named)
	if !ok || validLists[n.Obj().Name()] == "" || !p.usesList(fn, 0) {
		return nil, false
	}
	return strings.Fields(validLists[n.Obj().Name()]), true
}

// usesList: fn, or what it calls in its package, loops or asks a list.
func (p *Prog) usesList(fn *ssa.Function, d int) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && p.InRepoPkg(g.Pkg) {
					if _, is := ptrElem(g.Type()).Underlying().(*types.Slice); is {
						return true
					}
					if _, is := ptrElem(g.Type()).Underlying().(*types.Array); is {
						return true
					}
				}
			}
		}
	}
	return false
}

// InRepoPkg: the package belongs to the repository.
func (p *Prog) InRepoPkg(pkg *ssa.Package) bool {
	for _, q := range p.ByRel {
		if q == pkg {
			return true
		}
	}
	return false
}

// c21Valid: the predicate holds exactly for the documented values.
func c21Valid(c *Ctx, p *Prog, fn *ssa.Function, want []string) {
	var globals []*ssa.Global
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok {
					globals = append(globals, g)
				}
			}
		}
	}
	cl := &Client{Name: "C21", ConstIter: true, Inline: inPkg(p, "internal/babfile"), KeepFact: func(e *Engine, a *Term) bool { return true }}
	e := NewEngine(p, cl)
	for _, g := range globals {
		l, ok := p.stringList(g)
		l = append([]string(nil), l...)
		sort.Strings(l)
		if !ok || strings.Join(l, " ") != strings.Join(want, " ") {
			e.Report(nil, "list of "+shortType(fn.Signature.Recv().Type()), g.Pos(), "%s accepts %v, documented are %v", p.FnName(fn), l, want)
		}
	}
	var recv, coll *Term
	isElem := func(x *Term) bool { return x.K == KElem && coll != nil && x.A[0] == coll }
	cl.OnIter = func(e *Engine, s *State, cc, key, el *Term) {
		coll = cc
		s.Set("all", "")
		if s.Get("in") == "1" && s.Get("ne") != "1" {
			e.Report(s, "value passed over", fn.Pos(), "%s can pass over a value of the list", p.FnName(fn))
		}
		s.Set("in", "1")
		s.Set("ne", "")
	}
	cl.OnExh = func(e *Engine, s *State, cc *Term) {
		if s.Get("in") == "1" && s.Get("ne") != "1" {
			e.Report(s, "value passed over", fn.Pos(), "%s can pass over a value of the list", p.FnName(fn))
		}
		coll = cc
		s.Set("all", "1")
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos token.Pos) {
		if a.K == KBin && a.S == "==" && (isElem(a.A[0]) && a.A[1] == recv || isElem(a.A[1]) && a.A[0] == recv) {
			if v {
				s.Set("eq", "1")
			} else {
				s.Set("ne", "1")
			}
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if r := ret[0]; r.K == KCall && r.S == "slices.Contains" && len(r.A) == 2 && r.A[1] == recv {
			e.Count("list of values")
			return
		}
		v, ok := e.Decide(s, ret[0])
		if !ok || v != (s.Get("eq") == "1") || !v && s.Get("all") == "" {
			e.Report(s, "wrong answer of "+p.FnName(fn), fn.Pos(), "%s can answer otherwise than by its list", p.FnName(fn))
			return
		}
		e.Count("list of values")
	}
	s := e.NewState(fn, nil)
	recv = s.top().env[fn.Params[0]]
	e.Run(s)
	c.Absorb(e)
}

// c21Include: the decoder fills the path of an include from its key.
func c21Include(c *Ctx, p *Prog) {
	t, err := p.Type("internal/babfile", "Include")
	if err != nil {
		return
	}
	st := structOf(t)
	e := NewEngine(p, &Client{Name: "C21"})
	for i := 0; i < st.NumFields(); i++ {
		tag := st.Tag(i)
		if strings.EqualFold(st.Field(i).Name(), "babfile") && strings.Contains(tag, `yaml:"babfile"`) {
			return
		}
		if strings.EqualFold(st.Field(i).Name(), "babfile") && !strings.Contains(tag, "yaml:") {
			return
		}
	}
	e.Report(nil, "include path", st.Field(0).Pos(), "the path of an include is not read from the key babfile")
	c.Absorb(e)
}

func (r *reader) report(s *State, key string, pos token.Pos, f string, a ...any) {
	r.e.Report(s, key+" in "+r.at, pos, r.at+": "+f, a...)
}

// keyNode and valNode: x is the key, or the value, of the current pair of coll.
func (r *reader) keyNode(s *State, x *Term) *Term {
	if x.K != KElem || !r.isContent(x.A[0]) || x.A[1] != s.vals["i:"+itoa(x.A[0].id)] {
		return nil
	}
	return x.A[0]
}

func (r *reader) valNode(s *State, x *Term) *Term {
	if x.K == KFld && x.S == "Alias" {
		x = x.A[0]
	}
	if x.K != KElem || !r.isContent(x.A[0]) || x.A[1].K != KBin {
		return nil
	}
	i := s.vals["i:"+itoa(x.A[0].id)]
	if i == nil || x.A[1] != r.e.T.Bin(token.ADD, i, r.e.T.Int(1), i.T) {
		return nil
	}
	return x.A[0]
}

func (r *reader) isContent(c *Term) bool {
	sl, ok := types.Type(nil), false
	if c.T != nil {
		if u, is := c.T.Underlying().(*types.Slice); is {
			sl, ok = u.Elem(), true
		}
	}
	return ok && isYAMLNode(sl)
}

// key of the current pair that x is the value of.
func (r *reader) keyOf(s *State, x *Term) (coll *Term, key string) {
	if coll = r.valNode(s, x); coll != nil {
		key = s.Get("k:" + itoa(coll.id))
	}
	return
}

func (r *reader) value(key string, coll *Term) *Term {
	return r.e.T.mk(KCall, "text of "+key, "", types.Typ[types.String], false, nil, coll)
}

func isText(t *Term, key string) bool { return t.K == KCall && t.S == "text of "+key }
func isDec(t *Term, key string) bool  { return t.K == KCall && t.S == "value of "+key }
func isItems(t *Term, key string) bool {
	return t.K == KCall && t.S == "items of "+key
}

// base of an index: i for i and for i+1.
func idxBase(t *Term) *Term {
	if t.K == KBin && t.S == "+" && t.A[1].IsConst() {
		return t.A[0]
	}
	return t
}

func (r *reader) fld(x *Term, f string) *Term { return r.e.T.Fld(x, f, types.Typ[types.Int]) }

// kindIs: the node, or what it is an alias of, is known to be of a kind.
func (r *reader) kindIs(s *State, x *Term, k int64) (bool, bool) {
	one := func(x *Term) (bool, bool) {
		return r.e.Decide(s, r.e.T.Bin(token.EQL, r.fld(x, "Kind"), r.e.T.Int(k), types.Typ[types.Bool]))
	}
	if x.K == KFld && x.S == "Alias" {
		return one(x)
	}
	v, ok := one(x)
	if ok && v {
		return true, true
	}
	al := r.e.T.Fld(x, "Alias", x.T)
	if w, ok2 := one(al); ok2 {
		if u, ok3 := r.e.Decide(s, r.e.T.Bin(token.EQL, r.fld(x, "Kind"), r.e.T.Int(16), types.Typ[types.Bool])); ok3 && u {
			return w, true
		}
	}
	return v, ok
}

func (r *reader) client() *Client {
	p := r.p
	cl := &Client{Name: "C21", CollapseErr: true, ByField: true, JoinEmpty: true}
	cl.Inline = func(g *ssa.Function) bool {
		rel := p.Rel(g)
		if rel != "internal/parser" && rel != "internal/babfile" && rel != "internal/errs" {
			return false
		}
		return r.roots[g] == "" && r.valids[g] == nil && verrMethod(p, g) == "" && !r.ps.names[g] && !r.ps.alias[g] && (rel != "internal/babfile" || !p.OnCycle(g))
	}
	return cl
}

// child: a node handed to another reader.
func (r *reader) child(e *Engine, s *State, ev *CallEvent) bool {
	k := r.roots[ev.Fn]
	if k == "" || ev.Inline {
		return false
	}
	var node, verrs *Term
	for i, a := range ev.Args {
		t := ev.Fn.Params[i].Type()
		if isYAMLNode(t) {
			node = a
		}
		if isVerrs(r.p, t) {
			verrs = a
		}
	}
	if node == nil {
		return false
	}
	if r.kind == "items" {
		r.entries[ev.Fn] = true
	}
	if k == "item" && node == r.node {
		if v, ok := r.kindIs(s, node, 4); !ok || !v {
			r.report(s, "kind of item", ev.Pos, "hands on an item that is not a mapping")
		}
	}
	key := ""
	if _, kk := r.keyOf(s, node); kk != "" {
		key = kk
	} else if ks := r.nodeKeys(node); len(ks) == 1 {
		key = ks[0]
	}
	sg := ev.Fn.Signature
	t := e.T.mk(KCall, k+" of "+key, "", sg.Results().At(0).Type(), false, nil, node)
	ev.Handled = true
	ret := func(t *Term, ok bool) *Term {
		n := sg.Results().Len()
		if n == 1 {
			return t
		}
		xs := []*Term{t}
		for i := 1; i < n; i++ {
			rt := sg.Results().At(i).Type()
			switch {
			case isBoolT(rt):
				xs = append(xs, e.T.Bool(ok))
			case isErrT(rt) && ok:
				xs = append(xs, e.T.Nil())
			default:
				xs = append(xs, e.T.mk(KHavoc, "err!", "", rt, false, nil))
			}
		}
		return e.T.mk(KTuple, "", "", sg.Results(), false, nil, xs...)
	}
	ev.Results = []Outcome{{Ret: ret(t, true), Facts: map[*Term]bool{}}, {Ret: ret(e.T.Zero(t.T), false), Do: func(s *State) {
		if verrs != nil && r.isVerrs(s, verrs) {
			r.bad(s)
		}
	}}}
	return true
}

func (r *reader) isVerrs(s *State, v *Term) bool {
	if r.verrs != nil {
		return v == r.verrs
	}
	return s.vals["verrs"] == nil || s.vals["verrs"] == v
}

// bad: an error is recorded; the load fails.
func (r *reader) bad(s *State) {
	if r.kind == "file" {
		s.Set("bad", "1")
		return
	}
	s.dead = true
}

// nodeKeys: the keys whose values a location held.
func (r *reader) nodeKeys(t *Term) []string {
	if t.K != KLoop {
		return nil
	}
	var out []string
	for k := range r.nodeLoc[t.S] {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// locations lists what cells and header variables hold.
func (r *reader) locations(s *State, f *Frame, hdr *ssa.BasicBlock, visit func(name string, t *Term)) {
	for k, v := range s.mem {
		if k.K == KAlloc || k.K == KFieldAddr {
			visit("cell:"+k.String()+"/"+itoa(k.id), strip(v))
		}
	}
	for _, ins := range hdr.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if v := f.env[ph]; v != nil {
			nm := ph.Name()
			if ph.Comment != "" {
				nm = ph.Comment + "/" + nm
			}
			visit(nm, strip(v))
		}
	}
}

// good: t holds the value of key.
func (r *reader) good(s *State, key, kind string, t *Term) bool {
	t = strip(t)
	switch kind {
	case "str":
		return isText(t, key)
	case "list":
		return isDec(t, key)
	case "int", "bool":
		return isDec(t, key) || t.K == KCall && t.S == "pointer to value of "+key
	case "items":
		return isItems(t, key)
	}
	return false
}

func keyKind(k string) string {
	for _, n := range []string{"Schema", "Task", "CommandRun", "TaskRun", "LogRun", "PromptRun", "ParallelRun"} {
		if v := readKeys[n][k]; v != "" {
			return v
		}
	}
	return ""
}

// mapping reads a mapping. Flags of loops are taken to keep the value they have
// before the first round; those that a round changes after all are given up and
// the reader is run again.
func (r *reader) mapping() {
	wrong := map[string]bool{}
	for {
		e := r.run(wrong)
		n := len(wrong)
		for t, li := range e.Loops {
			if t.T == nil || !isBoolT(t.T) || wrong[flagID(t)] {
				continue
			}
			v, ok := startFlag(e, wrong, t)
			if !ok {
				continue
			}
			for _, set := range []map[*Term]bool{li.Entry, li.Back} {
				for x := range set {
					if w, is := constFlag(e, wrong, x); !is || w != v {
						wrong[flagID(t)] = true
					}
				}
			}
		}
		if len(wrong) == n {
			break
		}
	}
	for _, f := range r.post {
		f()
	}
	for _, f := range r.final {
		f()
	}
	r.finish()
	r.c.Absorb(r.e)
}

func flagID(t *Term) string { return t.S + "@" + t.Site }

// startFlag: the value a flag has before the first round.
func startFlag(e *Engine, wrong map[string]bool, t *Term) (v, ok bool) {
	if wrong[flagID(t)] || t.T == nil || !isBoolT(t.T) {
		return false, false
	}
	li := e.Loops[t]
	if li == nil {
		return false, false
	}
	n := 0
	for x := range li.Entry {
		b, is := x.BoolVal()
		if !is {
			continue
		}
		if n > 0 && b != v {
			wrong[flagID(t)] = true
			return false, false
		}
		v = b
		n++
	}
	return v, n > 0
}

// constFlag: the value of a flag, given what flags are at the start of a round.
func constFlag(e *Engine, wrong map[string]bool, t *Term) (v, ok bool) {
	if b, is := t.BoolVal(); is {
		return b, true
	}
	if t.K == KUn && t.S == "!" {
		v, ok = constFlag(e, wrong, t.A[0])
		return !v, ok
	}
	if t.K == KLoop {
		v, ok = startFlag(e, wrong, t)
	}
	return
}

func (r *reader) run(wrong map[string]bool) *Engine {
	p := r.p
	cl := r.client()
	e := NewEngine(p, cl)
	r.e = e
	e.MaxSteps = 60000000
	r.unm, r.holds, r.post, r.final, r.deleg, r.labels = nil, nil, nil, nil, false, nil
	r.seen = map[string]bool{}
	r.matched = map[*ssa.BasicBlock]map[string]bool{}
	r.nodeLoc, r.mapKeys = map[string]map[string]bool{}, map[*Term]map[string]bool{}
	r.outLoc, r.outMap, r.types = map[string]map[string]bool{}, map[string]map[*Term]bool{}, map[string]bool{}
	cl.KeepFact = func(e *Engine, a *Term) bool { return true }
	cl.LoadAs = func(e *Engine, s *State, addr, val *Term) *Term {
		if addr.K == KFieldAddr && addr.S == "Value" && isYAMLNode(addr.A[0].T) {
			if coll, k := r.keyOf(s, addr.A[0]); k != "" {
				return r.value(k, coll)
			}
		}
		return nil
	}
	cl.OnIter = func(e *Engine, s *State, coll, key, el *Term) {
		id := itoa(coll.id)
		if r.isContent(coll) {
			r.forget(e, s, coll)
			s.Set("k:"+id, "")
			s.Set("exh:"+id, "")
			s.Set("put:"+id, "")
			s.Set("it:"+id, "1")
		}
		s.vals["i:"+id] = key
		if r.pairs(e.iterHdr) {
			s.vals["i:"+id] = idxBase(key)
		}
		s.vals["h:"+hdrID(e.iterHdr)] = coll
		s.vals["ch:"+id] = e.T.Str(hdrID(e.iterHdr))
		s.Set("exh:"+id, "")
	}
	cl.OnExh = func(e *Engine, s *State, coll *Term) {
		id := itoa(coll.id)
		if r.isContent(coll) {
			r.forget(e, s, coll)
		}
		s.Set("k:"+id, "")
		s.Set("it:"+id, "")
		s.Set("exh:"+id, "1")
		if isDec(coll, "platforms") {
			s.Set("plat", "1")
		}
		delete(s.vals, "i:"+id)
		if r.isNodeContent(coll) {
			r.locations(s, s.top(), e.iterHdr, func(name string, t *Term) {
				if t.T != nil && isStringT(t.T) {
					s.vals["loc:"+name] = t
				}
			})
		}
	}
	cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos token.Pos) {
		if a.K == KBin && a.S == "==" && a.A[1].IsNil() && a.A[0].T != nil && isIntPtr(a.A[0].T) {
			s.Set("nz:"+itoa(a.A[0].id), map[bool]string{true: "t", false: "f"}[v])
		}
		if a.K == KBin && a.S == "<" && a.A[0].T != nil && isIntT(a.A[0].T) && !a.A[0].IsConst() && !a.A[1].IsConst() {
			s.Set("lt:"+itoa(a.A[0].id)+"."+itoa(a.A[1].id), map[bool]string{true: "t", false: "f"}[v])
		}
		if a.K == KBin && a.S == "<" && !v && a.A[1].K == KLen && r.isContent(a.A[1].A[0]) && a.A[0].K == KBin && a.A[0].S == "+" {
			if n, ok := a.A[0].A[1].IntVal(); ok && n > 1 {
				r.report(s, "last pair passed over", pos, "can stop before the last pair")
			}
		}
		if a.K != KBin || a.S != "==" || !v || a.A[0].K != KFld || a.A[0].S != "Value" {
			return
		}
		k, ok := a.A[1].StrVal()
		coll := r.keyNode(s, a.A[0].A[0])
		if !ok || coll == nil {
			return
		}
		s.Set("k:"+itoa(coll.id), k)
		if k == "parallel" && r.handedOn() {
			s.Set("seen", "1")
		}
		if k == "label" && !r.isNodeContent(coll) {
			s.Set("lab", "todo")
		}
		if h := s.vals["ch:"+itoa(coll.id)]; h != nil {
			id, _ := h.StrVal()
			if hdr := r.hdr(id); hdr != nil {
				if r.matched[hdr] == nil {
					r.matched[hdr] = map[string]bool{}
				}
				r.matched[hdr][k] = true
			}
		}
	}
	cl.StoreAs = func(e *Engine, s *State, addr, val *Term) *Term {
		if val.K == KAlloc && val.T != nil {
			if pe := ptrElem(val.T); pe == nil {
				return nil
			} else if _, ok := pe.Underlying().(*types.Basic); ok {
				if v := s.mem[val]; v != nil && v.K == KCall && strings.HasPrefix(v.S, "value of ") {
					return e.T.mk(KCall, "pointer to "+v.S, "", val.T, false, nil, v.A[0])
				}
			}
		}
		return nil
	}
	cl.Oracle = func(e *Engine, s *State, a *Term) (bool, bool) {
		if a.K == KLoop {
			return startFlag(e, wrong, a)
		}
		if a.K == KBin && a.S == "==" && a.A[1].IsNil() && a.A[0].T != nil {
			x := a.A[0]
			if isYAMLNode(x.T) && (x.K == KElem || x == r.node) || x.K == KCall && strings.HasPrefix(x.S, "pointer to ") {
				return false, true
			}
		}
		return false, false
	}
	cl.OnBack = r.back
	cl.OnCall = r.call
	cl.OnMapPut = r.put
	cl.OnStore = func(e *Engine, s *State, addr, val *Term, pos token.Pos) {
		if d, ok := val.StrVal(); ok && d != "" {
			for k, v := range defaults {
				if v == d && isStringT(ptrElem(addr.T)) {
					old := e.load(s, addr, ptrElem(addr.T))
					if v, ok := e.Decide(s, e.T.Bin(token.EQL, old, e.T.Str(""), types.Typ[types.Bool])); ok && v {
						continue
					}
					k, s := k, s.clone()
					r.later(func() {
						if !r.empty(s, k) {
							r.report(s, k+" replaced", pos, "replaces the %s given by %q", k, d)
						}
					})
				}
			}
		}
		// labels of the items of a parallel block
		if addr.K != KIndexAddr || !isStringT(ptrElem(addr.T)) {
			return
		}
		if rt := rootAlloc(addr); rt != nil && (rt.S == "varargs" || rt.S == "slicelit") {
			return
		}
		v := strip(val)
		if d, ok := v.StrVal(); ok && d == "" && s.Get("lab") == "" {
			return
		}
		if !isText(v, "label") {
			r.report(s, "foreign label", pos, "stores %s in a list of labels", v)
			return
		}
		own := v.A[0] // Content of the item
		if own.K != KFld || own.A[0].K != KElem || own.A[0].A[1] != addr.A[1] {
			r.report(s, "label of another item", pos, "the label of one item is given to another")
			return
		}
		if !r.fromKey(own.A[0].A[0], "parallel") {
			r.report(s, "label of another item", pos, "labels are taken from nodes that are not the items of the block")
			return
		}
		s.Set("lab", "")
		r.labels = addr.A[0]
		e.Count("label of item")
	}
	cl.OnExit = r.exit
	s := e.NewState(r.fn, nil)
	for _, prm := range r.fn.Params {
		t := s.top().env[prm]
		if isYAMLNode(prm.Type()) {
			r.node = t
		}
		if isVerrs(p, prm.Type()) {
			r.verrs = t
		}
	}
	e.Run(s)
	return e
}

// forget drops what was noted in the last round of a loop over coll.
func (r *reader) forget(e *Engine, s *State, coll *Term) {
	for k := range s.auto {
		if i := strings.IndexByte(k, ':'); i > 0 && i < 5 {
			if n := atoi(k[i+1:]); n > 0 && n < len(e.T.all) && e.T.all[n].contains(coll) {
				delete(s.auto, k)
			}
		}
	}
	for _, k := range []string{"plat", "inval", "decerr"} {
		s.Set(k, "")
	}
}

// fromKey: coll is the content of the value of key.
func (r *reader) fromKey(coll *Term, key string) bool {
	if coll.K != KFld || coll.S != "Content" {
		return false
	}
	ks := r.nodeKeys(coll.A[0])
	return len(ks) == 1 && ks[0] == key
}

func hdrID(b *ssa.BasicBlock) string { return b.Parent().String() + "#" + itoa(b.Index) }

func (r *reader) hdr(id string) *ssa.BasicBlock {
	i := strings.LastIndexByte(id, '#')
	for fn := range r.e.Funcs {
		if fn.String() == id[:i] {
			return fn.Blocks[atoi(id[i+1:])]
		}
	}
	if r.fn.String() == id[:i] {
		return r.fn.Blocks[atoi(id[i+1:])]
	}
	return nil
}

func (r *reader) onStack(s *State, fn *ssa.Function) bool {
	for _, f := range s.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// back: one round of a loop is over.
func (r *reader) back(e *Engine, s *State, f *Frame, hdr *ssa.BasicBlock) {
	coll := s.vals["h:"+hdrID(hdr)]
	if coll == nil || s.Get("bad") != "" {
		return
	}
	id := itoa(coll.id)
	pos := hdr.Parent().Pos()
	if !r.isContent(coll) {
		// elements of a value
		switch {
		case isDec(coll, "platforms"):
			el := e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, s.vals["i:"+id])
			if !r.oneOf(s, el) {
				r.report(s, "platform not checked", pos, "takes a platform that is not a known one")
			}
		case coll.K == KCall && strings.HasPrefix(coll.S, "items of "):
			el := e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, s.vals["i:"+id])
			for _, n := range []string{"PromptRun", "ParallelRun"} {
				t, err := r.p.Type("internal/babfile", n)
				if err != nil {
					continue
				}
				if v, ok := e.Decide(s, e.T.mk(KIsType, shortType(t), "", t, true, nil, el)); !ok || v {
					r.report(s, n+" in a block", pos, "accepts a %s as an item of a parallel block", n)
				}
			}
		}
		return
	}
	i := s.vals["i:"+id]
	if i == nil {
		return
	}
	pk := r.parentKey(s, coll)
	kind := keyKind(pk)
	if r.pairs(hdr) && i.K == KLoop {
		li := e.Loops[i]
		okStep := li != nil
		if li != nil {
			for x := range li.Entry {
				if n, is := x.IntVal(); !is || n != 0 {
					okStep = false
				}
			}
			for x := range li.Back {
				if x != e.T.Bin(token.ADD, i, e.T.Int(2), i.T) {
					okStep = false
				}
			}
		}
		if !okStep {
			r.report(s, "pairs passed over", pos, "does not go through the pairs of a mapping one by one")
		}
	}
	if kind == "map" || kind == "tasks" || kind == "includes" {
		if s.Get("put:"+id) != "1" {
			r.report(s, "entry of "+pk+" lost", pos, "can pass over an entry of %s without an error", pk)
		}
		return
	}
	k := s.Get("k:" + id)
	if s.Get("lab") != "" && !r.pairs(hdr) {
		r.report(s, "label lost", pos, "can pass over the label of an item")
	}
	if k == "" {
		var und []string
		kn := e.T.Fld(e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, i), "Value", types.Typ[types.String])
		for _, n := range allKeys() {
			if v, ok := e.Decide(s, e.T.Bin(token.EQL, kn, e.T.Str(n), types.Typ[types.Bool])); !ok || v {
				und = append(und, n)
			}
		}
		r.unm = append(r.unm, unmatched{hdr, und, pos, nil})
		return
	}
	if k == "label" || keyKind(k) == "" {
		return
	}
	r.duty(e, s, f, hdr, coll, k, pos)
}

// pairs: the loop goes through keys and values.
func (r *reader) pairs(hdr *ssa.BasicBlock) bool {
	for _, ins := range hdr.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for _, x := range ph.Edges {
			if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(ph) {
				if c, ok := b.Y.(*ssa.Const); ok && c.Int64() > 1 {
					return true
				}
			}
		}
	}
	return false
}

func allKeys() []string {
	m := map[string]bool{}
	for _, v := range readKeys {
		for k := range v {
			m[k] = true
		}
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// parentKey: the key whose value coll is the content of.
func (r *reader) parentKey(s *State, coll *Term) string {
	if coll.K != KFld || coll.S != "Content" {
		return ""
	}
	_, k := r.keyOf(s, coll.A[0])
	return k
}

// oneOf: x is known to be one of the constants it was compared with.
func (r *reader) oneOf(s *State, x *Term) bool {
	for a, v := range s.facts {
		if v && a.K == KBin && a.S == "==" && a.A[0] == x && a.A[1].K == KConst {
			return true
		}
	}
	return false
}

// duty: the pair with key k of coll must have been taken.
func (r *reader) duty(e *Engine, s *State, f *Frame, hdr *ssa.BasicBlock, coll *Term, k string, pos token.Pos) {
	kind := keyKind(k)
	i := s.vals["i:"+itoa(coll.id)]
	node := e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, e.T.Bin(token.ADD, i, e.T.Int(1), i.T))
	lost := func(why string) {
		r.report(s, k+" lost", pos, "can pass over the value of %s without an error (%s)", k, why)
	}
	kindIs := func(n int64) bool { v, ok := r.kindIs(s, node, n); return ok && v }
	where := map[string]bool{}
	r.locations(s, f, hdr, func(name string, t *Term) {
		if kind == "node" {
			if t == node || t.K == KFld && t.S == "Alias" && t.A[0] == node {
				where[name] = true
				if r.nodeLoc[name] == nil {
					r.nodeLoc[name] = map[string]bool{}
				}
				r.nodeLoc[name][k] = true
			}
			if isItems(t, k) {
				where[name] = true
			}
			return
		}
		if t == node {
			if r.nodeLoc[name] == nil {
				r.nodeLoc[name] = map[string]bool{}
			}
			r.nodeLoc[name][k] = true
		}
		if r.good(s, k, kind, t) {
			where[name] = true
		}
	})
	switch kind {
	case "map", "tasks", "includes":
		c1 := e.T.Fld(node, "Content", coll.T)
		c2 := e.T.Fld(e.T.Fld(node, "Alias", node.T), "Content", coll.T)
		if s.Get("exh:"+itoa(c1.id)) == "" && s.Get("exh:"+itoa(c2.id)) == "" {
			lost("its entries are not gone through")
			return
		}
		if !kindIs(4) {
			r.report(s, "kind of "+k, pos, "takes a value of %s that is not a mapping", k)
			return
		}
		e.Count("value read")
		return
	case "str":
		if !kindIs(8) && len(where) > 0 {
			r.report(s, "kind of "+k, pos, "takes a value of %s that is not a text", k)
			return
		}
	}
	switch k {
	case "mode":
		if !r.oneOf(s, r.value(k, coll)) {
			r.report(s, "mode not checked", pos, "takes a mode that is not a known one")
		}
	case "limit":
		ok := false
		for a, v := range s.facts {
			if a.K == KBin && a.S == "<" && isDec(strip(a.A[0]), k) && a.A[1].S == "0" && !v || a.K == KBin && a.S == "<" && a.A[0].S == "-1" && isDec(strip(a.A[1]), k) && v {
				ok = true
			}
		}
		if !ok {
			r.report(s, "limit not checked", pos, "takes a negative limit")
		}
	case "platforms":
		if s.Get("plat") != "1" {
			r.report(s, "platform not checked", pos, "takes platforms that were not all looked at")
		}
	}
	if len(where) == 0 {
		lost("it is not stored")
		return
	}
	r.holds = append(r.holds, holding{k, where, pos, nil})
	e.Count("value read")
}

func (r *reader) call(e *Engine, s *State, ev *CallEvent) {
	if r.child(e, s, ev) {
		return
	}
	switch verrMethod(r.p, ev.Fn) {
	case "Add":
		ev.Handled = true
		ev.Results = []Outcome{{Ret: e.T.Nil()}}
		if s.vals["verrs"] == nil && r.verrs == nil {
			s.vals["verrs"] = ev.Args[0]
		}
		if !r.isVerrs(s, ev.Args[0]) || e.Nilness(s, ev.Args[1]) == 1 {
			return
		}
		r.justified(e, s, ev)
		r.bad(s)
		return
	case "HasErrors":
		ev.Handled = true
		ev.Results = []Outcome{{Ret: e.T.Bool(s.Get("bad") != "")}}
		return
	case "OrNil":
		ev.Handled = true
		if s.Get("bad") != "" {
			ev.Results = []Outcome{{Ret: e.T.mk(KHavoc, "err!", "", ev.Fn.Signature.Results().At(0).Type(), false, nil)}}
		} else {
			ev.Results = []Outcome{{Ret: e.T.Nil()}}
		}
		return
	}
	if l := r.valids[ev.Fn]; l != nil && !ev.Inline {
		ev.Handled = true
		no := map[*Term]bool{}
		if v, ok := ev.Args[0].StrVal(); ok {
			for _, c := range l {
				if c == v {
					ev.Results = []Outcome{{Ret: e.T.Bool(true)}}
					return
				}
			}
			ev.Results = []Outcome{{Ret: e.T.Bool(false)}}
			return
		}
		for _, c := range l {
			a := e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, ev.Args[0], e.T.Str(c))
			no[a] = false
			ev.Results = append(ev.Results, Outcome{Ret: e.T.Bool(true), Facts: map[*Term]bool{a: true}})
		}
		ev.Results = append(ev.Results, Outcome{Ret: e.T.Bool(false), Facts: no, Do: func(s *State) { s.Set("inval", "1") }})
		return
	}
	switch ev.Name {
	case "(*gopkg.in/yaml.v3.Node).Decode":
		coll, k := r.keyOf(s, ev.Args[0])
		ptr := strip(ev.Args[1])
		if coll == nil || ptrElem(ptr.T) == nil {
			return
		}
		if al := ev.Args[0]; al.K == KFld {
			coll = e.T.Fld(al, "Content", coll.T)
		}
		v := e.T.mk(KCall, "value of "+k, "", ptrElem(ptr.T), true, nil, ev.Args[0])
		e.splitErr(s, ev, func(s *State) {
			e.store(s, ptr, v)
			s.Set("decerr", "")
		}, func(s *State) {
			e.store(s, ptr, e.T.mk(KHavoc, "half decoded", "", ptrElem(ptr.T), true, nil))
			s.Set("decerr", "1")
		})
	case "gopkg.in/yaml.v3.Unmarshal":
		ptr := strip(ev.Args[1])
		if ptrElem(ptr.T) == nil {
			return
		}
		e.splitErr(s, ev, func(s *State) {
			e.store(s, ptr, e.T.mk(KCall, "document", "", ptrElem(ptr.T), false, nil, ev.Args[0]))
		}, func(s *State) { s.Set("bad", "1") })
	}
}

// justified: an error recorded about a pair has a reason in the pair.
func (r *reader) justified(e *Engine, s *State, ev *CallEvent) {
	// the innermost pair
	var coll *Term
	for k, v := range s.auto {
		if strings.HasPrefix(k, "it:") && v != "" {
			c := e.T.all[atoi(k[3:])]
			if coll == nil || c.contains(coll) {
				coll = c
			}
		}
	}
	if coll == nil {
		return
	}
	i := s.vals["i:"+itoa(coll.id)]
	if i == nil {
		return
	}
	node := e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, e.T.Bin(token.ADD, i, e.T.Int(1), i.T))
	not := func(k int64) bool { v, ok := r.kindIs(s, node, k); return ok && !v }
	pk := r.parentKey(s, coll)
	k := s.Get("k:" + itoa(coll.id))
	ok := true
	what := k
	switch keyKind(pk) {
	case "map":
		ok, what = not(8), pk
	case "includes":
		ok, what = s.Get("decerr") != "", pk
	case "tasks":
		what = pk
		ok = false
		kn := e.T.Fld(e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, i), "Value", types.Typ[types.String])
		for a, v := range s.facts {
			if v && a.K == KMapOK && a.A[1] == kn {
				ok = true
			}
		}
	default:
		switch keyKind(k) {
		case "str":
			ok = not(8) || k == "mode" && s.Get("inval") != ""
		case "bool":
			ok = not(8) || s.Get("decerr") != ""
		case "int":
			ok = not(8) || s.Get("decerr") != ""
			for a, v := range s.facts {
				if k == "limit" && a.K == KBin && a.S == "<" && (isDec(strip(a.A[0]), k) && a.A[1].S == "0" && v || a.A[0].S == "-1" && isDec(strip(a.A[1]), k) && !v) {
					ok = true
				}
			}
		case "list":
			ok = not(2) || s.Get("decerr") != "" || k == "platforms" && s.Get("inval") != ""
		case "map", "tasks", "includes":
			ok = not(4)
		case "node", "items":
			ok = not(2)
		default:
			return
		}
	}
	if !ok {
		r.report(s, "good value of "+what+" rejected", ev.Pos, "can reject a value of %s that is of the right kind", what)
	}
}

func (r *reader) put(e *Engine, s *State, m, k, v *Term, pos token.Pos) {
	kt, ok := m.T.Underlying().(*types.Map)
	if !ok || s.Get("bad") != "" && r.kind != "file" {
		return
	}
	model := r.p.named(kt.Elem(), "internal/babfile", "Task") || r.p.named(kt.Elem(), "internal/babfile", "Include") || isStringT(kt.Elem())
	if !model {
		return
	}
	var coll *Term
	if k.K == KFld && k.S == "Value" {
		coll = r.keyNode(s, k.A[0])
	}
	pk := ""
	if coll != nil {
		pk = r.parentKey(s, coll)
	}
	kind := keyKind(pk)
	if kind != "map" && kind != "tasks" && kind != "includes" {
		r.report(s, "foreign entry", pos, "enters %s, which is no key of an entry", k)
		return
	}
	id := itoa(coll.id)
	if s.Get("bad") != "" {
		return
	}
	i := s.vals["i:"+id]
	node := e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, e.T.Bin(token.ADD, i, e.T.Int(1), i.T))
	isNode := func(x *Term) bool { return x == node || x.K == KFld && x.S == "Alias" && x.A[0] == node }
	v = strip(v)
	switch kind {
	case "map":
		if v.K != KFld || v.S != "Value" || !isNode(v.A[0]) {
			r.report(s, "other value for an entry of "+pk, pos, "enters %s as the value of an entry of %s", v, pk)
			return
		}
		if kv, ok := r.kindIs(s, v.A[0], 8); !ok || !kv {
			r.report(s, "kind of an entry of "+pk, pos, "takes an entry of %s that is not a text", pk)
			return
		}
	case "includes":
		if !isDec(v, "") || !isNode(v.A[0]) {
			r.report(s, "other include", pos, "enters %s as an include", v)
			return
		}
	case "tasks":
		st := structOf(v.T)
		if _, ptr := v.T.Underlying().(*types.Pointer); ptr {
			v = e.load(s, v, ptrElem(v.T))
		}
		st = structOf(v.T)
		for j := 0; st != nil && j < st.NumFields(); j++ {
			f := st.Field(j)
			if keyKind(strings.ToLower(f.Name())) == "" || readKeys["Task"][strings.ToLower(f.Name())] == "" {
				continue
			}
			x := e.T.Fld(v, f.Name(), f.Type())
			if x.K != KFld || x.S != f.Name() || x.A[0].K != KCall || x.A[0].S != "task of " || !isNode(x.A[0].A[0]) {
				r.report(s, "other task", pos, "enters a task whose %s is %s", f.Name(), x)
				return
			}
		}
		if !r.absent(s, k) {
			r.report(s, "task twice", pos, "enters a task without looking whether its name was given before")
			return
		}
	}
	if s.Get("put:"+id) == "1" {
		return
	}
	s.Set("put:"+id, "1")
	if r.mapKeys[m] == nil {
		r.mapKeys[m] = map[string]bool{}
	}
	r.mapKeys[m][pk] = true
	e.Count("pair entered")
}

// absent: the name is not among those entered in the rounds before.
func (r *reader) absent(s *State, name *Term) bool {
	for a, v := range s.facts {
		if v || a.K != KMapOK || a.A[1] != name {
			continue
		}
		found := false
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			switch t.K {
			case KMPut:
				if t.A[1] == name {
					found = true
				}
				walk(t.A[0])
			case KLoop:
				if li := r.e.Loops[t]; li != nil {
					for x := range li.Back {
						walk(x)
					}
					for x := range li.Entry {
						walk(x)
					}
					if len(li.Back) == 0 {
						found = true // first round
					}
				}
			}
		}
		walk(a.A[0])
		if found {
			return true
		}
	}
	// nothing was entered yet
	for k := range s.mem {
		if k.K == KAlloc && isMapT(k.T) && s.mem[k].K == KMNew {
			if mt, ok := k.T.Underlying().(*types.Map); ok && isStringT(mt.Key()) && !r.p.named(mt.Elem(), "internal/babfile", "Include") {
				return true
			}
		}
	}
	return false
}

// leaves: what a value may be, with the location it was kept in.
func (r *reader) leaves(t *Term, visit func(loc string, t *Term)) {
	seen := map[*Term]bool{}
	var walk func(loc string, t *Term)
	walk = func(loc string, t *Term) {
		t = strip(t)
		if t.K == KLoop {
			if seen[t] {
				return
			}
			seen[t] = true
			if li := r.e.Loops[t]; li != nil {
				for x := range li.Entry {
					walk(t.S, x)
				}
				for x := range li.Back {
					walk(t.S, x)
				}
			}
			return
		}
		visit(loc, t)
	}
	walk("", t)
}

func isZeroTerm(t *Term) bool {
	if t.IsNil() || t.K == KConst && (t.S == "zero" || t.S == "0" || t.S == `""` || t.S == "false") {
		return true
	}
	return false
}

// field checks what a field of the result is.
func (r *reader) field(s *State, typ, key, kind string, t *Term) {
	pos := r.fn.Pos()
	note := func(loc string) {
		r.seen[typ+" "+key] = true
		if r.outLoc[key] == nil {
			r.outLoc[key] = map[string]bool{}
		}
		r.outLoc[key][loc] = true
	}
	badv := func(x *Term) {
		r.report(s, key+" of "+typ, pos, "%s of a %s can be %s", key, typ, x)
	}
	r.leaves(t, func(loc string, x *Term) {
		switch {
		case isZeroTerm(x):
			if loc == "" && x.S == `""` && r.given(s, key) {
				badv(x)
			}
		case kind == "map" || kind == "tasks" || kind == "includes":
			if x.K != KAlloc || !isMapT(x.T) {
				badv(x)
				return
			}
			if r.outMap[key] == nil {
				r.outMap[key] = map[*Term]bool{}
			}
			r.outMap[key][x] = true
			r.seen[typ+" "+key] = true
		case kind == "items" || kind == "node":
			if isItems(x, key) || kind == "node" && x.K == KCall && strings.HasPrefix(x.S, "items of ") && r.holdsOnly(x.A[0], key) {
				note(loc)
				if x.A[0].K == KLoop {
					note(x.A[0].S)
				}
				return
			}
			badv(x)
		case r.good(s, key, kind, x):
			note(loc)
		default:
			if d, ok := x.StrVal(); ok && defaults[key] == d && (loc != "" || r.empty(s, key)) {
				return
			}
			badv(x)
		}
	})
}

func (r *reader) holdsOnly(node *Term, key string) bool {
	ks := r.nodeKeys(node)
	return len(ks) == 1 && ks[0] == key
}

// empty: the value kept for key is known to be empty, or, with want false, not.
func (r *reader) emptyFact(s *State, key string) (bool, bool) {
	cur := r.current(s)
	empty, known := false, false
	for a, v := range s.facts {
		if a.K != KBin || a.S != "==" || a.A[1].S != `""` || !cur[a.A[0]] || !r.maybe(a.A[0], key) {
			continue
		}
		if !v {
			return false, true
		}
		empty, known = true, true
	}
	if known {
		return empty, true
	}
	if !r.held(s, key) {
		return true, true
	}
	return false, false
}

// given: the text read for key is known not to be empty.
func (r *reader) given(s *State, key string) bool {
	cur := r.current(s)
	for a, v := range s.facts {
		if a.K != KBin || a.S != "==" || a.A[1].K != KConst || !cur[a.A[0]] && !r.good(s, key, "string", a.A[0]) || !r.maybe(a.A[0], key) {
			continue
		}
		if t, ok := a.A[1].StrVal(); ok && (t != "") == v && (v || t == "") {
			return true
		}
	}
	return false
}

// current: the values that are kept somewhere.
func (r *reader) current(s *State) map[*Term]bool {
	out := map[*Term]bool{}
	var add func(v *Term)
	add = func(v *Term) {
		if v == nil || out[v] {
			return
		}
		out[v] = true
		if v.K == KStruct || v.K == KIface {
			for _, a := range v.A {
				add(a)
			}
		}
	}
	for _, v := range s.mem {
		add(v)
	}
	for n, v := range s.vals {
		if strings.HasPrefix(n, "loc:") {
			add(v)
		}
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			add(v)
		}
	}
	return out
}

// held: something in the state may be the text of key.
func (r *reader) held(s *State, key string) bool {
	hit := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || hit || seen[t] {
			return
		}
		seen[t] = true
		if isText(t, key) {
			hit = true
			return
		}
		if t.K == KLoop {
			if li := r.e.Loops[t]; li != nil {
				for x := range li.Entry {
					walk(x)
				}
				for x := range li.Back {
					walk(x)
				}
			}
		}
		for _, a := range t.A {
			walk(a)
		}
	}
	for _, v := range s.mem {
		walk(v)
	}
	for n, v := range s.vals {
		if strings.HasPrefix(n, "loc:") {
			walk(v)
		}
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			walk(v)
		}
	}
	return hit
}

// maybe: t may be the text of key.
func (r *reader) maybe(t *Term, key string) bool {
	hit := false
	r.leaves(t, func(_ string, x *Term) {
		if isText(x, key) {
			hit = true
		}
	})
	return hit
}

func (r *reader) empty(s *State, key string) bool { v, ok := r.emptyFact(s, key); return ok && v }

// later: the values loop variables can have are only known in the end.
func (r *reader) later(f func()) { r.post = append(r.post, f) }

// boolOf: what a flag is whatever rounds its loops make.
func (r *reader) boolOf(s *State, t *Term) (v, ok bool) {
	if v, ok = r.e.Decide(s, t); ok {
		return
	}
	neg := false
	for t.K == KUn && t.S == "!" {
		neg, t = !neg, t.A[0]
	}
	n := 0
	ok = true
	r.leaves(t, func(_ string, x *Term) {
		b, is := x.BoolVal()
		if !is || n > 0 && b != v {
			ok = false
		}
		v = b
		n++
	})
	return v != neg, ok && n > 0
}

func (r *reader) exit(e *Engine, s *State, ret []*Term) {
	r.later(func() { r.result(e, s, ret) })
}

// feasible: no flag has a value on this path that no round gives it.
func (r *reader) feasible(s *State) bool {
	for a, v := range s.facts {
		if a.K != KLoop || a.T == nil || !isBoolT(a.T) {
			continue
		}
		can := false
		r.leaves(a, func(_ string, x *Term) {
			if b, is := x.BoolVal(); !is || b == v {
				can = true
			}
		})
		if !can {
			return false
		}
	}
	return true
}

func (r *reader) result(e *Engine, s *State, ret []*Term) {
	pos := r.fn.Pos()
	if !r.feasible(s) {
		return
	}
	res := strip(ret[0])
	if r.handedOn() && s.Get("seen") == "" {
		return // it has no block
	}
	okRet := func() bool {
		for _, t := range ret[1:] {
			switch {
			case t.T != nil && isBoolT(t.T):
				if v, ok := r.boolOf(s, t); !ok || !v {
					r.report(s, "rejected without an error", pos, "can reject what it read without recording an error")
					return false
				}
			case t.IsNil():
			default:
				return false
			}
		}
		return true
	}
	if r.kind == "file" {
		if len(ret) == 2 && e.Nilness(s, ret[1]) != 1 {
			if e.Nilness(s, ret[1]) == -1 {
				return
			}
			r.report(s, "unclear result", pos, "can return a result that is neither an error nor none")
			return
		}
		if s.Get("bad") != "" {
			r.report(s, "errors forgotten", pos, "can return no error although one was recorded")
			return
		}
	} else if !okRet() {
		return
	}
	name := ""
	val := res
	if res.T != nil && !res.IsConst() && ptrElem(res.T) != nil {
		val = e.load(s, res, ptrElem(res.T))
	}
	if res.K == KCall && strings.HasPrefix(res.S, "item of ") && r.kind == "item" {
		// handed on to another reader
		r.deleg = true
		k := ""
		for a, v := range s.auto {
			if strings.HasPrefix(a, "k:") && r.isNodeContent(e.T.all[atoi(a[2:])]) {
				k = v
			}
		}
		if res.A[0] != r.node || k != "parallel" {
			r.report(s, "handed on", pos, "hands another item (%s) to another reader, or one that is no parallel block", res)
		}
		return
	}
	if n, ok := val.T.(*types.Named); ok {
		name = n.Obj().Name()
	}
	if val.K == KConst || readKeys[name] == nil {
		r.report(s, "dropped without an error", pos, "can return %s without recording an error", val)
		return
	}
	// every pair was looked at
	all := false
	for k, v := range s.auto {
		if strings.HasPrefix(k, "exh:") && v != "" {
			c := e.T.all[atoi(k[4:])]
			if r.isNodeContent(c) {
				all = true
				if kv, ok := r.kindIs(s, c.A[0], 4); !r.handedOn() && (!ok || !kv) {
					r.report(s, "kind of "+r.kind, pos, "takes a %s that is not a mapping", r.kind)
				}
			}
		}
	}
	if !all {
		r.report(s, "pairs passed over", pos, "can return before it has gone through all pairs")
		return
	}
	r.types[name] = true
	st := structOf(val.T)
	var keys []string
	for k := range readKeys[name] {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := fieldOfKey(st, k)
		if f == nil {
			e.Undecided("no field for key %s in %s", k, name)
			continue
		}
		r.field(s, name, k, readKeys[name][k], e.T.Fld(val, f.Name(), f.Type()))
	}
	e.Count("fields of " + name)
	r.final = append(r.final, func() { r.content(s, name, val, st) })
}

// content checks what the values of a result must be like.
func (r *reader) content(s *State, name string, val *Term, st *types.Struct) {
	e, pos := r.e, r.fn.Pos()
	own := map[string]string{"CommandRun": "cmd", "TaskRun": "task", "LogRun": "log", "PromptRun": "prompt"}[name]
	if own != "" {
		for _, k := range []string{"cmd", "task", "log", "prompt"} {
			v, ok := r.emptyFact(s, k)
			if k == own && (!ok || v) {
				r.report(s, "item without "+k, pos, "can take an item without %s as a %s", k, name)
			}
			if k != own && (!ok || !v) {
				r.report(s, "item with two kinds", pos, "can take an item with both %s and %s", own, k)
			}
		}
	}
	switch name {
	case "LogRun":
		lv := e.T.Fld(val, fieldOfKey(st, "level").Name(), fieldOfKey(st, "level").Type())
		if _, c := lv.StrVal(); !c && !r.oneOf(s, lv) {
			r.report(s, "level not checked", pos, "takes a log level that is not a known one")
		}
	case "PromptRun":
		r.prompt(s, val, st)
	case "ParallelRun":
		items := e.T.Fld(val, fieldOfKey(st, "parallel").Name(), fieldOfKey(st, "parallel").Type())
		if s.Get("exh:"+itoa(items.id)) == "" {
			r.report(s, "items not checked", pos, "does not look at every item of a parallel block")
		}
		if items.K == KCall {
			n := e.T.Len(e.T.Fld(items.A[0], "Content", nil))
			if v, ok := e.Decide(s, e.T.Bin(token.EQL, n, e.T.Int(0), types.Typ[types.Bool])); !ok || v {
				r.report(s, "empty block", pos, "takes a parallel block without items")
			}
		}
		mode := e.T.Fld(val, fieldOfKey(st, "mode").Name(), fieldOfKey(st, "mode").Type())
		if v, ok := e.Decide(s, e.T.Bin(token.EQL, mode, e.T.Str(""), types.Typ[types.Bool])); !ok || v {
			r.report(s, "mode not set", pos, "leaves the mode of a block without mode empty")
		}
		if f := fieldOfKey(st, "labels"); f != nil {
			lt := e.T.Fld(val, f.Name(), f.Type())
			base := lt
			for base.K == KSub || base.K == KSlice {
				base = base.A[0]
			}
			lb := r.labels
			for lb != nil && (lb.K == KSub || lb.K == KSlice) {
				lb = lb.A[0]
			}
			if r.labels != nil && base != lb && lt != r.labels {
				r.report(s, "other labels", pos, "returns labels it did not read")
			}
		}
	}
}

// handedOn: the reader only gets blocks another reader found to be one.
func (r *reader) handedOn() bool { return r.kind == "item" && !r.entries[r.fn] }

// isNodeContent: coll is the content of the node that is read.
func (r *reader) isNodeContent(coll *Term) bool {
	if !r.isContent(coll) || coll.K != KFld || coll.S != "Content" {
		return false
	}
	if r.kind == "file" {
		// the root of the document
		x := coll.A[0]
		return x.K == KElem && x.A[0].K == KFld && x.A[0].S == "Content" && x.A[0].A[0].any(func(y *Term) bool { return y.K == KCall && y.S == "document" }) && x.A[1].S == "0"
	}
	return coll.A[0] == r.node
}

// prompt: what a prompt must state.
func (r *reader) prompt(s *State, val *Term, st *types.Struct) {
	e := r.e
	pos := r.fn.Pos()
	f := func(k string) *Term { v := fieldOfKey(st, k); return e.T.Fld(val, v.Name(), v.Type()) }
	if !r.oneOf(s, f("type")) {
		r.report(s, "prompt type not checked", pos, "takes a prompt type that is not a known one")
	}
	if v, ok := e.Decide(s, e.T.Bin(token.EQL, f("message"), e.T.Str(""), types.Typ[types.Bool])); !ok || v {
		r.report(s, "prompt without message", pos, "takes a prompt without a message")
	}
	named := false
	for a, v := range s.facts {
		if v && a.K == KCall && strings.HasPrefix(a.S, "(*regexp.Regexp).Match") && len(a.A) == 2 && a.A[1] == f("prompt") {
			named = true
		}
	}
	if !named {
		r.report(s, "prompt name not checked", pos, "takes a prompt whose name is not a variable name")
	}
	typ := func(t string) bool {
		v, ok := e.Decide(s, e.T.Bin(token.EQL, f("type"), e.T.Str(t), types.Typ[types.Bool]))
		return ok && v
	}
	if typ("select") || typ("multiselect") {
		if v, ok := e.Decide(s, e.T.Bin(token.EQL, e.T.Len(f("options")), e.T.Int(0), types.Typ[types.Bool])); !ok || v {
			r.report(s, "prompt without options", pos, "takes a select or multiselect prompt without options")
		}
	}
	mn, mx := f("min"), f("max")
	if e.Nilness(s, mn) != 1 && e.Nilness(s, mx) != 1 {
		ok := false
		for k, v := range s.auto {
			switch {
			case strings.HasPrefix(k, "nz:") && v == "t":
				x := e.T.all[atoi(k[3:])]
				if r.bound(s, x, "min") || r.bound(s, x, "max") {
					ok = true
				}
			case strings.HasPrefix(k, "lt:"):
				i := strings.IndexByte(k, '.')
				x, y := e.T.all[atoi(k[3:i])], e.T.all[atoi(k[i+1:])]
				if r.bound(s, x, "min") && r.bound(s, y, "max") && v == "t" || r.bound(s, x, "max") && r.bound(s, y, "min") && v == "f" {
					ok = true
				}
			}
		}
		if !ok {
			r.report(s, "min and max not checked", pos, "takes a prompt whose min is greater than its max")
		}
	}
}

// bound: t is the number given as min or max.
func (r *reader) bound(s *State, t *Term, key string) bool {
	hit := false
	if t.K == KDeref {
		t = t.A[0]
	}
	r.leaves(t, func(_ string, x *Term) {
		if r.good(s, key, "int", x) {
			hit = true
		}
	})
	return hit
}

// finish: obligations about all paths of a reader.
func (r *reader) finish() {
	e := r.e
	pos := r.fn.Pos()
	if len(r.types) == 0 && !r.deleg {
		return
	}
	e.Count("reader of mapping")
	want := map[string]bool{}
	for t := range r.types {
		for k := range readKeys[t] {
			want[k] = true
		}
	}
	if r.deleg {
		want["parallel"] = true
	}
	got := map[string]bool{}
	for _, m := range r.matched {
		for k := range m {
			got[k] = true
		}
	}
	for k := range want {
		if !got[k] {
			r.report(nil, k+" never read", pos, "the key %s is not read", k)
		}
	}
	for t := range r.types {
		for k := range readKeys[t] {
			if !r.seen[t+" "+k] {
				r.report(nil, k+" of "+t, pos, "%s of a %s is not read from the Babfile", k, t)
			}
		}
	}
	for _, u := range r.unm {
		for _, k := range u.keys {
			if want[k] && r.matched[u.hdr][k] {
				r.report(u.st, k+" lost", u.pos, "can pass over the key %s", k)
			}
		}
	}
	for _, h := range r.holds {
		if !want[h.key] {
			continue
		}
		ok := false
		for w := range h.where {
			if r.outLoc[h.key][w] {
				ok = true
			}
		}
		if !ok {
			r.report(h.st, h.key+" lost", h.pos, "can read %s to a place that is not returned", h.key)
		}
	}
	for m, ks := range r.mapKeys {
		for k := range ks {
			if !r.outMap[k][m] {
				r.report(nil, k+" lost", pos, "enters %s in a map that is not returned", k)
			}
			for k2, ms := range r.outMap {
				if k2 != k && ms[m] {
					r.report(nil, k+" in "+k2, pos, "enters %s in the map of %s", k, k2)
				}
			}
		}
	}
}

// items: the list of run items.
func (r *reader) items() {
	p := r.p
	cl := r.client()
	e := NewEngine(p, cl)
	r.e = e
	q := &seqFill{good: map[*Term]bool{}, what: "run item", at: r.at, fn: r.fn}
	q.accep = func(e *Engine, s *State, v *Term) string {
		x := strip(v)
		if x.K != KCall || x.S != "item of " || x.A[0] != s.vals["el"] {
			return "other run item"
		}
		e.Count("item entered")
		return ""
	}
	s := e.NewState(r.fn, nil)
	for _, prm := range r.fn.Params {
		t := s.top().env[prm]
		if isYAMLNode(prm.Type()) {
			r.node = t
		}
		if isVerrs(p, prm.Type()) {
			r.verrs = t
		}
	}
	st := structOf(ptrElem(r.node.T))
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Content" {
			q.src = e.T.Fld(r.node, "Content", st.Field(i).Type())
		}
	}
	q.elemT = r.fn.Signature.Results().At(0).Type()
	q.hooks(cl)
	cl.KeepFact = func(e *Engine, a *Term) bool { return true }
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		r.call(e, s, ev)
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if len(ret) > 1 {
			r.later(func() {
				if v, ok := r.boolOf(s, ret[1]); ret[1].T != nil && isBoolT(ret[1].T) && (!ok || !v) {
					r.report(s, "rejected without an error", r.fn.Pos(), "can reject what it read without recording an error")
				}
			})
		}
		if v, ok := r.kindIs(s, r.node, 2); !ok || !v {
			r.report(s, "kind of list", r.fn.Pos(), "takes a list of items that is not a sequence")
			return
		}
		if q.result(e, s, ret[0]) {
			e.Count("reader of items")
		}
	}
	e.Run(s)
	for _, f := range r.post {
		f()
	}
	r.c.Absorb(e)
}

func isIntPtr(t types.Type) bool {
	pe := ptrElem(t)
	return pe != nil && isIntT(pe)
}
