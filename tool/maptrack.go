package main

// Layering of string maps: which maps a map was filled from, in which order,
// and whether entries can be lost on the way. Works on events (range, store,
// copy) so that it does not depend on how the loops are written.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mapLayer struct {
	t      *Term
	interp int
}

type mapTrack struct {
	p *Prog
	// summarised functions, by kind
	kind map[*ssa.Function]string
	what string
	// dropped is called when an entry of src may not reach its destination
	dropped func(e *Engine, s *State, src *Term, pos tokenPos)
	// odd is called for a store that copies no current entry
	odd func(e *Engine, s *State, m, k, v *Term, pos tokenPos)
}

func strMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	return isStringT(m.Key()) && isStringT(m.Elem())
}

// mapHelper classifies a repository function that only moves string maps.
func (p *Prog) mapHelper(fn *ssa.Function) string {
	if fn == nil || fn.Blocks == nil || !p.InRepo(fn) || fn.Parent() != nil {
		return ""
	}
	sg := fn.Signature
	maps, ctx := 0, false
	for i := 0; i < sg.Params().Len(); i++ {
		t := sg.Params().At(i).Type()
		switch {
		case strMap(t):
			maps++
		case sg.Variadic() && i == sg.Params().Len()-1 && strMap(t.(*types.Slice).Elem()):
			maps++
		case p.named(t, "internal/interpolate", "Context"):
			ctx = true
		default:
			return ""
		}
	}
	if maps == 0 {
		return ""
	}
	switch rs := sg.Results(); {
	case rs.Len() == 1 && strMap(rs.At(0).Type()) && !ctx:
		return "merge"
	case rs.Len() == 1 && rs.At(0).Type().String() == "[]string" && !ctx:
		return "list"
	case rs.Len() == 2 && strMap(rs.At(0).Type()) && isErrT(rs.At(1).Type()) && ctx:
		return "interp"
	}
	return ""
}

// keysOfMap: coll is the list of keys of a map.
func keysOfMap(coll *Term) *Term {
	for i := 0; i < 4; i++ {
		switch {
		case coll.K == KCall && (coll.S == "slices.Sorted" || coll.S == "slices.Collect" || coll.S == "slices.SortedFunc" || coll.S == "slices.SortedStableFunc") && len(coll.A) > 0:
			coll = coll.A[0]
		case coll.K == KCall && coll.S == "maps.Keys" && len(coll.A) == 1:
			return coll.A[0]
		default:
			return nil
		}
	}
	return nil
}

// rangeOf: the map and the key an iteration is about.
func (e *Engine) rangeOf(coll, key *Term) (src, k *Term) {
	if isMapT(coll.T) {
		if !strMap(coll.T) {
			return nil, nil
		}
		return coll, key
	}
	if m := keysOfMap(coll); m != nil && strMap(m.T) {
		return m, e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
	}
	return nil, nil
}

func (mt *mapTrack) onCall(e *Engine, s *State, ev *CallEvent) bool {
	switch ev.Name {
	case "maps.Copy":
		mt.addLayer(s, ev.Args[0], ev.Args[1], 0)
		ev.Handled = true
		ev.Results = []Outcome{{Ret: e.T.Nil()}}
		return true
	}
	if ev.Name == "maps.Clone" && ev.Instr != nil && len(ev.Args) == 1 && ev.Args[0].T != nil && strMap(ev.Args[0].T) {
		a := e.T.mk(KAlloc, "map", s.top().ctx+"@"+iid(ev.Instr), ev.Args[0].T, false, nil)
		s.mem[a] = e.T.mk(KHavoc, "clone", s.top().ctx+"@"+iid(ev.Instr), ev.Args[0].T, false, nil)
		s.Set("ly:"+itoa(a.id), "")
		s.Set("stale:"+itoa(a.id), "")
		mt.addLayer(s, a, ev.Args[0], 0)
		ev.Handled = true
		ev.Results = []Outcome{{Ret: a}}
		return true
	}
	k := mt.kind[ev.Fn]
	if k == "" || ev.Fn == nil {
		return false
	}
	var args []*Term
	n := len(ev.Args)
	for i, a := range ev.Args {
		if i == n-1 && ev.Fn.Signature.Variadic() {
			if l, ok := e.flatSeq(s, a); ok {
				for _, x := range l {
					args = append(args, strip(x))
				}
				continue
			}
		}
		args = append(args, a)
	}
	var ms []*Term
	for _, a := range args {
		if a.T != nil && (strMap(a.T) || !mt.p.named(a.T, "internal/interpolate", "Context") && !isRecvOf(ev.Fn, a)) || a.IsNil() {
			ms = append(ms, a)
		}
	}
	rt := ev.Fn.Signature.Results()
	switch k {
	case "merge", "list":
		ev.Handled = true
		ev.Results = []Outcome{{Ret: e.T.mk(KCall, "env"+k, "", rt.At(0).Type(), false, ev.Fn, ms...)}}
	case "interp":
		ev.Handled = true
		m := e.T.mk(KCall, "envinterp", "", rt.At(0).Type(), false, ev.Fn, args...)
		bad := e.T.mk(KHavoc, "err!", "", rt.At(1).Type(), false, nil)
		ev.Results = []Outcome{
			{Ret: e.T.mk(KTuple, "", "", rt, false, nil, m, e.T.Nil())},
			{Ret: e.T.mk(KTuple, "", "", rt, false, nil, e.T.Nil(), bad)}}
	}
	return true
}

func isRecvOf(fn *ssa.Function, a *Term) bool {
	r := fn.Signature.Recv()
	return r != nil && a.T != nil && types.Identical(r.Type(), a.T)
}

func (mt *mapTrack) addLayer(s *State, m, src *Term, interp int) {
	k := "ly:" + itoa(m.id)
	v := itoa(src.id) + "." + itoa(interp)
	old := s.Get(k)
	if old == "" {
		s.Set(k, v)
	} else if !strings.HasSuffix(","+old, ","+v) {
		s.Set(k, old+","+v)
	}
}

func (mt *mapTrack) onIter(e *Engine, s *State, coll, key *Term, pos tokenPos) {
	src, k := e.rangeOf(coll, key)
	if src == nil {
		return
	}
	id := itoa(src.id)
	mt.settle(e, s, src, pos)
	s.Set("it:"+id, "1")
	s.Set("zero:"+id, "")
	s.vals["itk:"+id] = k
}

// settle: the previous entry of src must have been copied.
func (mt *mapTrack) settle(e *Engine, s *State, src *Term, pos tokenPos) {
	id := itoa(src.id)
	if s.Get("it:"+id) == "1" && mt.dropped != nil && s.Get("into:"+id) != "" {
		mt.dropped(e, s, src, pos)
	}
	if s.Get("it:"+id) == "1" {
		s.Set("miss:"+id, "1")
	}
	s.Set("it:"+id, "")
}

func (mt *mapTrack) onExh(e *Engine, s *State, coll *Term, pos tokenPos) {
	src := coll
	if !isMapT(coll.T) {
		if src = keysOfMap(coll); src == nil {
			return
		}
	}
	if !strMap(src.T) {
		return
	}
	id := itoa(src.id)
	mt.settle(e, s, src, pos)
	if s.Get("seen:"+id) == "" {
		s.Set("zero:"+id, "1")
	}
	delete(s.vals, "itk:"+id)
	s.Set("into:"+id, "")
	s.Set("seen:"+id, "")
	s.Set("miss:"+id, "")
}

// current: the map whose current entry has key k.
func (mt *mapTrack) current(e *Engine, s *State, k *Term) *Term {
	for key, v := range s.vals {
		if strings.HasPrefix(key, "itk:") && v == k {
			n, _ := strconv.Atoi(key[4:])
			return e.T.all[n]
		}
	}
	return nil
}

func (mt *mapTrack) onPut(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
	if m.T == nil || !strMap(m.T) {
		return
	}
	src := mt.current(e, s, k)
	if src != nil && v != nil {
		n := 0
		x := v
		for a := e.template(x); a != nil; a = e.template(x) {
			x = a
			n++
		}
		if x.K == KMapVal && x.A[1] == k && (x.A[0] == src || k.K == KRangeKey && x.A[0] == k.A[0]) {
			id := itoa(src.id)
			if s.Get("miss:"+id) != "" && mt.dropped != nil {
				mt.dropped(e, s, src, pos)
			}
			s.Set("it:"+id, "")
			s.Set("seen:"+id, "1")
			s.Set("into:"+id, itoa(m.id))
			mt.addLayer(s, m, src, n)
			return
		}
	}
	if mt.odd != nil {
		mt.odd(e, s, m, k, v, pos)
	}
}

// envElem: x is key=value of the current entry of a map.
func (mt *mapTrack) envElem(e *Engine, x *Term) (src, k *Term, ok bool) {
	x = strip(x)
	var kt, vt *Term
	switch {
	case x.K == KBin && x.S == "+" && len(x.A) == 2 && x.A[0].K == KBin && x.A[0].S == "+" && x.A[0].A[1].S == `"="`:
		kt, vt = x.A[0].A[0], x.A[1]
	case x.K == KCall && x.S == "fmt.Sprintf" && len(x.A) == 3 && (x.A[0].S == `"%s=%s"` || x.A[0].S == `"%v=%v"`):
		kt, vt = strip(x.A[1]), strip(x.A[2])
	case x.K == KCall && x.S == "strings.Join":
		return nil, nil, false
	default:
		return nil, nil, false
	}
	if vt.K == KMapVal && vt.A[1] == kt {
		return vt.A[0], kt, true
	}
	return nil, nil, false
}

func (mt *mapTrack) onAppend(e *Engine, s *State, elems []*Term, pos tokenPos) {
	for _, x := range elems {
		if src, k, ok := mt.envElem(e, x); ok && s.vals["itk:"+itoa(src.id)] == k {
			id := itoa(src.id)
			if s.Get("miss:"+id) != "" && mt.dropped != nil {
				mt.dropped(e, s, src, pos)
			}
			s.Set("it:"+id, "")
			s.Set("seen:"+id, "1")
			s.Set("into:"+id, "list")
		}
	}
}

// layers lists the maps t was filled from, lowest priority first. seqs of
// maps (variadic parameters) stay one leaf.
func (mt *mapTrack) layers(e *Engine, s *State, t *Term) []mapLayer {
	t = strip(t)
	var out []mapLayer
	add := func(ls []mapLayer, n int) {
		for _, l := range ls {
			l.interp += n
			out = append(out, l)
		}
	}
	ly := s.Get("ly:" + itoa(t.id))
	switch {
	case t.IsNil():
	case t.K == KCall && (t.S == "envmerge" || t.S == "envlist"):
		for _, a := range t.A {
			add(mt.layers(e, s, a), 0)
		}
	case t.K == KCall && t.S == "envinterp":
		for _, a := range t.A {
			if a.T != nil && strMap(a.T) || a.IsNil() {
				add(mt.layers(e, s, a), 1)
			}
		}
	case t.K == KCall && t.S == "maps.Clone" && len(t.A) == 1:
		add(mt.layers(e, s, t.A[0]), 0)
	case t.K == KAlloc || t.K == KMNew:
	default:
		if ly == "" || t.K != KLoop {
			out = append(out, mapLayer{t, 0})
		}
	}
	if ly != "" {
		for _, f := range strings.Split(ly, ",") {
			a, b, _ := strings.Cut(f, ".")
			n, _ := strconv.Atoi(a)
			i, _ := strconv.Atoi(b)
			add(mt.layers(e, s, e.T.all[n]), i)
		}
	}
	return out
}

var mapKeys = []string{"ly:", "zero:", "emp:", "seen:", "miss:", "it:", "into:"}

func mapAuto(k string) (int, bool) {
	for _, p := range mapKeys {
		if strings.HasPrefix(k, p) {
			n, err := strconv.Atoi(k[len(p):])
			return n, err == nil
		}
	}
	return 0, false
}

// gcAutos forgets what was learnt about maps that no longer exist.
func (mt *mapTrack) gcAutos(e *Engine, s *State, live func(t *Term) bool) {
	keep := map[int]bool{}
	var mark func(n int)
	mark = func(n int) {
		if keep[n] {
			return
		}
		keep[n] = true
		if ly := s.Get("ly:" + itoa(n)); ly != "" {
			for _, f := range strings.Split(ly, ",") {
				a, _, _ := strings.Cut(f, ".")
				x, _ := strconv.Atoi(a)
				mark(x)
			}
		}
	}
	for k := range s.auto {
		if n, ok := mapAuto(k); ok {
			t := e.T.all[n]
			isLive := true
			t.any(func(x *Term) bool {
				if x.K == KAlloc && !live(x) {
					isLive = false
				}
				return !isLive
			})
			if isLive {
				mark(n)
			}
		}
	}
	for k := range s.auto {
		if n, ok := mapAuto(k); ok && !keep[n] {
			s.Set(k, "")
		}
	}
}

// forget drops what was learnt about the maps of an item when the next begins.
func (mt *mapTrack) forget(e *Engine, s *State, coll *Term) {
	for k := range s.auto {
		if n, ok := mapAuto(k); ok && e.T.all[n].any(func(x *Term) bool { return x.K == KElem && x.A[0] == coll }) {
			s.Set(k, "")
		}
	}
}

// knownEmpty: the map has no entries on this path.
func (mt *mapTrack) knownEmpty(e *Engine, s *State, t *Term) bool {
	if s.Get("zero:"+itoa(t.id)) != "" {
		return true
	}
	for _, z := range []*Term{t} {
		if v, ok := e.Decide(s, e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, z, e.T.Nil())); ok && v {
			return true
		}
	}
	empty := func(a *Term, v bool) bool {
		if !v || a.K != KBin || a.S != "==" {
			return false
		}
		x := a.A[0]
		if x.K == KLen && a.A[1].S == "0" {
			x = x.A[0]
		} else if !a.A[1].IsNil() {
			return false
		}
		for _, l := range mt.layers(e, s, x) {
			if l.t == t {
				return true
			}
		}
		return false
	}
	for a, v := range s.facts {
		if empty(a, v) {
			return true
		}
	}
	for k, v := range s.auto {
		if (strings.HasPrefix(k, "emp:") || strings.HasPrefix(k, "zero:")) && v != "" {
			_, id, _ := strings.Cut(k, ":")
			n, _ := strconv.Atoi(id)
			for _, l := range mt.layers(e, s, e.T.all[n]) {
				if l.t == t {
					return true
				}
			}
		}
	}
	return false
}

// onBranch remembers which maps were found empty.
func (mt *mapTrack) onBranch(e *Engine, s *State, a *Term, v bool) {
	if a.K != KBin || a.S != "==" {
		return
	}
	x := a.A[0]
	if x.K == KLen && a.A[1].S == "0" {
		x = x.A[0]
	} else if !a.A[1].IsNil() {
		return
	}
	if x.T != nil && strMap(x.T) {
		s.Set("emp:"+itoa(x.id), map[bool]string{true: "1", false: ""}[v])
		if v {
			for _, l := range mt.layers(e, s, x) {
				s.Set("emp:"+itoa(l.t.id), "1")
			}
		}
	}
}

// envSeq flattens a list of environment entries, in order.
type envEntry struct {
	kind string // "environ", "const", "map", "?"
	t    *Term
	n    int
}

func (mt *mapTrack) envSeq(e *Engine, s *State, t *Term, loop *Term, d int) [][]envEntry {
	t = strip(t)
	unknown := [][]envEntry{{{kind: "?", t: t}}}
	if d > 40 {
		return unknown
	}
	elem := func(x *Term) [][]envEntry {
		x = strip(x)
		if src, _, ok := mt.envElem(e, x); ok {
			var r []envEntry
			for _, l := range mt.layers(e, s, src) {
				r = append(r, envEntry{"map", l.t, l.interp})
			}
			return [][]envEntry{r}
		}
		if x.K == KConst {
			return [][]envEntry{{{kind: "const", t: x}}}
		}
		return [][]envEntry{{{kind: "?", t: x}}}
	}
	cat := func(a, b [][]envEntry) [][]envEntry {
		var r [][]envEntry
		for _, x := range a {
			for _, y := range b {
				z := append(append([]envEntry(nil), x...), y...)
				dup := false
				for _, o := range r {
					dup = dup || sameSeq(o, z)
				}
				if !dup {
					r = append(r, z)
				}
			}
		}
		if len(r) > 64 {
			return unknown
		}
		return r
	}
	one := [][]envEntry{nil}
	switch {
	case t == loop || t.IsNil():
		return one
	case t.K == KAppend && t.S == "1":
		return cat(mt.envSeq(e, s, t.A[0], loop, d+1), elem(t.A[1]))
	case t.K == KAppend:
		return cat(mt.envSeq(e, s, t.A[0], loop, d+1), mt.envSeq(e, s, t.A[1], loop, d+1))
	case t.K == KCall && (t.S == "os.Environ" || t.S == "(*os/exec.Cmd).Environ"):
		return [][]envEntry{{{kind: "environ", t: t}}}
	case t.K == KCall && t.S == "envlist":
		var r []envEntry
		for _, l := range mt.layers(e, s, t) {
			r = append(r, envEntry{"map", l.t, l.interp})
		}
		return [][]envEntry{r}
	case t.K == KCall && (t.S == "slices.Clone" || t.S == "slices.Clip" || t.S == "slices.Grow"):
		return mt.envSeq(e, s, t.A[0], loop, d+1)
	case t.K == KCall && t.S == "slices.Concat":
		r := one
		for _, a := range t.A {
			if l, ok := e.flatSeq(s, a); ok && a.K == KSlice && a.T != nil && strings.HasPrefix(a.T.String(), "[][]") {
				for _, x := range l {
					r = cat(r, mt.envSeq(e, s, x, loop, d+1))
				}
			} else {
				r = cat(r, mt.envSeq(e, s, a, loop, d+1))
			}
		}
		return r
	case t.K == KSub:
		return mt.envSeq(e, s, t.A[0], loop, d+1)
	case t.K == KSlice:
		r := one
		if l, ok := e.flatSeq(s, t); ok {
			for _, x := range l {
				r = cat(r, elem(x))
			}
		}
		return r
	case t.K == KLoop:
		li := e.Loops[t]
		if li == nil {
			break
		}
		var r [][]envEntry
		for _, x := range sortedTerms(li.Entry) {
			for _, q := range mt.envSeq(e, s, x, loop, d+1) {
				dup := false
				for _, o := range r {
					dup = dup || sameSeq(o, q)
				}
				if !dup {
					r = append(r, q)
				}
			}
		}
		var tail []envEntry
		for _, x := range sortedTerms(li.Back) {
			for _, q := range mt.envSeq(e, s, x, t, d+1) {
				for _, y := range q {
					dup := false
					for _, z := range tail {
						dup = dup || z == y
					}
					if !dup {
						tail = append(tail, y)
					}
				}
			}
		}
		return cat(r, [][]envEntry{tail})
	}
	return unknown
}

func sameSeq(a, b []envEntry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// helperContracts verifies every summarised map helper on its own.
func (mt *mapTrack) helperContracts(c *Ctx, name string) {
	p := mt.p
	for _, fn := range p.Funcs {
		kind := mt.kind[fn]
		if kind == "" {
			continue
		}
		fn := fn
		sub := &mapTrack{p: p, kind: map[*ssa.Function]string{}}
		for f, k := range mt.kind {
			if f != fn {
				sub.kind[f] = k
			}
		}
		cl := &Client{Name: name, CollapseErr: true, Inline: func(g *ssa.Function) bool {
			return p.InRepo(g) && p.Rel(g) != "internal/interpolate" && g != fn
		}}
		e := NewEngine(p, cl)
		at := p.FnName(fn)
		sub.dropped = func(e *Engine, s *State, src *Term, pos tokenPos) {
			e.Report(s, "entry lost in "+at, fn.Pos(), "%s can leave out an entry of %s", at, src)
		}
		sub.odd = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) {
			e.Report(s, "foreign entry in "+at, fn.Pos(), "%s stores %s under %s, which is not the entry being copied", at, termOr(v, "nothing (delete)"), k)
		}
		var params []*Term
		var ctxPrm *Term
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if sub.onCall(e, s, ev) {
				return
			}
			if ev.Name == interpFn {
				if kind == "interp" && ctxPrm != nil && strip(ev.Args[1]) != ctxPrm {
					e.Report(s, "foreign variables in "+at, ev.Pos, "%s interpolates over %s, not over the context it is given", at, ev.Args[1])
				}
				e.splitErr(s, ev, nil, nil)
			}
		}
		variadic := func(coll *Term) bool {
			for _, q := range params {
				if q == coll {
					return true
				}
			}
			return false
		}
		cl.OnIter = func(e *Engine, s *State, coll, key, elem *Term) {
			if variadic(coll) && !isMapT(coll.T) {
				if s.Get("outer") == "1" {
					s.Set("skipped", "1")
				}
				x := e.T.mk(KElem, "", "", elemType(coll.T), false, nil, coll, key)
				s.vals["outer"] = x
				s.Set("outer", "1")
				return
			}
			sub.onIter(e, s, coll, key, fn.Pos())
		}
		cl.OnExh = func(e *Engine, s *State, coll *Term) {
			if variadic(coll) && !isMapT(coll.T) {
				if s.Get("outer") == "1" {
					s.Set("skipped", "1")
				}
				s.Set("outer", "")
				delete(s.vals, "outer")
				s.Set("all", "1")
				return
			}
			sub.onExh(e, s, coll, fn.Pos())
			if coll == s.vals["outer"] || keysOfMap(coll) != nil && keysOfMap(coll) == s.vals["outer"] {
				s.Set("outer", "done")
				for k := range s.auto {
					if strings.HasPrefix(k, "ly:") || strings.HasPrefix(k, "zero:") {
						s.Set(k, "")
					}
				}
			}
		}
		oc := cl.OnCall
		cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
			if ev.Name == "maps.Copy" && s.vals["outer"] != nil && ev.Args[1] == s.vals["outer"] {
				s.Set("outer", "done")
			}
			oc(e, s, ev)
		}
		cl.OnBranch = func(e *Engine, s *State, a *Term, v bool, pos tokenPos) { sub.onBranch(e, s, a, v) }
		cl.OnMapPut = func(e *Engine, s *State, m, k, v *Term, pos tokenPos) { sub.onPut(e, s, m, k, v, pos) }
		cl.OnAppend = func(e *Engine, s *State, base *Term, elems []*Term, res *Term, pos tokenPos) {
			sub.onAppend(e, s, elems, pos)
		}
		cl.OnExit = func(e *Engine, s *State, ret []*Term) {
			if kind == "interp" && e.Nilness(s, ret[1]) == -1 {
				return
			}
			if s.Get("skipped") != "" {
				e.Report(s, "map left out in "+at, fn.Pos(), "%s can leave out one of the maps it is given", at)
				return
			}
			var got []mapLayer
			if kind == "list" {
				alts := sub.envSeq(e, s, ret[0], nil, 0)
				for i, alt := range alts {
					if i > 0 && !sameSeq(alt, alts[0]) {
						e.Report(s, "order changed in "+at, fn.Pos(), "%s yields different lists on different paths", at)
						return
					}
					for _, en := range alt {
						if en.kind != "map" {
							e.Report(s, "foreign entry in "+at, fn.Pos(), "%s adds %s, which is not an entry of its arguments", at, en.t)
							return
						}
						if i == 0 {
							got = append(got, mapLayer{en.t, en.n})
						}
					}
				}
			} else {
				got = sub.layers(e, s, ret[0])
			}
			want := 0
			for _, q := range params {
				if !isMapT(q.T) {
					if s.Get("all") == "" && !(len(got) > 0 && got[0].t == q) {
						e.Report(s, "map left out in "+at, fn.Pos(), "%s does not go through all the maps it is given", at)
						return
					}
					if len(got) > 0 && got[0].t == q {
						got = got[1:]
					}
					continue
				}
				if len(got) > 0 && got[0].t == q {
					if kind == "interp" {
						want = 1
					}
					if got[0].interp != want && !sub.knownEmpty(e, s, q) {
						e.Report(s, "values interpolated wrongly in "+at, fn.Pos(), "%s interpolates the values %d times", at, got[0].interp)
						return
					}
					got = got[1:]
					continue
				}
				if !sub.knownEmpty(e, s, q) {
					e.Report(s, "map left out in "+at, fn.Pos(), "%s can leave out the entries of %s, or apply them in another order", at, q)
					return
				}
			}
			for _, l := range got {
				if l.t.K != KElem {
					e.Report(s, "order changed in "+at, fn.Pos(), "%s applies %s out of order", at, l.t)
					return
				}
			}
			e.Count("map helper contract")
		}
		s := e.NewState(fn, nil)
		for _, prm := range fn.Params {
			t := s.top().env[prm]
			if p.named(prm.Type(), "internal/interpolate", "Context") {
				ctxPrm = t
			}
			if strMap(prm.Type()) {
				params = append(params, t)
			} else if sl, ok := prm.Type().Underlying().(*types.Slice); ok && strMap(sl.Elem()) {
				params = append(params, t)
			}
		}
		e.Run(s)
		c.Absorb(e)
	}
}
