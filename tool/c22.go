package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C22",
		Technique: "dataflow over SSA: loops over maps are checked for effects that depend on the order of the loop (dependence and ownership analysis of the loop body, through calls), and slices filled in such loops are followed, as a dirty/sorted typestate per function with summaries for parameters, results, fields and captured variables, to every use",
		Explain:   "In every loop over a map (or over a slice in map order) each effect must be independent of the order: stores at places determined by the element, one constant, sums, maxima, sets. Picking an element, returning one, stopping early with what was gathered so far, printing, and building a string are violations. A slice filled by such a loop may be measured, searched, copied, handed on and sorted by a total order; before it is sorted, joining, indexing, looping with effects and handing it to code outside the repository are violations.",
		Run:       runC22,
		Floors:    map[string]int{"loop over a map": 8, "filled in map order": 4, "sorted": 4, "effect independent of order": 8},
	})
}

const (
	lDep  = 1 << iota // depends on which element it is
	lInj              // tells the element apart from the others
	lRun              // depends on how many elements came before
	lOwn              // memory made in this round
	lPart             // computed from a part of the key
)

type bagKey struct {
	fn  *ssa.Function
	cls string
}

type bagOrigin struct {
	b  *ssa.BasicBlock
	pc int
	v  ssa.Value // any value of the class (nil: tok)
	t  string
}

type c22 struct {
	p     *Prog
	e     *Engine
	cls   map[*ssa.Function]*uf
	queue []func()
	// facts
	seenOrigin map[string]bool
	retDirty   map[*ssa.Function]map[int]bool
	fieldDirty map[string]bool
	parDirty   map[ssa.Value]bool // parameters and captured variables
	loopsDone  map[string]bool
	sortsMemo  map[string]int
	order      []bagOrigin
	busy       map[string]bool
	memo       map[string]*sumry
}

// ---- alias classes ----------------------------------------------------------

type uf struct {
	par map[any]any
}

func (u *uf) find(x any) any {
	for {
		y, ok := u.par[x]
		if !ok || y == x {
			return x
		}
		if z, ok := u.par[y]; ok {
			u.par[x] = z
		}
		x = y
	}
}

func (u *uf) union(a, b any) {
	a, b = u.find(a), u.find(b)
	if a != b {
		u.par[a] = b
	}
}

type fieldTok string

func sliceLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Pointer:
		switch x.Elem().Underlying().(type) {
		case *types.Slice, *types.Array:
			return true
		}
	case *types.Interface:
		return true
	case *types.Signature:
		return true
	}
	return false
}

func (c *c22) classes(fn *ssa.Function) *uf {
	if u, ok := c.cls[fn]; ok {
		return u
	}
	u := &uf{map[any]any{}}
	c.cls[fn] = u
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				if sliceLike(x.Type()) {
					for _, e := range x.Edges {
						if _, k := e.(*ssa.Const); !k {
							u.union(x, e)
						}
					}
				}
			case *ssa.ChangeType:
				if sliceLike(x.Type()) {
					u.union(x, x.X)
				}
			case *ssa.MakeInterface:
				if sliceLike(x.X.Type()) {
					u.union(x, x.X)
				}
			case *ssa.TypeAssert:
				if sliceLike(x.AssertedType) && !x.CommaOk {
					u.union(x, x.X)
				}
			case *ssa.Slice:
				if sliceLike(x.X.Type()) {
					u.union(x, x.X)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && sliceLike(x.Type()) {
					if k := fieldKey(x.X); k != "" {
						u.union(x, fieldTok(k))
					} else if _, ok := x.X.(*ssa.IndexAddr); !ok {
						u.union(x, x.X)
					}
				}
			case *ssa.Field:
				if sliceLike(x.Type()) {
					u.union(x, fieldTok(fieldKey(x)))
				}
			case *ssa.FieldAddr:
				if sliceLike(x.Type()) {
					u.union(x, fieldTok(fieldKey(x)))
				}
			case *ssa.Store:
				if _, k := x.Val.(*ssa.Const); sliceLike(x.Val.Type()) && !k {
					if k := fieldKey(x.Addr); k != "" {
						u.union(x.Val, fieldTok(k))
					} else if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						_ = ia
					} else {
						u.union(x.Val, x.Addr)
					}
				}
			case *ssa.Lookup:
				if sliceLike(x.Type()) {
					u.union(x, fieldTok("elem:"+c.mapID(x.X)))
				}
			case *ssa.MapUpdate:
				if _, k := x.Value.(*ssa.Const); sliceLike(x.Value.Type()) && !k {
					u.union(x.Value, fieldTok("elem:"+c.mapID(x.Map)))
				}
			case *ssa.Call:
				n := c.p.CalleeName(&x.Call)
				a := x.Call.Args
				switch {
				case n == "builtin.append" || strings.HasPrefix(n, "slices.") && passesOn[strings.TrimPrefix(n, "slices.")]:
					if len(a) > 0 {
						if _, k := a[0].(*ssa.Const); !k {
							u.union(x, a[0])
						}
					}
				}
			}
		}
	}
	return u
}

func (c *c22) mapID(m ssa.Value) string {
	switch x := m.(type) {
	case *ssa.UnOp:
		if k := fieldKey(x.X); k != "" {
			return k
		}
		return c.mapID(x.X)
	case *ssa.ChangeType:
		return c.mapID(x.X)
	}
	return m.Type().String() + "/" + m.Name()
}

var passesOn = map[string]bool{"Insert": true, "Delete": true, "DeleteFunc": true, "Grow": true, "Clip": true, "Compact": true, "CompactFunc": true, "Replace": true, "Reverse": true}

// ---- origins ----------------------------------------------------------------

// dirty: from the instruction pc of b on, the class of v is in map order.
func (c *c22) dirty(fn *ssa.Function, b *ssa.BasicBlock, pc int, v any) {
	u := c.classes(fn)
	r := u.find(v)
	k := c.p.FnName(fn) + "|" + itoa(b.Index) + "|" + itoa(pc) + "|" + clsName(r)
	if c.seenOrigin[k] {
		return
	}
	c.seenOrigin[k] = true
	c.queue = append(c.queue, func() { c.flow(fn, b, pc, r) })
}

func clsName(r any) string {
	switch x := r.(type) {
	case fieldTok:
		return "f:" + string(x)
	case ssa.Value:
		return "v:" + x.Name()
	}
	return "?"
}

func (c *c22) entryDirty(fn *ssa.Function, v ssa.Value) {
	if fn == nil || len(fn.Blocks) == 0 || c.parDirty[v] {
		return
	}
	c.parDirty[v] = true
	c.dirty(fn, fn.Blocks[0], 0, v)
}

func instrIdx(ins ssa.Instruction) int {
	for i, x := range ins.Block().Instrs {
		if x == ins {
			return i
		}
	}
	return -1
}

// flow walks the paths from an origin while the class stays unsorted.
func (c *c22) flow(fn *ssa.Function, b *ssa.BasicBlock, pc int, cls any) {
	u := c.classes(fn)
	in := func(v ssa.Value) bool { return v != nil && u.find(v) == cls }
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, pc int)
	walk = func(b *ssa.BasicBlock, pc int) {
		for ; pc < len(b.Instrs); pc++ {
			if !c.use(fn, b.Instrs[pc], cls, in) {
				return
			}
		}
		for i, s := range b.Succs {
			if seen[s] || c.smallSide(b, i, in) {
				continue
			}
			seen[s] = true
			walk(s, 0)
		}
	}
	walk(b, pc)
}

// smallSide: on this edge the slice is known to have at most one element.
func (c *c22) smallSide(b *ssa.BasicBlock, succ int, in func(ssa.Value) bool) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isLen := func(v ssa.Value) bool {
		cl, ok := v.(*ssa.Call)
		return ok && c.p.CalleeName(&cl.Call) == "builtin.len" && in(cl.Call.Args[0])
	}
	op, x, y := bo.Op, bo.X, bo.Y
	if isLen(y) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok := y.(*ssa.Const)
	if !isLen(x) || !ok || k.Value == nil {
		return false
	}
	n, ok := constant.Int64Val(k.Value)
	if !ok {
		return false
	}
	yes := succ == 0
	switch op {
	case token.GTR:
		return !yes && n <= 1
	case token.GEQ:
		return !yes && n <= 2
	case token.LSS:
		return yes && n <= 2
	case token.LEQ:
		return yes && n <= 1
	case token.EQL:
		return yes && n <= 1
	case token.NEQ:
		return !yes && n <= 1
	}
	return false
}

var orderFree = map[string]bool{
	"builtin.len": true, "builtin.cap": true, "builtin.copy": false, "builtin.clear": true,
	"slices.Contains": true, "slices.ContainsFunc": true, "slices.Max": true, "slices.Min": true, "slices.MaxFunc": false,
	"mvdan.cc/sh/v3/expand.ListEnviron": true,
	"log/slog.Any":                      false,
}

// use handles one instruction met while the class is unsorted; false stops
// the path.
func (c *c22) use(fn *ssa.Function, ins ssa.Instruction, cls any, in func(ssa.Value) bool) bool {
	p := c.p
	pc := instrIdx(ins)
	b := ins.Block()
	bad := func(f string, a ...any) {
		c.e.Report(nil, "order/"+p.FnName(fn), ins.Pos(), f, a...)
	}
	switch x := ins.(type) {
	case *ssa.Return:
		for i, r := range x.Results {
			if in(r) {
				c.returned(fn, i)
			}
		}
		c.leaves(fn, cls, in)
	case *ssa.Store:
		if in(x.Val) {
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				c.dirty(fn, b, pc+1, ia.X)
				return true
			}
			if g, ok := x.Addr.(*ssa.Global); ok {
				bad("a list in map order is kept in %s", g.Name())
			}
			if k := fieldKey(x.Addr); k != "" {
				if k == "os/exec.Cmd.Env" {
					return true
				}
				if st := x.Addr.(*ssa.FieldAddr); !c.p.repoStruct(ptrElem(st.X.Type())) {
					bad("a list in map order is handed to %s", k)
				}
			}
		}
	case *ssa.IndexAddr:
		if in(x.X) {
			if _, ok := ptrElem(x.X.Type()).(*types.Array); ok {
				return true
			}
			c.indexed(fn, x, bad)
		}
	case *ssa.Index:
		if in(x.X) {
			bad("an element of a list in map order is picked by its position")
		}
	case *ssa.MapUpdate:
		// class of the map's elements
	case *ssa.Send:
		if in(x.X) {
			bad("a list in map order is sent on a channel")
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		if c.isComparator(x) {
			return true
		}
		for i, bd := range x.Bindings {
			if in(bd) {
				c.entryDirty(g, g.FreeVars[i])
			}
		}
	case ssa.CallInstruction:
		return c.callUse(fn, x, cls, in, bad)
	}
	return true
}

// leaves: the function ends while the class is unsorted: fields, captured
// variables and memory behind parameters stay so.
func (c *c22) leaves(fn *ssa.Function, cls any, in func(ssa.Value) bool) {
	u := c.classes(fn)
	for k := range u.par {
		switch x := k.(type) {
		case fieldTok:
			if u.find(x) == cls {
				c.markField(string(x))
			}
		case *ssa.FreeVar:
			if in(x) {
				for _, bd := range c.p.index().binds[x] {
					pf := bd.Parent()
					if pf == nil {
						continue
					}
					for _, b := range pf.Blocks {
						for i, ins := range b.Instrs {
							if ci, ok := ins.(ssa.CallInstruction); ok && c.mayEnter(ci, fn) {
								c.dirty(pf, b, i+1, bd)
							}
						}
					}
				}
			}
		case *ssa.Parameter:
			if _, ptr := x.Type().Underlying().(*types.Pointer); ptr && in(x) {
				for i, prm := range fn.Params {
					if prm == x {
						for _, ci := range c.p.index().calls[fn] {
							if a := ci.Common().Args; !ci.Common().IsInvoke() && i < len(a) {
								c.dirty(ci.Parent(), ci.Block(), instrIdx(ci)+1, a[i])
							}
						}
					}
				}
			}
		}
	}
	if t, ok := cls.(fieldTok); ok {
		c.markField(string(t))
	}
}

func (c *c22) mayEnter(ci ssa.CallInstruction, fn *ssa.Function) bool {
	cc := ci.Common()
	if g := cc.StaticCallee(); g != nil {
		if g == fn {
			return true
		}
		return false
	}
	if cc.IsInvoke() {
		return false
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	for _, g := range c.p.dynTargets(cc.Value) {
		if g == fn {
			return true
		}
	}
	return false
}

func (c *c22) markField(k string) {
	if strings.HasPrefix(k, "elem:") || c.fieldDirty[k] {
		return
	}
	c.fieldDirty[k] = true
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL && fieldKey(x.X) == k {
						c.dirty(fn, b, i+1, x)
					}
				case *ssa.Field:
					if fieldKey(x) == k {
						c.dirty(fn, b, i+1, x)
					}
				}
			}
		}
	}
}

func (c *c22) returned(fn *ssa.Function, i int) {
	m := c.retDirty[fn]
	if m == nil {
		m = map[int]bool{}
		c.retDirty[fn] = m
	}
	if m[i] {
		return
	}
	m[i] = true
	nres := fn.Signature.Results().Len()
	callers := 0
	mark := func(ci ssa.CallInstruction) {
		callers++
		v, ok := ci.(*ssa.Call)
		if !ok {
			return
		}
		if nres == 1 {
			c.dirty(v.Parent(), v.Block(), instrIdx(v)+1, ssa.Value(v))
			return
		}
		for _, r := range *v.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
				c.dirty(v.Parent(), ex.Block(), instrIdx(ex)+1, ssa.Value(ex))
			}
		}
	}
	for _, ci := range c.p.index().calls[fn] {
		mark(ci)
	}
	for _, g := range c.p.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == nil && c.mayEnter(ci, fn) {
					mark(ci)
				}
			}
		}
	}
	if callers == 0 && c.p.index().escape[fn] {
		c.e.Report(nil, "order/"+c.p.FnName(fn), fn.Pos(), "a list in map order is handed out before it is sorted")
	}
}

// isSort: the argument this call sorts (-1: none), and its comparator.
func isSort(n string) bool {
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort", "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

func (c *c22) isComparator(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		ci, ok := r.(ssa.CallInstruction)
		if !ok || !isSort(c.p.CalleeName(ci.Common())) {
			return false
		}
	}
	return true
}

// totalOrder: the comparator tells any two elements apart.
func (c *c22) totalOrder(f ssa.Value) bool {
	var fn *ssa.Function
	switch x := f.(type) {
	case *ssa.MakeClosure:
		fn = x.Fn.(*ssa.Function)
	case *ssa.Function:
		fn = x
	case *ssa.ChangeType:
		return c.totalOrder(x.X)
	default:
		for _, g := range c.p.dynTargets(f) {
			return c.totalOrder(g)
		}
		return false
	}
	n := c.p.FnName(fn)
	if n == "strings.Compare" || n == "cmp.Compare" || n == "cmp.Less" {
		return true
	}
	if fn.Blocks == nil {
		return false
	}
	var whole func(v ssa.Value, d int) bool
	whole = func(v ssa.Value, d int) bool {
		if d > 12 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			return x.Parent() == fn
		case *ssa.UnOp:
			return whole(x.X, d+1)
		case *ssa.IndexAddr:
			return whole(x.Index, d+1)
		case *ssa.FieldAddr:
			return uniqueField(structOf(ptrElem(x.X.Type())).Field(x.Field).Name()) && whole(x.X, d+1)
		case *ssa.Field:
			return uniqueField(structOf(x.X.Type()).Field(x.Field).Name()) && whole(x.X, d+1)
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					return whole(st.Val, d+1)
				}
			}
		case *ssa.ChangeType:
			return whole(x.X, d+1)
		case *ssa.Convert:
			return whole(x.X, d+1)
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					if whole(x.X, 0) && whole(x.Y, 0) {
						return true
					}
				}
			case *ssa.Call:
				n := c.p.CalleeName(&x.Call)
				if a := x.Call.Args; (n == "strings.Compare" || n == "cmp.Compare" || n == "cmp.Less") && len(a) == 2 && whole(a[0], 0) && whole(a[1], 0) {
					return true
				}
				if g := x.Call.StaticCallee(); g != nil && g != fn && c.p.InRepo(g) && len(x.Call.Args) == 2 && whole(x.Call.Args[0], 0) && whole(x.Call.Args[1], 0) && c.totalOrder(g) {
					return true
				}
			}
		}
	}
	return false
}

func uniqueField(n string) bool {
	switch strings.ToLower(n) {
	case "name", "key", "path", "id", "alias", "fullname", "taskname", "task":
		return true
	}
	return false
}

// sortsCls: this call leaves the class sorted.
func (c *c22) sortsCls(ci ssa.CallInstruction, in func(ssa.Value) bool) (sorts, weak bool) {
	n := c.p.CalleeName(ci.Common())
	a := ci.Common().Args
	if isSort(n) {
		if !in(a[0]) {
			return false, false
		}
		switch n {
		case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
			if !c.totalOrder(a[1]) {
				return false, true
			}
		case "sort.Sort", "sort.Stable":
			return c.sortIface(a[0])
		}
		return true, false
	}
	g := ci.Common().StaticCallee()
	if g == nil || g.Blocks == nil || !c.p.InRepo(g) {
		return false, false
	}
	for i, x := range a {
		if in(x) && i < len(g.Params) && c.sortsParam(g, g.Params[i]) {
			return true, false
		}
	}
	return false, false
}

func (c *c22) sortIface(v ssa.Value) (bool, bool) {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return true, false
	}
	switch mi.X.Type().String() {
	case "sort.StringSlice", "sort.IntSlice", "sort.Float64Slice":
		return true, false
	}
	ms := c.p.SSA.MethodSets.MethodSet(mi.X.Type())
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Less" {
			if g := c.p.SSA.MethodValue(ms.At(i)); g != nil {
				return c.totalOrder(g), true
			}
		}
	}
	return true, false
}

// sortsParam: every way through the function sorts what the parameter holds.
func (c *c22) sortsParam(g *ssa.Function, prm ssa.Value) bool {
	k := c.p.FnName(g) + "/" + prm.Name()
	if r, ok := c.sortsMemo[k]; ok {
		return r == 1
	}
	c.sortsMemo[k] = 0
	u := c.classes(g)
	cls := u.find(prm)
	in := func(v ssa.Value) bool { return u.find(v) == cls }
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if s, _ := c.sortsCls(ci, in); s {
					return true
				}
			}
			if _, ok := ins.(*ssa.Return); ok {
				return false
			}
		}
		for i, s := range b.Succs {
			if seen[s] || c.smallSide(b, i, in) {
				continue
			}
			seen[s] = true
			if !walk(s) {
				return false
			}
		}
		return true
	}
	r := walk(g.Blocks[0])
	if r {
		c.sortsMemo[k] = 1
	}
	return r
}

func (c *c22) callUse(fn *ssa.Function, ci ssa.CallInstruction, cls any, in func(ssa.Value) bool, bad func(string, ...any)) bool {
	p := c.p
	n := p.CalleeName(ci.Common())
	b, pc := ci.Block(), instrIdx(ci)
	if s, weak := c.sortsCls(ci, in); s {
		c.e.Count("sorted")
		return false
	} else if weak {
		c.e.Count("sorted by a partial order")
		return true
	}
	args := ci.Common().Args
	if n == "" && !ci.Common().IsInvoke() {
		// a call of a closure sees the captured variables as they are
		for _, g := range p.dynTargets(ci.Common().Value) {
			for _, fv := range g.FreeVars {
				for _, bd := range p.index().binds[fv] {
					if bd.Parent() == fn && in(bd) {
						c.entryDirty(g, fv)
					}
				}
			}
		}
		if in(ci.Common().Value) {
			// an iterator over a list in map order
			c.yield(fn, ci, false)
			return true
		}
	}
	used := -1
	for i, a := range args {
		if in(a) {
			used = i
			break
		}
	}
	if used < 0 {
		return true
	}
	res, _ := ci.(*ssa.Call)
	mark := func() {
		if res != nil {
			c.dirty(fn, b, pc+1, ssa.Value(res))
		}
	}
	switch {
	case n == "builtin.append":
		if used == 0 || !in(args[0]) && in(args[1]) {
			if sl, ok := args[1].Type().Underlying().(*types.Slice); ok && used == 1 && !types.Identical(sl.Elem(), types.Typ[types.Byte]) {
				mark()
			} else if used == 0 {
				mark()
			}
		}
		return true
	case n == "builtin.copy":
		if in(args[1]) && !in(args[0]) {
			c.dirty(fn, b, pc+1, args[0])
		}
		return true
	case orderFree[n]:
		return true
	case strings.HasPrefix(n, "slices."):
		s := strings.TrimPrefix(n, "slices.")
		switch {
		case passesOn[s]:
			return true
		case s == "Clone", s == "Concat", s == "Values", s == "All", s == "Backward", s == "Collect", s == "Repeat", s == "AppendSeq":
			mark()
			return true
		case s == "Sorted":
			c.e.Count("sorted")
			return true
		case s == "SortedFunc", s == "SortedStableFunc":
			if c.totalOrder(args[1]) {
				c.e.Count("sorted")
			} else {
				mark()
			}
			return true
		}
		bad("a list in map order is used by %s before it is sorted", n)
		return true
	case strings.HasPrefix(n, "maps.Collect"), strings.HasPrefix(n, "maps.Insert"):
		return true
	}
	var targets []*ssa.Function
	if g := ci.Common().StaticCallee(); g != nil {
		targets = append(targets, g)
		if g.Origin() != nil && g.Blocks == nil {
			targets = nil
		}
	} else if ci.Common().IsInvoke() {
		bad("a list in map order is handed to %s before it is sorted", n)
		return true
	} else {
		targets = p.dynTargets(ci.Common().Value)
	}
	if len(targets) == 0 {
		bad("a list in map order is handed on before it is sorted")
		return true
	}
	for _, g := range targets {
		if g.Blocks == nil || !p.InRepo(g) {
			bad("a list in map order is handed to %s before it is sorted", n)
			continue
		}
		for i, a := range args {
			if in(a) && i < len(g.Params) {
				c.entryDirty(g, g.Params[i])
			}
		}
	}
	return true
}

// indexed: x[i] of a list in map order: the loop over all of it, or a pick.
func (c *c22) indexed(fn *ssa.Function, x *ssa.IndexAddr, bad func(string, ...any)) {
	onlyStored := true
	for _, r := range *x.Referrers() {
		if st, ok := r.(*ssa.Store); !ok || st.Addr != ssa.Value(x) {
			onlyStored = false
		}
	}
	if onlyStored {
		return
	}
	phi := indexPhi(x.Index)
	lf := c.p.Loops(fn)
	if phi != nil {
		if body := lf.header[phi.Block()]; body != nil && body[x.Block()] {
			u := c.classes(fn)
			lp := &unordLoop{fn: fn, header: phi.Block(), body: body, idx: phi, seeds: map[ssa.Value]int{}}
			for b := range body {
				for _, ins := range b.Instrs {
					if y, ok := ins.(*ssa.IndexAddr); ok && indexPhi(y.Index) == phi && u.find(y.X) == u.find(x.X) {
						lp.seeds[y] = lDep | lInj
					}
				}
			}
			lp.pos = x.Pos()
			lp.what = "a list in map order"
			c.loop(lp)
			return
		}
	}
	bad("an element of a list in map order is picked by its position")
}

func indexPhi(v ssa.Value) *ssa.Phi {
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if bo, ok := e.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) && bo.X == ssa.Value(x) {
				return x
			}
		}
	case *ssa.BinOp:
		if _, ok := x.Y.(*ssa.Const); ok && (x.Op == token.ADD || x.Op == token.SUB) {
			if ph, ok := x.X.(*ssa.Phi); ok && (indexPhi(ph) != nil) {
				return ph
			}
		}
	}
	return nil
}

// ---- loops without an order --------------------------------------------------

type unordLoop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	idx    *ssa.Phi
	seeds  map[ssa.Value]int
	pos    token.Pos
	what   string
}

func (c *c22) loop(lp *unordLoop) {
	k := c.p.FnName(lp.fn) + "|" + itoa(lp.header.Index) + "|" + lp.what
	if c.loopsDone[k] {
		return
	}
	c.loopsDone[k] = true
	r := &region{c: c, fn: lp.fn, body: lp.body, header: lp.header, idx: lp.idx, seeds: lp.seeds, what: lp.what, pos: lp.pos}
	r.run()
	// what was filled
	for _, v := range r.filled {
		c.e.Count("filled in map order")
		for b := range lp.body {
			for i, s := range b.Succs {
				if !lp.body[s] && !(b == lp.header && c.smallSide(b, i, func(x ssa.Value) bool { return false })) {
					c.dirty(lp.fn, s, 0, v)
				}
			}
		}
	}
	for _, k := range r.fields {
		c.e.Count("filled in map order")
		for b := range lp.body {
			for _, s := range b.Succs {
				if !lp.body[s] {
					c.dirty(lp.fn, s, 0, fieldTok(k))
				}
			}
		}
	}
}

// yield: a call of an iterator in map order with its loop body.
func (c *c22) yield(fn *ssa.Function, ci ssa.CallInstruction, pairs bool) {
	a := ci.Common().Args
	if len(a) != 1 {
		return
	}
	for _, g := range c.p.dynTargets(a[0]) {
		c.yieldBody(fn, ci, g)
	}
}

func (c *c22) yieldBody(fn *ssa.Function, ci ssa.CallInstruction, g *ssa.Function) {
	k := c.p.FnName(g) + "|yield"
	if c.loopsDone[k] {
		return
	}
	c.loopsDone[k] = true
	c.e.Count("loop over a map")
	r := &region{c: c, fn: g, seeds: map[ssa.Value]int{}, what: "a map", pos: ci.Pos()}
	for i, prm := range g.Params {
		r.seeds[prm] = lDep
		if i == 0 {
			r.seeds[prm] = lDep | lInj
		}
	}
	r.run()
	for _, v := range r.filled {
		c.e.Count("filled in map order")
		if fv, ok := v.(*ssa.FreeVar); ok {
			for _, bd := range c.p.index().binds[fv] {
				if bd.Parent() == fn {
					c.dirty(fn, ci.Block(), instrIdx(ci)+1, bd)
				}
			}
		}
	}
	for _, k := range r.fields {
		c.e.Count("filled in map order")
		c.dirty(fn, ci.Block(), instrIdx(ci)+1, fieldTok(k))
	}
}

type region struct {
	c      *c22
	fn     *ssa.Function
	body   map[*ssa.BasicBlock]bool // nil: the whole function
	header *ssa.BasicBlock
	idx    *ssa.Phi
	seeds  map[ssa.Value]int
	what   string
	pos    token.Pos
	callee bool
	depth  int

	lab    map[ssa.Value]int
	single map[*ssa.BasicBlock]bool // only one element gets here
	acc    map[*ssa.Phi]string      // what a loop-carried variable gathers
	filled []ssa.Value
	fields []string
	gather []ssa.Value // accumulated in order-dependent steps
	consts map[string]string
	retK   string
	retSet bool
}

func (r *region) in(b *ssa.BasicBlock) bool { return r.body == nil || r.body[b] }

func (r *region) blocks() []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, b := range r.fn.Blocks {
		if r.in(b) {
			out = append(out, b)
		}
	}
	return out
}

func (r *region) bad(pos token.Pos, f string, a ...any) {
	if !pos.IsValid() {
		pos = r.pos
	}
	if !pos.IsValid() {
		pos = r.fn.Pos()
	}
	r.c.e.Report(nil, "loop/"+r.c.p.FnName(r.fn), pos, "in a loop over "+r.what+", whose order is not fixed: "+f, a...)
}

func lossyCall(n string) bool {
	switch n {
	case "strings.ToLower", "strings.ToUpper", "strings.ToTitle", "strings.Title", "path.Base", "path/filepath.Base", "path.Dir", "path/filepath.Dir", "path.Ext", "path/filepath.Ext", "strings.Cut", "strings.CutPrefix", "strings.CutSuffix", "builtin.len", "strings.Count", "strings.Index", "strings.Fields", "strings.Replace", "strings.ReplaceAll", "strings.Map", "strings.LastIndex", "strings.IndexByte", "strings.SplitN":
		return true
	}
	return strings.HasPrefix(n, "strings.Trim") || strings.HasPrefix(n, "strings.Has") || strings.HasPrefix(n, "strings.Contains")
}

func (r *region) label(v ssa.Value) int { return r.lab[v] }

func (r *region) computeLabels() {
	p := r.c.p
	r.lab = map[ssa.Value]int{}
	for v, l := range r.seeds {
		r.lab[v] = l
	}
	if r.idx != nil {
		r.lab[r.idx] |= lRun
	}
	fresh := map[ssa.Value]bool{}
	blocks := r.blocks()
	for changed := true; changed; {
		changed = false
		set := func(v ssa.Value, l int) {
			n := r.lab[v] | l
			if n&lPart != 0 {
				n &^= lInj
			}
			if n != r.lab[v] {
				r.lab[v] = n
				changed = true
			}
		}
		for _, b := range blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok {
					if st, ok := ins.(*ssa.Store); ok {
						// memory made in this round holds what is stored
						if root := addrRoot(st.Addr); fresh[root] {
							set(root, r.label(st.Val)&(lDep|lRun|lInj|lPart))
						}
					}
					if mu, ok := ins.(*ssa.MapUpdate); ok && fresh[addrRoot(mu.Map)] {
						set(addrRoot(mu.Map), (r.label(mu.Value)|r.label(mu.Key))&(lDep|lRun))
					}
					continue
				}
				if _, seed := r.seeds[v]; seed {
					continue
				}
				var l int
				switch x := ins.(type) {
				case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
					if !fresh[v] {
						fresh[v] = true
						changed = true
					}
					l = lOwn
				case *ssa.Phi:
					if x == r.idx {
						l = lRun
						break
					}
					var first ssa.Value
					diff := false
					for i, e := range x.Edges {
						if r.header == x.Block() && !r.in(x.Block().Preds[i]) {
							continue
						}
						el := r.label(e)
						l |= el & (lDep | lRun | lInj | lOwn | lPart)
						if first == nil {
							first = e
						} else if first != e && !sameConst(first, e) {
							diff = true
						}
					}
					if x.Block() == r.header {
						l = l&lDep | lRun
						if r.acc != nil && r.acc[x] != "" {
							l = lRun
						}
					} else if diff && r.depBranch(x) {
						l |= lDep
					}
				case *ssa.BinOp:
					l = (r.label(x.X) | r.label(x.Y)) & (lDep | lRun | lInj | lPart)
					switch x.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
						l &^= lInj | lPart
					}
					if r.idx != nil && indexPhi(x) == r.idx {
						l = lRun
					}
				case *ssa.UnOp:
					l = r.label(x.X) & (lDep | lRun | lInj | lPart)
					if x.Op == token.NOT {
						l &^= lInj
					}
				case *ssa.FieldAddr:
					l = r.label(x.X) & (lDep | lRun | lOwn | lInj | lPart)
					if l&lInj != 0 && !fresh[addrRoot(x.X)] && !uniqueField(structOf(ptrElem(x.X.Type())).Field(x.Field).Name()) {
						l &^= lInj
					}
					if l&lDep != 0 && (uniqueField(structOf(ptrElem(x.X.Type())).Field(x.Field).Name()) || strings.Contains(structOf(ptrElem(x.X.Type())).Field(x.Field).Name(), "Alias")) {
						l |= lInj
					}
				case *ssa.Field:
					n := structOf(x.X.Type()).Field(x.Field).Name()
					l = r.label(x.X) & (lDep | lRun)
					if l&lDep != 0 && (uniqueField(n) || strings.Contains(n, "Alias")) {
						l |= lInj
					}
				case *ssa.IndexAddr:
					l = r.label(x.X) & (lDep | lRun | lOwn | lInj | lPart)
					if _, k := x.Index.(*ssa.Const); k && l&lInj != 0 && !fresh[addrRoot(x.X)] {
						l = l&^lInj | lPart
					}
					il := r.label(x.Index)
					if il&lDep != 0 {
						l |= lDep
					}
				case *ssa.Index:
					l = r.label(x.X)&(lDep|lRun) | r.label(x.Index)&lDep
				case *ssa.Slice:
					l = r.label(x.X) & (lDep | lRun | lInj | lOwn | lPart)
					if _, str := x.X.Type().Underlying().(*types.Basic); str && l&lInj != 0 {
						l = l&^lInj | lPart
					}
				case *ssa.Lookup:
					l = (r.label(x.X) | r.label(x.Index)) & (lDep | lRun)
				case *ssa.Extract:
					l = r.label(x.Tuple) & (lDep | lRun | lInj | lPart)
					if nx, ok := x.Tuple.(*ssa.Next); ok {
						_ = nx
						l &^= lInj
					}
				case *ssa.Call:
					n := p.CalleeName(&x.Call)
					for _, a := range x.Call.Args {
						l |= r.label(a) & (lDep | lRun | lInj | lPart)
					}
					if x.Call.IsInvoke() || p.CalleeName(&x.Call) == "" {
						l |= r.label(x.Call.Value) & (lDep | lRun)
					}
					if lossyCall(n) && l&lInj != 0 {
						l = l&^lInj | lPart
					}
					if l&lDep != 0 && strings.Contains(n[strings.LastIndex(n, ".")+1:], "Alias") {
						l |= lInj
					}
					if n == "builtin.append" {
						// handled by the accumulator rules
						l = r.label(x.Call.Args[0])&(lDep|lRun|lOwn) | r.label(x.Call.Args[1])&(lDep|lRun|lInj)
					}
				default:
					var ops [8]*ssa.Value
					for _, o := range ins.Operands(ops[:0]) {
						if o != nil && *o != nil {
							l |= r.label(*o) & (lDep | lRun | lInj | lPart)
						}
					}
				}
				set(v, l)
			}
		}
	}
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if !ok1 || !ok2 {
		return false
	}
	if x.Value == nil || y.Value == nil {
		return x.Value == nil && y.Value == nil
	}
	return x.Value.ExactString() == y.Value.ExactString()
}

// depBranch: which edge a phi takes depends on the element.
func (r *region) depBranch(x *ssa.Phi) bool {
	for d := x.Block().Idom(); d != nil && r.in(d); d = d.Idom() {
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && r.label(iff.Cond)&lDep != 0 {
			return true
		}
		break
	}
	return false
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// singles: blocks reached by only one element (the key equals something
// fixed).
func (r *region) singles() {
	r.single = map[*ssa.BasicBlock]bool{}
	for _, b := range r.blocks() {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		isKey := func(v ssa.Value) bool {
			if l := r.label(v); l&lInj == 0 || l&lPart != 0 {
				return false
			}
			_, str := v.Type().Underlying().(*types.Basic)
			return str
		}
		if !(isKey(bo.X) && r.label(bo.Y)&(lDep|lRun) == 0) && !(isKey(bo.Y) && r.label(bo.X)&(lDep|lRun) == 0) {
			continue
		}
		s := b.Succs[0]
		if bo.Op == token.NEQ {
			s = b.Succs[1]
		}
		if len(s.Preds) > 1 {
			continue
		}
		for _, d := range r.fn.Blocks {
			if s.Dominates(d) {
				r.single[d] = true
			}
		}
	}
}

// accum says what a loop-carried variable gathers.
func (r *region) accum(ph *ssa.Phi) string {
	chain := map[ssa.Value]bool{ph: true}
	kind := ""
	set := func(k string) {
		if kind == "" || kind == k {
			kind = k
		} else if k != "" {
			kind = "wins"
		}
	}
	var consts *ssa.Const
	wins := false
	inv := true
	var walk func(v ssa.Value, at *ssa.Phi, edge int)
	var onChain func(v ssa.Value, d int) bool
	onChain = func(v ssa.Value, d int) bool {
		if v == ssa.Value(ph) {
			return true
		}
		if d > 20 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if !r.in(x.Block()) {
				return false
			}
			if chain[x] {
				return true
			}
			chain[x] = true
			for _, e := range x.Edges {
				if onChain(e, d+1) {
					return true
				}
			}
			delete(chain, x)
		case *ssa.BinOp:
			return onChain(x.X, d+1) || onChain(x.Y, d+1)
		case *ssa.Call:
			n := r.c.p.CalleeName(&x.Call)
			if n == "builtin.append" || n == "builtin.max" || n == "builtin.min" || strings.HasPrefix(n, "slices.") && passesOn[strings.TrimPrefix(n, "slices.")] {
				for _, a := range x.Call.Args {
					if onChain(a, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[ssa.Value]bool{}
	walk = func(v ssa.Value, at *ssa.Phi, edge int) {
		if v == ssa.Value(ph) {
			return
		}
		if at != nil && r.single[at.Block().Preds[edge]] {
			return
		}
		switch x := v.(type) {
		case *ssa.Const:
			if consts == nil {
				consts = x
			} else if !sameConst(consts, x) {
				wins = true
			}
			return
		case *ssa.Phi:
			if r.in(x.Block()) {
				if seen[x] {
					return
				}
				seen[x] = true
				for i, e := range x.Edges {
					if x.Block() == r.header && !r.in(x.Block().Preds[i]) {
						continue
					}
					walk(e, x, i)
				}
				return
			}
		case *ssa.BinOp:
			if r.in(x.Block()) && (onChain(x.X, 0) || onChain(x.Y, 0)) {
				bt, _ := x.Type().Underlying().(*types.Basic)
				if bt != nil && bt.Info()&types.IsString != 0 {
					set("text")
					return
				}
				switch x.Op {
				case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.SUB:
					set("sum")
				default:
					set("wins")
				}
				if onChain(x.X, 0) {
					walk(x.X, nil, 0)
				} else {
					walk(x.Y, nil, 0)
				}
				return
			}
		case *ssa.Call:
			if r.in(x.Block()) && onChain(x, 0) {
				n := r.c.p.CalleeName(&x.Call)
				if n == "builtin.max" || n == "builtin.min" {
					set("sum")
				} else {
					set("list")
				}
				for _, a := range x.Call.Args {
					if onChain(a, 0) {
						walk(a, nil, 0)
					}
				}
				return
			}
		}
		l := r.label(v)
		if l&(lDep|lRun) == 0 {
			if vi, ok := v.(ssa.Instruction); !ok || !r.in(vi.Block()) || l&lOwn == 0 {
				return // the same whichever element
			}
			return
		}
		if at != nil && (r.extremum(ph, v, at, edge, chain) || r.boolean(v, at, edge, chain)) {
			set("sum")
			return
		}
		wins = true
	}
	for i, e := range ph.Edges {
		if r.in(ph.Block().Preds[i]) {
			walk(e, ph, i)
		}
	}
	_ = inv
	if wins {
		return "wins"
	}
	if kind == "" && consts != nil {
		return "flag"
	}
	return kind
}

func sameExpr(a, b ssa.Value, d int) bool {
	if a == b || sameConst(a, b) {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || !sameCallee(x.Call.Value, y.Call.Value) || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		for i := range x.Call.Args {
			if !sameExpr(x.Call.Args[i], y.Call.Args[i], d+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X, d+1) && sameExpr(x.Y, y.Y, d+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X, d+1)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameExpr(x.X, y.X, d+1) && sameExpr(x.Index, y.Index, d+1)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X, d+1)
	case *ssa.Lookup:
		y, ok := b.(*ssa.Lookup)
		return ok && x.CommaOk == y.CommaOk && sameExpr(x.X, y.X, d+1) && sameExpr(x.Index, y.Index, d+1)
	case *ssa.Extract:
		y, ok := b.(*ssa.Extract)
		return ok && x.Index == y.Index && sameExpr(x.Tuple, y.Tuple, d+1)
	}
	return false
}

func sameCallee(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Builtin)
	y, ok2 := b.(*ssa.Builtin)
	return a == b || ok1 && ok2 && x.Name() == y.Name()
}

// extremum: the new value is kept only when it is greater (or smaller) than
// the one before.
func (r *region) extremum(ph *ssa.Phi, v ssa.Value, at *ssa.Phi, edge int, chain map[ssa.Value]bool) bool {
	for b := at.Block().Preds[edge]; b != nil && r.in(b); b = b.Idom() {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					if sameExpr(bo.X, v, 0) && chain[bo.Y] || sameExpr(bo.Y, v, 0) && chain[bo.X] {
						return true
					}
				}
			}
		}
		if b == r.header {
			break
		}
	}
	return false
}

func (r *region) boolean(v ssa.Value, at *ssa.Phi, edge int, chain map[ssa.Value]bool) bool {
	if bt, ok := v.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsBoolean == 0 {
		return false
	}
	for b := at.Block().Preds[edge]; b != nil && r.in(b); b = b.Idom() {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && chain[iff.Cond] {
			return true
		}
		if b == r.header {
			break
		}
	}
	return false
}

func (r *region) run() {
	r.consts = map[string]string{}
	r.computeLabels()
	r.singles()
	if r.header != nil {
		r.acc = map[*ssa.Phi]string{}
		var phis []*ssa.Phi
		for _, ins := range r.header.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok && ph != r.idx {
				phis = append(phis, ph)
			}
		}
		for _, ph := range phis {
			k := r.accum(ph)
			r.acc[ph] = k
		}
		r.computeLabels()
		for _, ph := range phis {
			switch r.acc[ph] {
			case "list":
				r.filled = append(r.filled, ph)
				r.gather = append(r.gather, ph)
				r.c.e.Count("effect independent of order")
			case "sum":
				r.gather = append(r.gather, ph)
				r.c.e.Count("effect independent of order")
			case "text":
				if r.usedAfter(ph) {
					r.bad(phPos(ph), "the text built depends on the order")
				}
			case "wins":
				if r.usedAfter(ph) {
					r.bad(phPos(ph), "the value kept depends on which element comes last (or first)")
				}
			}
		}
	}
	for _, b := range r.blocks() {
		for _, ins := range b.Instrs {
			if !r.single[b] {
				r.effect(ins)
			}
		}
	}
	r.exits()
}

func phPos(ph *ssa.Phi) token.Pos {
	if ph.Pos().IsValid() {
		return ph.Pos()
	}
	return token.NoPos
}

// usedAfter: a value of the loop is used outside of it, or in an effect.
func (r *region) usedAfter(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if _, dbg := u.(*ssa.DebugRef); dbg {
				continue
			}
			if !r.in(u.Block()) {
				return true
			}
			if ph, ok := u.(*ssa.Phi); ok && walk(ph) {
				return true
			}
			if bo, ok := u.(*ssa.BinOp); ok && walk(bo) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

func (r *region) exits() {
	if r.header == nil {
		return
	}
	for _, b := range r.blocks() {
		for _, s := range b.Succs {
			if r.in(s) || b == r.header {
				continue
			}
			if r.single[b] || r.single[s] {
				continue
			}
			// values that leave
			live := r.c.p.LiveAt(s, 0)
			for _, g := range r.gather {
				if r.liveAfter(g, s, live) {
					r.bad(lastPos(b), "it stops early with what was gathered so far")
				}
			}
			for _, ins := range s.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for i, e := range ph.Edges {
					if s.Preds[i] == b && r.label(e)&lDep != 0 && len(*ph.Referrers()) > 0 {
						r.bad(lastPos(b), "it stops at whichever element comes first and keeps it")
					}
				}
			}
		}
	}
	// returns reached without leaving through the header carry values of the
	// element
	out := map[*ssa.BasicBlock]bool{}
	var q []*ssa.BasicBlock
	for _, b := range r.blocks() {
		for _, s := range b.Succs {
			if !r.in(s) && b != r.header && !r.single[b] && !r.single[s] {
				q = append(q, s)
			}
		}
	}
	for len(q) > 0 {
		b := q[0]
		q = q[1:]
		if out[b] {
			continue
		}
		out[b] = true
		q = append(q, b.Succs...)
	}
	retKeys := map[string]token.Pos{}
	for _, b := range r.fn.Blocks {
		if !out[b] || r.in(b) {
			continue
		}
		// only blocks that belong to the early exit: not reachable from the
		// header's own exit
		own := !r.reachFromHeader(b)
		for _, ins := range b.Instrs {
			var ops [8]*ssa.Value
			if _, ph := ins.(*ssa.Phi); ph {
				continue
			}
			for _, o := range ins.Operands(ops[:0]) {
				if o == nil || *o == nil {
					continue
				}
				oi, ok := (*o).(ssa.Instruction)
				if ok && r.in(oi.Block()) && oi.Block() != r.header && r.label(*o)&lDep != 0 && !r.single[oi.Block()] {
					r.bad(ins.Pos(), "it stops at whichever element comes first and uses it")
				}
			}
			if ret, ok := ins.(*ssa.Return); ok && own {
				k := ""
				for _, v := range ret.Results {
					if kc, ok := v.(*ssa.Const); ok {
						if kc.Value == nil {
							k += "nil,"
						} else {
							k += kc.Value.ExactString() + ","
						}
					} else {
						k += v.Name() + ","
					}
				}
				retKeys[k] = ret.Pos()
			}
		}
	}
	if len(retKeys) > 1 {
		for _, pos := range retKeys {
			r.bad(pos, "which of several results is returned depends on which element comes first")
			break
		}
	}
}

func (r *region) reachFromHeader(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var q []*ssa.BasicBlock
	for _, s := range r.header.Succs {
		if !r.in(s) {
			q = append(q, s)
		}
	}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		q = append(q, x.Succs...)
	}
	return false
}

func (r *region) liveAfter(g ssa.Value, s *ssa.BasicBlock, live map[ssa.Value]bool) bool {
	if live[g] {
		return true
	}
	// values of the same accumulation
	for _, u := range *g.Referrers() {
		if v, ok := u.(ssa.Value); ok && r.in(u.Block()) && live[v] {
			switch v.(type) {
			case *ssa.BinOp, *ssa.Phi:
				return true
			case *ssa.Call:
				return true
			}
		}
	}
	for _, ins := range s.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range ph.Edges {
			if e == g && r.in(s.Preds[i]) && s.Preds[i] != r.header && len(*ph.Referrers()) > 0 {
				return true
			}
		}
	}
	return false
}

func lastPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	return token.NoPos
}

// own: the memory was made for this element.
func (r *region) own(addr ssa.Value) bool {
	if r.label(addr)&lDep != 0 {
		return true
	}
	root := addrRoot(addr)
	if r.label(root)&(lOwn|lDep) != 0 {
		return true
	}
	return false
}

// outer: the value gives access to memory shared by all elements.
func (r *region) outer(v ssa.Value) bool {
	if _, k := v.(*ssa.Const); k {
		return false
	}
	if r.label(v)&(lDep|lOwn) != 0 || r.label(addrRoot(v))&(lDep|lOwn) != 0 {
		return false
	}
	switch v.(type) {
	case *ssa.Function, *ssa.Builtin, *ssa.MakeClosure:
		return false
	}
	switch v.Type().Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Interface, *types.Slice:
		return true
	}
	return false
}

func rangeFuncCell(p *Prog, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.FreeVar:
		for _, b := range p.index().binds[x] {
			if rangeFuncCell(p, b) {
				return true
			}
		}
		return strings.Contains(x.Name(), "rangefunc") || strings.HasPrefix(x.Name(), "jump$")
	case *ssa.Alloc:
		return strings.Contains(x.Comment, "rangefunc") || strings.HasPrefix(x.Comment, "jump$")
	}
	return false
}

func (r *region) effect(ins ssa.Instruction) {
	c := r.c
	p := c.p
	switch x := ins.(type) {
	case *ssa.Store:
		if r.own(x.Addr) {
			if r.label(x.Addr)&lPart != 0 && r.label(addrRoot(x.Addr))&lOwn == 0 && r.label(x.Val)&(lDep|lRun) != 0 {
				r.bad(x.Pos(), "elements that share a part of their name overwrite each other")
			} else {
				c.e.Count("effect independent of order")
			}
			if r.label(x.Val)&lRun != 0 && r.label(x.Val)&lOwn == 0 && r.label(addrRoot(x.Addr))&lOwn == 0 {
				r.bad(x.Pos(), "an element is given a number that depends on the order")
			}
			return
		}
		if rangeFuncCell(p, x.Addr) {
			return
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && r.label(ia.Index)&lRun != 0 {
			r.filled = append(r.filled, ia.X)
			c.e.Count("effect independent of order")
			return
		}
		r.storeOuter(x, x.Addr, x.Val)
	case *ssa.MapUpdate:
		if r.own(x.Map) {
			if r.label(x.Value)&lRun != 0 {
				r.bad(x.Pos(), "an element is given a number that depends on the order")
			}
			c.e.Count("effect independent of order")
			return
		}
		kl, vl := r.label(x.Key), r.label(x.Value)
		switch {
		case kl&lRun != 0 && kl&lDep == 0:
			r.bad(x.Pos(), "the place an element is put depends on the order")
		case vl&lRun != 0 && !r.accumInto(x):
			r.bad(x.Pos(), "an element is given a number that depends on the order")
		case kl&lInj != 0 && kl&lPart == 0, vl&lDep == 0, x.Key == x.Value:
			if vl&lDep == 0 && kl&lInj == 0 && !r.fixed(x.Value) && !r.accumInto(x) && kl&lDep == 0 {
				k := "map:" + p.FnName(r.fn)
				if s := x.Value.Name() + "=" + x.Value.String(); r.consts[k] != "" && r.consts[k] != s {
					r.bad(x.Pos(), "the value kept depends on which element comes last")
				} else {
					r.consts[k] = s
				}
			}
			c.e.Count("effect independent of order")
		case r.accumInto(x):
			if sliceLike(x.Value.Type()) {
				r.fields = append(r.fields, "elem:"+c.mapID(x.Map))
			}
			c.e.Count("effect independent of order")
		default:
			r.bad(x.Pos(), "elements that get the same key overwrite each other, and which one stays depends on the order")
		}
	case *ssa.Send:
		r.bad(x.Pos(), "elements are sent in the order of the loop")
	case *ssa.Go:
		r.bad(x.Pos(), "work is started in the order of the loop")
	case *ssa.Defer:
		r.bad(x.Pos(), "work is deferred in the order of the loop")
	case *ssa.Select:
		r.bad(x.Pos(), "channels are used in the order of the loop")
	case *ssa.Return:
		if r.header != nil {
			r.ret(x)
		} else if !r.callee {
			for _, v := range x.Results {
				if r.label(v)&lDep != 0 {
					if bt, ok := v.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsBoolean == 0 {
						r.bad(x.Pos(), "what is returned depends on which element comes first")
					}
				}
			}
		}
	case *ssa.Call:
		r.call(x)
	}
}

func (r *region) ret(x *ssa.Return) {
	for _, v := range x.Results {
		if r.label(v)&lDep != 0 {
			r.bad(x.Pos(), "what is returned depends on which element comes first")
			return
		}
	}
}

func (r *region) fixed(v ssa.Value) bool {
	_, k := v.(*ssa.Const)
	return k
}

// accumInto: m[k] is updated from itself by a commutative step (or a list
// grows).
func (r *region) accumInto(x *ssa.MapUpdate) bool {
	isSelf := func(v ssa.Value) bool {
		if ex, ok := v.(*ssa.Extract); ok {
			v = ex.Tuple
		}
		lk, ok := v.(*ssa.Lookup)
		return ok && sameExpr(lk.Index, x.Key, 0) && sameExpr(lk.X, x.Map, 0)
	}
	switch v := x.Value.(type) {
	case *ssa.BinOp:
		bt, _ := v.Type().Underlying().(*types.Basic)
		return bt != nil && bt.Info()&types.IsString == 0 && (isSelf(v.X) || isSelf(v.Y))
	case *ssa.Call:
		return r.c.p.CalleeName(&v.Call) == "builtin.append" && isSelf(v.Call.Args[0])
	}
	return false
}

func (r *region) storeOuter(ins ssa.Instruction, addr, val ssa.Value) {
	c := r.c
	isSelf := func(v ssa.Value) bool {
		ld, ok := v.(*ssa.UnOp)
		return ok && ld.Op == token.MUL && sameExpr(ld.X, addr, 0)
	}
	switch v := val.(type) {
	case *ssa.Call:
		n := c.p.CalleeName(&v.Call)
		if n == "builtin.append" && r.selfChain(v.Call.Args[0], addr, 0) {
			c.e.Count("effect independent of order")
			if k := fieldKey(addr); k != "" {
				r.fields = append(r.fields, k)
			} else {
				r.filled = append(r.filled, addr)
			}
			return
		}
		if (n == "builtin.max" || n == "builtin.min") && (isSelf(v.Call.Args[0]) || isSelf(v.Call.Args[1])) {
			return
		}
	case *ssa.BinOp:
		if isSelf(v.X) || isSelf(v.Y) {
			if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				r.bad(ins.Pos(), "the text built depends on the order")
			}
			return
		}
	case *ssa.Const:
		k := addr.Name() + fieldKey(addr)
		s := "nil"
		if v.Value != nil {
			s = v.Value.ExactString()
		}
		if r.consts[k] != "" && r.consts[k] != s {
			r.bad(ins.Pos(), "the value kept depends on which element comes last")
			return
		}
		r.consts[k] = s
		c.e.Count("effect independent of order")
		return
	}
	if r.label(val)&(lDep|lRun) != 0 {
		if r.extremumStore(ins, addr, val) {
			return
		}
		r.bad(ins.Pos(), "the value kept depends on which element comes last (or first)")
	}
}

func (r *region) selfChain(v, addr ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && sameExpr(x.X, addr, 0)
	case *ssa.Call:
		return r.c.p.CalleeName(&x.Call) == "builtin.append" && r.selfChain(x.Call.Args[0], addr, d+1)
	}
	return false
}

func (r *region) extremumStore(ins ssa.Instruction, addr, val ssa.Value) bool {
	for b := ins.Block(); b != nil && r.in(b); b = b.Idom() {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b != ins.Block() {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					ld := func(v ssa.Value) bool {
						u, ok := v.(*ssa.UnOp)
						return ok && u.Op == token.MUL && sameExpr(u.X, addr, 0)
					}
					if sameExpr(bo.X, val, 0) && ld(bo.Y) || sameExpr(bo.Y, val, 0) && ld(bo.X) {
						return true
					}
				}
			}
		}
		if b == r.header {
			break
		}
	}
	return false
}

func pureExternal(n string) bool {
	for _, s := range []string{"strings.", "strconv.", "path/filepath.", "path.", "unicode", "maps.", "cmp.", "fmt.Sprint", "fmt.Errorf", "errors.", "(*regexp.Regexp).", "regexp.", "os.Getenv", "os.LookupEnv", "os.Stat", "os.Lstat", "os.ReadFile", "math.", "time.", "(time.", "slices."} {
		if strings.HasPrefix(n, s) {
			return true
		}
	}
	return false
}

func logsOrPrints(n string) bool {
	return printer(n) || strings.HasPrefix(n, logPkg+".Debug") || strings.HasPrefix(n, "(*"+logPkg+".Logger).Debug") || strings.HasPrefix(n, "log.Print") || strings.HasPrefix(n, "builtin.print") || strings.HasPrefix(n, "log/slog.")
}

type sumry struct{ filled []int }

func (r *region) call(x *ssa.Call) {
	c := r.c
	p := c.p
	n := p.CalleeName(&x.Call)
	a := x.Call.Args
	switch {
	case strings.HasPrefix(n, "builtin."):
		if strings.HasPrefix(n, "builtin.print") {
			r.bad(x.Pos(), "something is printed for each element")
		}
		if n == "builtin.copy" && r.outer(a[0]) && r.label(a[1])&lDep != 0 {
			r.bad(x.Pos(), "the value kept depends on which element comes last")
		}
		return
	case effectKind(n) != "" || logsOrPrints(n):
		if strings.HasPrefix(n, "fmt.Fprint") && len(a) > 0 && !r.outer(a[0]) {
			return
		}
		r.bad(x.Pos(), "%s is called for each element, in the order of the loop", n)
		return
	case strings.HasPrefix(n, "slices."), strings.HasPrefix(n, "sort."):
		return
	case pureExternal(n):
		return
	}
	var targets []*ssa.Function
	if g := x.Call.StaticCallee(); g != nil {
		targets = []*ssa.Function{g}
	} else if !x.Call.IsInvoke() {
		targets = p.dynTargets(x.Call.Value)
	} else {
		for _, g := range p.methodsNamed(x.Call.Method) {
			if types.Implements(g.Signature.Recv().Type(), x.Call.Value.Type().Underlying().(*types.Interface)) {
				targets = append(targets, g)
			}
		}
	}
	known := len(targets) > 0
	for _, g := range targets {
		if g.Blocks == nil || !p.InRepo(g) && g.Synthetic == "" {
			known = false
		}
	}
	if !known {
		recv := a
		if x.Call.IsInvoke() {
			recv = append([]ssa.Value{x.Call.Value}, a...)
		}
		for _, v := range recv {
			if r.outer(v) {
				r.bad(x.Pos(), "%s acts on something shared, in the order of the loop", strings.TrimPrefix(n, "invoke "))
				return
			}
		}
		return
	}
	for _, g := range targets {
		args := a
		if x.Call.IsInvoke() {
			args = append([]ssa.Value{x.Call.Value}, a...)
		}
		key := p.FnName(g)
		sub := &region{c: c, fn: g, seeds: map[ssa.Value]int{}, what: r.what, pos: x.Pos(), callee: true, depth: r.depth + 1}
		for i, prm := range g.Params {
			l := 0
			if i < len(args) {
				l = r.label(args[i])
				if r.label(addrRoot(args[i]))&lOwn != 0 {
					l |= lOwn
				}
			}
			sub.seeds[prm] = l
			key += "/" + itoa(l)
		}
		if c.busy[key] || r.depth > 8 {
			continue
		}
		c.busy[key] = true
		sub.run()
		delete(c.busy, key)
		for _, v := range sub.filled {
			for i, prm := range g.Params {
				if addrRoot(v) == ssa.Value(prm) && i < len(args) {
					r.filled = append(r.filled, args[i])
				}
			}
			if fv, ok := v.(*ssa.FreeVar); ok {
				for _, bd := range p.index().binds[fv] {
					if bd.Parent() == r.fn {
						r.filled = append(r.filled, bd)
					}
					if f2, ok := bd.(*ssa.FreeVar); ok {
						r.filled = append(r.filled, f2)
					}
				}
			}
		}
		r.fields = append(r.fields, sub.fields...)
	}
}

// ---- driver -------------------------------------------------------------------

func runC22(ctx *Ctx) {
	goos := ctx.goosList()[0]
	p := ctx.Prog(goos)
	ctx.GOOSList = append(ctx.GOOSList, goos)
	e := NewEngine(p, &Client{Name: "C22"})
	c := &c22{p: p, e: e, cls: map[*ssa.Function]*uf{}, seenOrigin: map[string]bool{}, retDirty: map[*ssa.Function]map[int]bool{}, fieldDirty: map[string]bool{}, parDirty: map[ssa.Value]bool{}, loopsDone: map[string]bool{}, sortsMemo: map[string]int{}, busy: map[string]bool{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						c.mapRange(fn, x)
					}
				case *ssa.Call:
					c.iterCall(fn, b, i, x)
				}
			}
		}
	}
	for n := 0; len(c.queue) > 0; n++ {
		f := c.queue[0]
		c.queue = c.queue[1:]
		f()
		if n > 20000 {
			e.Undecided("the flow of lists in map order did not settle")
			break
		}
	}
	for _, fn := range p.Funcs {
		e.Funcs[fn] = true
	}
	ctx.Absorb(e)
}

func (c *c22) mapRange(fn *ssa.Function, x *ssa.Range) {
	for _, rf := range *x.Referrers() {
		nx, ok := rf.(*ssa.Next)
		if !ok {
			continue
		}
		c.e.Count("loop over a map")
		hdr := nx.Block()
		seeds := map[ssa.Value]int{}
		for _, u := range *nx.Referrers() {
			if ex, ok := u.(*ssa.Extract); ok {
				switch ex.Index {
				case 1:
					seeds[ex] = lDep | lInj
				case 2:
					seeds[ex] = lDep
				}
			}
		}
		body := c.p.Loops(fn).header[hdr]
		if body == nil {
			// the body never comes round: only the first element is looked at
			for v := range seeds {
				if len(*v.Referrers()) > 0 {
					c.e.Report(nil, "loop/"+c.p.FnName(fn), x.Pos(), "only one element of a map is looked at, and which one is not fixed")
					break
				}
			}
			continue
		}
		c.loop(&unordLoop{fn: fn, header: hdr, body: body, seeds: seeds, pos: x.Pos(), what: "a map"})
	}
}

// iterCall: maps.Keys and the like.
func (c *c22) iterCall(fn *ssa.Function, b *ssa.BasicBlock, i int, x *ssa.Call) {
	n := c.p.CalleeName(&x.Call)
	switch n {
	case "maps.Keys", "maps.Values", "maps.All":
		c.e.Count("loop over a map")
		c.dirty(fn, b, i+1, ssa.Value(x))
	case "(*sync.Map).Range":
		for _, g := range c.p.dynTargets(x.Call.Args[1]) {
			c.yieldBody(fn, x, g)
		}
	case "(reflect.Value).MapKeys":
		c.dirty(fn, b, i+1, ssa.Value(x))
	}
}
