package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C17",
		Technique: "ownership and lockset analysis over SSA, context-sensitive in what each call is given, of everything reachable from every go statement, with the starting function's accesses while the goroutines run",
		Explain:   "Everything a goroutine can reach is classified as made by that goroutine or shared with others (captured variables, what they lead to, globals, what shared objects hold). Each write to shared memory must hold a lock (or be in a once), or go to the goroutine's own element of a list; a location written under a lock is only read under it. Appending to, sorting or filling shared lists, maps and buffers are writes; changing the working directory or environment of the process from an item is reported. While goroutines run, the function that started them does not write what they captured.",
		Run:       runC17,
		Floors:    map[string]int{"go statement": 4, "write under lock": 4, "write to own element": 1, "functions in goroutines": 20},
	})
}

type c17 struct {
	p      *Prog
	e      *Engine
	root   *ssa.Go
	rootFn *ssa.Function
	multi  bool
	hand   bool
	done   map[string]bool
	work   []*raceCtx
	locks  map[*ssa.Function]*lockFlow
	writes map[string]map[string]bool // location -> common locks
	reads  []raceRead
	funcs  map[*ssa.Function]bool
	net    map[*ssa.Function]map[string]bool
	busy   map[string]bool
}

type raceRead struct {
	key   string
	locks map[string]bool
	pos   token.Pos
	fn    *ssa.Function
}

type raceCtx struct {
	fn    *ssa.Function
	sh    map[ssa.Value]bool // shared parameters and captured variables
	own   map[ssa.Value]bool // integers that are the goroutine's own index
	locks map[string]bool
	memo  map[ssa.Value]bool
	loc   map[ssa.Value]string // what a parameter points into, when it is part of something larger
	depth int
}

func (x *raceCtx) key(p *Prog) string {
	s := []string{p.FnName(x.fn)}
	for i, v := range x.fn.Params {
		if x.sh[v] {
			s = append(s, "p"+itoa(i))
		}
		if x.own[v] {
			s = append(s, "o"+itoa(i))
		}
		if l := x.loc[v]; l != "" {
			s = append(s, l)
		}
	}
	for i, v := range x.fn.FreeVars {
		if x.sh[v] {
			s = append(s, "f"+itoa(i))
		}
		if x.own[v] {
			s = append(s, "w"+itoa(i))
		}
	}
	s = append(s, lockStr(x.locks))
	return strings.Join(s, ",")
}

func lockStr(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, "+")
}

// ---- locks --------------------------------------------------------------------

func (c *c17) lockTok(v ssa.Value) string {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return fieldKey(x)
		case *ssa.UnOp:
			v = x.X
		case *ssa.FreeVar:
			b := c.p.index().binds[x]
			if len(b) == 0 {
				return "free:" + x.Name()
			}
			v = b[0]
		case *ssa.Alloc:
			return "local:" + c.p.FnName(x.Parent()) + ":" + x.Name()
		case *ssa.Global:
			return "global:" + x.String()
		case *ssa.Parameter:
			return "par:" + x.Type().String()
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Phi:
			v = x.Edges[0]
		default:
			return v.Name()
		}
	}
	return v.Name()
}

type lockFlow struct{ in []map[string]bool } // per block; nil: unreached

func lockOp(n string) (lock, unlock bool) {
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "invoke (sync.Locker).Lock":
		return true, false
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "invoke (sync.Locker).Unlock":
		return false, true
	}
	return false, false
}

func (c *c17) stepLocks(ins ssa.Instruction, m map[string]bool) {
	call, ok := ins.(*ssa.Call)
	if !ok {
		return
	}
	n := c.p.CalleeName(&call.Call)
	l, u := lockOp(n)
	if l || u {
		var a ssa.Value
		if call.Call.IsInvoke() {
			a = call.Call.Value
		} else {
			a = call.Call.Args[0]
		}
		t := c.lockTok(a)
		if strings.Contains(n, "RLock") || strings.Contains(n, "RUnlock") {
			t += "#r"
		}
		if l {
			m[t] = true
		} else {
			delete(m, t)
		}
		return
	}
	if g := call.Call.StaticCallee(); g != nil && g.Blocks != nil && c.p.InRepo(g) {
		for t, v := range c.netLocks(g) {
			if v {
				m[t] = true
			} else {
				delete(m, t)
			}
		}
	}
}

// netLocks: locks a call leaves held (true) or released (false).
func (c *c17) netLocks(g *ssa.Function) map[string]bool {
	if r, ok := c.net[g]; ok {
		return r
	}
	c.net[g] = nil
	has := false
	deferred := map[string]bool{}
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if l, u := lockOp(c.p.CalleeName(ci.Common())); l || u {
					has = true
					if _, d := ins.(*ssa.Defer); d && u && len(ci.Common().Args) > 0 {
						deferred[c.lockTok(ci.Common().Args[0])] = true
					}
				}
			}
		}
	}
	if !has {
		return nil
	}
	r := map[string]bool{}
	lf := c.flow(g)
	first := true
	for _, b := range g.Blocks {
		if lf.in[b.Index] == nil {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
			continue
		}
		m := copySet(lf.in[b.Index])
		for _, ins := range b.Instrs {
			c.stepLocks(ins, m)
		}
		for t := range deferred {
			delete(m, t)
			delete(m, t+"#r")
		}
		if first {
			for t := range m {
				r[t] = true
			}
			first = false
		} else {
			for t := range r {
				if !m[t] {
					delete(r, t)
				}
			}
		}
	}
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(*ssa.Call); ok {
				if _, u := lockOp(c.p.CalleeName(&call.Call)); u && len(call.Call.Args) > 0 {
					if t := c.lockTok(call.Call.Args[0]); !r[t] {
						r[t] = false
					}
				}
			}
		}
	}
	c.net[g] = r
	return r
}

func copySet(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k, v := range m {
		if v {
			r[k] = true
		}
	}
	return r
}

func (c *c17) flow(fn *ssa.Function) *lockFlow {
	if l, ok := c.locks[fn]; ok {
		return l
	}
	l := &lockFlow{in: make([]map[string]bool, len(fn.Blocks))}
	c.locks[fn] = l
	l.in[0] = map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			if l.in[b.Index] == nil {
				continue
			}
			m := copySet(l.in[b.Index])
			for _, ins := range b.Instrs {
				c.stepLocks(ins, m)
			}
			for _, s := range b.Succs {
				if l.in[s.Index] == nil {
					l.in[s.Index] = copySet(m)
					ch = true
					continue
				}
				for t := range l.in[s.Index] {
					if !m[t] {
						delete(l.in[s.Index], t)
						ch = true
					}
				}
			}
		}
	}
	return l
}

func (c *c17) locksAt(ins ssa.Instruction) map[string]bool {
	l := c.flow(ins.Parent())
	m := copySet(l.in[ins.Block().Index])
	for _, x := range ins.Block().Instrs {
		if x == ins {
			break
		}
		c.stepLocks(x, m)
	}
	return m
}

// ---- ownership ------------------------------------------------------------------

func ptrLike(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if ptrLike(x.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return ptrLike(x.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

// shared: v leads to memory other goroutines have, too.
func (c *c17) shared(x *raceCtx, v ssa.Value) bool {
	if v == nil {
		return false
	}
	if r, ok := x.memo[v]; ok {
		return r
	}
	x.memo[v] = false
	r := c.sharedV(x, v)
	if r {
		x.memo[v] = true
	} else {
		delete(x.memo, v)
		x.memo[v] = false
	}
	return r
}

func (c *c17) sharedV(x *raceCtx, v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure:
		return false
	case *ssa.Global:
		return true
	case *ssa.Parameter, *ssa.FreeVar:
		return x.sh[v]
	case *ssa.FieldAddr:
		return c.shared(x, y.X)
	case *ssa.IndexAddr:
		return c.shared(x, y.X)
	case *ssa.Slice:
		return c.shared(x, y.X)
	case *ssa.ChangeType:
		return c.shared(x, y.X)
	case *ssa.ChangeInterface:
		return c.shared(x, y.X)
	case *ssa.MakeInterface:
		return c.shared(x, y.X)
	case *ssa.TypeAssert:
		return c.shared(x, y.X)
	case *ssa.Convert:
		if sliceOrPtr(y.X.Type()) && sliceOrPtr(y.Type()) {
			return c.shared(x, y.X)
		}
		return false
	case *ssa.Phi:
		for _, e := range y.Edges {
			if c.shared(x, e) {
				return true
			}
		}
		return false
	case *ssa.Extract:
		if call, ok := y.Tuple.(*ssa.Call); ok {
			return c.callShared(x, call, y.Index)
		}
		return ptrLike(y.Type()) && c.shared(x, y.Tuple)
	case *ssa.Field:
		return ptrLike(y.Type()) && c.shared(x, y.X)
	case *ssa.Index:
		return ptrLike(y.Type()) && c.shared(x, y.X)
	case *ssa.Lookup:
		return ptrLike(y.Type()) && c.shared(x, y.X)
	case *ssa.Next:
		return c.shared(x, y.Iter)
	case *ssa.Range:
		return c.shared(x, y.X)
	case *ssa.UnOp:
		if y.Op == token.ARROW {
			return ptrLike(y.Type())
		}
		if y.Op != token.MUL || !ptrLike(y.Type()) {
			return false
		}
		if c.shared(x, y.X) {
			return true
		}
		return c.loadShared(x, y.X)
	case *ssa.Call:
		if !ptrLike(y.Type()) {
			return false
		}
		return c.callShared(x, y, 0)
	}
	return false
}

func sliceOrPtr(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Pointer:
		return true
	}
	return false
}

// loadShared: what is held by memory of the goroutine's own.
func (c *c17) loadShared(x *raceCtx, addr ssa.Value) bool {
	switch y := addr.(type) {
	case *ssa.Alloc:
		for _, r := range *y.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == addr && c.shared(x, st.Val) {
				return true
			}
		}
		return false
	case *ssa.FieldAddr:
		k := fieldKey(y)
		if root := addrRoot(y.X); true {
			if al, ok := root.(*ssa.Alloc); ok && al == y.X {
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == y.Field {
						for _, r2 := range *fa.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && c.shared(x, st.Val) {
								return true
							}
						}
					}
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && c.shared(x, st.Val) {
						return true
					}
				}
				return false
			}
		}
		for _, st := range c.p.index().stores[k] {
			if !c.localFresh(st.Val, 0) {
				return true
			}
		}
		return false
	case *ssa.IndexAddr:
		if al, ok := addrRoot(y.X).(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && c.shared(x, st.Val) {
							return true
						}
					}
				}
			}
		}
	case *ssa.FreeVar:
		for _, b := range c.p.index().binds[y] {
			if al, ok := b.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && !c.localFresh(st.Val, 0) {
						return true
					}
				}
			}
		}
	}
	return false
}

// localFresh: made right there.
func (c *c17) localFresh(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	if !ptrLike(v.Type()) {
		return true
	}
	switch y := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure:
		return true
	case *ssa.MakeInterface:
		return c.localFresh(y.X, d+1)
	case *ssa.ChangeType:
		return c.localFresh(y.X, d+1)
	case *ssa.Slice:
		return c.localFresh(y.X, d+1)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if e != v && !c.localFresh(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return c.localFresh(y.Tuple, d+1)
	case *ssa.Call:
		n := c.p.CalleeName(&y.Call)
		if n == "builtin.append" {
			return c.localFresh(y.Call.Args[0], d+1)
		}
		return !strings.HasPrefix(n, "invoke ")
	case *ssa.UnOp:
		// a field that grows from itself
		if y.Op == token.MUL && fieldKey(y.X) != "" {
			return true
		}
	}
	return false
}

func (c *c17) callShared(x *raceCtx, call *ssa.Call, res int) bool {
	n := c.p.CalleeName(&call.Call)
	a := call.Call.Args
	switch {
	case n == "builtin.append":
		return c.shared(x, a[0]) && !noRoom(c.p, a[0])
	case n == "builtin.ssa:wrapnilchk":
		return c.shared(x, a[0])
	case strings.HasPrefix(n, "slices.") && passesOn[strings.TrimPrefix(n, "slices.")]:
		return c.shared(x, a[0])
	}
	g := call.Call.StaticCallee()
	if g == nil || g.Blocks == nil || !(c.p.InRepo(g) || g.Synthetic != "") {
		return false
	}
	if x.depth > 6 {
		return false
	}
	y := c.calleeCtx(x, g, a, nil, nil)
	k := y.key(c.p) + "#" + itoa(res)
	if c.busy[k] {
		return false
	}
	c.busy[k] = true
	defer delete(c.busy, k)
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(ret.Results) && c.shared(y, ret.Results[res]) {
			return true
		}
	}
	return false
}

// noRoom: appending to it makes a copy.
func noRoom(p *Prog, v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Slice:
		return y.Max != nil
	case *ssa.Call:
		n := p.CalleeName(&y.Call)
		return n == "slices.Clip" || n == "slices.Clone"
	}
	return false
}

func (c *c17) calleeCtx(x *raceCtx, g *ssa.Function, args []ssa.Value, mc *ssa.MakeClosure, locks map[string]bool) *raceCtx {
	y := &raceCtx{fn: g, sh: map[ssa.Value]bool{}, own: map[ssa.Value]bool{}, locks: locks, memo: map[ssa.Value]bool{}, loc: map[ssa.Value]string{}, depth: x.depth + 1}
	for i, prm := range g.Params {
		if i < len(args) {
			if c.shared(x, args[i]) {
				y.sh[prm] = true
			}
			if l := c.within(x, args[i]); l != "" {
				y.loc[prm] = l
			}
			if c.ownIdx(x, args[i]) {
				y.own[prm] = true
			}
		}
	}
	if mc != nil {
		for i, fv := range g.FreeVars {
			b := mc.Bindings[i]
			if c.shared(x, b) {
				y.sh[fv] = true
			}
			if x.own[b] {
				y.own[fv] = true
			}
			if al, ok := b.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == b && c.ownIdx(x, st.Val) {
						y.own[fv] = true
					}
				}
			}
		}
	}
	return y
}

// ownIdx: an integer no other goroutine of the same statement has.
func (c *c17) ownIdx(x *raceCtx, v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return x.own[v]
	case *ssa.UnOp:
		return y.Op == token.MUL && c.ownIdx(x, y.X)
	case *ssa.Alloc:
		n, ok := 0, false
		for _, r := range *y.Referrers() {
			if st, k := r.(*ssa.Store); k && st.Addr == v {
				n++
				ok = c.ownIdx(x, st.Val)
			}
		}
		return n == 1 && ok
	}
	return false
}

func (c *c17) ownElem(x *raceCtx, addr ssa.Value) bool {
	for {
		switch y := addr.(type) {
		case *ssa.FieldAddr:
			addr = y.X
		case *ssa.IndexAddr:
			return c.ownIdx(x, y.Index)
		default:
			return false
		}
	}
}

// ---- effects ----------------------------------------------------------------------

// locKey names a shared location by what it is.
func (c *c17) locKey(x *raceCtx, v ssa.Value) string {
	pre := ""
	for i := 0; i < 12; i++ {
		switch y := v.(type) {
		case *ssa.FieldAddr:
			return pre + c.within(x, y.X) + fieldKey(y)
		case *ssa.IndexAddr:
			pre += "elem:"
			v = y.X
		case *ssa.UnOp:
			v = y.X
		case *ssa.Slice:
			v = y.X
		case *ssa.ChangeType:
			v = y.X
		case *ssa.Global:
			return pre + y.String()
		case *ssa.FreeVar:
			b := c.p.index().binds[y]
			if len(b) == 0 {
				return pre + y.Name()
			}
			v = b[0]
		case *ssa.Alloc:
			return pre + c.p.FnName(y.Parent()) + ":" + y.Name()
		case *ssa.Parameter:
			return pre + y.Type().String()
		default:
			return pre + v.Type().String()
		}
	}
	return pre + v.Type().String()
}

// within names the object a pointer points into, when it is a part of another.
func (c *c17) within(x *raceCtx, v ssa.Value) string {
	switch y := v.(type) {
	case *ssa.FieldAddr:
		return fieldKey(y) + ">"
	case *ssa.Parameter:
		return x.loc[y]
	}
	return ""
}

func (c *c17) write(x *raceCtx, ins ssa.Instruction, key string, what string) {
	locks := c.locksAt(ins)
	for t := range x.locks {
		locks[t] = true
	}
	excl := map[string]bool{}
	for t := range locks {
		if !strings.HasSuffix(t, "#r") {
			excl[t] = true
		}
	}
	if len(excl) == 0 {
		if c.hand && !c.multi {
			return // handed over by a channel or wait group
		}
		c.e.Report(nil, "race/"+c.p.FnName(x.fn), ins.Pos(), "%s is shared by goroutines that run at the same time, and %s holds no lock", what, c.p.FnName(x.fn))
		return
	}
	c.e.Count("write under lock")
	if m, ok := c.writes[key]; ok {
		for t := range m {
			if !excl[t] {
				delete(m, t)
			}
		}
		if len(m) == 0 {
			c.e.Report(nil, "race/"+c.p.FnName(x.fn), ins.Pos(), "%s is written under different locks", what)
		}
	} else {
		c.writes[key] = excl
	}
}

func (c *c17) read(x *raceCtx, ins ssa.Instruction, key string) {
	locks := c.locksAt(ins)
	for t := range x.locks {
		locks[t] = true
	}
	c.reads = append(c.reads, raceRead{key, locks, ins.Pos(), x.fn})
}

func describe(v ssa.Value) string {
	switch y := v.(type) {
	case *ssa.FieldAddr:
		return "the field " + structOf(ptrElem(y.X.Type())).Field(y.Field).Name()
	case *ssa.FreeVar:
		return "the captured variable " + y.Name()
	case *ssa.Global:
		return "the global " + y.Name()
	case *ssa.IndexAddr:
		return "an element of a list"
	}
	return "memory of type " + v.Type().String()
}

func mutatingExternal(n string) (arg int, ok bool) {
	switch {
	case strings.HasPrefix(n, "(*bytes.Buffer)."), strings.HasPrefix(n, "(*strings.Builder).") && !strings.HasSuffix(n, ").String") && !strings.HasSuffix(n, ").Len"),
		strings.HasPrefix(n, "(*bufio.Writer)."), strings.HasPrefix(n, "(*math/rand.Rand)."):
		return 0, true
	case isSort(n), n == "slices.Reverse", strings.HasPrefix(n, "maps.Copy"), strings.HasPrefix(n, "maps.DeleteFunc"), strings.HasPrefix(n, "maps.Insert"), n == "slices.Delete", n == "slices.Insert", n == "slices.Compact":
		return 0, true
	}
	return 0, false
}

func (c *c17) visit(x *raceCtx) {
	k := x.key(c.p)
	if c.done[k] {
		return
	}
	c.done[k] = true
	c.work = append(c.work, x)
}

func (c *c17) analyse(x *raceCtx) {
	p := c.p
	fn := x.fn
	c.funcs[fn] = true
	c.e.Funcs[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.Store:
				if !c.shared(x, y.Addr) {
					continue
				}
				if c.ownElem(x, y.Addr) {
					c.e.Count("write to own element")
					continue
				}
				c.write(x, ins, c.locKey(x, y.Addr), describe(y.Addr))
			case *ssa.MapUpdate:
				if c.shared(x, y.Map) {
					c.write(x, ins, "map:"+c.locKey(x, y.Map), "a map ("+y.Map.Type().String()+")")
				}
			case *ssa.Lookup:
				if c.shared(x, y.X) {
					c.read(x, ins, "map:"+c.locKey(x, y.X))
				}
			case *ssa.Range:
				if c.shared(x, y.X) {
					c.read(x, ins, "map:"+c.locKey(x, y.X))
				}
			case *ssa.UnOp:
				if y.Op == token.MUL && c.shared(x, y.X) && !c.ownElem(x, y.X) {
					c.read(x, ins, c.locKey(x, y.X))
				}
			case *ssa.MakeClosure:
				c.closure(x, y)
			case ssa.CallInstruction:
				if _, g := ins.(*ssa.Go); g {
					continue // has its own analysis
				}
				c.callIn(x, y)
			}
			_ = p
		}
	}
}

func (c *c17) ctxLocks(x *raceCtx, ins ssa.Instruction) map[string]bool {
	l := c.locksAt(ins)
	for t := range x.locks {
		l[t] = true
	}
	return l
}

// closure: the body of a function literal, with the locks it is called under.
func (c *c17) closure(x *raceCtx, mc *ssa.MakeClosure) {
	g := mc.Fn.(*ssa.Function)
	var sets []map[string]bool
	unknown := false
	var uses func(v ssa.Value, d int)
	uses = func(v ssa.Value, d int) {
		if d > 4 {
			unknown = true
			return
		}
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.Go:
			case ssa.CallInstruction:
				cc := u.Common()
				ls := c.ctxLocks(x, u)
				if cc.Value == v && !cc.IsInvoke() {
					sets = append(sets, ls)
					continue
				}
				n := c.p.CalleeName(cc)
				if n == "(*sync.Once).Do" {
					ls["once:"+c.lockTok(cc.Args[0])] = true
				} else if h := cc.StaticCallee(); h != nil && h.Blocks != nil && c.p.InRepo(h) {
					for i, a := range cc.Args {
						if a == v && i < len(h.Params) {
							for t := range c.heldAtCalls(h, h.Params[i]) {
								ls[t] = true
							}
						}
					}
				}
				sets = append(sets, ls)
			case *ssa.Store:
				if al, ok := u.Addr.(*ssa.Alloc); ok && u.Val == v {
					for _, r2 := range *al.Referrers() {
						switch w := r2.(type) {
						case *ssa.UnOp:
							uses(w, d+1)
						case *ssa.MakeClosure:
							unknown = true
						}
					}
				} else if u.Val == v {
					unknown = true
				}
			case *ssa.MakeInterface:
				uses(u, d+1)
			case *ssa.ChangeType:
				uses(u, d+1)
			case *ssa.Phi:
				uses(u, d+1)
			case *ssa.DebugRef:
			default:
				unknown = true
			}
		}
	}
	uses(mc, 0)
	locks := map[string]bool{}
	if !unknown && len(sets) > 0 {
		locks = sets[0]
		for _, s := range sets[1:] {
			for t := range locks {
				if !s[t] {
					delete(locks, t)
				}
			}
		}
	}
	onlyGo := true
	for _, r := range *mc.Referrers() {
		if _, ok := r.(*ssa.Go); !ok {
			onlyGo = false
		}
	}
	if onlyGo && len(*mc.Referrers()) > 0 {
		return
	}
	c.visit(c.calleeCtx(x, g, nil, mc, locks))
}

// heldAtCalls: the locks a function holds whenever it calls its parameter.
func (c *c17) heldAtCalls(h *ssa.Function, prm ssa.Value) map[string]bool {
	var r map[string]bool
	for _, b := range h.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().Value == prm && !ci.Common().IsInvoke() {
				l := c.locksAt(ins)
				if r == nil {
					r = l
				} else {
					for t := range r {
						if !l[t] {
							delete(r, t)
						}
					}
				}
			}
		}
	}
	return r
}

func (c *c17) callIn(x *raceCtx, ci ssa.CallInstruction) {
	p := c.p
	cc := ci.Common()
	n := p.CalleeName(cc)
	a := cc.Args
	switch {
	case n == "builtin.append":
		if c.shared(x, a[0]) {
			if noRoom(p, a[0]) {
				return
			}
			c.write(x, ci, "elem:"+c.locKey(x, a[0]), "the memory behind a list that is appended to")
		}
		return
	case n == "builtin.delete", n == "builtin.clear":
		if c.shared(x, a[0]) {
			c.write(x, ci, "map:"+c.locKey(x, a[0]), "a map ("+a[0].Type().String()+")")
		}
		return
	case n == "builtin.copy":
		if c.shared(x, a[0]) {
			c.write(x, ci, "elem:"+c.locKey(x, a[0]), "a list")
		}
		return
	case strings.HasPrefix(n, "builtin."):
		return
	}
	if effectKind(n) == "process-state" {
		c.e.Report(nil, "process/"+p.FnName(x.fn), ci.Pos(), "%s changes the whole process while other items run", n)
		return
	}
	if i, ok := mutatingExternal(n); ok && len(a) > i {
		if c.shared(x, a[i]) {
			c.write(x, ci, "ext:"+c.locKey(x, a[i]), "memory changed by "+n)
		}
		return
	}
	locks := c.ctxLocks(x, ci)
	if cc.IsInvoke() {
		for _, g := range p.methodsNamed(cc.Method) {
			if g.Blocks == nil || g.Signature.Recv() == nil {
				continue
			}
			it, ok := cc.Value.Type().Underlying().(*types.Interface)
			if !ok || !types.Implements(g.Signature.Recv().Type(), it) {
				continue
			}
			if p.InRepo(g) || g.Synthetic != "" {
				c.visit(c.calleeCtx(x, g, append([]ssa.Value{cc.Value}, a...), nil, locks))
			}
		}
		return
	}
	if g := cc.StaticCallee(); g != nil {
		if g.Blocks != nil && (p.InRepo(g) || g.Synthetic != "") {
			if _, mc := cc.Value.(*ssa.MakeClosure); mc {
				return // handled where it is made
			}
			c.visit(c.calleeCtx(x, g, a, nil, locks))
			return
		}
	}
	if f := externalFunc(cc); f != nil && !cc.IsInvoke() {
		for i, v := range a {
			t := concreteNamed(v.Type())
			if t == nil || p.repoStruct(t) || concurrencySafe(t) || !c.shared(x, v) {
				continue
			}
			recv := i == 0 && f.Signature().Recv() != nil
			if recv && !extMutates(p, f, map[*types.Func]bool{}) {
				continue
			}
			if !recv && !hasMutator(p, t) {
				continue
			}
			c.write(x, ci, "ext:"+c.locKey(x, v), "memory changed by "+n)
		}
	}
	// a writer handed to code outside the repository
	for _, v := range a {
		it, ok := v.Type().Underlying().(*types.Interface)
		if !ok || it.NumMethods() == 0 {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			for _, g := range p.methodsNamed(it.Method(i)) {
				if g.Blocks == nil || g.Signature.Recv() == nil || !types.Implements(g.Signature.Recv().Type(), it) || !(p.InRepo(g) || g.Synthetic != "") {
					continue
				}
				c.visit(c.calleeCtx(x, g, []ssa.Value{v}, nil, locks))
			}
		}
	}
	if cc.Value != nil {
		if _, ok := cc.Value.(*ssa.Function); !ok {
			for _, g := range p.dynTargets(cc.Value) {
				if len(g.FreeVars) == 0 {
					c.visit(c.calleeCtx(x, g, a, nil, locks))
				}
			}
		}
	}
}

// ---- the function that starts goroutines -----------------------------------------

// parent: between the go statement and the wait, what the goroutine captured
// is not written.
func (c *c17) parent(g *ssa.Go) {
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return
	}
	cells := map[ssa.Value]bool{}
	for _, b := range mc.Bindings {
		cells[b] = true
	}
	fn := g.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, pc int, live map[ssa.Value]bool)
	walk = func(b *ssa.BasicBlock, pc int, live map[ssa.Value]bool) {
		for ; pc < len(b.Instrs); pc++ {
			switch x := b.Instrs[pc].(type) {
			case *ssa.Alloc:
				if live[x] {
					live = cloneVals(live)
					delete(live, x) // a new variable for the next round
				}
			case *ssa.Store:
				if live[x.Addr] && len(c.locksAt(x)) == 0 {
					c.e.Report(nil, "parent/"+c.p.FnName(fn), x.Pos(), "%s is written while a goroutine that captured it may be running", x.Addr.Name())
				}
			case *ssa.MapUpdate:
				if ld, ok := x.Map.(*ssa.UnOp); ok && live[ld.X] && len(c.locksAt(x)) == 0 {
					c.e.Report(nil, "parent/"+c.p.FnName(fn), x.Pos(), "a map is written while a goroutine that captured it may be running")
				}
			case ssa.CallInstruction:
				if n := c.p.CalleeName(x.Common()); n == "(*sync.WaitGroup).Wait" || strings.HasSuffix(n, "errgroup.Group).Wait") {
					return
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && !c.multi {
					return
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0, live)
			}
		}
	}
	walk(g.Block(), instrIdx(g)+1, cells)
}

func cloneVals(m map[ssa.Value]bool) map[ssa.Value]bool {
	r := map[ssa.Value]bool{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func runC17(ctx *Ctx) {
	for _, goos := range ctx.goosList() {
		p := ctx.Prog(goos)
		ctx.GOOSList = append(ctx.GOOSList, goos)
		e := NewEngine(p, &Client{Name: "C17"})
		all := map[*ssa.Function]bool{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Go:
						c17Go(p, e, x, x.Call.Value, x.Call.Args, all)
					case *ssa.Call:
						n := p.CalleeName(&x.Call)
						if n == "(*sync.WaitGroup).Go" || strings.HasSuffix(n, "errgroup.Group).Go") {
							c17Go(p, e, nil, x.Call.Args[1], nil, all)
						}
					}
				}
			}
		}
		for range all {
			e.Count("functions in goroutines")
		}
		ctx.Absorb(e)
	}
}

func c17Go(p *Prog, e *Engine, g *ssa.Go, val ssa.Value, args []ssa.Value, all map[*ssa.Function]bool) {
	e.Count("go statement")
	c := &c17{p: p, e: e, root: g, done: map[string]bool{}, locks: map[*ssa.Function]*lockFlow{}, writes: map[string]map[string]bool{}, funcs: map[*ssa.Function]bool{}, net: map[*ssa.Function]map[string]bool{}, busy: map[string]bool{}}
	var body *ssa.Function
	mc, _ := val.(*ssa.MakeClosure)
	switch y := val.(type) {
	case *ssa.MakeClosure:
		body = y.Fn.(*ssa.Function)
	case *ssa.Function:
		body = y
	default:
		for _, t := range p.dynTargets(val) {
			body = t
		}
	}
	if g != nil && g.Call.IsInvoke() {
		for _, t := range p.methodsNamed(g.Call.Method) {
			if t.Blocks != nil && p.InRepo(t) {
				body = t
			}
		}
	}
	if body == nil || body.Blocks == nil || !p.InRepo(body) {
		return
	}
	var parent *ssa.Function
	var blk *ssa.BasicBlock
	if g != nil {
		parent, blk = g.Parent(), g.Block()
	} else if mc != nil {
		parent, blk = mc.Parent(), mc.Block()
	}
	inLoop := false
	if parent != nil {
		for _, bd := range p.Loops(parent).header {
			if bd[blk] {
				inLoop = true
			}
		}
		top := parent
		for top.Parent() != nil {
			top = top.Parent()
		}
		c.multi = inLoop || p.ReachableFrom(body)[top]
		// a helper that starts one goroutine, called in a loop
		for _, ci := range p.index().calls[parent] {
			for _, bd := range p.Loops(ci.Parent()).header {
				if bd[ci.Block()] {
					c.multi = true
				}
			}
		}
	}
	for _, b := range body.Blocks {
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.Send:
				c.hand = true
			case ssa.CallInstruction:
				if n := p.CalleeName(y.Common()); n == "builtin.close" || n == "(*sync.WaitGroup).Done" {
					c.hand = true
				}
			}
		}
	}
	x := &raceCtx{fn: body, sh: map[ssa.Value]bool{}, own: map[ssa.Value]bool{}, locks: map[string]bool{}, memo: map[ssa.Value]bool{}}
	for i, prm := range body.Params {
		// what is handed to the goroutine is the starter's, too
		if ptrLike(prm.Type()) {
			x.sh[prm] = true
		}
		if i < len(args) && loopIndex(args[i]) {
			x.own[prm] = true
		}
	}
	for i, fv := range body.FreeVars {
		x.sh[fv] = true
		if mc != nil {
			if al, ok := mc.Bindings[i].(*ssa.Alloc); ok && inLoop && perRound(p, parent, al) {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && loopIndex(st.Val) {
						x.own[fv] = true
					}
				}
				// a variable of this round only: the goroutine may use it as
				// its own when nobody else does
				others := 0
				for _, r := range *al.Referrers() {
					if m2, ok := r.(*ssa.MakeClosure); ok && m2 != mc {
						others++
					}
				}
				if others == 0 {
					x.sh[fv] = false
					for _, r := range *al.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && ptrLike(st.Val.Type()) {
							x.sh[fv] = true // what it leads to may be shared
						}
					}
				}
			}
		}
	}
	c.visit(x)
	for n := 0; len(c.work) > 0 && n < 20000; n++ {
		y := c.work[0]
		c.work = c.work[1:]
		c.analyse(y)
	}
	for _, r := range c.reads {
		m, ok := c.writes[r.key]
		if !ok {
			continue
		}
		good := false
		for t := range m {
			if r.locks[t] || r.locks[t+"#r"] {
				good = true
			}
		}
		if !good {
			e.Report(nil, "read/"+p.FnName(r.fn), r.pos, "it is written under a lock (%s) by goroutines that run at the same time, and read here without it", lockStr(m))
		} else {
			e.Count("read under lock")
		}
	}
	if g != nil {
		c.parent(g)
	}
	for f := range c.funcs {
		all[f] = true
	}
}

func perRound(p *Prog, fn *ssa.Function, al *ssa.Alloc) bool {
	for _, bd := range p.Loops(fn).header {
		if bd[al.Block()] {
			return true
		}
	}
	return false
}

func loopIndex(v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && loopIndex(st.Val) {
					return true
				}
			}
		}
		return false
	}
	bt, ok := v.Type().Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsInteger != 0 && indexPhi(v) != nil
}

// ---- types from outside the repository ------------------------------------------

func externalFunc(cc *ssa.CallCommon) *types.Func {
	g := cc.StaticCallee()
	if g == nil {
		return nil
	}
	if o := g.Origin(); o != nil {
		g = o
	}
	f, _ := g.Object().(*types.Func)
	return f
}

// concreteNamed: T for a value of type *T, with T a struct.
func concreteNamed(t types.Type) *types.Named {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

// concurrencySafe: made to be used by several goroutines.
func concurrencySafe(n *types.Named) bool {
	if n.Obj().Pkg() == nil {
		return true
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "os", "context", "net/http", "log/slog":
		return true
	}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if _, ok := t.Underlying().(*types.Chan); ok {
			return true
		}
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if m, ok := types.Unalias(t).(*types.Named); ok && m.Obj().Pkg() != nil {
			if q := m.Obj().Pkg().Path(); q == "sync" || q == "sync/atomic" || strings.HasSuffix(m.Obj().Name(), "Mutex") {
				return true
			}
		}
	}
	return false
}

func hasMutator(p *Prog, n *types.Named) bool {
	for i := 0; i < n.NumMethods(); i++ {
		if extMutates(p, n.Method(i).Origin(), map[*types.Func]bool{}) {
			return true
		}
	}
	return false
}

// extMutates: by its source, the method assigns to what its pointer receiver
// leads to, itself or through another method of the receiver.
func extMutates(p *Prog, f *types.Func, seen map[*types.Func]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	pk, d := p.extDecl(f)
	if d == nil || d.Body == nil || d.Recv == nil || len(d.Recv.List) == 0 || len(d.Recv.List[0].Names) == 0 {
		return false
	}
	if _, ok := d.Recv.List[0].Type.(*ast.StarExpr); !ok {
		return false
	}
	self := pk.TypesInfo.Defs[d.Recv.List[0].Names[0]]
	onSelf := func(e ast.Expr) bool {
		deep := false
		for {
			switch y := e.(type) {
			case *ast.SelectorExpr:
				e, deep = y.X, true
			case *ast.IndexExpr:
				e, deep = y.X, true
			case *ast.StarExpr:
				e, deep = y.X, true
			case *ast.ParenExpr:
				e = y.X
			case *ast.Ident:
				return deep && self != nil && pk.TypesInfo.Uses[y] == self
			default:
				return false
			}
		}
	}
	res := false
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if onSelf(l) {
					res = true
				}
			}
		case *ast.IncDecStmt:
			if onSelf(y.X) {
				res = true
			}
		case *ast.CallExpr:
			if sel, ok := y.Fun.(*ast.SelectorExpr); ok {
				if id, ok := sel.X.(*ast.Ident); ok && self != nil && pk.TypesInfo.Uses[id] == self {
					if g, ok := pk.TypesInfo.Uses[sel.Sel].(*types.Func); ok && extMutates(p, g, seen) {
						res = true
					}
				}
			}
		}
		return !res
	})
	return res
}

func (p *Prog) extDecl(f *types.Func) (*packages.Package, *ast.FuncDecl) {
	if p.extD == nil {
		p.extD = map[*types.Package]*packages.Package{}
		packages.Visit(p.Pkgs, nil, func(q *packages.Package) { p.extD[q.Types] = q })
	}
	q := p.extD[f.Pkg()]
	if q == nil {
		return nil, nil
	}
	for _, file := range q.Syntax {
		if f.Pos() < file.FileStart || f.Pos() > file.FileEnd {
			continue
		}
		for _, d := range file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Pos() == f.Pos() {
				return q, fd
			}
		}
	}
	return nil, nil
}
