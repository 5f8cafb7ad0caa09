package main

// The property-simulation engine: a path-sensitive, interprocedural dataflow
// analysis over SSA. Repository callees are inlined; external callees are
// opaque terms; loops are joined at their headers (or unrolled when their trip
// count is a compile-time constant); branch conditions are kept as facts over
// provenance terms and used only to prune contradictory branches by identity.

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Trail struct {
	prev *Trail
	pos  token.Pos
	msg  string
	n    int
}

type deferCall struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
}

type Frame struct {
	fn     *ssa.Function
	ctx    string
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	pc     int
	defers []deferCall
	call   ssa.Instruction // instruction in the caller being executed
	kind   byte            // 'n' normal, 'd' deferred, 'g' goroutine, 'c' callback
	conc   map[*ssa.BasicBlock]int
	onRet  func(e *Engine, s *State, ret []*Term) // extra bookkeeping
	froz   *frozen
}

// frozen caches what a suspended caller frame contributes to keys and to
// liveness. Suspended frames are immutable and shared between states.
type frozen struct {
	key   string
	live  []*Term
	hot   []*Term
	atoms []*Term
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env)+8)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferCall(nil), f.defers...)
	if f.conc != nil {
		g.conc = map[*ssa.BasicBlock]int{}
		for k, v := range f.conc {
			g.conc[k] = v
		}
	}
	return &g
}

type State struct {
	frames []*Frame
	mem    map[*Term]*Term
	facts  map[*Term]bool
	auto   map[string]string
	vals   map[string]*Term // client-held terms
	trail  *Trail
	held   []*Term // locks held (addresses)
	dead   bool    // a handler ended this path
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// pop drops the top frame; the caller frame (shared, frozen) becomes a private
// mutable copy.
func (s *State) pop() {
	n := len(s.frames)
	c := s.frames[n-2].clone()
	c.froz = nil
	fr := make([]*Frame, n-1, n+3)
	copy(fr, s.frames[:n-2])
	fr[n-2] = c
	s.frames = fr
}

func (s *State) push(f *Frame) {
	fr := make([]*Frame, len(s.frames)+1, len(s.frames)+4)
	copy(fr, s.frames)
	fr[len(s.frames)] = f
	s.frames = fr
}

func (s *State) clone() *State {
	t := &State{trail: s.trail}
	t.frames = make([]*Frame, len(s.frames))
	copy(t.frames, s.frames)
	if n := len(s.frames); n > 0 {
		t.frames[n-1] = s.frames[n-1].clone()
	}
	t.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		t.mem[k] = v
	}
	t.facts = make(map[*Term]bool, len(s.facts)+4)
	for k, v := range s.facts {
		t.facts[k] = v
	}
	t.auto = make(map[string]string, len(s.auto)+2)
	for k, v := range s.auto {
		t.auto[k] = v
	}
	t.vals = make(map[string]*Term, len(s.vals))
	for k, v := range s.vals {
		t.vals[k] = v
	}
	t.held = append([]*Term(nil), s.held...)
	return t
}

func (s *State) note(pos token.Pos, msg string) {
	n := 1
	if s.trail != nil {
		n = s.trail.n + 1
	}
	s.trail = &Trail{prev: s.trail, pos: pos, msg: msg, n: n}
}

// Set/Get automaton state.
func (s *State) Set(k, v string) {
	if v == "" {
		delete(s.auto, k)
	} else {
		s.auto[k] = v
	}
}
func (s *State) Get(k string) string { return s.auto[k] }

type CallEvent struct {
	Name   string // e.g. "os.Stat", "(*os/exec.Cmd).Run", "invoke (T).M"
	Fn     *ssa.Function
	Method *types.Func
	Args   []*Term // receiver first
	Instr  ssa.Instruction
	Pos    token.Pos
	Inline bool    // will be inlined
	Rec    bool    // recursive re-entry (opaque)
	Kind   byte    // 'n','d','g','c'
	Free   []*Term // captured values of a closure
	// results a handler may set
	Results []Outcome // replaces the call when Handled
	Handled bool
	// Take replaces the call altogether; it tells whether s goes on.
	Take func(e *Engine, s *State, ins ssa.Instruction) bool
}

type Outcome struct {
	Ret   *Term
	Facts map[*Term]bool
	Do    func(s *State)
}

// Client is one property's hooks.
type Client struct {
	Name string
	// Only restricts which violations are reported.
	Only   func(key string) bool
	Inline func(fn *ssa.Function) bool
	// ConstIter: loops over lists of known length are iterations, too.
	ConstIter bool
	// CallbackTwice: a callback handed to opaque code may run twice.
	CallbackTwice bool
	// Oracle decides atoms by assumption.
	Oracle func(e *Engine, s *State, a *Term) (bool, bool)
	// DropFact names branch facts of no interest.
	DropFact func(a *Term) bool
	// GCAutos may drop autos about terms that are no longer live.
	GCAutos  func(e *Engine, s *State, live func(t *Term) bool)
	KeepFact func(e *Engine, atom *Term) bool
	OnCall   func(e *Engine, s *State, c *CallEvent)
	OnReturn func(e *Engine, s *State, fn *ssa.Function, ret []*Term) // any inlined frame
	OnExit   func(e *Engine, s *State, ret []*Term)                   // root returns
	OnIter   func(e *Engine, s *State, coll, key, elem *Term)
	OnExh    func(e *Engine, s *State, coll *Term)
	OnStore  func(e *Engine, s *State, addr, val *Term, pos token.Pos)
	OnMapPut func(e *Engine, s *State, m, k, v *Term, pos token.Pos)
	OnSend   func(e *Engine, s *State, ch *Term, pos token.Pos, recv bool)
	OnSelect func(e *Engine, s *State, ins *ssa.Select, idx int, chans []*Term)
	OnGo     func(e *Engine, s *State, fn *Term, args []*Term, pos token.Pos, end bool)
	OnPanic  func(e *Engine, s *State, pos token.Pos)
	OnBranch func(e *Engine, s *State, atom *Term, val bool, pos token.Pos)
	OnLoad   func(e *Engine, s *State, addr, val *Term, pos token.Pos)
	// LoadAs may replace what is loaded (nil: it does not).
	LoadAs func(e *Engine, s *State, addr, val *Term) *Term
	// StoreAs may replace what is stored (nil: it does not).
	StoreAs func(e *Engine, s *State, addr, val *Term) *Term
	// ByField: structs are kept field by field.
	ByField   bool
	JoinEmpty bool // joins keep whether strings are empty
	// OnBack: a back edge is taken, before the state is joined at the header.
	OnBack   func(e *Engine, s *State, f *Frame, hdr *ssa.BasicBlock)
	OnLookup func(e *Engine, s *State, m, k *Term, pos token.Pos)
	OnRet    func(e *Engine, s *State, ins *ssa.Return, ret []*Term)
	OnAppend func(e *Engine, s *State, base *Term, elems []*Term, res *Term, pos token.Pos)
	// Abstract: values of this Go type are irrelevant to the property; they
	// are merged at joins and facts about them are forgotten.
	Abstract func(t types.Type) bool
	// CollapseErr: all non-nil errors are one value (fork on unknown).
	CollapseErr bool
	// Stable: automaton components that a loop body does not change and that
	// distinguish loop entries.
	Stable []string
	// Keep names branch facts that outlive joins: they are kept as automaton
	// components that distinguish loop entries.
	Keep func(a *Term) bool
}

type loopRec struct {
	env   map[ssa.Value]*Term
	mem   map[*Term]*Term
	facts map[*Term]bool
	vals  map[string]*Term
	held  []*Term
}

type LoopInfo struct {
	Sym   *Term
	Entry map[*Term]bool
	Back  map[*Term]bool
	Ident bool
}

type Engine struct {
	P        *Prog
	T        *Terms
	C        *Client
	work     []*State
	seen     map[[32]byte]bool
	loops    map[string]*loopRec
	entryRec map[string]*loopRec
	Loops    map[*Term]*LoopInfo
	Steps    int
	States   int
	MaxSteps int
	Fail     []string // undecided reasons
	Viol     []Violation
	violSeen map[string]bool
	Funcs    map[*ssa.Function]bool
	Events   map[string]int
	lastTop  *Term
	iterHdr  *ssa.BasicBlock // header of the loop of the current OnIter or OnExh
	learned  map[string][]*Term
	RecFns   map[*ssa.Function]bool
	gen      int
	fkeys    map[string]string
	kbuf     strings.Builder
	absMemo  map[*Term]bool
	absT     map[types.Type]bool
	Debug    bool
	onces    map[string]*Term
	Recv     *Term // the runner the root belongs to
	allocOf  map[*Term]*ssa.Alloc
	cur      *State
}

type Violation struct {
	Key string // stable identity: rule+construct
	Msg string
	Pos string
	Tr  []string
}

func NewEngine(p *Prog, c *Client) *Engine {
	return &Engine{P: p, T: NewTerms(), C: c, seen: map[[32]byte]bool{}, loops: map[string]*loopRec{}, entryRec: map[string]*loopRec{},
		Loops: map[*Term]*LoopInfo{}, MaxSteps: 6000000, violSeen: map[string]bool{}, learned: map[string][]*Term{}, RecFns: map[*ssa.Function]bool{}, Funcs: map[*ssa.Function]bool{}, Events: map[string]int{}}
}

func (e *Engine) Undecided(f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	for _, x := range e.Fail {
		if x == m {
			return
		}
	}
	e.Fail = append(e.Fail, m)
}

func (e *Engine) Report(s *State, key string, pos token.Pos, f string, a ...any) {
	if os.Getenv("SHOWAUTO") != "" {
		for k, v := range s.auto {
			n := ""
			if _, id, ok := strings.Cut(k, ":"); ok {
				if x, err := strconv.Atoi(id); err == nil && x < len(e.T.all) {
					n = e.T.all[x].String()
				}
			}
			fmt.Fprintln(os.Stderr, "AUTO", key, k, v, n)
		}
	}
	if e.violSeen[key] || e.C.Only != nil && !e.C.Only(key) {
		return
	}
	e.violSeen[key] = true
	v := Violation{Key: key, Msg: fmt.Sprintf(f, a...), Pos: e.P.Pos(pos)}
	if s != nil {
		var tr []string
		for t := s.trail; t != nil && len(tr) < 30; t = t.prev {
			tr = append(tr, e.P.Pos(t.pos)+" "+t.msg)
		}
		for i, j := 0, len(tr)-1; i < j; i, j = i+1, j-1 {
			tr[i], tr[j] = tr[j], tr[i]
		}
		v.Tr = tr
		var st []string
		for _, fr := range s.frames {
			st = append(st, fr.fn.RelString(nil))
		}
		v.Tr = append(v.Tr, "stack: "+strings.Join(st, " > "))
	}
	e.Viol = append(e.Viol, v)
}

func (e *Engine) Count(k string) { e.Events[k]++ }

// recall brings back the facts that were kept over joins.
func (e *Engine) recall(s *State) {
	for k, v := range s.auto {
		if id, ok := strings.CutPrefix(k, "F:"); ok {
			if a := e.T.all[atoi(id)]; a != nil {
				if _, known := s.facts[a]; !known {
					s.facts[a] = v == "1"
				}
			}
		}
	}
}

// ---- facts ---------------------------------------------------------------

// Decide evaluates a boolean term under the state's facts.
func (e *Engine) Decide(s *State, t *Term) (bool, bool) {
	a, pol := normAtom(t)
	v, ok := e.decideAtom(s, a)
	if !ok {
		return false, false
	}
	return v == pol, true
}

func (e *Engine) decideAtom(s *State, a *Term) (bool, bool) {
	if e.C.Keep != nil {
		if v := s.auto["F:"+strconv.Itoa(a.id)]; v != "" {
			return v == "1", true
		}
	}
	if b, ok := a.BoolVal(); ok {
		return b, true
	}
	if e.C.Oracle != nil {
		if v, ok := e.C.Oracle(e, s, a); ok {
			return v, true
		}
	}
	if v, ok := s.facts[a]; ok {
		return v, true
	}
	switch {
	case a.K == KBin && a.S == "==":
		x, y := a.A[0], a.A[1]
		// a loop-joined value whose recorded sources all decide the atom alike
		if y.K == KConst {
			if !y.IsNil() || true {
				for f, v := range s.facts {
					if v && f.K == KBin && f.S == "==" && f.A[0] == x && f.A[1].K == KConst && f.A[1] != y {
						return false, true
					}
				}
			}
			if y.IsNil() && nonNil(x) {
				return false, true
			}
			if y.S == "0" && x.K == KLen && x.A[0].K == KAppend && x.A[0].S == "1" {
				return false, true
			}
			if y.IsNil() && x.K == KElem && x.A[0].K == KAppend && isErrT(x.T) {
				bases, elems := e.seqLeaves(x.A[0])
				ok := len(elems) > 0
				for _, b := range bases {
					ok = ok && b.IsNil()
				}
				for _, m := range elems {
					ok = ok && (nonNil(m) || m.K == KHavoc && m.S == "err!")
				}
				if ok {
					return false, true
				}
			}
			if y.S == `""` && x.K == KCall && (x.S == "path/filepath.Dir" || x.S == "path/filepath.Clean" || x.S == "path/filepath.Base") {
				return false, true // never empty
			}
			if y.S == `""` && x.K == KCall && x.S == "path/filepath.Join" {
				for _, p := range x.A {
					if v, ok := e.decideAtom(s, e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, p, y)); ok && !v {
						return false, true
					}
				}
			}
			// nil pointers/slices: len(x)==0 known?  left undecided
			if y.S == `""` && x.K == KBin && x.S == "+" {
				for _, p := range x.A {
					if v, ok := p.StrVal(); ok && v != "" {
						return false, true
					}
				}
			}
		} else {
			// equal-by-facts: x==c and y==c'
			cx, cy := e.constOf(s, x), e.constOf(s, y)
			if cx != nil && cy != nil {
				return cx == cy, true
			}
		}
	case a.K == KIsType:
		x := a.A[0]
		if x.K == KIface {
			return typeKey(x.T) == typeKey(a.T), true
		}
		if x.IsNil() {
			return false, true
		}
		excl := map[string]bool{}
		for f, v := range s.facts {
			if f.K == KIsType && f.A[0] == x {
				if v && typeKey(f.T) != typeKey(a.T) {
					return false, true
				}
				if v && typeKey(f.T) == typeKey(a.T) {
					return true, true
				}
				if !v {
					excl[typeKey(f.T)] = true
				}
			}
		}
		// closed world for repository interfaces
		if it := e.repoIface(x); it != nil {
			impls := e.P.Implementers(it)
			left := 0
			hit := false
			for _, t := range impls {
				if !excl[typeKey(t)] {
					left++
					if typeKey(t) == typeKey(a.T) {
						hit = true
					}
				}
			}
			if !hit {
				return false, true
			}
			if left == 1 {
				return true, true
			}
		}
	case a.K == KMapOK:
	}
	return false, false
}

func (e *Engine) constOf(s *State, x *Term) *Term {
	if x.K == KConst {
		return x
	}
	for f, v := range s.facts {
		if v && f.K == KBin && f.S == "==" && f.A[0] == x && f.A[1].K == KConst {
			return f.A[1]
		}
	}
	return nil
}

// repoIface returns the interface type of x when it is a repo-declared
// interface with an unexported marker method (a closed sum type).
func (e *Engine) repoIface(x *Term) *types.Interface {
	n, ok := x.T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), e.P.Mod) {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			return it
		}
	}
	return nil
}

func (e *Engine) Assume(s *State, t *Term, val bool) bool {
	if v, ok := e.Decide(s, t); ok {
		return v == val
	}
	a, pol := normAtom(t)
	if e.abstractAtom(a) && (e.C.KeepFact == nil || !e.C.KeepFact(e, a)) {
		return true // irrelevant to the property: both outcomes stay possible
	}
	s.facts[a] = val == pol
	if e.C.Keep != nil && e.C.Keep(a) {
		s.auto["F:"+strconv.Itoa(a.id)] = map[bool]string{true: "1", false: "0"}[val == pol]
	}
	// a cancelled context stays cancelled
	if val != pol && a.K == KBin && a.S == "==" && a.A[1].IsNil() {
		if x := a.A[0]; x.K == KCall && x.S == ctxErrFn && x.Site != "" {
			s.facts[e.ctxErrFact(x)] = false
		}
	}
	return true
}

const ctxErrFn = "invoke (context.Context).Err"

// ctxErrFact is the site-independent fact that a context is cancelled.
func (e *Engine) ctxErrFact(x *Term) *Term {
	return e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, e.T.mk(KCall, ctxErrFn, "", x.T, false, nil, x.A...), e.T.Nil())
}

// absVal is the single value standing for every value of an irrelevant type.
func (e *Engine) absVal(t types.Type, v *Term) *Term {
	if v.K == KAlloc || v.K == KIface && v.A[0].K == KAlloc {
		return v // an owned object keeps its identity (and its cells)
	}
	return e.T.mk(KHavoc, "abs:"+typeKey(t), "", t, false, nil)
}

// Holds: fact known true.
func (e *Engine) Holds(s *State, t *Term) bool {
	v, ok := e.Decide(s, t)
	return ok && v
}

// Nilness: 1 nil, -1 non-nil, 0 unknown.
func (e *Engine) Nilness(s *State, t *Term) int {
	v, ok := e.Decide(s, e.T.Bin(token.EQL, t, e.T.Nil(), nil))
	if !ok {
		return 0
	}
	if v {
		return 1
	}
	return -1
}

// ---- memory --------------------------------------------------------------

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	st, _ := u.(*types.Struct)
	return st
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (e *Engine) fieldAddr(base *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	return e.T.mk(KFieldAddr, f.Name(), "", types.NewPointer(f.Type()), false, nil, base)
}

// ownRoot: the location belongs to an object this path created (an
// allocation, or the fresh result of an opaque call), so it is unreachable once
// no live value mentions it.
func ownRoot(r *Term) bool {
	return r.K == KAlloc || r.K == KHavoc || r.K == KLoop || (r.K == KCall && r.Site != "")
}

func rootAlloc(a *Term) *Term {
	if a == nil {
		return nil
	}
	if !a.rootS {
		a.root, a.rootS = rootAlloc1(a), true
	}
	return a.root
}

func rootAlloc1(a *Term) *Term {
	for a != nil {
		switch a.K {
		case KFieldAddr, KIndexAddr, KSlice:
			a = a.A[0]
			continue
		}
		return a
	}
	return nil
}

// load reads the cell at addr. Whole-struct cells and field cells never
// coexist for one address (store expands), so the most specific cell wins and
// otherwise the value is projected from an enclosing cell or from the
// initial value of the location.
func (e *Engine) load(s *State, addr *Term, typ types.Type) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if typ != nil {
		if st, ok := typ.Underlying().(*types.Struct); ok && e.hasCell(s, addr) {
			return e.assemble(s, addr, typ, st)
		}
	}
	if v := e.whole(s, addr, typ); v != nil {
		return v
	}
	return e.initial(addr, typ)
}

// whole projects addr out of an enclosing stored value, if any.
func (e *Engine) whole(s *State, addr *Term, typ types.Type) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	switch addr.K {
	case KFieldAddr:
		if bv := e.whole(s, addr.A[0], ptrElem(addr.A[0].T)); bv != nil {
			return e.T.Fld(bv, addr.S, typ)
		}
	case KIndexAddr:
		if av, ok := s.mem[addr.A[0]]; ok && rootAlloc(addr.A[0]) != nil && rootAlloc(addr.A[0]).K == KAlloc {
			return e.elem(s, av, addr.A[1], typ)
		}
	}
	return nil
}

// initial is the value a location holds before any tracked store.
func (e *Engine) initial(addr *Term, typ types.Type) *Term {
	r := rootAlloc(addr)
	if r != nil && r.K == KAlloc {
		exact := r.Obj != "dyn"
		for x := addr; x != r; x = x.A[0] {
			if x.K == KIndexAddr {
				if _, isC := x.A[1].IntVal(); !isC {
					exact = false
				}
			}
		}
		if exact {
			return e.T.Zero(typ)
		}
	}
	switch addr.K {
	case KFieldAddr:
		return e.T.Fld(e.place(addr.A[0]), addr.S, typ)
	case KIndexAddr:
		return e.T.mk(KElem, "", "", typ, false, nil, e.place(addr.A[0]), addr.A[1])
	}
	return e.T.mk(KDeref, "", "", typ, false, nil, addr)
}

// place turns an address into the term naming the value stored there, with
// pointers left implicit so that p.f and (*p).f are one term.
func (e *Engine) place(addr *Term) *Term {
	switch addr.K {
	case KFieldAddr:
		return e.T.Fld(e.place(addr.A[0]), addr.S, ptrElem(addr.T))
	case KIndexAddr:
		return e.T.mk(KElem, "", "", ptrElem(addr.T), false, nil, e.place(addr.A[0]), addr.A[1])
	}
	return addr
}

func (e *Engine) assemble(s *State, addr *Term, typ types.Type, st *types.Struct) *Term {
	args := make([]*Term, st.NumFields())
	var from *Term
	same := st.NumFields() > 0
	for i := range args {
		args[i] = e.load(s, e.fieldAddr(addr, st, i), st.Field(i).Type())
		if args[i].K == KFld && args[i].S == st.Field(i).Name() && (from == nil || from == args[i].A[0]) {
			from = args[i].A[0]
		} else {
			same = false
		}
	}
	if same && from != nil && from.T != nil && types.Identical(from.T, typ) {
		return from
	}
	return e.T.mk(KStruct, "", "", typ, true, nil, args...)
}

func (e *Engine) elem(s *State, coll, idx *Term, typ types.Type) *Term {
	// element of a known append chain with constant index
	if coll.K == KAppend {
		if n, ok := idx.IntVal(); ok {
			if lst, ok := e.flatSeq(s, coll); ok && int(n) < len(lst) && n >= 0 {
				return lst[n]
			}
		}
	}
	return e.T.mk(KElem, "", "", typ, false, nil, coll, idx)
}

// flatSeq enumerates a fully known sequence.
func (e *Engine) flatSeq(s *State, t *Term) ([]*Term, bool) {
	switch t.K {
	case KConst:
		if t.IsNil() {
			return nil, true
		}
	case KSlice:
		n, ok := t.Obj.(int64)
		if !ok {
			return nil, false
		}
		arr := t.A[0]
		var out []*Term
		var et types.Type
		if sl, ok := t.T.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
		for i := int64(0); i < n; i++ {
			ia := e.T.mk(KIndexAddr, "", "", types.NewPointer(et), false, nil, arr, e.T.Int(i))
			out = append(out, e.load(s, ia, et))
		}
		return out, true
	case KAppend:
		a, ok1 := e.flatSeq(s, t.A[0])
		if !ok1 {
			return nil, false
		}
		if t.S == "1" {
			return append(append([]*Term(nil), a...), t.A[1]), true
		}
		if b, ok2 := e.flatSeq(s, t.A[1]); ok2 {
			return append(append([]*Term(nil), a...), b...), true
		}
	}
	return nil, false
}

func (e *Engine) hasCell(s *State, addr *Term) bool {
	if _, ok := s.mem[addr]; ok {
		return true
	}
	if st := structOf(ptrElem(addr.T)); st != nil {
		if _, isPtr := ptrElem(addr.T).Underlying().(*types.Pointer); !isPtr {
			for i := 0; i < st.NumFields(); i++ {
				if e.hasCell(s, e.fieldAddr(addr, st, i)) {
					return true
				}
			}
		}
	}
	return false
}

func (e *Engine) store(s *State, addr, val *Term) {
	// expand an enclosing whole-struct cell first
	if addr.K == KFieldAddr {
		e.expand(s, addr.A[0])
	}
	// drop sub-cells
	if st := structOf(ptrElem(addr.T)); st != nil {
		e.dropCells(s, addr, 0)
	}
	if addr.K == KIndexAddr && addr.A[1].K != KConst {
		// a store through an unknown index may hit any constant-index cell
		base := addr.A[0]
		for k := range s.mem {
			if k.K == KIndexAddr && k.A[0] == base && k != addr {
				s.mem[k] = e.T.mk(KHavoc, "elem", fmt.Sprint(k.id), val.T, false, nil)
			}
		}
	}
	if e.C.StoreAs != nil {
		if y := e.C.StoreAs(e, s, addr, val); y != nil {
			val = y
		}
	}
	if e.C.ByField && val.K == KStruct {
		if st := structOf(ptrElem(addr.T)); st != nil && st.NumFields() == len(val.A) {
			delete(s.mem, addr)
			for i := 0; i < st.NumFields(); i++ {
				e.store(s, e.fieldAddr(addr, st, i), val.A[i])
			}
			return
		}
	}
	s.mem[addr] = val
}

func (e *Engine) expand(s *State, base *Term) {
	if base.K == KFieldAddr {
		e.expand(s, base.A[0])
	}
	bv, ok := s.mem[base]
	if !ok {
		return
	}
	st := structOf(ptrElem(base.T))
	if st == nil {
		return
	}
	delete(s.mem, base)
	for i := 0; i < st.NumFields(); i++ {
		s.mem[e.fieldAddr(base, st, i)] = e.T.Fld(bv, st.Field(i).Name(), st.Field(i).Type())
	}
}

func (e *Engine) dropCells(s *State, addr *Term, d int) {
	if d > 4 {
		return
	}
	st := structOf(ptrElem(addr.T))
	if st == nil {
		return
	}
	if _, isPtr := ptrElem(addr.T).Underlying().(*types.Pointer); isPtr {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		fa := e.fieldAddr(addr, st, i)
		delete(s.mem, fa)
		e.dropCells(s, fa, d+1)
	}
}

// ---- values --------------------------------------------------------------

func (e *Engine) val(s *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return e.T.Zero(v.Type())
		}
		return e.T.Const(v.Value, v.Type())
	case *ssa.Global:
		return e.T.mk(KGlobal, v.RelString(nil), "", v.Type(), false, v)
	case *ssa.Function:
		t := e.T.mk(KFunc, v.RelString(nil), "", v.Type(), false, nil)
		t.Fn = v
		return t
	case *ssa.Builtin:
		return e.T.mk(KFunc, "builtin."+v.Name(), "", v.Type(), false, nil)
	}
	if t, ok := s.top().env[v]; ok {
		return t
	}
	// an undefined value (dead on this path)
	return e.T.mk(KHavoc, "undef:"+v.Name(), s.top().fn.RelString(nil), v.Type(), false, nil)
}

func instrID(ins ssa.Instruction) string {
	b := ins.Block()
	if b == nil {
		return "?"
	}
	for i, x := range b.Instrs {
		if x == ins {
			return b.Parent().RelString(nil) + ":" + strconv.Itoa(b.Index) + "." + strconv.Itoa(i)
		}
	}
	return "?"
}

var instrIDs = map[ssa.Instruction]string{}

func iid(ins ssa.Instruction) string {
	if s, ok := instrIDs[ins]; ok {
		return s
	}
	s := instrID(ins)
	instrIDs[ins] = s
	return s
}

// ---- running -------------------------------------------------------------

// NewState prepares a root state for fn with symbolic parameters named after
// the parameter (receiver "recv").
func (e *Engine) NewState(fn *ssa.Function, args []*Term) *State {
	s := &State{mem: map[*Term]*Term{}, facts: map[*Term]bool{}, auto: map[string]string{}, vals: map[string]*Term{}}
	f := &Frame{fn: fn, ctx: fn.RelString(nil), env: map[ssa.Value]*Term{}, block: fn.Blocks[0], kind: 'n'}
	for i, p := range fn.Params {
		if args != nil && i < len(args) && args[i] != nil {
			f.env[p] = args[i]
		} else {
			f.env[p] = e.T.Sym(paramName(fn, i), p.Type())
		}
	}
	for _, fv := range fn.FreeVars {
		f.env[fv] = e.T.Sym("free:"+fv.Name(), fv.Type())
		if g := e.P.capturedFn(fv); g != nil && g.Parent() == fn.Parent() {
			var bs []*Term
			for _, x := range g.FreeVars {
				bs = append(bs, e.T.Sym("free:"+x.Name(), x.Type()))
			}
			c := e.T.mk(KClosure, g.RelString(nil), "", g.Type(), false, nil, bs...)
			c.Fn = g
			s.mem[f.env[fv]] = c
		}
	}
	s.frames = []*Frame{f}
	e.Funcs[fn] = true
	return s
}

func paramName(fn *ssa.Function, i int) string {
	n := fn.Params[i].Name()
	if n == "" || n == "_" {
		n = fmt.Sprintf("arg%d", i)
	}
	return n
}

// timeBudget bounds one check run, well inside the 900 s it is given.
const timeBudget = 600 * time.Second

var procStart = time.Now()

func (e *Engine) Run(init ...*State) {
	for _, s := range init {
		e.push(s)
	}
	for len(e.work) > 0 {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.States++
		e.run(s)
		if e.Steps > e.MaxSteps || (e.States&255 == 0 && time.Since(procStart) > timeBudget) {
			e.Undecided("analysis budget exceeded (%d steps, %d states) in client %s", e.Steps, e.States, e.C.Name)
			return
		}
	}
}

func (e *Engine) push(s *State) { e.work = append(e.work, s) }

func (e *Engine) run(s *State) {
	for len(s.frames) > 0 && !s.dead {
		e.Steps++
		if e.Steps > e.MaxSteps {
			return
		}
		f := s.top()
		if f.pc >= len(f.block.Instrs) {
			e.Undecided("fell off block in %s", f.fn)
			return
		}
		if !e.step(s, f, f.block.Instrs[f.pc]) {
			return
		}
	}
}

func (e *Engine) bind(s *State, ins ssa.Instruction, t *Term) {
	if v, ok := ins.(ssa.Value); ok {
		s.top().env[v] = t
	}
}

// step executes one instruction; false ends this path.
func (e *Engine) step(s *State, f *Frame, ins ssa.Instruction) bool {
	ts := e.T
	switch x := ins.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		f.pc++
		return true
	case *ssa.Alloc:
		a := ts.mk(KAlloc, x.Comment, f.ctx+"@"+iid(x), x.Type(), false, nil)
		if e.allocOf == nil {
			e.allocOf = map[*Term]*ssa.Alloc{}
		}
		e.allocOf[a] = x
		for k := range s.mem {
			if rootAlloc(k) == a {
				delete(s.mem, k)
			}
		}
		delete(s.auto, "once:"+strconv.Itoa(a.id))
		f.env[x] = a
	case *ssa.BinOp:
		f.env[x] = ts.Bin(x.Op, e.val(s, x.X), e.val(s, x.Y), x.Type())
	case *ssa.UnOp:
		v := e.val(s, x.X)
		switch x.Op {
		case token.MUL:
			r := e.load(s, v, x.Type())
			if e.C.LoadAs != nil {
				if y := e.C.LoadAs(e, s, v, r); y != nil {
					r = y
				}
			}
			if e.C.OnLoad != nil {
				e.C.OnLoad(e, s, v, r, x.Pos())
			}
			f.env[x] = r
		case token.NOT:
			f.env[x] = ts.Not(v)
		case token.ARROW:
			if e.C.OnSend != nil {
				e.C.OnSend(e, s, v, x.Pos(), true)
			}
			f.env[x] = ts.mk(KCall, "<-", f.ctx+"@"+iid(x), x.Type(), false, nil, v)
		default:
			f.env[x] = ts.mk(KUn, x.Op.String(), "", x.Type(), false, nil, v)
		}
	case *ssa.FieldAddr:
		f.env[x] = e.fieldAddr(e.val(s, x.X), structOf(x.X.Type()), x.Field)
	case *ssa.Field:
		st := structOf(x.X.Type())
		f.env[x] = ts.Fld(e.val(s, x.X), st.Field(x.Field).Name(), x.Type())
	case *ssa.IndexAddr:
		base := e.val(s, x.X)
		if base.K == KSlice {
			base = base.A[0]
		}
		f.env[x] = ts.mk(KIndexAddr, "", "", x.Type(), false, nil, base, e.val(s, x.Index))
	case *ssa.Index:
		f.env[x] = ts.mk(KElem, "", "", x.Type(), false, nil, e.val(s, x.X), e.val(s, x.Index))
	case *ssa.Lookup:
		m, k := e.val(s, x.X), e.val(s, x.Index)
		if e.C.OnLookup != nil {
			e.C.OnLookup(e, s, m, k, x.Pos())
		}
		v, ok := e.lookup(s, m, k, x.X.Type())
		if x.CommaOk {
			f.env[x] = ts.mk(KTuple, "", "", x.Type(), false, nil, v, ok)
		} else {
			if b, known := e.Decide(s, ok); known && !b {
				v = ts.Zero(v.T)
			}
			f.env[x] = v
		}
	case *ssa.Convert:
		v := e.val(s, x.X)
		if isStringT(x.Type()) && isStringT(x.X.Type()) {
			f.env[x] = v
		} else if v.K == KConst && v.C != nil && isIntT(x.Type()) && isIntT(x.X.Type()) {
			f.env[x] = v
		} else {
			f.env[x] = ts.mk(KConv, shortType(x.Type()), "", x.Type(), false, nil, v)
		}
	case *ssa.ChangeType:
		f.env[x] = e.val(s, x.X)
	case *ssa.ChangeInterface:
		f.env[x] = e.val(s, x.X)
	case *ssa.MakeInterface:
		f.env[x] = ts.mk(KIface, "", "", x.X.Type(), true, nil, e.val(s, x.X))
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		f.env[ins.(ssa.Value)] = ts.mk(KConv, "multi", "", ins.(ssa.Value).Type(), false, nil)
	case *ssa.TypeAssert:
		return e.typeAssert(s, f, x)
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		f.env[x] = e.ext(t, x.Index, x.Type())
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		args := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			args[i] = e.val(s, b)
		}
		t := ts.mk(KClosure, fn.RelString(nil), "", x.Type(), false, nil, args...)
		t.Fn = fn
		f.env[x] = t
	case *ssa.MakeMap:
		if e.absType(x.Type()) {
			f.env[x] = ts.mk(KHavoc, "abs:"+typeKey(x.Type()), "", x.Type(), false, nil)
			break
		}
		a := ts.mk(KAlloc, "map", f.ctx+"@"+iid(x), x.Type(), false, nil)
		s.mem[a] = ts.mk(KMNew, "", "", x.Type(), false, nil)
		// a new map: nothing is known about it from an earlier round
		for _, pre := range []string{"ly:", "stale:"} {
			if k := pre + itoa(a.id); s.Get(k) != "" {
				s.Set(k, "")
			}
		}
		f.env[x] = a
	case *ssa.MakeSlice:
		a := ts.mk(KAlloc, "slice", f.ctx+"@"+iid(x), types.NewPointer(x.Type()), false, "dyn")
		for k := range s.mem {
			if rootAlloc(k) == a {
				delete(s.mem, k)
			}
		}
		ln := e.val(s, x.Len)
		var obj any
		if n, ok := ln.IntVal(); ok {
			obj = n
		}
		t := ts.mk(KSlice, "", fmt.Sprint(obj), x.Type(), false, obj, a)
		if obj != nil {
			t.Obj = obj
		}
		f.env[x] = t
		s.mem[ts.mk(KFieldAddr, "$len", "", nil, false, nil, a)] = ln
	case *ssa.MakeChan:
		f.env[x] = ts.mk(KAlloc, "chan", f.ctx+"@"+iid(x), x.Type(), false, nil)
		s.mem[ts.mk(KFieldAddr, "$cap", "", nil, false, nil, f.env[x])] = e.val(s, x.Size)
	case *ssa.Slice:
		f.env[x] = e.slice(s, x)
	case *ssa.Store:
		a, v := e.val(s, x.Addr), e.val(s, x.Val)
		if e.C.OnStore != nil {
			e.C.OnStore(e, s, a, v, x.Pos())
		}
		if e.C.Abstract != nil && e.absType(x.Val.Type()) {
			v = e.absVal(x.Val.Type(), v)
		}
		e.store(s, a, v)
	case *ssa.MapUpdate:
		m, k, v := e.val(s, x.Map), e.val(s, x.Key), e.val(s, x.Value)
		if e.C.OnMapPut != nil {
			e.C.OnMapPut(e, s, m, k, v, x.Pos())
		}
		e.mapPut(s, m, k, v)
	case *ssa.Range:
		v := e.val(s, x.X)
		f.env[x] = ts.mk(KRange, "", f.ctx+"@"+iid(x), x.Type(), false, nil, v)
	case *ssa.Next:
		return e.next(s, f, x)
	case *ssa.Send:
		if e.C.OnSend != nil {
			e.C.OnSend(e, s, e.val(s, x.Chan), x.Pos(), false)
		}
	case *ssa.Select:
		return e.sel(s, f, x)
	case *ssa.Jump:
		return e.enter(s, f.block.Succs[0])
	case *ssa.If:
		return e.branch(s, f, x)
	case *ssa.Return:
		var ret []*Term
		for _, r := range x.Results {
			ret = append(ret, e.val(s, r))
		}
		if e.C.OnRet != nil {
			e.C.OnRet(e, s, x, ret)
		}
		return e.ret(s, f, ret)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			// stay on this instruction until all defers ran
			return e.invokeTerm(s, x, d.fn, d.args, 'd', d.instr)
		}
	case *ssa.Defer:
		fn, args := e.callee(s, &x.Call)
		// a defer inside a loop keeps its latest registration only
		nd := make([]deferCall, 0, len(f.defers)+1)
		for _, d := range f.defers {
			if d.instr != x {
				nd = append(nd, d)
			}
		}
		f.defers = append(nd, deferCall{instr: x, fn: fn, args: args})
	case *ssa.Go:
		fn, args := e.callee(s, &x.Call)
		if e.C.OnGo != nil {
			e.C.OnGo(e, s, fn, args, x.Pos(), false)
		}
		return e.invokeTerm(s, x, fn, args, 'g', x)
	case *ssa.Call:
		fn, args := e.callee(s, &x.Call)
		return e.invokeTerm(s, x, fn, args, 'n', x)
	case *ssa.Panic:
		if e.C.OnPanic != nil {
			e.C.OnPanic(e, s, x.Pos())
		}
		return false
	default:
		e.Undecided("unsupported instruction %T in %s", ins, f.fn)
		return false
	}
	f.pc++
	return true
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) ext(t *Term, i int, typ types.Type) *Term {
	if t.K == KTuple {
		return t.A[i]
	}
	return e.T.mk(KExt, strconv.Itoa(i), "", typ, false, nil, t)
}

func (e *Engine) slice(s *State, x *ssa.Slice) *Term {
	base := e.val(s, x.X)
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok && x.Low == nil && x.High == nil {
			t := e.T.mk(KSlice, "", fmt.Sprint(arr.Len()), x.Type(), false, arr.Len(), base)
			return t
		}
	}
	lo, hi := e.T.Int(0), e.T.Nil()
	if x.Low != nil {
		lo = e.val(s, x.Low)
	}
	if x.High != nil {
		hi = e.val(s, x.High)
	}
	if n, ok := lo.IntVal(); ok && n == 0 && hi.IsNil() {
		return base
	}
	if sv, ok := base.StrVal(); ok {
		l, ok1 := lo.IntVal()
		h, ok2 := hi.IntVal()
		if hi.IsNil() {
			h, ok2 = int64(len(sv)), true
		}
		if ok1 && ok2 && l >= 0 && h <= int64(len(sv)) && l <= h {
			return e.T.Str(sv[l:h])
		}
	}
	return e.T.mk(KSub, "", "", x.Type(), false, nil, base, lo, hi)
}

// ---- maps ----------------------------------------------------------------

func (e *Engine) mapContents(s *State, m *Term) *Term {
	if c, ok := s.mem[m]; ok {
		return c
	}
	return m
}

func (e *Engine) mapPut(s *State, m, k, v *Term) {
	if m.T != nil && e.absType(m.T) {
		return
	}
	c := e.mapContents(s, m)
	// idempotent re-put of the generic element
	if c.K == KMPut && c.A[1] == k && c.A[2] == v {
		return
	}
	if c.K == KMPut && c.A[1] == k {
		c = c.A[0]
	}
	s.mem[m] = e.T.mk(KMPut, "", "", m.T, false, nil, c, k, v)
	// facts about the old contents' membership stay about the old term
}

func (e *Engine) lookup(s *State, m, k *Term, mt types.Type) (v, ok *Term) {
	var vt types.Type = types.Typ[types.String]
	if mm, is := mt.Underlying().(*types.Map); is {
		vt = mm.Elem()
	} else {
		// string index
		return e.T.mk(KElem, "", "", types.Typ[types.Byte], false, nil, m, k), e.T.Bool(true)
	}
	c := e.mapContents(s, m)
	for c.K == KMPut {
		if c.A[1] == k {
			return c.A[2], e.T.Bool(true)
		}
		if c.A[1].K == KConst && k.K == KConst {
			c = c.A[0]
			continue
		}
		break
	}
	if c.K == KMNew || c.IsNil() {
		return e.T.Zero(vt), e.T.Bool(false)
	}
	return e.T.mk(KMapVal, "", "", vt, false, nil, c, k), e.T.mk(KMapOK, "", "", types.Typ[types.Bool], false, nil, c, k)
}

func (e *Engine) next(s *State, f *Frame, x *ssa.Next) bool {
	rng := e.val(s, x.Iter)
	coll := rng
	if rng.K == KRange {
		coll = rng.A[0]
	}
	c := coll
	if !x.IsString {
		c = e.mapContents(s, coll)
	}
	tup := x.Type().(*types.Tuple)
	if c.K == KMNew || c.IsNil() {
		f.env[x] = e.T.mk(KTuple, "", "", x.Type(), false, nil, e.T.Bool(false), e.T.Zero(tup.At(1).Type()), e.T.Zero(tup.At(2).Type()))
		f.pc++
		if e.C.OnExh != nil {
			e.C.OnExh(e, s, coll)
		}
		return true
	}
	// exhausted
	t := s.clone()
	tf := t.top()
	tf.env[x] = e.T.mk(KTuple, "", "", x.Type(), false, nil, e.T.Bool(false), e.T.Zero(tup.At(1).Type()), e.T.Zero(tup.At(2).Type()))
	tf.pc++
	if e.C.OnExh != nil {
		e.C.OnExh(e, t, coll)
	}
	e.push(t)
	kt := tup.At(1).Type()
	vt := tup.At(2).Type()
	if mm, ok := coll.T.Underlying().(*types.Map); ok {
		kt, vt = mm.Key(), mm.Elem()
	}
	k := e.T.mk(KRangeKey, "", rng.Site, kt, false, nil, c)
	v := e.T.mk(KMapVal, "", "", vt, false, nil, c, k)
	f.env[x] = e.T.mk(KTuple, "", "", x.Type(), false, nil, e.T.Bool(true), k, v)
	f.pc++
	if e.C.OnIter != nil {
		e.C.OnIter(e, s, coll, k, v)
	}
	return true
}

// ---- branching -----------------------------------------------------------

func (e *Engine) typeAssert(s *State, f *Frame, x *ssa.TypeAssert) bool {
	v := e.val(s, x.X)
	at := x.AssertedType
	if types.IsInterface(at) {
		okT := e.T.mk(KIsType, shortType(at), "", at, true, nil, v)
		if v.K == KIface && types.AssignableTo(v.T, at) {
			okT = e.T.Bool(true)
		}
		if x.CommaOk {
			f.env[x] = e.T.mk(KTuple, "", "", x.Type(), false, nil, v, okT)
		} else {
			f.env[x] = v
		}
		f.pc++
		return true
	}
	atom := e.T.mk(KIsType, shortType(at), "", at, true, nil, v)
	mkVal := func() *Term {
		if v.K == KIface {
			return v.A[0]
		}
		return e.T.mk(KAsrt, shortType(at), "", at, true, nil, v)
	}
	d, known := e.Decide(s, atom)
	if !x.CommaOk {
		if known && !d {
			if e.C.OnPanic != nil {
				e.C.OnPanic(e, s, x.Pos())
			}
			return false
		}
		e.Assume(s, atom, true)
		f.env[x] = mkVal()
		f.pc++
		return true
	}
	if !known {
		t := s.clone()
		tf := t.top()
		if e.Assume(t, atom, false) {
			t.note(x.Pos(), "not "+atom.String())
			tf.env[x] = e.T.mk(KTuple, "", "", x.Type(), false, nil, e.T.Zero(at), e.T.Bool(false))
			tf.pc++
			e.push(t)
		}
		if !e.Assume(s, atom, true) {
			return false
		}
		s.note(x.Pos(), atom.String())
		d = true
	}
	if d {
		f.env[x] = e.T.mk(KTuple, "", "", x.Type(), false, nil, mkVal(), e.T.Bool(true))
	} else {
		f.env[x] = e.T.mk(KTuple, "", "", x.Type(), false, nil, e.T.Zero(at), e.T.Bool(false))
	}
	f.pc++
	return true
}

func (e *Engine) sel(s *State, f *Frame, x *ssa.Select) bool {
	var chans []*Term
	for _, st := range x.States {
		chans = append(chans, e.val(s, st.Chan))
	}
	n := len(x.States)
	lo := 0
	if !x.Blocking {
		lo = -1
	}
	for i := lo; i < n; i++ {
		if i >= 0 && chans[i].IsNil() {
			continue // a nil channel never proceeds
		}
		t := s.clone()
		tf := t.top()
		args := []*Term{e.T.Int(int64(i)), e.T.mk(KHavoc, "recvOk", f.ctx+iid(x), types.Typ[types.Bool], false, nil)}
		tt := x.Type().(*types.Tuple)
		for k := 2; k < tt.Len(); k++ {
			args = append(args, e.T.mk(KHavoc, "recv", f.ctx+iid(x)+strconv.Itoa(k), tt.At(k).Type(), false, nil))
		}
		tf.env[x] = e.T.mk(KTuple, "", "", x.Type(), false, nil, args...)
		tf.pc++
		t.note(x.Pos(), fmt.Sprintf("select case %d", i))
		if i >= 0 && chans[i].K == KCall && chans[i].S == ctxDoneFn && x.States[i].Dir == types.RecvOnly {
			t.facts[e.ctxErrFact(chans[i])] = false
		}
		if e.C.OnSelect != nil {
			e.C.OnSelect(e, t, x, i, chans)
		}
		e.push(t)
	}
	return false
}

func (e *Engine) branch(s *State, f *Frame, x *ssa.If) bool {
	c := e.val(s, x.Cond)
	b := f.block
	pos := x.Cond.Pos()
	if v, known := e.Decide(s, c); known {
		a, pol := normAtom(c)
		e.iterEvent(s, f, b, a, v == pol)
		if e.C.OnBranch != nil {
			e.C.OnBranch(e, s, a, v == pol, pos)
		}
		if v {
			return e.enter(s, b.Succs[0])
		}
		return e.enter(s, b.Succs[1])
	}
	t := s.clone()
	a, pol := normAtom(c)
	if e.Assume(t, c, false) {
		t.note(pos, "!("+c.String()+")")
		e.iterEvent(t, t.top(), b, a, !pol)
		if e.C.OnBranch != nil {
			e.C.OnBranch(e, t, a, !pol, pos)
		}
		if e.enter(t, b.Succs[1]) {
			e.push(t)
		}
	}
	if !e.Assume(s, c, true) {
		return false
	}
	s.note(pos, c.String())
	e.iterEvent(s, f, b, a, pol)
	if e.C.OnBranch != nil {
		e.C.OnBranch(e, s, a, pol, pos)
	}
	return e.enter(s, b.Succs[0])
}

// iterEvent recognises idx < len(coll) tests at a loop header.
func (e *Engine) iterEvent(s *State, f *Frame, b *ssa.BasicBlock, a *Term, val bool) {
	if e.C.OnIter == nil && e.C.OnExh == nil {
		return
	}
	if _, isHdr := e.P.Loops(f.fn).header[b]; !isHdr {
		return
	}
	var coll, idx *Term
	if a.K == KBin && a.S == "<" && a.A[1].K == KLen {
		coll, idx = a.A[1].A[0], a.A[0]
	} else if e.C.ConstIter {
		coll, idx = e.constIter(s, b)
	}
	if coll == nil {
		return
	}
	e.iterHdr = b
	if val {
		if e.C.OnIter != nil {
			e.C.OnIter(e, s, coll, idx, nil)
		}
	} else if e.C.OnExh != nil {
		e.C.OnExh(e, s, coll)
	}
}

// constIter: the collection and index of a loop whose bound is a constant by
// now: the length of a list made here or of an array.
func (e *Engine) constIter(s *State, b *ssa.BasicBlock) (coll, idx *Term) {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS {
		return nil, nil
	}
	if call, ok := cond.Y.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return e.val(s, call.Call.Args[0]), e.val(s, cond.X)
		}
		return nil, nil
	}
	if _, ok := cond.Y.(*ssa.Const); !ok {
		return nil, nil
	}
	for _, r := range *cond.X.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			if x.Index == cond.X && tracked(x.X) || x.Index == cond.X {
				if _, done := s.top().env[x.X]; done || !tracked(x.X) {
					return e.val(s, x.X), e.val(s, cond.X)
				}
			}
		case *ssa.Index:
			if x.Index == cond.X {
				if _, done := s.top().env[x.X]; done || !tracked(x.X) {
					return e.val(s, x.X), e.val(s, cond.X)
				}
			}
		}
	}
	return nil, nil
}

// enter moves the top frame to block `to`. Returns false when the state is
// subsumed (dropped).
func (e *Engine) enter(s *State, to *ssa.BasicBlock) bool {
	f := s.top()
	from := f.block
	// parallel phi assignment
	idx := -1
	for k, p := range to.Preds {
		if p == from {
			idx = k
			break
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		v := e.val(s, ph.Edges[idx])
		if e.C.Abstract != nil && e.absType(ph.Type()) {
			v = e.absVal(ph.Type(), v)
		}
		vals = append(vals, v)
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	f.block = to
	f.pc = 0
	lf := e.P.Loops(f.fn)
	if body, isHdr := lf.header[to]; isHdr {
		back := body[from]
		if back && e.C.OnBack != nil {
			e.C.OnBack(e, s, f, to)
		}
		return e.loopEnter(s, f, to, back)
	}
	if len(to.Preds) > 1 {
		return e.dedupe(s)
	}
	return true
}

func (e *Engine) dedupe(s *State) bool {
	e.gc(s)
	k := sha256.Sum256([]byte(e.stateKey(s)))
	if e.seen[k] {
		return false
	}
	e.seen[k] = true
	return true
}

// gc drops dead env entries, unreachable cells and facts about dead values.
func (e *Engine) gc(s *State) {
	e.gen++
	g := e.gen
	addT := func(t *Term) {
		t.hotG = g // directly held by a live variable or cell
		if t.K == KIface || t.K == KTuple || t.K == KUn && t.S == "!" {
			for _, a := range t.A {
				a.hotG = g
			}
		}
		for _, a := range t.atoms {
			a.liveG = g
		}
	}
	for i, f := range s.frames {
		if i < len(s.frames)-1 {
			if f.froz == nil {
				e.freeze(f)
			}
			for _, t := range f.froz.hot {
				t.hotG = g
			}
			for _, t := range f.froz.atoms {
				t.liveG = g
			}
			continue
		}
		lv := e.P.LiveAt(f.block, f.pc)
		for v, t := range f.env {
			if !lv[v] {
				delete(f.env, v)
				continue
			}
			addT(t)
		}
		for _, d := range f.defers {
			addT(d.fn)
			for _, a := range d.args {
				addT(a)
			}
		}
	}
	for _, t := range s.vals {
		addT(t)
	}
	for _, t := range s.held {
		addT(t)
	}
	// memory reachability
	for changed := true; changed; {
		changed = false
		for k, v := range s.mem {
			r := rootAlloc(k)
			if v.hotG == g || (r != nil && ownRoot(r) && r.liveG != g) {
				continue
			}
			if r != nil {
				v.hotG = g
			}
			for _, a := range v.atoms {
				if a.liveG != g {
					a.liveG = g
					changed = true
				}
			}
		}
	}
	for k := range s.mem {
		if r := rootAlloc(k); r != nil && ownRoot(r) && r.liveG != g {
			delete(s.mem, k)
		}
	}
	for k, r := range e.onces {
		if _, ok := s.auto[k]; ok && ownRoot(r) && r.liveG != g {
			delete(s.auto, k)
		}
	}
	for a := range s.facts {
		if e.C.KeepFact != nil && e.C.KeepFact(e, a) {
			continue
		}
		if a.K == KBin && a.A[0].K == KCall && a.A[0].S == ctxErrFn && a.A[0].Site == "" && (a.A[0].A[0].hotG == g || a.A[0].A[0].liveG == g) {
			continue
		}
		if !hotAtom(a, g) || e.abstractAtom(a) || e.C.DropFact != nil && e.C.DropFact(a) {
			delete(s.facts, a)
		}
	}
	if e.C.GCAutos != nil {
		e.C.GCAutos(e, s, func(t *Term) bool { return t.liveG == g || t.hotG == g })
	}
}

func (e *Engine) absType(t types.Type) bool {
	if e.C.Abstract == nil {
		return false
	}
	v, ok := e.absT[t]
	if !ok {
		v = e.C.Abstract(t)
		if e.absT == nil {
			e.absT = map[types.Type]bool{}
		}
		e.absT[t] = v
	}
	return v
}

func (e *Engine) abstractAtom(a *Term) bool {
	if e.C.Abstract == nil {
		return false
	}
	v, ok := e.absMemo[a]
	if !ok {
		v = e.abstractAtom1(a)
		if e.absMemo == nil {
			e.absMemo = map[*Term]bool{}
		}
		e.absMemo[a] = v
	}
	return v
}

func (e *Engine) abstractAtom1(a *Term) bool {
	switch a.K {
	case KBin, KIsType, KMapOK:
		for _, x := range a.A {
			if x.T != nil && x.K != KConst && e.absType(x.T) {
				return true
			}
			if x.K == KLen && x.A[0].T != nil && e.absType(x.A[0].T) {
				return true
			}
		}
	case KDeref:
		x := a.A[0]
		return x.T != nil && e.absType(x.T)
	}
	return false
}

// hotAtom: a fact is worth keeping when the values it speaks about are still
// held by a live variable or cell.
func hotAtom(a *Term, g int) bool {
	if a.hotG == g {
		return true
	}
	switch a.K {
	case KBin, KIsType, KMapOK:
		for _, x := range a.A {
			if x.K == KConst || x.hotG == g || (x.K == KLen && x.A[0].hotG == g) {
				continue
			}
			return false
		}
		return true
	}
	return false
}

// freeze prunes a suspended caller frame to what it still needs after the
// pending call and caches its key and roots.
func (e *Engine) freeze(f *Frame) {
	pc := f.pc + 1 // the pending call's result is bound later
	if _, isRD := f.block.Instrs[f.pc].(*ssa.RunDefers); isRD {
		pc = f.pc
	}
	lv := e.P.LiveAt(f.block, pc)
	fz := &frozen{}
	hot, atoms := map[*Term]bool{}, map[*Term]bool{}
	add := func(t *Term) {
		hot[t] = true
		if t.K == KIface || t.K == KTuple || t.K == KUn && t.S == "!" {
			for _, a := range t.A {
				hot[a] = true
			}
		}
		for _, a := range t.atoms {
			atoms[a] = true
		}
	}
	for v, t := range f.env {
		if !lv[v] {
			delete(f.env, v)
			continue
		}
		add(t)
	}
	for _, d := range f.defers {
		add(d.fn)
		for _, a := range d.args {
			add(a)
		}
	}
	for t := range hot {
		fz.hot = append(fz.hot, t)
	}
	for t := range atoms {
		fz.atoms = append(fz.atoms, t)
	}
	var b strings.Builder
	e.frameKey1(&b, f)
	k := b.String()
	id, ok := e.fkeys[k]
	if !ok {
		id = "F" + strconv.Itoa(len(e.fkeys))
		if e.fkeys == nil {
			e.fkeys = map[string]string{}
		}
		e.fkeys[k] = id
	}
	fz.key = id
	f.froz = fz
}

func (e *Engine) frameKey(b *strings.Builder, f *Frame) {
	if f.froz != nil {
		b.WriteString(f.froz.key)
		return
	}
	e.frameKey1(b, f)
}

func (e *Engine) frameKey1(b *strings.Builder, f *Frame) {
	b.WriteString(f.ctx)
	b.WriteByte('#')
	b.WriteString(strconv.Itoa(f.block.Index))
	b.WriteByte('.')
	b.WriteString(strconv.Itoa(f.pc))
	var ids []string
	for v, t := range f.env {
		ids = append(ids, v.Name()+"="+t.key)
	}
	sort.Strings(ids)
	for _, x := range ids {
		b.WriteByte(' ')
		b.WriteString(x)
	}
	for _, d := range f.defers {
		b.WriteString(" d")
		b.WriteString(strconv.Itoa(d.fn.id))
		for _, a := range d.args {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	for h, n := range f.conc {
		_ = n
		b.WriteString(" c" + strconv.Itoa(h.Index))
	}
}

func mapKey(b *strings.Builder, m map[*Term]*Term) {
	ids := make([]uint64, 0, len(m))
	for k, v := range m {
		ids = append(ids, uint64(k.id)<<32|uint64(v.id))
	}
	slices.Sort(ids)
	var buf [8]byte
	for _, x := range ids {
		binary.LittleEndian.PutUint64(buf[:], x)
		b.Write(buf[:])
	}
}

func (e *Engine) autoKey(b *strings.Builder, s *State) {
	var ks []string
	for k, v := range s.auto {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	ks = ks[:0]
	for k, v := range s.vals {
		ks = append(ks, k+"="+strconv.Itoa(v.id))
	}
	sort.Strings(ks)
	b.WriteString("|" + strings.Join(ks, ";"))
	for _, h := range s.held {
		b.WriteString(" L" + strconv.Itoa(h.id))
	}
}

func (e *Engine) stateKey(s *State) string {
	var b strings.Builder
	b.Grow(64 + 20*len(s.mem) + 10*len(s.facts))
	for _, f := range s.frames {
		e.frameKey(&b, f)
		b.WriteByte('\n')
	}
	mapKey(&b, s.mem)
	b.WriteByte('\n')
	ids := make([]uint64, 0, len(s.facts))
	for k, v := range s.facts {
		x := uint64(k.id) << 1
		if v {
			x |= 1
		}
		ids = append(ids, x)
	}
	slices.Sort(ids)
	var buf [8]byte
	for _, x := range ids {
		binary.LittleEndian.PutUint64(buf[:], x)
		b.Write(buf[:])
	}
	b.WriteByte('\n')
	e.autoKey(&b, s)
	return b.String()
}

// ---- loops ---------------------------------------------------------------

func (e *Engine) tryEval(s *State, v ssa.Value, hdr *ssa.BasicBlock, d int) *Term {
	if d > 12 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return e.val(s, v)
	case *ssa.BinOp:
		if x.Block() == hdr {
			a, b := e.tryEval(s, x.X, hdr, d+1), e.tryEval(s, x.Y, hdr, d+1)
			if a == nil || b == nil {
				return nil
			}
			return e.T.Bin(x.Op, a, b, x.Type())
		}
	case *ssa.Call:
		if x.Block() == hdr {
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := e.tryEval(s, x.Call.Args[0], hdr, d+1)
				if a == nil {
					return nil
				}
				return e.seqLen(s, a)
			}
			return nil
		}
	case *ssa.UnOp:
		if x.Block() == hdr {
			a := e.tryEval(s, x.X, hdr, d+1)
			if a == nil {
				return nil
			}
			if x.Op == token.NOT {
				return e.T.Not(a)
			}
			if x.Op == token.MUL {
				return e.load(s, a, x.Type())
			}
			return nil
		}
	case ssa.Instruction:
		if x.Block() == hdr {
			if _, ok := x.(*ssa.Phi); !ok {
				return nil
			}
		}
	}
	if t, ok := s.top().env[v]; ok {
		return t
	}
	return nil
}

func (e *Engine) seqLen(s *State, a *Term) *Term {
	if lst, ok := e.flatSeq(s, a); ok {
		return e.T.Int(int64(len(lst)))
	}
	if a.K == KSlice {
		if l, ok := s.mem[e.T.mk(KFieldAddr, "$len", "", nil, false, nil, a.A[0])]; ok {
			return l
		}
	}
	return e.T.Len(a)
}

func (e *Engine) loopEnter(s *State, f *Frame, hdr *ssa.BasicBlock, back bool) bool {
	const maxUnroll = 40
	// concrete unrolling when the header test is decided by constants
	if !back || f.conc[hdr] > 0 {
		if iff, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If); ok {
			if c := e.tryEval(s, iff.Cond, hdr, 0); c != nil {
				if _, isC := c.BoolVal(); isC {
					if f.conc == nil {
						f.conc = map[*ssa.BasicBlock]int{}
					}
					f.conc[hdr]++
					if f.conc[hdr] < maxUnroll {
						return e.dedupe(s)
					}
				}
			}
		}
		delete(f.conc, hdr)
	}
	e.gc(s)
	// key: everything but top env, mem, facts
	var kb strings.Builder
	for _, fr := range s.frames[:len(s.frames)-1] {
		e.frameKey(&kb, fr)
		kb.WriteByte('\n')
	}
	kb.WriteString(f.ctx + "#L" + strconv.Itoa(hdr.Index))
	for _, d := range f.defers {
		kb.WriteString(" d" + strconv.Itoa(d.fn.id))
	}
	for h := range f.conc {
		kb.WriteString(" c" + strconv.Itoa(h.Index))
	}
	for _, k := range e.C.Stable {
		kb.WriteString(" " + k + "=" + s.auto[k])
	}
	if e.C.Keep != nil {
		var ks []string
		for k, v := range s.auto {
			if strings.HasPrefix(k, "F:") {
				ks = append(ks, k+"="+v)
			}
		}
		sort.Strings(ks)
		kb.WriteString(strings.Join(ks, " "))
	}
	base := kb.String()
	var ab strings.Builder
	e.autoKey(&ab, s)
	key := base + "|" + ab.String()
	site := f.ctx + "#L" + strconv.Itoa(hdr.Index)

	rec := e.loops[key]
	if rec == nil {
		if !back {
			e.preWiden(s, f, hdr, site)
			rec = snapshotRec(s, f)
			e.loops[key] = rec
			if e.entryRec[base] == nil {
				e.entryRec[base] = rec
			}
			return true
		}
		ent := e.entryRec[base]
		if ent == nil {
			rec = snapshotRec(s, f)
			e.loops[key] = rec
			return true
		}
		// new automaton partition: generalise against the entry record
		rec = &loopRec{env: ent.env, mem: ent.mem, facts: ent.facts}
		e.join(s, f, rec, site, back, true)
		e.loops[key] = snapshotRec(s, f)
		return true
	}
	if e.entryRec[base] == nil {
		e.entryRec[base] = rec
	}
	changed := e.join(s, f, rec, site, back, false)
	if !changed {
		return false
	}
	e.loops[key] = snapshotRec(s, f)
	return true
}

// preWiden generalises, on entry, the header phis that some back edge changes
// and the cells an earlier activation of this loop was seen to change, so that
// the body is not analysed once more for the first iteration.
func (e *Engine) preWiden(s *State, f *Frame, hdr *ssa.BasicBlock, site string) {
	body := e.P.Loops(f.fn).header[hdr]
	for _, ins := range hdr.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		changes := false
		for i, p := range hdr.Preds {
			if body[p] && ph.Edges[i] != ssa.Value(ph) {
				changes = true
			}
		}
		v, live := f.env[ph]
		if !changes || !live || v.K == KHavoc {
			continue
		}
		nm := ph.Name()
		if ph.Comment != "" {
			nm = ph.Comment + "/" + nm
		}
		f.env[ph] = e.loopSym(nm, site, v, ph.Type())
	}
	for _, k := range e.learned[site] {
		v, ok := s.mem[k]
		if !ok {
			continue
		}
		typ := ptrElem(k.T)
		if typ == nil {
			typ = v.T
		}
		sym := e.loopSym("cell:"+k.String()+"/"+strconv.Itoa(k.id), site, v, typ)
		s.mem[k] = sym
		if e.C.JoinEmpty && v != sym {
			e.carry(s, sym, v)
		}
	}
}

// carry notes what is known of v for the symbol that now stands for it.
func (e *Engine) carry(s *State, sym, v *Term) {
	if sym.T == nil {
		return
	}
	if _, ok := sym.T.Underlying().(*types.Pointer); ok {
		if b, ok := e.Decide(s, e.T.Bin(token.EQL, v, e.T.Nil(), nil)); ok {
			s.facts[e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, sym, e.T.Nil())] = b
		}
	}
	if isStringT(sym.T) {
		if b, ok := e.Decide(s, e.T.Bin(token.EQL, v, e.T.Str(""), types.Typ[types.Bool])); ok {
			s.facts[e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, sym, e.T.Str(""))] = b
		}
	}
	if isBoolT(sym.T) {
		if b, ok := e.Decide(s, v); ok {
			s.facts[sym] = b
		}
	}
}

func (e *Engine) loopSym(name, site string, entry *Term, typ types.Type) *Term {
	sym := e.T.mk(KLoop, name, site, typ, false, nil)
	if sym.T == nil {
		sym.T = typ
	}
	li := e.Loops[sym]
	if li == nil {
		li = &LoopInfo{Sym: sym, Entry: map[*Term]bool{}, Back: map[*Term]bool{}}
		e.Loops[sym] = li
	}
	if entry != nil && entry != sym {
		li.Entry[entry] = true
	}
	return sym
}

func snapshotRec(s *State, f *Frame) *loopRec {
	r := &loopRec{env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
	for k, v := range f.env {
		r.env[k] = v
	}
	for k, v := range s.mem {
		r.mem[k] = v
	}
	for k, v := range s.facts {
		r.facts[k] = v
	}
	return r
}

// join generalises s (in place) with rec; reports whether the result differs
// from rec.
func (e *Engine) join(s *State, f *Frame, rec *loopRec, site string, back, fresh bool) bool {
	changed := fresh
	type ren struct{ sym, src, old *Term }
	var rens []ren
	mkSym := func(name string, oldT, newT *Term) *Term {
		typ := newT.T
		if typ == nil || newT.IsNil() {
			typ = oldT.T
		}
		sym := e.T.mk(KLoop, name, site, typ, false, nil)
		if sym.T == nil {
			sym.T = typ
		}
		li := e.Loops[sym]
		if li == nil {
			li = &LoopInfo{Sym: sym, Entry: map[*Term]bool{}, Back: map[*Term]bool{}}
			e.Loops[sym] = li
		}
		if oldT != sym {
			li.Entry[oldT] = true
		}
		if newT == sym {
			li.Ident = true
		} else if back {
			if li.Entry[newT] {
				li.Ident = true
			} else {
				li.Back[newT] = true
			}
		} else {
			li.Entry[newT] = true
		}
		return sym
	}
	var vs []ssa.Value
	for v := range f.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		n := f.env[v]
		o, ok := rec.env[v]
		if !ok {
			// not defined at entry: drop unless identical later
			changed = true
			continue
		}
		if o == n {
			if o.K == KLoop && o.Site == site && back {
				if li := e.Loops[o]; li != nil {
					li.Ident = true
				}
			}
			continue
		}
		nm := v.Name()
		if ph, ok := v.(*ssa.Phi); ok && ph.Comment != "" {
			nm = ph.Comment + "/" + nm
		}
		sym := mkSym(nm, o, n)
		f.env[v] = sym
		rens = append(rens, ren{sym, n, o})
		if o != sym {
			changed = true
		}
	}
	var cells []*Term
	for k := range s.mem {
		cells = append(cells, k)
	}
	for k := range rec.mem {
		if _, ok := s.mem[k]; !ok {
			cells = append(cells, k)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, k := range cells {
		n, ok1 := s.mem[k]
		o, ok2 := rec.mem[k]
		if ok1 && ok2 && n == o {
			if o.K == KLoop && o.Site == site && back {
				if li := e.Loops[o]; li != nil {
					li.Ident = true
				}
			}
			continue
		}
		typ := ptrElem(k.T)
		if typ == nil {
			if ok1 {
				typ = n.T
			} else {
				typ = o.T
			}
		}
		if !ok2 {
			tmp := &State{mem: rec.mem}
			if k.S == "$len" || k.S == "$cap" || typ == nil {
				delete(s.mem, k)
				continue
			}
			o = e.load(tmp, k, typ)
		}
		if !ok1 {
			if k.S == "$len" || k.S == "$cap" || typ == nil {
				continue
			}
			n = e.load(s, k, typ)
		}
		if o == n {
			if ok1 {
				s.mem[k] = n
			}
			continue
		}
		sym := mkSym("cell:"+k.String()+"/"+strconv.Itoa(k.id), o, n)
		known := false
		for _, x := range e.learned[site] {
			if x == k {
				known = true
			}
		}
		if !known {
			e.learned[site] = append(e.learned[site], k)
		}
		s.mem[k] = sym
		rens = append(rens, ren{sym, n, o})
		if o != sym {
			changed = true
		}
	}
	// facts: intersection, plus nil-ness carried over to joined values
	out := map[*Term]bool{}
	for a, v := range s.facts {
		if w, ok := rec.facts[a]; ok && w == v {
			out[a] = v
		}
	}
	recS := &State{facts: rec.facts, mem: rec.mem}
	for _, r := range rens {
		atoms := [][2]*Term{{e.T.Bin(token.EQL, r.src, e.T.Nil(), nil), e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, r.sym, e.T.Nil())}}
		if r.src.T != nil && isBoolT(r.src.T) {
			atoms = append(atoms, [2]*Term{r.src, r.sym})
		}
		if e.C.JoinEmpty && r.sym.T != nil && isStringT(r.sym.T) {
			es := e.T.Str("")
			atoms = append(atoms, [2]*Term{e.T.Bin(token.EQL, r.src, es, types.Typ[types.Bool]), e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, r.sym, es)})
		}
		for _, at := range atoms {
			v, ok := e.Decide(s, at[0])
			if !ok {
				continue
			}
			if fresh {
				out[at[1]] = v
				continue
			}
			// the recorded side must agree
			var w, ok2 = false, false
			if r.old == r.sym {
				w, ok2 = recS.facts[at[1]]
			} else if at[1] == r.sym {
				w, ok2 = e.Decide(recS, r.old)
			} else if at[1].A[1].S == `""` {
				w, ok2 = e.Decide(recS, e.T.Bin(token.EQL, r.old, at[1].A[1], types.Typ[types.Bool]))
			} else {
				w, ok2 = e.Decide(recS, e.T.Bin(token.EQL, r.old, e.T.Nil(), nil))
			}
			if ok2 && w == v {
				out[at[1]] = v
			}
		}
	}
	for a, v := range rec.facts {
		if w, ok := out[a]; !ok || w != v {
			changed = true
		}
	}
	s.facts = out
	return changed
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// ---- calls ---------------------------------------------------------------

func (e *Engine) callee(s *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, e.val(s, c.Value))
		for _, a := range c.Args {
			args = append(args, e.val(s, a))
		}
		return e.T.mk(KFunc, "invoke:"+c.Method.FullName(), "", nil, false, c.Method), args
	}
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	return e.val(s, c.Value), args
}

// fnName is the display/identity name of a function: package path qualified,
// repo module prefix trimmed.
func (e *Engine) fnName(fn *ssa.Function) string {
	n := fn.RelString(nil)
	if o := fn.Origin(); o != nil {
		n = o.RelString(nil)
	}
	return strings.ReplaceAll(n, e.P.Mod+"/", "")
}

func (e *Engine) invokeTerm(s *State, ins ssa.Instruction, fn *Term, args []*Term, kind byte, at ssa.Instruction) bool {
	f := s.top()
	ev := &CallEvent{Args: args, Instr: at, Pos: at.Pos(), Kind: kind}
	if fn.K == KFunc && strings.HasPrefix(fn.S, "builtin.") {
		r := e.builtin(s, at, fn.S[8:], args)
		if r == nil {
			return false
		}
		e.finishOpaque(s, ins, r)
		return true
	}
	// interface method
	if fn.K == KFunc && strings.HasPrefix(fn.S, "invoke:") {
		m := fn.Obj.(*types.Func)
		recv := args[0]
		if recv.K == KIface {
			if g := e.method(recv.T, m); g != nil {
				a := append([]*Term{recv.A[0]}, args[1:]...)
				gt := e.T.mk(KFunc, g.RelString(nil), "", g.Type(), false, nil)
				gt.Fn = g
				return e.invokeTerm(s, ins, gt, a, kind, at)
			}
		}
		// closed sum type: resolve by (forked) dynamic type
		if it := e.repoIface(recv); it != nil && kind == 'n' {
			impls := e.P.Implementers(it)
			did := false
			for _, t := range impls {
				atom := e.T.mk(KIsType, shortType(t), "", t, true, nil, recv)
				if v, ok := e.Decide(s, atom); ok && !v {
					continue
				}
				g := e.method(t, m)
				if g == nil {
					continue
				}
				u := s.clone()
				if !e.Assume(u, atom, true) {
					continue
				}
				did = true
				rv := e.T.mk(KAsrt, shortType(t), "", t, true, nil, recv)
				gt := e.T.mk(KFunc, g.RelString(nil), "", g.Type(), false, nil)
				gt.Fn = g
				if e.invokeTerm(u, ins, gt, append([]*Term{rv}, args[1:]...), kind, at) {
					e.push(u)
				}
			}
			if did {
				return false
			}
		}
		ev.Method = m
		ev.Name = "invoke " + strings.ReplaceAll(m.FullName(), e.P.Mod+"/", "")
		return e.opaque(s, ins, ev, m.Type().(*types.Signature))
	}
	g := fn.Fn
	if g == nil {
		ev.Name = "dynamic " + fn.String()
		sig, _ := at.(ssa.CallInstruction)
		var sg *types.Signature
		if sig != nil {
			sg = sig.Common().Signature()
		}
		return e.opaque(s, ins, ev, sg)
	}
	ev.Fn = g
	ev.Name = e.fnName(g)
	var free []*Term
	if fn.K == KClosure {
		free = fn.A
	}
	ev.Free = free
	if ev.Name == "(*sync.WaitGroup).Go" && len(args) == 2 && kind == 'n' && args[1].Fn != nil {
		return e.wgGo(s, ins, args, at)
	}
	inline := g.Blocks != nil && (e.P.InRepo(g) || g.Synthetic != "")
	if inline && g.Synthetic == "" && e.C.Inline != nil && !e.C.Inline(g) {
		inline = false
	}
	if inline {
		for _, fr := range s.frames {
			if fr.fn == g {
				inline = false
				ev.Rec = true
				e.RecFns[g] = true
				break
			}
		}
	}
	if len(s.frames) > 60 {
		inline = false
	}
	ev.Inline = inline
	if e.C.OnCall != nil && (g.Synthetic == "" || !inline) {
		e.cur = s
		e.C.OnCall(e, s, ev)
		if ev.Take != nil {
			return ev.Take(e, s, ins)
		}
		if ev.Handled {
			return e.outcomes(s, ins, ev)
		}
		args = ev.Args
	}
	if inline {
		nf := &Frame{fn: g, ctx: f.ctx + "/" + iid(at), env: map[ssa.Value]*Term{}, block: g.Blocks[0], call: ins, kind: kind}
		for i, p := range g.Params {
			if i < len(args) {
				nf.env[p] = args[i]
			}
		}
		for i, fv := range g.FreeVars {
			if i < len(free) {
				nf.env[fv] = free[i]
			} else {
				nf.env[fv] = e.T.Sym("free:"+fv.Name(), fv.Type())
			}
		}
		e.Funcs[g] = true
		e.freeze(f)
		s.push(nf)
		return true
	}
	if ev.Name == "(*sync.Once).Do" && len(args) == 2 {
		return e.onceDo(s, ins, args, at)
	}
	if rs := e.cmpOr(s, g, args); rs != nil {
		ev.Results = rs
		return e.outcomes(s, ins, ev)
	}
	if rs := e.memberOf(s, g, args); rs != nil {
		ev.Results = rs
		return e.outcomes(s, ins, ev)
	}
	ev.Inline = false
	return e.opaque2(s, ins, ev, g.Signature)
}

// memberOf models slices.Contains(list, x) of constant strings as the tests
// x == c, one after the other.
func (e *Engine) memberOf(s *State, g *ssa.Function, args []*Term) []Outcome {
	if g.Origin() == nil || g.Origin().String() != "slices.Contains" || len(args) != 2 || !isStringT(args[1].T) || args[1].IsConst() {
		return nil
	}
	l, ok := e.flatSeq(s, args[0])
	if !ok {
		args[0].any(func(x *Term) bool {
			if g, is := x.Obj.(*ssa.Global); is && !ok {
				var c []string
				if c, ok = e.P.stringList(g); ok {
					for _, y := range c {
						l = append(l, e.T.Str(y))
					}
				}
			}
			return false
		})
	}
	if !ok || len(l) == 0 || len(l) > 8 {
		return nil
	}
	var out []Outcome
	facts := map[*Term]bool{}
	cp := func() map[*Term]bool {
		m := map[*Term]bool{}
		for k, v := range facts {
			m[k] = v
		}
		return m
	}
	for _, c := range l {
		if _, k := c.StrVal(); !k {
			return nil
		}
		a := e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, args[1], c)
		o := Outcome{Ret: e.T.Bool(true), Facts: cp()}
		o.Facts[a] = true
		facts[a] = false
		out = append(out, o)
	}
	return append(out, Outcome{Ret: e.T.Bool(false), Facts: cp()})
}

// cmpOr models cmp.Or of a known list: the first value that is not zero.
func (e *Engine) cmpOr(s *State, g *ssa.Function, args []*Term) []Outcome {
	if g.Origin() == nil || g.Origin().String() != "cmp.Or" || len(args) != 1 {
		return nil
	}
	l, ok := e.flatSeq(s, args[0])
	if !ok || len(l) == 0 {
		return nil
	}
	isZero := func(t *Term) *Term {
		z := e.T.Nil()
		switch {
		case isStringT(t.T):
			z = e.T.Str("")
		case t.T == nil:
			return nil
		default:
			switch t.T.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Chan:
			default:
				return nil
			}
		}
		return e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, t, z)
	}
	var out []Outcome
	facts := map[*Term]bool{}
	for i, x := range l {
		z := isZero(x)
		if z == nil {
			return nil
		}
		o := Outcome{Ret: x, Facts: map[*Term]bool{}}
		for a, v := range facts {
			o.Facts[a] = v
		}
		if i < len(l)-1 {
			o.Facts[z] = false
			facts[z] = true
		}
		out = append(out, o)
	}
	return out
}

// wgGo models (*sync.WaitGroup).Go(f) as Add(1); go { f(); Done() }.
func (e *Engine) wgGo(s *State, ins ssa.Instruction, args []*Term, at ssa.Instruction) bool {
	emit := func(s *State, name string, a ...*Term) {
		if e.C.OnCall != nil {
			e.C.OnCall(e, s, &CallEvent{Name: name, Args: a, Instr: at, Pos: at.Pos(), Kind: 'n'})
		}
	}
	emit(s, "(*sync.WaitGroup).Add", args[0], e.T.Int(1))
	if e.C.OnGo != nil {
		e.C.OnGo(e, s, args[1], nil, at.Pos(), false)
	}
	end := func(e *Engine, s *State) {
		emit(s, "(*sync.WaitGroup).Done", args[0])
		if e.C.OnGo != nil {
			e.C.OnGo(e, s, nil, nil, at.Pos(), true)
		}
	}
	depth := len(s.frames)
	ok := e.invokeTerm(s, ins, args[1], nil, 'g', at)
	if ok && len(s.frames) == depth+1 {
		s.top().onRet = func(e *Engine, s *State, ret []*Term) {
			end(e, s)
			c := s.top()
			if x, is := ins.(ssa.Value); is {
				c.env[x] = e.T.Nil()
			}
			c.pc++
		}
		return true
	}
	if ok {
		end(e, s)
	}
	return ok
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	sel := e.P.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	fn := e.P.SSA.MethodValue(sel)
	if fn == nil {
		return nil
	}
	return fn
}

func (e *Engine) onceDo(s *State, ins ssa.Instruction, args []*Term, at ssa.Instruction) bool {
	r := rootAlloc(args[0])
	if r == nil || args[0] != r {
		// not a local once: it may or may not have run before
		u := s.clone()
		e.finishOpaque(u, ins, e.T.Nil())
		e.push(u)
		return e.invokeTerm(s, ins, args[1], nil, 'n', at)
	}
	k := "once:" + strconv.Itoa(r.id)
	if s.Get(k) != "" {
		e.finishOpaque(s, ins, e.T.Nil())
		return true
	}
	s.Set(k, "1")
	if e.onces == nil {
		e.onces = map[string]*Term{}
	}
	e.onces[k] = r
	return e.invokeTerm(s, ins, args[1], nil, 'n', at)
}

func (e *Engine) outcomes(s *State, ins ssa.Instruction, ev *CallEvent) bool {
	for i, o := range ev.Results {
		u := s
		if i < len(ev.Results)-1 {
			u = s.clone()
		}
		ok := true
		var ks []*Term
		for a := range o.Facts {
			ks = append(ks, a)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, a := range ks {
			if !e.Assume(u, a, o.Facts[a]) {
				ok = false
				break
			}
		}
		if !ok {
			if u == s {
				return false
			}
			continue
		}
		if o.Do != nil {
			o.Do(u)
		}
		r := o.Ret
		if r == nil {
			r = e.T.Nil()
		}
		e.finishOpaque(u, ins, r)
		if u != s {
			e.push(u)
		}
	}
	return len(ev.Results) > 0
}

// callInto runs f with args in place of the call ins; done is called with what
// it returns and finishes the call or ends the path (s.dead).
func (e *Engine) callInto(s *State, ins, at ssa.Instruction, f *Term, args []*Term, done func(e *Engine, s *State, ret []*Term)) {
	nf := &Frame{fn: f.Fn, ctx: s.top().ctx + "/v" + iid(at), env: map[ssa.Value]*Term{}, block: f.Fn.Blocks[0], call: ins, kind: 'c', onRet: done}
	for i, p := range f.Fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		}
	}
	for i, fv := range f.Fn.FreeVars {
		if f.K == KClosure && i < len(f.A) {
			nf.env[fv] = f.A[i]
		}
	}
	e.Funcs[f.Fn] = true
	e.freeze(s.top())
	s.push(nf)
}

func (e *Engine) finishOpaque(s *State, ins ssa.Instruction, r *Term) {
	f := s.top()
	switch x := ins.(type) {
	case *ssa.RunDefers:
		return // re-executed until no defers are left
	case *ssa.Call:
		f.env[x] = r
	case *ssa.Go:
		if e.C.OnGo != nil {
			e.C.OnGo(e, s, nil, nil, x.Pos(), true)
		}
	}
	f.pc++
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "path/filepath": true, "errors": true, "bytes": true, "unicode": true, "regexp": true, "slices": true, "maps": true}

var impureIn = map[string]bool{"path/filepath.Abs": false, "path/filepath.Walk": true, "path/filepath.Glob": true, "errors.As": true, "path/filepath.EvalSymlinks": true}

func pureCall(ev *CallEvent) bool {
	if ev.Fn == nil || ev.Fn.Pkg == nil {
		if ev.Fn != nil {
			if o := ev.Fn.Object(); o != nil && o.Pkg() != nil {
				return purePkgs[o.Pkg().Path()]
			}
		}
		return false
	}
	if impureIn[ev.Name] {
		return false
	}
	if purePkgs[ev.Fn.Pkg.Pkg.Path()] {
		return true
	}
	switch ev.Name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Errorf", "fmt.Sprintln", "os.IsNotExist", "os.Environ", "os.Getenv", "os.LookupEnv":
		return true
	}
	return false
}

// opaque: like opaque2 but fires OnCall first (used for calls not resolved to
// a function value).
func (e *Engine) opaque(s *State, ins ssa.Instruction, ev *CallEvent, sig *types.Signature) bool {
	if e.C.OnCall != nil {
		e.C.OnCall(e, s, ev)
		if ev.Take != nil {
			return ev.Take(e, s, ins)
		}
		if ev.Handled {
			return e.outcomes(s, ins, ev)
		}
	}
	return e.opaque2(s, ins, ev, sig)
}

func (e *Engine) opaque2(s *State, ins ssa.Instruction, ev *CallEvent, sig *types.Signature) bool {
	f := s.top()
	r := e.CallTerm(s, ev, sig)
	if ev.Name == ctxErrFn {
		if v, ok := s.facts[e.ctxErrFact(r)]; ok && !v {
			r = e.T.mk(KCall, ctxErrFn, "", r.T, false, nil, r.A...)
			s.facts[e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, r, e.T.Nil())] = false
			e.finishOpaque(s, ins, r)
			return true
		}
	}
	_ = f
	// the previous activation of this very site is superseded
	if r.Site != "" {
		for a := range s.facts {
			if a.contains(r) {
				delete(s.facts, a)
			}
		}
	}
	// havoc local cells whose address is passed (not for pure calls)
	if !pureCall(ev) {
		var addrs []*Term
		for _, a := range ev.Args {
			e.escaping(s, strip(a), &addrs, 0)
		}
		for _, a := range ev.Free {
			e.escaping(s, strip(a), &addrs, 0)
		}
		inRepo := ev.Fn != nil && e.P.InRepo(ev.Fn)
		if inRepo {
			// what a captured or passed cell holds is reachable, too
			for _, ad := range addrs {
				if v := s.mem[ad]; v != nil && v.K == KAlloc && isMapT(v.T) {
					addrs = append(addrs, v)
				}
			}
		}
		for _, ad := range addrs {
			if x := e.allocOf[ad]; x != nil && e.P.constCell(x) {
				continue
			}
			for k := range s.mem {
				if rootAlloc(k) == ad && k.S != "$len" && k.S != "$cap" && k.S != "$once" {
					if k.K == KFieldAddr && e.P.repoStruct(ptrElem(k.A[0].T)) && !mapMutator(ev) {
						// fields of repository structs change only through
						// repository code: skip them for external callees, and
						// skip init-only fields for re-entrant repository calls
						if !(ev.Rec || inRepo) || !e.P.mutableField(ptrElem(k.A[0].T), k.S) {
							continue
						}
					}
					if c := s.mem[k]; c.K == KMNew || c.K == KMPut || (c.K == KLoop && k.K == KAlloc && isMapT(k.T)) {
						if !mapMutator(ev) && !(inRepo && e.P.mutatesMap(ev.Fn, k.T)) {
							continue // external code does not mutate our maps
						}
					}
					s.mem[k] = e.T.mk(KHavoc, "out:"+ev.Name, f.ctx+"@"+iid(ev.Instr)+"/"+strconv.Itoa(k.id), ptrElem(k.T), false, nil)
				}
			}
			if st := structOf(ptrElem(ad.T)); st != nil && ad.K == KAlloc && jsonDecoder(ev.Name) {
				for i := 0; i < st.NumFields(); i++ {
					k := e.fieldAddr(ad, st, i)
					e.store(s, k, e.T.mk(KHavoc, "out:"+ev.Name+"."+st.Field(i).Name(), f.ctx+"@"+iid(ev.Instr)+"/"+strconv.Itoa(k.id), st.Field(i).Type(), false, nil))
				}
				continue
			}
			if ad.K == KAlloc && ad.Obj == nil && !hasAnyCell(s, ad) {
				if pe := ptrElem(ad.T); pe != nil && structOf(pe) == nil && !isMapT(ad.T) {
					s.mem[ad] = e.T.mk(KHavoc, "out:"+ev.Name, f.ctx+"@"+iid(ev.Instr)+"/"+strconv.Itoa(ad.id), pe, false, nil)
				}
			}
		}
	}
	// callbacks: a repository closure handed to opaque code may run
	if ev.Kind == 'n' {
		for _, a := range ev.Args {
			c := strip(a)
			if (c.K == KClosure || c.K == KFunc) && c.Fn != nil && c.Fn.Blocks != nil && e.P.InRepo(c.Fn) && (e.C.Inline == nil || e.C.Inline(c.Fn)) && !ev.Rec {
				onStack := false
				for _, fr := range s.frames {
					if fr.fn == c.Fn {
						onStack = true
					}
				}
				if onStack {
					continue
				}
				u := s.clone()
				// path on which the callback is never called
				e.finishOpaque(u, ins, r)
				e.push(u)
				// path on which it runs (once, symbolic arguments)
				uf := s.top()
				nf := &Frame{fn: c.Fn, ctx: uf.ctx + "/cb" + iid(ev.Instr), env: map[ssa.Value]*Term{}, block: c.Fn.Blocks[0], call: ins, kind: 'c'}
				for i, p := range c.Fn.Params {
					nf.env[p] = e.T.mk(KHavoc, "cbarg"+strconv.Itoa(i)+":"+p.Name(), nf.ctx, p.Type(), false, nil)
				}
				for i, fv := range c.Fn.FreeVars {
					if c.K == KClosure && i < len(c.A) {
						nf.env[fv] = c.A[i]
					}
				}
				rr := r
				nf.onRet = func(e *Engine, s *State, ret []*Term) {
					if e.C.CallbackTwice {
						u := s.clone()
						n2 := &Frame{fn: c.Fn, ctx: nf.ctx + "2", env: map[ssa.Value]*Term{}, block: c.Fn.Blocks[0], call: ins, kind: 'c'}
						for i, p := range c.Fn.Params {
							n2.env[p] = e.T.mk(KHavoc, "cbarg"+strconv.Itoa(i)+":"+p.Name(), n2.ctx, p.Type(), false, nil)
						}
						for i, fv := range c.Fn.FreeVars {
							if c.K == KClosure && i < len(c.A) {
								n2.env[fv] = c.A[i]
							}
						}
						n2.onRet = func(e *Engine, s *State, ret []*Term) { e.finishOpaque(s, ins, rr) }
						e.freeze(u.top())
						u.push(n2)
						e.push(u)
					}
					e.finishOpaque(s, ins, rr)
				}
				e.Funcs[c.Fn] = true
				e.freeze(uf)
				s.push(nf)
				return true
			}
		}
	}
	e.finishOpaque(s, ins, r)
	return true
}

func isMapT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func mapMutator(ev *CallEvent) bool {
	return ev.Name == "maps.Copy" || ev.Name == "encoding/json.Unmarshal" || strings.Contains(ev.Name, "yaml")
}

// jsonDecoder: fills in whatever its target has.
func jsonDecoder(name string) bool {
	return name == "encoding/json.Unmarshal" || name == "(*encoding/json.Decoder).Decode"
}

func hasAnyCell(s *State, ad *Term) bool {
	for k := range s.mem {
		if rootAlloc(k) == ad {
			return true
		}
	}
	return false
}

func (e *Engine) escaping(s *State, t *Term, out *[]*Term, d int) {
	if d > 4 {
		return
	}
	switch t.K {
	case KAlloc:
		*out = append(*out, t)
	case KFieldAddr, KIndexAddr:
		if r := rootAlloc(t); r != nil && r.K == KAlloc {
			*out = append(*out, r)
		}
	case KIface:
		e.escaping(s, t.A[0], out, d+1)
	case KSlice:
		// variadic slices: the elements may carry addresses; the array itself
		// is not retained
		if lst, ok := e.flatSeq(s, t); ok {
			for _, x := range lst {
				if x.K == KIface || x.K == KAlloc {
					e.escaping(s, strip(x), out, d+1)
				}
			}
		}
	}
}

// CallTerm builds the result term of an opaque call.
func (e *Engine) CallTerm(s *State, ev *CallEvent, sig *types.Signature) *Term {
	site := ""
	if !pureCall(ev) {
		site = s.top().ctx + "@" + iid(ev.Instr)
	}
	var typ types.Type
	if sig != nil {
		switch sig.Results().Len() {
		case 0:
		case 1:
			typ = sig.Results().At(0).Type()
		default:
			typ = sig.Results()
		}
	}
	args := ev.Args
	// resolve variadic argument slices for pure calls so equal calls compare equal
	if len(args) > 0 {
		last := args[len(args)-1]
		if last.K == KSlice {
			if lst, ok := e.flatSeq(s, last); ok {
				args = append(append([]*Term(nil), args[:len(args)-1]...), lst...)
			}
		}
	}
	if site != "" {
		// identity is the site; arguments still recorded
		t := e.T.mk(KCall, ev.Name, site, typ, false, ev.Fn, args...)
		return t
	}
	// no error is none of the errors there are
	if (ev.Name == "errors.Is" || ev.Name == "errors.As") && len(args) == 2 && args[0].IsNil() && !args[1].IsNil() {
		return e.T.Bool(false)
	}
	if ev.Name == "strconv.FormatBool" && len(args) == 1 {
		if b, ok := args[0].BoolVal(); ok {
			return e.T.Str(strconv.FormatBool(b))
		}
	}
	// constant folding of a few pure string functions
	if len(args) == 2 {
		a, ok1 := args[0].StrVal()
		b, ok2 := args[1].StrVal()
		if ok1 && ok2 {
			switch ev.Name {
			case "strings.HasPrefix":
				return e.T.Bool(strings.HasPrefix(a, b))
			case "strings.HasSuffix":
				return e.T.Bool(strings.HasSuffix(a, b))
			case "strings.Contains":
				return e.T.Bool(strings.Contains(a, b))
			case "strings.EqualFold":
				return e.T.Bool(strings.EqualFold(a, b))
			}
		}
	}
	if len(args) == 1 {
		if a, ok := args[0].StrVal(); ok {
			switch ev.Name {
			case "strings.TrimSpace":
				return e.T.Str(strings.TrimSpace(a))
			case "strings.ToLower":
				return e.T.Str(strings.ToLower(a))
			case "strings.ToUpper":
				return e.T.Str(strings.ToUpper(a))
			}
		}
	}
	return e.T.mk(KCall, ev.Name, "", typ, false, ev.Fn, args...)
}

func (e *Engine) builtin(s *State, at ssa.Instruction, name string, args []*Term) *Term {
	var typ types.Type
	if v, ok := at.(ssa.Value); ok {
		typ = v.Type()
	}
	switch name {
	case "len":
		return e.seqLen(s, args[0])
	case "cap":
		if c, ok := s.mem[e.T.mk(KFieldAddr, "$cap", "", nil, false, nil, args[0])]; ok {
			return c
		}
		return e.T.mk(KCall, "cap", "", typ, false, nil, args...)
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		a, b := args[0], args[1]
		// freeze a freshly built variadic tail
		if lst, ok := e.flatSeq(s, b); ok {
			cur := a
			for _, x := range lst {
				cur = e.T.mk(KAppend, "1", "", typ, false, nil, cur, x)
			}
			if e.C.OnAppend != nil {
				e.C.OnAppend(e, s, a, lst, cur, at.Pos())
			}
			return cur
		}
		r := e.T.mk(KAppend, "*", "", typ, false, nil, a, b)
		if e.C.OnAppend != nil {
			e.C.OnAppend(e, s, a, []*Term{b}, r, at.Pos())
		}
		return r
	case "copy":
		dst := args[0]
		if dst.K == KSlice {
			s.mem[dst.A[0]] = e.T.mk(KCall, "copy", "", dst.T, false, nil, args[1])
		}
		return e.T.mk(KCall, "copyN", "", typ, false, nil, args...)
	case "delete":
		c := e.mapContents(s, args[0])
		s.mem[args[0]] = e.T.mk(KMDel, "", "", args[0].T, false, nil, c, args[1])
		if e.C.OnMapPut != nil {
			e.C.OnMapPut(e, s, args[0], args[1], nil, at.Pos())
		}
		return e.T.Nil()
	case "clear":
		if args[0].T != nil && isMapT(args[0].T) {
			s.mem[args[0]] = e.T.mk(KMNew, "cleared", iid(at), args[0].T, false, nil)
			if e.C.OnMapPut != nil {
				e.C.OnMapPut(e, s, args[0], e.T.Nil(), nil, at.Pos())
			}
		}
		return e.T.Nil()
	case "close":
		if e.C.OnSend != nil {
			e.C.OnSend(e, s, args[0], at.Pos(), false)
		}
		return e.T.Nil()
	case "panic":
		if e.C.OnPanic != nil {
			e.C.OnPanic(e, s, at.Pos())
		}
		return nil
	case "recover":
		return e.T.Nil()
	case "min", "max":
		return e.T.mk(KCall, name, "", typ, false, nil, args...)
	}
	return e.T.mk(KCall, "builtin."+name, "", typ, false, nil, args...)
}

func (e *Engine) ret(s *State, f *Frame, ret []*Term) bool {
	if e.C.OnReturn != nil {
		e.C.OnReturn(e, s, f.fn, ret)
	}
	n := len(s.frames)
	if n == 1 {
		if e.C.OnExit != nil {
			e.C.OnExit(e, s, ret)
		}
		return false
	}
	s.pop()
	if e.C.Abstract != nil {
		for i, r := range ret {
			if r.T != nil && r.K != KConst && e.absType(f.fn.Signature.Results().At(i).Type()) {
				ret[i] = e.absVal(f.fn.Signature.Results().At(i).Type(), r)
			}
		}
	}
	if e.C.CollapseErr {
		for i, r := range ret {
			if !isErrT(f.fn.Signature.Results().At(i).Type()) || r.IsNil() || (r.K == KHavoc && r.S == "err!") {
				continue
			}
			bad := e.T.mk(KHavoc, "err!", "", f.fn.Signature.Results().At(i).Type(), false, nil)
			switch e.Nilness(s, r) {
			case 1:
				ret[i] = e.T.Nil()
			case -1:
				ret[i] = bad
			default:
				u := s.clone()
				r2 := append([]*Term(nil), ret...)
				if e.Assume(u, e.T.Bin(token.EQL, r, e.T.Nil(), nil), true) {
					r2[i] = e.T.Nil()
					if e.ret2(u, f, r2) {
						e.push(u)
					}
				}
				if !e.Assume(s, e.T.Bin(token.EQL, r, e.T.Nil(), nil), false) {
					return false
				}
				ret[i] = bad
			}
		}
	}
	return e.ret2(s, f, ret)
}

func isErrT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (e *Engine) ret2(s *State, f *Frame, ret []*Term) bool {
	c := s.top()
	if f.onRet != nil {
		f.onRet(e, s, ret)
		if s.dead {
			return false
		}
		return e.dedupe(s)
	}
	var r *Term
	switch len(ret) {
	case 0:
		r = e.T.Nil()
	case 1:
		r = ret[0]
	default:
		r = e.T.mk(KTuple, "", "", f.fn.Signature.Results(), false, nil, ret...)
	}
	switch x := f.call.(type) {
	case *ssa.RunDefers:
		// stay
	case *ssa.Call:
		c.env[x] = r
		c.pc++
	case *ssa.Go:
		if e.C.OnGo != nil {
			e.C.OnGo(e, s, nil, nil, x.Pos(), true)
		}
		c.pc++
	default:
		c.pc++
	}
	return e.dedupe(s)
}

var debugEnv = os.Getenv("BABVERIF_DEBUG") != ""
