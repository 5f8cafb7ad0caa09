package main

// Whole-program forward taint over SSA: flow-insensitive, field-based,
// interprocedural through static calls, closures and interface calls to
// repository methods. A container is tainted when something in it is.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Taint struct {
	p *Prog
	// Clean: the results of this callee are not tainted, whatever goes in.
	Clean func(name string) bool
	// Sink: why this call must not see tainted data ("": it may).
	Sink func(name string, cc *ssa.CallCommon) string
	// FieldSink: why this field must not hold tainted data.
	FieldSink func(st types.Type, field string) string
	// Report gets every violation.
	Report func(key string, pos token.Pos, why string, trail []string)

	vals   map[ssa.Value]ssa.Value // tainted value -> where it came from
	conts  map[ssa.Value]bool
	fields map[string]ssa.Value
	rets   map[*ssa.Function]map[int]bool
	work   []ssa.Value
	root   map[ssa.Value]string
}

func NewTaint(p *Prog) *Taint {
	return &Taint{p: p, vals: map[ssa.Value]ssa.Value{}, conts: map[ssa.Value]bool{}, fields: map[string]ssa.Value{}, rets: map[*ssa.Function]map[int]bool{}, root: map[ssa.Value]string{}}
}

func (t *Taint) add(v, from ssa.Value) {
	if v == nil {
		return
	}
	if _, ok := t.vals[v]; ok {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	switch u := v.Type().Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return
		}
	}
	t.vals[v] = from
	t.work = append(t.work, v)
}

// Source marks v itself as tainted.
func (t *Taint) Source(v ssa.Value, what string) {
	t.root[v] = what
	t.add(v, nil)
	t.container(v, nil)
}

// container marks what v refers to as holding tainted data.
func (t *Taint) container(v, from ssa.Value) {
	if v == nil || t.conts[v] {
		return
	}
	t.conts[v] = true
	t.add(v, from)
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.container(e, v)
		}
	case *ssa.Parameter:
		fn := x.Parent()
		for i, prm := range fn.Params {
			if prm != x {
				continue
			}
			for _, ci := range t.p.index().calls[fn] {
				cc := ci.Common()
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				if i < len(args) && pointerLike(args[i].Type()) {
					t.container(args[i], v)
				}
			}
		}
	case *ssa.FreeVar:
		for _, b := range t.p.index().binds[x] {
			t.container(b, v)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && pointerLike(x.Type()) {
			t.container(x.X, v)
		}
	case *ssa.FieldAddr:
		t.field(fieldKey(x), v, x.Pos())
	case *ssa.Field:
		t.field(fieldKey(x), v, x.Pos())
	case *ssa.IndexAddr:
		t.container(x.X, v)
	case *ssa.Slice:
		t.container(x.X, v)
	case *ssa.MakeInterface:
		if pointerLike(x.X.Type()) {
			t.container(x.X, v)
		}
	case *ssa.ChangeType:
		t.container(x.X, v)
	case *ssa.TypeAssert:
		t.container(x.X, v)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			t.container(ta.X, v)
		}
	case *ssa.Global:
		if why := t.FieldSink(nil, x.String()); why != "" {
			t.report("global "+x.Name(), x.Pos(), why, from)
		}
	}
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan:
		return true
	}
	return false
}

func (t *Taint) field(key string, from ssa.Value, pos token.Pos) {
	if key == "" {
		return
	}
	if _, ok := t.fields[key]; ok {
		return
	}
	t.fields[key] = from
	i := strings.LastIndexByte(key, '.')
	if why := t.FieldSink(t.typeOf(from), key[i+1:]); why != "" {
		t.report("field "+strings.ReplaceAll(key, t.p.Mod+"/", ""), pos, why, from)
	}
	for _, fn := range t.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if fieldKey(x) == key {
						t.add(x, from)
					}
				case *ssa.Field:
					if fieldKey(x) == key {
						t.add(x, from)
					}
				}
			}
		}
	}
}

func (t *Taint) typeOf(v ssa.Value) types.Type {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return deref(x.X.Type())
	case *ssa.Field:
		return x.X.Type()
	}
	return nil
}

// store: tainted val goes to addr.
func (t *Taint) store(addr, val ssa.Value) {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		t.add(fa, val)
		t.field(fieldKey(fa), fa, fa.Pos())
		return
	}
	t.container(addr, val)
}

func (t *Taint) Run() {
	for len(t.work) > 0 {
		v := t.work[0]
		t.work = t.work[1:]
		t.uses(v)
	}
}

// holds: whether data of v's type has a tainted field.
func (t *Taint) holds(typ types.Type, d int) bool {
	if d > 4 {
		return false
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		return t.holds(u.Elem(), d+1)
	case *types.Slice:
		return t.holds(u.Elem(), d+1)
	case *types.Map:
		return t.holds(u.Elem(), d+1)
	case *types.Struct:
		name := strings.TrimPrefix(typ.String(), "*")
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := t.fields[name+"."+u.Field(i).Name()]; ok {
				return true
			}
			if t.holds(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func (t *Taint) uses(v ssa.Value) {
	if fn, ok := v.(*ssa.Function); ok {
		_ = fn
		return
	}
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, ins := range *refs {
		switch x := ins.(type) {
		case *ssa.Phi:
			t.add(x, v)
			if pointerLike(x.Type()) && t.conts[v] {
				t.conts[x] = true
			}
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Slice, *ssa.MultiConvert:
			t.add(x.(ssa.Value), v)
		case *ssa.UnOp:
			t.add(x, v)
		case *ssa.Field:
			if _, ok := t.fields[fieldKey(x)]; ok {
				t.add(x, v)
			}
		case *ssa.FieldAddr:
			// by field
		case *ssa.IndexAddr:
			if x.X == v {
				t.add(x, v)
			}
		case *ssa.Index:
			if x.X == v {
				t.add(x, v)
			}
		case *ssa.Lookup:
			if x.X == v {
				t.add(x, v)
			}
		case *ssa.Range:
			t.add(x, v)
		case *ssa.Next:
			t.add(x, v)
		case *ssa.Extract:
			switch tup := x.Tuple.(type) {
			case *ssa.Next:
				if x.Index == 2 || tup.IsString {
					t.add(x, v)
				}
			case *ssa.Lookup, *ssa.TypeAssert:
				if x.Index == 0 {
					t.add(x, v)
				}
			case *ssa.Call:
				// by result
				if g := tup.Common().StaticCallee(); g != nil && g.Blocks != nil && t.p.InRepo(g) {
					if t.rets[g][x.Index] {
						t.add(x, v)
					}
				} else {
					t.add(x, v)
				}
			}
		case *ssa.Store:
			if x.Val == v {
				t.store(x.Addr, v)
			}
		case *ssa.MapUpdate:
			if x.Value == v {
				t.container(x.Map, v)
			}
		case *ssa.Send:
			if x.X == v {
				t.container(x.Chan, v)
			}
		case *ssa.Return:
			fn := x.Parent()
			for i, r := range x.Results {
				if r == v {
					t.ret(fn, i, v)
				}
			}
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v {
					t.add(g.FreeVars[i], v)
				}
			}
		case *ssa.Panic:
			t.report("panic", x.Pos(), "ends the program with it", v)
		case ssa.CallInstruction:
			t.call(x, v)
		}
	}
}

func (t *Taint) ret(fn *ssa.Function, i int, v ssa.Value) {
	if t.rets[fn] == nil {
		t.rets[fn] = map[int]bool{}
	}
	if t.rets[fn][i] {
		return
	}
	t.rets[fn][i] = true
	if t.Clean(t.p.FnName(fn)) {
		return
	}
	n := fn.Signature.Results().Len()
	mark := func(ci ssa.CallInstruction) {
		c, ok := ci.(*ssa.Call)
		if !ok {
			return
		}
		if n == 1 {
			t.add(c, v)
			return
		}
		for _, r := range *c.Referrers() {
			if x, ok := r.(*ssa.Extract); ok && x.Index == i {
				t.add(x, v)
			}
			if r, ok := r.(*ssa.Return); ok {
				_ = r
				t.ret(c.Parent(), i, v)
			}
		}
	}
	for _, ci := range t.p.index().calls[fn] {
		mark(ci)
	}
	// handed out as a value
	for _, g := range t.p.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.MakeClosure:
					if x.Fn == ssa.Value(fn) {
						t.funcValue(x, v)
					}
				case ssa.CallInstruction:
					for _, a := range x.Common().Args {
						if a == ssa.Value(fn) {
							if c, ok := x.(*ssa.Call); ok && (c.Common().StaticCallee() == nil || c.Common().StaticCallee().Blocks == nil || !t.p.InRepo(c.Common().StaticCallee())) {
								t.add(c, v)
							}
						}
					}
				}
			}
		}
	}
}

// funcValue: calls of a function value that yields tainted data.
func (t *Taint) funcValue(f ssa.Value, v ssa.Value) {
	seen := map[ssa.Value]bool{}
	var walk func(f ssa.Value)
	walk = func(f ssa.Value) {
		if seen[f] || f.Referrers() == nil {
			return
		}
		seen[f] = true
		for _, r := range *f.Referrers() {
			switch x := r.(type) {
			case *ssa.Call:
				if x.Common().Value == f {
					t.add(x, v)
					continue
				}
				if g := x.Common().StaticCallee(); g != nil && g.Blocks != nil && t.p.InRepo(g) {
					for i, a := range x.Common().Args {
						if a == f && i < len(g.Params) {
							walk(g.Params[i])
						}
					}
					continue
				}
				t.add(x, v)
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					walk(a)
				}
			case *ssa.UnOp, *ssa.Phi, *ssa.ChangeType:
				walk(x.(ssa.Value))
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == f {
						walk(g.FreeVars[i])
					}
				}
			}
		}
	}
	walk(f)
}

func (t *Taint) call(ci ssa.CallInstruction, v ssa.Value) {
	cc := ci.Common()
	name := t.p.CalleeName(cc)
	if cc.Value == v && !cc.IsInvoke() {
		return
	}
	if why := t.Sink(name, cc); why != "" {
		t.report(name, ci.Pos(), why, v)
		return
	}
	args := cc.Args
	var targets []*ssa.Function
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
		targets = t.p.methodsNamed(cc.Method)
	} else if g := cc.StaticCallee(); g != nil {
		if g.Blocks != nil && t.p.InRepo(g) {
			targets = []*ssa.Function{g}
		}
	} else {
		targets = t.p.dynTargets(cc.Value)
	}
	for _, g := range targets {
		for i, a := range args {
			if a == v && i < len(g.Params) {
				t.add(g.Params[i], v)
			}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if c, ok := ci.(*ssa.Call); ok {
				t.add(c, v)
			}
		case "copy":
			if cc.Args[1] == v {
				t.container(cc.Args[0], v)
			}
		case "print", "println", "panic":
			t.report(b.Name(), ci.Pos(), "prints it", v)
		}
		return
	}
	if len(targets) > 0 || t.Clean(name) {
		return
	}
	if name == "maps.Keys" {
		return
	}
	// outside the repository: what comes out may hold what goes in
	if c, ok := ci.(*ssa.Call); ok {
		t.add(c, v)
	}
	for _, a := range args {
		if a != v && pointerLike(a.Type()) && (strings.HasPrefix(name, "maps.Copy") || strings.HasPrefix(name, "slices.") || strings.Contains(name, "strings.Builder).Write") || strings.Contains(name, "bytes.Buffer).Write")) {
			t.container(a, v)
		}
	}
}

// dynTargets: the repository functions a function value may be.
func (p *Prog) dynTargets(v ssa.Value) []*ssa.Function {
	var out []*ssa.Function
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Function:
			if x.Blocks != nil && p.InRepo(x) {
				out = append(out, x)
			}
		case *ssa.MakeClosure:
			walk(x.Fn)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.UnOp:
			walk(x.X)
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == v {
					walk(s.Val)
				}
			}
		case *ssa.FreeVar:
			for _, b := range p.index().binds[x] {
				walk(b)
			}
		case *ssa.Parameter:
			for i, prm := range x.Parent().Params {
				if prm == x {
					for _, ci := range p.index().calls[x.Parent()] {
						if a := ci.Common().Args; !ci.Common().IsInvoke() && i < len(a) {
							walk(a[i])
						}
					}
				}
			}
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.FieldAddr:
			for _, s := range p.index().stores[fieldKey(x)] {
				walk(s.Val)
			}
		}
	}
	walk(v)
	return out
}

func (t *Taint) report(key string, pos token.Pos, why string, v ssa.Value) {
	var trail []string
	for i := 0; v != nil && i < 40; i++ {
		s := t.p.Pos(v.Pos()) + " " + v.Name() + " in "
		if f := v.Parent(); f != nil {
			s += t.p.FnName(f)
			if v.Pos() == token.NoPos {
				s = t.p.Pos(f.Pos()) + s
			}
		}
		if r := t.root[v]; r != "" {
			s += " (" + r + ")"
		}
		trail = append(trail, s)
		v = t.vals[v]
	}
	for i, j := 0, len(trail)-1; i < j; i, j = i+1, j-1 {
		trail[i], trail[j] = trail[j], trail[i]
	}
	t.Report(key, pos, why, trail)
}

// Funcs lists the functions tainted data was seen in.
func (t *Taint) Funcs() []*ssa.Function {
	m := map[*ssa.Function]bool{}
	for v := range t.vals {
		if f := v.Parent(); f != nil {
			m[f] = true
		}
	}
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
