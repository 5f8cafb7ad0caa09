package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C23",
		Technique: "interprocedural provenance analysis over SSA of every pair of a file and a line that ends in an error message: which document, task or item each of the two comes from, with obligations passed up to every call site",
		Explain:   "Every error value (and every context that errors are made from) that carries a path and a line is found. The line is traced to a YAML node, a task or an item, the path to the document, the task's source path or a parameter; both must belong to the same thing, else the obligation is handed to every caller with its arguments. In a loop over the entries of a mapping or list, the line is one of an entry, not of the whole. A text of an item is interpolated with that item's line. Tasks and items keep their line and file when they are copied, and messages print path and line, in this order.",
		Run:       runC23,
		Floors:    map[string]int{"location of an error": 20, "text interpolated with its own line": 3, "location carried along": 4, "location printed": 4},
	})
}

type ent struct {
	kind string // node task item loc path int carrier bytes runner yamlerr val none other ?
	v    ssa.Value
	f    string
	fp   string // the field of v (a struct that is handed around) that holds it
}

type c23 struct {
	p    *Prog
	e    *Engine
	seen map[string]bool
	busy map[string]bool
}

const (
	yamlNode = "gopkg.in/yaml.v3.Node"
)

func c23Node(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Node" && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "gopkg.in/yaml")
}

func c23Deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func (c *c23) isTask(t types.Type) bool { return c.p.named(c23Deref(t), "internal/babfile", "Task") }

// itemStruct: a run item declared in the Babfile package.
func (c *c23) itemStruct(t types.Type) bool {
	t = c23Deref(t)
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != c.p.Mod+"/internal/babfile" || c.isTask(t) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Line" {
			return true
		}
	}
	return false
}

func (c *c23) itemType(t types.Type) bool {
	if c.itemStruct(t) {
		return true
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "RunItem" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == c.p.Mod+"/internal/babfile"
}

// locType: a struct of the repository that carries a path and a line.
func (c *c23) locType(t types.Type) (path, line string, ok bool) {
	t = c23Deref(t)
	n, k := types.Unalias(t).(*types.Named)
	if !k || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), c.p.Mod) || c.isTask(t) || c.itemStruct(t) {
		return
	}
	st, k := n.Underlying().(*types.Struct)
	if !k {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		b, k := st.Field(i).Type().Underlying().(*types.Basic)
		if !k {
			continue
		}
		switch nm := strings.ToLower(st.Field(i).Name()); {
		case b.Kind() == types.String && (nm == "path" || nm == "file"):
			path = st.Field(i).Name()
		case b.Info()&types.IsInteger != 0 && nm == "line":
			line = st.Field(i).Name()
		}
	}
	return path, line, path != "" && line != ""
}

func wholeStores(al *ssa.Alloc) []ssa.Value {
	var r []ssa.Value
	for _, x := range *al.Referrers() {
		if st, ok := x.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			r = append(r, st.Val)
		}
	}
	return r
}

// canon strips copies: conversions, loads of variables that are set once,
// captured variables.
func (c *c23) canon(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.FreeVar:
			b := c.p.index().binds[x]
			if len(b) != 1 {
				return v
			}
			v = b[0]
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			a := x.X
			for k := 0; k < 6; k++ {
				fv, ok := a.(*ssa.FreeVar)
				if !ok {
					break
				}
				b := c.p.index().binds[fv]
				if len(b) != 1 {
					break
				}
				a = b[0]
			}
			al, ok := a.(*ssa.Alloc)
			if !ok {
				return v
			}
			ws := wholeStores(al)
			if len(ws) != 1 {
				return v
			}
			if _, ok := c23Deref(al.Type()).Underlying().(*types.Struct); ok {
				return al
			}
			v = ws[0]
		default:
			return v
		}
	}
	return v
}

func fldOf(v ssa.Value) (base ssa.Value, name string, ok bool) {
	switch x := v.(type) {
	case *ssa.Field:
		return x.X, structOf(x.X.Type()).Field(x.Field).Name(), true
	case *ssa.UnOp:
		if fa, k := x.X.(*ssa.FieldAddr); k && x.Op == token.MUL {
			return fa.X, structOf(ptrElem(fa.X.Type())).Field(fa.Field).Name(), true
		}
	}
	return nil, "", false
}

// taskRoot: the value that stands for the task.
func (c *c23) taskRoot(v ssa.Value) ssa.Value {
	v = c.canon(v)
	if al, ok := v.(*ssa.Alloc); ok {
		if ws := wholeStores(al); len(ws) == 1 {
			if w := c.canon(ws[0]); c.isTask(w.Type()) {
				return w
			}
		}
	}
	if x, ok := v.(*ssa.UnOp); ok && x.Op == token.MUL && c.isTask(x.Type()) {
		if _, k := x.X.(*ssa.FieldAddr); !k {
			return c.canon(x.X)
		}
	}
	return v
}

// itemRoot: the value that stands for the item.
func (c *c23) itemRoot(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		w := c.canon(v)
		switch x := w.(type) {
		case *ssa.TypeAssert:
			w = x.X
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
				w = ta.X
			}
		case *ssa.Alloc:
			if ws := wholeStores(x); len(ws) == 1 {
				w = ws[0]
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := c.canon(x.X).(*ssa.Alloc); ok {
					if ws := wholeStores(al); len(ws) == 1 {
						w = ws[0]
					}
				}
			}
		}
		if w == v {
			return v
		}
		v = w
	}
	return v
}

// itemBases: which task (or parameter) the item is one of.
func (c *c23) itemBases(v ssa.Value, d int) []ent {
	if d > 12 {
		return nil
	}
	v = c.itemRoot(v)
	switch x := v.(type) {
	case *ssa.Parameter:
		return []ent{{kind: "item", v: x}}
	case *ssa.Phi:
		var r []ent
		for _, e := range x.Edges {
			if e != v {
				r = append(r, c.itemBases(e, d+1)...)
			}
		}
		return r
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return c.sliceBases(ia.X, d+1, map[ssa.Value]bool{})
		}
	}
	return []ent{{kind: "?", v: v}}
}

func (c *c23) sliceBases(v ssa.Value, d int, seen map[ssa.Value]bool) []ent {
	v = c.canon(v)
	if d > 12 || seen[v] {
		return nil
	}
	seen[v] = true
	if b, f, ok := fldOf(v); ok {
		if f == "Run" && c.isTask(b.Type()) {
			return []ent{{kind: "task", v: c.taskRoot(b)}}
		}
		if f == "Items" && c.itemStruct(b.Type()) {
			var r []ent
			bb := c.canon(b)
			if al, ok := bb.(*ssa.Alloc); ok {
				for _, rf := range *al.Referrers() {
					if fa, ok := rf.(*ssa.FieldAddr); ok && structOf(ptrElem(fa.X.Type())).Field(fa.Field).Name() == "Items" {
						for _, r2 := range *fa.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
								r = append(r, c.sliceBases(st.Val, d+1, seen)...)
							}
						}
					}
				}
			}
			if root := c.itemRoot(b); root != bb || len(r) == 0 {
				r = append(r, c.itemBases(b, d+1)...)
			}
			return r
		}
		return []ent{{kind: "?", v: v}}
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return []ent{{kind: "item", v: x}}
	case *ssa.Const, *ssa.MakeSlice:
		return nil
	case *ssa.Slice:
		return c.sliceBases(x.X, d+1, seen)
	case *ssa.Alloc:
		var r []ent
		for _, rf := range *x.Referrers() {
			if ia, ok := rf.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						r = append(r, c.itemBases(st.Val, d+1)...)
					}
				}
			}
		}
		for _, w := range wholeStores(x) {
			r = append(r, c.sliceBases(w, d+1, seen)...)
		}
		return r
	case *ssa.UnOp:
		if al, ok := c.canon(x.X).(*ssa.Alloc); ok {
			return c.sliceBases(al, d+1, seen)
		}
	case *ssa.Phi:
		var r []ent
		for _, e := range x.Edges {
			r = append(r, c.sliceBases(e, d+1, seen)...)
		}
		return r
	case *ssa.Call:
		if c.p.CalleeName(&x.Call) == "builtin.append" {
			return append(c.sliceBases(x.Call.Args[0], d+1, seen), c.sliceBases(x.Call.Args[1], d+1, seen)...)
		}
	case *ssa.Extract:
	}
	return []ent{{kind: "?", v: v}}
}

// nodeRoots: the document (or parameter) the node is part of.
func (c *c23) nodeRoots(v ssa.Value, d int) []ssa.Value {
	if d > 14 {
		return nil
	}
	v = c.canon(v)
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.Alloc:
		return []ssa.Value{v}
	case *ssa.Phi:
		var r []ssa.Value
		k := "phi" + x.Name() + c.p.FnName(x.Parent())
		if c.busy[k] {
			return nil
		}
		c.busy[k] = true
		for _, e := range x.Edges {
			r = append(r, c.nodeRoots(e, d+1)...)
		}
		delete(c.busy, k)
		return r
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			s := c.canon(a.X)
			if sl, ok := s.(*ssa.Slice); ok {
				s = c.canon(sl.X)
			}
			if b, f, ok := fldOf(s); ok && f == "Content" {
				return c.nodeRoots(b, d+1)
			}
		case *ssa.FieldAddr:
			if c23Node(a.X.Type()) {
				return c.nodeRoots(a.X, d+1)
			}
			var r []ssa.Value
			for _, s := range c.fieldSources(a.X, a.Field, d) {
				r = append(r, c.nodeRoots(s, d+1)...)
			}
			return r
		case *ssa.Alloc:
			var r []ssa.Value
			for _, w := range wholeStores(a) {
				r = append(r, c.nodeRoots(w, d+1)...)
			}
			return r
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil || !c.p.InRepo(g) {
			return nil
		}
		var r []ssa.Value
		for _, ret := range returnsOf(g) {
			if len(ret.Results) != 1 {
				continue
			}
			for _, w := range c.nodeRoots(ret.Results[0], d+1) {
				if i := paramIndex(g, w); i >= 0 {
					r = append(r, c.nodeRoots(x.Call.Args[i], d+1)...)
				}
			}
		}
		return r
	}
	return nil
}

func returnsOf(g *ssa.Function) []*ssa.Return {
	var r []*ssa.Return
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			r = append(r, ret)
		}
	}
	return r
}

func paramIndex(g *ssa.Function, v ssa.Value) int {
	for i, p := range g.Params {
		if ssa.Value(p) == v {
			return i
		}
	}
	return -1
}

// fieldSources: what is put into a field of a local struct, here or by the
// functions its address is given to (in terms of their arguments).
func (c *c23) fieldSources(base ssa.Value, field int, d int) []ssa.Value {
	if d > 14 {
		return nil
	}
	base = c.canon(base)
	if base.Referrers() == nil {
		return nil
	}
	var r []ssa.Value
	for _, rf := range *base.Referrers() {
		switch x := rf.(type) {
		case *ssa.FieldAddr:
			if x.Field != field {
				continue
			}
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					r = append(r, st.Val)
				}
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || g.Blocks == nil || !c.p.InRepo(g) {
				continue
			}
			for i, a := range x.Call.Args {
				if a != base || i >= len(g.Params) {
					continue
				}
				for _, s := range c.fieldSources(g.Params[i], field, d+1) {
					for _, w := range c.nodeRoots(s, d+1) {
						if k := paramIndex(g, w); k >= 0 {
							r = append(r, x.Call.Args[k])
						}
					}
				}
			}
		}
	}
	return r
}

// ---- subjects -----------------------------------------------------------------

func (c *c23) lineSubj(v ssa.Value, d int) []ent {
	if d > 10 {
		return []ent{{kind: "?"}}
	}
	v = c.canon(v)
	if b, f, ok := fldOf(v); ok {
		t := b.Type()
		_, ln, loc := c.locType(t)
		switch {
		case c23Node(t):
			if f != "Line" {
				return []ent{{kind: "other", v: v}}
			}
			rs := c.nodeRoots(b, 0)
			if len(rs) == 0 {
				return []ent{{kind: "?"}}
			}
			var r []ent
			for _, x := range rs {
				r = append(r, ent{kind: "node", v: x, f: ""})
			}
			return r
		case c.isTask(t):
			if f != "Line" && f != "DepsLine" {
				return []ent{{kind: "other", v: v}}
			}
			return []ent{{kind: "task", v: c.taskRoot(b), f: f}}
		case c.itemStruct(t):
			if f != "Line" {
				return []ent{{kind: "other", v: v}}
			}
			return []ent{{kind: "item", v: c.itemRoot(b), f: ""}}
		case loc:
			if f != ln {
				return []ent{{kind: "other", v: v}}
			}
			return []ent{{kind: "loc", v: c.locRoot(b), f: f}}
		case c.p.repoStruct(c23Deref(t)):
			if d < 8 {
				return c.recast(ent{kind: "carrier", v: c.locRoot(b), f: f}, b, d+1)
			}
			return []ent{{kind: "carrier", v: c.locRoot(b), f: f}}
		}
		return []ent{{kind: "?"}}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if n, ok := constInt(x); ok && n == 0 {
			return []ent{{kind: "none"}}
		}
		return []ent{{kind: "other", v: v}}
	case *ssa.Parameter:
		return []ent{{kind: "int", v: x, f: ""}}
	case *ssa.Phi:
		k := "line" + x.Name() + c.p.FnName(x.Parent())
		if c.busy[k] {
			return nil
		}
		c.busy[k] = true
		var r []ent
		for _, e := range x.Edges {
			r = append(r, c.lineSubj(e, d+1)...)
		}
		delete(c.busy, k)
		return r
	case *ssa.BinOp:
		return []ent{{kind: "other", v: v}}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			var r []ent
			for _, w := range wholeStores(al) {
				r = append(r, c.lineSubj(w, d+1)...)
			}
			return r
		}
	case *ssa.Convert:
		return c.lineSubj(x.X, d+1)
	case *ssa.Call:
		if x.Call.IsInvoke() {
			if x.Call.Method.Name() == "GetLine" {
				return []ent{{kind: "item", v: c.itemRoot(x.Call.Value), f: ""}}
			}
			return []ent{{kind: "?"}}
		}
		g := x.Call.StaticCallee()
		if as := orArgs(&x.Call); len(as) > 0 {
			var r []ent
			for _, a := range as {
				r = append(r, c.lineSubj(a, d+1)...)
			}
			return r
		}
		if g == nil || g.Blocks == nil || !c.p.InRepo(g) {
			return []ent{{kind: "?"}}
		}
		if len(g.Params) == 1 && isErrT(g.Params[0].Type()) {
			return []ent{{kind: "yamlerr", v: c.canon(x.Call.Args[0]), f: ""}}
		}
		var r []ent
		for _, ret := range returnsOf(g) {
			for _, s := range c.lineSubj(ret.Results[0], d+1) {
				r = append(r, c.subst(g, &x.Call, s, d)...)
			}
		}
		return r
	}
	return []ent{{kind: "?"}}
}

func constInt(x *ssa.Const) (int64, bool) {
	if x.Value == nil {
		return 0, false
	}
	if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	return x.Int64(), true
}

// locRoot: the struct a field was read from.
func (c *c23) locRoot(v ssa.Value) ssa.Value {
	v = c.canon(v)
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if al, ok := ld.X.(*ssa.Alloc); ok {
			v = al
		}
	}
	if al, ok := v.(*ssa.Alloc); ok {
		if ws := wholeStores(al); len(ws) == 1 {
			w := c.canon(ws[0])
			if ld, ok := w.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if _, ok := ld.X.(*ssa.Alloc); ok {
					return al
				}
			}
			return w
		}
	}
	return v
}

func (c *c23) pathSubj(v ssa.Value, d int) []ent {
	if d > 10 {
		return []ent{{kind: "?"}}
	}
	v = c.canon(v)
	if b, f, ok := fldOf(v); ok {
		t := b.Type()
		pth, _, loc := c.locType(t)
		switch {
		case c.isTask(t):
			if f != "SourcePath" {
				return []ent{{kind: "other", v: v}}
			}
			return []ent{{kind: "task", v: c.taskRoot(b), f: ""}}
		case loc:
			if f != pth {
				return []ent{{kind: "other", v: v}}
			}
			return []ent{{kind: "loc", v: c.locRoot(b), f: f}}
		case c23Node(t), c.itemStruct(t):
			return []ent{{kind: "other", v: v}}
		}
		if !c.loaded(t) {
			if d < 8 {
				return c.recast(ent{kind: "carrier", v: c.locRoot(b), f: f}, b, d+1)
			}
			return []ent{{kind: "?"}}
		}
		return []ent{{kind: "runner", v: v, f: ""}}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.ExactString() == `""` {
			return []ent{{kind: "none"}}
		}
		return []ent{{kind: "other", v: v}}
	case *ssa.Parameter:
		return []ent{{kind: "path", v: x, f: ""}}
	case *ssa.Phi:
		k := "path" + x.Name() + c.p.FnName(x.Parent())
		if c.busy[k] {
			return nil
		}
		c.busy[k] = true
		var r []ent
		guard := true
		for i, e := range x.Edges {
			xs := c.pathSubj(e, d+1)
			if !hasTask(xs) && !c.guardsTask(x.Block().Preds[i]) {
				guard = false
			}
			r = append(r, xs...)
		}
		delete(c.busy, k)
		if !guard {
			return r
		}
		return preferTask(r)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			var r []ent
			for _, w := range wholeStores(al) {
				r = append(r, c.pathSubj(w, d+1)...)
			}
			return preferTask(r)
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.pathCall(call, x.Index, v, d)
		}
	case *ssa.Call:
		return c.pathCall(x, 0, v, d)
	}
	return []ent{{kind: "val", v: v, f: ""}}
}

// loaded: a struct that stands for the Babfile that was loaded as a whole.
func (c *c23) loaded(t types.Type) bool {
	n, ok := types.Unalias(c23Deref(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), c.p.Mod) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "GlobalVars" {
			return true
		}
	}
	return false
}

// preferTask: "the task's own file, or a default when it has none" is the
// task's file.
func preferTask(r []ent) []ent {
	var t []ent
	for _, x := range r {
		if x.kind == "task" {
			t = append(t, x)
		}
	}
	if len(t) > 0 {
		return t
	}
	return r
}

// orArgs: the arguments of cmp.Or.
func orArgs(cc *ssa.CallCommon) []ssa.Value {
	g := cc.StaticCallee()
	if g == nil || len(cc.Args) != 1 {
		return nil
	}
	if o := g.Origin(); o != nil {
		g = o
	}
	if g.Name() != "Or" || g.Pkg == nil || g.Pkg.Pkg.Path() != "cmp" {
		return nil
	}
	return sliceElems(cc.Args[0])
}

func hasTask(r []ent) bool {
	for _, x := range r {
		if x.kind == "task" {
			return true
		}
	}
	return false
}

// guardsTask: the block is only reached by a branch that looks at the file
// of the task.
func (c *c23) guardsTask(b *ssa.BasicBlock) bool {
	for ; b != nil; b = b.Idom() {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && c.mentions(iff.Cond, 0) {
			return true
		}
	}
	return false
}

func (c *c23) mentions(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	if b, f, ok := fldOf(c.canon(v)); ok && f == "SourcePath" && c.isTask(b.Type()) {
		return true
	}
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range ins.Operands(nil) {
		if *o != nil && c.mentions(*o, d+1) {
			return true
		}
	}
	return false
}

func (c *c23) pathCall(call *ssa.Call, res int, v ssa.Value, d int) []ent {
	g := call.Call.StaticCallee()
	if g == nil {
		return []ent{{kind: "?"}}
	}
	if as := orArgs(&call.Call); len(as) > 0 {
		var r []ent
		for i, a := range as {
			xs := c.pathSubj(a, d+1)
			if i == 0 && hasTask(xs) {
				return xs
			}
			r = append(r, xs...)
		}
		return r
	}
	if !c.p.InRepo(g) || g.Blocks == nil {
		// a path made from a path; the last one is what it is about
		if strings.HasPrefix(c.p.CalleeName(&call.Call), "path/filepath.") && len(call.Call.Args) > 0 {
			a := call.Call.Args[len(call.Call.Args)-1]
			if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				r := c.pathSubj(a, d+1)
				if len(r) == 1 && r[0].kind == "path" || len(r) == 1 && r[0].kind == "loc" {
					return r
				}
			}
		}
		return []ent{{kind: "val", v: v, f: ""}}
	}
	var r []ent
	guard := true
	for _, ret := range returnsOf(g) {
		if res >= len(ret.Results) {
			continue
		}
		xs := c.pathSubj(ret.Results[res], d+1)
		if !hasTask(xs) && !c.guardsTask(ret.Block()) {
			guard = false
		}
		for _, s := range xs {
			r = append(r, c.subst(g, &call.Call, s, d)...)
		}
	}
	if !guard {
		return r
	}
	return preferTask(r)
}

// subst expresses what a function says of its parameters in terms of a call.
func (c *c23) subst(g *ssa.Function, cc *ssa.CallCommon, s ent, d int) []ent {
	if s.v == nil {
		return []ent{s}
	}
	prm, ok := s.v.(*ssa.Parameter)
	if !ok || prm.Parent() != g {
		return []ent{s}
	}
	i := paramIndex(g, prm)
	if cc.IsInvoke() {
		if i == 0 {
			return c.recast(s, cc.Value, d)
		}
		i--
	}
	if i < 0 || i >= len(cc.Args) {
		return []ent{{kind: "?"}}
	}
	return c.recast(s, cc.Args[i], d)
}

func (c *c23) recast(s ent, a ssa.Value, d int) []ent {
	if s.fp != "" {
		root := c.locRoot(a)
		if _, ok := isPar(root); ok {
			s.v = root
			return []ent{s}
		}
		al, ok := root.(*ssa.Alloc)
		if !ok {
			return []ent{{kind: "?"}}
		}
		var r []ent
		t := s
		t.fp = ""
		for _, st := range c.fieldStores(al, s.fp) {
			r = append(r, c.recast(t, st, d)...)
		}
		if len(r) == 0 {
			return []ent{{kind: "?"}}
		}
		return r
	}
	switch s.kind {
	case "node":
		var r []ent
		for _, x := range c.nodeRoots(a, 0) {
			r = append(r, ent{kind: "node", v: x, f: s.f})
		}
		if len(r) == 0 {
			return []ent{{kind: "?"}}
		}
		return r
	case "task":
		return []ent{{kind: "task", v: c.taskRoot(a), f: s.f}}
	case "item":
		if _, ok := a.Type().Underlying().(*types.Slice); ok {
			return []ent{{kind: "items", v: a, f: ""}}
		}
		return []ent{{kind: "item", v: c.itemRoot(a), f: s.f}}
	case "path":
		return c.pathSubj(a, d+1)
	case "int":
		return c.lineSubj(a, d+1)
	case "bytes":
		return []ent{{kind: "bytes", v: c.canon(a), f: ""}}
	case "loc", "carrier":
		root := c.locRoot(a)
		if al, ok := root.(*ssa.Alloc); ok {
			var r []ent
			for _, st := range c.fieldStores(al, s.f) {
				if isStr(st.Type()) {
					r = append(r, c.pathSubj(st, d+1)...)
				} else {
					r = append(r, c.lineSubj(st, d+1)...)
				}
			}
			if len(r) > 0 {
				return r
			}
		}
		call, _ := root.(*ssa.Call)
		idx := 0
		if ex, ok := root.(*ssa.Extract); ok {
			call, _ = ex.Tuple.(*ssa.Call)
			idx = ex.Index
		}
		if call != nil {
			if g := call.Call.StaticCallee(); g != nil && g.Blocks != nil && c.p.InRepo(g) && d < 8 {
				var r []ent
				for _, ret := range returnsOf(g) {
					if idx >= len(ret.Results) {
						continue
					}
					rv := c.canon(ret.Results[idx])
					if u, ok := rv.(*ssa.UnOp); ok && u.Op == token.MUL {
						rv = u.X
					}
					if al, ok := rv.(*ssa.Alloc); ok {
						for _, st := range c.fieldStores(al, s.f) {
							var xs []ent
							if isStr(st.Type()) {
								xs = c.pathSubj(st, d+1)
							} else {
								xs = c.lineSubj(st, d+1)
							}
							for _, x := range xs {
								r = append(r, c.subst(g, &call.Call, x, d+1)...)
							}
						}
					}
				}
				if len(r) > 0 {
					return r
				}
			}
		}
		return []ent{{kind: s.kind, v: root, f: s.f}}
	}
	return []ent{s}
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func (c *c23) fieldStores(base ssa.Value, f string) []ssa.Value {
	var r []ssa.Value
	for _, rf := range *base.Referrers() {
		if st, ok := rf.(*ssa.Store); ok && st.Addr == base {
			if ld, ok := st.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if al, ok := ld.X.(*ssa.Alloc); ok && ssa.Value(al) != base {
					r = append(r, c.fieldStores(al, f)...)
				}
			}
		}
		if fa, ok := rf.(*ssa.FieldAddr); ok && structOf(ptrElem(fa.X.Type())).Field(fa.Field).Name() == f {
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					r = append(r, st.Val)
				}
			}
		}
	}
	return r
}

// ---- pairs --------------------------------------------------------------------

func entKey(x ent) string {
	if x.v == nil {
		return x.kind
	}
	fn := ""
	if x.v.Parent() != nil {
		fn = x.v.Parent().String()
	}
	return x.kind + ":" + fn + ":" + x.v.Name() + "." + x.f + "/" + x.fp
}

func isPar(v ssa.Value) (*ssa.Parameter, bool) {
	p, ok := v.(*ssa.Parameter)
	return p, ok
}

// where the values live
func depthOf(fn *ssa.Function) int {
	n := 0
	for fn != nil && fn.Parent() != nil {
		n++
		fn = fn.Parent()
	}
	return n
}

func (c *c23) pair(ps, ls []ent, site ssa.Instruction, what string, d int) {
	for _, l := range ls {
		for _, p := range ps {
			c.pair1(p, l, site, what, d)
		}
	}
}

func (c *c23) report(site ssa.Instruction, key, format string, args ...any) {
	fn := site.Parent()
	c.e.Report(nil, key+" in "+c.p.FnName(fn), site.Pos(), format, args...)
}

// norm: a task or item that is kept in a struct that is handed around.
func (c *c23) norm(x ent) ent {
	for i := 0; i < 4 && x.fp == "" && x.v != nil && (x.kind == "task" || x.kind == "item"); i++ {
		b, f, ok := fldOf(c.canon(x.v))
		if !ok || c.isTask(b.Type()) || c.itemStruct(b.Type()) || c23Node(b.Type()) || !c.p.repoStruct(c23Deref(b.Type())) {
			return x
		}
		root := c.locRoot(b)
		if _, ok := isPar(root); ok {
			x.v, x.fp = root, f
			return x
		}
		al, ok := root.(*ssa.Alloc)
		if !ok {
			return x
		}
		st := c.fieldStores(al, f)
		if len(st) != 1 {
			return x
		}
		if x.kind == "task" {
			x.v = c.taskRoot(st[0])
		} else {
			x.v = c.itemRoot(st[0])
		}
	}
	return x
}

func (c *c23) pair1(p, l ent, site ssa.Instruction, what string, d int) {
	if p.kind == "task" && l.kind == "task" && sameExpr(p.v, l.v, 0) && p.fp == l.fp {
		return
	}
	p, l = c.norm(p), c.norm(l)
	k := entKey(p) + "|" + entKey(l) + "|" + itoa(int(site.Pos()))
	if c.seen[k] || d > 10 {
		return
	}
	c.seen[k] = true
	if p.kind == "?" || l.kind == "?" {
		return
	}
	if p.kind == "other" || l.kind == "other" {
		c.report(site, "not a location", "%s: the file or line is not that of an entry", what)
		return
	}
	if l.kind == "none" {
		if p.kind == "task" || p.kind == "item" || p.kind == "loc" {
			c.report(site, "no line", "%s names the file of a task without a line", what)
		}
		return
	}
	if p.kind == "none" {
		c.report(site, "no file", "%s has a line but no file", what)
		return
	}
	if p.kind == "loc" && l.kind == "loc" && p.v == l.v {
		return
	}
	if l.kind == "items" {
		for _, b := range c.sliceBases(l.v, 0, map[ssa.Value]bool{}) {
			c.belongs(p, b, site, what, d)
		}
		return
	}
	if l.kind == "yamlerr" {
		if p.kind == "path" || p.kind == "val" {
			if ex, ok := l.v.(*ssa.Extract); ok {
				if call, ok := ex.Tuple.(*ssa.Call); ok {
					for _, a := range call.Call.Args {
						if c.canon(a) == p.v {
							return
						}
					}
					c.report(site, "other file", "%s: the line is that of an error in another file", what)
				}
			}
		}
		return
	}
	if l.kind == "item" && l.fp == "" {
		if _, par := isPar(l.v); !par || p.kind == "task" || p.kind == "path" {
			for _, b := range c.itemBases(l.v, 0) {
				c.belongs(p, b, site, what, d)
			}
			return
		}
	}
	switch {
	case l.kind == "task" && p.kind == "task":
		if (l.v == p.v || sameExpr(l.v, p.v, 0)) && l.fp == p.fp {
			return
		}
	case l.kind == "node" && (p.kind == "path" || p.kind == "val"):
		if al, ok := l.v.(*ssa.Alloc); ok {
			c.document(p, al, site, what, d)
			return
		}
	case l.kind == "bytes":
		if ex, ok := l.v.(*ssa.Extract); ok {
			if call, ok := ex.Tuple.(*ssa.Call); ok && len(call.Call.Args) > 0 {
				if a := c.canon(call.Call.Args[0]); a != c.canon(p.v) && isStr(a.Type()) {
					c.report(site, "other file", "%s: the path is not that of the file that was read", what)
				}
				return
			}
		}
	}
	c.up(p, l, site, what, d)
}

// belongs: the item comes from the task whose file it is (or both are handed in).
func (c *c23) belongs(p, b ent, site ssa.Instruction, what string, d int) {
	if p.kind == "task" && b.kind == "task" && sameExpr(p.v, b.v, 0) && p.fp == b.fp {
		return
	}
	p, b = c.norm(p), c.norm(b)
	switch b.kind {
	case "?":
		return
	case "task":
		if p.kind == "task" && (p.v == b.v || sameExpr(p.v, b.v, 0)) && p.fp == b.fp {
			return
		}
		if p.kind == "loc" || p.kind == "carrier" || p.kind == "val" {
			return
		}
		_, pp := isPar(p.v)
		_, bp := isPar(b.v)
		if pp && bp && p.kind == "task" {
			c.up(p, b, site, what, d)
			return
		}
		c.report(site, "other file", "%s: the line is that of an item of one task, the file is not that of this task", what)
	case "item":
		c.up(p, ent{kind: "item", v: b.v, fp: b.fp}, site, what, d)
	}
}

// document: the node comes from a document that was decoded here.
func (c *c23) document(p ent, al *ssa.Alloc, site ssa.Instruction, what string, d int) {
	for _, rf := range *al.Referrers() {
		mi, ok := rf.(*ssa.MakeInterface)
		if !ok {
			continue
		}
		for _, r2 := range *mi.Referrers() {
			if call, ok := r2.(*ssa.Call); ok && strings.HasSuffix(c.p.CalleeName(&call.Call), ".Unmarshal") {
				c.pair1(p, ent{kind: "bytes", v: c.canon(call.Call.Args[0]), f: ""}, site, what, d+1)
			}
		}
	}
}

// up hands the obligation to the callers.
func (c *c23) up(p, l ent, site ssa.Instruction, what string, d int) {
	pp, ok1 := isPar(p.v)
	lp, ok2 := isPar(l.v)
	if !ok1 && !ok2 {
		if p.kind == "val" || l.kind == "carrier" || p.kind == "loc" || l.kind == "loc" || p.kind == "carrier" {
			return
		}
		c.report(site, "other file", "%s: the line is that of a %s, the file that of %s", what, kindName(l.kind), kindName(p.kind))
		return
	}
	if ok1 != ok2 {
		other := p
		if ok1 {
			other = l
		}
		// one is handed in, the other found here
		par := lp
		if ok1 {
			par = pp
		}
		switch {
		case other.v != nil && other.v.Parent() != nil && lexical(par.Parent(), other.v.Parent()):
			// a closure that captured the other one: ask its callers
			c.handUp(p, l, par, ok1, site, what, d)
			return
		case p.kind == "carrier":
			if !ok1 {
				return
			}
		case l.kind == "carrier" || l.kind == "loc" || p.kind == "loc" || l.kind == "int":
			if !ok2 {
				return
			}
		case other.kind == "val":
			return
		}
		if p.kind != "carrier" && !(ok2 && (p.kind == "val" || p.kind == "runner") && l.kind == "int") {
			c.report(site, "other file", "%s: the line is that of a %s, the file that of %s", what, kindName(l.kind), kindName(p.kind))
			return
		}
	}
	var g *ssa.Function
	if ok1 {
		g = pp.Parent()
	}
	if ok2 && (g == nil || depthOf(lp.Parent()) > depthOf(g)) {
		g = lp.Parent()
	}
	for _, ci := range c.p.index().calls[g] {
		cc := ci.Common()
		ps, ls := []ent{p}, []ent{l}
		if ok1 && pp.Parent() == g {
			ps = c.subst(g, cc, p, 0)
		}
		if ok2 && lp.Parent() == g {
			ls = c.subst(g, cc, l, 0)
			if l.kind == "int" {
				if i := paramIndex(g, lp); !cc.IsInvoke() && i < len(cc.Args) {
					c.specific(ci, cc.Args[i], what)
				}
			}
		}
		c.pair(ps, ls, ci, what, d+1)
	}
}

// lexical: fn is a closure made in outer (at any depth).
func lexical(fn, outer *ssa.Function) bool {
	for fn = fn.Parent(); fn != nil; fn = fn.Parent() {
		if fn == outer {
			return true
		}
	}
	return false
}

func (c *c23) handUp(p, l ent, par *ssa.Parameter, path bool, site ssa.Instruction, what string, d int) {
	g := par.Parent()
	for _, ci := range c.p.index().calls[g] {
		ps, ls := []ent{p}, []ent{l}
		if path {
			ps = c.subst(g, ci.Common(), p, 0)
		} else {
			ls = c.subst(g, ci.Common(), l, 0)
		}
		c.pair(ps, ls, ci, what, d+1)
	}
}

func kindName(k string) string {
	switch k {
	case "node":
		return "an entry of the document being read"
	case "task":
		return "the task"
	case "item":
		return "an item"
	case "runner", "val":
		return "the Babfile that was loaded"
	case "path":
		return "the path handed in"
	}
	return "something else"
}

// specific: in a loop over the entries of a node the line is not that of the
// whole node.
func (c *c23) specific(site ssa.Instruction, line ssa.Value, what string) {
	b, f, ok := fldOf(c.canon(line))
	if !ok || f != "Line" || !c23Node(b.Type()) {
		return
	}
	whole := c.canon(b)
	for _, body := range c.p.Loops(site.Parent()).header {
		if !body[site.Block()] {
			continue
		}
		for blk := range body {
			for _, ins := range blk.Instrs {
				ia, ok := ins.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if x, f, ok := fldOf(c.canon(ia.X)); ok && f == "Content" && c.canon(x) == whole {
					c.report(site, "line of the whole", "%s: in a loop over the entries of a node, the line is that of the whole node, not of the entry", what)
					return
				}
			}
		}
	}
}

// ---- sites --------------------------------------------------------------------

type locSite struct {
	base        ssa.Value
	typ         types.Type
	paths, lins []*ssa.Store
	texts       []*ssa.Store
	others      []ssa.Value
	orig        []*ssa.Store
}

func runC23(ctx *Ctx) {
	for _, goos := range ctx.goosList() {
		p := ctx.Prog(goos)
		ctx.GOOSList = append(ctx.GOOSList, goos)
		e := NewEngine(p, &Client{Name: "C23"})
		c := &c23{p: p, e: e, seen: map[string]bool{}, busy: map[string]bool{}}
		c.run()
		ctx.Absorb(e)
	}
}

func (c *c23) run() {
	p := c.p
	for _, fn := range p.Funcs {
		var order []ssa.Value
		sites := map[ssa.Value]*locSite{}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Alloc:
					if _, _, ok := c.locType(x.Type()); ok && len(wholeStores(x)) == 0 && x.Comment == "complit" {
						sites[x] = &locSite{base: x, typ: c23Deref(x.Type())}
						order = append(order, x)
					}
					c.copies(x)
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					name := structOf(ptrElem(fa.X.Type())).Field(fa.Field).Name()
					if (c.isTask(fa.X.Type()) && (name == "Line" || name == "DepsLine") || c.itemStruct(fa.X.Type()) && name == "Line") && b.Index >= 0 {
						c.specific(x, x.Val, "the line kept for a task or item")
						for _, s := range c.lineSubj(x.Val, 0) {
							if s.kind == "none" || s.kind == "other" {
								c.report(x, "line lost", "the line kept for a task or item is not that of an entry")
							}
						}
						c.e.Count("location carried along")
					}
					pth, ln, ok := c.locType(fa.X.Type())
					if !ok {
						continue
					}
					base := c.canon(fa.X)
					s := sites[base]
					if s == nil {
						s = &locSite{base: base, typ: ptrElem(fa.X.Type())}
						sites[base] = s
						order = append(order, base)
					}
					switch {
					case name == pth:
						s.paths = append(s.paths, x)
					case name == ln:
						s.lins = append(s.lins, x)
					case isStr(x.Val.Type()):
						s.texts = append(s.texts, x)
					case isErrT(x.Val.Type()):
						s.others = append(s.others, x.Val)
					case strings.Contains(name, "Line"):
						s.orig = append(s.orig, x)
					}
				case *ssa.Call:
					c.textSite(x)
					c.printSite(x)
				}
			}
		}
		for _, b := range order {
			c.site(fn, sites[b])
		}
		if len(order) > 0 {
			c.e.Funcs[fn] = true
		}
	}
	c.sourcePaths()
	// the line an item gives is its own
	for _, fn := range p.Funcs {
		if fn.Name() != "GetLine" || fn.Signature.Recv() == nil || !c.itemStruct(fn.Signature.Recv().Type()) || fn.Synthetic != "" {
			continue
		}
		for _, ret := range returnsOf(fn) {
			for _, l := range c.lineSubj(ret.Results[0], 0) {
				if l.kind == "?" || l.kind == "item" {
					c.e.Count("location carried along")
					continue
				}
				c.e.Report(nil, "line of an item in "+p.FnName(fn), ret.Pos(), "the line an item gives is not the one that was recorded for it")
			}
		}
	}
	// every error with a location prints it
	for _, fn := range p.Funcs {
		if fn.Name() != "Error" || fn.Signature.Recv() == nil {
			continue
		}
		t := fn.Signature.Recv().Type()
		_, ln, ok := c.locType(t)
		if !ok {
			continue
		}
		if !c.errorShows(fn, typeKey(c23Deref(t)), ln, map[*ssa.Function]bool{}) {
			c.e.Report(nil, "not printed in "+p.FnName(fn), fn.Pos(), "the message of an error that has a file and a line does not show them")
		} else {
			c.e.Count("location printed")
		}
	}
}

func (c *c23) site(fn *ssa.Function, s *locSite) {
	what := "an error (" + types.TypeString(s.typ, func(*types.Package) string { return "" }) + ")"
	al, isAlloc := s.base.(*ssa.Alloc)
	isAlloc = isAlloc && len(wholeStores(al)) == 0
	if len(s.lins) == 0 && isAlloc {
		if site, why := c.couldHaveLine(fn, s); why != "" {
			c.report(site, "no line", "%s is made without a line although %s is at hand", what, why)
		}
		return
	}
	if len(s.paths) == 0 && isAlloc && len(s.lins) > 0 {
		c.report(s.lins[0], "no file", "%s has a line but no file", what)
		return
	}
	for _, l := range s.lins {
		c.specific(l, l.Val, what)
		for _, o := range s.orig {
			if c.remembered(l.Val, 0) && !c.remembered(o.Val, 0) {
				c.report(l, "line of another entry", "%s: the line is that of the earlier entry, and that of the earlier entry is the one at fault", what)
			}
		}
		for _, q := range s.paths {
			c.e.Count("location of an error")
			c.pair(c.pathSubj(q.Val, 0), c.lineSubj(l.Val, 0), l, what, 0)
		}
		// what the error says is of the item the line is of
		for _, t := range s.texts {
			c.sameEntry(l, t.Val, what)
		}
	}
}

// remembered: the line was looked up among those of earlier entries.
func (c *c23) remembered(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	v = c.canon(v)
	if b, _, ok := fldOf(v); ok {
		if c.isTask(b.Type()) || c.itemStruct(b.Type()) || c23Node(b.Type()) {
			return false
		}
		return c.remembered(b, d+1)
	}
	switch x := v.(type) {
	case *ssa.Lookup:
		return true
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Lookup)
		return ok
	case *ssa.Alloc:
		for _, w := range wholeStores(x) {
			if c.remembered(w, d+1) {
				return true
			}
		}
	}
	return false
}

// ofYAML: an error made from what the YAML decoder said about a document.
func (c *c23) ofYAML(v ssa.Value, d int) bool {
	if d > 8 || !isErrT(v.Type()) && !isStr(v.Type()) {
		return false
	}
	switch x := c.canon(v).(type) {
	case *ssa.Phi:
		if c.busy["y"+x.Name()] {
			return false
		}
		c.busy["y"+x.Name()] = true
		defer delete(c.busy, "y"+x.Name())
		for _, e := range x.Edges {
			if c.ofYAML(e, d+1) {
				return true
			}
		}
	case *ssa.Call:
		if c.decodes(&x.Call) {
			return true
		}
		if x.Call.IsInvoke() {
			return c.ofYAML(x.Call.Value, d+1)
		}
		for _, a := range x.Call.Args {
			if c.ofYAML(a, d+1) {
				return true
			}
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.decodes(&call.Call)
		}
	}
	return false
}

func (c *c23) decodes(cc *ssa.CallCommon) bool {
	g := cc.StaticCallee()
	if g == nil || g.Blocks == nil || !c.p.InRepo(g) {
		return strings.HasSuffix(c.p.CalleeName(cc), "yaml.v3.Unmarshal")
	}
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(*ssa.Call); ok && strings.HasSuffix(c.p.CalleeName(&call.Call), "yaml.v3.Unmarshal") {
				return true
			}
		}
	}
	return false
}

// couldHaveLine: an error about a document, task or item with no line.
func (c *c23) couldHaveLine(fn *ssa.Function, s *locSite) (ssa.Instruction, string) {
	al := s.base.(*ssa.Alloc)
	for _, pr := range fn.Params {
		if c23Node(pr.Type()) {
			return al, "the node"
		}
		if _, _, ok := c.locType(pr.Type()); ok {
			return al, "the location"
		}
		if b, ok := pr.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			for _, x := range []ent{{kind: "int", v: pr, f: ""}} {
				for _, ci := range c.p.index().calls[fn] {
					for _, l := range c.subst(fn, ci.Common(), x, 0) {
						if l.kind == "node" || l.kind == "item" || l.kind == "task" {
							return al, "the line"
						}
					}
				}
			}
		}
	}
	for _, v := range s.others {
		if c.ofYAML(v, 0) {
			return al, "the error of the decoder"
		}
	}
	for _, q := range s.paths {
		for _, x := range c.pathSubj(q.Val, 0) {
			if x.kind == "task" {
				return al, "the task"
			}
		}
	}
	for _, t := range s.texts {
		if x := c.entryOf(t.Val, 0); x.kind == "task" || x.kind == "item" {
			return al, "the " + x.kind
		}
	}
	return nil, ""
}

// entryOf: the task or item a text is of.
func (c *c23) entryOf(v ssa.Value, d int) ent {
	if d > 8 {
		return ent{}
	}
	v = c.canon(v)
	if b, f, ok := fldOf(v); ok {
		if c.isTask(b.Type()) && f != "Name" {
			return ent{kind: "task", v: c.taskRoot(b), f: f}
		}
		if c.itemStruct(b.Type()) {
			return ent{kind: "item", v: c.itemRoot(b), f: f}
		}
		return ent{}
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return c.entryOf(ia.X, d+1)
		}
	case *ssa.Call:
		if x.Call.IsInvoke() && c.itemType(x.Call.Value.Type()) {
			return ent{kind: "item", v: c.itemRoot(x.Call.Value), f: x.Call.Method.Name()}
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return c.entryOf(rg.X, d+1)
			}
		}
	case *ssa.Lookup:
		return c.entryOf(x.X, d+1)
	}
	return ent{}
}

func (c *c23) sameEntry(site *ssa.Store, text ssa.Value, what string) {
	x := c.entryOf(text, 0)
	if x.kind == "" {
		return
	}
	deps := false
	for _, l := range c.lineSubj(site.Val, 0) {
		if l.kind != "task" && l.kind != "none" && l.kind != "item" || l.kind == "task" && l.f == "DepsLine" {
			deps = true
		}
		if x.kind == "item" && l.kind == "item" && l.v != x.v && !sameExpr(l.v, x.v, 0) || x.kind == "item" && l.kind == "task" {
			c.report(site, "line of another entry", "%s: it names what an item says with the line of something else", what)
		}
		if x.kind == "task" && l.kind == "task" && l.v != x.v && !sameExpr(l.v, x.v, 0) {
			c.report(site, "line of another entry", "%s: it names what one task says with the line of another", what)
		}
	}
	if x.kind == "task" && x.f == "Deps" && !deps {
		c.report(site, "line of another entry", "%s: a dependency is named with a line that is not that of the list of dependencies", what)
	}
}

const interpCtxArg = 1

// textSite: texts are interpolated with the location of the entry they are of.
func (c *c23) textSite(call *ssa.Call) {
	n := c.p.CalleeName(&call.Call)
	if n != interpFn && n != condFn || len(call.Call.Args) < 2 {
		return
	}
	c.text(call, call.Call.Args[0], call.Call.Args[1], call, 0)
}

func (c *c23) text(site ssa.Instruction, text, cx ssa.Value, at ssa.Instruction, d int) {
	if d > 4 {
		return
	}
	cx = c.canon(cx)
	var texts []ent
	var par *ssa.Parameter
	var walk func(v ssa.Value, d int)
	seen := map[ssa.Value]bool{}
	walk = func(v ssa.Value, d int) {
		v = c.canon(v)
		if seen[v] || d > 8 {
			return
		}
		seen[v] = true
		if ph, ok := v.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				walk(e, d+1)
			}
			return
		}
		if x := c.entryOf(v, 0); x.kind != "" {
			texts = append(texts, x)
			return
		}
		if pr, ok := v.(*ssa.Parameter); ok {
			par = pr
		}
	}
	walk(text, 0)
	// handed in: ask the callers
	if cp, ok := cx.(*ssa.Parameter); ok {
		g := cp.Parent()
		for _, ci := range c.p.index().calls[g] {
			cc := ci.Common()
			ci2 := paramIndex(g, cp)
			if cc.IsInvoke() || ci2 >= len(cc.Args) {
				continue
			}
			if par != nil && par.Parent() == g {
				c.text(ci, cc.Args[paramIndex(g, par)], cc.Args[ci2], ci, d+1)
			}
			for _, t := range texts {
				if tp, ok := t.v.(*ssa.Parameter); ok && tp.Parent() == g {
					a := cc.Args[paramIndex(g, tp)]
					var x ent
					if t.kind == "item" {
						x = ent{kind: "item", v: c.itemRoot(a), f: t.f}
					} else {
						x = ent{kind: "task", v: c.taskRoot(a), f: t.f}
					}
					c.textEnt(ci, []ent{x}, cc.Args[ci2], d+1)
				}
			}
		}
		return
	}
	c.textEnt(at, texts, cx, d)
}

func (c *c23) textEnt(at ssa.Instruction, texts []ent, cx ssa.Value, d int) {
	if len(texts) == 0 {
		return
	}
	cx = c.canon(cx)
	lines, paths, known := c.ctxLoc(cx, 0)
	if !known {
		return
	}
	if len(lines) == 0 || len(paths) == 0 {
		c.report(at, "no location", "a text of a %s is interpolated without its location: an error in it names no line", texts[0].kind)
		return
	}
	c.e.Count("text interpolated with its own line")
	for _, l := range lines {
		ok := false
		item := false
		for _, t := range texts {
			if t.kind == "item" {
				item = true
			}
			if l.kind == t.kind && (l.v == t.v || sameExpr(l.v, t.v, 0)) {
				ok = true
			}
		}
		if l.kind == "?" || l.kind == "loc" || l.kind == "int" {
			continue
		}
		if !item && (l.kind == "item" || l.kind == "task") {
			ok = true
		}
		if !ok {
			c.report(at, "line of another entry", "a text of an item is interpolated with the line of something else: errors in it name the wrong line")
		}
	}
}

// ctxLoc: the location a context was made with.
func (c *c23) ctxLoc(cx ssa.Value, d int) (lines, paths []ent, known bool) {
	switch x := cx.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil || !c.p.InRepo(g) {
			return
		}
		lines, paths = c.made(g)
		known = true
		var l2, p2 []ent
		for _, s := range lines {
			l2 = append(l2, c.subst(g, &x.Call, s, 0)...)
		}
		for _, s := range paths {
			p2 = append(p2, c.subst(g, &x.Call, s, 0)...)
		}
		if pth, ln, ok := c.locType(x.Type()); ok {
			if _, isPtr := x.Type().Underlying().(*types.Pointer); isPtr {
				if st := c.fieldStores(x, ln); len(st) > 0 {
					l2 = nil
					for _, v := range st {
						l2 = append(l2, c.lineSubj(v, 0)...)
					}
				}
				if st := c.fieldStores(x, pth); len(st) > 0 {
					p2 = nil
					for _, v := range st {
						p2 = append(p2, c.pathSubj(v, 0)...)
					}
				}
			}
		}
		return l2, p2, true
	case *ssa.Alloc:
		pth, ln, ok := c.locType(x.Type())
		if !ok {
			return
		}
		for _, st := range c.fieldStores(x, ln) {
			lines = append(lines, c.lineSubj(st, 0)...)
		}
		for _, st := range c.fieldStores(x, pth) {
			paths = append(paths, c.pathSubj(st, 0)...)
		}
		known = true
		for _, w := range wholeStores(x) {
			ld, ok := w.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL || d > 4 {
				return nil, nil, false
			}
			l2, p2, k := c.ctxLoc(c.canon(ld.X), d+1)
			known = known && k
			if len(lines) == 0 {
				lines = l2
			}
			if len(paths) == 0 {
				paths = p2
			}
		}
		return lines, paths, known
	}
	return
}

// made: the location stored in what a function returns.
func (c *c23) made(g *ssa.Function) (lines, paths []ent) {
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pth, ln, ok := c.locType(fa.X.Type())
				if !ok {
					continue
				}
				switch structOf(ptrElem(fa.X.Type())).Field(fa.Field).Name() {
				case pth:
					paths = append(paths, c.pathSubj(x.Val, 0)...)
				case ln:
					lines = append(lines, c.lineSubj(x.Val, 0)...)
				}
			case *ssa.Call:
				h := x.Call.StaticCallee()
				if h == nil || h == g || h.Blocks == nil || !c.p.InRepo(h) || h.Signature.Results().Len() != 1 {
					continue
				}
				if _, _, ok := c.locType(h.Signature.Results().At(0).Type()); !ok {
					continue
				}
				l2, p2 := c.made(h)
				for _, s := range l2 {
					lines = append(lines, c.subst(h, &x.Call, s, 0)...)
				}
				for _, s := range p2 {
					paths = append(paths, c.subst(h, &x.Call, s, 0)...)
				}
			}
		}
	}
	return
}

// printSite: "%s:%d" shows a path and its line.
func (c *c23) printSite(call *ssa.Call) {
	if c.p.CalleeName(&call.Call) != "fmt.Sprintf" || len(call.Call.Args) != 2 {
		return
	}
	f, ok := call.Call.Args[0].(*ssa.Const)
	if !ok || f.Value == nil || !strings.HasPrefix(strings.Trim(f.Value.ExactString(), `"`), "%s:%d") {
		return
	}
	args := sliceElems(call.Call.Args[1])
	if len(args) < 2 {
		return
	}
	ps, ls := c.pathSubj(args[0], 0), c.lineSubj(args[1], 0)
	c.pair(ps, ls, call, "a location that is printed", 0)
}

// shows: the value is turned into text, whatever else is known.
func (c *c23) shows(v ssa.Value, d int) bool {
	if d > 8 || v.Referrers() == nil {
		return false
	}
	for _, rf := range *v.Referrers() {
		switch x := rf.(type) {
		case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Phi:
			if c.shows(x.(ssa.Value), d+1) {
				return true
			}
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				for _, r2 := range *al.Referrers() {
					if ld, ok := r2.(*ssa.UnOp); ok && c.shows(ld, d+1) {
						return true
					}
				}
				continue
			}
			// an argument of a format, or a part of what is handed on
			if !c.onlyIf(x.Block(), v) {
				continue
			}
			return true
		case *ssa.Call:
			if !c.onlyIf(x.Block(), v) {
				continue
			}
			g := x.Call.StaticCallee()
			if g == nil || g.Blocks == nil || !c.p.InRepo(g) {
				return true
			}
			for i, a := range x.Call.Args {
				if a == v && i < len(g.Params) && c.shows(g.Params[i], d+1) {
					return true
				}
			}
		case *ssa.Return:
			return true
		}
	}
	return false
}

// onlyIf: no other number decides whether the block is reached.
func (c *c23) onlyIf(b *ssa.BasicBlock, v ssa.Value) bool {
	for i := b.Idom(); i != nil; b, i = i, i.Idom() {
		iff, ok := i.Instrs[len(i.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 || i.Succs[0] != b {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.GTR && bo.Op != token.NEQ && bo.Op != token.GEQ {
			continue
		}
		if t, ok := bo.X.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
			continue
		}
		if c.canon(bo.X) != c.canon(v) && c.canon(bo.Y) != c.canon(v) && !sameExpr(c.canon(bo.X), c.canon(v), 0) {
			return false
		}
	}
	return true
}

// errorShows: the message of the error shows the line.
func (c *c23) errorShows(fn *ssa.Function, typ string, ln string, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if bs, f, ok := fldOf(v); ok && f == ln && typeKey(c23Deref(bs.Type())) == typ && c.shows(v, 0) {
					return true
				}
			}
			if call, ok := ins.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil && g.Blocks != nil && c.p.InRepo(g) && c.errorShows(g, typ, ln, seen) {
					return true
				}
			}
		}
	}
	return false
}

// sliceElems: the elements of an argument list, in order.
func sliceElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	type el struct {
		i int64
		v ssa.Value
	}
	var es []el
	for _, rf := range *al.Referrers() {
		if ia, ok := rf.(*ssa.IndexAddr); ok {
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					es = append(es, el{k.Int64(), st.Val})
				}
			}
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].i < es[j].i })
	var r []ssa.Value
	for _, x := range es {
		r = append(r, x.v)
	}
	return r
}

// copies: a task or item made from another keeps its location.
func (c *c23) copies(al *ssa.Alloc) {
	task := c.isTask(al.Type())
	if al.Comment != "complit" || len(wholeStores(al)) > 0 || !task && !c.itemStruct(al.Type()) {
		return
	}
	if _, ok := c23Deref(al.Type()).Underlying().(*types.Struct); !ok {
		return
	}
	stored := map[string]ssa.Value{}
	for _, rf := range *al.Referrers() {
		if fa, ok := rf.(*ssa.FieldAddr); ok {
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					stored[structOf(ptrElem(fa.X.Type())).Field(fa.Field).Name()] = st.Val
				}
			}
		}
	}
	if len(stored) == 0 {
		return
	}
	// what it is a copy of
	var of ssa.Value
	for _, v := range stored {
		if b, _, ok := fldOf(c.canon(v)); ok && typeKey(c23Deref(b.Type())) == typeKey(c23Deref(al.Type())) {
			if task {
				of = c.taskRoot(b)
			} else {
				of = c.itemRoot(b)
			}
		}
	}
	need := []string{"Line"}
	if task {
		if of == nil {
			return
		}
		need = []string{"Line", "DepsLine", "SourcePath"}
	}
	for _, f := range need {
		v, ok := stored[f]
		if !ok && (!task && !c.kept(al) || c.setLater(al, f, 0)) {
			continue
		}
		if !ok {
			c.report(al, f+" lost", "a task or item is made without its %s: errors about it name no line or the wrong file", f)
			continue
		}
		c.e.Count("location carried along")
		if of == nil {
			continue
		}
		b, g, ok := fldOf(c.canon(v))
		if !ok || g != f {
			if f == "SourcePath" && !ok {
				for _, s := range c.pathSubj(v, 0) {
					if s.kind == "task" && s.v == of {
						ok, g = true, f
						b = of
					}
				}
			}
			if !ok || g != f {
				c.report(al, f+" changed", "the %s of a copied task or item is not that of the original", f)
				continue
			}
		}
		var r ssa.Value
		if task {
			r = c.taskRoot(b)
		} else {
			r = c.itemRoot(b)
		}
		if r != of && !sameExpr(r, of, 0) {
			c.report(al, f+" changed", "the %s of a copied task or item is that of another", f)
		}
	}
}

// setLater: the field is stored by a function the struct is handed to, or by
// those that it is returned to.
func (c *c23) setLater(v ssa.Value, f string, d int) bool {
	if d > 6 {
		return false
	}
	for _, rf := range *v.Referrers() {
		switch x := rf.(type) {
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || g.Blocks == nil || !c.p.InRepo(g) {
				continue
			}
			for i, a := range x.Call.Args {
				if a == v && i < len(g.Params) && (len(c.fieldStores(g.Params[i], f)) > 0 || c.setLater(g.Params[i], f, d+1)) {
					return true
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if c.setLater(x, f, d+1) {
					return true
				}
			}
		case *ssa.Store:
			if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v && (len(c.fieldStores(al, f)) > 0 || c.setLater(al, f, d+1)) {
				return true
			}
		case *ssa.Return:
			fn := x.Parent()
			calls := c.p.index().calls[fn]
			all := len(calls) > 0
			for _, ci := range calls {
				call, ok := ci.(*ssa.Call)
				if !ok {
					return false
				}
				var r ssa.Value = call
				if fn.Signature.Results().Len() > 1 {
					r = nil
					for _, rf := range *call.Referrers() {
						if ex, ok := rf.(*ssa.Extract); ok && x.Results[ex.Index] == v {
							r = ex
						}
					}
				}
				if r == nil || len(c.fieldStores(r, f)) == 0 && !c.setLater(r, f, d+1) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// kept: the item is more than an argument of a function that does not look
// at its line.
func (c *c23) kept(al *ssa.Alloc) bool {
	for _, rf := range *al.Referrers() {
		ld, ok := rf.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			continue
		}
		for _, r2 := range *ld.Referrers() {
			if _, ok := r2.(*ssa.DebugRef); ok {
				continue
			}
			call, ok := r2.(*ssa.Call)
			if !ok {
				return true
			}
			g := call.Call.StaticCallee()
			if g == nil || g.Blocks == nil || !c.p.InRepo(g) {
				return true
			}
			for i, a := range call.Call.Args {
				if a == ssa.Value(ld) && c.readsLine(g.Params[i]) {
					return true
				}
			}
		}
	}
	return false
}

func (c *c23) readsLine(v ssa.Value) bool {
	for _, rf := range *v.Referrers() {
		switch x := rf.(type) {
		case *ssa.DebugRef:
		case *ssa.Field:
			if structOf(x.X.Type()).Field(x.Field).Name() == "Line" {
				return true
			}
		case *ssa.FieldAddr:
			if structOf(ptrElem(x.X.Type())).Field(x.Field).Name() == "Line" {
				return true
			}
		case *ssa.Store:
			if al, ok := x.Addr.(*ssa.Alloc); !ok || x.Val != v || c.readsLine(al) {
				if ok && x.Addr == v {
					continue
				}
				return true
			}
		default:
			return true
		}
	}
	return false
}

// sourcePaths: every task that is loaded learns which file it is from.
func (c *c23) sourcePaths() {
	set, deps, lines := 0, 0, 0
	for k, sts := range c.p.index().stores {
		if strings.HasSuffix(k, "internal/babfile.Task.DepsLine") {
			for _, st := range sts {
				for _, s := range c.lineSubj(st.Val, 0) {
					if s.kind == "node" {
						deps++
					}
				}
			}
		}
		if strings.HasSuffix(k, "internal/babfile.Task.Line") {
			for _, st := range sts {
				for _, s := range c.lineSubj(st.Val, 0) {
					if s.kind == "node" || s.kind == "int" {
						lines++
					}
				}
			}
		}
		if !strings.HasSuffix(k, "internal/babfile.Task.SourcePath") {
			continue
		}
		for _, st := range sts {
			subj := c.pathSubj(st.Val, 0)
			for _, s := range subj {
				if s.kind == "task" {
					continue
				}
				set++
				if s.kind == "none" || s.kind == "other" || s.kind == "runner" {
					c.report(st, "file of a task", "the file a task is recorded to be from is not the one that was read")
					continue
				}
				if fa := st.Addr.(*ssa.FieldAddr); true {
					c.readFrom(st, fa.X, s)
				}
			}
		}
	}
	if set == 0 {
		c.e.Report(nil, "file of a task", token.NoPos, "no task records the file it was read from")
	}
	if deps == 0 {
		c.e.Report(nil, "line of dependencies", token.NoPos, "the line of a task's dependencies is never recorded")
	}
	if lines == 0 {
		c.e.Report(nil, "line of a task", token.NoPos, "the line of a task is never recorded")
	}
}

// readFrom: the task was found in what reading that path gave.
func (c *c23) readFrom(st *ssa.Store, task ssa.Value, path ent) {
	v := c.canon(task)
	if al, ok := v.(*ssa.Alloc); ok {
		if ws := wholeStores(al); len(ws) == 1 {
			v = c.canon(ws[0])
		}
	}
	for i := 0; i < 12; i++ {
		switch x := v.(type) {
		case *ssa.Extract:
			switch y := x.Tuple.(type) {
			case *ssa.Next:
				if r, ok := y.Iter.(*ssa.Range); ok {
					v = c.canon(r.X)
					continue
				}
			case *ssa.Lookup:
				v = c.canon(y.X)
				continue
			case *ssa.Call:
				for _, a := range y.Call.Args {
					if c.canon(a) == path.v {
						c.e.Count("location carried along")
						return
					}
				}
				c.report(st, "file of a task", "the file a task is recorded to be from is not the one that was read")
				return
			}
			return
		case *ssa.Lookup:
			v = c.canon(x.X)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if c.canon(a) == path.v {
					c.e.Count("location carried along")
					return
				}
			}
			return
		default:
			if b, _, ok := fldOf(v); ok {
				v = c.canon(b)
				continue
			}
			return
		}
	}
}
