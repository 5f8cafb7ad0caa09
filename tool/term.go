package main

// Hash-consed value-provenance terms: the abstract value domain of the
// property-simulation engine. A term names where a value comes from (a
// parameter, a field of it, the result of a call site, an element of a ranged
// collection, ...). No solver is ever consulted: terms are compared by
// identity after normalisation.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KConst Kind = iota
	KSym
	KGlobal
	KFunc
	KClosure
	KAlloc
	KFieldAddr
	KIndexAddr
	KFld
	KElem
	KDeref
	KMapVal
	KMapOK
	KCall
	KExt
	KBin
	KUn
	KConv
	KIface
	KAsrt
	KIsType
	KStruct
	KSlice
	KSub
	KAppend
	KLoop
	KMNew
	KMPut
	KMDel
	KRangeKey
	KLen
	KHavoc
	KTuple
	KRange
	KSelect
)

var kindNames = map[Kind]string{KConst: "const", KSym: "sym", KGlobal: "&global", KFunc: "func", KClosure: "closure", KAlloc: "alloc", KFieldAddr: "&field", KIndexAddr: "&index", KFld: "field", KElem: "elem", KDeref: "deref", KMapVal: "mapval", KMapOK: "mapok", KCall: "call", KExt: "ext", KBin: "bin", KUn: "un", KConv: "conv", KIface: "iface", KAsrt: "assert", KIsType: "istype", KStruct: "struct", KSlice: "slice", KSub: "sub", KAppend: "append", KLoop: "loop", KMNew: "map", KMPut: "mput", KMDel: "mdel", KRangeKey: "rangekey", KLen: "len", KHavoc: "havoc", KTuple: "tuple", KRange: "range", KSelect: "select"}

type Term struct {
	id    int
	K     Kind
	S     string // name / operator / field / call target
	Site  string // identity of the occurrence for impure terms
	A     []*Term
	T     types.Type
	Fn    *ssa.Function
	Obj   any
	C     constant.Value
	atoms []*Term // volatile leaves (symbols, call sites, allocs, loop symbols)
	liveG int
	hotG  int
	root  *Term
	rootS bool
	key   string
	depth int
}

func (t *Term) ID() int { return t.id }

type Terms struct {
	tab map[string]*Term
	all []*Term
}

func NewTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (t *Term) addAtom(x *Term) {
	for _, y := range t.atoms {
		if y == x {
			return
		}
	}
	t.atoms = append(t.atoms, x)
}

func (ts *Terms) mk(k Kind, s, site string, typ types.Type, keyTyp bool, obj any, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(k) + '!')
	b.WriteByte('|')
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(site)
	b.WriteByte('|')
	if keyTyp {
		b.WriteString(typeKey(typ))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	key := b.String()
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{id: len(ts.all), K: k, S: s, Site: site, A: args, T: typ, Obj: obj}
	for _, a := range args {
		for _, x := range a.atoms {
			t.addAtom(x)
		}
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
	}
	switch k {
	case KSym, KAlloc, KLoop, KHavoc, KRangeKey:
		t.addAtom(t)
	case KCall, KSelect:
		if site != "" {
			t.addAtom(t)
		}
	}
	t.key = strconv.Itoa(t.id)
	ts.tab[key] = t
	ts.all = append(ts.all, t)
	return t
}

func (ts *Terms) Nil() *Term { return ts.mk(KConst, "nil", "", nil, false, nil) }
func (ts *Terms) Bool(b bool) *Term {
	t := ts.mk(KConst, fmt.Sprintf("%v", b), "bool", types.Typ[types.Bool], false, nil)
	t.C = constant.MakeBool(b)
	return t
}
func (ts *Terms) Int(n int64) *Term {
	t := ts.mk(KConst, strconv.FormatInt(n, 10), "int", types.Typ[types.Int], false, nil)
	t.C = constant.MakeInt64(n)
	return t
}
func (ts *Terms) Str(s string) *Term {
	t := ts.mk(KConst, strconv.Quote(s), "string", types.Typ[types.String], false, nil)
	t.C = constant.MakeString(s)
	return t
}
func (ts *Terms) Const(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return ts.Nil()
	}
	switch v.Kind() {
	case constant.Bool:
		return ts.Bool(constant.BoolVal(v))
	case constant.String:
		return ts.Str(constant.StringVal(v))
	case constant.Int:
		if n, ok := constant.Int64Val(v); ok {
			return ts.Int(n)
		}
	}
	t := ts.mk(KConst, v.ExactString(), "num", typ, false, nil)
	t.C = v
	return t
}
func (ts *Terms) Sym(name string, typ types.Type) *Term {
	return ts.mk(KSym, name, "", typ, false, nil)
}

func (t *Term) IsConst() bool { return t.K == KConst }
func (t *Term) IsNil() bool   { return t.K == KConst && t.S == "nil" && t.Site == "" }
func (t *Term) BoolVal() (bool, bool) {
	if t.K == KConst && t.Site == "bool" {
		return t.S == "true", true
	}
	return false, false
}
func (t *Term) IntVal() (int64, bool) {
	if t.K == KConst && t.Site == "int" {
		n, ok := constant.Int64Val(t.C)
		return n, ok
	}
	return 0, false
}
func (t *Term) StrVal() (string, bool) {
	if t.K == KConst && t.Site == "string" {
		return constant.StringVal(t.C), true
	}
	return "", false
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 7 {
		return "…"
	}
	args := func() string {
		var p []string
		for _, a := range t.A {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.K {
	case KConst, KSym:
		return t.S
	case KGlobal:
		return "&" + t.S
	case KFunc:
		return t.S
	case KClosure:
		return t.S + "{" + args() + "}"
	case KAlloc:
		return "new:" + t.S
	case KFieldAddr:
		return "&" + t.A[0].str(d+1) + "." + t.S
	case KIndexAddr:
		return "&" + t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + "]"
	case KFld:
		return t.A[0].str(d+1) + "." + t.S
	case KElem, KMapVal:
		return t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + "]"
	case KMapOK:
		return "(" + t.A[1].str(d+1) + " in " + t.A[0].str(d+1) + ")"
	case KDeref:
		return "*" + t.A[0].str(d+1)
	case KCall:
		return t.S + "(" + args() + ")"
	case KExt:
		return t.A[0].str(d+1) + "#" + t.S
	case KBin:
		return "(" + t.A[0].str(d+1) + " " + t.S + " " + t.A[1].str(d+1) + ")"
	case KUn:
		return t.S + t.A[0].str(d+1)
	case KConv:
		return t.S + "(" + args() + ")"
	case KIface:
		return t.A[0].str(d + 1)
	case KAsrt:
		return t.A[0].str(d+1) + ".(" + t.S + ")"
	case KIsType:
		return t.A[0].str(d+1) + " is " + t.S
	case KStruct:
		return shortType(t.T) + "{" + args() + "}"
	case KLoop:
		return "loop:" + t.S
	case KLen:
		return "len(" + args() + ")"
	case KRangeKey:
		return "key(" + args() + ")"
	}
	return kindNames[t.K] + ":" + t.S + "(" + args() + ")"
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// contains reports whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.A {
		if a.contains(sub) {
			return true
		}
	}
	return false
}

func (t *Term) any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.A {
		if a.any(f) {
			return true
		}
	}
	return false
}

// strip removes interface wrapping.
func strip(t *Term) *Term {
	for t != nil && t.K == KIface {
		t = t.A[0]
	}
	return t
}

// ---- normalised construction -------------------------------------------

func (ts *Terms) Fld(base *Term, f string, typ types.Type) *Term {
	switch base.K {
	case KStruct:
		if st, ok := base.T.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f && i < len(base.A) {
					return base.A[i]
				}
			}
		}
	case KDeref:
		base = base.A[0]
	case KConst:
		if base.S == "zero" {
			return ts.Zero(typ)
		}
	}
	return ts.mk(KFld, f, "", typ, false, nil, base)
}

func (ts *Terms) Zero(t types.Type) *Term {
	if t == nil {
		return ts.Nil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.Bool(false)
		case u.Info()&types.IsString != 0:
			return ts.Str("")
		case u.Info()&types.IsInteger != 0:
			return ts.Int(0)
		case u.Info()&types.IsNumeric != 0:
			return ts.Const(constant.MakeInt64(0), t)
		}
		return ts.Nil()
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = ts.Zero(u.Field(i).Type())
		}
		return ts.mk(KStruct, "", "", t, true, nil, args...)
	case *types.Array:
		return ts.mk(KConst, "zero", typeKey(t), t, true, nil)
	}
	return ts.Nil()
}

func (ts *Terms) Len(x *Term) *Term {
	switch x.K {
	case KConst:
		if s, ok := x.StrVal(); ok {
			return ts.Int(int64(len(s)))
		}
		if x.IsNil() {
			return ts.Int(0)
		}
	case KSlice:
		if n, ok := x.Obj.(int64); ok {
			return ts.Int(n)
		}
	}
	return ts.mk(KLen, "", "", types.Typ[types.Int], false, nil, x)
}

func (ts *Terms) Not(x *Term) *Term {
	if b, ok := x.BoolVal(); ok {
		return ts.Bool(!b)
	}
	if x.K == KUn && x.S == "!" {
		return x.A[0]
	}
	return ts.mk(KUn, "!", "", types.Typ[types.Bool], false, nil, x)
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ts *Terms) Bin(op token.Token, a, b *Term, typ types.Type) *Term {
	if a.K == KConst && b.K == KConst && a.C != nil && b.C != nil && a.Site == b.Site {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.Site == "bool" && op != token.EQL && op != token.NEQ {
				break
			}
			return ts.Bool(constant.Compare(a.C, op, b.C))
		case token.ADD, token.SUB, token.MUL:
			if a.Site == "int" || (a.Site == "string" && op == token.ADD) {
				return ts.Const(constant.BinaryOp(a.C, op, b.C), typ)
			}
		case token.QUO, token.REM:
			if a.Site == "int" {
				if n, _ := b.IntVal(); n != 0 {
					if op == token.QUO {
						return ts.Const(constant.BinaryOp(a.C, token.QUO_ASSIGN, b.C), typ)
					}
					return ts.Const(constant.BinaryOp(a.C, token.REM, b.C), typ)
				}
			}
		}
	}
	boolT := types.Typ[types.Bool]
	switch op {
	case token.NEQ:
		return ts.Not(ts.Bin(token.EQL, a, b, boolT))
	case token.GTR:
		return ts.Bin(token.LSS, b, a, boolT)
	case token.GEQ:
		return ts.Not(ts.Bin(token.LSS, a, b, boolT))
	case token.LEQ:
		return ts.Not(ts.Bin(token.LSS, b, a, boolT))
	case token.LSS:
		if b.K == KLen {
			if n, ok := a.IntVal(); ok && n == 0 {
				return ts.Not(ts.Bin(token.EQL, b, a, boolT))
			}
			if n, ok := a.IntVal(); ok && n < 0 {
				return ts.Bool(true)
			}
		}
		if a.K == KLen {
			if n, ok := b.IntVal(); ok && n == 1 {
				return ts.Bin(token.EQL, a, ts.Int(0), boolT)
			} else if ok && n <= 0 {
				return ts.Bool(false)
			}
		}
		return ts.mk(KBin, "<", "", boolT, false, nil, a, b)
	case token.EQL:
		if a == b {
			return ts.Bool(true)
		}
		if a.K == KIface && b.K == KIface {
			return ts.Bin(op, a.A[0], b.A[0], typ)
		}
		if a.K == KConst || (b.K != KConst && a.id > b.id) {
			a, b = b, a
		}
		if b.IsNil() {
			if a.IsNil() {
				return ts.Bool(true)
			}
			if nonNil(a) {
				return ts.Bool(false)
			}
		}
		if bv, ok := b.BoolVal(); ok {
			if bv {
				return a
			}
			return ts.Not(a)
		}
		if n, ok := b.IntVal(); ok && n == 0 && a.K == KLen && isStringT(a.A[0].T) {
			return ts.Bin(token.EQL, a.A[0], ts.Str(""), boolT)
		}
		return ts.mk(KBin, "==", "", boolT, false, nil, a, b)
	case token.ADD:
		if isStringT(typ) {
			if s, ok := a.StrVal(); ok && s == "" {
				return b
			}
			if s, ok := b.StrVal(); ok && s == "" {
				return a
			}
			// flatten (x + (y + z)) to ((x + y) + z)
			if b.K == KBin && b.S == "+" && isStringT(b.T) {
				return ts.Bin(op, ts.Bin(op, a, b.A[0], typ), b.A[1], typ)
			}
			if a.K == KBin && a.S == "+" && b.K == KConst && a.A[1].K == KConst {
				return ts.Bin(op, a.A[0], ts.Bin(op, a.A[1], b, typ), typ)
			}
		} else if n, ok := b.IntVal(); ok {
			if n == 0 {
				return a
			}
			if a.K == KBin && a.S == "+" {
				if m, ok := a.A[1].IntVal(); ok {
					return ts.Bin(op, a.A[0], ts.Int(m+n), typ)
				}
			}
		}
	case token.SUB:
		if n, ok := b.IntVal(); ok {
			return ts.Bin(token.ADD, a, ts.Int(-n), typ)
		}
	}
	return ts.mk(KBin, op.String(), "", typ, false, nil, a, b)
}

func nonNil(t *Term) bool {
	switch t.K {
	case KAlloc, KClosure, KFunc, KGlobal, KFieldAddr, KIndexAddr, KIface, KSlice, KStruct:
		return true
	case KHavoc:
		return t.S == "err!"
	case KAppend:
		return t.S == "1" || nonNil(t.A[0])
	case KCall:
		switch t.S {
		case "fmt.Errorf", "errors.New", "os.Environ", "context.Background", "sync.NewCond":
			return true
		}
	case KDeref:
		// well-known sentinel error globals
		if t.A[0].K == KGlobal {
			if g, ok := t.A[0].Obj.(*ssa.Global); ok {
				n := g.Name()
				if strings.HasPrefix(n, "Err") && types.Identical(g.Type().(*types.Pointer).Elem(), types.Universe.Lookup("error").Type()) {
					return true
				}
				if g.Pkg != nil && g.Pkg.Pkg.Path() == "context" && n == "Canceled" {
					return true
				}
				if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (n == "Stdout" || n == "Stderr" || n == "Stdin") {
					return true
				}
			}
		}
	}
	return false
}

// normAtom splits a boolean term into positive atom and polarity.
func normAtom(t *Term) (*Term, bool) {
	pol := true
	for t.K == KUn && t.S == "!" {
		t = t.A[0]
		pol = !pol
	}
	return t, pol
}

func sortedTerms(m map[*Term]bool) []*Term {
	r := make([]*Term, 0, len(m))
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
