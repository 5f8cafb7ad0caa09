package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C13",
		Technique: "path-sensitive simulation of condition evaluation over SSA: provenance of both operands, truth of the result decided on every path from the comparisons made on it",
		Explain:   "A comparison is recognised in the text as it stands in the Babfile, before anything is inserted; each side is then interpolated once over the given variables and the result is the (in)equality of the two values. Any other condition holds exactly when its interpolated text, without surrounding blanks, is neither empty nor \"false\" in any case. No condition means yes; a failing interpolation is an error.",
		Run:       runC13,
		Floors:    map[string]int{"comparison decided": 4, "truth decided": 3, "no condition": 1, "failure propagated": 2},
	})
}

func runC13(c *Ctx) {
	p := c.Prog(c.goosList()[0])
	c.GOOSList = append(c.GOOSList, c.goosList()[0])
	var root *ssa.Function
	for _, fn := range p.Funcs {
		if p.FnName(fn) == condFn {
			root = fn
		}
	}
	if root == nil {
		return
	}
	cl := &Client{Name: "C13", CollapseErr: true, Inline: inPkg(p, "internal/condition"), KeepFact: func(e *Engine, a *Term) bool { return true }}
	e := NewEngine(p, cl)
	var cond, ctx *Term
	isInterp := func(t *Term) *Term { // the argument
		if t.K == KExt && t.A[0].K == KCall && t.A[0].S == interpFn {
			return t.A[0].A[0]
		}
		return nil
	}
	hasInterp := func(t *Term) bool { return t.any(func(x *Term) bool { return isInterp(x) != nil }) }
	// the interpolated value below trims
	value := func(t *Term) *Term {
		for t.K == KCall && t.S == "strings.TrimSpace" {
			t = t.A[0]
		}
		return isInterp(t)
	}
	trimmed := func(t *Term) bool { return t.K == KCall && t.S == "strings.TrimSpace" }
	// part: which submatch of the raw condition a text is
	part := func(t *Term) (coll *Term, n int64) {
		for t.K == KCall && strings.HasPrefix(t.S, "strings.Trim") && len(t.A) > 0 {
			t = t.A[0]
		}
		if t.K == KElem && t.A[0].K == KCall && t.A[0].contains(cond) && !hasInterp(t.A[0]) {
			if n, ok := t.A[1].IntVal(); ok {
				return t.A[0], n
			}
		}
		return nil, 0
	}
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		switch {
		case ev.Name == interpFn:
			arg := ev.Args[0]
			a := arg
			for a.K == KCall && strings.HasPrefix(a.S, "strings.Trim") && len(a.A) > 0 {
				a = a.A[0]
			}
			pc, _ := part(arg)
			switch {
			case hasInterp(arg):
				e.Report(s, "interpolated again", ev.Pos, "a condition is interpolated a second time")
			case a != cond && pc == nil:
				e.Report(s, "foreign text", ev.Pos, "a condition is decided on %s, which is not its text", arg)
			}
			if strip(ev.Args[1]) != ctx {
				e.Report(s, "foreign variables", ev.Pos, "a condition is interpolated over %s, not over the variables it is given", ev.Args[1])
			}
			if a == cond {
				// the text as a whole: it was found to be no comparison
				for f, v := range s.facts {
					if v && f.K == KBin && f.S == "==" && f.A[0].K == KLen && f.A[1].K == KConst && f.A[0].A[0].K == KCall && f.A[1].S != "0" {
						e.Report(s, "comparison taken for a value", ev.Pos, "a condition that is a comparison can be decided by its whole text")
					}
				}
			}
			n := "whole"
			if a != cond {
				n = "part"
			}
			e.splitErr(s, ev, func(s *State) { s.Set("n", n) }, func(s *State) { s.Set("bad", "1") })
		case strings.HasPrefix(ev.Name, "(*regexp.Regexp).Find") || strings.HasPrefix(ev.Name, "strings.Cut") && len(ev.Args) == 2 && (ev.Args[1].S == `"=="` || ev.Args[1].S == `"!="`) || ev.Name == "strings.SplitN" || ev.Name == "strings.Split" || ev.Name == "strings.Index":
			for _, a := range ev.Args {
				if hasInterp(a) {
					e.Report(s, "comparison recognised after interpolation", ev.Pos, "a comparison is looked for in text into which values were already inserted")
				}
			}
		}
	}
	judge := func(s *State, run bool) {
		op, other, noOp := "", "", 0
		var eq *bool
		right := true
		var empty, isFalse *bool
		for f, v := range s.facts {
			v := v
			if f.K == KBin && f.S == "==" && f.A[1].K == KConst {
				if _, n := part(f.A[0]); n == 2 {
					if v {
						op = strings.Trim(f.A[1].S, `"`)
					} else if f.A[1].S == `"=="` || f.A[1].S == `"!="` {
						noOp++
						other = map[string]string{`"=="`: "!=", `"!="`: "=="}[f.A[1].S]
					}
				}
				if value(f.A[0]) != nil && f.A[1].S == `""` {
					if v || trimmed(f.A[0]) {
						empty = &v
					}
				}
				if f.A[0].K == KLen && f.A[1].S == "0" && value(f.A[0].A[0]) != nil && (v || trimmed(f.A[0].A[0])) {
					empty = &v
				}
				if c := f.A[0]; c.K == KCall && c.S == "strings.ToLower" && value(c.A[0]) != nil && f.A[1].S == `"false"` {
					if v || trimmed(c.A[0]) {
						isFalse = &v
					}
				}
				continue
			}
			if f.K == KCall && f.S == "strings.EqualFold" {
				for i := 0; i < 2; i++ {
					if f.A[1-i].S == `"false"` && value(f.A[i]) != nil && (v || trimmed(f.A[i])) {
						isFalse = &v
					}
				}
			}
			if f.K == KBin && f.S == "==" {
				a, b := value(f.A[0]), value(f.A[1])
				if a == nil || b == nil {
					continue
				}
				ca, na := part(a)
				cb, nb := part(b)
				if ca == nil || ca != cb || na+nb != 4 || na == nb {
					right = false
				}
				// the quoted text counts as it is, blanks included
				if na == 3 && blankTrim(f.A[0]) || nb == 3 && blankTrim(f.A[1]) {
					right = false
				}
				eq = &v
			}
		}
		if op == "" && noOp == 1 {
			op = other // the pattern admits only the two
		}
		switch {
		case eq != nil:
			if !right {
				e.Report(s, "wrong operands", root.Pos(), "a comparison does not compare its two sides")
				return
			}
			switch op {
			case "==", "!=":
				if run != (*eq == (op == "==")) {
					e.Report(s, "comparison inverted", root.Pos(), "a condition with %s is %v although its sides are equal: %v", op, run, *eq)
					return
				}
				e.Count("comparison decided")
			default:
				e.Report(s, "comparison without operator", root.Pos(), "a comparison is decided without looking at its operator")
			}
		case op == "==" || op == "!=":
			e.Report(s, "sides not compared", root.Pos(), "a condition with %s is decided as %v without comparing its sides", op, run)
		case noOp == 2:
			// no operator: the pattern admits only the two
		case s.Get("n") == "part":
			e.Report(s, "sides not compared", root.Pos(), "a comparison is decided as %v without comparing its sides", run)
		case empty != nil && *empty || isFalse != nil && *isFalse:
			if run {
				e.Report(s, "false value holds", root.Pos(), "a condition whose value is empty or false can hold")
				return
			}
			e.Count("truth decided")
		case s.Get("n") == "":
			none := false
			for f, v := range s.facts {
				if v && f.K == KBin && f.S == "==" && (f.A[0] == cond && f.A[1].S == `""` || f.A[0].K == KLen && f.A[0].A[0] == cond && f.A[1].S == "0") {
					none = true
				}
			}
			switch {
			case !none:
				e.Report(s, "decided without its text", root.Pos(), "a condition is decided as %v without its text being interpolated", run)
			case !run:
				e.Report(s, "no condition", root.Pos(), "an item without a condition does not run")
			default:
				e.Count("no condition")
			}
		case run && (empty == nil || isFalse == nil):
			e.Report(s, "truth not tested", root.Pos(), "a condition can hold though its value was not found to be neither empty nor false")
		case !run:
			e.Report(s, "true value does not hold", root.Pos(), "a condition whose value is neither empty nor false can fail to hold")
		default:
			e.Count("truth decided")
		}
	}
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if len(ret) != 2 {
			return
		}
		if s.Get("bad") != "" {
			if e.Nilness(s, ret[1]) != -1 {
				e.Report(s, "failure swallowed", root.Pos(), "a condition whose interpolation failed is decided instead of being an error")
			} else {
				e.Count("failure propagated")
			}
			return
		}
		if e.Nilness(s, ret[1]) == -1 {
			return
		}
		t := fieldTerm(e, ret[0], "ShouldRun")
		for _, v := range []bool{true, false} {
			u := s.clone()
			if !e.Assume(u, t, v) {
				continue
			}
			if d, ok := e.Decide(u, t); !ok || d != v {
				continue
			}
			judge(u, v)
		}
	}
	s := e.NewState(root, nil)
	for _, prm := range root.Params {
		if isStringT(prm.Type()) {
			cond = s.top().env[prm]
		} else {
			ctx = s.top().env[prm]
		}
	}
	e.Run(s)
	c.Absorb(e)
}

// blankTrim: blanks are cut off t, or off the text it was interpolated from.
func blankTrim(t *Term) bool {
	for {
		switch {
		case t.K == KExt && t.A[0].K == KCall && t.A[0].S == interpFn:
			t = t.A[0].A[0]
		case t.K == KCall && strings.HasPrefix(t.S, "strings.Trim") && len(t.A) > 0:
			if t.S == "strings.TrimSpace" || len(t.A) == 2 && strings.Contains(t.A[1].S, " ") {
				return true
			}
			t = t.A[0]
		default:
			return false
		}
	}
}
