package main

// Shared vocabulary: effect sinks, preview printers, and anchors resolved by
// role (entry points and external API), never by source text.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	logPkg = "github.com/charmbracelet/log"
	huhPkg = "charm.land/huh/v2"
	teaPkg = "charm.land/bubbletea/v2"
)

// effectKind classifies an external callee by its effect on the world outside
// the process ("" for none).
func effectKind(name string) string {
	switch name {
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Start", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput",
		"os.StartProcess", "syscall.Exec", "syscall.ForkExec", "syscall.StartProcess":
		return "exec"
	case "os.WriteFile", "os.Create", "os.CreateTemp", "os.OpenFile", "os.Remove", "os.RemoveAll", "os.Rename", "os.Mkdir", "os.MkdirAll", "os.MkdirTemp",
		"os.Symlink", "os.Link", "os.Chmod", "os.Chown", "os.Chtimes", "os.Truncate", "io/ioutil.WriteFile", "(*os.Root).Create", "(*os.Root).OpenFile", "(*os.Root).Remove", "(*os.Root).Mkdir":
		return "fs-write"
	case "os.Chdir", "os.Setenv", "os.Unsetenv", "os.Clearenv":
		return "process-state"
	}
	switch {
	case strings.HasPrefix(name, "(*net/http.Client)."), name == "net/http.Get", name == "net/http.Post", name == "net/http.Head", name == "net/http.PostForm",
		strings.HasPrefix(name, "net.Dial"), strings.HasPrefix(name, "(*net.Dialer).Dial"), strings.HasPrefix(name, "net.Lookup"):
		return "net"
	case strings.HasPrefix(name, "(*"+huhPkg+".") && (strings.HasSuffix(name, ").Run") || strings.HasSuffix(name, ").RunWithContext") || strings.HasSuffix(name, ").RunAccessible")):
		return "prompt"
	case name == "(*"+teaPkg+".Program).Run", name == "(*"+teaPkg+".Program).Start":
		return "tui"
	}
	return ""
}

// printer reports whether the callee shows its arguments to the user at the
// default log level.
func printer(name string) bool {
	switch name {
	case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint":
		return true
	}
	for _, l := range []string{"Info", "Infof", "Warn", "Warnf", "Error", "Errorf", "Print", "Printf", "Log", "Logf"} {
		if name == logPkg+"."+l || name == "(*"+logPkg+".Logger)."+l {
			return true
		}
	}
	return false
}

// flat expands a trailing variadic slice and strips interface wrapping.
func (e *Engine) flat(s *State, args []*Term) []*Term {
	if len(args) == 0 {
		return nil
	}
	out := append([]*Term(nil), args[:len(args)-1]...)
	last := args[len(args)-1]
	if lst, ok := e.flatSeq(s, last); ok && (last.K == KSlice || last.K == KAppend || last.IsNil()) {
		out = append(out, lst...)
	} else {
		out = append(out, last)
	}
	for i := range out {
		out[i] = strip(out[i])
	}
	return out
}

// named reports whether t (or *t) is the repository type rel.name.
func (p *Prog) named(t types.Type, rel, name string) bool {
	if t == nil {
		return false
	}
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	want := p.Mod
	if rel != "" {
		want += "/" + rel
	}
	return n.Obj().Name() == name && n.Obj().Pkg().Path() == want
}

// RunModel holds the anchors of the execution engine of bab.
type RunModel struct {
	P     *Prog
	Entry *ssa.Function   // Runner.RunWithTasks
	Run   *ssa.Function   // Runner.Run
	Heads []*ssa.Function // recursive function(s) entered from Entry
}

func runModel(c *Ctx, p *Prog) *RunModel {
	m := &RunModel{P: p}
	var err error
	m.Entry, err = p.Func("internal/runner", "Runner.RunWithTasks")
	must(c, 0, err)
	m.Run, err = p.Func("internal/runner", "Runner.Run")
	must(c, 0, err)
	seen := map[*ssa.Function]bool{}
	q := []*ssa.Function{m.Entry}
	for len(q) > 0 {
		fn := q[0]
		q = q[1:]
		if seen[fn] || fn.Blocks == nil || !(p.InRepo(fn) || fn.Synthetic != "") {
			continue
		}
		seen[fn] = true
		if fn.Synthetic == "" && p.OnCycle(fn) && p.Rel(fn) == "internal/runner" {
			m.Heads = append(m.Heads, fn)
			continue
		}
		q = append(q, p.edges(fn)...)
	}
	if len(m.Heads) == 0 {
		must(c, 0, fmt.Errorf("no recursive task-execution function is reachable from RunWithTasks"))
	}
	sort.Slice(m.Heads, func(i, j int) bool { return m.Heads[i].String() < m.Heads[j].String() })
	return m
}

// isRunColl: t is the run list of some task (Task.Run); isParColl: the items
// of a parallel block.
func (p *Prog) isRunColl(t *Term) bool {
	return t.K == KFld && t.S == "Run" && isItemSlice(p, t.T)
}
func (p *Prog) isParColl(t *Term) bool {
	return t.K == KFld && t.S == "Items" && isItemSlice(p, t.T)
}

func isItemSlice(p *Prog, t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	return ok && p.named(sl.Elem(), "internal/babfile", "RunItem")
}

// itemOf finds the run item a term speaks about: the RunItem-typed element
// nested in it.
func (p *Prog) itemOf(t *Term) *Term {
	var r *Term
	t.any(func(x *Term) bool {
		if x.K == KElem && p.named(x.T, "internal/babfile", "RunItem") {
			if r == nil || x.depth > r.depth {
				r = x
			}
		}
		return false
	})
	return r
}

const platAtom = "internal/babfile.matchesPlatform"
const condFn = "internal/condition.Evaluate"

// gateAtom recognises the two gating decisions. kind is "platform" or "when";
// subject is the item or task the decision is about.
func (p *Prog) gateAtom(a *Term) (kind string, arg *Term) {
	if a.K == KCall && a.S == platAtom && len(a.A) > 0 {
		return "platform", a.A[0]
	}
	if a.K == KFld && a.S == "ShouldRun" {
		b := a.A[0]
		if b.K == KExt && b.A[0].K == KCall && b.A[0].S == condFn {
			return "when", b.A[0].A[0]
		}
	}
	return "", nil
}

// platformPred: a function deciding whether a platform list admits a system
// (recognised by its signature; its body is judged by C02).
func (p *Prog) platformPred(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil || !p.InRepo(fn) || fn.Signature.Recv() != nil || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 1 {
		return false
	}
	if !types.Identical(fn.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
		return false
	}
	sl, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice)
	if !ok || !p.named(sl.Elem(), "internal/babfile", "Platform") {
		return false
	}
	b, ok := fn.Signature.Params().At(1).Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// handlePlatform turns the platform predicate into one pure atom. An inlined
// membership test on the platform list is the same decision.
func handlePlatform(e *Engine, c *CallEvent) bool {
	if c.Name == "cmp.Or" && c.Fn != nil && c.Fn.Signature.Results().Len() == 1 {
		return e.firstNonZero(c)
	}
	if e.P.platformPred(c.Fn) && len(c.Args) == 2 {
		c.Handled = true
		c.Results = []Outcome{{Ret: e.T.mk(KCall, platAtom, "", types.Typ[types.Bool], false, c.Fn, strip(c.Args[0]), strip(c.Args[1]))}}
		return true
	}
	if c.Name == "slices.Contains" && len(c.Args) == 2 && platList(e.P, c.Args[0]) {
		c.Handled = true
		in := e.T.mk(KCall, platAtom, "", types.Typ[types.Bool], false, nil, c.Args[0], strip(c.Args[1]))
		c.Results = []Outcome{{Ret: in}}
		return true
	}
	return false
}

func platList(p *Prog, t *Term) bool {
	if t.T == nil {
		return false
	}
	sl, ok := t.T.Underlying().(*types.Slice)
	return ok && p.named(sl.Elem(), "internal/babfile", "Platform")
}

// irrelevantRunner is the default abstraction for execution-engine clients.
func irrelevantRunner(names ...string) func(t types.Type) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(t types.Type) bool { return m[shortType(t)] }
}

type tokenPos = token.Pos

// goosList: linux always; the other supported systems in the thorough tier.
func (c *Ctx) goosList() []string {
	if c.Tier == "thorough" {
		return []string{"linux", "darwin", "windows"}
	}
	return []string{"linux"}
}

// firstNonZero models cmp.Or: one outcome per argument that may be the first
// that is not zero, and one for none.
func (e *Engine) firstNonZero(c *CallEvent) bool {
	t := c.Fn.Signature.Results().At(0).Type()
	var zero *Term
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString == 0 {
			return false
		}
		zero = e.T.Str("")
	case *types.Pointer, *types.Interface:
		zero = e.T.Nil()
	default:
		return false
	}
	list, ok := e.flatSeq(e.cur, c.Args[0])
	if !ok {
		return false
	}
	var outs []Outcome
	facts := map[*Term]bool{}
	cp := func() map[*Term]bool {
		m := map[*Term]bool{}
		for k, v := range facts {
			m[k] = v
		}
		return m
	}
	add := func(ret *Term) {
		f := cp()
		outs = append(outs, Outcome{Ret: ret, Facts: f, Do: func(s *State) {
			if e.C.OnBranch == nil {
				return
			}
			for a, v := range f {
				e.C.OnBranch(e, s, a, v, c.Pos)
			}
		}})
	}
	for _, x := range list {
		a := e.T.mk(KBin, "==", "", types.Typ[types.Bool], false, nil, x, zero)
		facts[a] = false
		add(x)
		facts[a] = true
	}
	add(zero)
	c.Handled = true
	c.Results = outs
	return true
}
