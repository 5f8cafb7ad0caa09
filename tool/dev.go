package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func devCmd(a []string) {
	if a[0] == "run" {
		p, err := Load("linux")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		fn, err := p.Func(a[1], a[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		opq := map[string]bool{}
		if len(a) > 3 {
			for _, x := range strings.Split(a[3], ",") {
				opq[x] = true
			}
		}
		ev := map[string]int{}
		exits := 0
		n := 0
		stats := map[string]map[string]int{}
		e := NewEngine(p, &Client{Name: "dev", CollapseErr: true, Abstract: func(t types.Type) bool {
			switch shortType(t) {
			case "*bool", "io.Writer", "map[string]string", "[]string", "*tea.Program", "*runner.ParallelContext":
				return true
			}
			return false
		}, Inline: func(fn *ssa.Function) bool {
			if fn.Pkg == nil {
				return true
			}
			return !opq[p.Rel(fn)]
		}, OnCall: func(e *Engine, s *State, c *CallEvent) {
			k := c.Name
			if c.Inline {
				k += " [inl]"
			}
			if c.Rec {
				k += " [rec]"
			}
			ev[k]++
			if len(a) > 4 && c.Name == a[4] {
				e.gc(s)
				n++
				diffStats(e, s, stats)
				if n > 3000 {
					e.MaxSteps = 0
				}
			}
		}, OnExit: func(e *Engine, s *State, ret []*Term) {
			exits++
			if exits < 30 {
				fmt.Println("exit", ret)
			}
		}})
		if pf := os.Getenv("PROF"); pf != "" {
			f, _ := os.Create(pf)
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		t := time.Now()
		e.Run(e.NewState(fn, nil))
		fmt.Println("steps", e.Steps, "states", e.States, "terms", len(e.T.all), "exits", exits, time.Since(t), e.Fail)
		for k, m := range stats {
			tot := 0
			for _, x := range m {
				tot += x
			}
			if len(m) > 1 || tot < n {
				fmt.Println("VARY", len(m), tot, n, k)
				c := 0
				for v := range m {
					if c++; c > 4 {
						break
					}
					if len(v) > 200 {
						v = v[:200]
					}
					fmt.Println("      ", m[v], v)
				}
			}
		}
		var ks []string
		for k := range ev {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("  ", ev[k], k)
		}
		return
	}
	fmt.Println("unknown command", a)
}

// diffStats collects, at one call target, which state components vary.
func diffStats(e *Engine, s *State, stats map[string]map[string]int) {
	add := func(k, v string) {
		m := stats[k]
		if m == nil {
			m = map[string]int{}
			stats[k] = m
		}
		m[v]++
	}
	for i, f := range s.frames {
		for v, t := range f.env {
			add(fmt.Sprintf("%d %s env %s", i, f.fn.Name(), v.Name()), fmt.Sprint(t.id, " ", t))
		}
	}
	for k, v := range s.mem {
		add("mem "+fmt.Sprint(k.id, " ", k), fmt.Sprint(v.id, " ", v))
	}
	for k, v := range s.facts {
		add("fact "+k.String(), fmt.Sprint(v))
	}
}

// diffHook prints, after a run, which state components vary at calls to fn.
func diffHook(cl *Client, name string) {
	stats := map[string]map[string]int{}
	n := 0
	old := cl.OnCall
	cl.OnCall = func(e *Engine, s *State, ev *CallEvent) {
		if ev.Name == name {
			e.gc(s)
			diffStats(e, s, stats)
			for k, v := range s.auto {
				m := stats["auto "+k]
				if m == nil {
					m = map[string]int{}
					stats["auto "+k] = m
				}
				m[v]++
			}
			if n++; n == 2000 {
				printDiff(stats, n)
				os.Exit(0)
			}
		}
		old(e, s, ev)
	}
	oldx := cl.OnExit
	cl.OnExit = func(e *Engine, s *State, ret []*Term) {
		if len(e.work) == 0 {
			printDiff(stats, n)
		}
		if oldx != nil {
			oldx(e, s, ret)
		}
	}
}

func printDiff(stats map[string]map[string]int, n int) {
	fmt.Println("DIFF over", n)
	for k, m := range stats {
		tot := 0
		for _, x := range m {
			tot += x
		}
		if len(m) > 1 || tot < n {
			fmt.Println("VARY", len(m), tot, n, k)
			c := 0
			for v := range m {
				if c++; c > 4 {
					break
				}
				if len(v) > 200 {
					v = v[:200]
				}
				fmt.Println("      ", m[v], v)
			}
		}
	}
}
