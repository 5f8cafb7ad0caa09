package main

import (
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// inPkg: functions of one of the packages.
func inPkg(p *Prog, rels ...string) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		for _, r := range rels {
			if p.Rel(fn) == r {
				return true
			}
		}
		return false
	}
}
