package main

import (
	"fmt"
	"os"
	"sort"
)

func debugDump(repo, what string) {
	p, err := Load(repo, nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e := NewEffects(p)
	for _, fn := range p.Funcs {
		s := e.sums[ctxKey(fn, nil)]
		var ws []string
		for _, w := range s.writes {
			ws = append(ws, w.loc.String()+"{"+w.guards+"}")
		}
		sort.Strings(ws)
		var rs []string
		for i, r := range s.results {
			for l := range e.reach(s, r) {
				if l.o.root != -1 {
					rs = append(rs, fmt.Sprintf("r%d:%s", i, l))
				}
			}
		}
		sort.Strings(rs)
		fmt.Println(fname(fn), "W", ws, "R", rs, "GR", s.globalsRead, "GW", len(s.globalsWritten), "ND", s.nondet)
	}
}
