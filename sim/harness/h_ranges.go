package main

import (
	"fmt"
	"sort"
	"strings"
)

// ranges prints how far the generator of a property reaches.
func ranges(p *Prop, n int) {
	v := map[string][]int{}
	put := func(k string, x int) { v[k] = append(v[k], x) }
	for i := 0; i < n; i++ {
		c := makeCase(p, envSeed(), i)
		put("words", len(c.Words))
		d, l := map[string]bool{}, 0
		for _, w := range c.Words {
			d[w] = true
			l = max(l, len(w))
		}
		put("distinct", len(d))
		put("wordlen", l)
		put("text", len(c.Text))
		put("dim", c.M.Dim)
		put("iter", c.M.Iter)
		put("g", c.M.G)
		put("b", c.M.B)
		put("win", c.M.Win)
		put("neg", c.M.Neg)
		put("depth", c.M.Depth)
		put("minc", c.M.MinC)
		put("maxc", c.M.MaxC)
		put("updlr", c.M.UpdLR)
		put("logb", c.M.LogB)
		put("L", len(c.L))
		put("vec", len(c.Vec))
		put("Q", len(c.Q))
		put("term", len(c.Term))
		put("files", len(strings.Join(func() (x []string) {
			for _, f := range c.Files {
				x = append(x, f)
			}
			return
		}(), "")))
		for k, x := range c.I {
			put("I."+k, x)
		}
	}
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Printf("%s:", p.ID)
	for _, k := range ks {
		x := v[k]
		sort.Ints(x)
		if x[0] == x[len(x)-1] {
			continue
		}
		q := func(f float64) int { return x[int(f*float64(len(x)-1))] }
		fmt.Printf(" %s[%d %d %d..%d]", k, q(.5), q(.99), q(.999), x[len(x)-1])
	}
	fmt.Println()
}
