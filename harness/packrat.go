package main

import (
	"github.com/zyedidia/gpeg/memo"
)

// C22: within one parse, and when the same text is parsed again, memoized
// patterns are not evaluated again where their result is known.

// probes makes every memoized pattern log where it starts and where it ends.
// Patterns that are repeated directly are memoized in another way; unless they
// may be, they get something around them. The nodes that are memoized in that
// way are returned.
func (p *P) probes(trees, errs bool, shift int) []int {
	// how often each node is compiled
	uses := map[int]int{}
	var count func(k, times int)
	count = func(k, times int) {
		if k == 0 || times == 0 || uses[k] > 100 {
			return
		}
		uses[k] += times
		n := p.at(k)
		switch n.T {
		case "plus":
			times *= 2
		case "rep":
			times *= max(n.N, 0)
		}
		count(n.A, times)
		count(n.B, times)
		for _, d := range n.D {
			count(d.K, times)
		}
	}
	count(p.Root, 1)
	tree := []int{}
	for i, n := range p.N {
		if n.T != "star" && n.T != "plus" {
			continue
		}
		k := n.A
		if trees && n.T == "star" && p.at(k).T == "memo" && uses[k] == 1 {
			tree = append(tree, 100+k)
			continue
		}
		a := p.cap(k, 9)
		p.N[i].A = a
	}
	// ids that differ in high bits only, without repeating
	scale := 1
	for scale*2*len(p.N) < 65536 && shift > 0 {
		scale *= 2
		shift--
	}
	for i, n := range p.N {
		if n.T != "memo" {
			continue
		}
		start := p.add(Nd{T: "chk", K: "mod", M: 1, Lg: 1, N: 100 + i + 1, F: 0, A: p.empty()})
		end := p.add(Nd{T: "chk", K: "mod", M: 1, Lg: 1, N: 100 + i + 1, F: 1, A: p.seq(start, n.A)})
		if errs {
			// failures have to be seen too, to tell what an error belongs to
			failed := p.add(Nd{T: "chk", K: "mod", M: 1, Lg: 1, N: 100 + i + 1, F: 3, A: p.empty()})
			end = p.alt(end, p.seq(failed, p.un("not", p.empty())))
		}
		p.N[i].A = end
		p.N[i].MemoID = -32768 + i*scale
	}
	if errs {
		for i, n := range p.N {
			if n.T == "err" {
				said := p.add(Nd{T: "chk", K: "mod", M: 1, Lg: 1, N: 20000 + i, F: 2, A: p.empty()})
				p.N[i] = Nd{T: "seq", A: said, B: p.add(n)}
			}
		}
	}
	return tree
}

func packrat(c *cx, size, maxLen int, errs bool) {
	r := c.r
	for {
		g := newGen(r)
		g.memo, g.errs, g.chks, g.refs = true, errs, false, false
		g.gram = r.Intn(2) == 0
		p := g.patt(2 + r.Intn(size))
		grams, memos, errors := 0, 0, 0
		for _, n := range p.N {
			if n.T == "gram" {
				grams++
			}
			if n.T == "memo" {
				memos++
			}
			if n.T == "err" {
				errors++
			}
		}
		if memos == 0 || errs && errors == 0 {
			continue
		}
		tree := p.probes(grams == 0, errs, r.Intn(12))
		if !p.wf() {
			continue
		}
		q, st := build(p, r.Intn(2) == 0)
		code, x := compileP(q)
		var runs []map[string]interface{}
		for _, t := range g.texts(p, 6, maxLen) {
			if x != "" {
				runs = append(runs, map[string]interface{}{"T": txt(t), "obs": []*Obs{{X: x}}})
				break
			}
			tbl := memo.NewTreeTable(0)
			var obs []*Obs
			for n := 0; n < 3; n++ {
				o := exec(code, st, rd(t), tbl)
				c.count("evaluations", len(o.L))
				obs = append(obs, o)
			}
			runs = append(runs, map[string]interface{}{"T": txt(t), "obs": obs})
		}
		if len(runs) == 0 {
			continue
		}
		c.count("runs", len(runs))
		c.emit("Packrat", map[string]interface{}{"N": p.N, "r": p.Root, "tree": tree, "runs": runs})
		return
	}
}

func init() {
	properties["C22"] = func(c *ctx) []family {
		return []family{
			{"rand", c.n(6000, 100000), func(c *cx, i int) { packrat(c, 14, 24, false) }},
			{"big", c.n(1000, 16000), func(c *cx, i int) { packrat(c, 40, 40, false) }},
			{"errors", c.n(3000, 50000), func(c *cx, i int) { packrat(c, 20, 30, true) }},
		}
	}
}
