package main

import (
	"errors"
	"fmt"
	"slices"

	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// C18: one pattern compiled in many contexts.

func genCtx(r int, g *gen) *gen {
	g.caps = r%2 == 0
	g.errs = r%3 == 0
	g.memo = r%4 == 0
	g.chks = r%5 == 0
	return g
}

type compiled struct {
	name string
	code *vm.Code
	st   *checkers
	x    string
}

// withThreshold compiles with another inlining limit.
func withThreshold(n int, f func()) {
	save := pattern.InlineThreshold
	pattern.InlineThreshold = n
	defer func() { pattern.InlineThreshold = save }()
	f()
}

func (c *cx) contexts(p *P) []compiled {
	var out []compiled
	add := func(name string, st *checkers, mk func() (isa.Program, error)) {
		v := compiled{name: name, st: st}
		var code vm.Code
		var err error
		v.x = guard(func() {
			var prog isa.Program
			prog, err = mk()
			if err == nil {
				code = vm.Encode(prog)
			}
		})
		if v.x == "" && err != nil {
			v.x = "error: " + err.Error()
		}
		if v.x == "" {
			v.code = &code
		}
		out = append(out, v)
	}
	for _, th := range []int{0, 1, 2 + c.r.Intn(5), 100, 10000} {
		th := th
		q, st := build(p, c.r.Intn(2) == 0)
		withThreshold(th, func() {
			add(fmt.Sprintf("limit %d", th), st, func() (isa.Program, error) { return pattern.Compile(q) })
		})
	}
	// without the optimizer, and with it run twice
	q, st := build(p, true)
	add("not optimized", st, func() (isa.Program, error) { return q.Compile() })
	add("compiled again", st, func() (isa.Program, error) { return pattern.Compile(q) })
	add("optimized twice", st, func() (isa.Program, error) {
		prog, err := pattern.Compile(q)
		if err == nil {
			pattern.Optimize(prog)
		}
		return prog, err
	})
	// the pattern in two places, with definitions around it that it must not see
	q2, st2 := build(p, true)
	decoy := map[string]pattern.Pattern{
		"Main": pattern.Or(pattern.Concat(pattern.Literal("\x00nothing"), q2), q2),
	}
	for _, nm := range ruleNames {
		if !p.freeName(nm) {
			decoy[nm] = pattern.Concat(pattern.Literal("\x01decoy"), pattern.Any(1))
		}
	}
	for _, th := range []int{0, 100} {
		th := th
		withThreshold(th, func() {
			add(fmt.Sprintf("inside another grammar, limit %d", th), st2, func() (isa.Program, error) {
				return pattern.Compile(pattern.Grammar("Main", decoy))
			})
		})
	}
	add("alone after that", st2, func() (isa.Program, error) { return pattern.Compile(q2) })
	add("after a failing alternative", st2, func() (isa.Program, error) {
		return pattern.Compile(pattern.Or(pattern.Concat(q2, pattern.Literal("\x00\x01never\x02")), q2))
	})
	// the pattern and its programs only looked at, or inlined beforehand
	q3, st3 := build(p, c.r.Intn(2) == 0)
	look := guard(func() {
		for _, th := range []int{0, 100, 10000} {
			withThreshold(th, func() {
				pattern.Prettify(q3)
				pattern.CountSubPatterns(q3)
				pattern.WalkPattern(q3, c.r.Intn(2) == 0, func(sub pattern.Pattern) { pattern.Get(sub) })
				if prog, err := pattern.Compile(q3); err == nil {
					if prog.Size() < 3000 { // it takes time quadratic in the size
						_ = prog.String()
					}
				}
			})
		}
	})
	add("looked at before", st3, func() (isa.Program, error) {
		if look != "" {
			return nil, errors.New(look)
		}
		return pattern.Compile(q3)
	})
	// Inline changes the references themselves, which must not be shared
	q4, st4 := build(p, false)
	withThreshold([]int{0, 2 + c.r.Intn(5), 100, 10000}[c.r.Intn(4)], func() {
		add("inlined before", st4, func() (isa.Program, error) {
			pattern.WalkPattern(q4, false, func(sub pattern.Pattern) {
				if g, ok := sub.(*pattern.GrammarNode); ok && c.r.Intn(2) == 0 {
					g.Inline()
				}
			})
			if g, ok := q4.(*pattern.GrammarNode); ok {
				g.Inline()
			}
			return pattern.Compile(q4)
		})
		add("inlined before, in another grammar", st4, func() (isa.Program, error) {
			return pattern.Compile(pattern.Grammar("Main", map[string]pattern.Pattern{"Main": pattern.Or(pattern.Concat(pattern.Literal("\x00no"), q4), q4)}))
		})
	})
	// other patterns compiled in between
	pattern.Compile(pattern.Grammar("S", map[string]pattern.Pattern{"S": pattern.Or(pattern.Literal("q"), pattern.NonTerm("A")), "A": pattern.Star(pattern.Memo(pattern.Literal("z")))}))
	add("after unrelated patterns", st2, func() (isa.Program, error) { return pattern.Compile(q2) })
	return out
}

// freeName reports whether the pattern refers to nm without defining it.
func (p *P) freeName(nm string) bool {
	seen := map[string]bool{}
	var walk func(k int, e env) bool
	walk = func(k int, e env) bool {
		key := fmt.Sprint(k, e)
		if seen[key] {
			return false
		}
		seen[key] = true
		n := p.at(k)
		switch n.T {
		case "nt":
			_, _, ok := p.scope(e, n.Nm)
			return !ok && n.Nm == nm
		case "gram":
			e2 := e.ext(k)
			if _, _, ok := p.scope(e2, n.Nm); !ok && n.Nm == nm {
				return true
			}
			for _, d := range n.D {
				if walk(d.K, e2) {
					return true
				}
			}
			return false
		}
		return n.A > 0 && walk(n.A, e) || n.B > 0 && walk(n.B, e)
	}
	return walk(p.Root, nil)
}

func (c *cx) inContexts(p *P, texts []Text) {
	vs := c.contexts(p)
	never := false
	for _, n := range p.N {
		if n.T == "err" || n.T == "chk" {
			never = true // an abandoned first attempt leaves side effects
		}
	}
	var runs []Run
	for _, t := range texts {
		var g group
		b := t.bytes()
		for _, v := range vs {
			if never && v.name == "after a failing alternative" {
				continue
			}
			if v.x != "" {
				g.add(v.name, &Obs{X: v.x})
				continue
			}
			g.add(v.name, exec(v.code, v.st, rd(b), memo.NoneTable{}))
		}
		runs = append(runs, Run{T: t, Obs: g.list()})
	}
	c.parseRec(p, runs, fieldsAll)
}

func genScopes(c *cx) *gen {
	return genCtx(c.r.Intn(60), newGen(c.r))
}

// nested makes grammars inside grammars that reuse names.
func nested(c *cx, i int) {
	for try := 0; try < 200; try++ {
		g := genScopes(c)
		g.p = &P{}
		r := c.r
		names := []string{"S", "A", "B"}
		// parts that mean something else in another grammar, with the names
		// that they may refer to
		type part struct {
			k     int
			scope []string
		}
		var pool []part
		var mk func(depth, size int) int
		mk = func(depth, size int) int {
			p := g.p
			save := g.scope
			n := 1 + r.Intn(3)
			own := names[:n]
			if r.Intn(3) == 0 {
				own = []string{names[r.Intn(3)]}
			}
			g.scope = append(append([]string{}, own...), save...)
			var defs []Def
			for _, nm := range own {
				b := 0
				if len(pool) > 0 && r.Intn(3) == 0 {
					q := pool[r.Intn(len(pool))]
					b = q.k
					for _, nm := range q.scope {
						if !slices.Contains(g.scope, nm) {
							b = 0
						}
					}
				}
				if b == 0 {
					b = g.node(1 + r.Intn(size))
					if r.Intn(8) == 0 {
						b = p.errn(1+r.Intn(3), p.alt(p.nt(own[r.Intn(len(own))]), b))
					}
					pool = append(pool, part{b, g.scope})
				}
				if depth < 3 && r.Intn(2) == 0 {
					in := mk(depth+1, size)
					switch r.Intn(5) {
					case 0:
						in = p.un("search", in)
					case 1:
						in = p.un("star", in)
					case 2:
						in = p.cap(in, depth)
					}
					switch r.Intn(3) {
					case 0:
						b = p.seq(b, in)
					case 1:
						b = p.alt(p.seq(in, g.node(1)), b)
					case 2:
						b = p.seq(in, b)
					}
				}
				defs = append(defs, Def{nm, b})
			}
			g.scope = save
			start := own[0]
			if depth > 0 && r.Intn(6) == 0 {
				start = save[r.Intn(len(save))] // perhaps a rule of an outer grammar
			}
			return p.gram(start, defs)
		}
		g.p.Root = mk(0, 1+r.Intn(5))
		g.p.uniqueMemo()
		if g.p.wf() {
			c.inContexts(g.p, asTexts(g.texts(g.p, 8, 30)))
			return
		}
	}
	c.count("ill-formed", 1)
}

// undefined removes definitions: compilation must say which name is missing.
func undefined(c *cx, i int) {
	r := c.r
	g := genScopes(c)
	g.memo = false
	var p *P
	for try := 0; ; try++ {
		g.gram = true
		p = g.patt(5 + r.Intn(15))
		var grams []int
		for k := range p.N {
			if p.N[k].T == "gram" {
				grams = append(grams, k)
			}
		}
		if len(grams) == 0 {
			if try > 100 {
				return
			}
			continue
		}
		k := grams[r.Intn(len(grams))]
		n := &p.N[k]
		switch r.Intn(4) {
		case 0: // drop one definition
			x := r.Intn(len(n.D))
			n.D = append(append([]Def{}, n.D[:x]...), n.D[x+1:]...)
		case 1: // rename one
			x := r.Intn(len(n.D))
			n.D = append([]Def{}, n.D...)
			n.D[x].Nm = "Other"
		case 2: // a start that does not exist
			n.Nm = "Nowhere"
		case 3: // use what only an inner grammar defines
			in := &P{N: p.N, Root: k + 1}
			_ = in
			p.Root = p.seq(p.Root, p.nt(ruleNames[r.Intn(len(ruleNames))]))
		}
		break
	}
	var obs []map[string]interface{}
	try := func(name string, share bool, th int) {
		q, _ := build(p, share)
		o := map[string]interface{}{"via": name, "nm": ""}
		var err error
		x := guard(func() {
			withThreshold(th, func() { _, err = pattern.Compile(q) })
		})
		var nf *pattern.NotFoundError
		switch {
		case x != "":
			o["res"] = x
		case err == nil:
			o["res"] = "ok"
		case errors.As(err, &nf):
			o["res"] = "notfound"
			o["nm"] = nf.Name
		default:
			o["res"] = "another error: " + err.Error()
		}
		obs = append(obs, o)
	}
	try("default", false, 100)
	try("no inlining", true, 0)
	try("much inlining", false, 100000)
	c.count("undefined", 1)
	c.emit("NamesTrace", map[string]interface{}{"N": p.N, "r": p.Root, "obs": obs})
}

func init() {
	properties["C18"] = func(c *ctx) []family {
		return []family{
			{"rand", c.n(2500, 40000), func(c *cx, i int) {
				g := genScopes(c)
				p := g.patt(3 + c.r.Intn(16))
				c.inContexts(p, asTexts(g.texts(p, 7, 40)))
			}},
			{"big", c.n(250, 4000), func(c *cx, i int) {
				g := genScopes(c)
				p := g.patt(15 + c.r.Intn(50))
				c.inContexts(p, asTexts(g.texts(p, 8, 60)))
			}},
			{"nested", c.n(2000, 30000), nested},
			{"enum4", c.n(500, 3000), func(c *cx, i int) {
				e := newEnum("ab")
				p := &P{}
				p.Root = e.nth(p, 4, c.r.Intn(e.count(4)))
				if !p.wf() {
					return
				}
				c.inContexts(p, asTexts(shortTexts("ab", 3)))
			}},
			manyFamily(c, 10, 200, (*cx).inContexts, manyRules, manyRules, manySets, manyMemos),
			{"undefined", c.n(2000, 20000), undefined},
		}
	}
}
