package main

import (
	"math/rand"
	"strconv"
)

// gen makes random patterns.
type gen struct {
	r     *rand.Rand
	p     *P
	scope []string // names of rules that may be referred to
	grams int      // nesting of grammars so far
	// features
	caps, memo, errs, chks, refs, eops, gram, search bool
	pure                                             bool // inside a memo: only pure checkers
	memoN, memoScale                                 int
	memos                                            []int // memoized nodes that may be used again
	alpha                                            []byte
	big                                              bool // extreme operands
	tables2                                          bool // two tables of symbols
	inRule                                           bool
}

var alphas = [][]byte{
	[]byte("abc"), []byte("ab"), []byte("a\n_ "), {0, 255, 'a'}, {127, 128, 129, 'b'}, []byte("aAbB01"), {0x7f, 0x80, 0xbf, 0xc0, 0xff},
}

func newGen(r *rand.Rand) *gen {
	a := alphas[0]
	if r.Intn(3) == 0 {
		a = alphas[r.Intn(len(alphas))]
	}
	return &gen{r: r, p: &P{}, alpha: a, caps: true, search: true, gram: true, eops: true}
}

func (g *gen) byte() byte { return g.alpha[g.r.Intn(len(g.alpha))] }

func (g *gen) str(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = g.byte()
	}
	return string(b)
}

func (g *gen) set() int {
	r := g.r
	var rs [][2]int
	switch r.Intn(8) {
	case 0: // everything but one byte
		b := int(g.byte())
		if b > 0 {
			rs = append(rs, [2]int{0, b - 1})
		}
		if b < 255 {
			rs = append(rs, [2]int{b + 1, 255})
		}
	case 1:
		rs = append(rs, [2]int{0, 255})
	case 2:
		rs = nil
	case 3:
		rs = append(rs, [2]int{int(g.byte()), int(g.byte())})
		if rs[0][0] > rs[0][1] {
			rs[0][0], rs[0][1] = rs[0][1], rs[0][0]
		}
	default:
		for i := 0; i <= r.Intn(3); i++ {
			b := int(g.byte())
			rs = append(rs, [2]int{b, b})
		}
	}
	k := g.p.set(rs...)
	g.p.at(k).Hint = r.Intn(3)
	return k
}

func (g *gen) capID() int {
	switch g.r.Intn(12) {
	case 0:
		return []int{32767, -32768, -1, 255, 256, 128, 65535 - 65536}[g.r.Intn(7)]
	default:
		return g.r.Intn(5)
	}
}

func (g *gen) leaf() int {
	r := g.r
	p := g.p
	switch x := r.Intn(20); {
	case x < 8:
		n := 1
		if r.Intn(3) == 0 {
			n = 2 + r.Intn(2)
		}
		return p.lit(g.str(n))
	case x < 13:
		return g.set()
	case x < 15:
		n := 1
		if r.Intn(4) == 0 {
			n = 2
		}
		if r.Intn(25) == 0 {
			n = 0
		}
		return p.any(n)
	case x < 16:
		k := p.empty()
		p.at(k).Hint = r.Intn(2)
		return k
	case x < 17 && g.eops:
		return p.add(Nd{T: "eop", N: 1 << r.Intn(6)})
	case x < 18 && g.errs:
		return p.errn(r.Intn(len(messages)), 0)
	}
	if len(g.scope) > 0 {
		return p.nt(g.scope[r.Intn(len(g.scope))])
	}
	return p.lit(g.str(1))
}

// node returns a random pattern of about the given size.
func (g *gen) node(size int) int {
	r := g.r
	p := g.p
	if size <= 1 {
		return g.leaf()
	}
	if len(g.scope) > 0 && r.Intn(7) == 0 {
		return p.nt(g.scope[r.Intn(len(g.scope))])
	}
	if size > 2 && r.Intn(12) == 0 {
		return g.idiom(size)
	}
	un := func(t string) int { return p.un(t, g.node(size-1)) }
	for {
		switch r.Intn(22) {
		case 0, 1, 2, 3, 4:
			a := 1 + r.Intn(size-1)
			if size == 2 {
				a = 1
			}
			x := g.node(a)
			return p.add(Nd{T: "seq", A: x, B: g.node(max(1, size-1-a))})
		case 5, 6, 7, 8:
			a := 1 + r.Intn(size-1)
			x := g.node(a)
			return p.add(Nd{T: "alt", A: x, B: g.node(max(1, size-1-a))})
		case 9, 10:
			return un("star")
		case 11:
			return un("plus")
		case 12:
			return un("opt")
		case 13:
			return un("not")
		case 14:
			return un("and")
		case 15, 16:
			if !g.caps {
				continue
			}
			return p.cap(g.node(size-1), g.capID())
		case 17:
			if r.Intn(3) != 0 {
				continue
			}
			return p.rep(g.node(size-1), r.Intn(4))
		case 18:
			if !g.search {
				continue
			}
			return un("search")
		case 19:
			if g.memo {
				if len(g.memos) > 0 && r.Intn(2) == 0 {
					return g.memos[r.Intn(len(g.memos))]
				}
				save := g.pure
				g.pure = true
				a := g.node(size - 1)
				g.pure = save
				g.memoN++
				k := p.memo(a, g.memoID())
				if !p.hasName(a) {
					g.memos = append(g.memos, k)
				}
				return k
			}
			if g.errs {
				return p.errn(r.Intn(len(messages)), g.node(size-1))
			}
			continue
		case 20:
			if g.chks {
				return g.check(size)
			}
			if g.errs {
				return p.errn(r.Intn(len(messages)), g.node(size-1))
			}
			continue
		case 21:
			if g.gram && g.grams < 2 && size > 3 {
				return g.grammar(size - 1)
			}
			continue
		}
	}
}

// idiom is a combination that is common in grammars, and that a compiler may
// treat specially.
func (g *gen) idiom(size int) int {
	r, p := g.r, g.p
	sub := func() int { return g.node(max(1, size/3)) }
	if g.memo && r.Intn(2) == 0 {
		return g.memoIdiom(size)
	}
	one := func() int {
		switch r.Intn(3) {
		case 0:
			return p.lit(g.str(1))
		case 1:
			return g.set()
		}
		return p.lit(g.str(1 + r.Intn(3)))
	}
	wide := func() int {
		switch r.Intn(6) {
		case 0, 1:
			return p.any(1)
		case 2, 3:
			return p.any(2 + r.Intn(2))
		case 4:
			return p.lit(g.str(1 + r.Intn(2)))
		}
		return g.set()
	}
	few := func(k int) int {
		switch r.Intn(5) {
		case 0:
			return p.un("plus", k)
		case 1:
			return p.un("opt", k)
		case 2:
			return p.rep(k, r.Intn(4))
		}
		return p.un("star", k)
	}
	switch r.Intn(14) {
	case 0: // anything but
		return p.seq(p.un("not", one()), wide())
	case 1:
		return few(p.seq(p.un("not", one()), wide()))
	case 2: // a delimited text
		d := g.str(1 + r.Intn(2))
		return p.seq(one(), few(p.seq(p.un("not", p.lit(d)), wide())), p.lit(d))
	case 3: // what follows decides
		return p.seq(one(), p.un([]string{"and", "not"}[r.Intn(2)], p.seq(few(one()), sub())))
	case 4: // different heads
		return p.alt(p.seq(one(), sub()), p.seq(one(), sub()), p.seq(one(), sub()))
	case 5: // separated list
		el, sep := sub(), one()
		return p.seq(el, p.un("star", p.seq(sep, el)))
	case 6: // a word, but not the beginning of a longer one
		return p.seq(p.lit(g.str(1+r.Intn(3))), p.un("not", g.set()))
	case 7: // alternatives of which one is the beginning of another
		s := g.str(2 + r.Intn(3))
		a, b := p.lit(s), p.lit(s[:1+r.Intn(len(s)-1)])
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		return p.seq(p.alt(a, b), sub())
	case 8: // fixed-width heads of captures
		k := p.seq(one(), one(), sub())
		if g.caps {
			k = p.cap(k, g.capID())
		}
		return k
	case 9:
		return few(p.seq(wide(), sub()))
	case 10: // several predicates
		return p.un([]string{"and", "not"}[r.Intn(2)], p.un([]string{"and", "not"}[r.Intn(2)], sub()))
	case 11: // the union of sets
		return p.un("not", p.alt(g.set(), one(), g.set()))
	case 12:
		return p.un("opt", p.un([]string{"star", "plus", "opt", "not", "and"}[r.Intn(5)], sub()))
	}
	// nested repetition
	return few(p.seq(one(), few(one())))
}

// memoIdiom is a combination in which memoized results are shared, nested or
// depend on what follows them.
func (g *gen) memoIdiom(size int) int {
	r, p := g.r, g.p
	save := g.pure
	g.pure = true
	defer func() { g.pure = save }()
	one := func() int {
		switch r.Intn(3) {
		case 0:
			return p.lit(g.str(1))
		case 1:
			return g.set()
		}
		return p.any(1)
	}
	cp := func(k int) int {
		if g.caps && r.Intn(4) != 0 {
			return p.cap(k, g.capID())
		}
		return k
	}
	sub := func() int { return g.node(max(1, size/4)) }
	mm := func(k int) int { g.memoN++; return p.memo(k, g.memoID()) }
	few := func(k int) int { return p.un([]string{"star", "plus", "opt", "star"}[r.Intn(4)], k) }
	ahead := func() int {
		var k int
		switch r.Intn(4) {
		case 0:
			k = p.any(1 + r.Intn(4))
		case 1:
			k = p.seq(few(one()), one())
		case 2:
			k = p.seq(p.any(1+r.Intn(3)), one())
		case 3:
			k = sub()
		}
		return p.un([]string{"and", "not", "not"}[r.Intn(3)], k)
	}
	el := func() int {
		k := cp(one())
		if r.Intn(2) == 0 {
			k = p.seq(k, cp(one()))
		}
		if g.caps && r.Intn(3) == 0 { // several captures
			k = p.seq(p.cap(one(), 1), p.cap(p.un("opt", one()), 2), p.cap(p.empty(), 3))
			if r.Intn(2) == 0 {
				k = p.seq(k, p.cap(p.empty(), 4), p.cap(p.empty(), 0))
			}
		}
		if r.Intn(3) == 0 {
			k = p.seq(k, sub())
		}
		return k
	}
	A := mm(el())
	switch r.Intn(8) {
	case 0: // different results that begin with the same one
		m1, m2 := mm(p.seq(A, cp(one()))), mm(p.seq(A, cp(p.alt(one(), p.empty()))))
		end := []int{p.seq(m1, cp(sub())), p.alt(m1, m2), p.alt(m2, m1)}[r.Intn(3)]
		if r.Intn(2) == 0 {
			return p.seq(p.un("and", m1), p.un("and", m2), end)
		}
		return p.alt(p.seq(m1, one()), p.seq(m2, one(), one()), end)
	case 1:
		return p.alt(p.seq(A, sub()), p.seq(A, cp(one()), sub()), A)
	case 2: // nested repetitions
		return p.un("star", mm(p.seq(p.un("plus", A), few(one()))))
	case 3: // decided far behind its end, inside another
		in := mm(p.seq(el(), ahead()))
		if r.Intn(2) == 0 {
			return p.seq(mm(p.seq(few(one()), in)), sub())
		}
		return few(mm(p.seq(few(one()), p.alt(in, el()), p.un("opt", one()))))
	case 4:
		return p.seq(p.un("opt", p.seq(A, one())), A, few(A))
	case 5:
		return few(p.alt(p.seq(A, ahead()), mm(p.seq(A, cp(one()))), one()))
	case 6: // a repetition inside one
		return mm(p.seq(p.un("star", A), ahead(), cp(few(one()))))
	}
	return p.seq(p.un("star", A), p.un("star", mm(p.alt(p.seq(A, one()), el()))), sub())
}

func (g *gen) memoID() int {
	switch g.r.Intn(8) {
	case 0:
		return autoMemo
	case 2:
		if g.r.Intn(2) == 0 {
			return autoMemo
		}
	case 1:
		return []int{32767, -300, -1, 0, 255, 256}[g.r.Intn(6)]
	}
	if g.memoScale == 0 { // ids that only differ in high bits
		g.memoScale = []int{1, 1, 256, 4096, 512, 1 << (1 + g.r.Intn(12))}[g.r.Intn(6)]
	}
	return g.memoN * g.memoScale % 32768
}

func (g *gen) check(size int) int {
	r := g.r
	n := Nd{T: "chk", A: g.node(size - 1)}
	kinds := []string{"map", "mod", "ext"}
	if g.refs && !g.pure {
		kinds = append(kinds, "def", "use", "def", "use", "blk")
	}
	n.K = kinds[r.Intn(len(kinds))]
	switch n.K {
	case "map":
		for i := 0; i < 1+r.Intn(4); i++ {
			n.SS = append(n.SS, g.str(r.Intn(4)))
		}
		if r.Intn(3) == 0 {
			n.N, n.F = r.Intn(10), r.Intn(10)
		}
	case "mod", "ext":
		n.M = 1 + r.Intn(3)
		n.Q = r.Intn(n.M)
		n.Lg = 1
		n.N, n.F = g.capID(), g.capID()
		if n.K == "ext" {
			n.X = r.Intn(3)
		}
	case "def", "use":
		n.N = []int{0, 0, 1, 1, -5, 32767}[r.Intn(6)]
		if n.K == "use" && r.Intn(2) == 0 {
			n.A = g.p.empty()
		}
		if g.tables2 {
			n.X = r.Intn(2)
		}
		if n.K == "def" {
			n.F = 0
		} else {
			n.F = 1
		}
	case "blk":
		n.N, n.F = r.Intn(3), 2
	}
	return g.p.add(n)
}

var ruleNames = []string{"S", "A", "B", "C", "Rule_1", "S_1", "start"}

func (g *gen) grammar(size int) int {
	r := g.r
	n := 1 + r.Intn(4)
	perm := r.Perm(len(ruleNames))[:n]
	var names []string
	for _, x := range perm {
		names = append(names, ruleNames[x])
	}
	save := g.scope
	g.grams++
	g.scope = append(append([]string{}, names...), save...)
	if r.Intn(6) == 0 { // prefer the own names
		g.scope = names
	}
	var defs []Def
	for _, nm := range names {
		defs = append(defs, Def{nm, g.node(1 + r.Intn(max(1, size*2/n)))})
	}
	g.scope = save
	g.grams--
	k := g.p.gram(names[0], defs)
	g.p.at(k).Hint = r.Intn(4)
	return k
}

func (g *gen) patt(size int) *P {
	for try := 0; ; try++ {
		g.p = &P{}
		g.memoN = 0
		g.memos = nil
		g.scope = nil
		g.grams = 0
		g.pure = false
		if g.gram && g.r.Intn(3) == 0 {
			g.p.Root = g.grammar(size)
		} else {
			g.p.Root = g.node(size)
		}
		g.p.uniqueMemo()
		if g.p.wf() {
			return g.p
		}
		if try > 60 {
			size = max(1, size-1)
		}
	}
}

// uniqueMemo gives explicit memo ids that no two patterns share.
func (p *P) uniqueMemo() {
	used := map[int]bool{}
	next := 100
	for i := range p.N {
		n := &p.N[i]
		if n.T != "memo" || n.MemoID == autoMemo || n.MemoID == relMemo {
			continue
		}
		for used[n.MemoID] {
			n.MemoID = next
			next++
		}
		used[n.MemoID] = true
	}
	// the largest id makes automatic ids wrap around to negative ones
	if used[32767] {
		for i := range p.N {
			if n := &p.N[i]; n.T == "memo" && n.MemoID < 0 {
				n.MemoID = next
				next++
			}
		}
	}
	// automatic ids follow the largest explicit one: where there are both, the
	// explicit ones are chosen when the pattern is made.
	hasAuto := false
	for i := range p.N {
		if p.N[i].T == "memo" && p.N[i].MemoID == autoMemo {
			hasAuto = true
		}
	}
	if hasAuto {
		for i := range p.N {
			if n := &p.N[i]; n.T == "memo" && n.MemoID != autoMemo {
				n.MemoID = relMemo
			}
		}
	}
}

const stepLimit = 3000

// texts returns texts for the pattern: sampled from it, mutated, and random.
func (g *gen) texts(p *P, n, maxLen int) [][]byte {
	r := g.r
	seen := map[string]bool{}
	var out [][]byte
	add := func(b []byte) {
		if len(b) > maxLen {
			b = b[:maxLen]
		}
		if seen[string(b)] {
			return
		}
		if st, _, errs := p.cost(b, stepLimit); st >= stepLimit || errs > 40 {
			return
		}
		seen[string(b)] = true
		out = append(out, append([]byte(nil), b...))
	}
	add(nil)
	for try := 0; try < 6*n && len(out) < n; try++ {
		switch r.Intn(4) {
		case 0:
			add([]byte(g.str(r.Intn(8))))
		case 1, 2:
			add(p.sample(r, maxLen))
		case 3:
			add(g.mutate(p.sample(r, maxLen)))
		}
	}
	return out
}

func (g *gen) mutate(b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		switch g.r.Intn(4) {
		case 0:
			i := g.r.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte{g.byte()}, b[i:]...)...)
		case 1:
			if len(b) > 0 {
				i := g.r.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 2:
			if len(b) > 0 {
				b[g.r.Intn(len(b))] = g.byte()
			}
		case 3:
			if len(b) > 0 {
				b = b[:g.r.Intn(len(b))]
			}
		}
	}
	return b
}

// ---------------------------------------------------------------------------
// Exhaustive enumeration of small patterns.

type enum struct {
	leaves []func(p *P) int
	unary  []func(p *P, a int) int
	sizes  []int // number of patterns of each size
}

func newEnum(alphabet string) *enum {
	e := &enum{}
	a := alphabet[0:1]
	b := alphabet[1:2]
	e.leaves = []func(p *P) int{
		func(p *P) int { return p.lit(a) },
		func(p *P) int { return p.lit(a + b) },
		func(p *P) int { return p.set([2]int{int(a[0]), int(a[0])}, [2]int{int(b[0]), int(b[0])}) },
		func(p *P) int { return p.any(1) },
		func(p *P) int { return p.lit(b) },
	}
	for _, t := range []string{"star", "plus", "opt", "not", "and", "search"} {
		t := t
		e.unary = append(e.unary, func(p *P, a int) int { return p.un(t, a) })
	}
	e.unary = append(e.unary, func(p *P, a int) int { return p.cap(a, len(p.N)) })
	return e
}

// enumOdd enumerates patterns with constructs that match nothing, or match
// without consuming, which the other enumerations lack.
func enumOdd() *enum {
	e := &enum{}
	e.leaves = []func(p *P) int{
		func(p *P) int { return p.lit("a") },
		func(p *P) int { return p.empty() },
		func(p *P) int { return p.any(2) },
		func(p *P) int { return p.add(Nd{T: "eop", N: 8}) },
		func(p *P) int { return p.set([2]int{1, 0}) },
		func(p *P) int { return p.set([2]int{0, 255}) },
	}
	for _, t := range []string{"star", "opt", "not", "and", "search", "plus"} {
		t := t
		e.unary = append(e.unary, func(p *P, a int) int { return p.un(t, a) })
	}
	for _, n := range []int{0, 2} {
		n := n
		e.unary = append(e.unary, func(p *P, a int) int { return p.rep(a, n) })
	}
	e.unary = append(e.unary,
		func(p *P, a int) int { return p.gram("A", []Def{{"A", a}}) },
		func(p *P, a int) int { return p.gram("A", []Def{{"A", p.alt(p.seq(p.lit("a"), p.nt("A")), a)}}) })
	return e
}

// enumErr enumerates patterns with error nodes.
func enumErr() *enum {
	e := &enum{}
	e.leaves = []func(p *P) int{
		func(p *P) int { return p.lit("a") },
		func(p *P) int { return p.set([2]int{'a', 'b'}) },
		func(p *P) int { return p.any(1) },
		func(p *P) int { return p.errn(1, 0) },
		func(p *P) int { return p.lit("b") },
	}
	for _, t := range []string{"star", "opt", "not", "and", "search"} {
		t := t
		e.unary = append(e.unary, func(p *P, a int) int { return p.un(t, a) })
	}
	e.unary = append(e.unary,
		func(p *P, a int) int { return p.errn(2+len(p.N)%3, a) },
		func(p *P, a int) int { return p.cap(a, len(p.N)) })
	return e
}

// enumChk enumerates patterns with checkers.
func enumChk() *enum {
	e := &enum{}
	e.leaves = []func(p *P) int{
		func(p *P) int { return p.lit("a") },
		func(p *P) int { return p.set([2]int{'a', 'b'}) },
		func(p *P) int { return p.any(1) },
		func(p *P) int { return p.lit("ab") },
		func(p *P) int { return p.empty() },
	}
	for _, t := range []string{"star", "opt", "not"} {
		t := t
		e.unary = append(e.unary, func(p *P, a int) int { return p.un(t, a) })
	}
	chk := func(n Nd) {
		e.unary = append(e.unary, func(p *P, a int) int { m := n; m.T = "chk"; m.A = a; return p.add(m) })
	}
	chk(Nd{K: "map", SS: []string{"a", "ab", "b"}})
	chk(Nd{K: "mod", M: 2, Q: 1, N: 7, F: -3, Lg: 1})
	chk(Nd{K: "ext", M: 2, Q: 1, X: 1, N: -1, F: 300, Lg: 1})
	chk(Nd{K: "def", N: 0, F: 0})
	chk(Nd{K: "use", N: 0, F: 1})
	return e
}

// enumMemo enumerates patterns with memoized parts.
func enumMemo() *enum {
	e := newEnum("ab")
	e.leaves = e.leaves[:4]
	e.unary = nil
	for _, t := range []string{"star", "opt", "not", "plus"} {
		t := t
		e.unary = append(e.unary, func(p *P, a int) int { return p.un(t, a) })
	}
	memo := func(p *P, a int) int { return p.memo(a, len(p.N)) }
	e.unary = append(e.unary, memo, memo, memo, func(p *P, a int) int { return p.cap(a, len(p.N)) })
	return e
}

// count is the number of patterns of exactly size s.
func (e *enum) count(s int) int {
	for len(e.sizes) <= s {
		k := len(e.sizes)
		c := 0
		switch {
		case k == 0:
		case k == 1:
			c = len(e.leaves)
		default:
			c = len(e.unary) * e.sizes[k-1]
			for i := 1; i < k-1; i++ {
				c += 2 * e.sizes[i] * e.sizes[k-1-i]
			}
		}
		e.sizes = append(e.sizes, c)
	}
	return e.sizes[s]
}

// nth adds the i-th pattern of size s to p.
func (e *enum) nth(p *P, s, i int) int {
	if s == 1 {
		return e.leaves[i](p)
	}
	if u := len(e.unary) * e.count(s-1); i < u {
		return e.unary[i%len(e.unary)](p, e.nth(p, s-1, i/len(e.unary)))
	} else {
		i -= u
	}
	for j := 1; j < s-1; j++ {
		c := 2 * e.count(j) * e.count(s-1-j)
		if i < c {
			t := []string{"seq", "alt"}[i%2]
			i /= 2
			a := e.nth(p, j, i%e.count(j))
			b := e.nth(p, s-1-j, i/e.count(j))
			return p.add(Nd{T: t, A: a, B: b})
		}
		i -= c
	}
	panic("enum " + strconv.Itoa(i))
}

// shortTexts are all texts over alpha of length at most n.
func shortTexts(alpha string, n int) [][]byte {
	out := [][]byte{{}}
	last := out
	for i := 0; i < n; i++ {
		var next [][]byte
		for _, t := range last {
			for _, c := range []byte(alpha) {
				next = append(next, append(append([]byte{}, t...), c))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// hasName reports whether the subtree refers to a rule of its surroundings.
func (p *P) hasName(k int) bool {
	n := p.at(k)
	if n.T == "nt" || n.T == "gram" {
		return true
	}
	if n.A > 0 && p.hasName(n.A) {
		return true
	}
	return n.B > 0 && p.hasName(n.B)
}
