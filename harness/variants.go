package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing/iotest"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// ---------------------------------------------------------------------------
// C02, C15, C16: one parse each, different generators and components.

func genErrs(r *rand.Rand) *gen {
	g := newGen(r)
	g.errs = true
	return g
}

func genChks(r *rand.Rand) *gen {
	g := newGen(r)
	g.chks, g.refs, g.tables2 = true, true, r.Intn(3) == 0
	g.caps = r.Intn(2) == 0
	g.errs = r.Intn(4) == 0
	return g
}

func init() {
	fc := []string{"m", "p", "c"}
	properties["C02"] = func(c *ctx) []family {
		e := newEnum("ab")
		cp := e.unary[len(e.unary)-1]
		e.unary = append(e.unary[:4:4], cp, cp, cp)
		e.leaves = append(e.leaves, func(p *P) int { return p.empty() })
		return []family{
			enumFamily2(e, "enum2", 2, 0, shortTexts("abc", 3), fc, nil),
			enumFamily2(e, "enum3", 3, 0, shortTexts("abc", 3), fc, nil),
			enumFamily2(e, "enum4", 4, c.n(1500, 0), shortTexts("abc", 3), fc, nil),
			enumFamily2(e, "enum5", 5, c.n(2000, 0), shortTexts("ab", 3), fc, nil),
			enumFamily2(e, "enum7", 7, c.n(2000, 60000), shortTexts("ab", 4), fc, nil),
			randFamily("rand", c.n(4000, 80000), 3, 16, 10, genCaps, fc),
			randFamily("big", c.n(400, 6000), 15, 50, 12, genCaps, fc),
			boundaryFamily(c, "boundary", c.n(500, 6000), genCaps, fc),
			{"special", c.n(len(specials)*2, len(specials)*20), func(c *cx, i int) {
				specials[i%len(specials)](c, fc)
			}},
			manyFamily(c, 16, 400, plainWith(fc), manyCaps, manyRules, manyMemos),
			{"capgrammar", c.n(600, 10000), func(c *cx, i int) { capGrammar(c) }},
			{"capspecial", c.n(len(capSpecials)*3, len(capSpecials)*40), func(c *cx, i int) {
				capSpecials[i%len(capSpecials)](c, fc)
			}},
		}
	}
	properties["C15"] = func(c *ctx) []family {
		return []family{
			enumFamily2(enumErr(), "enum2", 2, 0, shortTexts("abc", 3), fieldsAll, nil),
			enumFamily2(enumErr(), "enum3", 3, 0, shortTexts("abc", 3), fieldsAll, nil),
			enumFamily2(enumErr(), "enum4", 4, c.n(2000, 0), shortTexts("ab", 3), fieldsAll, nil),
			enumFamily2(enumErr(), "enum5", 5, c.n(2500, 0), shortTexts("ab", 3), fieldsAll, nil),
			enumFamily2(enumErr(), "enum7", 7, c.n(2000, 60000), shortTexts("ab", 3), fieldsAll, nil),
			randFamily("rand", c.n(4000, 80000), 3, 16, 10, genErrs, fieldsAll),
			randFamily("big", c.n(400, 6000), 15, 50, 12, genErrs, fieldsAll),
			boundaryFamily(c, "boundary", c.n(400, 6000), genErrs, fieldsAll),
			{"recovery", c.n(400, 8000), recovery},
			manyFamily(c, 16, 400, plainWith(fieldsAll), manyErrs, manyErrs, manySets, manyRules),
		}
	}
	properties["C16"] = func(c *ctx) []family {
		return []family{
			enumFamily2(enumChk(), "enum2", 2, 0, shortTexts("ab", 4), fieldsLog, nil),
			enumFamily2(enumChk(), "enum3", 3, 0, shortTexts("ab", 4), fieldsLog, nil),
			enumFamily2(enumChk(), "enum4", 4, c.n(2000, 0), shortTexts("ab", 4), fieldsLog, nil),
			enumFamily2(enumChk(), "enum5", 5, c.n(2000, 40000), shortTexts("ab", 4), fieldsLog, nil),
			enumFamily2(enumChk(), "enum7", 7, c.n(2000, 60000), shortTexts("ab", 4), fieldsLog, nil),
			randFamily("rand", c.n(4000, 80000), 3, 18, 10, genChks, fieldsLog),
			randFamily("big", c.n(300, 6000), 15, 50, 12, genChks, fieldsLog),
			boundaryFamily(c, "boundary", c.n(400, 6000), genChks, fieldsLog),
			{"backref", c.n(500, 10000), backrefs},
			manyFamily(c, 16, 400, plainWith(fieldsLog), manyChks, manyChks, manyRules, manyCaps),
		}
	}
}

// capSpecials are shapes where capture bookkeeping is stressed.
var capSpecials = []func(c *cx, f []string){
	// many captures under a repetition, abandoned at the end
	func(c *cx, f []string) {
		p := &P{}
		el := p.cap(p.seq(p.cap(p.set([2]int{'a', 'c'}), 1), p.un("opt", p.cap(p.lit(","), 2))), 3)
		all := p.seq(p.un("star", el), p.cap(p.un("not", p.any(1)), 9))
		p.Root = p.alt(all, p.seq(p.un("plus", el), p.cap(p.lit("!"), 4)), p.cap(p.un("star", p.any(1)), 5))
		n := 20 + c.r.Intn(120)
		t := bytes.Repeat([]byte("a,b"), n)
		c.plain(p, []Text{txt(t), txt(append(append([]byte{}, t...), '!')), txt(append(append([]byte{}, t...), '?'))}, f)
	},
	// deep nesting of captures
	func(c *cx, f []string) {
		p := &P{}
		body := p.cap(p.alt(p.seq(p.cap(p.lit("("), 1), p.nt("E"), p.lit(")")), p.cap(p.lit("x"), 2)), 3)
		p.Root = p.gram("E", []Def{{"E", body}})
		d := 5 + c.r.Intn(60)
		t := append(append(bytes.Repeat([]byte("("), d), 'x'), bytes.Repeat([]byte(")"), d)...)
		c.plain(p, []Text{txt(t), txt(t[:len(t)-1]), txt(t[1:])}, f)
	},
	// captures of every length around the operand limit
	func(c *cx, f []string) {
		p := &P{}
		n := 253 + c.r.Intn(6)
		lit := p.lit(strings.Repeat("z", n))
		p.Root = p.seq(p.cap(lit, 1), p.cap(p.seq(lit, p.un("star", p.lit("y")), p.un("opt", p.lit("w"))), 2), p.cap(p.seq(p.any(n-3), p.any(5), p.un("star", p.any(1))), 3))
		c.plain(p, []Text{{Pad: 3*n + 10, PB: 'z'}, {Pad: 2 * n, PB: 'z', T: append([]byte("yyw"), bytes.Repeat([]byte("q"), n+8)...)}, {Pad: 3*n + 1, PB: 'z'}}, f)
	},
	// captures in predicates in repetitions
	func(c *cx, f []string) {
		p := &P{}
		a := p.seq(p.un("and", p.cap(p.seq(p.cap(p.any(1), 1), p.cap(p.any(1), 2)), 3)), p.un("not", p.seq(p.cap(p.any(1), 4), p.cap(p.lit("d"), 5))), p.any(1))
		p.Root = p.seq(p.un("star", p.cap(a, 6)), p.un("and", p.un("star", p.cap(p.any(1), 7))))
		g := newGen(c.r)
		g.alpha = []byte("abcd")
		c.plain(p, []Text{txt([]byte(g.str(12))), txt([]byte(g.str(5))), txt([]byte(g.str(30)))}, f)
	},
	// long rows in a table: many captures reach a repetition at once
	func(c *cx, f []string) {
		p := &P{}
		cell := p.cap(p.alt(p.lit("a"), p.cap(p.lit("b"), 1)), 2)
		row := p.seq(p.un("star", cell), p.lit(";"))
		switch c.r.Intn(4) {
		case 0:
			row = p.cap(row, 3)
		case 1:
			row = p.seq(p.cap(p.empty(), 4), row)
		case 2:
			row = p.alt(p.seq(p.un("plus", cell), p.cap(p.lit("!"), 5)), row)
		}
		rows := p.un([]string{"star", "plus"}[c.r.Intn(2)], row)
		p.Root = p.seq(p.cap(p.un("opt", p.lit("h")), 6), rows, p.un("opt", p.cap(p.seq(rows, p.lit(".")), 7)), p.cap(p.un("star", p.any(1)), 8))
		if c.r.Intn(2) == 0 {
			p.Root = p.cap(p.Root, 9)
		}
		cells := 3 + c.r.Intn(20)
		if c.r.Intn(2) == 0 {
			cells = 240 + c.r.Intn(60)
		}
		var t []byte
		for n := 1 + c.r.Intn(4); n > 0; n-- {
			t = append(t, bytes.Repeat([]byte("a"), cells-c.r.Intn(3))...)
			t = append(t, "b;"...)
		}
		c.plain(p, []Text{txt(t), txt(append([]byte("h"), t...)), txt(t[:len(t)-1])}, f)
	},
}

// recovery: typical error recovery grammars.
func recovery(c *cx, i int) {
	p := &P{}
	r := c.r
	sync := p.un("star", p.seq(p.un("not", p.set([2]int{';', ';'}, [2]int{'}', '}'})), p.any(1)))
	m := func() int { return 1 + r.Intn(len(messages)-1) }
	expect := func(s string) int { return p.alt(p.lit(s), p.errn(m(), p.alt(sync, p.empty()))) }
	var rec int
	switch r.Intn(3) {
	case 0:
		rec = sync
	case 1:
		rec = p.nt("Sync")
	default:
		rec = p.cap(sync, 9)
	}
	num := p.cap(p.un("plus", p.set([2]int{'0', '9'})), 1)
	id := p.cap(p.un("plus", p.set([2]int{'a', 'c'})), 2)
	value := p.alt(num, p.nt("Block"), id, p.errn(m(), rec))
	if r.Intn(3) == 0 {
		value = p.alt(num, p.nt("Block"), p.errn(m(), 0))
	}
	stmt := p.cap(p.seq(id, expect("="), value, expect(";")), 3)
	if r.Intn(2) == 0 {
		stmt = p.memo(stmt, autoMemo)
	}
	block := p.cap(p.seq(p.lit("{"), p.un("star", p.seq(p.un("not", p.lit("}")), p.un("and", p.any(1)), p.nt("Stmt"))), p.alt(p.lit("}"), p.errn(m(), p.empty()))), 4)
	p.Root = p.gram("Prog", []Def{
		{"Prog", p.seq(p.un("star", p.nt("Stmt")), p.alt(p.un("not", p.any(1)), p.errn(m(), p.empty())))},
		{"Stmt", stmt}, {"Block", block}, {"Sync", sync},
	})
	if !p.wf() {
		c.count("ill-formed", 1)
		return
	}
	frag := []string{"a=1;", "b=c;", "a={b=1;c=2;};", "a=;", "=1;", "a 1;", "b={a=;", "c=1", "};", "abc=12;", ";", "a={};"}
	var ts [][]byte
	for x := 0; x < 6; x++ {
		var t []byte
		for n := r.Intn(6); n >= 0; n-- {
			t = append(t, frag[r.Intn(len(frag))]...)
		}
		if r.Intn(3) == 0 && len(t) > 0 {
			t[r.Intn(len(t))] = "a1;={} "[r.Intn(7)]
		}
		if st, _, errs := p.cost(t, 20000); st < 20000 && errs < 40 {
			ts = append(ts, t)
		}
	}
	c.plain(p, asTexts(ts), fieldsAll)
}

// backrefs: delimiters that must be repeated, several symbols, redefinition.
func backrefs(c *cx, i int) {
	r := c.r
	p := &P{}
	ids := []int{r.Intn(3), 3 + r.Intn(3), -32768 + r.Intn(2)*65535}
	tbl := map[int]int{}
	if r.Intn(2) == 0 { // symbols in different tables, perhaps with equal ids
		tbl[ids[1]] = 1
		if r.Intn(2) == 0 {
			tbl = map[int]int{3: 0, 4: 1, 5: 0, 0: 1, 1: 0, 2: 1}
		}
	}
	def := func(a, id int) int { return p.add(Nd{T: "chk", K: "def", A: a, N: id, F: 0, X: tbl[id]}) }
	use := func(id int) int {
		return p.add(Nd{T: "chk", K: "use", A: p.empty(), N: id, F: 1, X: tbl[id]})
	}
	word := p.un("plus", p.set([2]int{'a', 'b'}))
	if r.Intn(2) == 0 {
		word = p.un("star", p.set([2]int{'a', 'b'}))
	}
	var body int
	switch r.Intn(4) {
	case 0: // <w>...</w>
		body = p.seq(p.lit("<"), def(word, ids[0]), p.lit(">"), p.cap(p.un("star", p.seq(p.un("not", p.seq(p.lit("/"), use(ids[0]))), p.any(1))), 1), p.lit("/"), use(ids[0]))
	case 1: // redefinition inside a repetition
		body = p.seq(p.un("star", p.seq(def(word, ids[1]), p.lit("="), use(ids[1]), p.lit(";"))), p.cap(use(ids[1]), 2), p.un("opt", p.seq(p.lit("!"), use(ids[1]))))
	case 2: // two symbols, failing alternatives redefine
		body = p.seq(def(word, ids[0]), p.lit(","), p.alt(p.seq(def(word, ids[0]), p.lit("?")), p.seq(def(word, ids[1]), p.lit("."))), use(ids[0]), p.un("opt", use(ids[1])), p.cap(p.un("star", p.any(1)), 1))
	case 3: // use before definition, lookahead
		body = p.seq(use(ids[2]), p.un("and", p.seq(def(word, ids[2]), p.lit("-"))), word, p.lit("-"), p.un("star", p.seq(p.un("not", use(ids[2])), p.any(1))), use(ids[2]))
	}
	p.Root = body
	if !p.wf() {
		// the word may be empty: then repetitions of its use are ill-formed
		c.count("ill-formed", 1)
		return
	}
	w := func() string { return newGenAB(r).str(r.Intn(4)) }
	var ts [][]byte
	a, b := w(), w()
	ts = append(ts,
		[]byte("<"+a+">"+b+"/"+a+"/"+b), []byte("<"+a+">/"+a), []byte("<"+a+">/"+a+"x"),
		[]byte(a+"="+a+";"+b+"="+b+";"+b+"!"+b), []byte(a+"="+a+";"+b+"="+a+";"+b),
		[]byte(a+","+b+"?"+b+"xx"), []byte(a+","+b+"."+b+a), []byte(a+","+b+"."+a+b),
		[]byte(a+"-"+b+"-"+a), []byte(a+"-x"+a+b))
	// definitions and uses across the read buffer
	var texts []Text
	for _, t := range ts {
		texts = append(texts, txt(t))
	}
	if r.Intn(3) == 0 {
		k := 4096 - r.Intn(8)
		atBoundary(p, k)
		for j := range texts {
			texts[j].Pad, texts[j].PB = k, 'a'
		}
	}
	c.plain(p, texts, fieldsLog)
}

func newGenAB(r *rand.Rand) *gen {
	g := newGen(r)
	g.alpha = []byte("ab")
	return g
}

// ---------------------------------------------------------------------------
// C03: tables.

func genMemo(r *rand.Rand) *gen {
	g := newGen(r)
	g.memo = true
	g.errs = r.Intn(3) == 0
	g.chks = r.Intn(4) == 0
	g.caps = r.Intn(4) != 0
	return g
}

var thresholds = []int{0, 1, 2, 3, 5, 8, 20, 100, 512}

// tables parses a text with several memoization tables.
func (c *cx) tables(p *P, texts []Text) {
	q, st := build(p, c.r.Intn(2) == 0)
	code, x := compileP(q)
	q0, st0 := buildNoMemo(p)
	code0, x0 := compileP(q0)
	if x == "" {
		x = x0
	}
	var runs []Run
	for _, t := range texts {
		var g group
		if x != "" {
			g.add("compile", &Obs{X: x})
		} else {
			b := t.bytes()
			g.add("no memo patterns", exec(code0, st0, rd(b), memo.NoneTable{}))
			g.add("no table", exec(code, st, rd(b), memo.NoneTable{}))
			var defer0 []func()
			ths := []int{0, thresholds[c.r.Intn(len(thresholds))], thresholds[1+c.r.Intn(4)]}
			for _, th := range ths {
				tbl := memo.NewTreeTable(th)
				for k := 1; k <= 3; k++ {
					o := exec(code, st, rd(b), tbl)
					g.add(fmt.Sprintf("table %d parse %d", th, k), o)
					if o.again != nil && k < 3 {
						again, th, k := o.again, th, k
						defer0 = append(defer0, func() {
							g.add(fmt.Sprintf("tree of table %d parse %d afterwards", th, k), again())
						})
					}
				}
				for _, f := range defer0 {
					f()
				}
				defer0 = nil
				c.count("entries", tbl.Size())
			}
		}
		c.count("parses", g.n)
		runs = append(runs, Run{T: t, Obs: g.list()})
		if x != "" {
			break
		}
	}
	c.parseRec(p, runs, fieldsAll)
}

// memoLists are repetitions of memoized elements of the given length.
func memoLists(c *cx, i int) {
	r := c.r
	p := &P{}
	digit := p.set([2]int{'0', '9'})
	var el int
	switch r.Intn(6) {
	case 0:
		el = p.cap(p.seq(digit, p.un("opt", p.lit(";"))), 1)
	case 1:
		el = p.seq(p.cap(p.un("plus", digit), 2), p.alt(p.lit(";"), p.un("not", p.any(1))))
	case 2:
		el = p.alt(p.seq(p.cap(digit, 1), p.un("and", p.any(2))), p.seq(digit, p.cap(p.lit(";"), 3)))
	case 3:
		el = p.seq(p.un("plus", digit), p.lit(";"))
	case 4: // nested list
		in := p.memo(p.cap(digit, 4), autoMemo)
		el = p.cap(p.seq(p.un("star", in), p.lit(";")), 5)
	case 5:
		el = p.alt(p.cap(p.seq(digit, digit), 6), p.cap(digit, 7), p.seq(p.lit("!"), p.errn(1, p.any(1))))
	}
	m := p.memo(el, autoMemo)
	var list int
	switch r.Intn(4) {
	case 0:
		list = p.un("plus", m)
	case 1:
		list = p.seq(p.un("star", m), p.un("star", m))
	default:
		list = p.un("star", m)
	}
	end := p.un("not", p.any(1))
	switch r.Intn(4) {
	case 0:
		p.Root = p.seq(list, end)
	case 1:
		p.Root = p.alt(p.seq(list, p.lit("#")), p.seq(p.cap(list, 8), p.un("star", p.any(1))))
	case 2:
		p.Root = p.seq(p.un("and", list), p.un("opt", p.seq(list, p.lit("?"))), p.cap(list, 9))
	case 3:
		p.Root = list
	}
	if !p.wf() {
		c.count("ill-formed", 1)
		return
	}
	n := []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 129}[r.Intn(16)]
	var t []byte
	for x := 0; x < n; x++ {
		for d := 1 + r.Intn(2); d > 0; d-- {
			t = append(t, byte('0'+r.Intn(10)))
		}
		t = append(t, ';')
	}
	switch r.Intn(5) {
	case 0:
		t = append(t, '#')
	case 1:
		t = append(t, '?')
	case 2:
		if len(t) > 0 {
			t[r.Intn(len(t))] = '!'
		}
	}
	if st, _, _ := p.cost(t, 60000); st >= 60000 {
		return
	}
	c.tables(p, []Text{txt(t)})
}

func memoFamilies(c *ctx, tables func(c *cx, p *P, ts []Text)) []family {
	rnd := func(name string, count, lo, hi, nt, maxLen int) family {
		return family{name, count, func(c *cx, i int) {
			g := genMemo(c.r)
			p := g.patt(lo + c.r.Intn(hi-lo+1))
			tables(c, p, asTexts(g.texts(p, nt, maxLen)))
		}}
	}
	en := func(name string, size, count int, texts [][]byte) family {
		e := enumMemo()
		total := e.count(size)
		n := total
		if count > 0 && count < n {
			n = count
		}
		return family{name, n, func(c *cx, i int) {
			if n < total {
				i = c.r.Intn(total)
			}
			p := &P{}
			p.Root = e.nth(p, size, i)
			hasMemo := false
			for _, n := range p.N {
				hasMemo = hasMemo || n.T == "memo"
			}
			if !hasMemo || !p.wf() {
				c.count("skipped", 1)
				return
			}
			tables(c, p, asTexts(texts))
		}}
	}
	return []family{
		en("enum2", 2, 0, shortTexts("ab", 4)),
		en("enum3", 3, 0, shortTexts("ab", 4)),
		en("enum4", 4, c.n(1000, 0), shortTexts("ab", 4)),
		en("enum5", 5, c.n(1200, 20000), shortTexts("ab", 4)),
		en("enum7", 7, c.n(1200, 30000), shortTexts("ab", 4)),
		rnd("rand", c.n(3000, 50000), 3, 16, 8, 40),
		rnd("big", c.n(300, 5000), 15, 50, 10, 80),
	}
}

func init() {
	properties["C03"] = func(c *ctx) []family {
		f := memoFamilies(c, func(c *cx, p *P, ts []Text) { c.tables(p, ts) })
		f = append(f, family{"lists", c.n(800, 10000), memoLists},
			manyFamily(c, 16, 300, (*cx).tables, manyMemos, manyMemos, manyRules),
			family{"apart", c.n(1500, 15000), func(c *cx, i int) { writtenApart(c) }},
			family{"boundary", c.n(300, 5000), func(c *cx, i int) {
				g := genMemo(c.r)
				p := g.patt(2 + c.r.Intn(9))
				var ts []Text
				texts := g.texts(p, 5, 30)
				k := behind(c.r, p, 'x')
				for _, t := range texts {
					ts = append(ts, Text{Pad: k, PB: 'x', T: t})
				}
				c.tables(p, ts)
			}})
		return f
	}
}

// ---------------------------------------------------------------------------
// C07: deliveries.

// raEOF is a random-access reader that reports the end of the input in the way
// chosen by mode: together with the last bytes, or only after them.
type raEOF struct {
	b    []byte
	mode int
}

func (r raEOF) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, fmt.Errorf("negative offset")
	}
	if off >= int64(len(r.b)) {
		if len(p) == 0 && r.mode == 2 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, r.b[off:])
	if n < len(p) || (r.mode == 1 && off+int64(n) == int64(len(r.b))) {
		return n, io.EOF
	}
	return n, nil
}

// pieces delivers a stream in random pieces, sometimes with no data at all,
// sometimes with the end together with the last data.
type pieces struct {
	b       []byte
	r       *rand.Rand
	max     int
	dataEOF bool
	zero    bool
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	if p.zero && p.r.Intn(4) == 0 {
		return 0, nil
	}
	n := 1 + p.r.Intn(p.max)
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], p.b)
	p.b = p.b[n:]
	if len(p.b) == 0 && p.dataEOF {
		return n, io.EOF
	}
	return n, nil
}

// deliveries are the ways in which a text reaches the parser.
func deliveries(r *rand.Rand, b []byte) map[string]func() io.ReaderAt {
	seed := r.Int63()
	rope := func(opts linerope.Options) func() io.ReaderAt {
		return func() io.ReaderAt {
			n := linerope.NewWithOpts(b, opts)
			return n
		}
	}
	m := map[string]func() io.ReaderAt{
		"bytes":   func() io.ReaderAt { return bytes.NewReader(b) },
		"strings": func() io.ReaderAt { return strings.NewReader(string(b)) },
		"section": func() io.ReaderAt {
			pre := bytes.Repeat([]byte("ab"), 7)
			all := append(append(append([]byte{}, pre...), b...), "abcabc"...)
			return io.NewSectionReader(bytes.NewReader(all), 14, int64(len(b)))
		},
		"eof after":   func() io.ReaderAt { return raEOF{b, 0} },
		"eof with":    func() io.ReaderAt { return raEOF{b, 1} },
		"eof lenient": func() io.ReaderAt { return raEOF{b, 2} },
		"rope":        func() io.ReaderAt { return linerope.New(b) },
		"small rope":  rope(linerope.Options{SplitLen: 4, JoinLen: 2, RebalanceRatio: 1.2, LineSep: []byte{'\n'}}),
		"edited rope": func() io.ReaderAt {
			rr := rand.New(rand.NewSource(seed))
			n := linerope.NewWithOpts(nil, linerope.Options{SplitLen: 16, JoinLen: 8, RebalanceRatio: 1.2, LineSep: []byte{'\n'}})
			// insert the text in random order of pieces
			cut := 0
			if len(b) > 0 {
				cut = rr.Intn(len(b))
			}
			n.Insert(0, append([]byte{}, b[cut:]...))
			n.Insert(0, append([]byte{}, b[:cut]...))
			p := rr.Intn(len(b) + 1)
			n.Insert(p, []byte("zz"))
			n.Remove(p, p+2)
			return n
		},
		"stream":        func() io.ReaderAt { return input.FromReader(bytes.NewReader(b)) },
		"stream pieces": func() io.ReaderAt { return input.FromReader(&pieces{b: b, r: rand.New(rand.NewSource(seed)), max: 9}) },
		"stream big pieces": func() io.ReaderAt {
			return input.FromReader(&pieces{b: b, r: rand.New(rand.NewSource(seed)), max: 3000, dataEOF: true})
		},
		"stream bytewise": func() io.ReaderAt { return input.FromReader(iotest.OneByteReader(bytes.NewReader(b))) },
		"stream data+eof": func() io.ReaderAt { return input.FromReader(iotest.DataErrReader(bytes.NewReader(b))) },
		"stream empty reads": func() io.ReaderAt {
			return input.FromReader(&pieces{b: b, r: rand.New(rand.NewSource(seed)), max: 100, zero: true, dataEOF: seed%2 == 0})
		},
	}
	return m
}

func (c *cx) delivered(p *P, texts []Text) {
	q, st := build(p, false)
	code, x := compileP(q)
	var runs []Run
	hasMemo := false
	for _, n := range p.N {
		hasMemo = hasMemo || n.T == "memo"
	}
	for _, t := range texts {
		var g group
		if x != "" {
			g.add("compile", &Obs{X: x})
		} else {
			b := t.bytes()
			ds := deliveries(c.r, b)
			for _, name := range sortedKeys(ds) {
				mk := ds[name]
				if (name == "stream bytewise" || name == "small rope") && len(b) > 200 && c.r.Intn(4) > 0 {
					continue
				}
				var r io.ReaderAt
				if x := guard(func() { r = mk() }); x != "" {
					g.add(name, &Obs{X: x})
					continue
				}
				g.add(name, exec(code, st, r, memo.NoneTable{}))
				if hasMemo {
					tbl := memo.NewTreeTable(c.r.Intn(4))
					g.add(name+" table", exec(code, st, r, tbl))
					g.add(name+" table again", exec(code, st, r, tbl))
				}
			}
		}
		c.count("parses", g.n)
		runs = append(runs, Run{T: t, Obs: g.list()})
		if x != "" {
			break
		}
	}
	c.parseRec(p, runs, fieldsAll)
}

func genDeliv(r *rand.Rand) *gen {
	g := newGen(r)
	g.errs = r.Intn(4) == 0
	g.chks = r.Intn(3) == 0
	g.refs = g.chks
	g.memo = r.Intn(3) == 0
	return g
}

func init() {
	properties["C07"] = func(c *ctx) []family {
		return []family{
			{"boundary", c.n(1500, 25000), func(c *cx, i int) {
				g := genDeliv(c.r)
				p := g.patt(2 + c.r.Intn(10))
				k := 4096 * (1 + c.r.Intn(2))
				k -= c.r.Intn(8)
				if c.r.Intn(4) == 0 {
					k += c.r.Intn(5)
				}
				var ts []Text
				for _, t := range g.texts(p, 4, 24) {
					ts = append(ts, Text{Pad: k, PB: 'a', T: t})
				}
				atBoundary(p, k)
				c.delivered(p, ts)
			}},
			{"start", c.n(500, 10000), func(c *cx, i int) {
				g := genDeliv(c.r)
				p := g.patt(2 + c.r.Intn(10))
				c.delivered(p, asTexts(g.texts(p, 4, 40)))
			}},
			{"cross", c.n(600, 10000), crossing},
		}
	}
}

// crossing: one construct placed so that each of its bytes in turn is the last
// of a read buffer, reached after seeking back and forth.
func crossing(c *cx, i int) {
	r := c.r
	p := &P{}
	g := newGen(r)
	g.alpha = []byte("ab")
	word := g.str(3 + r.Intn(5))
	pad := 4096 - r.Intn(len(word)+3)
	if r.Intn(4) == 0 {
		pad += 4096
	}
	var k int
	switch r.Intn(9) {
	case 0:
		k = p.seq(p.un("opt", p.lit(word+"x")), p.cap(p.lit(word), 1))
	case 1:
		k = p.seq(p.un("and", p.any(len(word))), p.un("not", p.any(len(word)+1)), p.lit(word))
	case 2:
		k = p.seq(p.un("star", p.any(2)), p.cap(p.un("star", p.any(1)), 1))
	case 3:
		k = p.seq(p.un("star", p.seq(p.un("not", p.lit("zz")), p.set([2]int{'a', 'b'}))), p.add(Nd{T: "eop", N: []int{2, 8, 16}[r.Intn(3)]}))
	case 4:
		k = p.seq(p.add(Nd{T: "eop", N: []int{32, 16, 1}[r.Intn(3)]}), p.un("star", p.set([2]int{'a', 'b'})), p.add(Nd{T: "eop", N: 16}))
	case 5:
		d := p.add(Nd{T: "chk", K: "def", A: p.un("plus", p.set([2]int{'a', 'b'})), N: 1})
		u := p.add(Nd{T: "chk", K: "use", A: p.lit("="), N: 1, F: 1})
		k = p.seq(d, u, p.un("opt", u))
		word = word + "=" + word + "=" + word
		pad -= len(word) / 2
	case 6:
		m := p.memo(p.cap(p.seq(p.any(2), p.un("and", p.any(1))), 2), autoMemo)
		k = p.seq(p.un("opt", p.seq(p.un("star", m), p.lit("!"))), p.un("star", m), p.cap(p.un("star", p.any(1)), 3))
	case 7:
		k = p.un("search", p.cap(p.lit(word[len(word)-2:]), 4))
	case 8:
		k = p.seq(p.un("search", p.seq(p.add(Nd{T: "eop", N: 16}), p.lit("b"))), p.cap(p.un("star", p.lit("ab")), 1))
		pad -= 2
		word = "a b" + word
	}
	// the padding is skipped in one of several ways
	switch r.Intn(3) {
	case 0:
		p.Root = p.seq(p.un("star", p.set([2]int{'.', '.'})), k)
	case 1:
		p.Root = p.seq(p.rep(p.any(pad/16), 16), p.any(pad%16), k)
		if pad/16 > 255 {
			p.Root = p.seq(p.rep(p.any(pad/64), 64), p.any(pad%64), k)
		}
	case 2:
		p.Root = p.seq(p.un("opt", p.seq(p.un("star", p.lit(".")), p.lit("no"))), p.un("and", p.seq(p.un("star", p.lit(".")), p.any(1))), p.un("star", p.lit(".")), k)
	}
	var ts []Text
	for _, w := range []string{word, word[:len(word)-1], word + "b", word + word} {
		ts = append(ts, Text{Pad: pad, PB: '.', T: []byte(w)})
	}
	ts = ts[:2+r.Intn(3)]
	c.delivered(p, ts)
}

func sortedKeys(m map[string]func() io.ReaderAt) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

// ---------------------------------------------------------------------------
// C11: saving and loading.

type loaded struct {
	name string
	code *vm.Code
	x    string
}

// loads returns the program saved and loaded in every format.
func loads(code *vm.Code, hasCheckers bool) []loaded {
	var out []loaded
	size := func(l *loaded) {
		if l.x == "" && l.code.Size() != code.Size() {
			l.x = fmt.Sprintf("size %d after loading, %d before", l.code.Size(), code.Size())
		}
	}
	l := loaded{name: "bytes"}
	l.x = guard(func() {
		b, err := code.ToBytes()
		if err != nil {
			l.x = "ToBytes: " + err.Error()
			return
		}
		c2, err := vm.FromBytes(b)
		if err != nil {
			l.x = "FromBytes: " + err.Error()
			return
		}
		l.code = &c2
	}) + l.x
	if l.code != nil {
		size(&l)
	}
	out = append(out, l)
	if l.code != nil { // what was loaded can be saved again
		l2 := loaded{name: "bytes twice"}
		l2.x = guard(func() {
			b, err := l.code.ToBytes()
			if err != nil {
				l2.x = "ToBytes after FromBytes: " + err.Error()
				return
			}
			c2, err := vm.FromBytes(b)
			if err != nil {
				l2.x = "FromBytes of a program that was loaded: " + err.Error()
				return
			}
			l2.code = &c2
		}) + l2.x
		out = append(out, l2)
	}
	if !hasCheckers {
		j := loaded{name: "json"}
		j.x = guard(func() {
			b, err := code.ToJson()
			if err != nil {
				j.x = "ToJson: " + err.Error()
				return
			}
			c2, err := vm.FromJson(b)
			if err != nil {
				j.x = "FromJson: " + err.Error()
				return
			}
			j.code = &c2
		}) + j.x
		if j.code != nil {
			size(&j)
		}
		out = append(out, j)
	}
	return out
}

func (c *cx) saved(p *P, texts []Text) {
	q, st := build(p, false)
	code, x := compileP(q)
	hasRef, hasChk, hasMemo := false, false, false
	for _, n := range p.N {
		hasMemo = hasMemo || n.T == "memo"
		if n.T == "chk" {
			hasChk = true
			hasRef = hasRef || n.K == "def" || n.K == "use" || n.K == "blk"
		}
	}
	var ls []loaded
	if x == "" {
		ls = loads(code, hasChk)
	}
	var runs []Run
	for _, t := range texts {
		var g group
		if x != "" {
			g.add("compile", &Obs{X: x})
		} else {
			b := t.bytes()
			g.add("original", exec(code, st, rd(b), memo.NoneTable{}))
			if hasRef {
				// back-references keep what they saw, so start afresh
				ls = loadsFresh(code, st)
			}
			for _, l := range ls {
				if l.x != "" {
					g.add(l.name, &Obs{X: l.x})
				} else {
					g.add(l.name, exec(l.code, nil, rd(b), memo.NoneTable{}))
					if !hasRef && hasMemo { // the table of one serves the other
						tbl := memo.NewTreeTable(0)
						exec(code, st, rd(b), tbl)
						g.add(l.name+" with the table of the original", exec(l.code, nil, rd(b), tbl))
					}
				}
			}
		}
		c.count("parses", g.n)
		runs = append(runs, Run{T: t, Obs: g.list()})
		if x != "" {
			break
		}
	}
	c.parseRec(p, runs, fieldsAll)
}

func loadsFresh(code *vm.Code, st *checkers) []loaded {
	st.reset()
	return loads(code, true)
}

func genSave(r *rand.Rand) *gen {
	g := newGen(r)
	g.errs = r.Intn(2) == 0
	g.chks = r.Intn(3) == 0
	g.refs = g.chks
	g.tables2 = r.Intn(2) == 0
	g.memo = r.Intn(4) == 0
	return g
}

// onlyBuiltin turns the harness's own checkers into membership checkers.
func (p *P) onlyBuiltin() {
	for i := range p.N {
		n := &p.N[i]
		if n.T == "chk" && (n.K == "mod" || n.K == "ext") {
			n.K = "map"
			n.SS = []string{"a", "b", "ab", "", "aa", "abc"}[:1+(n.M*3+n.Q)%6]
		}
	}
}

func init() {
	properties["C11"] = func(c *ctx) []family {
		return []family{
			{"rand", c.n(3000, 40000), func(c *cx, i int) {
				g := genSave(c.r)
				p := g.patt(2 + c.r.Intn(16))
				p.onlyBuiltin()
				c.saved(p, asTexts(g.texts(p, 8, 40)))
			}},
			{"big", c.n(200, 3000), func(c *cx, i int) {
				g := genSave(c.r)
				p := g.patt(15 + c.r.Intn(60))
				p.onlyBuiltin()
				c.saved(p, asTexts(g.texts(p, 8, 60)))
			}},
			{"special", c.n(len(specials), len(specials)*10), func(c *cx, i int) {
				c.viaSaved = true
				specials[i%len(specials)](c, fieldsAll)
			}},
			manyFamily(c, 24, 400, (*cx).saved, manySets, manyCaps, manyErrs, manyChks, manyMemos, manyRules),
			{"corrupt", c.n(500, 8000), corrupt},
			{"unsupported", c.n(100, 1000), unsupported},
		}
	}
}

// corrupt alters saved programs. A load must fail or yield the same program.
func corrupt(c *cx, i int) {
	g := genSave(c.r)
	p := g.patt(2 + c.r.Intn(16))
	p.onlyBuiltin()
	hasChk := false
	for _, n := range p.N {
		hasChk = hasChk || n.T == "chk"
	}
	q, _ := build(p, false)
	code, x := compileP(q)
	var attempts []map[string]interface{}
	if x != "" {
		attempts = append(attempts, map[string]interface{}{"how": "compile", "res": x, "cut": 0})
	} else {
		ref, err := code.ToBytes()
		if err != nil {
			fatalf("ToBytes: %v", err)
		}
		same := func(c2 *vm.Code) bool {
			b, err := c2.ToBytes()
			return err == nil && sameProgram(ref, b, code, c2)
		}
		try := func(how string, cut int, load func() (vm.Code, error)) {
			res := ""
			x := guard(func() {
				c2, err := load()
				switch {
				case err != nil:
					res = "error"
				case same(&c2):
					res = "same"
				default:
					res = "different"
				}
			})
			if x != "" {
				res = x
			}
			attempts = append(attempts, map[string]interface{}{"how": how, "res": res, "cut": cut})
			c.count("corrupt loads", 1)
		}
		n := 12
		for k := 0; k < n; k++ {
			b := append([]byte{}, ref...)
			switch c.r.Intn(4) {
			case 0:
				cut := c.r.Intn(len(b))
				if k == 0 {
					cut = len(b) - 1
				}
				if k == 1 {
					cut = len(b) - 8
				}
				try(fmt.Sprintf("truncate to %d of %d", cut, len(b)), 1, func() (vm.Code, error) { return vm.FromBytes(b[:cut]) })
			case 1:
				at, bit := c.r.Intn(len(b)), c.r.Intn(8)
				b[at] ^= 1 << bit
				try(fmt.Sprintf("flip bit %d of byte %d of %d", bit, at, len(b)), 0, func() (vm.Code, error) { return vm.FromBytes(b) })
			case 2:
				at := c.r.Intn(len(b))
				v := byte(c.r.Intn(256))
				if v == b[at] {
					v++
				}
				b[at] = v
				try(fmt.Sprintf("set byte %d of %d to %d", at, len(b), v), 0, func() (vm.Code, error) { return vm.FromBytes(b) })
			case 3:
				at := c.r.Intn(len(b))
				b = append(b[:at:at], b[at+1:]...)
				try(fmt.Sprintf("drop byte %d of %d", at, len(ref)), 0, func() (vm.Code, error) { return vm.FromBytes(b) })
			}
		}
		if !hasChk {
			js, err := code.ToJson()
			if err != nil {
				fatalf("ToJson: %v", err)
			}
			for k := 0; k < 4; k++ {
				cut := c.r.Intn(len(js))
				if k == 0 {
					cut = len(js) - 1
				}
				try(fmt.Sprintf("truncate JSON to %d of %d", cut, len(js)), 1, func() (vm.Code, error) { return vm.FromJson(js[:cut]) })
			}
			for k := 0; k < 4; k++ {
				b := append([]byte{}, js...)
				at := c.r.Intn(len(b))
				b[at] = "{}[]\",:x\x00"[c.r.Intn(9)]
				if json.Valid(b) {
					continue
				}
				try(fmt.Sprintf("malform JSON byte %d", at), 1, func() (vm.Code, error) { return vm.FromJson(b) })
			}
		}
	}
	c.emit("LoadTrace", map[string]interface{}{"attempts": attempts})
}

// sameProgram compares what two programs are saved as, undoing compression and
// the order in which maps are written.
func sameProgram(refBytes, b []byte, ref, c2 *vm.Code) bool {
	if bytes.Equal(refBytes, b) {
		return true
	}
	return ref.Size() == c2.Size() && fmt.Sprintf("%v", dump(ref)) == fmt.Sprintf("%v", dump(c2))
}

// unsupported: saving what cannot be saved must be an error.
func unsupported(c *cx, i int) {
	g := genSave(c.r)
	p := g.patt(1 + c.r.Intn(8))
	var attempts []map[string]interface{}
	add := func(how, res string, cut int) {
		attempts = append(attempts, map[string]interface{}{"how": how, "res": res, "cut": cut})
	}
	p.onlyBuiltin()
	q, st := build(p, false)
	var kind string
	mustFailBytes, mustFailJSON := false, false
	switch i % 4 {
	case 0: // a checker type the format does not know
		q = pattern.Concat(q, pattern.Check(pattern.Literal("x"), &modChecker{st, 2, 1, 0, false, false}))
		kind, mustFailBytes, mustFailJSON = "own checker", true, true
	case 1:
		q = pattern.Concat(q, pattern.Check(pattern.Literal("x"), isa.NewMapChecker([]string{"x"})))
		kind, mustFailJSON = "map checker", true
	case 2:
		q = pattern.Concat(q, pattern.Check(pattern.Literal("x"), isa.NewBackRef()))
		kind, mustFailJSON = "back reference", true
	case 3: // a message that JSON cannot hold
		q = pattern.Concat(q, pattern.Or(pattern.Literal("x"), pattern.Error("bad \xff\xfe", pattern.Literal("y"))))
		kind, mustFailJSON = "message that is not UTF-8", true
	}
	code, x := compileP(q)
	if x != "" {
		add("compile", x, 1)
	} else {
		if mustFailBytes {
			res := ""
			x := guard(func() {
				_, err := code.ToBytes()
				if err != nil {
					res = "error"
				} else {
					res = "saved"
				}
			})
			add(kind+" to bytes", res+x, 1)
		}
		if mustFailJSON {
			res := ""
			x := guard(func() {
				b, err := code.ToJson()
				if err != nil {
					res = "error"
					return
				}
				// what was saved must at least not load as something else
				if _, err := vm.FromJson(b); err != nil {
					res = "error"
				} else {
					res = "saved"
				}
			})
			add(kind+" to JSON", res+x, 1)
		}
	}
	c.count("unsupported", len(attempts))
	c.emit("LoadTrace", map[string]interface{}{"attempts": attempts})
}

// capGrammar: the rules of a grammar captured under ids that the library picks.
func capGrammar(c *cx) {
	r := c.r
	g := genCaps(r)
	g.memo = r.Intn(4) == 0
	var p *P
	for {
		p = g.patt(3 + r.Intn(14))
		if p.at(p.Root).T == "gram" {
			break
		}
	}
	texts := asTexts(g.texts(p, 10, 40))
	b := &builder{p: p, st: &checkers{ref: isa.NewBackRef()}, done: map[int]pattern.Pattern{}}
	root := p.at(p.Root)
	m := map[string]pattern.Pattern{}
	ids := map[string]int{}
	if r.Intn(4) == 0 {
		ids["other"] = 5
	}
	var q pattern.Pattern
	x := guard(func() {
		for _, d := range root.D {
			m[d.Nm] = b.mk(d.K)
		}
		if r.Intn(2) == 0 { // the rules may be used in another grammar, too
			pattern.CapGrammar(root.Nm, m, map[string]int{"x": 9})
		}
		q = pattern.CapGrammar(root.Nm, m, ids)
	})
	used := map[int]bool{}
	ds := append([]Def(nil), root.D...)
	for i, d := range ds {
		id, ok := ids[d.Nm]
		if x == "" && (!ok || used[id]) {
			x = fmt.Sprintf("rule %s has no id of its own: %v", d.Nm, ids)
		}
		used[id] = true
		k := p.cap(d.K, id)
		p.at(p.Root).D[i].K = k
	}
	var code *vm.Code
	if x == "" {
		code, x = compileP(q)
	}
	var runs []Run
	for _, t := range texts {
		o := &Obs{X: x}
		if x == "" {
			o = exec(code, b.st, rd(t.bytes()), memo.NoneTable{})
		}
		runs = append(runs, Run{T: t, Obs: obs1(o)})
	}
	c.parseRec(p, runs, []string{"m", "p", "c"})
}
