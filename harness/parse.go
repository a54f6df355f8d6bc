package main

import (
	"bytes"
	"io"
	"math/rand"

	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// Run is one text with the outcomes observed for it.
type Run struct {
	T   Text   `json:"T"`
	Obs []*Obs `json:"obs"`
	Iv  []int  `json:"iv,omitempty"`
}

func obs1(o *Obs) []*Obs { return []*Obs{o} }

// compileP compiles a pattern, returning a description of a panic or error.
func compileP(q pattern.Pattern) (*vm.Code, string) {
	var code vm.Code
	var err error
	x := guard(func() {
		var prog isa.Program
		prog, err = pattern.Compile(q)
		if err == nil {
			code = vm.Encode(prog)
		}
	})
	if x == "" && err != nil {
		x = "compile error: " + err.Error()
	}
	if x != "" {
		return nil, x
	}
	return &code, ""
}

func rd(b []byte) io.ReaderAt { return bytes.NewReader(b) }

var fieldsMP = []string{"m", "p"}
var fieldsAll = []string{"m", "p", "c", "e"}
var fieldsLog = []string{"m", "p", "c", "e", "l"}

// plain runs every text once without a table and emits one record.
func (c *cx) plain(p *P, texts []Text, fields []string) {
	if c.viaSaved {
		c.saved(p, texts)
		return
	}
	q, st := build(p, c.r.Intn(2) == 0)
	code, x := compileP(q)
	var runs []Run
	for _, t := range texts {
		var o *Obs
		if x != "" {
			o = &Obs{X: x}
		} else {
			o = exec(code, st, rd(t.bytes()), memo.NoneTable{})
		}
		runs = append(runs, Run{T: t, Obs: obs1(o)})
		if x != "" {
			break
		}
	}
	c.parseRec(p, runs, fields)
}

func (c *cx) parseRec(p *P, runs []Run, fields []string) {
	if len(runs) == 0 {
		return
	}
	n := 0
	for _, r := range runs {
		for _, o := range r.Obs {
			n += max(1, len(o.Via))
			if o.M == 1 {
				c.count("matches", 1)
			} else {
				c.count("failures", 1)
			}
			if len(o.C) > 0 {
				c.count("with captures", 1)
			}
			if len(o.E) > 0 {
				c.count("with errors", 1)
			}
		}
	}
	c.count("parses", n)
	c.emit("ParseTrace", map[string]interface{}{"N": p.N, "r": p.Root, "f": fields, "runs": runs})
}

func asTexts(bs [][]byte) []Text {
	var out []Text
	for _, b := range bs {
		out = append(out, txt(b))
	}
	return out
}

// enumFamily enumerates all patterns of a size over all short texts.
func enumFamily(c *ctx, name string, size, count int, texts [][]byte, fields []string, wrap func(p *P)) family {
	return enumFamily2(newEnum("ab"), name, size, count, texts, fields, wrap)
}

func enumFamily2(e *enum, name string, size, count int, texts [][]byte, fields []string, wrap func(p *P)) family {
	total := e.count(size)
	n := total
	if count > 0 && count < n {
		n = count
	}
	return family{name, n, func(c *cx, i int) {
		idx := i
		if n < total {
			idx = c.r.Intn(total)
		}
		p := &P{}
		p.Root = e.nth(p, size, idx)
		if wrap != nil {
			wrap(p)
		}
		if !p.wf() {
			c.count("ill-formed", 1)
			return
		}
		c.plain(p, asTexts(texts), fields)
	}}
}

// atBoundary moves a pattern and its texts next to the end of a read buffer:
// the pattern first skips k bytes of padding.
func atBoundary(p *P, k int) {
	full := p.rep(p.any(255), k/255)
	ks := []int{full}
	if k%255 > 0 {
		ks = append(ks, p.any(k%255))
	}
	ks = append(ks, p.Root)
	p.Root = p.seq(ks...)
}

// behind puts a pattern behind k bytes of padding b: next to the end of a read
// buffer, or further into the text than 16 bits can tell.
func behind(r *rand.Rand, p *P, b byte) int {
	k := 4096*(1+r.Intn(2)) - r.Intn(6)
	if r.Intn(8) == 0 {
		k = 65536*(1+r.Intn(2)) - r.Intn(6)
	}
	if r.Intn(3) == 0 {
		k += 3
	}
	if k < 10000 && r.Intn(3) > 0 {
		atBoundary(p, k)
		return k
	}
	pad := []int{p.lit(string(b)), p.set([2]int{int(b), int(b)}), p.set([2]int{int(b) - 1, int(b)}, [2]int{'(', '('})}[r.Intn(3)]
	pad = p.un([]string{"star", "plus"}[r.Intn(2)], pad)
	switch r.Intn(4) {
	case 0:
		pad = p.cap(pad, 3)
	case 1:
		pad = p.memo(pad, autoMemo)
	case 2:
		pad = p.seq(p.un("and", pad), pad)
	}
	p.Root = p.seq(pad, p.Root)
	return k
}

func boundaryFamily(c *ctx, name string, count int, mk func(r *rand.Rand) *gen, fields []string) family {
	return family{name, count, func(c *cx, i int) {
		g := mk(c.r)
		p := g.patt(2 + c.r.Intn(9))
		texts := g.texts(p, 6, 30)
		// padding that the pattern can see when it looks back
		k := behind(c.r, p, 'x')
		var ts []Text
		for _, t := range texts {
			ts = append(ts, Text{Pad: k, PB: 'x', T: t})
		}
		c.plain(p, ts, fields)
	}}
}

func randFamily(name string, count, minSize, maxSize, ntexts int, mk func(r *rand.Rand) *gen, fields []string) family {
	return family{name, count, func(c *cx, i int) {
		g := mk(c.r)
		p := g.patt(minSize + c.r.Intn(maxSize-minSize+1))
		c.plain(p, asTexts(g.texts(p, ntexts, 40)), fields)
	}}
}

// byteShapes puts a byte into every construct that looks at bytes, next to
// bytes of all kinds.
func byteShapes(c *cx, b byte, fields []string) {
	near := []byte{b, b ^ 128, b ^ 32, b + 1, b - 1, 'a', '_', '0', ' ', '\n', 0, 255, byte(c.r.Intn(256))}
	x := near[c.r.Intn(len(near))]
	y := near[c.r.Intn(len(near))]
	lo, hi := b, x
	if lo > hi {
		lo, hi = hi, lo
	}
	lit := func(p *P, bs ...byte) int { return p.lit(string(bs)) }
	set := func(p *P, lo, hi byte) int { return p.set([2]int{int(lo), int(hi)}) }
	shapes := []func(p *P) int{
		func(p *P) int { return p.any(1) },
		func(p *P) int { return lit(p, b) },
		func(p *P) int { return p.un("opt", lit(p, b)) },
		func(p *P) int { return p.un("opt", set(p, lo, hi)) },
		func(p *P) int { return p.un("star", lit(p, b)) },
		func(p *P) int { return p.un("star", set(p, lo, hi)) },
		func(p *P) int { return p.un("plus", set(p, lo, hi)) },
		func(p *P) int { return p.un("not", lit(p, b)) },
		func(p *P) int { return p.un("and", set(p, lo, hi)) },
		func(p *P) int { return p.seq(p.un("not", lit(p, b)), p.any(1)) },
		func(p *P) int { return p.seq(p.un("not", set(p, lo, hi)), p.any(1)) },
		func(p *P) int { return p.seq(p.un("not", lit(p, b)), set(p, lo, hi)) },
		func(p *P) int { return p.seq(p.un("not", set(p, lo, hi)), lit(p, x)) },
		func(p *P) int { return p.un("star", p.seq(p.un("not", lit(p, b)), p.any(1))) },
		func(p *P) int { return p.un("search", lit(p, b, y)) },
		func(p *P) int { return p.un("search", p.seq(set(p, lo, hi), lit(p, y))) },
		func(p *P) int { return p.un("search", p.seq(p.un("star", set(p, lo, hi)), lit(p, y))) },
		func(p *P) int { return p.alt(lit(p, b), lit(p, x)) },
		func(p *P) int { return p.alt(lit(p, b, y), set(p, lo, hi)) },
		func(p *P) int { return p.alt(p.seq(set(p, lo, hi), lit(p, y)), lit(p, b, x)) },
		func(p *P) int { return p.alt(lit(p, b, y), lit(p, x)) },
		func(p *P) int { return p.rep(set(p, lo, hi), 2) },
	}
	for _, op := range []int{1, 2, 4, 8, 16, 32} {
		op := op
		shapes = append(shapes,
			func(p *P) int { return p.seq(lit(p, b), p.add(Nd{T: "eop", N: op})) },
			func(p *P) int { return p.seq(p.add(Nd{T: "eop", N: op}), lit(p, b)) },
			func(p *P) int { return p.seq(p.any(1), p.add(Nd{T: "eop", N: op}), p.any(1)) })
	}
	texts := [][]byte{{}, {b}, {b, b}, {x}, {y}, {b, x}, {x, b}, {b, y}, {x, y}, {y, b}, {b, b, x}, {x, x, b, y}, {b, x, y}}
	for _, q := range near {
		texts = append(texts, []byte{b, q}, []byte{q, b})
	}
	for k, f := range shapes {
		if !c.thorough && k%2 != c.r.Intn(2) && k > 1 {
			continue
		}
		p := &P{}
		p.Root = f(p)
		c.plain(p, asTexts(texts), fields)
	}
}

func genPlain(r *rand.Rand) *gen {
	g := newGen(r)
	g.caps = r.Intn(3) == 0
	return g
}

func genCaps(r *rand.Rand) *gen { return newGen(r) }

func init() {
	properties["C01"] = func(c *ctx) []family {
		f := []family{
			enumFamily(c, "enum1", 1, 0, shortTexts("abc", 3), fieldsMP, nil),
			enumFamily(c, "enum2", 2, 0, shortTexts("abc", 3), fieldsMP, nil),
			enumFamily(c, "enum3", 3, 0, shortTexts("abc", 3), fieldsMP, nil),
			enumFamily(c, "enum4", 4, c.n(0, 0), shortTexts("abc", 3), fieldsMP, nil),
			enumFamily(c, "enum5", 5, c.n(2500, 0), shortTexts("ab", 3), fieldsMP, nil),
			enumFamily(c, "enum6", 6, c.n(1500, 60000), shortTexts("ab", 3), fieldsMP, nil),
			enumFamily(c, "enum8", 8, c.n(1000, 60000), shortTexts("ab", 3), fieldsMP, nil),
			enumFamily2(enumOdd(), "odd2", 2, 0, shortTexts("ab", 4), fieldsMP, nil),
			enumFamily2(enumOdd(), "odd3", 3, 0, shortTexts("ab", 4), fieldsMP, nil),
			enumFamily2(enumOdd(), "odd4", 4, c.n(2500, 0), shortTexts("ab", 3), fieldsMP, nil),
			enumFamily2(enumOdd(), "odd5", 5, c.n(1500, 30000), shortTexts("ab", 3), fieldsMP, nil),
			randFamily("rand", c.n(3000, 60000), 2, 14, 10, genPlain, fieldsMP),
			randFamily("big", c.n(300, 5000), 15, 50, 12, genPlain, fieldsMP),
			boundaryFamily(c, "boundary", c.n(500, 6000), genPlain, fieldsMP),
			{"bytes", 256 * c.n(1, 8), func(c *cx, i int) { byteShapes(c, byte(i%256), fieldsMP) }},
			{"special", c.n(len(specials)*2, len(specials)*20), func(c *cx, i int) {
				specials[i%len(specials)](c, fieldsMP)
			}},
			manyFamily(c, 16, 400, plainWith(fieldsMP), manySets, manyRules, manyCaps),
		}
		return f
	}
}
