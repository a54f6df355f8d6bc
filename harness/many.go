package main

import (
	"fmt"
	"math"
	"strings"
)

// Patterns with hundreds of distinct parts of one kind: sets, messages,
// checkers, identifiers, rules. The text picks a few of them, mostly the late
// ones, by keys of two bytes.

func key(j int) string { return string([]byte{byte('A' + j/26), byte('a' + j%26)}) }

type item struct {
	k    int      // the part, after the key
	good []string // texts that it matches
	bad  []string // others
}

// kinds of parts.
const (
	manySets = iota
	manyCaps
	manyErrs
	manyChks
	manyMemos
	manyRules
	manyKinds
)

// many makes a pattern with n parts and some texts.
func (c *cx) many(kinds ...int) (*P, []Text) {
	r := c.r
	p := &P{}
	n := 230 + r.Intn(330)
	if r.Intn(3) > 0 {
		n = 257 + r.Intn(30)
	}
	stride := 1 + r.Intn(65535/n)
	id := func(j int) int { // identifiers over all of the range, without repeating
		return math.MinInt16 + j*stride
	}
	memoStride := 1 + r.Intn(math.MaxInt16/n)
	fill := ""
	if r.Intn(3) == 0 { // more than 64 KiB
		fill = strings.Repeat("~", 70000/n+r.Intn(100))
	}
	digit := func(j int) int { return p.set([2]int{'0', '0' + j*7%10}) }
	var mk func(kind, j int) item
	mk = func(kind, j int) item {
		x, y := byte('a'+j%26), byte('A'+j/26)
		switch kind {
		case manySets:
			s := p.set([2]int{int(x), int(x)}, [2]int{int(y), int(y)}, [2]int{'0', '4'})
			good, bad := []string{string(x), string([]byte{y, x, y, '0'}), "3"}, []string{string(x + 1), string([]byte{x, y + 1}), "", "5"}
			switch r.Intn(6) {
			case 0:
				return item{s, []string{string(x), string(y), "4"}, bad}
			case 1:
				return item{p.seq(p.un("not", s), p.any(1)), bad, good}
			case 2:
				return item{p.seq(p.un("star", s), p.lit("-")), []string{string([]byte{x, x, y}) + "-", "-"}, []string{string(y+1) + "-", "a1B-"}}
			case 3:
				return item{p.un("search", p.seq(s, p.lit("-"))), []string{string(x) + "-", "." + string([]byte{x + 1, y}) + "-"}, []string{string(y+1) + "-", "-"}}
			case 4:
				return item{p.alt(p.seq(s, p.lit("-")), p.lit("=")), []string{string(x) + "-", "="}, []string{string(y+1) + "-"}}
			}
			return item{p.un("plus", s), good, bad}
		case manyCaps:
			d := digit(j)
			good := []string{"0", "00", "01"}
			switch r.Intn(4) {
			case 0:
				return item{p.cap(d, id(j)), []string{"0"}, []string{"x"}}
			case 1:
				return item{p.cap(p.un("plus", d), id(j)), good, []string{"9"}}
			case 2:
				return item{p.cap(p.seq(p.cap(d, id(j/2)), p.un("star", d)), id(j)), good, []string{""}}
			}
			return item{p.seq(d, p.cap(p.empty(), id(j)), p.un("opt", p.cap(p.any(1), id(n-1-j)))), good, []string{"9x"}}
		case manyErrs:
			var rec int
			switch r.Intn(4) {
			case 1:
				rec = p.empty()
			case 2:
				rec = p.un("opt", p.lit("?"))
			case 3:
				rec = p.un("star", p.seq(p.un("not", p.lit("!")), p.set([2]int{'0', '9'})))
			}
			return item{p.alt(p.lit("!"), p.errn(100+j, rec)), []string{"!", "?", "12"}, []string{""}}
		case manyChks:
			words := []string{fmt.Sprint(j), string(x), fmt.Sprint(j % 7)}
			a := p.un("plus", p.set([2]int{'0', '9'}, [2]int{'a', 'z'}))
			k := p.add(Nd{T: "chk", K: "map", A: a, N: r.Intn(2) * id(j), F: r.Intn(3) - 1, SS: words})
			return item{p.seq(k, p.lit(".")), []string{words[0] + ".", words[1] + ".", words[2] + "."},
				[]string{fmt.Sprint(j+1) + ".", string(x+1) + ".", fmt.Sprint((j-256)%7) + "."}}
		case manyMemos:
			in := mk([]int{manySets, manyCaps}[r.Intn(2)], j)
			in.k = p.memo(in.k, 1+j*memoStride)
			return in
		case manyRules:
			in := mk(manySets, j)
			return item{p.nt(fmt.Sprintf("R%d", j)), in.good, in.bad}
		}
		panic("many")
	}
	alike := r.Intn(3) == 0
	kind := kinds[r.Intn(len(kinds))]
	items := make([]item, n)
	ks := make([]int, n)
	var defs []Def
	for j := range items {
		if !alike {
			kind = kinds[r.Intn(len(kinds))]
		}
		it := mk(kind, j)
		if kind == manyRules {
			in := mk([]int{manySets, manyCaps}[r.Intn(2)], j)
			it.good, it.bad = in.good, in.bad
			body := in.k
			if fill != "" {
				body = p.alt(p.seq(p.lit(fill), p.lit(fmt.Sprint(j))), body)
			}
			if r.Intn(3) == 0 {
				body = p.seq(body, p.un("opt", p.seq(p.lit(">"), p.nt("S"))))
			}
			defs = append(defs, Def{fmt.Sprintf("R%d", j), body})
		} else if fill != "" {
			it.k = p.seq(p.un("not", p.lit(fill)), it.k)
		}
		ks[j] = p.seq(p.lit(key(j)), it.k)
		if kind == manyMemos && r.Intn(2) == 0 {
			ks[j] = p.memo(ks[j], 2+j*memoStride)
			if memoStride == 1 {
				ks[j] = p.at(ks[j]).A
			}
		}
		items[j] = it
	}
	var half func(lo, hi int) int
	half = func(lo, hi int) int {
		if hi-lo == 1 {
			return ks[lo]
		}
		m := lo + 1
		if hi-lo > 12 {
			m = (lo + hi) / 2
		}
		a := half(lo, m)
		return p.add(Nd{T: "alt", A: a, B: half(m, hi)})
	}
	all := half(0, n)
	if len(defs) > 0 {
		all = p.gram("S", append(defs, Def{"S", all}))
	}
	p.Root = p.un([]string{"star", "plus"}[r.Intn(2)], all)
	switch r.Intn(3) {
	case 0:
		p.Root = p.seq(p.Root, p.un("not", p.any(1)))
	case 1:
		p.Root = p.seq(p.Root, p.cap(p.un("star", p.any(1)), 7))
	}
	var ts []Text
	for x := 0; x < 8; x++ {
		var t []byte
		for m := 1 + r.Intn(4); m > 0; m-- {
			j := r.Intn(n)
			switch r.Intn(6) {
			case 0, 1:
				j = n - 1 - r.Intn(3)
			case 2, 3:
				if n > 256 {
					j = 256 + r.Intn(n-256)
				}
			}
			of := items[j].good
			if r.Intn(6) == 0 {
				of = items[j].bad
			}
			t = append(t, key(j)+of[r.Intn(len(of))]...)
			if r.Intn(8) == 0 {
				t = append(t, '>')
			}
		}
		ts = append(ts, txt(t))
	}
	return p, ts
}

// manyFamily gives such patterns to f.
func manyFamily(c *ctx, quick, thorough int, f func(c *cx, p *P, ts []Text), kinds ...int) family {
	return family{"many", c.n(quick, thorough), func(c *cx, i int) {
		p, ts := c.many(kinds...)
		if !p.wf() {
			c.count("ill-formed", 1)
			return
		}
		f(c, p, ts)
	}}
}

func plainWith(fields []string) func(c *cx, p *P, ts []Text) {
	return func(c *cx, p *P, ts []Text) { c.plain(p, ts, fields) }
}
