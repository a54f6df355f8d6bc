package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"regexp/syntax"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// C19: many goroutines. The driver for this property is built with the race
// detector, and with locks that let other goroutines run (see check). Between
// the start of the goroutines and their end nothing here may synchronize them.

var epoch = time.Now()

func now() int64 { return int64(time.Since(epoch)) }

// together runs the functions at once, each in a goroutine, and returns when
// all have ended.
func together(r *rand.Rand, fs ...func()) {
	procs := 4
	if r.Intn(2) == 0 {
		procs = 1
	}
	old := runtime.GOMAXPROCS(procs)
	var wg sync.WaitGroup
	start := make(chan bool)
	fail := make([]interface{}, len(fs))
	for i, f := range fs {
		i, f := i, f
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { fail[i] = recover() }()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	runtime.GOMAXPROCS(old)
	for _, x := range fail {
		if x != nil {
			panic(x)
		}
	}
}

// ---------------------------------------------------------------------------
// Tables.

type timed struct {
	step
	inv, ret int64
}

type worker struct {
	tbl     *memo.TreeTable
	ops     []timed
	handles []*ent
}

func (w *worker) do(f func() step) {
	inv := now()
	var s step
	x := guard(func() { s = f() })
	ret := now()
	if x != "" {
		s = step{"k": "crash", "x": x}
	}
	w.ops = append(w.ops, timed{s, inv, ret})
}

type planned struct {
	k                      string
	id, pos, ln, ex, small int
	tag                    int
	a, b, n                int
	h                      int
	cap                    bool
}

func (w *worker) run(o planned) {
	switch o.k {
	case "put":
		capt := memo.NewCaptureNode(1, o.pos+1, 1, nil)
		w.do(func() step {
			w.tbl.Put(o.id, o.pos, o.ln, o.ex, o.tag, []*memo.Capture{capt})
			return step{"k": "put", "tag": o.tag, "id": o.id, "pos": o.pos, "len": o.ln, "exam": o.ex, "small": o.small}
		})
	case "edit":
		w.do(func() step {
			w.tbl.ApplyEdit(memo.Edit{Start: o.a, End: o.b, Len: o.n})
			return step{"k": "edit", "a": o.a, "b": o.b, "n": o.n}
		})
	case "get":
		w.do(func() step {
			e, ok := w.tbl.Get(o.id, o.pos)
			res := []int{}
			if ok {
				res = []int{e.Count(), o.pos, e.Length(), e.Examined()}
				w.handles = append(w.handles, &ent{tag: e.Count(), off: 1, e: e, cap: e.Captures()[0]})
			}
			return step{"k": "get", "id": o.id, "pos": o.pos, "res": res}
		})
	case "tags":
		w.do(func() step {
			es := [][]int{}
			for _, e := range w.tbl.AllValues() {
				es = append(es, []int{e.Count(), e.Length(), e.Examined()})
			}
			return step{"k": "tags", "es": es}
		})
	case "size":
		w.do(func() step { return step{"k": "size", "n": w.tbl.Size()} })
	case "pos":
		if len(w.handles) == 0 {
			return
		}
		h := w.handles[o.h%len(w.handles)]
		w.do(func() step {
			if o.cap {
				p := h.cap.Start()
				return step{"k": "pos", "tag": h.tag, "off": h.off, "pos": p - h.off, "cap": p}
			}
			p := h.e.Pos()
			return step{"k": "pos", "tag": h.tag, "off": h.off, "pos": p, "cap": p + h.off}
		})
	}
}

func tableThreads(c *cx, setup, threads, each, length, ids int, mix []int) {
	r := c.r
	threshold := 0
	if r.Intn(4) == 0 {
		threshold = r.Intn(4)
	}
	tag := 0
	plan := func(k int) planned {
		switch k {
		case 0:
			tag++
			ln := r.Intn(4)
			ex := max(1, ln+r.Intn(3))
			if r.Intn(6) == 0 {
				ln = -1
			}
			o := planned{k: "put", tag: tag, id: r.Intn(ids), pos: r.Intn(length + 1), ln: ln, ex: ex}
			if ex < threshold {
				o.small = 1
			}
			return o
		case 1:
			a := r.Intn(length + 1)
			b := a + r.Intn(3)*r.Intn(2)
			n := r.Intn(4)
			if r.Intn(3) == 0 {
				n = b - a
			}
			return planned{k: "edit", a: a, b: b, n: n}
		case 2:
			return planned{k: "get", id: r.Intn(ids), pos: r.Intn(length + 1)}
		case 3:
			return planned{k: "tags"}
		case 4:
			return planned{k: "size"}
		}
		return planned{k: "pos", h: r.Intn(8), cap: r.Intn(2) == 0}
	}
	tbl := memo.NewTreeTable(threshold)
	first := &worker{tbl: tbl}
	for i := 0; i < setup; i++ {
		o := plan(0)
		first.run(o)
		first.run(planned{k: "get", id: o.id, pos: o.pos})
	}
	ws := make([]*worker, threads)
	fs := make([]func(), threads)
	for i := range ws {
		w := &worker{tbl: tbl, handles: append([]*ent(nil), first.handles...)}
		ws[i] = w
		var os []planned
		for n := 0; n < each; n++ {
			pick := r.Intn(100)
			k := 0
			for pick >= mix[k] {
				pick -= mix[k]
				k++
			}
			os = append(os, plan(k))
		}
		fs[i] = func() {
			for _, o := range os {
				w.run(o)
			}
		}
	}
	together(r, fs...)
	last := &worker{tbl: tbl}
	seen := map[*memo.Entry]bool{}
	for _, w := range append(ws, first) {
		for _, h := range w.handles {
			if !seen[h.e] {
				seen[h.e] = true
				last.handles = append(last.handles, h)
			}
		}
	}
	last.run(planned{k: "size"})
	last.run(planned{k: "tags"})
	for i := 0; i < len(last.handles) && i < 6; i++ {
		last.run(planned{k: "pos", h: i, cap: i%2 == 0})
	}
	var all []timed
	for _, w := range append(ws, first, last) {
		all = append(all, w.ops...)
	}
	// times as ranks
	var ts []int64
	for _, o := range all {
		ts = append(ts, o.inv, o.ret)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	rank := map[int64]int{}
	for _, t := range ts {
		if _, ok := rank[t]; !ok {
			rank[t] = len(rank)
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].inv < all[j].inv })
	var ops []step
	overlap := 0
	for i, o := range all {
		o.step["inv"], o.step["ret"] = rank[o.inv], rank[o.ret]
		ops = append(ops, o.step)
		if i > 0 && all[i-1].ret >= o.inv {
			overlap++
		}
	}
	c.count("operations", len(ops))
	c.count("overlapping operations", overlap)
	c.emit("Linear", map[string]interface{}{"ops": ops})
}

// ---------------------------------------------------------------------------
// Parses.

// pausing delivers a text and lets others run in between.
type pausing struct{ b []byte }

func (p pausing) ReadAt(b []byte, off int64) (int, error) {
	runtime.Gosched()
	return bytes.NewReader(p.b).ReadAt(b, off)
}

func slowly(t Text) io.ReaderAt { return pausing{t.bytes()} }

// concPattern makes a pattern whose checkers keep no state.
func concPattern(r *rand.Rand, lo, hi int) (*gen, *P) {
	g := newGen(r)
	g.memo = r.Intn(4) > 0
	g.errs = r.Intn(3) == 0
	g.chks = r.Intn(4) == 0
	g.caps = r.Intn(4) != 0
	p := g.patt(lo + r.Intn(hi-lo+1))
	p.onlyBuiltin()
	return g, p
}

// concTexts makes texts, some of which need several reads.
func concTexts(g *gen, p *P, n int) []Text {
	bs := g.texts(p, n, 40)
	if g.r.Intn(4) > 0 {
		return asTexts(bs)
	}
	k := 4096*(1+g.r.Intn(3)) - g.r.Intn(8)
	atBoundary(p, k)
	var ts []Text
	for _, b := range bs {
		ts = append(ts, Text{Pad: k, PB: 'x', T: b})
	}
	return ts
}

// seen is an outcome obtained for a text.
type seen struct {
	text int
	via  string
	o    *Obs
}

// outcomes are the outcomes that the goroutines have obtained.
type outcomes [][]seen

func newOutcomes(n int) outcomes { return make(outcomes, n) }

func (s outcomes) runs(c *cx, texts []Text) []Run {
	gs := make([]group, len(texts))
	for _, l := range s {
		for _, x := range l {
			gs[x.text].add(x.via, x.o)
		}
	}
	var runs []Run
	for i, t := range texts {
		if gs[i].n > 0 {
			runs = append(runs, Run{T: t, Obs: gs[i].list()})
		}
	}
	return runs
}

func asJson(code *vm.Code) string {
	b, err := code.ToJson()
	if err != nil {
		return ""
	}
	return string(b)
}

// slowPieces delivers a stream in pieces and lets others run in between.
type slowPieces struct{ pieces }

func (p *slowPieces) Read(b []byte) (int, error) {
	runtime.Gosched()
	n, err := p.pieces.Read(b)
	runtime.Gosched()
	return n, err
}

func slowStream(r *rand.Rand, b []byte) io.ReaderAt {
	m := []int{2, 50, 3000, 10000}[r.Intn(4)]
	return input.FromReader(&slowPieces{pieces{b: b, r: rand.New(rand.NewSource(r.Int63())), max: m, zero: r.Intn(3) == 0, dataEOF: r.Intn(2) == 0}})
}

// streams: goroutines read from one adapted stream, directly and through
// cursors of their own.
func streams(c *cx) {
	r := c.r
	n := []int{r.Intn(40), 4090 + r.Intn(12), 8188 + r.Intn(8)}[r.Intn(3)]
	t := randText(r, n)
	b := t.bytes()
	var ra io.ReaderAt = slowStream(r, b)
	if r.Intn(8) == 0 {
		ra = linerope.New(b)
	}
	var us [3]*cursor
	var fs []func()
	for w := range us {
		u := &cursor{in: input.NewInput(ra), ra: ra}
		us[w] = u
		rr := rand.New(rand.NewSource(r.Int63()))
		fs = append(fs, func() {
			for k := 0; k < 12; k++ {
				off := []int{rr.Intn(n + 4), max(0, n-rr.Intn(8)), max(0, 4096*rr.Intn(3)+rr.Intn(7)-3), u.in.Pos()}[rr.Intn(4)]
				switch rr.Intn(7) {
				case 0, 1, 2:
					u.do(step{"k": "read", "off": off, "len": 1 + rr.Intn(10), "direct": rr.Intn(2)})
				case 3:
					u.do(step{"k": "seek", "n": off})
				case 4:
					u.do(step{"k": "adv", "n": rr.Intn(4)})
				case 5:
					u.do(step{"k": "peek"})
				case 6:
					u.do(step{"k": "slice", "lo": off, "hi": off + rr.Intn(9)})
				}
			}
		})
	}
	together(r, fs...)
	for w, u := range us {
		c.emitCursor(t, fmt.Sprintf("goroutine %d on a shared reader", w), u)
	}
}

// privately: one program, several goroutines, each with tables of its own.
func privately(c *cx) {
	r := c.r
	g, p := concPattern(r, 3, 16)
	texts := concTexts(g, p, 6)
	q, _ := build(p, r.Intn(2) == 0)
	code, x := compileP(q)
	if x != "" {
		c.parseRec(p, []Run{{T: texts[0], Obs: obs1(&Obs{X: x})}}, fieldsAll)
		return
	}
	before := asJson(code)
	saves := r.Intn(3) == 0
	res := newOutcomes(4)
	var fs []func()
	sources := make([]io.ReaderAt, len(texts))
	for i, t := range texts {
		switch r.Intn(4) {
		case 0, 1:
			sources[i] = slowly(t)
		case 2:
			// all read from the same stream
			sources[i] = slowStream(r, t.bytes())
		case 3:
			sources[i] = linerope.New(t.bytes())
		}
	}
	for w := range res {
		w := w
		first, useTable := r.Intn(len(texts)), r.Intn(3) > 0
		fs = append(fs, func() {
			for n := 0; n < 2*len(texts); n++ {
				i := (first + n) % len(texts)
				var tbl memo.Table = memo.NoneTable{}
				if useTable {
					tbl = memo.NewTreeTable(0)
				}
				res[w] = append(res[w], seen{i, fmt.Sprintf("goroutine %d parse %d", w, n), exec(code, nil, sources[i], tbl)})
			}
			if saves {
				asJson(code)
			}
		})
	}
	together(r, fs...)
	runs := res.runs(c, texts)
	if asJson(code) != before {
		runs[0].Obs = append(runs[0].Obs, &Obs{X: "the program is saved as something else after it was used"})
	}
	c.parseRec(p, runs, fieldsAll)
}

// shared: one program, one text, and one table for all; then an edit and again.
func shared(c *cx) {
	r := c.r
	g, p := concPattern(r, 4, 20)
	p.pureMemo()
	if !p.wf() {
		c.count("ill-formed", 1)
		return
	}
	q, _ := build(p, false)
	code, x := compileP(q)
	bs := g.texts(p, 3, 60)
	if x != "" {
		c.parseRec(p, []Run{{T: txt(bs[0]), Obs: obs1(&Obs{X: x})}}, fieldsAll)
		return
	}
	var runs []Run
	for _, b := range bs {
		tbl := memo.NewTreeTable(thresholds[r.Intn(4)])
		for round := 0; round < 3; round++ {
			if st, _, errs := p.cost(b, stepLimit); st >= stepLimit || errs > 40 {
				break
			}
			res := newOutcomes(3)
			var fs []func()
			for w := range res {
				w := w
				fs = append(fs, func() {
					for n := 0; n < 2; n++ {
						res[w] = append(res[w], seen{0, fmt.Sprintf("round %d goroutine %d parse %d", round, w, n), exec(code, nil, slowly(txt(b)), tbl)})
					}
				})
			}
			together(r, fs...)
			runs = append(runs, res.runs(c, []Text{txt(b)})...)
			at := r.Intn(len(b) + 1)
			del := min(r.Intn(3), len(b)-at)
			ins := []byte(g.str(r.Intn(4)))
			b = append(append(append([]byte{}, b[:at]...), ins...), b[at+del:]...)
			tbl.ApplyEdit(memo.Edit{Start: at, End: at + del, Len: len(ins)})
		}
		c.count("entries", tbl.Size())
	}
	c.parseRec(p, runs, fieldsAll)
}

// ---------------------------------------------------------------------------
// Compilations.

type compiling struct {
	run  func()
	emit func()
}

// aPattern builds, compiles and uses a pattern.
func aPattern(c *cx) compiling {
	r := c.r
	g, p := concPattern(r, 3, 14)
	if r.Intn(2) == 0 {
		for i := range p.N {
			if p.N[i].T == "memo" {
				p.N[i].MemoID = autoMemo
			}
		}
	}
	texts := concTexts(g, p, 4)
	share := r.Intn(2) == 0
	res := newOutcomes(1)
	return compiling{func() {
		q, _ := build(p, share)
		code, x := compileP(q)
		for i, t := range texts {
			o := &Obs{X: x}
			if x == "" {
				tbl := memo.NewTreeTable(0)
				for n := 1; n <= 2; n++ {
					o = exec(code, nil, slowly(t), tbl)
					res[0] = append(res[0], seen{i, fmt.Sprintf("parse %d", n), o})
				}
			}
			res[0] = append(res[0], seen{i, "last", o})
		}
	}, func() { c.parseRec(p, res.runs(c, texts), fieldsAll) }}
}

// aText reads and uses a text in the notation.
func aText(c *cx) compiling {
	g := genRe(c.r)
	var s string
	auto := c.r.Intn(3) == 0
	for s == "" {
		g.p = &P{}
		g.scope, g.memos, g.grams, g.memoN, g.pure = nil, nil, 0, 0, false
		if auto || c.r.Intn(2) == 0 {
			g.p.Root = g.grammar(1 + c.r.Intn(10))
		} else {
			g.p.Root = g.node(1 + c.r.Intn(10))
		}
		if !g.p.wf() {
			continue
		}
		w := &printer{r: c.r, p: g.p, neat: c.r.Intn(2) == 0}
		if s = w.text(); w.bad || len(s) > 600 {
			s = ""
		}
	}
	texts := g.texts(g.p, 4, 20)
	var o map[string]interface{}
	f := []string{"p"}
	if auto {
		f = append(f, "c")
	}
	return compiling{func() { o = c.readText(s, auto, texts, f) },
		func() { c.emit("ReSyntax", map[string]interface{}{"texts": []map[string]interface{}{o}}) }}
}

// aRegexp converts and uses regular expressions.
func aRegexp(c *cx) compiling {
	g := &rxGen{r: c.r, alpha: "abc", perl: true, lazy: c.r.Intn(3) == 0}
	srcs := []string{g.expr(2 + c.r.Intn(6))}
	if c.r.Intn(2) == 0 {
		srcs = append(srcs, g.expr(2+c.r.Intn(6)))
	}
	j := rxPrepare(srcs, syntax.Perl, []string{"one", "rules"}[c.r.Intn(2)])
	if j == nil {
		return aRegexp(c)
	}
	if j.bad == 0 {
		j.cheapTexts(asTexts(rxTexts(c.r, j.es, g.alpha, 5, 12)))
	}
	return compiling{func() {
		if code := j.convert(); code != nil {
			j.parse(code)
		}
	}, func() { j.emit(c) }}
}

// compilations compiles several things at once, while another program is used.
func compilations(c *cx) {
	r := c.r
	var js []compiling
	for n := 3 + r.Intn(2); n > 0; n-- {
		js = append(js, []func(*cx) compiling{aPattern, aPattern, aText, aRegexp}[r.Intn(4)](c))
	}
	var fs []func()
	for _, j := range js {
		fs = append(fs, j.run)
	}
	g, p := concPattern(r, 3, 12)
	texts := concTexts(g, p, 3)
	q, _ := build(p, false)
	code, x := compileP(q)
	res := newOutcomes(1)
	fs = append(fs, func() {
		for n := 0; n < 2*len(texts) && x == ""; n++ {
			i := n % len(texts)
			res[0] = append(res[0], seen{i, fmt.Sprintf("parse %d", n), exec(code, nil, slowly(texts[i]), memo.NewTreeTable(0))})
		}
	})
	together(r, fs...)
	for _, j := range js {
		j.emit()
	}
	c.parseRec(p, res.runs(c, texts), fieldsAll)
}

// inParts has the rules of one grammar built by several goroutines.
func inParts(c *cx) {
	r := c.r
	g := newGen(r)
	g.memo, g.errs, g.caps = true, r.Intn(3) == 0, r.Intn(3) > 0
	var p *P
	for {
		p = g.patt(8 + r.Intn(16))
		if p.at(p.Root).T == "gram" && len(p.at(p.Root).D) > 1 {
			break
		}
	}
	for i := range p.N {
		if p.N[i].T == "memo" {
			p.N[i].MemoID = autoMemo
		}
	}
	ds := p.at(p.Root).D
	// every rule is memoized
	for i := range ds {
		if r.Intn(2) == 0 {
			k := p.memo(ds[i].K, autoMemo)
			p.at(p.Root).D[i].K = k
		}
	}
	ds = p.at(p.Root).D
	if !p.wf() {
		c.count("ill-formed", 1)
		return
	}
	texts := asTexts(g.texts(p, 8, 40))
	parts := make([]pattern.Pattern, len(ds))
	fail := make([]string, len(ds))
	var fs []func()
	for i, d := range ds {
		i, d := i, d
		fs = append(fs, func() {
			fail[i] = guard(func() {
				b := &builder{p: p, st: &checkers{}, done: map[int]pattern.Pattern{}}
				parts[i] = b.mk(d.K)
			})
		})
	}
	together(r, fs...)
	m := map[string]pattern.Pattern{}
	x := ""
	for i, d := range ds {
		m[d.Nm] = parts[i]
		x += fail[i]
	}
	var code *vm.Code
	if x == "" {
		code, x = compileP(pattern.Grammar(p.at(p.Root).Nm, m))
	}
	var runs []Run
	for _, t := range texts {
		var g group
		if x != "" {
			g.add("compile", &Obs{X: x})
		} else {
			tbl := memo.NewTreeTable(0)
			for n := 1; n <= 2; n++ {
				g.add(fmt.Sprintf("parse %d", n), exec(code, nil, slowly(t), tbl))
			}
		}
		runs = append(runs, Run{T: t, Obs: g.list()})
	}
	c.parseRec(p, runs, fieldsAll)
}

// again: one program used many times; what it found earlier stays.
func again(c *cx) {
	r := c.r
	g, p := concPattern(r, 3, 20)
	texts := concTexts(g, p, 8)
	q, _ := build(p, r.Intn(2) == 0)
	code, x := compileP(q)
	if x != "" {
		c.parseRec(p, []Run{{T: texts[0], Obs: obs1(&Obs{X: x})}}, fieldsAll)
		return
	}
	orig, before := code, asJson(code)
	type kept struct {
		text int
		ok   bool
		n    int
		capt *memo.Capture
		errs []vm.ParseError
	}
	var ks []kept
	res := newOutcomes(1)
	for n := 0; n < 3*len(texts); n++ {
		i := r.Intn(len(texts))
		var tbl memo.Table = memo.NoneTable{}
		if r.Intn(2) == 0 {
			tbl = memo.NewTreeTable(0)
		}
		var k kept
		via := fmt.Sprintf("parse %d", n)
		if x := guard(func() {
			ok, pos, capt, errs := code.Exec(slowly(texts[i]), tbl)
			k = kept{i, ok, pos, capt, errs}
		}); x != "" {
			res[0] = append(res[0], seen{i, via, &Obs{X: x}})
			continue
		}
		ks = append(ks, k)
		if r.Intn(2) == 0 {
			res[0] = append(res[0], seen{i, via, observe(k.ok, k.n, k.capt, k.errs, nil, nil)})
		}
		if r.Intn(8) == 0 {
			// compile the same pattern again
			if again, x := compileP(q); x == "" {
				code = again
			} else {
				res[0] = append(res[0], seen{i, via, &Obs{X: x}})
			}
		}
	}
	for n, k := range ks {
		var o *Obs
		if x := guard(func() { o = observe(k.ok, k.n, k.capt, k.errs, nil, nil) }); x != "" {
			o = &Obs{X: x}
		}
		res[0] = append(res[0], seen{k.text, fmt.Sprintf("parse %d looked at later", n), o})
	}
	runs := res.runs(c, texts)
	if len(runs) > 0 && asJson(orig) != before {
		runs[0].Obs = append(runs[0].Obs, &Obs{X: "the program is saved as something else after it was used"})
	}
	c.parseRec(p, runs, fieldsAll)
}

func init() {
	properties["C19"] = func(c *ctx) []family {
		// weights of put, edit, get, list, size, handle
		even := []int{25, 25, 20, 10, 10, 10}
		edits := []int{5, 45, 15, 10, 10, 15}
		puts := []int{50, 5, 25, 10, 10, 0}
		return []family{
			{"two", c.n(700, 12000), func(c *cx, i int) { tableThreads(c, 3, 2, 5, 6, 2, even) }},
			{"three", c.n(700, 12000), func(c *cx, i int) { tableThreads(c, 4, 3, 4, 8, 2, even) }},
			{"edits", c.n(700, 12000), func(c *cx, i int) { tableThreads(c, 6, 3, 4, 12, 2, edits) }},
			{"puts", c.n(400, 8000), func(c *cx, i int) { tableThreads(c, 1, 3, 4, 3, 2, puts) }},
			{"four", c.n(200, 6000), func(c *cx, i int) { tableThreads(c, 4, 4, 3, 8, 2, even) }},
			{"streams", c.n(600, 10000), func(c *cx, i int) { streams(c) }},
			{"private", c.n(500, 8000), func(c *cx, i int) { privately(c) }},
			{"shared", c.n(500, 8000), func(c *cx, i int) { shared(c) }},
			{"compile", c.n(500, 8000), func(c *cx, i int) { compilations(c) }},
			{"parts", c.n(500, 8000), func(c *cx, i int) { inParts(c) }},
			{"again", c.n(400, 8000), func(c *cx, i int) { again(c) }},
		}
	}
}
