package main

import (
	"io"
	"math/rand"
	"reflect"

	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

// C04, C06, C21: editing sessions.

// counting is a memoization table that counts lookups.
type counting struct {
	memo.Table
	gets int
}

func (c *counting) Get(id, pos int) (*memo.Entry, bool) {
	c.gets++
	return c.Table.Get(id, pos)
}

type step map[string]interface{}

// session drives one program, one text and one table.
type session struct {
	c     *cx
	p     *P
	code  *vm.Code
	st    *checkers
	text  []byte
	init  []byte
	rope  *linerope.Node
	tbl   memo.Table
	steps []step
	bad   bool
	limit int
	work  int

	suspect bool
}

func (c *cx) newSession(p *P, text []byte, threshold int) *session {
	q, st := build(p, c.r.Intn(2) == 0)
	code, x := compileP(q)
	s := &session{c: c, p: p, code: code, st: st, text: text, init: text, tbl: memo.NewTreeTable(threshold), limit: 100000}
	if x != "" {
		s.steps = append(s.steps, step{"k": "parse", "o": &Obs{X: x}})
		s.bad = true
		return s
	}
	if c.r.Intn(4) == 0 {
		s.rope = linerope.NewWithOpts(append([]byte{}, text...), linerope.Options{SplitLen: 16, JoinLen: 8, RebalanceRatio: 1.2, LineSep: []byte{'\n'}})
	}
	return s
}

func (s *session) reader() io.ReaderAt {
	if s.rope != nil {
		return s.rope
	}
	return rd(s.text)
}

// edit replaces del bytes at at. It reports false, and does nothing, if
// parsing the resulting text would take too long.
func (s *session) edit(at, del int, ins []byte) bool {
	t := append(append(append([]byte{}, s.text[:at]...), ins...), s.text[at+del:]...)
	if st, _, errs := s.p.cost(t, s.limit); st >= s.limit || errs > 40 {
		return false
	}
	s.text = t
	x := guard(func() {
		if s.rope != nil {
			if del > 0 {
				s.rope.Remove(at, at+del)
			}
			if len(ins) > 0 {
				s.rope.Insert(at, ins)
			}
		}
		s.tbl.ApplyEdit(memo.Edit{Start: at, End: at + del, Len: len(ins)})
	})
	s.steps = append(s.steps, step{"k": "edit", "at": at, "del": del, "ins": ints(ins)})
	s.c.count("edits", 1)
	if x != "" {
		s.steps = append(s.steps, step{"k": "parse", "o": &Obs{X: x}})
		s.bad = true
	}
	return true
}

func (s *session) tally(o *Obs) *Obs {
	s.c.count("parses", 1)
	st, _, _ := s.p.cost(s.text, s.limit)
	s.work += st
	if o.M == 1 {
		s.c.count("matches", 1)
	} else {
		s.c.count("failures", 1)
	}
	if len(o.C) > 0 {
		s.c.count("with captures", 1)
	}
	if o.X != "" {
		s.bad = true
	}
	return o
}

func (s *session) parse() {
	o := s.tally(exec(s.code, s.st, s.reader(), s.tbl))
	s.steps = append(s.steps, step{"k": "parse", "o": o})
	if s.c.screen && !s.bad {
		s.compare(o, exec(s.code, s.st, rd(s.text), memo.NoneTable{}))
	}
}

// compare finds out whether a history deserves a closer look: one with a parse
// that a parse from scratch does not agree with is recorded up to there.
func (s *session) compare(o, fresh *Obs) {
	same := o.X == fresh.X && o.M == fresh.M && reflect.DeepEqual(o.E, fresh.E)
	if same && o.M == 1 {
		same = o.P == fresh.P && reflect.DeepEqual(caps(o.C), caps(fresh.C))
	}
	if !same {
		s.suspect, s.bad = true, true
	}
}

// huntSessions makes many histories and records the first that is suspicious.
func huntSessions(c *cx, n int, each func(s *session) func()) {
	stats := c.stats
	c.stats, c.screen, c.seen = map[string]int{}, true, 0
	tried := 0
	for ; tried < n && c.seen == 0; tried++ {
		switch x := c.r.Intn(16); {
		case x < 8:
			spanSession(c, each)
		case x < 10:
			listSession(c, 10, each)
		case x < 12:
			farSession(c, each)
		case x < 14:
			nestSession(c, each)
		default:
			randomSession(c, 3, 14, 8, 60, each)
		}
	}
	stats["screened histories"] += tried
	stats["screened parses"] += c.stats["parses"]
	c.stats, c.screen = stats, false
}

// spanEdits changes the end of what one result depends on, removes some text
// between it and the end of a shorter one, and changes the end of that.
func spanEdits(s *session, reach []int) {
	r := s.c.r
	letter := func(from, to int) (at, end int) {
		for try := 0; try < 12 && from < to; try++ {
			at := from + r.Intn(to-from)
			if x := int(s.text[at]) - 'A'; x >= 0 && x < len(reach) {
				return at, at + reach[x]
			}
		}
		return -1, 0
	}
	a, e := letter(0, len(s.text))
	if a < 0 {
		return
	}
	b, f := letter(max(a-3, 0), min(a+12, len(s.text)))
	if b < 0 {
		return
	}
	flip := func(at int) {
		if at >= 0 && at < len(s.text) && !s.bad {
			c := byte('x')
			if s.text[at] == c {
				c = '.'
			}
			s.edit(at, 1, []byte{c})
		}
	}
	flip(f - 1 + r.Intn(3)/2)
	if from := e + r.Intn(3); from < len(s.text) && !s.bad {
		n := r.Intn(8) + max(f-e, 0)
		if r.Intn(4) == 0 {
			n = r.Intn(80)
		}
		s.edit(from, min(n, len(s.text)-from), []byte("..")[:r.Intn(3)])
	}
	flip(e - 1 - r.Intn(3)/2)
}

// spanSession has many results of very different extents at the same places:
// what becomes of a capital letter depends on one byte some distance after it.
func spanSession(c *cx, each func(s *session) func()) {
	r := c.r
	p := &P{}
	dist := []int{0, 1, 2, 3, 4, 6, 9, 14, 20, 31, 50}
	k := 1 + r.Intn(6)
	var alts, reach []int
	for x := 0; x < k; x++ {
		d := dist[r.Intn(len(dist))]
		if r.Intn(2) == 0 {
			d = r.Intn(8)
		}
		reach = append(reach, d+2)
		letter := p.lit(string(rune('A' + x)))
		if r.Intn(6) == 0 {
			letter = p.set([2]int{'A', 'A' + x})
		}
		look := p.seq(p.any(d), p.lit("x"))
		if d == 0 {
			look = p.lit("x")
		}
		el := p.alt(p.cap(p.seq(letter, p.un("and", look)), 1+x), p.cap(letter, 20+x))
		switch r.Intn(4) {
		case 0:
			el = p.alt(p.memo(p.cap(p.seq(letter, p.un("not", look)), 40+x), autoMemo), p.memo(p.cap(letter, 20+x), autoMemo))
		case 1:
			el = p.seq(letter, p.memo(p.alt(p.seq(p.un("and", p.memo(look, autoMemo)), p.cap(p.any(1), 1+x)), p.cap(p.any(1), 20+x)), autoMemo))
		default:
			el = p.memo(el, autoMemo)
		}
		alts = append(alts, el)
	}
	alts = append(alts, p.cap(p.set([2]int{0, ':'}, [2]int{'<', 255}), 60))
	root := p.alt(alts...)
	if r.Intn(2) == 0 {
		root = p.memo(root, autoMemo)
	}
	// the rest of the text is not looked at
	p.Root = p.seq(p.un("star", root), p.un("opt", p.cap(p.lit(";"), 61)))
	if !p.wf() {
		c.count("ill-formed", 1)
		return
	}
	alpha := "ABCDEF"[:k] + "xx.x.."
	str := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = alpha[r.Intn(len(alpha))]
		}
		if n > 0 && r.Intn(8) == 0 {
			b[r.Intn(n)] = ';'
		}
		return b
	}
	s := c.newSession(p, str(1<<uint(r.Intn(8))+r.Intn(20)), 0)
	s.limit = 100000
	parse := each(s)
	if !s.bad {
		parse()
	}
	most := 1 + r.Intn(12)
	for n := 0; n < 12 && !s.bad; n++ {
		if r.Intn(2) == 0 {
			spanEdits(s, reach)
		}
		for x := r.Intn(most); x > 0 && !s.bad; x-- {
			l := len(s.text)
			at := r.Intn(l + 1)
			if r.Intn(4) == 0 {
				at = r.Intn(min(l, 8) + 1)
			}
			del := min(l-at, []int{0, 0, 1, 1, 2, 5, r.Intn(20), r.Intn(70)}[r.Intn(8)])
			var ins []byte
			if r.Intn(3) > 0 {
				ins = str([]int{1, 1, 1, del, 2, 6}[r.Intn(6)])
			}
			if l > 400 {
				ins = nil
			}
			if del+len(ins) > 0 {
				s.edit(at, del, ins)
			}
		}
		if !s.bad {
			parse()
		}
	}
	s.emit(fieldsFor(c.prop), nil)
}

func (s *session) iparse(lo, hi int, tbl memo.Table) {
	o := s.tally(execIv(s.code, s.st, s.reader(), tbl, lo, hi))
	s.steps = append(s.steps, step{"k": "iparse", "lo": lo, "hi": hi, "o": o})
	if s.c.screen && !s.bad {
		s.compare(o, execIv(s.code, s.st, rd(s.text), memo.NoneTable{}, lo, hi))
	}
}

func (s *session) emit(fields []string, extra map[string]interface{}) {
	if s.c.screen {
		if !s.bad {
			return
		}
		s.c.seen++
	}
	rec := map[string]interface{}{"N": s.p.N, "r": s.p.Root, "f": fields, "T": ints(s.init), "steps": s.steps}
	for k, v := range extra {
		rec[k] = v
	}
	s.c.count("entries left", s.tbl.Size())
	s.c.emit("Session", rec)
}

// pureMemo makes checkers pure functions of the bytes they are given.
func (p *P) pureMemo() {
	for i := range p.N {
		if n := &p.N[i]; n.T == "chk" && n.K == "ext" {
			n.K, n.X = "mod", 0
		}
	}
}

// randomEdit picks an edit of a text. frag makes inserted text.
func randomEdit(r *rand.Rand, text []byte, hot []int, frag func() []byte) (at, del int, ins []byte) {
	n := len(text)
	switch r.Intn(6) {
	case 0:
		at = 0
	case 1:
		at = n
	case 2, 3:
		if len(hot) > 0 {
			at = hot[r.Intn(len(hot))] + r.Intn(3) - 1
		}
	default:
		at = r.Intn(n + 1)
	}
	if at < 0 {
		at = 0
	}
	if at > n {
		at = n
	}
	switch r.Intn(6) {
	case 0, 1: // insert
		ins = frag()
	case 2, 3: // delete
		del = 1 + r.Intn(3)
		if r.Intn(10) == 0 {
			del = r.Intn(n + 1)
		}
	case 4: // replace, possibly keeping the length
		del = 1 + r.Intn(3)
		ins = frag()
		if r.Intn(2) == 0 && len(ins) > del {
			ins = ins[:del]
		}
	case 5: // nothing at all, or the same text again
		if r.Intn(2) == 0 && at < n {
			del = 1
			ins = []byte{text[at]}
		} else {
			ins = frag()
			if len(ins) > 1 {
				ins = ins[:1]
			}
		}
	}
	if at+del > n {
		del = n - at
	}
	return
}

// hotspots are the boundaries of what was captured or matched.
func hotspots(o *Obs) []int {
	var out []int
	var walk func(cs []Cp)
	walk = func(cs []Cp) {
		for _, c := range cs {
			out = append(out, c.Start, c.Start+c.Len)
			walk(c.Kids)
		}
	}
	walk(o.C)
	if o.M == 1 {
		out = append(out, o.P)
	}
	return out
}

func (s *session) last() *Obs {
	for i := len(s.steps) - 1; i >= 0; i-- {
		if o, ok := s.steps[i]["o"]; ok {
			return o.(*Obs)
		}
	}
	return &Obs{}
}

// looked returns where what was examined for the results in the table begins and ends.
func (s *session) looked() []int {
	t, ok := s.tbl.(*memo.TreeTable)
	if !ok {
		return nil
	}
	var out []int
	x := guard(func() {
		for _, e := range t.AllValues() {
			out = append(out, e.Pos(), e.Pos()+e.Examined(), e.Pos()+e.Examined())
		}
	})
	if x != "" {
		return nil
	}
	return out
}

// run makes a history of edits and parses.
func (s *session) run(rounds, maxLen int, frag func() []byte, parse func()) {
	if s.bad {
		return
	}
	r := s.c.r
	look := r.Intn(2) == 0
	parse()
	for k := 0; k < rounds && !s.bad && s.work < 60000; k++ {
		n := 1
		if r.Intn(3) == 0 {
			n = r.Intn(5)
		}
		hot := hotspots(s.last())
		if look && r.Intn(2) == 0 {
			if h := s.looked(); len(h) > 0 {
				hot = h
			}
		}
		for x := 0; x < n; x++ {
			at, del, ins := randomEdit(r, s.text, hot, frag)
			if len(s.text)-del+len(ins) > maxLen {
				ins = nil
			}
			if del == 0 && len(ins) == 0 {
				continue
			}
			s.edit(at, del, ins)
			if s.bad {
				return
			}
		}
		parse()
	}
}

func genSession(r *rand.Rand) *gen {
	g := genMemo(r)
	g.caps = r.Intn(6) != 0
	return g
}

func randomSession(c *cx, lo, hi, rounds, maxLen int, each func(s *session) func()) {
	g := genSession(c.r)
	var p *P
	for try := 0; ; try++ {
		p = g.patt(lo + c.r.Intn(hi-lo+1))
		p.pureMemo()
		has := false
		for _, n := range p.N {
			has = has || n.T == "memo"
		}
		if has || try > 30 {
			break
		}
	}
	ts := g.texts(p, 4, maxLen*2/3)
	t := ts[c.r.Intn(len(ts))]
	s := c.newSession(p, t, thresholds[c.r.Intn(6)]*c.r.Intn(2))
	s.limit = stepLimit
	frag := func() []byte {
		if c.r.Intn(3) > 0 {
			if b := p.sample(c.r, 10); len(b) > 0 {
				i := c.r.Intn(len(b))
				return b[i : i+1+c.r.Intn(len(b)-i)]
			}
		}
		return []byte(g.str(1 + c.r.Intn(3)))
	}
	s.run(rounds, maxLen, frag, each(s))
	s.emit(fieldsFor(c.prop), nil)
}

func fieldsFor(prop string) []string {
	if prop == "C06" {
		return []string{"m", "p", "c"}
	}
	return fieldsAll
}

// listPattern is a repetition of memoized elements in some surroundings.
func listPattern(r *rand.Rand) (*P, func() []byte) {
	p := &P{}
	digit := p.set([2]int{'0', '9'})
	frag := func() []byte {
		var t []byte
		for n := 1 + r.Intn(3); n > 0; n-- {
			switch r.Intn(6) {
			case 0, 1, 2:
				t = append(t, byte('0'+r.Intn(10)))
			case 3, 4:
				t = append(t, ';')
			case 5:
				t = append(t, "a# (;)\n"[r.Intn(7)])
			}
		}
		return t
	}
	var el int
	sep := p.lit(";")
	switch r.Intn(12) {
	case 0: // the separator is optional
		el = p.cap(p.seq(digit, p.un("opt", sep)), 1)
	case 1: // end of input as a separator
		el = p.seq(p.cap(p.un("plus", digit), 2), p.alt(sep, p.un("not", p.any(1))))
	case 2: // lookahead two bytes beyond the element
		el = p.alt(p.seq(p.cap(digit, 1), p.un("and", p.seq(p.any(1), sep))), p.seq(digit, p.un("opt", p.cap(sep, 3))), p.cap(sep, 4))
	case 3: // word boundaries on both sides
		b := p.add(Nd{T: "eop", N: 16})
		el = p.alt(p.seq(b, p.cap(p.un("plus", digit), 1), b), p.cap(p.set([2]int{'0', ';'}), 2), p.any(1))
	case 4: // not at a word boundary
		el = p.alt(p.cap(p.seq(digit, p.add(Nd{T: "eop", N: 32})), 1), p.cap(p.any(1), 2))
	case 5: // nested memoized repetition
		in := p.memo(p.cap(digit, 4), autoMemo)
		el = p.cap(p.seq(p.un("star", in), sep), 5)
	case 6: // begin and end of line
		el = p.seq(p.add(Nd{T: "eop", N: 1}), p.cap(p.un("star", p.set([2]int{'0', ';'})), 6), p.add(Nd{T: "eop", N: 2}), p.alt(p.lit("\n"), p.seq(p.un("not", p.any(1)), p.any(0))))
		el = p.seq(el, p.un("and", p.any(0)))
		el = p.alt(p.seq(p.un("and", p.any(1)), el), p.any(1))
	case 7: // balanced parentheses
		el = p.alt(p.cap(p.un("plus", digit), 1), p.cap(sep, 2), p.nt("Par"), p.any(1))
	case 8: // errors inside
		el = p.cap(p.seq(p.un("plus", digit), p.alt(sep, p.errn(2, p.un("opt", p.any(1))))), 3)
	case 9: // checked elements
		el = p.alt(p.cap(p.add(Nd{T: "chk", K: "mod", M: 2, Q: 1, A: p.un("plus", digit), N: 1}), 1), p.cap(p.seq(p.un("plus", digit), p.un("opt", sep)), 2), p.any(1))
	case 10: // elements that end where something far away begins
		el = p.cap(p.seq(p.un("plus", p.seq(p.un("not", p.seq(digit, digit, sep)), p.any(1))), digit), 1)
	case 11: // a search
		el = p.cap(p.un("search", p.seq(p.cap(digit, 2), sep)), 1)
	}
	m := p.memo(el, autoMemo)
	list := p.un([]string{"star", "star", "plus"}[r.Intn(3)], m)
	end := p.un("not", p.any(1))
	var root int
	switch r.Intn(6) {
	case 0:
		root = p.seq(list, end)
	case 1:
		root = p.alt(p.seq(list, p.lit("#")), p.seq(p.cap(list, 8), p.un("star", p.any(1))))
	case 2:
		root = p.seq(p.un("and", list), p.un("opt", p.seq(list, p.lit("?"))), p.cap(list, 9))
	case 3: // lines of lists
		root = p.un("star", p.memo(p.cap(p.seq(list, p.un("opt", p.lit("\n")), p.un("and", p.any(0))), 7), autoMemo))
		root = p.seq(list, p.un("opt", p.cap(p.any(1), 7)), list)
	default:
		root = list
	}
	par := p.memo(p.cap(p.seq(p.lit("("), p.un("star", m), p.lit(")")), 5), autoMemo)
	if r.Intn(2) == 0 {
		par = p.seq(p.lit("("), p.un("star", m), p.lit(")"))
	}
	p.Root = p.gram("L", []Def{{"L", root}, {"Par", par}})
	return p, frag
}

func listText(r *rand.Rand, n int) []byte {
	var t []byte
	for x := 0; x < n; x++ {
		for d := 1 + r.Intn(2); d > 0; d-- {
			t = append(t, byte('0'+r.Intn(10)))
		}
		t = append(t, ';')
		if r.Intn(30) == 0 {
			t = append(t, "#\n a("[r.Intn(5)])
		}
		if r.Intn(40) == 0 {
			t = append(t, "(1;2)"...)
		}
	}
	return t
}

func listSession(c *cx, rounds int, each func(s *session) func()) {
	var p *P
	var frag func() []byte
	for {
		p, frag = listPattern(c.r)
		if p.wf() {
			break
		}
		c.count("ill-formed", 1)
	}
	n := []int{0, 1, 2, 3, 5, 8, 13, 16, 17, 33, 40, 64}[c.r.Intn(12)]
	s := c.newSession(p, listText(c.r, n), []int{0, 0, 0, 1, 3, 8, 20}[c.r.Intn(7)])
	s.limit = 5000
	if st, _, errs := p.cost(s.text, s.limit); st >= s.limit || errs > 40 {
		return
	}
	s.run(rounds, 400, frag, each(s))
	s.emit(fieldsFor(c.prop), nil)
}

// farSession has results that are decided by text far beyond their end.
func farSession(c *cx, each func(s *session) func()) {
	r := c.r
	p := &P{}
	// a word, whose kind depends on what follows it
	sp := p.set([2]int{' ', ' '}, [2]int{'-', '-'})
	gap := p.un("star", sp)
	follow := []int{
		p.un("and", p.seq(gap, p.lit("="))),
		p.un("not", p.seq(gap, p.lit("="))),
		p.un("and", p.seq(p.un("star", p.seq(p.un("not", p.lit(";")), p.any(1))), p.lit(";"))),
		p.un("not", p.un("search", p.lit(";"))),
		p.un("and", p.seq(p.any(20+r.Intn(60)), p.lit(" "))),
		p.un("not", p.any(20+r.Intn(100))),
		p.un("and", p.seq(gap, p.un("not", p.any(1)))),
		p.un("opt", p.seq(gap, p.cap(p.lit("="), 9))),
	}
	word := func() int { return []int{p.lit("a"), p.un("plus", p.set([2]int{'a', 'b'})), p.lit("b")}[r.Intn(3)] }
	kind := func(id int) int {
		k := p.cap(word(), id)
		k = p.seq(k, follow[r.Intn(len(follow))])
		if r.Intn(2) == 0 {
			k = p.memo(k, autoMemo)
		}
		return k
	}
	el := p.alt(kind(1), kind(2), p.cap(word(), 3), p.any(1))
	root := p.un("star", p.memo(el, autoMemo))
	if r.Intn(2) == 0 {
		root = p.un("star", p.alt(kind(1), kind(2), p.memo(p.cap(word(), 3), autoMemo), p.any(1)))
	}
	p.Root = root
	if r.Intn(3) == 0 {
		p.Root = p.seq(p.memo(p.alt(kind(4), kind(5), p.empty()), autoMemo), root)
	}
	if !p.wf() {
		return
	}
	var t []byte
	for n := 1 + r.Intn(5); n > 0; n-- {
		t = append(t, "abab=;"[r.Intn(6)])
		for k := r.Intn(1 << uint(r.Intn(7))); k > 0; k-- {
			t = append(t, "   -"[r.Intn(4)])
		}
		t = append(t, "=;a  "[r.Intn(5)])
	}
	s := c.newSession(p, t, 0)
	s.limit = 20000
	if st, _, errs := p.cost(t, s.limit); st >= s.limit || errs > 40 {
		return
	}
	s.run(6, 400, func() []byte {
		b := []byte{"ab=; -"[r.Intn(6)]}
		for k := r.Intn(1 << uint(r.Intn(5))); k > 0; k-- {
			b = append(b, " -"[r.Intn(2)])
		}
		return b
	}, each(s))
	s.emit(fieldsFor(c.prop), nil)
}

// nestSession has results inside results, decided by what follows the end of
// both: edits alternate between what only the outer one depends on and what the
// inner one looked at.
func nestSession(c *cx, each func(s *session) func()) {
	r := c.r
	p := &P{}
	dots := func() int { return p.un("star", p.lit(".")) }
	word := p.un("plus", p.set([2]int{'a', 'b'}))
	gap := p.un("star", p.set([2]int{' ', ' '}, [2]int{'-', '-'}))
	ahead := func() int {
		return []int{
			p.un("and", p.seq(gap, p.lit("="))),
			p.un("not", p.seq(gap, p.lit("="))),
			p.un("not", p.seq(gap, p.lit(";"))),
			p.un("and", p.seq(gap, p.un("not", p.any(1)))),
			p.un("not", p.any(2+r.Intn(8))),
			p.un("and", p.seq(p.any(1+r.Intn(4)), p.lit(" "))),
			p.un("and", p.un("search", p.lit(";"))),
		}[r.Intn(7)]
	}
	mm := func(k int) int {
		if r.Intn(6) == 0 {
			return k
		}
		return p.memo(k, autoMemo)
	}
	inner := mm(p.seq(p.cap(word, 1), ahead()))
	if r.Intn(3) == 0 {
		inner = mm(p.alt(p.seq(p.cap(word, 1), ahead()), p.seq(p.cap(word, 2), ahead())))
	}
	if r.Intn(4) == 0 { // a failure that is remembered
		inner = p.alt(inner, p.cap(p.lit("a"), 3))
	}
	if r.Intn(4) == 0 {
		inner = p.un("plus", mm(p.seq(p.cap(p.set([2]int{'a', 'b'}), 4), ahead())))
	}
	outer := mm(p.seq(p.cap(dots(), 5), inner))
	for r.Intn(3) == 0 {
		outer = mm(p.seq(p.un("opt", p.lit(":")), outer))
	}
	rest := p.set([2]int{' ', ' '}, [2]int{'-', '-'}, [2]int{'=', '='}, [2]int{';', ';'}, [2]int{':', ':'}, [2]int{'.', '.'})
	switch r.Intn(4) {
	case 0:
		p.Root = p.un("star", p.alt(outer, p.cap(p.any(1), 6)))
	case 1:
		p.Root = p.un("star", mm(p.alt(outer, p.cap(word, 7), rest)))
	case 2:
		p.Root = p.alt(outer, p.cap(p.seq(dots(), word), 7), p.un("star", p.any(1)))
	case 3:
		p.Root = p.seq(p.un("opt", p.lit("#")), p.alt(p.seq(outer, p.lit("!")), outer, p.cap(p.un("star", p.any(1)), 8)))
	}
	if !p.wf() {
		c.count("ill-formed", 1)
		return
	}
	var t []byte
	for n := 1 + r.Intn(3); n > 0; n-- {
		t = append(t, "...."[:r.Intn(5)]...)
		t = append(t, "abab"[:1+r.Intn(4)]...)
		t = append(t, " -   - - "[:r.Intn(9)]...)
		t = append(t, "=;"[r.Intn(2)])
	}
	if r.Intn(2) == 0 {
		t = t[:len(t)-1]
	}
	s := c.newSession(p, t, 0)
	s.limit = 20000
	if st, _, errs := p.cost(t, s.limit); st >= s.limit || errs > 40 || s.bad {
		return
	}
	parse := each(s)
	parse()
	find := func(set string) int {
		var at []int
		for i, b := range s.text {
			for k := range set {
				if set[k] == b {
					at = append(at, i)
				}
			}
		}
		if len(at) == 0 {
			return r.Intn(len(s.text) + 1)
		}
		return at[r.Intn(len(at))]
	}
	for k := 0; k < 8 && !s.bad; k++ {
		del, ins := 0, ""
		var at int
		if k%2 == 0 { // what is in front
			at = find(".:")
			if at < len(s.text) && r.Intn(2) == 0 && (s.text[at] == '.' || s.text[at] == ':') {
				del = 1
			} else {
				ins = []string{".", "..", ":"}[r.Intn(3)]
			}
		} else { // what follows
			switch r.Intn(4) {
			case 0:
				at = find("=;")
				if at < len(s.text) {
					del = 1
				}
				ins = []string{"=", ";", "", " "}[r.Intn(4)]
			case 1:
				at = find(" -")
				ins = []string{"=", ";", " ", "--"}[r.Intn(4)]
			case 2:
				at = len(s.text)
				ins = []string{"=", ";", "a", "  "}[r.Intn(4)]
			case 3:
				at = find("=; -")
				if at < len(s.text) {
					del = 1
				}
			}
		}
		if len(ins)+del == 0 {
			continue
		}
		s.edit(at, del, []byte(ins))
		if s.bad {
			break
		}
		parse()
	}
	s.emit(fieldsFor(c.prop), nil)
}

func init() {
	parse := func(s *session) func() { return s.parse }
	properties["C04"] = func(c *ctx) []family {
		return []family{
			{"rand", c.n(2500, 40000), func(c *cx, i int) { randomSession(c, 3, 14, 8, 40, parse) }},
			{"big", c.n(250, 4000), func(c *cx, i int) { randomSession(c, 15, 40, 8, 80, parse) }},
			{"lists", c.n(800, 12000), func(c *cx, i int) { listSession(c, 10, parse) }},
			{"long", c.n(60, 1200), func(c *cx, i int) { listSession(c, 60, parse) }},
			{"far", c.n(400, 6000), func(c *cx, i int) { farSession(c, parse) }},
			{"nest", c.n(700, 12000), func(c *cx, i int) { nestSession(c, parse) }},
			{"enum", c.n(1500, 20000), func(c *cx, i int) {
				e := enumMemo()
				size := 3 + c.r.Intn(5)
				p := &P{}
				p.Root = e.nth(p, size, c.r.Intn(e.count(size)))
				if !p.wf() {
					return
				}
				ts := shortTexts("ab", 4)
				s := c.newSession(p, ts[c.r.Intn(len(ts))], 0)
				s.limit = stepLimit
				s.run(6, 6, func() []byte { return []byte(newGenAB(c.r).str(1 + c.r.Intn(2))) }, s.parse)
				s.emit(fieldsAll, nil)
			}},
			{"span", c.n(300, 5000), func(c *cx, i int) { spanSession(c, parse) }},
			{"hunt", c.n(400, 4000), func(c *cx, i int) { huntSessions(c, c.n(60, 600), parse) }},
			modelFamily(c, "hist", 12000, func(s *session) { s.parse() }),
		}
	}
	// interval parses, sharing a table or without one
	iv := func(s *session) func() {
		none := s.c.r.Intn(5) == 0
		return func() {
			r := s.c.r
			n := len(s.text)
			for k := 1 + r.Intn(2); k > 0 && !s.bad; k-- {
				lo, hi := r.Intn(n+1), r.Intn(n+3)
				if hot := hotspots(s.last()); len(hot) > 0 && r.Intn(2) == 0 {
					lo = hot[r.Intn(len(hot))]
					if r.Intn(2) == 0 {
						hi = hot[r.Intn(len(hot))]
					}
				}
				if lo > hi {
					lo, hi = hi, lo
				}
				if r.Intn(6) == 0 {
					lo, hi = 0, n+1
				}
				if r.Intn(4) == 0 || lo == hi && r.Intn(2) == 0 {
					hi = lo + 1
				}
				var tbl memo.Table = s.tbl
				if none {
					tbl = memo.NoneTable{}
				}
				s.iparse(lo, hi, tbl)
			}
		}
	}
	properties["C06"] = func(c *ctx) []family {
		return []family{
			{"rand", c.n(2500, 40000), func(c *cx, i int) { randomSession(c, 3, 14, 6, 40, iv) }},
			{"big", c.n(250, 4000), func(c *cx, i int) { randomSession(c, 15, 40, 6, 80, iv) }},
			{"lists", c.n(800, 12000), func(c *cx, i int) { listSession(c, 8, iv) }},
			{"long", c.n(60, 1200), func(c *cx, i int) { listSession(c, 40, iv) }},
			{"far", c.n(300, 5000), func(c *cx, i int) { farSession(c, iv) }},
			{"nest", c.n(300, 5000), func(c *cx, i int) { nestSession(c, iv) }},
			{"all", c.n(500, 6000), func(c *cx, i int) {
				// every interval of a short text
				g := genSession(c.r)
				p := g.patt(4 + c.r.Intn(10))
				p.pureMemo()
				ts := g.texts(p, 6, 9)
				t := ts[len(ts)-1]
				s := c.newSession(p, t, 0)
				if s.bad {
					s.emit(fieldsFor("C06"), nil)
					return
				}
				for lo := 0; lo <= len(t); lo++ {
					for hi := lo + 1; hi <= len(t)+1; hi++ {
						var tbl memo.Table = memo.NoneTable{}
						if i%2 == 0 {
							tbl = s.tbl
						}
						s.iparse(lo, hi, tbl)
					}
				}
				s.emit(fieldsFor("C06"), nil)
			}},
			{"span", c.n(200, 3000), func(c *cx, i int) { spanSession(c, iv) }},
			{"hunt", c.n(400, 4000), func(c *cx, i int) { huntSessions(c, c.n(60, 600), iv) }},
			modelFamily(c, "hist", 9000, func(s *session) {
				n := len(s.text)
				lo := s.c.r.Intn(n + 1)
				s.iparse(lo, lo+s.c.r.Intn(n-lo+1), s.tbl)
			}),
		}
	}
}
