package main

import (
	"github.com/zyedidia/gpeg/memo"
)

// C21: what an incremental parse saves.

// reuseParse parses and records which elements were parsed and the lookups.
func (s *session) reuseParse(edits int) {
	cnt := s.tbl.(*counting)
	cnt.gets = 0
	o := s.tally(exec(s.code, s.st, s.reader(), s.tbl))
	parsed := []int{}
	for _, l := range o.L {
		parsed = append(parsed, l.start)
	}
	s.c.count("lookups", cnt.gets)
	s.c.count("element parses", len(parsed))
	o.L = nil
	s.steps = append(s.steps, step{"k": "reuse", "o": o, "parsed": parsed, "gets": cnt.gets, "edits": edits})
}

func reuse(c *cx, n, rounds int) {
	r := c.r
	p := &P{}
	digit := p.set([2]int{'0', '9'})
	sep := p.lit(";")
	slack := 1
	var body int
	mk := func() []byte { // one element
		var t []byte
		for d := 1 + r.Intn(3); d > 0; d-- {
			t = append(t, byte('0'+r.Intn(10)))
		}
		return append(t, ';')
	}
	switch r.Intn(6) {
	case 0:
		body = p.seq(p.un("plus", digit), sep)
	case 1:
		body = p.cap(p.seq(p.cap(p.un("plus", digit), 1), sep), 2)
	case 2: // looks two bytes ahead
		body = p.seq(p.cap(p.un("plus", digit), 1), sep, p.un("not", p.seq(digit, p.lit("#"))))
		slack = 3
	case 3: // single bytes
		body = p.cap(p.set([2]int{'0', ';'}), 1)
	case 4: // an alternative is tried first
		body = p.alt(p.cap(p.seq(digit, sep), 1), p.cap(p.seq(digit, digit, sep), 2), p.seq(p.un("plus", digit), sep))
	case 5: // fixed width
		body = p.cap(p.any(3), 3)
		slack = 1
	}
	probe := p.add(Nd{T: "chk", K: "mod", M: 1, Q: 0, Lg: 1, N: 5, F: 6, A: p.empty()})
	el := p.seq(probe, body)
	m := p.memo(el, autoMemo)
	p.Root = p.un("star", m)
	if r.Intn(3) == 0 {
		p.Root = p.un("plus", m)
	}
	if r.Intn(3) == 0 {
		p.Root = p.cap(p.Root, 9)
	}
	var text []byte
	for x := 0; x < n; x++ {
		text = append(text, mk()...)
	}
	s := c.newSession(p, text, 0)
	if s.bad {
		s.emit(fieldsAll, map[string]interface{}{"el": el, "slack": slack})
		return
	}
	s.limit = 1 << 20
	s.tbl = &counting{Table: s.tbl}
	s.reuseParse(-1)
	for k := 0; k < rounds && !s.bad; k++ {
		edits := 0
		switch r.Intn(4) {
		case 0: // the same text again
		default:
			edits = 1
			if r.Intn(5) == 0 {
				edits = 2 + r.Intn(3)
			}
		}
		for x := 0; x < edits; x++ {
			at := r.Intn(len(s.text) + 1)
			switch r.Intn(4) {
			case 0:
				at = 0
			case 1:
				if r.Intn(3) == 0 {
					at = len(s.text)
				}
			}
			del := 0
			var ins []byte
			switch r.Intn(4) {
			case 0:
				ins = []byte{byte('0' + r.Intn(10))}
			case 1:
				ins = mk()
			case 2:
				del = 1
				ins = []byte{byte('0' + r.Intn(10))}
				if at < len(s.text) && s.text[at] == ';' {
					ins[0] = ';'
				}
			case 3: // delete a digit
				del = 1
				if at+1 < len(s.text) && s.text[at] == ';' {
					at++
				}
			}
			if at+del > len(s.text) {
				del = len(s.text) - at
			}
			s.edit(at, del, ins)
		}
		s.reuseParse(edits)
	}
	s.emit(fieldsAll, map[string]interface{}{"el": el, "slack": slack})
}

var _ memo.Table = &counting{}

func init() {
	properties["C21"] = func(c *ctx) []family {
		return []family{
			{"short", c.n(400, 6000), func(c *cx, i int) { reuse(c, c.r.Intn(12), 8) }},
			{"medium", c.n(200, 3000), func(c *cx, i int) { reuse(c, 20+c.r.Intn(80), 8) }},
			{"long", c.n(32, 400), func(c *cx, i int) { reuse(c, 200+c.r.Intn(400), 8) }},
			{"history", c.n(64, 600), func(c *cx, i int) { reuse(c, 50+c.r.Intn(100), 40) }},
		}
	}
}
