package main

import (
	"encoding/json"
	"io"
	"math/rand"
	"sort"

	"github.com/zyedidia/gpeg/input"
)

// C08: histories of operations on an input cursor.

// ftext is a text given by a formula.
type ftext struct {
	n, a, b, c, d int
}

func (t ftext) at(k int) byte { return byte((k*t.a + k/16*t.b + k/4096*t.c + t.d) % 256) }

func (t ftext) bytes() []byte {
	b := make([]byte, t.n)
	for k := range b {
		b[k] = t.at(k)
	}
	return b
}

func (t ftext) rec() map[string]int {
	return map[string]int{"n": t.n, "a": t.a, "b": t.b, "c": t.c, "d": t.d}
}

func randText(r *rand.Rand, n int) ftext {
	return ftext{n, 1 + 2*r.Intn(100), r.Intn(250), r.Intn(250), r.Intn(256)}
}

// cursor performs operations and records what they report.
type cursor struct {
	in  *input.Input
	ra  io.ReaderAt
	ops []step
}

func (u *cursor) do(o step) {
	k := o["k"].(string)
	one := func(b byte, ok bool) []int {
		if ok {
			return []int{int(b)}
		}
		return []int{}
	}
	b2i := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	x := guard(func() {
		switch k {
		case "peek":
			o["res"] = one(u.in.Peek())
		case "back":
			o["res"] = one(u.in.PeekBefore())
		case "seek":
			o["res"] = b2i(u.in.SeekTo(o["n"].(int)))
		case "adv":
			o["res"] = b2i(u.in.Advance(o["n"].(int)))
		case "slice":
			o["res"] = ints(u.in.Slice(o["lo"].(int), o["hi"].(int)))
		case "reset":
			u.in.ResetFurthest()
		case "read":
			b := make([]byte, o["len"].(int))
			var n int
			var err error
			if o["direct"] == 1 {
				n, err = u.ra.ReadAt(b, int64(o["off"].(int)))
			} else {
				n, err = u.in.ReadAt(b, int64(o["off"].(int)))
			}
			o["res"] = ints(b[:n])
			o["err"] = b2i(err != nil)
		}
		o["p"] = u.in.Pos()
		o["f"] = u.in.Furthest()
	})
	if x != "" {
		o = step{"k": "crash", "x": x, "p": 0, "f": 0, "op": o["k"]}
	}
	u.ops = append(u.ops, o)
}

func (c *cx) emitCursor(t ftext, via string, u *cursor) {
	c.count("operations", len(u.ops))
	c.emit("InputCursor", map[string]interface{}{"t": t.rec(), "via": via, "ops": u.ops})
}

// readers are the ways to deliver a text.
func readerList(r *rand.Rand, b []byte) (names []string, m map[string]func() io.ReaderAt) {
	m = deliveries(r, b)
	return sortedKeys(m), m
}

// cursorHistory performs random operations, most of them around the
// boundaries of the pages the buffer may hold and around the end.
func cursorHistory(c *cx, n, nops int) {
	r := c.r
	t := randText(r, n)
	b := t.bytes()
	names, m := readerList(r, b)
	via := names[r.Intn(len(names))]
	ra := m[via]()
	u := &cursor{in: input.NewInput(ra), ra: ra}
	hot := func() int {
		switch r.Intn(8) {
		case 0:
			return r.Intn(n + 3)
		case 1, 2:
			return max(0, n+r.Intn(7)-4)
		case 3:
			return max(0, u.in.Pos()+r.Intn(9)-4)
		case 4:
			return max(0, u.in.Pos()+4096+r.Intn(5)-2)
		case 5:
			return max(0, u.in.Pos()-4096+r.Intn(5)-2)
		}
		return max(0, 4096*r.Intn(2+n/4096)+r.Intn(7)-3)
	}
	for len(u.ops) < nops {
		switch r.Intn(16) {
		case 0, 1, 2:
			u.do(step{"k": "peek"})
		case 3, 4:
			u.do(step{"k": "back"})
		case 5, 6, 7:
			u.do(step{"k": "seek", "n": hot()})
		case 8, 9, 10:
			u.do(step{"k": "adv", "n": r.Intn(4)})
		case 11:
			// to somewhere interesting
			if k := hot() - u.in.Pos(); k >= 0 {
				u.do(step{"k": "adv", "n": k})
			}
		case 12:
			lo := hot()
			u.do(step{"k": "slice", "lo": lo, "hi": lo + r.Intn(12)})
		case 13:
			lo := hot()
			u.do(step{"k": "read", "off": lo, "len": r.Intn(12), "direct": r.Intn(2)})
		case 14:
			if r.Intn(10) == 0 {
				u.do(step{"k": "reset"})
			}
		case 15:
			if r.Intn(40) == 0 && n > 0 {
				lo := r.Intn(n)
				if r.Intn(2) == 0 {
					u.do(step{"k": "slice", "lo": lo, "hi": lo + r.Intn(n+20)})
				} else {
					u.do(step{"k": "read", "off": lo, "len": r.Intn(n + 20), "direct": r.Intn(2)})
				}
			}
		}
	}
	c.emitCursor(t, via, u)
}

// cursorEnum performs every short sequence of operations from a start.
func cursorEnum(c *cx, i int, starts [][2]int, alphabet func(n, at int) []step, depth int) {
	s := starts[i%len(starts)]
	i /= len(starts)
	r := rand.New(rand.NewSource(int64(i)))
	t := ftext{s[0], 7, 3, 5, 1}
	b := t.bytes()
	names, m := readerList(r, b)
	al := alphabet(s[0], s[1])
	via := names[i%len(names)]
	first := i / len(names)
	if first >= len(al) {
		return
	}
	var rec func(pre []step, d int)
	rec = func(pre []step, d int) {
		if d == 0 {
			ra := m[via]()
			u := &cursor{in: input.NewInput(ra), ra: ra}
			if s[1] > 0 {
				u.do(step{"k": "seek", "n": s[1]})
			}
			for _, o := range pre {
				u.do(clone(o))
			}
			u.do(step{"k": "peek"})
			u.do(step{"k": "back"})
			c.emitCursor(t, via, u)
			return
		}
		for _, o := range al {
			rec(append(pre[:len(pre):len(pre)], o), d-1)
		}
	}
	rec([]step{al[first]}, depth-1)
}

func clone(o step) step {
	d := step{}
	for k, v := range o {
		d[k] = v
	}
	return d
}

// adapter reads from a stream adapted to random access.
func adapter(c *cx, n, nops int) {
	r := c.r
	t := randText(r, n)
	b := t.bytes()
	names, m := readerList(r, b)
	var streams []string
	for _, s := range names {
		if len(s) > 6 && s[:6] == "stream" {
			streams = append(streams, s)
		}
	}
	via := streams[r.Intn(len(streams))]
	ra := m[via]()
	u := &cursor{in: input.NewInput(rd(b)), ra: ra}
	at := 0
	for len(u.ops) < nops {
		off := 0
		switch r.Intn(6) {
		case 0:
			off = r.Intn(n + 5)
		case 1:
			off = max(0, n+r.Intn(9)-6)
		case 2:
			off = max(0, 4096*r.Intn(2+n/4096)+r.Intn(7)-3)
		case 3:
			off = at + r.Intn(3)
		case 4:
			off = max(0, at-r.Intn(10))
		case 5:
			off = max(0, at-r.Intn(4200))
		}
		ln := r.Intn(10)
		switch r.Intn(30) {
		case 0:
			ln = 4096 + r.Intn(3) - 1
		case 1:
			ln = r.Intn(n + 10)
		case 2:
			ln = max(0, n-off)
		}
		u.do(step{"k": "read", "off": off, "len": ln, "direct": 1})
		at = off + ln
	}
	c.emitCursor(t, via, u)
}

func init() {
	properties["C08"] = func(c *ctx) []family {
		small := func(n, at int) []step {
			al := []step{{"k": "peek"}, {"k": "back"}, {"k": "reset"}}
			for k := 0; k <= n+1; k++ {
				al = append(al, step{"k": "seek", "n": k}, step{"k": "adv", "n": k})
			}
			return al
		}
		page := func(n, at int) []step {
			al := []step{{"k": "peek"}, {"k": "back"}}
			for _, k := range []int{0, 1, 2, 4095, 4096, 4097} {
				al = append(al, step{"k": "adv", "n": k})
			}
			for _, k := range []int{0, 1, 4094, 4095, 4096, 4097, n - 1, n} {
				al = append(al, step{"k": "seek", "n": k})
			}
			return al
		}
		var pages [][2]int
		for _, n := range []int{4095, 4096, 4097, 8191, 8192, 8193} {
			for _, at := range []int{0, 4095, 4096, n} {
				pages = append(pages, [2]int{n, at})
			}
		}
		const vias = 16
		tiny := [][2]int{{0, 0}, {1, 0}, {2, 0}, {3, 0}}
		return []family{
			cursorModel(c),
			{"enum", 4 * vias * 13, func(c *cx, i int) { cursorEnum(c, i, tiny, small, c.n(2, 4)) }},
			{"pages", len(pages) * vias * 16, func(c *cx, i int) { cursorEnum(c, i, pages, page, c.n(1, 2)) }},
			{"pages2", len(pages) * vias * c.n(1, 16), func(c *cx, i int) {
				// one way of delivery in the quick run, pairs of operations
				cursorEnum(c, i, pages, page, 2)
			}},
			{"short", c.n(1500, 30000), func(c *cx, i int) { cursorHistory(c, c.r.Intn(12), 40) }},
			{"page", c.n(1500, 30000), func(c *cx, i int) { cursorHistory(c, 4090+c.r.Intn(12), 50) }},
			{"long", c.n(1500, 30000), func(c *cx, i int) {
				cursorHistory(c, 4096*(1+c.r.Intn(4))+c.r.Intn(11)-5, 60)
			}},
			{"adapter", c.n(1500, 30000), func(c *cx, i int) {
				n := c.r.Intn(40)
				if i%2 == 0 {
					n = 4096*(c.r.Intn(4)) + c.r.Intn(40)
				}
				adapter(c, n, 30)
			}},
		}
	}
}

// scripted delivers a stream up to given places, one after the other.
type scripted struct {
	b    []byte
	at   int
	upto []int
	last []bool // the end is reported there, with the data
}

func (s *scripted) Read(p []byte) (int, error) {
	for len(s.upto) > 0 && s.upto[0] < s.at {
		s.upto, s.last = s.upto[1:], s.last[1:]
	}
	to, end := len(s.b), false
	if len(s.upto) > 0 {
		to, end = s.upto[0], s.last[0]
		s.upto, s.last = s.upto[1:], s.last[1:]
	}
	n := copy(p, s.b[s.at:to])
	s.at += n
	if s.at == len(s.b) && (end || n == 0) {
		return n, io.EOF
	}
	return n, nil
}

// cursorModel goes through histories of the specification: InputBufGen.tla
// prints one for every transition of the model. Its window has a few bytes;
// positions are stretched so that it has 4096.
func cursorModel(c *ctx) family {
	if auxDir == "" {
		return family{"model", 0, nil}
	}
	hists := readLines("cursor", "H ")
	n := len(hists)
	if q := 4000; !c.thorough && n > q {
		n = q
	}
	return family{"model", n, func(c *cx, i int) {
		k := i
		if n < len(hists) {
			k = (i*len(hists) + c.r.Intn(len(hists))) / n % len(hists)
		}
		var h struct {
			W     int
			Steps []struct {
				K       string
				N, G, E int
			}
		}
		if err := json.Unmarshal([]byte(hists[k]), &h); err != nil {
			fatalf("%v: %s", err, hists[k])
		}
		in := []int{0}
		for k := 1; k < h.W; k++ {
			in = append(in, []int{1, 4095, 2048, 2 + c.r.Intn(4090)}[c.r.Intn(4)])
		}
		sort.Ints(in)
		at := func(p int) int { return p/h.W*4096 + in[p%h.W] }
		t := randText(c.r, at(h.Steps[0].N))
		b := t.bytes()
		var ra io.ReaderAt = rd(b)
		via := "random access"
		if h.Steps[0].G >= 0 {
			via = "scripted stream"
			s := &scripted{b: b}
			for _, st := range h.Steps {
				s.upto = append(s.upto, at(st.G))
				s.last = append(s.last, st.E == 1)
			}
			ra = input.FromReader(s)
		}
		u := &cursor{in: input.NewInput(ra), ra: ra}
		p := 0
		for _, st := range h.Steps[1:] {
			switch st.K {
			case "seek":
				u.do(step{"k": "seek", "n": at(st.N)})
				p = st.N
			case "adv":
				// a failed skip may end elsewhere
				if u.in.Pos() != at(p) {
					u.do(step{"k": "adv", "n": st.N})
					break
				}
				u.do(step{"k": "adv", "n": at(p+st.N) - at(p)})
				if p+st.N <= h.Steps[0].N || u.in.Pos() == at(p+st.N) {
					p += st.N
				}
			default:
				u.do(step{"k": st.K})
			}
		}
		u.do(step{"k": "peek"})
		u.do(step{"k": "back"})
		u.do(step{"k": "adv", "n": 1})
		c.emitCursor(t, via, u)
	}}
}
