package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math/rand"

	"github.com/zyedidia/gpeg/input/linerope"
)

// C09, C10: histories of operations on ropes.

type rope struct {
	n    *linerope.Node
	flat []byte // a rough copy, to choose arguments in range
	lost bool   // a separator has lain across leaves: see across
}

// heldBytes is a slice that later operations must not change.
type heldBytes struct {
	b, was []byte
	owner  map[int]bool // ids whose own edits may change it
	// whole is a value of a rope that has not been joined since: ropes split
	// off are other ropes
	whole bool
}

type ropes struct {
	c     *cx
	opts  linerope.Options
	sep   []byte
	live  map[int]*rope
	order []int
	next  int
	ops   []step
	held  []*heldBytes
	dead  bool
	judge bool // look also when a separator lies across leaves
	text  func(n int) []byte
	max   int
}

func newRopes(c *cx, opts linerope.Options, max int, alpha string) *ropes {
	w := &ropes{c: c, opts: opts, live: map[int]*rope{}, max: max, sep: opts.LineSep}
	w.text = func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			if alpha == "" {
				b[i] = byte(c.r.Intn(256))
			} else {
				b[i] = alpha[c.r.Intn(len(alpha))]
			}
		}
		return b
	}
	return w
}

func (w *ropes) do(o step, f func()) {
	if w.dead {
		return
	}
	if x := guard(f); x != "" {
		o = step{"k": "crash", "x": x, "op": o["k"], "args": o}
		w.dead = true
	}
	w.ops = append(w.ops, o)
}

func (w *ropes) add(n *linerope.Node, flat []byte) int {
	w.next++
	w.live[w.next] = &rope{n: n, flat: flat}
	w.order = append(w.order, w.next)
	w.look(w.next)
	return w.next
}

func (w *ropes) drop(id int) {
	delete(w.live, id)
	for k, x := range w.order {
		if x == id {
			w.order = append(w.order[:k:k], w.order[k+1:]...)
		}
	}
}

func (w *ropes) pick() int { return w.order[w.c.r.Intn(len(w.order))] }

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func (w *ropes) create(b []byte) {
	o := step{"k": "new", "b": ints(b)}
	w.do(o, func() {
		var n *linerope.Node
		in := append([]byte{}, b...)
		if w.c.r.Intn(3) == 0 {
			// a slice with room behind it
			room := append(in, w.text(7)...)
			in = room[:len(in)]
			w.held = append(w.held, &heldBytes{b: room[len(in):], was: append([]byte{}, room[len(in):]...)})
		}
		if w.opts.SplitLen == linerope.DefaultOptions.SplitLen && string(w.sep) == "\n" {
			n = linerope.New(in)
		} else {
			n = linerope.NewWithOpts(in, w.opts)
		}
		o["id"] = w.add(n, append([]byte{}, b...))
	})
}

func (w *ropes) insert(id, pos int, b []byte) {
	q := w.live[id]
	arg := append(make([]byte, 0, len(b)+w.c.r.Intn(5)), b...)
	w.do(step{"k": "ins", "id": id, "pos": pos, "b": ints(b)}, func() { q.n.Insert(pos, arg) })
	q.flat = cat(q.flat[:pos], b, q.flat[pos:])
	w.look(id)
	if len(b) > 0 && len(b) < 300 {
		w.held = append(w.held, &heldBytes{b: arg, was: append([]byte{}, b...)})
	}
}

func (w *ropes) remove(id, lo, hi int) {
	q := w.live[id]
	w.do(step{"k": "rem", "id": id, "lo": lo, "hi": hi}, func() { q.n.Remove(lo, hi) })
	q.flat = cat(q.flat[:lo], q.flat[hi:])
	w.look(id)
}

func (w *ropes) split(id, pos int) {
	q := w.live[id]
	o := step{"k": "split", "id": id, "pos": pos}
	w.do(o, func() {
		l, r := q.n.SplitAt(pos)
		w.drop(id)
		o["l"] = w.add(l, append([]byte{}, q.flat[:pos]...))
		o["r"] = w.add(r, append([]byte{}, q.flat[pos:]...))
		w.live[w.next].lost = w.live[w.next].lost || q.lost
		w.live[w.next-1].lost = w.live[w.next-1].lost || q.lost
		w.derive(id, false, o["l"].(int), o["r"].(int))
	})
}

// derive: what edits of a rope may change, edits of ropes made from it may, or
// they would not be the ropes they are made from.
func (w *ropes) derive(old int, joined bool, ids ...int) {
	for _, h := range w.held {
		if h.owner[old] && (joined || !h.whole) {
			h.whole = false
			for _, id := range ids {
				h.owner[id] = true
			}
		}
	}
}

func (w *ropes) join(ids []int) {
	o := step{"k": "join", "ids": ids}
	w.do(o, func() {
		var more []*linerope.Node
		var flat []byte
		lost := false
		for k, id := range ids {
			if k >= 2 {
				more = append(more, w.live[id].n)
			}
			flat = append(flat, w.live[id].flat...)
			lost = lost || w.live[id].lost
		}
		n := linerope.Join(w.live[ids[0]].n, w.live[ids[1]].n, more...)
		for _, id := range ids {
			w.drop(id)
		}
		id := w.add(n, flat)
		w.live[id].lost = w.live[id].lost || lost
		o["id"] = id
		for _, old := range ids {
			w.derive(old, true, id)
		}
	})
}

func (w *ropes) rebuild(id int) {
	w.do(step{"k": "rebuild", "id": id}, func() { w.live[id].n.Rebuild() })
	w.look(id)
}

func (w *ropes) rebalance(id int) {
	w.do(step{"k": "rebalance", "id": id}, func() { w.live[id].n.Rebalance() })
	w.look(id)
}

func (w *ropes) value(id int) {
	o := step{"k": "val", "id": id}
	w.do(o, func() {
		v := w.live[id].n.Value()
		o["res"] = ints(v)
		o["n"] = w.live[id].n.Len()
		if len(v) > 0 && len(v) < 200 && w.c.r.Intn(3) == 0 {
			w.held = append(w.held, &heldBytes{b: v, was: append([]byte{}, v...), owner: map[int]bool{id: true}, whole: true})
		}
	})
}

func (w *ropes) at(id, pos int) {
	o := step{"k": "at", "id": id, "pos": pos}
	w.do(o, func() { o["res"] = int(w.live[id].n.At(pos)) })
}

func (w *ropes) read(id, off, n int) {
	o := step{"k": "read", "id": id, "off": off, "len": n}
	w.do(o, func() {
		b := make([]byte, n)
		m, err := w.live[id].n.ReadAt(b, int64(off))
		o["res"] = ints(b[:m])
		o["err"] = ""
		if err != nil {
			o["err"] = err.Error()
		}
		if m > 0 && m < 100 {
			w.held = append(w.held, &heldBytes{b: b, was: append([]byte{}, b...)})
		}
	})
}

func (w *ropes) leaves(id, stop int) {
	o := step{"k": "leaves", "id": id, "stop": stop}
	w.do(o, func() {
		pieces := [][]int{}
		ret := w.live[id].n.EachLeaf(func(n *linerope.Node) bool {
			pieces = append(pieces, ints(n.Value()))
			return len(pieces) == stop
		})
		o["pieces"] = pieces
		o["ret"] = b2i(ret)
	})
}

func (w *ropes) each(id int) {
	o := step{"k": "each", "id": id}
	w.do(o, func() {
		leaf := map[*linerope.Node]bool{}
		w.live[id].n.EachLeaf(func(n *linerope.Node) bool {
			leaf[n] = true
			return false
		})
		var top, all []byte
		first := true
		w.live[id].n.Each(func(n *linerope.Node) {
			if first {
				top = n.Value()
				first = false
			}
			if leaf[n] {
				all = append(all, n.Value()...)
			}
		})
		o["top"] = ints(top)
		o["res"] = ints(all)
	})
}

type limited struct {
	b   []byte
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	n := len(p)
	if n > l.max-len(l.b) {
		n = l.max - len(l.b)
	}
	l.b = append(l.b, p[:n]...)
	if n < len(p) {
		return n, errors.New("full")
	}
	return n, nil
}

func (w *ropes) write(id, max int) {
	o := step{"k": "write", "id": id, "max": max}
	w.do(o, func() {
		l := &limited{max: max}
		n, err := w.live[id].n.WriteTo(l)
		o["res"] = ints(l.b)
		o["n"] = int(n)
		o["err"] = b2i(err != nil)
	})
}

// check that held slices are as they were when an edit of id begins or ends
func (w *ropes) checkHeld() {
	for _, h := range w.held {
		w.do(step{"k": "held", "was": ints(h.was), "now": ints(h.b)}, func() {})
	}
	w.held = nil
}

// edited forgets the slices that an edit of id may change.
func (w *ropes) edited(id int) {
	var keep []*heldBytes
	for _, h := range w.held {
		if h.owner[id] {
			w.do(step{"k": "held", "was": ints(h.was), "now": ints(h.b)}, func() {})
			continue
		}
		keep = append(keep, h)
	}
	w.held = keep
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (w *ropes) llen(id int) {
	if w.across(id) {
		return
	}
	o := step{"k": "llen", "id": id}
	w.do(o, func() {
		l, c := w.live[id].n.LLen()
		o["res"] = []int{l, c}
		o["n"] = w.live[id].n.NumLines()
	})
}

// where finds the line and column of every offset in the rough copy.
func (w *ropes) where(flat []byte) [][2]int {
	t := make([][2]int, len(flat)+1)
	for k := range flat {
		m := len(w.sep)
		if t[k][1]+1 >= m && bytes.Equal(flat[k+1-m:k+1], w.sep) {
			t[k+1] = [2]int{t[k][0] + 1, 0}
		} else {
			t[k+1] = [2]int{t[k][0], t[k][1] + 1}
		}
	}
	return t
}

// across says whether a separator lies partly in one leaf and partly in the
// next.  It is then not seen: a known finding, which a case of its own shows
// (family "across"); what else is wrong shows in the other ropes.
func (w *ropes) across(id int) bool {
	if len(w.sep) == 1 || w.dead || w.judge {
		return false
	}
	q := w.live[id]
	w.look(id)
	if q.lost {
		w.c.count("not looked at: separator across leaves", 1)
	} else {
		w.c.count("looked at with separators of several bytes", 1)
	}
	return q.lost
}

// look finds whether a separator lies across leaves.
func (w *ropes) look(id int) {
	q := w.live[id]
	if len(w.sep) == 1 || w.dead || q.lost {
		return
	}
	ends := map[int]bool{}
	pos := 0
	if x := guard(func() {
		q.n.EachLeaf(func(n *linerope.Node) bool {
			pos += n.Len()
			ends[pos] = true
			return false
		})
	}); x != "" {
		return
	}
	for k, lc := range w.where(q.flat) {
		if k > 0 && lc[1] == 0 {
			for j := 1; j < len(w.sep); j++ {
				if ends[k-j] {
					q.lost = true
				}
			}
		}
	}
}

func (w *ropes) table(id int) {
	q := w.live[id]
	if w.across(id) {
		return
	}
	o := step{"k": "table", "id": id}
	w.do(o, func() {
		t := w.where(q.flat)
		lc, offs := [][]int{}, []int{}
		for k := range t {
			l, c := q.n.LineColAt(k)
			lc = append(lc, []int{l, c})
			offs = append(offs, q.n.OffsetAt(t[k][0], t[k][1]))
		}
		o["lc"], o["offs"] = lc, offs
	})
}

// some asks about chosen offsets of a long text.
func (w *ropes) some(id, n int) {
	q := w.live[id]
	if w.across(id) {
		return
	}
	o := step{"k": "lc", "id": id}
	w.do(o, func() {
		t := w.where(q.flat)
		at, lc, offs := []int{}, [][]int{}, []int{}
		for len(at) < n {
			k := w.spot(id, 0)
			l, c := q.n.LineColAt(k)
			at = append(at, k)
			lc = append(lc, []int{l, c})
			offs = append(offs, q.n.OffsetAt(t[k][0], t[k][1]))
		}
		o["at"], o["lc"], o["offs"] = at, lc, offs
	})
}

func (w *ropes) slc(id, lo, hi int) {
	q := w.live[id]
	if w.across(id) {
		return
	}
	t := w.where(q.flat)
	o := step{"k": "slc", "id": id, "lo": lo, "hi": hi, "from": t[lo], "to": t[hi]}
	w.do(o, func() {
		b := q.n.SliceLC(t[lo][0], t[lo][1], t[hi][0], t[hi][1])
		o["res"] = ints(b)
		if len(b) > 0 && len(b) < 100 {
			w.held = append(w.held, &heldBytes{b: b, was: append([]byte{}, b...), owner: map[int]bool{id: true}})
		}
	})
}

// spot is an offset in range, often near a multiple of the split length, an
// end, or a separator.
func (w *ropes) spot(id, beyond int) int {
	r := w.c.r
	flat := w.live[id].flat
	n := len(flat)
	clamp := func(k int) int { return max(0, min(k, n-beyond)) }
	switch r.Intn(6) {
	case 0:
		return clamp(r.Intn(3))
	case 1:
		return clamp(n - r.Intn(3))
	case 2:
		s := w.opts.SplitLen
		return clamp(s*r.Intn(2+n/s) + r.Intn(3) - 1)
	case 3:
		k := clamp(r.Intn(n + 1))
		for k < n && !bytes.HasPrefix(flat[k:], w.sep) {
			k++
		}
		return clamp(k + r.Intn(3) - 1)
	}
	return clamp(r.Intn(n + 1))
}

// ropeHistory edits ropes and observes them.
func ropeHistory(c *cx, w *ropes, first, nops int, lines bool) {
	r := c.r
	big := w.max > 1000
	w.create(w.text(r.Intn(first + 1)))
	observe := func(id int) {
		q := w.live[id]
		if q == nil {
			return
		}
		if lines {
			w.llen(id)
			if big {
				w.some(id, 6)
			} else {
				w.table(id)
			}
			for k := 0; k < 3; k++ {
				lo, hi := w.spot(id, 0), w.spot(id, 0)
				if hi < lo && r.Intn(4) > 0 {
					lo, hi = hi, lo
				}
				if big && hi-lo > 50 {
					hi = lo + r.Intn(50)
				}
				w.slc(id, lo, hi)
			}
			return
		}
		if !big || r.Intn(6) == 0 {
			w.value(id)
		}
		switch r.Intn(8) {
		case 0, 1:
			if len(q.flat) > 0 {
				w.at(id, w.spot(id, 1))
			}
		case 2, 3, 4:
			off := w.spot(id, 0)
			if r.Intn(6) == 0 {
				off = len(q.flat) + r.Intn(3)
			}
			n := r.Intn(2 * w.opts.SplitLen)
			if r.Intn(3) == 0 {
				n = max(0, len(q.flat)-off+r.Intn(3)-1)
			}
			if big {
				n = min(n, 300)
			}
			w.read(id, off, n)
		case 5:
			if !big || r.Intn(4) == 0 {
				w.leaves(id, r.Intn(4))
			}
		case 6:
			if !big || r.Intn(4) == 0 {
				w.each(id)
			}
		case 7:
			m := len(q.flat) + 10
			if r.Intn(2) == 0 {
				m = w.spot(id, 0)
			}
			if !big || r.Intn(4) == 0 {
				w.write(id, m)
			}
		}
	}
	for k := 0; k < nops && !w.dead; k++ {
		id := w.pick()
		q := w.live[id]
		n := len(q.flat)
		switch r.Intn(12) {
		case 0, 1, 2, 3:
			m := r.Intn(4)
			if r.Intn(4) == 0 {
				m = r.Intn(3 * min(w.opts.SplitLen, 40))
			}
			if big && r.Intn(4) == 0 {
				m = r.Intn(w.opts.SplitLen)
			}
			if n+m > w.max {
				m = 0
			}
			w.edited(id)
			w.insert(id, w.spot(id, 0), w.text(m))
		case 4, 5, 6:
			lo := w.spot(id, 0)
			hi := lo + r.Intn(4)
			if r.Intn(3) == 0 {
				hi = w.spot(id, 0)
			}
			if hi < lo {
				lo, hi = hi, lo
			}
			w.edited(id)
			w.remove(id, lo, min(hi, n))
		case 7:
			if len(w.order) < 5 {
				if r.Intn(3) == 0 && !big && !lines {
					w.value(id)
				}
				w.split(id, w.spot(id, 0))
			}
		case 8:
			if len(w.order) >= 2 {
				ids := []int{}
				for _, k := range r.Perm(len(w.order))[:2+r.Intn(len(w.order)-1)] {
					ids = append(ids, w.order[k])
				}
				total := 0
				for _, id := range ids {
					total += len(w.live[id].flat)
				}
				w.join(ids)
			}
		case 9:
			w.rebuild(id)
		case 10:
			w.rebalance(id)
		case 11:
			if len(w.order) < 4 {
				w.create(w.text(r.Intn(first + 1)))
			}
		}
		observe(w.pick())
		if q := w.live[id]; q != nil && r.Intn(2) == 0 {
			observe(id)
		}
	}
	if !w.dead {
		for _, id := range append([]int{}, w.order...) {
			if lines {
				w.llen(id)
				if !big {
					w.table(id)
				} else {
					w.some(id, 20)
				}
			} else {
				w.value(id)
			}
		}
		w.checkHeld()
	}
	c.count("operations", len(w.ops))
	c.emit("Rope", map[string]interface{}{"sep": ints(w.sep), "ops": w.ops, "split": w.opts.SplitLen, "join": w.opts.JoinLen})
}

func smallOpts(r *rand.Rand, sep string) linerope.Options {
	o := linerope.Options{SplitLen: 1 + r.Intn(10), RebalanceRatio: []float64{0.5, 1, 1.2, 2, 10}[r.Intn(5)], LineSep: []byte(sep)}
	o.JoinLen = r.Intn(o.SplitLen + 1)
	switch r.Intn(8) {
	case 0:
		o.JoinLen = o.SplitLen + r.Intn(6)
	case 1:
		o.JoinLen = o.SplitLen / 2
	}
	return o
}

func ropeFamilies(c *ctx, lines bool) []family {
	var more []family
	alpha := func(r *rand.Rand) string {
		if lines || r.Intn(2) == 0 {
			return []string{"a\n", "ab\n\n", "abcdefgh\n", "\n", "ab"}[r.Intn(5)]
		}
		return ""
	}
	sep := func(r *rand.Rand) string {
		if r.Intn(5) == 0 {
			return "a"
		}
		return "\n"
	}
	// separators of several bytes, and what texts are made of then
	long := func(r *rand.Rand) (string, string) {
		x := [][2]string{{"\r\n", "a\r\n"}, {"\r\n", "abcdef\r\n\r\n"}, {"\r\n", "\r\n"}, {"\r\n", "\r\r\n"},
			{"abc", "abc"}, {"aab", "ab"}, {"\r\n", "abcdefghijklmnopqrstuvwxyz"}, {"abc", "abcxyzuvw"}}[r.Intn(8)]
		return x[0], x[1]
	}
	longs := func(c *cx, split, max, first, nops int) {
		s, alpha := long(c.r)
		o := smallOpts(c.r, s)
		if split > 0 {
			o.SplitLen = split + c.r.Intn(split)
			o.JoinLen = c.r.Intn(o.SplitLen)
		}
		w := newRopes(c, o, max, alpha)
		if c.r.Intn(2) == 0 { // mostly whole separators
			letters, every := w.text, []int{2, 4, 10, 20}[c.r.Intn(4)]
			w.text = func(n int) []byte {
				var b []byte
				for len(b) < n {
					if c.r.Intn(every) == 0 {
						b = append(b, s...)
					} else {
						b = append(b, letters(1)...)
					}
				}
				return b[:n]
			}
		}
		ropeHistory(c, w, first, nops, true)
	}
	if lines {
		more = []family{
			{"longsep", c.n(1500, 30000), func(c *cx, i int) { longs(c, 0, 60, 30, 20) }},
			{"longsep-wide", c.n(700, 15000), func(c *cx, i int) { longs(c, 10, 200, 100, 20) }},
			{"across", 1, func(c *cx, i int) {
				w := newRopes(c, linerope.Options{SplitLen: 2, JoinLen: 1, RebalanceRatio: 1.2, LineSep: []byte("\r\n")}, 10, "a")
				w.judge = true
				w.create([]byte("a\r\nb"))
				w.llen(1)
				c.emit("Rope", map[string]interface{}{"sep": ints(w.sep), "ops": w.ops, "split": 2, "join": 1})
			}},
		}
	}
	return append(more, []family{
		ropeModel(c, lines),
		{"small", c.n(2500, 50000), func(c *cx, i int) {
			w := newRopes(c, smallOpts(c.r, sep(c.r)), 60, alpha(c.r))
			ropeHistory(c, w, 30, 25, lines)
		}},
		{"tiny", c.n(2500, 50000), func(c *cx, i int) {
			w := newRopes(c, smallOpts(c.r, sep(c.r)), 14, alpha(c.r))
			ropeHistory(c, w, 6, 15, lines)
		}},
		{"deep", c.n(300, 6000), func(c *cx, i int) {
			o := smallOpts(c.r, "\n")
			o.SplitLen = 1 + c.r.Intn(3)
			o.JoinLen = c.r.Intn(2)
			w := newRopes(c, o, 150, alpha(c.r))
			ropeHistory(c, w, 100, 40, lines)
		}},
		{"pages", c.n(60, 1000), func(c *cx, i int) {
			o := linerope.DefaultOptions
			if i%3 == 1 {
				o.SplitLen, o.JoinLen = 1000, 300
			}
			w := newRopes(c, o, 20000, "abcdefghijklmnopqr\n")
			ropeHistory(c, w, 14000, 15, lines)
		}},
	}...)
}

// ropeModel goes through histories of the specification: RopeTreeGen.tla prints
// one for every transition of the model.
func ropeModel(c *ctx, lines bool) family {
	if auxDir == "" {
		return family{"model", 0, nil}
	}
	hists := readLines("ropes", "H ")
	n := len(hists)
	if q := 2500; !c.thorough && n > q {
		n = q
	}
	return family{"model", n, func(c *cx, i int) {
		k := i
		if n < len(hists) { // a sample, spread over all of them
			k = (i*len(hists) + c.r.Intn(len(hists))) / n % len(hists)
		}
		var h struct {
			S, J  int
			T     []int
			Steps []struct {
				K         string
				X, Lo, Hi int
				B         []int
			}
		}
		if err := json.Unmarshal([]byte(hists[k]), &h); err != nil {
			fatalf("%v: %s", err, hists[k])
		}
		// the model's letters are 97 and 10, of which separators are made
		sep := "\n"
		as := func(b []int) []byte { return bytesOf(b) }
		if lines {
			if c.r.Intn(3) == 0 {
				sep = "\r\n"
				as = func(b []int) []byte { return bytes.ReplaceAll(bytesOf(b), []byte{97}, []byte{'\r'}) }
			}
		}
		w := newRopes(c, linerope.Options{SplitLen: h.S, JoinLen: h.J, RebalanceRatio: 1.2, LineSep: []byte(sep)}, 14, "a\n")
		w.create(as(h.T))
		for _, st := range h.Steps {
			if w.dead {
				break
			}
			id := w.order[st.X-1]
			switch st.K {
			case "ins":
				w.insert(id, st.Lo, as(st.B))
			case "rem":
				w.remove(id, st.Lo, st.Hi)
			case "split":
				w.split(id, st.Lo)
			case "join":
				w.join([]int{id, w.order[2-st.X]})
			case "rebuild":
				w.rebuild(id)
			case "rebalance":
				w.rebalance(id)
			}
		}
		if !w.dead {
			for _, id := range append([]int{}, w.order...) {
				n := len(w.live[id].flat)
				if lines {
					w.llen(id)
					w.table(id)
					for lo := 0; lo <= n; lo++ {
						for hi := lo; hi <= n; hi++ {
							w.slc(id, lo, hi)
						}
					}
					continue
				}
				for lo := 0; lo <= n; lo++ {
					w.read(id, lo, c.r.Intn(n-lo+2))
				}
				w.write(id, c.r.Intn(n+2))
				w.leaves(id, c.r.Intn(3))
				w.each(id)
				w.value(id)
			}
			w.checkHeld()
		}
		c.count("operations", len(w.ops))
		c.emit("Rope", map[string]interface{}{"sep": ints(w.sep), "ops": w.ops, "split": h.S, "join": h.J})
	}}
}

var _ io.ReaderAt = (*linerope.Node)(nil)

func init() {
	properties["C09"] = func(c *ctx) []family { return ropeFamilies(c, false) }
	properties["C10"] = func(c *ctx) []family { return ropeFamilies(c, true) }
}
