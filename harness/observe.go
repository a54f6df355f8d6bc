package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"runtime/debug"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

// Text is a text in the specification's representation.
type Text struct {
	Pad int
	PB  byte
	T   []byte
}

func (t Text) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]interface{}{"pad": t.Pad, "pb": int(t.PB), "t": ints(t.T)})
}

func (t Text) bytes() []byte {
	b := bytes.Repeat([]byte{t.PB}, t.Pad)
	return append(b, t.T...)
}

func txt(s []byte) Text { return Text{T: s} }

// Cp is a capture: [id, start, len, kids].
type Cp struct {
	ID, Start, Len int
	Kids           []Cp
}

func (c Cp) MarshalJSON() ([]byte, error) {
	return json.Marshal([]interface{}{c.ID, c.Start, c.Len, caps(c.Kids)})
}

func caps(c []Cp) []Cp {
	if c == nil {
		return []Cp{}
	}
	return c
}

// Obs is the observed outcome of one parse.
type Obs struct {
	M   int
	P   int
	C   []Cp
	E   [][2]int
	L   []call
	X   string // a crash or an inconsistency of the result
	Via []string

	again func() *Obs // reads the tree again
}

func (o *Obs) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"m": o.M, "p": o.P, "c": caps(o.C), "x": o.X}
	e := o.E
	if e == nil {
		e = [][2]int{}
	}
	m["e"] = e
	l := make([]interface{}, 0)
	for _, c := range o.L {
		l = append(l, []interface{}{c.id, c.flag, c.start, ints(c.b)})
	}
	m["l"] = l
	if o.Via != nil {
		m["via"] = o.Via
	}
	return json.Marshal(m)
}

// key identifies the outcome regardless of how it was obtained.
func (o *Obs) key() string {
	via := o.Via
	o.Via = nil
	b, err := json.Marshal(o)
	o.Via = via
	if err != nil {
		panic(err)
	}
	return string(b)
}

// guard runs code under test and returns a description of its panic, if any.
func guard(f func()) (x string) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			st := string(debug.Stack())
			// keep the frames of the code under test
			var fr []string
			for _, l := range strings.Split(st, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "/repo/") {
					if i := strings.Index(l, " +0x"); i > 0 {
						l = l[:i]
					}
					fr = append(fr, l)
				}
			}
			if len(fr) > 4 {
				fr = fr[:4]
			}
			x = fmt.Sprintf("panic: %v %s", r, strings.Join(fr, " "))
			if len(x) > 600 {
				x = x[:600]
			}
		}
	}()
	f()
	return ""
}

type harnessError string

func fatalf(f string, a ...interface{}) { panic(harnessError(fmt.Sprintf(f, a...))) }

// tree reads a capture tree through every accessor.
func tree(c *memo.Capture, bad *string, depth int) []Cp {
	var out []Cp
	if c == nil {
		return nil
	}
	it := c.ChildIterator(0)
	n := 0
	for ch := it(); ch != nil; ch = it() {
		if ch.Dummy() {
			*bad = "the iterator yields a dummy"
		}
		if ch.End() != ch.Start()+ch.Len() {
			*bad = "End is not Start+Len"
		}
		if n < 8 || n%64 == 0 {
			if c.Child(n) != ch {
				*bad = fmt.Sprintf("Child(%d) is not what the iterator yields", n)
			}
		}
		out = append(out, Cp{ch.Id(), ch.Start(), ch.Len(), tree(ch, bad, depth+1)})
		n++
		if n > 1<<20 {
			*bad = "endless children"
			return out
		}
	}
	if c.NumChildren() != n {
		*bad = fmt.Sprintf("NumChildren %d, iterated %d", c.NumChildren(), n)
	}
	if c.Child(n) != nil || c.Child(n+1) != nil {
		*bad = "Child beyond the last child is not nil"
	}
	return out
}

func observe(ok bool, n int, capt *memo.Capture, errs []vm.ParseError, st *checkers, iv *vm.Interval) *Obs {
	o := &Obs{}
	if ok {
		o.M, o.P = 1, n
		if capt == nil {
			o.X = "match without a tree"
			return o
		}
		if !capt.Dummy() {
			o.X = "the root of the tree is not a dummy"
			return o
		}
		bad := ""
		o.C = tree(capt, &bad, 0)
		if first, past := capt.Start(), capt.End(); iv == nil && (first != 0 || past != n) {
			bad = fmt.Sprintf("the root spans [%d, %d), the parse ended at %d", first, past, n)
		} else if iv != nil {
			ok := first <= iv.Low && iv.High <= past
			for _, k := range o.C {
				ok = ok && first <= k.Start && k.Start+k.Len <= past
			}
			if !ok {
				bad = fmt.Sprintf("the root spans [%d, %d), which is not all of the interval and the captures", first, past)
			}
		}
		o.X = bad
		o.again = func() *Obs {
			var c *Obs
			if x := guard(func() { c = observe(ok, n, capt, errs, nil, iv) }); x != "" {
				return &Obs{X: x}
			}
			c.L = o.L
			return c
		}
	}
	for _, e := range errs {
		o.E = append(o.E, [2]int{e.Pos, msgIndex(e.Message)})
	}
	if st != nil {
		o.L = st.log
	}
	return o
}

// exec parses and observes the outcome.
func exec(code *vm.Code, st *checkers, r io.ReaderAt, tbl memo.Table) *Obs {
	var o *Obs
	if st != nil {
		st.reset()
	}
	x := guard(func() {
		ok, n, capt, errs := code.Exec(r, tbl)
		o = observe(ok, n, capt, errs, st, nil)
	})
	if x != "" {
		return &Obs{X: x}
	}
	return o
}

func execIv(code *vm.Code, st *checkers, r io.ReaderAt, tbl memo.Table, lo, hi int) *Obs {
	var o *Obs
	if st != nil {
		st.reset()
	}
	x := guard(func() {
		iv := &vm.Interval{Low: lo, High: hi}
		ok, n, capt, errs := code.ExecInterval(r, tbl, iv)
		o = observe(ok, n, capt, errs, st, &vm.Interval{Low: lo, High: hi})
	})
	if x != "" {
		return &Obs{X: x}
	}
	return o
}

// group merges identical outcomes, keeping how each was obtained.
type group struct {
	order []string
	m     map[string]*Obs
	n     int
}

func (g *group) add(via string, o *Obs) {
	if g.m == nil {
		g.m = map[string]*Obs{}
	}
	g.n++
	k := o.key()
	if e, ok := g.m[k]; ok {
		if len(e.Via) < 6 {
			e.Via = append(e.Via, via)
		}
		return
	}
	o.Via = []string{via}
	g.m[k] = o
	g.order = append(g.order, k)
}

func (g *group) list() []*Obs {
	r := make([]*Obs, 0, len(g.order))
	for _, k := range g.order {
		r = append(r, g.m[k])
	}
	return r
}
