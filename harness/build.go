package main

import (
	"fmt"
	"math"
	"regexp/syntax"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/pattern"
)

// The error messages used by error nodes; the specification knows their index.
var messages = []string{"", "m1", "expected 'b'", "", "é\x00日本\n", "m1 ", "100% %s %d", "\"quoted\\\""}

func init() { messages[3] = "long" + fmt.Sprintf("%300d", 7) }

// message is the text of a message; 100 and more are as many as needed.
func message(n int) string {
	if n >= 100 {
		return fmt.Sprintf("message %d", n)
	}
	return messages[n]
}

func msgIndex(s string) int {
	for i, m := range messages {
		if m == s {
			return i
		}
	}
	n := 0
	if _, err := fmt.Sscanf(s, "message %d", &n); err == nil && n >= 100 && message(n) == s {
		return n
	}
	return -7
}

// call is one logged checker invocation.
type call struct {
	id, flag, start int
	b               []byte
}

// run-time state shared by the checkers of one built pattern.
type checkers struct {
	ref   *isa.BackReference
	ref2  *isa.BackReference // another table of symbols
	log   []call
	calls int
}

func (c *checkers) reset() {
	c.ref.Symbols = map[int]string{}
	if c.ref2 != nil {
		c.ref2.Symbols = map[int]string{}
	}
	c.log = nil
	c.calls = 0
}

// modChecker is a pure checker: it accepts texts whose length is q modulo m and
// then matches x more bytes. It logs what it is given.
type modChecker struct {
	st      *checkers
	m, q, x int
	ext     bool
	lg      bool
}

func (c *modChecker) Check(b []byte, src *input.Input, id, flag int) int {
	c.st.calls++
	if c.lg {
		c.st.log = append(c.st.log, call{id, flag, src.Pos() - len(b), append([]byte(nil), b...)})
	}
	if len(b)%c.m != c.q {
		return -1
	}
	if c.ext {
		if c.x > 0 {
			buf := make([]byte, c.x)
			n, _ := src.ReadAt(buf, int64(src.Pos()))
			if n < c.x {
				return -1
			}
		}
		return c.x
	}
	return 0
}

// builder turns a P into a pattern.Pattern.
type builder struct {
	p    *P
	st   *checkers
	done map[int]pattern.Pattern
	maps map[string]isa.MapChecker
	// share: use one Go object for every use of a node.
	share bool
	// nodes: build struct literals where the API would normalise
	nodes bool
	// nomemo: leave out memo nodes
	nomemo bool
	memos  int
	rel    map[int]int // ids of relMemo nodes
	relTop int
}

func toSet(rs [][2]int, style int) charset.Set {
	s := charset.New(nil)
	for i, r := range rs {
		if r[0] > r[1] {
			continue
		}
		switch (style + i) % 3 {
		case 0:
			s = s.Add(charset.Range(byte(r[0]), byte(r[1])))
		case 1:
			var l []byte
			for b := r[0]; b <= r[1]; b++ {
				l = append(l, byte(b))
			}
			s = s.Add(charset.New(l))
		case 2:
			s = charset.Range(byte(r[0]), byte(r[1])).Add(s)
		}
	}
	return s
}

func build(p *P, share bool) (pattern.Pattern, *checkers) {
	b := &builder{p: p, share: share, st: &checkers{ref: isa.NewBackRef()}, done: map[int]pattern.Pattern{}}
	return b.mk(p.Root), b.st
}

func buildNoMemo(p *P) (pattern.Pattern, *checkers) {
	b := &builder{p: p, share: false, nomemo: true, st: &checkers{ref: isa.NewBackRef()}, done: map[int]pattern.Pattern{}}
	return b.mk(p.Root), b.st
}

func (b *builder) mk(k int) pattern.Pattern {
	if b.share {
		if q, ok := b.done[k]; ok {
			return q
		}
	}
	q := b.mk1(k)
	b.done[k] = q
	return q
}

// flatten collects the operands of a left-nested seq (or right-nested alt).
func (b *builder) flatten(t string, k int) []pattern.Pattern {
	n := b.p.at(k)
	if n.T != t {
		return []pattern.Pattern{b.mk(k)}
	}
	if t == "seq" {
		return append(b.flatten(t, n.A), b.mk(n.B))
	}
	return append([]pattern.Pattern{b.mk(n.A)}, b.flatten(t, n.B)...)
}

// twice makes the pattern again from the same arguments, and changes the slice
// that held them afterwards.
func (b *builder) twice(f func(...pattern.Pattern) pattern.Pattern, ks []pattern.Pattern) pattern.Pattern {
	if !b.share {
		return f(ks...)
	}
	f(ks...)
	q := f(ks...)
	for i := range ks {
		ks[i] = pattern.Literal("\x00not this")
	}
	return q
}

func (b *builder) mk1(k int) pattern.Pattern {
	n := b.p.at(k)
	switch n.T {
	case "lit":
		return pattern.Literal(string(n.S))
	case "set":
		return pattern.Set(toSet(n.R, n.Hint))
	case "any":
		return pattern.Any(uint8(n.N))
	case "seq":
		return b.twice(pattern.Concat, b.flatten("seq", k))
	case "alt":
		return b.twice(pattern.Or, b.flatten("alt", k))
	case "star":
		return pattern.Star(b.mk(n.A))
	case "plus":
		return pattern.Plus(b.mk(n.A))
	case "opt":
		return pattern.Optional(b.mk(n.A))
	case "rep":
		return pattern.Repeat(b.mk(n.A), n.N)
	case "not":
		return pattern.Not(b.mk(n.A))
	case "and":
		return pattern.And(b.mk(n.A))
	case "cap":
		return pattern.Cap(b.mk(n.A), n.N)
	case "search":
		return pattern.Search(b.mk(n.A))
	case "memo":
		b.memos++
		if b.nomemo {
			return b.mk(n.A)
		}
		if n.MemoID == autoMemo {
			return pattern.Memo(b.mk(n.A))
		}
		x := b.mk(n.A)
		if n.MemoID == relMemo {
			return pattern.MemoId(x, b.relID(k))
		}
		return pattern.MemoId(x, n.MemoID)
	case "eop":
		return pattern.EmptyOp(syntax.EmptyOp(n.N))
	case "empty":
		if n.Hint%2 == 1 {
			return pattern.Literal("")
		}
		return pattern.Concat()
	case "nt":
		return pattern.NonTerm(n.Nm)
	case "gram":
		m := map[string]pattern.Pattern{}
		for _, d := range n.D {
			m[d.Nm] = b.mk(d.K)
		}
		if b.share { // the definitions may be used again
			pattern.Grammar(n.Nm, m)
		}
		return pattern.Grammar(n.Nm, m)
	case "err":
		if n.A == 0 {
			return pattern.Error(message(n.N), nil)
		}
		return pattern.Error(message(n.N), b.mk(n.A))
	case "chk":
		a := b.mk(n.A)
		switch n.K {
		case "map":
			if n.N == 0 && n.F == 0 {
				return pattern.Check(a, isa.NewMapChecker(n.SS))
			}
			return pattern.CheckFlags(a, isa.NewMapChecker(n.SS), n.N, n.F)
		case "mod", "ext":
			return pattern.CheckFlags(a, &modChecker{b.st, n.M, n.Q, n.X, n.K == "ext", n.Lg == 1}, n.N, n.F)
		case "def":
			return pattern.CheckFlags(a, b.ref(n.X), n.N, int(isa.RefDef))
		case "use":
			return pattern.CheckFlags(a, b.ref(n.X), n.N, int(isa.RefUse))
		case "blk":
			return pattern.CheckFlags(a, b.ref(n.X), n.N, int(isa.RefBlock))
		}
	}
	panic("build: unknown node " + n.T)
}

const autoMemo = 1 << 20

// relMemo stands for an explicit id above every automatic id so far. The first
// such pattern that is made gets the largest one, so that the automatic ids
// that follow must not descend into the explicit ones.
const relMemo = autoMemo + 1

// ref is the table of symbols with the given number.
func (b *builder) ref(x int) *isa.BackReference {
	if x == 0 {
		return b.st.ref
	}
	if b.st.ref2 == nil {
		b.st.ref2 = isa.NewBackRef()
	}
	return b.st.ref2
}

func (b *builder) relID(k int) int {
	if b.rel == nil {
		b.rel = map[int]int{}
	}
	if id, ok := b.rel[k]; ok {
		return id
	}
	if len(b.rel) == 0 {
		next := func() int { return pattern.Memo(pattern.Literal("")).(*pattern.MemoNode).Id }
		b.relTop = next() + 4
		for b.relTop > math.MaxInt16-300 && b.relTop <= math.MaxInt16+4 { // about to wrap around
			b.relTop = next() + 4
		}
		for _, n := range b.p.N {
			if n.T == "memo" && n.MemoID == relMemo {
				b.relTop++
			}
		}
	}
	id := b.relTop
	b.relTop--
	b.rel[k] = id
	return id
}
