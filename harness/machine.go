package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// C17: programs for the parsing machine, assembled by hand.

// VI is an instruction. L is a label while a program is being written and the
// index of an instruction (from 1) once it is finished.
type VI struct {
	O    string
	L    int
	B    int
	N    int
	ID   int
	R    [][2]int
	K    string // checker, or what a fill is made of
	SS   [][]byte
	M, Q int
	X    int
}

func (n VI) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"o": n.O}
	if n.L > 0 {
		m["l"] = n.L
	}
	switch n.O {
	case "char", "tchar", "tchar0":
		m["b"] = n.B
	case "set", "span", "tset", "tset0":
		r := n.R
		if r == nil {
			r = [][2]int{}
		}
		m["r"] = r
	case "any", "tany", "empty", "end", "error":
		m["n"] = n.N
	case "cbegin", "mopen", "topen", "tclose":
		m["id"] = n.ID
	case "clate", "cfull", "kbegin":
		m["id"], m["n"] = n.ID, n.N
	case "kend":
		m["k"], m["m"], m["q"], m["x"], m["lg"], m["n"], m["f"] = n.K, n.M, n.Q, n.X, 1, 0, 0
		ss := [][]int{}
		for _, s := range n.SS {
			ss = append(ss, ints(s))
		}
		m["ss"] = ss
	case "fill":
		m["k"], m["n"] = n.K, n.N
	}
	return json.Marshal(m)
}

// asm writes a program.
type asm struct {
	r      *rand.Rand
	g      *gen
	code   []VI
	at     map[int]int // label to the index of the instruction it is before
	labels int
	funcs  []int
	ids    []int
}

func newAsm(r *rand.Rand) *asm {
	return &asm{r: r, g: newGen(r), at: map[int]int{}, ids: []int{0, 1, 2, 7, -1, 32767, -32768}}
}

func (a *asm) label() int           { a.labels++; return a.labels }
func (a *asm) place(l int)          { a.at[l] = len(a.code) }
func (a *asm) emit(n VI)            { a.code = append(a.code, n) }
func (a *asm) op(o string)          { a.emit(VI{O: o}) }
func (a *asm) id() int              { return a.ids[a.r.Intn(len(a.ids))] }
func (a *asm) jump(o string, l int) { a.emit(VI{O: o, L: l}) }

func (a *asm) set() [][2]int {
	k := a.g.set()
	return a.g.p.at(k).R
}

func (a *asm) simple() {
	r := a.r
	switch r.Intn(14) {
	case 0, 1, 2, 3:
		a.emit(VI{O: "char", B: int(a.g.byte())})
	case 4, 5:
		a.emit(VI{O: "set", R: a.set()})
	case 6, 7:
		a.emit(VI{O: "any", N: []int{0, 1, 1, 1, 2, 3, 255}[r.Intn(7)]})
	case 8:
		a.emit(VI{O: "span", R: a.set()})
	case 9:
		a.emit(VI{O: "empty", N: 1 << r.Intn(6)})
	case 10:
		a.emit(VI{O: "error", N: r.Intn(len(messages))})
	case 11, 12:
		a.emit(VI{O: "cfull", N: r.Intn(3), ID: a.id()})
	case 13:
		a.emit(VI{O: "any", N: 1})
	}
}

// test is a head test: with a choice or without.
func (a *asm) test(l int, choice bool) {
	o := "0"
	if choice {
		o = ""
	}
	switch a.r.Intn(3) {
	case 0:
		a.emit(VI{O: "tchar" + o, B: int(a.g.byte()), L: l})
	case 1:
		a.emit(VI{O: "tset" + o, R: a.set(), L: l})
	case 2:
		if choice {
			a.emit(VI{O: "tany", N: []int{0, 1, 1, 2, 3, 255}[a.r.Intn(6)], L: l})
		} else {
			a.emit(VI{O: "tchar0", B: int(a.g.byte()), L: l})
		}
	}
}

func (a *asm) seq(size int) {
	for size > 0 {
		s := 1 + a.r.Intn(size)
		a.block(s)
		size -= s
	}
}

func (a *asm) block(size int) {
	r := a.r
	if size <= 1 {
		a.simple()
		return
	}
	size--
	switch r.Intn(18) {
	case 0, 1: // a choice
		l1, l2 := a.label(), a.label()
		a.jump("choice", l1)
		a.seq(1 + size/2)
		a.jump("commit", l2)
		a.place(l1)
		a.seq(1 + size/2)
		a.place(l2)
	case 2, 3: // a choice after a test
		l1, l2 := a.label(), a.label()
		a.test(l1, true)
		a.seq(1 + size/2)
		a.jump("commit", l2)
		a.place(l1)
		a.seq(size / 2)
		a.place(l2)
	case 4: // a test
		l1, l2 := a.label(), a.label()
		a.test(l1, false)
		a.seq(size / 2)
		a.jump("jump", l2)
		a.place(l1)
		a.seq(size / 2)
		a.place(l2)
	case 5, 6: // a loop
		l1, l2 := a.label(), a.label()
		if r.Intn(3) == 0 {
			// with a jump into its middle
			l3 := a.label()
			a.test(l2, true)
			if r.Intn(2) == 0 {
				a.jump("pcommit", l3)
				a.place(l1)
				a.simple()
				a.place(l3)
			} else {
				a.place(l1)
			}
		} else {
			a.jump("choice", l2)
			a.place(l1)
		}
		if r.Intn(3) > 0 {
			a.simple()
		}
		a.seq(size)
		a.jump("pcommit", l1)
		a.place(l2)
	case 7: // a loop that jumps
		l1, l2 := a.label(), a.label()
		a.place(l1)
		a.test(l2, false)
		a.seq(size / 2)
		a.jump("jump", l1)
		a.place(l2)
	case 8: // not
		l1 := a.label()
		if r.Intn(3) == 0 {
			a.test(l1, true)
		} else {
			a.jump("choice", l1)
		}
		a.seq(size)
		a.op("fail2")
		a.place(l1)
	case 9: // and
		l1, l2 := a.label(), a.label()
		a.jump("choice", l1)
		a.seq(size)
		a.jump("bcommit", l2)
		a.place(l1)
		if r.Intn(2) == 0 {
			a.op("fail")
		} else {
			a.simple()
		}
		a.place(l2)
	case 10, 11: // a capture
		if r.Intn(2) == 0 {
			a.emit(VI{O: "cbegin", ID: a.id()})
		} else {
			a.emit(VI{O: "clate", ID: a.id(), N: r.Intn(3)})
		}
		a.seq(size)
		a.op("cend")
	case 12: // a checker
		n := VI{O: "kend", K: []string{"map", "mod", "ext", "ref"}[r.Intn(4)], M: 1 + r.Intn(3), X: r.Intn(3)}
		n.Q = r.Intn(n.M)
		if n.K == "map" {
			for i := r.Intn(4); i >= 0; i-- {
				n.SS = append(n.SS, []byte(a.g.str(r.Intn(4))))
			}
		}
		flag := []int{0, 1, 2, 3, -1, 32767, -32768}[r.Intn(7)]
		if n.K == "ref" {
			flag = r.Intn(3)
		}
		a.emit(VI{O: "kbegin", ID: a.id(), N: flag})
		a.seq(size)
		a.emit(n)
	case 13, 14: // memoized
		l := a.label()
		a.emit(VI{O: "mopen", L: l, ID: a.id()})
		a.seq(size)
		a.op("mclose")
		a.place(l)
	case 15: // a memoized repetition
		l1, l2, l3, end := a.label(), a.label(), a.label(), a.label()
		id := a.id()
		a.place(l1)
		a.emit(VI{O: "topen", L: l3, ID: id})
		a.jump("choice", l2)
		a.simple()
		a.seq(size / 2)
		a.jump("commit", end)
		a.place(end)
		a.op("tinsert")
		a.place(l3)
		a.op("tree")
		a.jump("jump", l1)
		a.place(l2)
		a.emit(VI{O: "tclose", ID: id})
	case 16: // a call
		if len(a.funcs) > 0 && r.Intn(2) == 0 {
			a.jump("call", a.funcs[r.Intn(len(a.funcs))])
			return
		}
		f, after := a.label(), a.label()
		a.jump("jump", after)
		a.place(f)
		a.seq(size)
		a.op("ret")
		a.place(after)
		a.jump("call", f)
		a.funcs = append(a.funcs, f)
	case 17:
		switch r.Intn(4) {
		case 0:
			a.op("fail")
		case 1:
			a.emit(VI{O: "end", N: r.Intn(2)})
		case 2: // jump over something
			l := a.label()
			a.jump("jump", l)
			a.seq(size)
			a.place(l)
		case 3:
			a.simple()
		}
	}
}

// finish resolves labels and changes some instructions.
func (a *asm) finish(changes int) []VI {
	r := a.r
	p := a.code
	n := len(p)
	for i := range p {
		if p[i].L > 0 {
			p[i].L = a.at[p[i].L] + 1
		}
	}
	for ; changes > 0 && n > 1; changes-- {
		i, j := r.Intn(n), r.Intn(n)
		switch r.Intn(5) {
		case 0:
			p[i], p[j] = p[j], p[i]
		case 1:
			p[i] = p[j]
		case 2:
			if p[i].L > 0 {
				p[i].L = 1 + r.Intn(n+1)
			}
		case 3:
			k := len(a.code)
			a.simple()
			p[i] = a.code[k]
			a.code = a.code[:k]
		case 4:
			if p[i].L > 0 {
				ops := []string{"jump", "choice", "call", "commit", "pcommit", "bcommit"}
				p[i] = VI{O: ops[r.Intn(len(ops))], L: p[i].L}
			} else {
				p[i] = VI{O: []string{"ret", "fail", "fail2", "cend", "mclose"}[r.Intn(5)]}
			}
		}
	}
	return p
}

// assemble makes a program of the instructions.
func assemble(p []VI, st *checkers, r *rand.Rand) isa.Program {
	var out isa.Program
	target := map[int]bool{}
	for _, n := range p {
		if n.L > 0 {
			target[n.L] = true
		}
	}
	lbl := map[int]isa.Label{}
	for i := range target {
		lbl[i] = isa.NewLabel()
	}
	checker := map[int]isa.Checker{}
	fills := 0
	for i := 0; i <= len(p); i++ {
		if target[i+1] {
			if r.Intn(6) == 0 {
				out = append(out, isa.NewLabel())
			}
			out = append(out, lbl[i+1])
		}
		if r.Intn(10) == 0 {
			out = append(out, isa.Nop{})
		}
		if i == len(p) {
			break
		}
		n := p[i]
		l := lbl[n.L]
		var x isa.Insn
		switch n.O {
		case "char":
			x = isa.Char{Byte: byte(n.B)}
		case "set":
			x = isa.Set{Chars: toSet(n.R, i)}
		case "any":
			x = isa.Any{N: byte(n.N)}
		case "span":
			x = isa.Span{Chars: toSet(n.R, i)}
		case "jump":
			x = isa.Jump{Lbl: l}
		case "choice":
			x = isa.Choice{Lbl: l}
		case "call":
			x = isa.Call{Lbl: l}
		case "ret":
			x = isa.Return{}
		case "commit":
			x = isa.Commit{Lbl: l}
		case "pcommit":
			x = isa.PartialCommit{Lbl: l}
		case "bcommit":
			x = isa.BackCommit{Lbl: l}
		case "fail":
			x = isa.Fail{}
		case "fail2":
			x = isa.FailTwice{}
		case "empty":
			x = isa.Empty{Op: syntax.EmptyOp(n.N)}
		case "tchar":
			x = isa.TestChar{Byte: byte(n.B), Lbl: l}
		case "tchar0":
			x = isa.TestCharNoChoice{Byte: byte(n.B), Lbl: l}
		case "tset":
			x = isa.TestSet{Chars: toSet(n.R, i), Lbl: l}
		case "tset0":
			x = isa.TestSetNoChoice{Chars: toSet(n.R, i), Lbl: l}
		case "tany":
			x = isa.TestAny{N: byte(n.N), Lbl: l}
		case "end":
			x = isa.End{Fail: n.N == 1}
		case "cbegin":
			x = isa.CaptureBegin{Id: n.ID}
		case "clate":
			x = isa.CaptureLate{Back: byte(n.N), Id: n.ID}
		case "cfull":
			x = isa.CaptureFull{Back: byte(n.N), Id: n.ID}
		case "cend":
			x = isa.CaptureEnd{Id: n.ID}
		case "kbegin":
			x = isa.CheckBegin{Id: n.ID, Flag: n.N}
		case "kend":
			switch n.K {
			case "map":
				var ss []string
				for _, s := range n.SS {
					ss = append(ss, string(s))
				}
				x = isa.CheckEnd{Checker: isa.NewMapChecker(ss)}
			case "ref":
				x = isa.CheckEnd{Checker: st.ref}
			default:
				// one checker may be used in several places
				h := n.M*100 + n.Q*10 + n.X
				if n.K == "mod" {
					h = -h
				}
				if checker[h] == nil || r.Intn(2) == 0 {
					checker[h] = &modChecker{st, n.M, n.Q, n.X, n.K == "ext", true}
				}
				x = isa.CheckEnd{Checker: checker[h]}
			}
		case "mopen":
			x = isa.MemoOpen{Lbl: l, Id: n.ID}
		case "mclose":
			x = isa.MemoClose{}
		case "topen":
			x = isa.MemoTreeOpen{Lbl: l, Id: n.ID}
		case "tinsert":
			x = isa.MemoTreeInsert{}
		case "tree":
			x = isa.MemoTree{}
		case "tclose":
			x = isa.MemoTreeClose{Id: n.ID}
		case "error":
			x = isa.Error{Message: messages[n.N]}
		case "fill":
			for k := 0; k < n.N; k++ {
				fills++
				switch n.K {
				case "fail":
					out = append(out, isa.Fail{})
				case "jump":
					out = append(out, isa.Jump{Lbl: lbl[p[0].L]})
				case "set":
					out = append(out, isa.Set{Chars: manySet(fills)})
				case "error":
					out = append(out, isa.Error{Message: fmt.Sprintf("message %d", fills)})
				case "kend":
					out = append(out, isa.CheckEnd{Checker: isa.NewMapChecker([]string{"no", fmt.Sprint("c", fills)})})
				}
			}
			continue
		default:
			fatalf("no instruction %s", n.O)
		}
		out = append(out, x)
	}
	return out
}

// manySet yields different sets with at least four members.
func manySet(k int) charset.Set {
	var s [4]uint64
	s[0] = uint64(k)
	s[1] = 0xf
	s[3] = ^uint64(0)
	return charset.Set{Bits: s}
}

// mapTable keeps the latest result for every id and position.
type mapTable struct {
	m map[[2]int]*memo.Entry
	o map[[2]int]tbEntry
}

type tbEntry struct {
	id, pos, length, count int
	c                      []Cp
}

func (e tbEntry) MarshalJSON() ([]byte, error) {
	return json.Marshal([]interface{}{e.id, e.pos, e.length, e.count, caps(e.c)})
}

func newMapTable() *mapTable {
	return &mapTable{map[[2]int]*memo.Entry{}, map[[2]int]tbEntry{}}
}

func (t *mapTable) Get(id, pos int) (*memo.Entry, bool) {
	e, ok := t.m[[2]int{id, pos}]
	return e, ok
}

func (t *mapTable) Put(id, start, length, examined, count int, cs []*memo.Capture) {
	if length == 0 {
		return
	}
	bad := ""
	o := tbEntry{id, start, length, count, nil}
	o.c = tree(memo.NewCaptureDummy(start, length, cs), &bad, 0)
	one := memo.NewTreeTable(0)
	one.Put(id, start, length, max(examined, 1), count, cs)
	e, ok := one.Get(id, start)
	if !ok {
		fatalf("an empty table does not keep %v", o)
	}
	t.m[[2]int{id, start}] = e
	t.o[[2]int{id, start}] = o
}

func (t *mapTable) ApplyEdit(memo.Edit)      {}
func (t *mapTable) AllValues() []*memo.Entry { return nil }
func (t *mapTable) Size() int                { return len(t.m) }

func (t *mapTable) contents() []tbEntry {
	out := []tbEntry{}
	for _, e := range t.o {
		out = append(out, e)
	}
	return out
}

// sim is a rough copy of the machine, to tell which programs and texts mean
// something and end.
type sim struct {
	p     []VI
	t     []byte
	tb    map[[2]int][2]int
	stack []simEntry
	pos   int
	ip    int
	nerr  int
	sym   map[int]string
}

type simEntry struct {
	k                   string
	ip, pos, id, n, err int
}

func (s *sim) put(e simEntry, length, n int) {
	if s.nerr == e.err && length != 0 {
		s.tb[[2]int{e.id, e.pos}] = [2]int{length, n}
	}
}

func (s *sim) fail() bool {
	for len(s.stack) > 0 {
		e := s.pop()
		if e.k == "bt" {
			s.ip, s.pos = e.ip, e.pos
			return true
		}
		if e.k == "memo" {
			s.put(e, -1, 0)
		}
	}
	return false
}

func (s *sim) pop() simEntry {
	e := s.stack[len(s.stack)-1]
	s.stack = s.stack[:len(s.stack)-1]
	return e
}

func (s *sim) push(k string, ip, pos, id, n int) {
	s.stack = append(s.stack, simEntry{k, ip, pos, id, n, s.nerr})
}

func (s *sim) top(k string) bool {
	return len(s.stack) > 0 && s.stack[len(s.stack)-1].k == k
}

// run says whether the program ends as it should.
func (s *sim) run(limit int) bool {
	s.stack, s.pos, s.ip, s.nerr, s.sym = nil, 0, 1, 0, map[int]string{}
	in := func(n VI) bool {
		if s.pos >= len(s.t) {
			return false
		}
		b := int(s.t[s.pos])
		if n.O == "char" || n.O == "tchar" || n.O == "tchar0" {
			return b == n.B
		}
		for _, x := range n.R {
			if x[0] <= b && b <= x[1] {
				return true
			}
		}
		return false
	}
	for ; limit > 0; limit-- {
		if s.ip > len(s.p) {
			return true
		}
		if len(s.stack) > 400 {
			return false
		}
		n := s.p[s.ip-1]
		ok := true
		s.ip++
		switch n.O {
		case "char", "set":
			if ok = in(n); ok {
				s.pos++
			}
		case "any":
			if ok = s.pos+n.N <= len(s.t); ok {
				s.pos += n.N
			}
		case "span":
			for in(n) {
				s.pos++
			}
		case "jump":
			s.ip = n.L
		case "choice":
			s.push("bt", n.L, s.pos, 0, 0)
		case "call":
			s.push("ret", s.ip, 0, 0, 0)
			s.ip = n.L
		case "ret":
			if !s.top("ret") {
				return false
			}
			s.ip = s.pop().ip
		case "commit":
			if len(s.stack) == 0 {
				return false
			}
			s.pop()
			s.ip = n.L
		case "pcommit":
			if !s.top("bt") {
				return false
			}
			s.stack[len(s.stack)-1].pos = s.pos
			s.ip = n.L
		case "bcommit":
			if !s.top("bt") {
				return false
			}
			s.pos = s.pop().pos
			s.ip = n.L
		case "fail", "fill":
			ok = false
		case "fail2":
			if len(s.stack) == 0 {
				return false
			}
			s.pop()
			ok = false
		case "empty":
			b, a := rune(-1), rune(-1)
			if s.pos > 0 {
				b = rune(s.t[s.pos-1])
			}
			if s.pos < len(s.t) {
				a = rune(s.t[s.pos])
			}
			ok = syntax.EmptyOpContext(b, a)&syntax.EmptyOp(n.N) != 0
		case "tchar", "tset", "tchar0", "tset0":
			if in(n) {
				if n.O == "tchar" || n.O == "tset" {
					s.push("bt", n.L, s.pos, 0, 0)
				}
				s.pos++
			} else {
				s.ip = n.L
			}
		case "tany":
			if s.pos+n.N <= len(s.t) {
				s.push("bt", n.L, s.pos, 0, 0)
				s.pos += n.N
			} else {
				s.ip = n.L
			}
		case "end":
			return true
		case "cbegin":
			s.push("cap", 0, s.pos, 0, 0)
		case "clate", "cfull":
			if n.N > s.pos {
				return false
			}
			if n.O == "clate" {
				s.push("cap", 0, s.pos, 0, 0)
			}
		case "cend":
			if !s.top("cap") {
				return false
			}
			s.pop()
		case "kbegin":
			s.push("chk", 0, s.pos, n.ID, n.N)
		case "kend":
			if !s.top("chk") {
				return false
			}
			e := s.pop()
			w := string(s.t[min(e.pos, s.pos):s.pos])
			if e.pos > s.pos {
				return false
			}
			switch n.K {
			case "map":
				ok = false
				for _, x := range n.SS {
					ok = ok || string(x) == w
				}
			case "mod", "ext":
				ok = len(w)%n.M == n.Q
				if ok && n.K == "ext" {
					if ok = s.pos+n.X <= len(s.t); ok {
						s.pos += n.X
					}
				}
			case "ref":
				if e.n == 0 {
					s.sym[e.id] = w
				} else if e.n == 1 {
					v := s.sym[e.id]
					if ok = s.pos+len(v) <= len(s.t) && string(s.t[s.pos:s.pos+len(v)]) == v; ok {
						s.pos += len(v)
					}
				}
			}
		case "error":
			s.nerr++
		case "mopen", "topen":
			f, hit := s.tb[[2]int{n.ID, s.pos}]
			switch {
			case hit && f[0] == -1:
				ok = false
			case n.O == "mopen" && hit:
				s.pos += f[0]
				s.ip = n.L
			case n.O == "mopen":
				s.push("memo", 0, s.pos, n.ID, 0)
			default:
				s.push("tree", 0, s.pos, n.ID, f[1])
				if hit {
					s.pos += f[0]
					s.ip = n.L
				}
			}
		case "mclose":
			if !s.top("memo") {
				return false
			}
			e := s.pop()
			if s.pos < e.pos {
				return false
			}
			s.put(e, s.pos-e.pos, 1)
		case "tinsert":
			if !s.top("tree") {
				return false
			}
			e := &s.stack[len(s.stack)-1]
			if s.pos < e.pos {
				return false
			}
			e.n++
			s.put(*e, s.pos-e.pos, e.n)
		case "tree":
			for k, acc := len(s.stack)-1, 0; k > 0 && s.stack[k].k == "tree" && s.stack[k-1].k == "tree"; k-- {
				acc += s.stack[k].n
				if acc < s.stack[k-1].n {
					continue
				}
				s.stack[k-1].n += acc
				s.stack = s.stack[:k]
				e := s.stack[k-1]
				if s.pos < e.pos {
					return false
				}
				s.put(e, s.pos-e.pos, e.n)
				k, acc = len(s.stack), 0
			}
		case "tclose":
			for s.top("tree") && s.stack[len(s.stack)-1].id == n.ID {
				s.pop()
			}
		default:
			fatalf("no instruction %s", n.O)
		}
		if s.pos > len(s.t) {
			return false // a result for another text
		}
		if !ok && !s.fail() {
			return true
		}
	}
	return false
}

// encode encodes a program; enc says what became of it.
func encodeProg(prog isa.Program) (code vm.Code, enc string) {
	enc = "ok"
	func() {
		defer func() {
			if r := recover(); r != nil {
				if he, ok := r.(harnessError); ok {
					panic(he)
				}
				// a refusal says what is out of range, a crash is a run-time error
				if e, ok := r.(error); ok {
					enc = "crash: " + e.Error()
				} else {
					enc = "refused"
				}
			}
		}()
		code = vm.Encode(prog)
	}()
	return
}

// machine runs a program on texts; at least one text must mean something.
func (c *cx) machine(p []VI, texts [][]byte, st *checkers, prog isa.Program) bool {
	var ts []Text
	for _, t := range texts {
		ts = append(ts, txt(t))
	}
	return c.machineOn(p, ts, st, prog)
}

func (c *cx) machineOn(p []VI, texts []Text, st *checkers, prog isa.Program) bool {
	rec := map[string]interface{}{"P": p}
	if p == nil {
		rec["P"] = []VI{}
	}
	var code vm.Code
	encoded := ""
	runs := []map[string]interface{}{}
	for _, t := range texts {
		b := t.bytes()
		s := &sim{p: p, t: b, tb: map[[2]int][2]int{}}
		tbl := newMapTable()
		for k := 0; k < 2; k++ {
			if !s.run(3000) {
				c.count("programs that mean nothing for a text", 1)
				break
			}
			if encoded == "" {
				code, encoded = encodeProg(prog)
			}
			if encoded != "ok" {
				break
			}
			o := exec(&code, st, rd(b), tbl)
			m := map[string]interface{}{"m": o.M, "p": o.P, "c": caps(o.C), "x": o.X, "e": o.E, "tb": tbl.contents()}
			if o.E == nil {
				m["e"] = [][2]int{}
			}
			l := make([]interface{}, 0)
			for _, x := range o.L {
				l = append(l, []interface{}{x.id, x.flag, x.start, ints(x.b)})
			}
			m["l"] = l
			runs = append(runs, map[string]interface{}{"T": t, "keep": k, "o": m})
			c.count("runs", 1)
			if o.X != "" || len(tbl.m) == 0 {
				break
			}
		}
	}
	if encoded == "" {
		return false
	}
	rec["enc"] = encoded
	rec["runs"] = runs
	rec["size"] = -1
	guard(func() {
		if len(prog) < 1000 {
			_ = prog.String()
		}
		rec["size"] = prog.Size()
	})
	c.count("programs", 1)
	c.emit("VMTrace", rec)
	return true
}

func machineTexts(a *asm, n int) [][]byte {
	ts := [][]byte{nil}
	for len(ts) < n {
		ts = append(ts, []byte(a.g.str(1+a.r.Intn(8))))
	}
	return ts
}

// assembled writes programs until enough mean something.
func assembled(c *cx, size, changes int) {
	for try := 0; try < 30; try++ {
		a := newAsm(c.r)
		if c.r.Intn(3) == 0 {
			a.ids = a.ids[:1+c.r.Intn(2)] // ids collide
		}
		a.seq(1 + c.r.Intn(size))
		p := a.finish(c.r.Intn(changes + 1))
		st := &checkers{ref: isa.NewBackRef()}
		if c.machine(p, machineTexts(a, 6), st, assemble(p, st, c.r)) {
			return
		}
	}
}

// disassemble is the program of a compiled pattern.
func disassemble(prog isa.Program, st *checkers) ([]VI, bool) {
	at := map[isa.Label]int{}
	n := 0
	for _, x := range prog {
		switch t := x.(type) {
		case isa.Label:
			at[t] = n + 1
		case isa.Nop:
		default:
			n++
		}
	}
	ranges := func(has func(byte) bool) [][2]int {
		rs := [][2]int{}
		for b := 0; b < 256; b++ {
			if !has(byte(b)) {
				continue
			}
			if k := len(rs); k > 0 && rs[k-1][1] == b-1 {
				rs[k-1][1] = b
			} else {
				rs = append(rs, [2]int{b, b})
			}
		}
		return rs
	}
	var p []VI
	for _, x := range prog {
		var v VI
		switch t := x.(type) {
		case isa.Label, isa.Nop:
			continue
		case isa.Char:
			v = VI{O: "char", B: int(t.Byte)}
		case isa.Jump:
			v = VI{O: "jump", L: at[t.Lbl]}
		case isa.Choice:
			v = VI{O: "choice", L: at[t.Lbl]}
		case isa.Call:
			v = VI{O: "call", L: at[t.Lbl]}
		case isa.Commit:
			v = VI{O: "commit", L: at[t.Lbl]}
		case isa.Return:
			v = VI{O: "ret"}
		case isa.Fail:
			v = VI{O: "fail"}
		case isa.Set:
			v = VI{O: "set", R: ranges(t.Chars.Has)}
		case isa.Any:
			v = VI{O: "any", N: int(t.N)}
		case isa.PartialCommit:
			v = VI{O: "pcommit", L: at[t.Lbl]}
		case isa.Span:
			v = VI{O: "span", R: ranges(t.Chars.Has)}
		case isa.BackCommit:
			v = VI{O: "bcommit", L: at[t.Lbl]}
		case isa.FailTwice:
			v = VI{O: "fail2"}
		case isa.Empty:
			v = VI{O: "empty", N: int(t.Op)}
		case isa.TestChar:
			v = VI{O: "tchar", B: int(t.Byte), L: at[t.Lbl]}
		case isa.TestCharNoChoice:
			v = VI{O: "tchar0", B: int(t.Byte), L: at[t.Lbl]}
		case isa.TestSet:
			v = VI{O: "tset", R: ranges(t.Chars.Has), L: at[t.Lbl]}
		case isa.TestSetNoChoice:
			v = VI{O: "tset0", R: ranges(t.Chars.Has), L: at[t.Lbl]}
		case isa.TestAny:
			v = VI{O: "tany", N: int(t.N), L: at[t.Lbl]}
		case isa.End:
			v = VI{O: "end", N: b2i(t.Fail)}
		case isa.CaptureBegin:
			v = VI{O: "cbegin", ID: t.Id}
		case isa.CaptureLate:
			v = VI{O: "clate", ID: t.Id, N: int(t.Back)}
		case isa.CaptureFull:
			v = VI{O: "cfull", ID: t.Id, N: int(t.Back)}
		case isa.CaptureEnd:
			v = VI{O: "cend"}
		case isa.CheckBegin:
			v = VI{O: "kbegin", ID: t.Id, N: t.Flag}
		case isa.CheckEnd:
			switch k := t.Checker.(type) {
			case *modChecker:
				v = VI{O: "kend", K: "mod", M: k.m, Q: k.q, X: k.x}
				if k.ext {
					v.K = "ext"
				}
				k.lg = true
			case *isa.BackReference:
				v = VI{O: "kend", K: "ref", M: 1}
			case isa.MapChecker:
				v = VI{O: "kend", K: "map", M: 1}
				for s := range k {
					v.SS = append(v.SS, []byte(s))
				}
			default:
				return nil, false
			}
		case isa.MemoOpen:
			v = VI{O: "mopen", L: at[t.Lbl], ID: t.Id}
		case isa.MemoClose:
			v = VI{O: "mclose"}
		case isa.MemoTreeOpen:
			v = VI{O: "topen", L: at[t.Lbl], ID: t.Id}
		case isa.MemoTreeInsert:
			v = VI{O: "tinsert"}
		case isa.MemoTree:
			v = VI{O: "tree"}
		case isa.MemoTreeClose:
			v = VI{O: "tclose", ID: t.Id}
		case isa.Error:
			v = VI{O: "error", N: msgIndex(t.Message)}
		default:
			return nil, false
		}
		p = append(p, v)
	}
	return p, true
}

// compiled runs what the compiler makes of patterns.
func compiledProgs(c *cx, size int) {
	g := newGen(c.r)
	g.memo, g.errs, g.chks, g.refs = c.r.Intn(2) == 0, c.r.Intn(3) == 0, c.r.Intn(3) == 0, c.r.Intn(4) == 0
	p := g.patt(1 + c.r.Intn(size))
	q, st := build(p, c.r.Intn(2) == 0)
	var prog isa.Program
	var err error
	if x := guard(func() { prog, err = pattern.Compile(q) }); x != "" || err != nil {
		return
	}
	vis, ok := disassemble(prog, st)
	if !ok || len(vis) > 400 {
		return
	}
	c.machine(vis, g.texts(p, 6, 14), st, prog)
}

// operands takes one operand to an extreme, or beyond.
func operands(c *cx, i int) {
	r := c.r
	a := newAsm(r)
	values := []int{0, 1, -1, 127, 128, 255, 256, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 1 << 20, 1<<31 - 1, -32767, -32768, -32769, -65535,
		-65536, -65537, -1 << 31}
	v := values[i/8%len(values)]
	l := a.label()
	ch := VI{O: "char", B: 'a'}
	switch i % 8 {
	case 0:
		a.emit(VI{O: "cbegin", ID: v})
		a.emit(ch)
		a.op("cend")
	case 1:
		a.emit(ch)
		a.emit(VI{O: "clate", ID: v, N: 1})
		a.emit(VI{O: "cbegin", ID: 3})
		a.op("cend")
		a.op("cend")
	case 2:
		a.emit(ch)
		a.emit(VI{O: "cfull", ID: v, N: 1})
	case 3:
		a.emit(VI{O: "mopen", L: l, ID: v})
		a.emit(VI{O: "cbegin", ID: 3})
		a.emit(ch)
		a.op("cend")
		a.op("mclose")
		a.place(l)
	case 4:
		end, loop, out := a.label(), a.label(), a.label()
		a.place(loop)
		a.emit(VI{O: "topen", L: l, ID: v})
		a.jump("choice", out)
		a.emit(ch)
		a.jump("commit", end)
		a.place(end)
		a.op("tinsert")
		a.place(l)
		a.op("tree")
		a.jump("jump", loop)
		a.place(out)
		a.emit(VI{O: "tclose", ID: v})
	case 5:
		a.emit(VI{O: "topen", L: l, ID: 5})
		a.emit(ch)
		a.place(l)
		a.emit(VI{O: "tclose", ID: v})
		a.op("tinsert")
		a.emit(VI{O: "tclose", ID: 5})
	case 6:
		a.emit(VI{O: "kbegin", ID: v, N: 1})
		a.emit(ch)
		a.emit(VI{O: "kend", K: "mod", M: 1})
	case 7:
		a.emit(VI{O: "kbegin", ID: -1, N: v})
		a.emit(ch)
		a.emit(VI{O: "kend", K: "mod", M: 1})
	}
	p := a.finish(0)
	st := &checkers{ref: isa.NewBackRef()}
	c.machine(p, [][]byte{[]byte("a"), []byte("aab"), []byte("b")}, st, assemble(p, st, r))
}

// bytes are all the values of one-byte operands.
func operandBytes(c *cx, i int) {
	r := c.r
	a := newAsm(r)
	n, b := i%256, byte(i)
	end, out := a.label(), a.label()
	a.emit(VI{O: "any", N: 255})
	a.emit(VI{O: "any", N: 20})
	a.emit(VI{O: "cfull", ID: 1, N: n})
	a.emit(VI{O: "clate", ID: 2, N: n})
	a.emit(VI{O: "any", N: n})
	a.op("cend")
	k := r.Intn(3)
	switch k {
	case 0:
		a.emit(VI{O: "char", B: n})
		a.emit(VI{O: "cfull", ID: 3, N: 1})
	case 1:
		a.emit(VI{O: "tchar0", B: n, L: out})
		a.emit(VI{O: "cfull", ID: 3, N: 1})
	case 2:
		a.emit(VI{O: "tchar", B: n, L: out})
		a.emit(VI{O: "cfull", ID: 3, N: 1})
		a.emit(VI{O: "any", N: 2})
		a.jump("commit", end)
	}
	a.emit(VI{O: "tany", N: n, L: out})
	a.emit(VI{O: "cfull", ID: 4, N: 1})
	a.emit(VI{O: "any", N: 2})
	a.jump("commit", end)
	a.place(out)
	a.emit(VI{O: "any", N: 1})
	a.place(end)
	p := a.finish(0)
	st := &checkers{ref: isa.NewBackRef()}
	text := func(m int, b byte, rest int) []byte {
		t := make([]byte, m+rest)
		for j := range t {
			t[j] = byte(r.Intn(256))
		}
		if m < len(t) {
			t[m] = b
		}
		return t
	}
	m := 275 + n
	c.machine(p, [][]byte{text(m, b, n+3), text(m, b, n), text(m, b, n+1), text(m, b, 2), text(m, b, 1), text(m, b+1, n+3), text(m, b^128, 300), text(274, 0, 0)},
		st, assemble(p, st, r))
}

// nowhere is a program with a jump to a label that it does not have.
func nowhere(c *cx, i int) {
	for {
		a := newAsm(c.r)
		a.seq(2 + c.r.Intn(8))
		p := a.finish(0)
		k := c.r.Intn(len(p))
		if p[k].L == 0 {
			continue
		}
		p[k].L = len(p) + 2
		st := &checkers{ref: isa.NewBackRef()}
		if c.machine(p, machineTexts(a, 6), st, assemble(p, st, c.r)) {
			return
		}
	}
}

// large programs have much code that is not run.
func large(c *cx, i int) {
	r := c.r
	type shape struct {
		k string
		n int
	}
	shapes := []shape{{"fail", 100}, {"fail", 127}, {"fail", 128}, {"fail", 16383}, {"fail", 16384}, {"fail", 32000}, {"fail", 32763}, {"fail", 32766}, {"fail", 32767},
		{"fail", 32768}, {"fail", 70000}, {"fail", 1 << 20}, {"jump", 1 << 14}, {"jump", 20000}, {"fail", 4 << 20}, {"error", 300}, {"error", 65535}, {"error", 65536}, {"error", 66000},
		{"set", 255}, {"set", 256}, {"set", 3000}, {"set", 65530}, {"set", 65535}, {"set", 65536}, {"set", 65540}, {"fail", 8388590}, {"fail", 8388600}, {"fail", 8388610}, {"fail", 8400000},
		{"kend", 127}, {"kend", 254}, {"kend", 255}, {"kend", 256}, {"kend", 32767}, {"kend", 65535}, {"kend", 65536}, {"kend", 70000}}
	s := shapes[i%len(shapes)]
	a := newAsm(r)
	far := a.label()
	over := []VI{{O: "jump", L: far}, {O: "choice", L: far}, {O: "call", L: far}, {O: "tchar0", B: 'b', L: far}, {O: "tset0", R: [][2]int{{'b', 'b'}}, L: far}, {O: "tany", N: 3, L: far},
		{O: "tchar", B: 'b', L: far}, {O: "tset", R: [][2]int{{'b', 'c'}}, L: far}, {O: "mopen", ID: 4, L: far}, {O: "topen", ID: 4, L: far}}
	a.emit(over[(i/len(shapes))%len(over)])
	if r.Intn(2) == 0 {
		a.emit(VI{O: "error", N: 2})
	}
	check := func() {
		a.emit(VI{O: "kbegin", ID: 2, N: 3})
		a.emit(VI{O: "any", N: 1})
		if r.Intn(2) == 0 {
			a.emit(VI{O: "kend", K: "mod", M: 1 + r.Intn(3)})
		} else {
			a.emit(VI{O: "kend", K: "map", SS: [][]byte{{byte('a' + r.Intn(2))}}})
		}
	}
	if s.k == "kend" && r.Intn(2) == 0 {
		check()
	}
	a.emit(VI{O: "any", N: 1})
	if s.k == "jump" || a.code[0].O == "mopen" || a.code[0].O == "topen" {
		a.jump("jump", far)
	}
	a.op("fail")
	a.emit(VI{O: "fill", K: s.k, N: s.n})
	k := len(a.code)
	for j := r.Intn(3); j > 0; j-- {
		a.op("fail")
	}
	back := a.label()
	a.place(back)
	a.emit(VI{O: "cfull", ID: 6})
	a.place(far)
	if s.k == "kend" {
		check()
		if r.Intn(2) == 0 {
			check()
		}
	} else {
		a.simple()
	}
	a.emit(VI{O: "set", R: [][2]int{{'a', 'z'}}})
	l := a.label()
	a.emit(VI{O: "tset0", R: [][2]int{{'a', 'b'}}, L: l})
	a.jump("jump", back)
	a.place(l)
	a.emit(VI{O: "error", N: 1})
	_ = k
	p := a.finish(0)
	st := &checkers{ref: isa.NewBackRef()}
	prog := assemble(p, st, r)
	rec := c.machine(p, [][]byte{[]byte("a"), []byte("bab"), []byte("baa"), []byte("aaab"), nil}, st, prog)
	if !rec {
		c.count("large programs that mean nothing", 1)
	}
}

// pages has programs work around the places where a long input is refilled.
func pages(c *cx, i int) {
	for try := 0; try < 30; try++ {
		r := c.r
		a := newAsm(r)
		if r.Intn(2) == 0 {
			a.emit(VI{O: "cbegin", ID: 3})
		}
		a.emit(VI{O: "span", R: [][2]int{{'x', 'x'}}})
		for k := r.Intn(3); k > 0; k-- {
			a.seq(1 + r.Intn(8))
		}
		a.seq(1 + r.Intn(8))
		if a.code[0].O == "cbegin" {
			a.op("cend")
		}
		p := a.finish(0)
		st := &checkers{ref: isa.NewBackRef()}
		var ts []Text
		for len(ts) < 5 {
			n := 4096
			if r.Intn(4) == 0 {
				n = 4096 * (2 + r.Intn(2))
			}
			ts = append(ts, Text{Pad: n - r.Intn(10), PB: 'x', T: []byte(a.g.str(r.Intn(12)))})
		}
		if c.machineOn(p, ts, st, assemble(p, st, r)) {
			return
		}
	}
}

// calls nest deeply and return.
func calls(c *cx, i int) {
	r := c.r
	a := newAsm(r)
	// f <- 'a' f 'b' / 'c', in several ways
	f, l1, l2, end := a.label(), a.label(), a.label(), a.label()
	a.jump("call", f)
	a.jump("jump", end)
	a.place(f)
	switch i % 3 {
	case 0:
		a.emit(VI{O: "tchar", B: 'a', L: l1})
	case 1:
		a.emit(VI{O: "tchar0", B: 'a', L: l1})
	case 2:
		a.jump("choice", l1)
		a.emit(VI{O: "char", B: 'a'})
	}
	if r.Intn(2) == 0 {
		a.emit(VI{O: "cbegin", ID: a.id()})
		a.jump("call", f)
		a.op("cend")
	} else {
		a.jump("call", f)
	}
	a.emit(VI{O: "char", B: 'b'})
	if i%3 == 1 {
		a.jump("jump", l2)
	} else {
		a.jump("commit", l2)
	}
	a.place(l1)
	if r.Intn(2) == 0 {
		a.emit(VI{O: "cfull", ID: 2})
	}
	a.emit(VI{O: "char", B: 'c'})
	a.place(l2)
	a.op("ret")
	a.place(end)
	a.simple()
	p := a.finish(0)
	st := &checkers{ref: isa.NewBackRef()}
	var ts [][]byte
	for _, n := range []int{0, 1, 1 + r.Intn(10), 10 + r.Intn(40)} {
		s := strings.Repeat("a", n) + "c" + strings.Repeat("b", n)
		ts = append(ts, []byte(s), []byte(s[:len(s)-r.Intn(2)]+"a"))
	}
	c.machine(p, ts, st, assemble(p, st, r))
}

func init() {
	properties["C17"] = func(c *ctx) []family {
		return []family{
			{"operands", 8 * 24, operands},
			{"bytes", c.n(512, 2048), operandBytes},
			{"nowhere", 50, nowhere},
			{"large", c.n(114, 380), large},
			{"pages", c.n(600, 10000), pages},
			{"calls", c.n(60, 600), calls},
			{"tiny", c.n(12000, 150000), func(c *cx, i int) { assembled(c, 5, 2) }},
			{"assembled", c.n(12000, 150000), func(c *cx, i int) { assembled(c, 16, 0) }},
			{"changed", c.n(12000, 150000), func(c *cx, i int) { assembled(c, 12, 4) }},
			{"compiled", c.n(6000, 80000), func(c *cx, i int) { compiledProgs(c, 14) }},
		}
	}
}
