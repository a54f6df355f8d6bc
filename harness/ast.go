package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
)

// Nd is a node of a pattern in the specification's representation (PEG.tla).
// Children are 1-based indices into P.N.
type Nd struct {
	T    string
	S    []byte   // lit
	R    [][2]int // set
	N    int      // any, cap, rep, eop, err, chk(id)
	A, B int
	Nm   string // nt, gram (start)
	D    []Def  // gram
	// checkers
	K          string
	SS         []string
	M, Q, X, F int
	Lg         int
	// build hints, not part of the specification's view
	MemoID int
	Hint   int
}

type Def struct {
	Nm string `json:"nm"`
	K  int    `json:"k"`
}

// P is a pattern: a pool of nodes and a root.
type P struct {
	N    []Nd
	Root int
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

func (n Nd) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"t": n.T}
	switch n.T {
	case "lit":
		m["s"] = ints(n.S)
	case "set":
		if n.R == nil {
			m["r"] = [][2]int{}
		} else {
			m["r"] = n.R
		}
	case "any", "eop":
		m["n"] = n.N
	case "seq", "alt":
		m["a"], m["b"] = n.A, n.B
	case "star", "plus", "opt", "not", "and", "memo", "search":
		m["a"] = n.A
	case "cap", "rep", "err":
		m["a"], m["n"] = n.A, n.N
	case "nt":
		m["nm"] = n.Nm
	case "gram":
		m["nm"], m["d"] = n.Nm, n.D
	case "chk":
		m["a"], m["k"], m["n"], m["f"] = n.A, n.K, n.N, n.F
		switch n.K {
		case "map":
			ss := make([][]int, 0)
			for _, s := range n.SS {
				ss = append(ss, ints([]byte(s)))
			}
			m["ss"] = ss
		case "mod", "ext":
			m["m"], m["q"], m["x"], m["lg"] = n.M, n.Q, n.X, n.Lg
		default:
			m["x"] = n.X
		}
	case "empty":
	default:
		panic("unknown node " + n.T)
	}
	return json.Marshal(m)
}

func (p *P) add(n Nd) int {
	p.N = append(p.N, n)
	return len(p.N)
}

func (p *P) at(k int) *Nd { return &p.N[k-1] }

func (p *P) lit(s string) int           { return p.add(Nd{T: "lit", S: []byte(s)}) }
func (p *P) any(n int) int              { return p.add(Nd{T: "any", N: n}) }
func (p *P) set(r ...[2]int) int        { return p.add(Nd{T: "set", R: r}) }
func (p *P) un(t string, a int) int     { return p.add(Nd{T: t, A: a}) }
func (p *P) cap(a, id int) int          { return p.add(Nd{T: "cap", A: a, N: id}) }
func (p *P) rep(a, n int) int           { return p.add(Nd{T: "rep", A: a, N: n}) }
func (p *P) nt(nm string) int           { return p.add(Nd{T: "nt", Nm: nm}) }
func (p *P) memo(a, id int) int         { return p.add(Nd{T: "memo", A: a, MemoID: id}) }
func (p *P) gram(s string, d []Def) int { return p.add(Nd{T: "gram", Nm: s, D: d}) }
func (p *P) errn(msg, a int) int        { return p.add(Nd{T: "err", N: msg, A: a}) }
func (p *P) empty() int                 { return p.add(Nd{T: "empty"}) }
func (p *P) seq(ks ...int) int {
	if len(ks) == 0 {
		return p.empty()
	}
	acc := ks[0]
	for _, k := range ks[1:] {
		acc = p.add(Nd{T: "seq", A: acc, B: k})
	}
	return acc
}
func (p *P) alt(ks ...int) int {
	acc := ks[len(ks)-1]
	for i := len(ks) - 2; i >= 0; i-- {
		acc = p.add(Nd{T: "alt", A: ks[i], B: acc})
	}
	return acc
}

// env is a lexical environment: the enclosing grammars, innermost last.
type env []int

func (p *P) scope(e env, nm string) (env, int, bool) {
	for d := len(e); d > 0; d-- {
		for _, df := range p.at(e[d-1]).D {
			if df.Nm == nm {
				return e[:d:d], df.K, true
			}
		}
	}
	return nil, 0, false
}

func (e env) ext(k int) env { return append(e[:len(e):len(e)], k) }

// wf reports whether the pattern is well formed: every name resolves, no left
// recursion, no repetition of something nullable.
func (p *P) wf() bool {
	a := &analysis{p: p, null: map[string]bool{}}
	for {
		a.changed = false
		a.seen = map[string]bool{}
		a.nullable(p.Root, nil)
		if a.missing {
			return false
		}
		if !a.changed {
			break
		}
	}
	a.seen = map[string]bool{}
	a.lr = map[string]int{}
	return a.check(p.Root, nil)
}

type analysis struct {
	p       *P
	null    map[string]bool // nullability of (env, rule body)
	seen    map[string]bool
	lr      map[string]int
	changed bool
	missing bool
}

func (a *analysis) nullable(k int, e env) bool {
	n := a.p.at(k)
	switch n.T {
	case "lit":
		return len(n.S) == 0
	case "set":
		return false
	case "any":
		return n.N == 0
	case "seq":
		l := a.nullable(n.A, e)
		r := a.nullable(n.B, e)
		return l && r
	case "alt":
		l := a.nullable(n.A, e)
		r := a.nullable(n.B, e)
		return l || r
	case "star", "opt", "not", "and":
		a.nullable(n.A, e)
		return true
	case "plus", "cap", "memo", "chk", "search":
		return a.nullable(n.A, e)
	case "rep":
		l := a.nullable(n.A, e)
		return n.N <= 0 || l
	case "eop", "empty":
		return true
	case "err":
		if n.A == 0 {
			return true
		}
		return a.nullable(n.A, e)
	case "nt":
		return a.ref(n.Nm, e)
	case "gram":
		return a.ref(n.Nm, e.ext(k))
	}
	panic(n.T)
}

func (a *analysis) ref(nm string, e env) bool {
	e2, b, ok := a.p.scope(e, nm)
	if !ok {
		a.missing = true
		return true
	}
	key := fmt.Sprint(e2, b)
	if !a.seen[key] {
		a.seen[key] = true
		v := a.nullable(b, e2)
		if v && !a.null[key] {
			a.null[key] = true
			a.changed = true
		}
	}
	return a.null[key]
}

// check walks everything reachable, verifying repetitions and left recursion.
func (a *analysis) check(k int, e env) bool {
	key := fmt.Sprint(e, k)
	if a.seen[key] {
		return true
	}
	a.seen[key] = true
	n := a.p.at(k)
	switch n.T {
	case "seq", "alt":
		return a.check(n.A, e) && a.check(n.B, e)
	case "star", "plus":
		if a.null2(n.A, e) {
			return false
		}
		return a.check(n.A, e)
	case "opt", "not", "and", "cap", "memo", "chk", "search", "rep":
		return a.check(n.A, e)
	case "err":
		return n.A == 0 || a.check(n.A, e)
	case "nt":
		return a.checkRef(n.Nm, e)
	case "gram":
		return a.checkRef(n.Nm, e.ext(k))
	}
	return true
}

func (a *analysis) null2(k int, e env) bool {
	a.changed = false
	save := a.seen
	a.seen = map[string]bool{}
	v := a.nullable(k, e)
	a.seen = save
	return v
}

func (a *analysis) checkRef(nm string, e env) bool {
	e2, b, ok := a.p.scope(e, nm)
	if !ok {
		return false
	}
	if a.leftrec(b, e2, map[string]bool{fmt.Sprint(e2, b): true}) {
		return false
	}
	return a.check(b, e2)
}

// leftrec reports whether evaluating k may reach one of the rules in active
// without consuming anything.
func (a *analysis) leftrec(k int, e env, active map[string]bool) bool {
	n := a.p.at(k)
	ref := func(nm string, e env) bool {
		e2, b, ok := a.p.scope(e, nm)
		if !ok {
			return true
		}
		key := fmt.Sprint(e2, b)
		if active[key] {
			return true
		}
		active[key] = true
		r := a.leftrec(b, e2, active)
		delete(active, key)
		return r
	}
	switch n.T {
	case "seq":
		if a.leftrec(n.A, e, active) {
			return true
		}
		return a.null2(n.A, e) && a.leftrec(n.B, e, active)
	case "alt":
		return a.leftrec(n.A, e, active) || a.leftrec(n.B, e, active)
	case "star", "plus", "opt", "not", "and", "cap", "memo", "chk", "search", "rep":
		return a.leftrec(n.A, e, active)
	case "err":
		return n.A != 0 && a.leftrec(n.A, e, active)
	case "nt":
		return ref(n.Nm, e)
	case "gram":
		return ref(n.Nm, e.ext(k))
	}
	return false
}

// ---------------------------------------------------------------------------
// A bounded evaluator used only to choose cases: it estimates how much work a
// parse is and whether it matches. It judges nothing.

type budget struct {
	p     *P
	t     []byte
	steps int
	depth int
	sym   map[int]string
	errs  int
}

const (
	evFail = -1
	evHalt = -2
	evOut  = -3
)

// cost returns the number of steps of a parse (or limit if it is more) and the
// end of the match, evFail or evHalt.
func (p *P) cost(t []byte, limit int) (steps, end, errs int) {
	b := &budget{p: p, t: t, steps: limit, sym: map[int]string{}}
	end = b.ev(p.Root, nil, 0)
	return limit - b.steps, end, b.errs
}

func (b *budget) ev(k int, e env, i int) int {
	b.steps--
	if b.steps <= 0 || b.depth > 3000 {
		b.steps = 0
		return evOut
	}
	b.depth++
	defer func() { b.depth-- }()
	n := b.p.at(k)
	switch n.T {
	case "lit":
		if len(b.t)-i >= len(n.S) && string(b.t[i:i+len(n.S)]) == string(n.S) {
			return i + len(n.S)
		}
		return evFail
	case "set":
		if i < len(b.t) {
			for _, r := range n.R {
				if r[0] <= int(b.t[i]) && int(b.t[i]) <= r[1] {
					return i + 1
				}
			}
		}
		return evFail
	case "any":
		if i+n.N <= len(b.t) {
			return i + n.N
		}
		return evFail
	case "seq":
		j := b.ev(n.A, e, i)
		if j < 0 {
			return j
		}
		return b.ev(n.B, e, j)
	case "alt":
		j := b.ev(n.A, e, i)
		if j != evFail {
			return j
		}
		return b.ev(n.B, e, i)
	case "plus":
		j := b.ev(n.A, e, i)
		if j < 0 {
			return j
		}
		i = j
		fallthrough
	case "star":
		for {
			j := b.ev(n.A, e, i)
			if j == evFail {
				return i
			}
			if j < 0 {
				return j
			}
			i = j
		}
	case "opt":
		j := b.ev(n.A, e, i)
		if j == evFail {
			return i
		}
		return j
	case "rep":
		for x := 0; x < n.N; x++ {
			j := b.ev(n.A, e, i)
			if j < 0 {
				return j
			}
			i = j
		}
		return i
	case "not":
		j := b.ev(n.A, e, i)
		if j == evFail {
			return i
		}
		if j < 0 {
			return j
		}
		return evFail
	case "and":
		j := b.ev(n.A, e, i)
		if j < 0 {
			return j
		}
		return i
	case "cap", "memo":
		return b.ev(n.A, e, i)
	case "search":
		for ; ; i++ {
			j := b.ev(n.A, e, i)
			if j != evFail {
				return j
			}
			if i >= len(b.t) {
				return evFail
			}
		}
	case "eop":
		if b.eop(n.N, i) {
			return i
		}
		return evFail
	case "chk":
		j := b.ev(n.A, e, i)
		if j < 0 {
			return j
		}
		s := string(b.t[i:j])
		switch n.K {
		case "map":
			for _, x := range n.SS {
				if x == s {
					return j
				}
			}
			return evFail
		case "mod":
			if len(s)%n.M == n.Q {
				return j
			}
			return evFail
		case "ext":
			if len(s)%n.M == n.Q && j+n.X <= len(b.t) {
				return j + n.X
			}
			return evFail
		case "def":
			b.sym[n.N+n.X<<20] = s
		case "use":
			w := b.sym[n.N+n.X<<20]
			if len(b.t)-j >= len(w) && string(b.t[j:j+len(w)]) == w {
				return j + len(w)
			}
			return evFail
		}
		return j
	case "err":
		b.errs++
		if n.A == 0 {
			return evHalt
		}
		return b.ev(n.A, e, i)
	case "empty":
		return i
	case "nt", "gram":
		if n.T == "gram" {
			e = e.ext(k)
		}
		e2, body, ok := b.p.scope(e, n.Nm)
		if !ok {
			return evHalt
		}
		return b.ev(body, e2, i)
	}
	panic(n.T)
}

// eop decides the assertions of regular expressions.
func (b *budget) eop(op, i int) bool {
	word := func(j int) bool {
		if j < 0 || j >= len(b.t) {
			return false
		}
		c := b.t[j]
		return c == '_' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
	}
	bound := word(i-1) != word(i)
	return op&1 != 0 && (i == 0 || b.t[i-1] == '\n') || op&2 != 0 && (i == len(b.t) || b.t[i] == '\n') ||
		op&4 != 0 && i == 0 || op&8 != 0 && i == len(b.t) || op&16 != 0 && bound || op&32 != 0 && !bound
}

// ---------------------------------------------------------------------------
// Sampling texts that a pattern is likely to match.

type sampler struct {
	p    *P
	r    *rand.Rand
	out  []byte
	sym  map[int]string
	fuel int
}

func (p *P) sample(r *rand.Rand, max int) []byte {
	s := &sampler{p: p, r: r, sym: map[int]string{}, fuel: 60 + r.Intn(200)}
	s.gen(p.Root, nil, 0)
	if len(s.out) > max {
		s.out = s.out[:max]
	}
	return s.out
}

func (s *sampler) gen(k int, e env, depth int) {
	s.fuel--
	if depth > 40 || s.fuel < -200 {
		return
	}
	n := s.p.at(k)
	switch n.T {
	case "lit":
		s.out = append(s.out, n.S...)
	case "set":
		if len(n.R) > 0 {
			r := n.R[s.r.Intn(len(n.R))]
			if r[1] >= r[0] {
				s.out = append(s.out, byte(r[0]+s.r.Intn(r[1]-r[0]+1)))
			}
		}
	case "any":
		for i := 0; i < n.N; i++ {
			s.out = append(s.out, "abcab"[s.r.Intn(5)])
		}
	case "seq":
		s.gen(n.A, e, depth+1)
		s.gen(n.B, e, depth+1)
	case "alt":
		if s.r.Intn(2) == 0 {
			s.gen(n.A, e, depth+1)
		} else {
			s.gen(n.B, e, depth+1)
		}
	case "plus", "star":
		c := s.r.Intn(4)
		if n.T == "plus" {
			c++
		}
		if s.fuel < 0 {
			c = 0
		}
		for i := 0; i < c; i++ {
			s.gen(n.A, e, depth+1)
		}
	case "opt":
		if s.fuel > 0 && s.r.Intn(2) == 0 {
			s.gen(n.A, e, depth+1)
		}
	case "rep":
		for i := 0; i < n.N; i++ {
			s.gen(n.A, e, depth+1)
		}
	case "and":
		if s.r.Intn(3) == 0 {
			s.gen(n.A, e, depth+1)
		}
	case "cap", "memo":
		s.gen(n.A, e, depth+1)
	case "search":
		for i := s.r.Intn(3); i > 0; i-- {
			s.out = append(s.out, "abc"[s.r.Intn(3)])
		}
		s.gen(n.A, e, depth+1)
	case "chk":
		i := len(s.out)
		switch n.K {
		case "map":
			if len(n.SS) > 0 && s.r.Intn(3) > 0 {
				s.out = append(s.out, n.SS[s.r.Intn(len(n.SS))]...)
				return
			}
			s.gen(n.A, e, depth+1)
		case "ext":
			s.gen(n.A, e, depth+1)
			for x := 0; x < n.X; x++ {
				s.out = append(s.out, "abc"[s.r.Intn(3)])
			}
		case "def":
			s.gen(n.A, e, depth+1)
			s.sym[n.N+n.X<<20] = string(s.out[i:])
		case "use":
			s.gen(n.A, e, depth+1)
			s.out = append(s.out, s.sym[n.N+n.X<<20]...)
		default:
			s.gen(n.A, e, depth+1)
		}
	case "err":
		if n.A != 0 {
			s.gen(n.A, e, depth+1)
		}
	case "nt", "gram":
		if s.fuel < -100 {
			return
		}
		if n.T == "gram" {
			e = e.ext(k)
		}
		e2, body, ok := s.p.scope(e, n.Nm)
		if ok {
			s.gen(body, e2, depth+1)
		}
	}
}
