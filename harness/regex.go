package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/rxconv"
	"github.com/zyedidia/gpeg/vm"
)

// C14: regular expressions converted to patterns.

// RN is a node of a regular expression.
type RN struct {
	O      string
	R      [][]rune // what each character of a literal may be
	S      [][2]int
	A      int
	G      int
	Lo, Hi int
	K      []int
}

func (n RN) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"o": n.O}
	switch n.O {
	case "lit":
		m["r"] = n.R
	case "class":
		m["s"] = n.S
		if n.S == nil {
			m["s"] = [][2]int{}
		}
	case "at":
		m["a"] = n.A
	case "rep":
		m["lo"], m["hi"] = n.Lo, n.Hi
		fallthrough
	case "star", "plus", "quest":
		m["g"] = n.G
		fallthrough
	case "cat", "alt", "cap":
		m["k"] = n.K
	}
	return json.Marshal(m)
}

// RX is a set of regular expressions.
type RX struct{ N []RN }

func (x *RX) add(n RN) int { x.N = append(x.N, n); return len(x.N) }

var rxOps = map[syntax.Op]string{
	syntax.OpNoMatch: "nomatch", syntax.OpEmptyMatch: "empty", syntax.OpLiteral: "lit", syntax.OpCharClass: "class",
	syntax.OpAnyChar: "any", syntax.OpAnyCharNotNL: "anynl", syntax.OpConcat: "cat", syntax.OpAlternate: "alt",
	syntax.OpStar: "star", syntax.OpPlus: "plus", syntax.OpQuest: "quest", syntax.OpRepeat: "rep", syntax.OpCapture: "cap",
	syntax.OpBeginLine: "at", syntax.OpEndLine: "at", syntax.OpBeginText: "at", syntax.OpEndText: "at",
	syntax.OpWordBoundary: "at", syntax.OpNoWordBoundary: "at",
}

var rxAt = map[syntax.Op]syntax.EmptyOp{
	syntax.OpBeginLine: syntax.EmptyBeginLine, syntax.OpEndLine: syntax.EmptyEndLine,
	syntax.OpBeginText: syntax.EmptyBeginText, syntax.OpEndText: syntax.EmptyEndText,
	syntax.OpWordBoundary: syntax.EmptyWordBoundary, syntax.OpNoWordBoundary: syntax.EmptyNoWordBoundary,
}

// read writes out an expression as Go parsed it.
func (x *RX) read(e *syntax.Regexp) int {
	n := RN{O: rxOps[e.Op], Lo: e.Min, Hi: e.Max, G: 1, A: int(rxAt[e.Op])}
	if n.O == "" {
		fatalf("regexp op %v", e.Op)
	}
	if e.Flags&syntax.NonGreedy != 0 {
		n.G = 0
	}
	for _, s := range e.Sub {
		n.K = append(n.K, x.read(s))
	}
	switch e.Op {
	case syntax.OpLiteral:
		n.R = [][]rune{}
		for _, c := range e.Rune {
			cs := []rune{c}
			if e.Flags&syntax.FoldCase != 0 {
				for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
					cs = append(cs, f)
				}
			}
			n.R = append(n.R, cs)
		}
	case syntax.OpCharClass:
		for i := 0; i < len(e.Rune); i += 2 {
			n.S = append(n.S, [2]int{int(e.Rune[i]), int(e.Rune[i+1])})
		}
	}
	return x.add(n)
}

// rxBudget matches by backtracking, counting steps.
type rxBudget struct {
	t     []byte
	left  int
	depth int
}

func (b *rxBudget) m(e *syntax.Regexp, i int, k func(int) bool) bool {
	b.left--
	if b.left < 0 {
		return true
	}
	switch e.Op {
	case syntax.OpNoMatch:
		return false
	case syntax.OpLiteral:
		for _, r := range e.Rune {
			if i >= len(b.t) {
				return false
			}
			c, w := utf8.DecodeRune(b.t[i:])
			ok := c == r
			if e.Flags&syntax.FoldCase != 0 {
				for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
					ok = ok || f == c
				}
			}
			if !ok {
				return false
			}
			i += w
		}
		return k(i)
	case syntax.OpCharClass:
		if i < len(b.t) {
			c, w := utf8.DecodeRune(b.t[i:])
			for j := 0; j < len(e.Rune); j += 2 {
				if e.Rune[j] <= c && c <= e.Rune[j+1] {
					return k(i + w)
				}
			}
		}
		return false
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		if i < len(b.t) && (e.Op == syntax.OpAnyChar || b.t[i] != '\n') {
			return k(i + 1)
		}
		return false
	case syntax.OpConcat:
		var next func(x, i int) bool
		next = func(x, i int) bool {
			if x == len(e.Sub) {
				return k(i)
			}
			return b.m(e.Sub[x], i, func(j int) bool { return next(x+1, j) })
		}
		return next(0, i)
	case syntax.OpAlternate:
		for _, s := range e.Sub {
			if b.m(s, i, k) {
				return true
			}
		}
		return false
	case syntax.OpCapture:
		return b.m(e.Sub[0], i, k)
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		min, max := 0, -1
		switch e.Op {
		case syntax.OpPlus:
			min = 1
		case syntax.OpQuest:
			max = 1
		case syntax.OpRepeat:
			min, max = e.Min, e.Max
		}
		var loop func(n, i int) bool
		loop = func(n, i int) bool {
			b.left--
			if b.left < 0 {
				return true
			}
			more := func() bool {
				return (max < 0 || n < max) && b.m(e.Sub[0], i, func(j int) bool {
					if j == i && n >= min {
						return false
					}
					return loop(n+1, j)
				})
			}
			if n < min {
				return more()
			}
			if e.Flags&syntax.NonGreedy != 0 {
				return k(i) || more()
			}
			return more() || k(i)
		}
		return loop(0, i)
	}
	if at := rxAt[e.Op]; at != 0 {
		before, after := rune(-1), rune(-1)
		if i > 0 {
			before = rune(b.t[i-1])
		}
		if i < len(b.t) {
			after = rune(b.t[i])
		}
		if syntax.EmptyOpContext(before, after)&at == 0 {
			return false
		}
	}
	return k(i)
}

// cheap returns true if backtracking over the text takes few steps.
func rxCheap(e *syntax.Regexp, t []byte, steps int) bool {
	b := &rxBudget{t: t, left: steps}
	for i := 0; i <= len(t); i++ {
		if b.m(e, i, func(int) bool { return true }) {
			break
		}
	}
	return b.left >= 0
}

// rxRepeats is true if the expression repeats something that matches in s.
func rxRepeats(e *syntax.Regexp, s string) bool {
	for _, sub := range e.Sub {
		if e.Op == syntax.OpStar || e.Op == syntax.OpPlus || e.Op == syntax.OpRepeat {
			if m, err := regexp.MatchString(sub.String(), s); m || err != nil {
				return true
			}
		}
		if rxRepeats(sub, s) {
			return true
		}
	}
	return false
}

// rxSize estimates the size of the converted expression.
func rxSize(e *syntax.Regexp, k int) int {
	const most = 1 << 24
	if k > most {
		return k
	}
	switch e.Op {
	case syntax.OpConcat:
		for i := len(e.Sub) - 1; i >= 0; i-- {
			k = rxSize(e.Sub[i], k)
		}
		return k
	case syntax.OpAlternate:
		n := 0
		for _, s := range e.Sub {
			n += rxSize(s, k)
		}
		return n
	case syntax.OpCapture:
		return rxSize(e.Sub[0], k)
	case syntax.OpQuest, syntax.OpStar, syntax.OpRepeat:
		return rxSize(e.Sub[0], 1) + k + 1 + rxSize(e.Sub[0], k)/2
	case syntax.OpPlus:
		return rxSize(e.Sub[0], rxSize(e.Sub[0], 1)+k+1)
	}
	return k + 1 + len(e.Rune)
}

// rxNullable is true if the expression may match nothing.
func rxNullable(e *syntax.Regexp) bool {
	r, err := regexp.Compile(`^(?:` + e.String() + `)$`)
	if err != nil {
		return true
	}
	if r.MatchString("") {
		return true
	}
	// assertions may hold elsewhere
	return strings.ContainsAny(e.String(), `^$\`)
}

// rxGen writes expressions.
type rxGen struct {
	r     *rand.Rand
	alpha string
	perl  bool
	rep   bool
	plain bool
	lazy  bool
	empty bool
	uni   []rune // characters to use instead of alpha
}

func (g *rxGen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

func (g *rxGen) char() byte { return g.alpha[g.r.Intn(len(g.alpha))] }

func (g *rxGen) lit() string {
	if g.uni != nil {
		c := g.uni[g.r.Intn(len(g.uni))]
		if g.perl && g.r.Intn(8) == 0 {
			return fmt.Sprintf(`\x{%x}`, c)
		}
		if c == '\n' {
			return `\n`
		}
		return regexp.QuoteMeta(string(c))
	}
	c := g.char()
	switch {
	case c == '\n':
		return `\n`
	case g.perl && g.r.Intn(12) == 0:
		return fmt.Sprintf(`\x%02x`, c)
	case g.perl && g.r.Intn(30) == 0:
		return `\Q` + string(c) + `\E`
	}
	return regexp.QuoteMeta(string(c))
}

func (g *rxGen) class() string {
	r := g.r
	if g.perl && r.Intn(3) == 0 {
		return g.pick(`\d`, `\w`, `\s`, `\D`, `\W`, `\S`, `\pL`, `\PN`, `\p{Lu}`, `[[:alpha:]_]`, `[^[:space:]]`, `[\w-]`, `[^\d\n]`)
	}
	s := "["
	if r.Intn(3) == 0 {
		s += "^"
	}
	for n := 1 + r.Intn(3); g.uni != nil && n > 0; n-- {
		lo, hi := g.uni[r.Intn(len(g.uni))], g.uni[r.Intn(len(g.uni))]
		if lo > hi {
			lo, hi = hi, lo
		}
		if r.Intn(2) == 0 {
			hi = lo
		}
		if lo != '\n' && utf8.ValidRune(lo) {
			s += string(lo) + "-" + string(hi)
		} else {
			s += `\n`
		}
	}
	for n := 1 + r.Intn(3); g.uni == nil && n > 0; n-- {
		lo, hi := g.char(), g.char()
		if lo > hi {
			lo, hi = hi, lo
		}
		q := func(c byte) string {
			if c == '\n' {
				return `\n`
			}
			if strings.IndexByte(`\]^-[`, c) >= 0 {
				return `\` + string(c)
			}
			return string(c)
		}
		switch r.Intn(6) {
		case 0, 1:
			s += q(lo) + "-" + q(hi)
		case 2:
			s += g.pick("[:alpha:]", "[:digit:]", "[:upper:]", "[:punct:]", "é", "à-ÿ", "a-€", "\U0001F600-\U0010FFFF", "ſ", "K")
		default:
			s += q(lo)
		}
	}
	return s + "]"
}

func (g *rxGen) leaf() string {
	switch g.r.Intn(14) {
	case 0, 1, 2, 3, 4, 5:
		return g.lit()
	case 6:
		return g.lit() + g.lit()
	case 7, 8:
		if g.uni != nil {
			return g.class()
		}
		return "."
	case 9, 10:
		return g.class()
	case 11:
		if g.empty {
			return g.pick("", "()", "(?:)")
		}
		return g.lit()
	default:
		if g.perl && g.uni == nil {
			return g.pick(`^`, `$`, `\A`, `\z`, `\b`, `\B`, `\b`, `\B`)
		}
		return g.pick(`^`, `$`)
	}
}

func (g *rxGen) group(s string) string {
	r := g.r
	if !g.perl {
		return "(" + s + ")"
	}
	switch r.Intn(8) {
	case 0, 1:
		return "(" + s + ")"
	case 2:
		return fmt.Sprintf("(?P<n%d>", r.Intn(1000000)) + s + ")"
	case 3:
		return "(?" + g.pick("i", "s", "m", "U", "is", "-s", "-i", "mi", "-m", "i-s", "-U") + ":" + s + ")"
	case 4:
		return "(?:(?" + g.pick("i", "s", "m", "U", "-i", "-m") + ")" + s + ")"
	}
	return "(?:" + s + ")"
}

func (g *rxGen) expr(size int) string {
	r := g.r
	if size <= 1 {
		return g.leaf()
	}
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		a := 1 + r.Intn(size-1)
		return g.atom(a) + g.atom(size-a)
	case 4, 5:
		a := 1 + r.Intn(size-1)
		return g.group(g.expr(a) + "|" + g.expr(size-a))
	case 6:
		return g.group(g.expr(size - 1))
	default:
		s := g.atom(size - 1)
		op := g.pick("*", "+", "?", "*", "+")
		if g.rep && r.Intn(4) == 0 {
			op = g.pick("{2}", "{1,2}", "{0,1}", "{2,}", "{0}", "{1}", "{0,}", "{1,}")
		}
		if g.perl && (g.lazy || r.Intn(3) == 0) {
			op += "?"
		}
		return s + op
	}
}

// atom is an expression that an operator may follow.
func (g *rxGen) atom(size int) string {
	if size <= 1 {
		s := g.leaf()
		if len(s) == 1 && s != "^" && s != "$" || strings.HasPrefix(s, "[") {
			return s
		}
		return g.group(s)
	}
	return g.group(g.expr(size))
}

// rxSample writes a text that the expression may match.
func rxSample(r *rand.Rand, e *syntax.Regexp, out *[]byte, depth int, uni bool) {
	if len(*out) > 40 {
		return
	}
	switch e.Op {
	case syntax.OpLiteral:
		for _, c := range e.Rune {
			if e.Flags&syntax.FoldCase != 0 {
				for n := r.Intn(3); n > 0; n-- {
					c = unicode.SimpleFold(c)
				}
			}
			if c >= 128 && !uni {
				c = 'k'
			}
			*out = utf8.AppendRune(*out, c)
		}
	case syntax.OpCharClass:
		if uni && len(e.Rune) > 0 {
			// at, inside or next to the ends of a range, or where its encoding changes
			j := r.Intn(len(e.Rune)/2) * 2
			lo, hi := e.Rune[j], e.Rune[j+1]
			c := []rune{lo, hi, lo + rune(r.Intn(int(hi-lo)+1)), lo - 1, hi + 1,
				[]rune{0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff}[r.Intn(15)],
				(lo + rune(r.Intn(int(hi-lo)+1))) | 0x3f, (lo + rune(r.Intn(int(hi-lo)+1))) &^ 0x3f}[r.Intn(8)]
			if utf8.ValidRune(c) {
				*out = utf8.AppendRune(*out, c)
			}
			return
		}
		var in []byte
		for b := 0; b < 128; b++ {
			for j := 0; j < len(e.Rune); j += 2 {
				if e.Rune[j] <= rune(b) && rune(b) <= e.Rune[j+1] {
					in = append(in, byte(b))
				}
			}
		}
		if len(in) > 0 {
			c := in[r.Intn(len(in))]
			for n := 0; n < 4 && !strings.ContainsRune("abckKsS_0 -\n", rune(c)); n++ {
				c = in[r.Intn(len(in))]
			}
			*out = append(*out, c)
		}
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		*out = append(*out, "abc\n"[r.Intn(4)])
	case syntax.OpConcat:
		for _, s := range e.Sub {
			rxSample(r, s, out, depth+1, uni)
		}
	case syntax.OpAlternate:
		rxSample(r, e.Sub[r.Intn(len(e.Sub))], out, depth+1, uni)
	case syntax.OpCapture:
		rxSample(r, e.Sub[0], out, depth+1, uni)
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		n := r.Intn(4)
		if e.Op == syntax.OpQuest {
			n = r.Intn(2)
		}
		if e.Op == syntax.OpPlus {
			n++
		}
		for ; n > 0; n-- {
			rxSample(r, e.Sub[0], out, depth+1, uni)
		}
	case syntax.OpEndLine, syntax.OpBeginLine:
		if r.Intn(2) == 0 {
			*out = append(*out, '\n')
		}
	}
}

func rxTexts(r *rand.Rand, es []*syntax.Regexp, alpha string, n, most int) [][]byte {
	return rxTextsU(r, es, alpha, n, most, false)
}

// rxUnicode is true if the conversion says something about texts that are not ASCII.
func rxUnicode(e *syntax.Regexp) bool {
	switch e.Op {
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL, syntax.OpWordBoundary, syntax.OpNoWordBoundary:
		return false
	}
	for _, s := range e.Sub {
		if !rxUnicode(s) {
			return false
		}
	}
	return true
}

func rxTextsU(r *rand.Rand, es []*syntax.Regexp, alpha string, n, most int, uni bool) [][]byte {
	for _, e := range es {
		uni = uni && rxUnicode(e)
	}
	var ts [][]byte
	if uni {
		rs := []rune(alpha)
		for len(ts) < n {
			var t []byte
			junk := func(k int) {
				for k = r.Intn(k + 1); k > 0; k-- {
					t = utf8.AppendRune(t, rs[r.Intn(len(rs))])
				}
			}
			junk(2)
			for _, e := range es {
				rxSample(r, e, &t, 0, true)
				junk(2)
			}
			if r.Intn(4) == 0 {
				q := []rune(string(t))
				if len(q) > 0 {
					q[r.Intn(len(q))] += rune(r.Intn(3) - 1)
				}
				t = []byte(string(q))
			}
			for len(t) > 3*most {
				_, w := utf8.DecodeLastRune(t)
				t = t[:len(t)-w]
			}
			ts = append(ts, []byte(strings.ToValidUTF8(string(t), "")))
		}
		return ts
	}
	if strings.IndexFunc(alpha, func(c rune) bool { return c >= 128 }) >= 0 {
		alpha = "abkKsS "
	}
	junk := func(n int) []byte {
		b := make([]byte, r.Intn(n+1))
		for i := range b {
			b[i] = alpha[r.Intn(len(alpha))]
		}
		return b
	}
	for len(ts) < n {
		var t []byte
		switch r.Intn(6) {
		case 0:
			t = junk(most)
		default:
			t = junk(3)
			for _, e := range es {
				rxSample(r, e, &t, 0, false)
				if r.Intn(3) > 0 {
					t = append(t, junk(2)...)
				}
			}
		}
		if len(t) > 0 && r.Intn(3) == 0 {
			t[r.Intn(len(t))] = alpha[r.Intn(len(alpha))]
		}
		if len(t) > most {
			t = t[:most]
		}
		ts = append(ts, t)
	}
	return ts
}

// rxJob is the use of some expressions on some texts.
type rxJob struct {
	srcs   []string
	flags  syntax.Flags
	use    string
	bad    int
	rec    map[string]interface{}
	es     []*syntax.Regexp
	gos    []*regexp.Regexp
	texts  []Text
	counts map[string]int
}

// rxPrepare reads the expressions. It returns nil if they are too large.
func rxPrepare(srcs []string, flags syntax.Flags, use string) *rxJob {
	x := &RX{}
	ks := []int{}
	j := &rxJob{srcs: srcs, flags: flags, use: use, counts: map[string]int{}}
	for _, s := range srcs {
		e, err := syntax.Parse(s, flags)
		if err != nil {
			j.bad = 1
			break
		}
		if use != "long" {
			if rxSize(e, 1) > 20000 {
				return nil
			}
			ks = append(ks, x.read(e))
		}
		j.es = append(j.es, e)
	}
	if use == "all" && (j.bad == 1 || rxNullable(j.es[0])) {
		j.use = "one"
	}
	if j.bad == 0 {
		for _, e := range j.es {
			// (Go's engine compiles its own simplification)
			g, err := regexp.Compile(e.String())
			if err != nil {
				j.gos = nil
				break
			}
			j.gos = append(j.gos, g)
		}
	}
	j.rec = map[string]interface{}{"re": srcs, "fl": int(flags), "use": j.use, "N": x.N, "ks": ks, "bad": j.bad, "acc": 0, "runs": []int{}}
	if x.N == nil {
		j.rec["N"] = []RN{}
	}
	return j
}

// convert converts the expressions; other goroutines may do so at the same time.
func (j *rxJob) convert() *vm.Code {
	var parts []pattern.Pattern
	var err error
	cr := guard(func() {
		for _, s := range j.srcs {
			var q pattern.Pattern
			q, err = rxconv.FromRegexp(s, j.flags)
			if err != nil {
				return
			}
			parts = append(parts, q)
		}
	})
	j.rec["x"] = cr
	if err != nil {
		j.rec["err"] = err.Error()
		j.counts["rejected"]++
	} else if cr == "" {
		j.rec["acc"] = 1
		j.counts["accepted"]++
	}
	if err != nil || cr != "" || j.bad == 1 {
		return nil
	}
	var q pattern.Pattern
	switch j.use {
	case "all":
		q = pattern.Star(parts[0])
	case "rules":
		// rules with the names that a converter might use
		m := map[string]pattern.Pattern{}
		var seq []pattern.Pattern
		for i, p := range parts {
			nm := fmt.Sprintf("a%d", i+1)
			m[nm] = p
			seq = append(seq, pattern.NonTerm(nm))
		}
		m["S"] = pattern.Concat(seq...)
		q = pattern.Grammar("S", m)
	default:
		q = parts[0]
		if len(parts) > 1 {
			q = pattern.Concat(parts...)
		}
	}
	code, cx := compileP(q)
	if cx != "" {
		j.rec["x"] = cx
		return nil
	}
	return code
}

// cheapTexts drops texts that take too long.
func (j *rxJob) cheapTexts(ts []Text) {
	for _, t := range ts {
		b := t.bytes()
		costly := false
		for _, e := range j.es {
			if t.Pad > 0 {
				m, _ := regexp.Match("(?:"+e.String()+")", b[:300])
				costly = costly || m || rxRepeats(e, "xxx") || !rxCheap(e, b[t.Pad-200:], 20000)
			} else {
				costly = costly || !rxCheap(e, b, 200000)
			}
		}
		if costly {
			j.counts["costly"]++
			continue
		}
		j.texts = append(j.texts, t)
	}
}

func (j *rxJob) parse(code *vm.Code) {
	var runs []map[string]interface{}
	for _, t := range j.texts {
		b := t.bytes()
		o := exec(code, nil, rd(b), memo.NoneTable{})
		spans := [][2]int{}
		for _, cp := range o.C {
			if cp.ID != 0 || len(cp.Kids) > 0 {
				o.X = "unexpected captures"
			}
			spans = append(spans, [2]int{cp.Start, cp.Start + cp.Len})
		}
		if o.M == 1 {
			j.counts["matches"]++
		} else {
			j.counts["failures"]++
		}
		run := map[string]interface{}{"T": t, "m": o.M, "c": spans, "x": o.X}
		if len(j.gos) == 1 && j.use != "all" {
			if l := j.gos[0].FindIndex(b); l == nil {
				run["go"] = [][]int{{-1, -1}}
			} else {
				run["go"] = [][]int{l}
			}
		}
		runs = append(runs, run)
	}
	if runs != nil {
		j.rec["runs"] = runs
	}
}

func (j *rxJob) emit(c *cx) {
	for k, n := range j.counts {
		c.count(k, n)
	}
	c.emit("RegexTrace", j.rec)
}

// rxCase converts the expressions and parses the texts with the pattern made of them.
func (c *cx) rxCase(srcs []string, flags syntax.Flags, use string, mk func(es []*syntax.Regexp) []Text) {
	j := rxPrepare(srcs, flags, use)
	if j == nil {
		c.count("too large", 1)
		return
	}
	if code := j.convert(); code != nil {
		j.cheapTexts(mk(j.es))
		j.parse(code)
	}
	j.emit(c)
}

// rxEnum enumerates expressions by size.
type rxEnum struct {
	leaves, unary []string
	counts        []int
}

func (e *rxEnum) count(s int) int {
	for len(e.counts) <= s {
		n := len(e.counts)
		k := 0
		switch {
		case n == 1:
			k = len(e.leaves)
		case n > 1:
			k = len(e.unary) * e.count(n-1)
			for a := 1; a < n-1; a++ {
				k += 2 * e.count(a) * e.count(n-1-a)
			}
		}
		e.counts = append(e.counts, k)
	}
	return e.counts[s]
}

func (e *rxEnum) nth(s, i int) string {
	if s == 1 {
		return e.leaves[i]
	}
	k := e.count(s - 1)
	if i < len(e.unary)*k {
		return "(?:" + e.nth(s-1, i%k) + ")" + e.unary[i/k]
	}
	i -= len(e.unary) * k
	for a := 1; a < s-1; a++ {
		na, nb := e.count(a), e.count(s-1-a)
		if i < 2*na*nb {
			op := ""
			if i >= na*nb {
				op, i = "|", i-na*nb
			}
			l, r := e.nth(a, i/nb), e.nth(s-1-a, i%nb)
			if op == "" {
				return "(?:" + l + ")(?:" + r + ")"
			}
			return "(?:" + l + "|" + r + ")"
		}
		i -= 2 * na * nb
	}
	panic("nth")
}

var rxEnum0 = &rxEnum{leaves: []string{"a", "b", ".", "^", "$", `\b`, "", "[^a]"}, unary: []string{"*", "*?", "+", "+?", "?", "??"}}

// forms of expressions with a history of being converted wrongly
var rxForms = []string{
	`(a|ab)(c|bcd)(d*)`, `(a+|b+)*c`, `(?:a*)*`, `(?:a*)+b`, `(?:a|b?)+`, `(?:^a?)*b`, `(?:\b)*a`, `(a??)+`, `(?:a*?)*?b`,
	`a{2}`, `a{0,3}?b`, `(?:a|b){2,}`, `a**`, `a*?*?`, `(?i)k`, `(?i)K`, `(?i)straße`, `(?i)ſ`, `(?i)[k-s]`, `(?i)[^k]`, `(?i:a)b`,
	`(?s).`, `(?s:.)\n`, `.`, `.*`, `.*?`, `.+?b`, `(?m)^a$`, `(?m)^`, `(?m)$`, `^$`, `\A\z`, `$^`, `a$b`, `\bab\b`, `\Ba\B`, `\b`,
	`\B`, `(?:\b|a)b`, `[^a]`, `[^\n]`, `[^\x00-\x{10FFFF}]`, `[[:word:]]+`, `\Q*+\E`, `\Q`, `(?U)a*b`, `(?U)a*?b`, `(?U:a+?)(?:a+?)`,
	`(?i)a|A`, `a|A|b`, `abc|abd|ab`, `(?:abc|abd)*ab`, `(((a)))`, `()`, `(|a)`, `(a|)`, `(|a)*`, `(a|)*b`, `(|a)+`, `(?:(?:a|b)*c)*d`, `(?:a+b?)*c`,
	`x*`, `(?:ab?)*?c`, `(?:a|b)*?c`, `a+?`, `a??`, `a??b`, `(a|b)??c`, `\x00`, `[\x00-\x7f]`, `\pL`, `\PL`, `\p{Greek}`, `\C`, `\8`, `(`, `)`, `*`, `+a`,
	`a{2,1}`, `[b-a]`, `[`, `\`, `(?P<n>a)(?P<n>b)`, `(?z)`, `a{1001}`, `é`, `日本`, `[é]a|b`, `(?i)É|a`, `\x{10FFFF}|a`, `(a*)(a*)`, `a*a`, `a*?a`, `a+a+`,
	`(?:a?b?)c`, `(?:a?)b?$`, `(a?)*`, `(?:(?:a|ab)(?:b|))*?c`, `(?:a.)+`, `(?:.a)*`, `(?:\n|a)+`, `(?:a\b)+`, `(?:\ba)*`, `(?:a$)+`, `(?:a|\n^)+`, `^*`, `(?:^)+a`, `(?:$)?a`,
	`(?:(?:aa|a)+?b|a)`, `((?:a|b)+)((?:b|c)*)`, `a|b|`, `|a`, `||`, `(?:|)`, `(?:a||b)c`, `\141\x62`, `\a\f\t\n\r\v`, `[\a-\r]`, `[a\-c]`, `[]a]`, `[^]a]`, `[a-]`, `[-a]`,
}

func init() {
	var flags = []syntax.Flags{
		syntax.Perl, syntax.Perl, syntax.Perl, syntax.Perl, 0, syntax.Perl | syntax.FoldCase, syntax.Perl | syntax.DotNL,
		syntax.Perl | syntax.NonGreedy, syntax.Perl &^ syntax.OneLine, syntax.MatchNL, syntax.POSIX, syntax.Perl | syntax.Literal,
		syntax.FoldCase | syntax.NonGreedy | syntax.PerlX, syntax.Perl | syntax.WasDollar, syntax.UnicodeGroups | syntax.PerlX, syntax.Simple,
	}
	fixed := func(ts [][]byte) func([]*syntax.Regexp) []Text {
		return func([]*syntax.Regexp) []Text { return asTexts(ts) }
	}
	gen := func(c *cx, min, max int) (*rxGen, syntax.Flags, func() string) {
		r := c.r
		g := &rxGen{r: r, alpha: []string{"ab", "abc", "aA_ 0", "ab\n", "kKsS-", "abAB\n 0_", "a.*+?()|[]{}^$\\-"}[r.Intn(7)]}
		fl := flags[r.Intn(len(flags))]
		g.perl = fl&syntax.PerlX != 0 && fl&syntax.UnicodeGroups != 0
		g.rep = r.Intn(8) == 0
		g.lazy = r.Intn(6) == 0
		g.empty = r.Intn(4) == 0
		return g, fl, func() string { return g.expr(min + r.Intn(max-min+1)) }
	}
	properties["C14"] = func(c *ctx) []family {
		enum := func(name string, size, count int, ts [][]byte) family {
			total := rxEnum0.count(size)
			n := total
			if count > 0 && count < n {
				n = count
			}
			return family{name, n, func(c *cx, i int) {
				if n < total {
					i = c.r.Intn(total)
				}
				c.rxCase([]string{rxEnum0.nth(size, i)}, syntax.Perl, "one", fixed(ts))
			}}
		}
		return []family{
			enum("enum1", 1, 0, shortTexts("ab\n", 3)),
			enum("enum2", 2, 0, shortTexts("ab\n", 3)),
			enum("enum3", 3, 0, shortTexts("ab", 3)),
			enum("enum4", 4, c.n(1000, 0), shortTexts("ab", 4)),
			enum("enum5", 5, c.n(600, 12000), shortTexts("ab", 4)),
			enum("enum6", 6, c.n(600, 12000), shortTexts("ab", 4)),
			{"forms", len(rxForms) * 2, func(c *cx, i int) {
				fl := syntax.Flags(syntax.Perl)
				if i >= len(rxForms) {
					fl = flags[c.r.Intn(len(flags))]
				}
				c.rxCase([]string{rxForms[i%len(rxForms)]}, fl, "one", func(es []*syntax.Regexp) []Text {
					ts := shortTexts("ab\n", 3)
					ts = append(ts, rxTexts(c.r, es, "abcdABkKsS\n ", 40, 12)...)
					return asTexts(ts)
				})
			}},
			{"bytes", 128, func(c *cx, i int) {
				// every ASCII character as a literal, folded, in and out of a class, against every character
				s := regexp.QuoteMeta(string([]byte{byte(i)}))
				hi := i + c.r.Intn(128-i)
				srcs := []string{s, "(?i)" + s, fmt.Sprintf(`[\x%02x]`, i), fmt.Sprintf(`[^\x%02x]`, i), fmt.Sprintf(`(?i)[\x%02x]`, i),
					fmt.Sprintf(`[\x%02x-\x%02x]`, i, hi), fmt.Sprintf(`[^\x%02x-\x%02x]`, i, hi), `\b` + s, s + `\b`, `(?m)` + s + `$`, `(?m)^` + s,
					`.`, `(?s).`, `.` + s, s + `.`, `a.`, `\B` + s, s + `\B`, `^` + s, s + `$`, `\w`, `\W`, `\s`, `\S`, `\d`, `\D`,
					`[[:alpha:]]`, `[[:^space:]]`, `[[:punct:]]`, `[[:cntrl:]]`, `\pL`, `\PL`, `[^a]`, s + `+.`, `(?U)` + s + `.*`, `.*?` + s}
				for _, s := range srcs {
					var all [][]byte
					for b := 0; b < 128; b++ {
						if b%8 == i%8 || b == i || b == hi || b^32 == i {
							all = append(all, []byte{byte(b)}, []byte{byte(i), byte(b)}, []byte{byte(b), byte(i)})
						}
					}
					c.rxCase([]string{s}, syntax.Perl, "one", fixed(all))
				}
			}},
			{"rand", c.n(2500, 60000), func(c *cx, i int) {
				g, fl, expr := gen(c, 2, 9)
				c.rxCase([]string{expr()}, fl, "one", func(es []*syntax.Regexp) []Text {
					return asTexts(rxTexts(c.r, es, g.alpha, 12, 12))
				})
			}},
			{"big", c.n(300, 8000), func(c *cx, i int) {
				g, fl, expr := gen(c, 10, 22)
				c.rxCase([]string{expr()}, fl, "one", func(es []*syntax.Regexp) []Text {
					return asTexts(rxTexts(c.r, es, g.alpha, 10, 20))
				})
			}},
			{"many", c.n(500, 10000), func(c *cx, i int) {
				g, fl, expr := gen(c, 1, 5)
				var srcs []string
				for n := 2 + c.r.Intn(3); n > 0; n-- {
					srcs = append(srcs, expr())
				}
				use := "one"
				if c.r.Intn(2) == 0 {
					use = "rules"
				}
				c.rxCase(srcs, fl, use, func(es []*syntax.Regexp) []Text {
					return asTexts(rxTexts(c.r, es, g.alpha, 10, 16))
				})
			}},
			{"all", c.n(400, 10000), func(c *cx, i int) {
				g, fl, expr := gen(c, 1, 6)
				c.rxCase([]string{expr()}, fl, "all", func(es []*syntax.Regexp) []Text {
					var ees []*syntax.Regexp
					for n := 1 + c.r.Intn(3); n > 0; n-- {
						ees = append(ees, es...)
					}
					return asTexts(rxTexts(c.r, ees, g.alpha, 10, 16))
				})
			}},
			{"unicode", c.n(1500, 30000), func(c *cx, i int) {
				// expressions and texts beyond ASCII
				g, fl, _ := gen(c, 1, 6)
				g.uni = []rune([]string{"aé", "éÉàÿ\u07ff\u0800", "kK\u212asS\u017f", "日本語a\n", "\U0001F600\U0010FFFF\uffff\U00010000a", "\u007f\u0080\u07ff\u0800\ud7ff\ue000\uffff\U00010000",
					"Σσςα", "ǅǆǄa", "a\u00e9\u65e5\U0001F600", "\u0fff\u1000\u103f\u1040\U0003ffff\U00040000\U00040fff"}[c.r.Intn(10)])
				g.alpha = string(g.uni)
				srcs := []string{g.expr(1 + c.r.Intn(6))}
				use := "one"
				switch c.r.Intn(6) {
				case 0:
					use = "all"
				case 1:
					srcs = append(srcs, g.expr(1+c.r.Intn(3)))
				}
				c.rxCase(srcs, fl, use, func(es []*syntax.Regexp) []Text {
					return asTexts(rxTextsU(c.r, es, g.alpha, 14, 10, true))
				})
			}},
			{"ranges", c.n(600, 20000), func(c *cx, i int) {
				// classes of wide ranges
				r := c.r
				edge := func() rune {
					for {
						c := []rune{0, 0x7f, 0x80, 0xbf, 0xc0, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff}[r.Intn(19)]
						switch r.Intn(4) {
						case 0:
							c += rune(r.Intn(3) - 1)
						case 1:
							c += rune(r.Intn(200) - 100)
						case 2:
							c = rune(r.Intn(0x110000)) >> uint(r.Intn(16))
						}
						if utf8.ValidRune(c) {
							return c
						}
					}
				}
				s := "["
				if r.Intn(3) == 0 {
					s += "^"
				}
				for n := 1 + r.Intn(3); n > 0; n-- {
					lo, hi := edge(), edge()
					if lo > hi {
						lo, hi = hi, lo
					}
					s += fmt.Sprintf(`\x{%x}-\x{%x}`, lo, hi)
				}
				s += "]"
				if r.Intn(3) == 0 {
					s = "(?i)" + s
				}
				if r.Intn(3) == 0 {
					s += "+"
				}
				c.rxCase([]string{s}, syntax.Perl, "one", func(es []*syntax.Regexp) []Text {
					return asTexts(rxTextsU(r, es, "a\u007f\u0080\u07ff\u0800\ud7ff\ue000\uffff\U00010000\U0010ffff", 20, 8, true))
				})
			}},
			{"stars", c.n(150, 3000), func(c *cx, i int) {
				// repetitions of many repetitions
				r := c.r
				piece := func() string {
					s := []string{"a", "b", "c", "[ab]", "(?:ab|c)", "(?:a|b+c)"}[r.Intn(6)]
					return s + []string{"*", "+", "*?", "?", "+?"}[r.Intn(5)]
				}
				s := ""
				for n := 2 + r.Intn(14); n > 0; n-- {
					s += piece()
					if r.Intn(4) == 0 {
						s += "d"
					}
				}
				s += "d"
				for n := r.Intn(3); n > 0; n-- {
					s = "(?:" + s + ")" + []string{"*", "+", "*?"}[r.Intn(3)] + []string{"d", "e", "$"}[r.Intn(3)]
				}
				c.rxCase([]string{s}, syntax.Perl, "one", func(es []*syntax.Regexp) []Text {
					return asTexts(rxTexts(r, es, "abcd", 10, 24))
				})
			}},
			{"boundary", c.n(80, 1200), func(c *cx, i int) {
				// matches across the ends of read buffers
				g, fl, expr := gen(c, 2, 7)
				g.alpha = strings.ReplaceAll(g.alpha, "x", "y")
				c.rxCase([]string{"x" + []string{"", ".", "?"}[c.r.Intn(3)] + g.group(expr())}, fl, "one", func(es []*syntax.Regexp) []Text {
					var ts []Text
					for _, t := range rxTexts(c.r, es, g.alpha, 4, 10) {
						ts = append(ts, Text{Pad: 4090 + c.r.Intn(12), PB: 'x', T: t})
					}
					return ts
				})
			}},
			{"long", c.n(8, 40), func(c *cx, i int) {
				// long but simple expressions compile and match
				n := 200 + 200*i
				var s string
				switch c.r.Intn(4) {
				case 0:
					s = strings.Repeat("a.", n)
				case 1:
					s = strings.Repeat("[ab]c", n)
				case 2:
					s = strings.Repeat("(?:a)(.)", n) + "$"
				case 3:
					s = strings.Repeat("ab|", n) + "c"
				}
				c.rxCase([]string{s}, syntax.Perl, "long", fixed(nil))
			}},
		}
	}
}
