package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
)

// C12, C13: the textual PEG notation.

// printer writes a pattern in the notation, in one of many ways.
type printer struct {
	r     *rand.Rand
	p     *P
	names map[string]string
	bad   bool
	// few spaces and parentheses
	neat bool
}

func (w *printer) sp() string {
	if w.neat {
		return " "
	}
	s := ""
	for w.r.Intn(3) == 0 {
		s += []string{" ", "\t", "\n", "\r\n", "\r", "  ", "# c\n", "#\n", "#'\"[({<-\r\n", "# x # y\r", "# a <- 'b'\n"}[w.r.Intn(11)]
	}
	return s
}

func (w *printer) char(b byte, quote byte, inClass bool) string {
	must := b == '\\' || b == quote || (inClass && b == ']')
	simple := map[byte]string{'\n': `\n`, '\r': `\r`, '\t': `\t`, '\'': `\'`, '"': `\"`, '[': `\[`, ']': `\]`, '\\': `\\`, '-': `\-`}
	if e, ok := simple[b]; ok && (must || w.r.Intn(2) == 0) {
		return e
	}
	if must || (b < 0300 && w.r.Intn(5) == 0) {
		if b >= 0300 {
			w.bad = true
		}
		return fmt.Sprintf("\\%03o", b)
	}
	return string([]byte{b})
}

// octal writes with fewer digits when nothing that follows can be taken for one.
func shortOctal(b byte, next string) string {
	if next != "" && next[0] >= '0' && next[0] <= '9' {
		return fmt.Sprintf("\\%03o", b)
	}
	return fmt.Sprintf("\\%o", b)
}

func (w *printer) literal(s []byte) string {
	q := byte('\'')
	if w.r.Intn(2) == 0 {
		q = '"'
	}
	out := ""
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] < 64 && w.r.Intn(10) == 0 {
			out = shortOctal(s[i], out) + out
			continue
		}
		out = w.char(s[i], q, false) + out
	}
	return string(q) + out + string(q)
}

func (w *printer) class(rs [][2]int) string {
	r := w.r
	in := func(b int) bool {
		for _, x := range rs {
			if x[0] <= b && b <= x[1] {
				return true
			}
		}
		return false
	}
	neg := r.Intn(3) == 0
	var items [][2]int
	for b := 0; b < 256; b++ {
		if in(b) != neg {
			if n := len(items); n > 0 && items[n-1][1] == b-1 && r.Intn(12) > 0 {
				items[n-1][1] = b
			} else {
				items = append(items, [2]int{b, b})
			}
		}
	}
	r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	if len(items) > 0 && r.Intn(4) == 0 {
		// some of it twice, and an empty range
		items = append(items, items[r.Intn(len(items))])
	}
	out := ""
	for _, x := range items {
		one := func(b int) string {
			c := w.char(byte(b), 0, true)
			// these would be read as something else
			if c == "-" || (c == "^" && out == "") {
				return fmt.Sprintf("\\%03o", b)
			}
			return c
		}
		switch {
		case x[0] == x[1] && r.Intn(10) > 0:
			out += one(x[0])
		case x[1] == x[0]+1 && r.Intn(2) == 0:
			out += one(x[0])
			out += one(x[1])
		default:
			out += one(x[0])
			out += "-" + one(x[1])
		}
	}
	if r.Intn(15) == 0 {
		out += "z-a"
	}
	if neg {
		s := ""
		if r.Intn(6) == 0 {
			s = w.sp()
		}
		// a space after the caret is not part of the class
		if s == "" && out != "" && strings.ContainsRune(" \t\n\r#", rune(out[0])) {
			out = fmt.Sprintf("\\%03o", out[0]) + out[1:]
		} else if s != "" && out != "" && strings.ContainsRune(" \t\n\r#", rune(out[0])) {
			out = fmt.Sprintf("\\%03o", out[0]) + out[1:]
		}
		return "[^" + s + out + "]"
	}
	return "[" + out + "]"
}

const (
	lvAlt = iota
	lvSeq
	lvPrefix
	lvSuffix
	lvPrimary
)

func (w *printer) show(k, lv int) string {
	n := w.p.at(k)
	paren := func(own int, s string) string {
		if own < lv || (!w.neat && w.r.Intn(12) == 0) {
			return "(" + w.sp() + s + ")" + w.sp()
		}
		return s
	}
	flat := func(t string) []int {
		var ks []int
		for w.p.at(k).T == t {
			if w.r.Intn(8) == 0 && len(ks) > 0 {
				break
			}
			ks = append(ks, w.p.at(k).A)
			k = w.p.at(k).B
		}
		return append(ks, k)
	}
	switch n.T {
	case "lit":
		return paren(lvPrimary, w.literal(n.S)+w.sp())
	case "set":
		return paren(lvPrimary, w.class(n.R)+w.sp())
	case "any":
		if n.N == 1 {
			return paren(lvPrimary, "."+w.sp())
		}
		s := ""
		for i := 0; i < n.N; i++ {
			s += "." + w.sp()
		}
		return paren(lvSeq, s)
	case "empty":
		return paren(lvSeq, []string{"", "''", "\"\"", "()"}[w.r.Intn(4)]+w.sp())
	case "seq":
		s := ""
		for _, x := range flat("seq") {
			t := w.show(x, lvPrefix)
			if s != "" && t != "" && isWord(s[len(s)-1]) && isWord(t[0]) {
				s += " "
			}
			s += t
		}
		return paren(lvSeq, s)
	case "alt":
		s := ""
		for i, x := range flat("alt") {
			if i > 0 {
				s += "/" + w.sp()
			}
			s += w.show(x, lvSeq)
		}
		return paren(lvAlt, s)
	case "star", "plus", "opt":
		return paren(lvSuffix, w.show(n.A, lvPrimary)+map[string]string{"star": "*", "plus": "+", "opt": "?"}[n.T]+w.sp())
	case "not", "and":
		return paren(lvPrefix, map[string]string{"not": "!", "and": "&"}[n.T]+w.sp()+w.show(n.A, lvSuffix))
	case "rep":
		s := ""
		for i := 0; i < n.N; i++ {
			t := w.show(n.A, lvPrefix)
			if s != "" && t != "" && isWord(s[len(s)-1]) && isWord(t[0]) {
				s += " "
			}
			s += t
		}
		return paren(lvSeq, s)
	case "memo":
		return paren(lvPrimary, "{{"+w.sp()+w.show(n.A, lvAlt)+"}}"+w.sp())
	case "nt":
		return paren(lvPrimary, w.names[n.Nm]+w.sp())
	}
	w.bad = true
	return ""
}

func isWord(b byte) bool {
	return b == '_' || (b >= '0' && b <= '9') || (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z')
}

func (w *printer) ident() string {
	r := w.r
	if r.Intn(12) == 0 {
		return []string{"start", "Start", "S", "main", "Pattern", "Grammar", "EOF", "_", "a1", "A_", "Space", "Identifier"}[r.Intn(12)]
	}
	if r.Intn(25) == 0 { // long names that differ at the end only
		return strings.Repeat("aLongName_", []int{3, 6, 7, 13, 26}[r.Intn(5)]) + string("abc012"[r.Intn(6)])
	}
	const start = "abcxyzABCXYZ_"
	const cont = start + "0189"
	s := string(start[r.Intn(len(start))])
	for r.Intn(3) > 0 {
		s += string(cont[r.Intn(len(cont))])
	}
	return s
}

// text prints the whole pattern; names maps rules to what they are called.
func (w *printer) text() string {
	root := w.p.at(w.p.Root)
	w.names = map[string]string{}
	if root.T != "gram" {
		return w.sp() + w.show(w.p.Root, lvAlt)
	}
	used := map[string]bool{}
	for _, d := range root.D {
		s := w.ident()
		for used[s] {
			s = w.ident() + w.ident()
		}
		used[s] = true
		w.names[d.Nm] = s
	}
	// the start rule comes first
	ds := append([]Def{}, root.D...)
	for i, d := range ds {
		if d.Nm == root.Nm {
			ds[0], ds[i] = ds[i], ds[0]
		}
	}
	w.r.Shuffle(len(ds)-1, func(i, j int) { ds[i+1], ds[j+1] = ds[j+1], ds[i+1] })
	s := w.sp()
	for i, d := range ds {
		if i > 0 && s != "" && isWord(s[len(s)-1]) {
			s += "\n"
		}
		s += w.names[d.Nm] + w.sp() + "<-" + w.sp() + w.show(d.K, lvAlt)
	}
	return s
}

// reText is what was observed for one text.
type reRun struct {
	T    Text   `json:"T"`
	X    string `json:"x"`
	M    int    `json:"m"`
	P    int    `json:"p"`
	C    []Cp   `json:"c"`
	Gets int    `json:"gets"`
}

// readText has the text read and compiled and parses the inputs with it.
func (c *cx) readText(s string, auto bool, inputs [][]byte, fields []string) map[string]interface{} {
	o := map[string]interface{}{"s": ints([]byte(s)), "str": fmt.Sprintf("%q", s), "cap": b2i(auto), "cres": "",
		"nm": []int{}, "ids": [][]interface{}{}, "runs": []reRun{}, "f": fields}
	var q pattern.Pattern
	var err error
	ids := map[string]int{}
	if x := guard(func() {
		if auto {
			q, err = re.CompileCap(s, ids)
		} else {
			q, err = re.Compile(s)
		}
	}); x != "" {
		o["res"] = x
		return o
	}
	if err != nil {
		o["res"] = "error"
		return o
	}
	o["res"] = "ok"
	var code vm.Code
	if x := guard(func() {
		prog, e := pattern.Compile(q)
		if e != nil {
			err = e
			return
		}
		code = vm.Encode(prog)
	}); x != "" {
		o["cres"] = x
		return o
	}
	var nf *pattern.NotFoundError
	switch {
	case errors.As(err, &nf):
		o["cres"] = "notfound"
		o["nm"] = ints([]byte(nf.Name))
		return o
	case err != nil:
		o["cres"] = err.Error()
		return o
	}
	o["cres"] = "ok"
	il := [][]interface{}{}
	for _, nm := range sortedIDs(ids) {
		il = append(il, []interface{}{ints([]byte(nm)), ids[nm]})
	}
	o["ids"] = il
	runs := []reRun{}
	for i, in := range inputs {
		tbl := &counting{Table: memo.NewTreeTable(0)}
		var ob *Obs
		gets := -1
		if i%2 == 0 {
			ob = exec(&code, nil, bytes.NewReader(in), tbl)
			gets = tbl.gets
		} else {
			ob = exec(&code, nil, bytes.NewReader(in), memo.NoneTable{})
		}
		cs := ob.C
		if !auto {
			if len(cs) > 0 {
				ob.X = "captures that nobody asked for"
			}
			cs = nil
		}
		runs = append(runs, reRun{T: txt(in), X: ob.X, M: ob.M, P: ob.P, C: caps(cs), Gets: gets})
	}
	o["runs"] = runs
	return o
}

func sortedIDs(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func genRe(r *rand.Rand) *gen {
	g := newGen(r)
	if r.Intn(4) == 0 {
		g.alpha = [][]byte{[]byte("'\"\\[]-^"), []byte("n0\n#"), []byte("(){}/<-"), []byte("\t\r\n "), {0, 7, 8, 63, 64, 127, 128, 191, 192, 255}}[r.Intn(5)]
	}
	g.caps, g.search, g.gram, g.eops = false, false, false, false
	g.memo = r.Intn(2) == 0
	return g
}

// writtenApart joins patterns that were written apart: their memoized parts are
// theirs alone.
func writtenApart(c *cx) {
	r := c.r
	g := genRe(r)
	g.memo = true
	for try := 0; try < 200; try++ {
		g.p = &P{}
		var ks []int
		var qs []pattern.Pattern
		bad := ""
		for n := 2 + r.Intn(2); n > 0 && bad == ""; n-- {
			g.scope, g.memos, g.grams, g.memoN, g.pure = nil, nil, 0, 0, false
			var k int
			if r.Intn(2) == 0 {
				k = g.grammar(1 + r.Intn(5))
			} else {
				k = g.p.un("memo", g.node(1+r.Intn(5)))
			}
			g.p.Root = k
			if !g.p.wf() {
				bad = "ill-formed"
				break
			}
			w := &printer{r: r, p: g.p, neat: r.Intn(2) == 0}
			s := w.text()
			if w.bad || len(s) > 1500 {
				bad = "unprintable"
				break
			}
			var q pattern.Pattern
			var err error
			x := guard(func() { q, err = re.Compile(s) })
			if x != "" || err != nil {
				c.parseRec(g.p, []Run{{T: txt([]byte("a")), Obs: obs1(&Obs{X: fmt.Sprint(x, err, " reading ", s)})}}, []string{"m"})
				return
			}
			ks = append(ks, k)
			qs = append(qs, q)
		}
		if bad != "" {
			continue
		}
		var q pattern.Pattern
		switch r.Intn(3) {
		case 0:
			g.p.Root = g.p.alt(ks...)
			q = pattern.Or(qs...)
		case 1:
			g.p.Root = g.p.seq(ks...)
			q = pattern.Concat(qs...)
		case 2:
			g.p.Root = g.p.seq(g.p.un("not", ks[0]), ks[1])
			q = pattern.Concat(pattern.Not(qs[0]), qs[1])
		}
		if !g.p.wf() {
			continue
		}
		code, x := compileP(q)
		var runs []Run
		for _, t := range asTexts(g.texts(g.p, 6, 20)) {
			var gr group
			if x != "" {
				gr.add("compile", &Obs{X: x})
			} else {
				gr.add("none", exec(code, nil, rd(t.bytes()), memo.NoneTable{}))
				tbl := memo.NewTreeTable(0)
				gr.add("tree", exec(code, nil, rd(t.bytes()), tbl))
				gr.add("tree again", exec(code, nil, rd(t.bytes()), tbl))
			}
			runs = append(runs, Run{T: t, Obs: gr.list()})
		}
		c.count("written apart", 1)
		c.parseRec(g.p, runs, fieldsMP)
		return
	}
}

// written prints random patterns and has them read back.
func written(c *cx, size int, auto bool) {
	g := genRe(c.r)
	var texts []map[string]interface{}
	for k := 0; k < 4; k++ {
		for {
			g.p = &P{}
			g.scope, g.memos, g.grams, g.memoN, g.pure = nil, nil, 0, 0, false
			if auto || c.r.Intn(2) == 0 {
				g.p.Root = g.grammar(1 + c.r.Intn(size))
			} else {
				g.p.Root = g.node(1 + c.r.Intn(size))
			}
			if !g.p.wf() {
				continue
			}
			w := &printer{r: c.r, p: g.p, neat: c.r.Intn(4) == 0}
			s := w.text()
			if w.bad || len(s) > 1500 {
				continue
			}
			f := []string{"p"}
			if auto {
				f = append(f, "c")
			}
			texts = append(texts, c.readText(s, auto, g.texts(g.p, 6, 20), f))
			break
		}
	}
	c.count("texts", len(texts))
	c.emit("ReSyntax", map[string]interface{}{"texts": texts})
}

// manyWritten writes patterns with hundreds of distinct classes or rules.
func manyWritten(c *cx, i int) {
	for try := 0; try < 100; try++ {
		p, ts := c.many(manySets, manyRules)
		for k := range p.N {
			switch n := &p.N[k]; n.T { // what the notation lacks
			case "search":
				n.T = "plus"
			case "cap":
				*n = *p.at(n.A)
			case "gram": // only the whole may be a grammar
				if k+1 != p.Root {
					g := *n
					*n = Nd{T: "nt", Nm: g.Nm}
					p.Root = p.gram("Main", append(append([]Def{}, g.D...), Def{"Main", p.Root}))
				}
			}
		}
		if !p.wf() {
			continue
		}
		w := &printer{r: c.r, p: p, neat: true}
		s := w.text()
		if w.bad || len(s) > 16000 {
			continue
		}
		var texts [][]byte
		for _, t := range ts {
			texts = append(texts, t.bytes())
		}
		c.count("texts", 1)
		c.emit("ReSyntax", map[string]interface{}{"texts": []map[string]interface{}{c.readText(s, false, texts, []string{"p"})}})
		return
	}
	c.count("none found", 1)
}

var reAlphabet = "ab'\"()/[]^-\\07.?&! #\n{}<n*+:x"

// short texts, all of them: without repetition each can also be run.
func shorts(c *cx, n, lo, hi int) {
	var texts []map[string]interface{}
	for k := lo; k < hi; k++ {
		b := make([]byte, n)
		x := k
		for i := range b {
			b[i] = reAlphabet[x%len(reAlphabet)]
			x /= len(reAlphabet)
		}
		texts = append(texts, c.soup(string(b)))
	}
	c.count("texts", len(texts))
	c.emit("ReSyntax", map[string]interface{}{"texts": texts})
}

func (c *cx) soup(s string) map[string]interface{} {
	var ins [][]byte
	if !strings.ContainsAny(s, "*+") && !strings.Contains(s, "<-") {
		ins = [][]byte{[]byte("a"), []byte("ab"), []byte("-0")}
		if len(s) > 2 {
			// what it says itself
			ins = append(ins, []byte(s[1:len(s)-1]))
		}
	}
	return c.readText(s, false, ins, []string{"p"})
}

func pow(b, e int) int {
	n := 1
	for ; e > 0; e-- {
		n *= b
	}
	return n
}

var reTokens = []string{"a", "A1", "<-", "/", "(", ")", "'", "\"", "[", "]", "[^", "-", "^", "\\", "\\n", "\\'", "\\]", "\\0", "\\277", "\\377",
	"\\300", "\\08", "\\8", "\\-", ".", "?", "*", "+", "&", "!", "#", "#\n", " ", "\n", "\r", "\t", "{{", "}}", "{", "}", "<", "a<-", "'x'", "[a-c]", "\"y\"", "()",
	"\x00", "\xff", "é", ";", "%", "$", "\f", "\v", "\u00a0", "\x85", "\xa0", "\u2028", "\u3000", "\ufeff", "\b", "\x1a", "start", "<--", "←", "->", "="}

// everyByte puts a byte in every kind of place.
func everyByte(c *cx, i int) {
	b := string([]byte{byte(i)})
	var texts []map[string]interface{}
	for _, s := range []string{
		b, b + "'a'", "'a'" + b, "'a'" + b + "'b'", "'a' " + b + " 'b'", "'" + b + "'", "\"" + b + "\"", "'x" + b + "y'", "[" + b + "]", "[^" + b + "]",
		"[a" + b + "]", "[" + b + "z]", "[" + b + "-z]", "[!-" + b + "]", "[a-c" + b + "x]", "'\\" + b + "'", "\"\\" + b + "\"", "[\\" + b + "]",
		"[\\" + b + "-z]", "[!-\\" + b + "]", "'\\" + b + "1'", "'\\1" + b + "'", "'\\12" + b + "'", "'\\123" + b + "'", "[\\1" + b + "]",
		"a" + b + "<-'x'", "a<-" + b + "'x'", "a<-'x'" + b, "a<-'x'" + b + "b<-'y'", b + "a<-'x'", "a<-'x' b" + b + "<-'y'", "a<" + b + "-'x'",
		"a" + b + "b <- 'x'", b + "1 <- 'y'", "1" + b + " <- 'y'", "a <- " + b + "1\n" + b + "1 <- 'x'",
		"('a'" + b + "'b')", "(" + b + "'a')", "('a'" + b + ")", "'a'" + b + "*", "!" + b + "'a'", "&" + b + "'a'", "'a' # " + b + "\n'b'", "#" + b + "'a'",
		"'a'/" + b + "'b'", "'a'" + b + "/'b'", "." + b, ".." + b + "'a'", "'a'?" + b, "'a'?" + b + "'b'", "{{" + b + "'a'}}", "{" + b + "'a'}",
	} {
		texts = append(texts, c.soup(s))
	}
	c.count("texts", len(texts))
	c.emit("ReSyntax", map[string]interface{}{"texts": texts})
}

// garbled takes a good text and damages it.
func garbled(c *cx) {
	r := c.r
	g := genRe(r)
	var texts []map[string]interface{}
	for k := 0; k < 10; k++ {
		s := ""
		if k%2 == 0 {
			for n := 1 + r.Intn(12); n > 0; n-- {
				s += reTokens[r.Intn(len(reTokens))]
			}
		} else {
			g.p = &P{}
			g.scope, g.memos = nil, nil
			if r.Intn(2) == 0 {
				g.p.Root = g.grammar(1 + r.Intn(8))
			} else {
				g.p.Root = g.node(1 + r.Intn(8))
			}
			w := &printer{r: r, p: g.p, neat: r.Intn(2) == 0}
			s = w.text()
			for n := 1 + r.Intn(2); n > 0; n-- {
				i := r.Intn(len(s) + 1)
				j := min(len(s), i+r.Intn(3))
				switch r.Intn(4) {
				case 0:
					s = s[:i] + s[j:]
				case 1:
					s = s[:i] + reTokens[r.Intn(len(reTokens))] + s[i:]
				case 2:
					s = s[:i] + reTokens[r.Intn(len(reTokens))] + s[j:]
				case 3:
					s = s[:i]
				}
			}
			if len(s) > 800 {
				s = s[:800]
			}
		}
		texts = append(texts, c.readText(s, false, nil, []string{}))
	}
	c.count("texts", len(texts))
	c.emit("ReSyntax", map[string]interface{}{"texts": texts})
}

// dangling grammars refer to rules nobody defines.
func dangling(c *cx) {
	r := c.r
	g := genRe(r)
	var texts []map[string]interface{}
	for k := 0; k < 5; k++ {
		g.p = &P{}
		g.scope, g.memos = nil, nil
		g.p.Root = g.grammar(1 + r.Intn(10))
		w := &printer{r: r, p: g.p, neat: true}
		s := w.text()
		root := g.p.at(g.p.Root)
		nm := w.names[root.D[r.Intn(len(root.D))].Nm]
		s = strings.Replace(s, nm+" <-", nm+"x <-", 1)
		if len(s) < 1000 {
			texts = append(texts, c.readText(s, false, nil, []string{}))
		}
	}
	c.emit("ReSyntax", map[string]interface{}{"texts": texts})
}

// nestedText is deep or long.
func nestedText(c *cx, i int) {
	open, mid, end := "(", "'a'", ")"
	switch i % 6 {
	case 1:
		open, mid, end = "{{", "'a'", "}}"
	case 2:
		open, mid, end = "!(", "'a'", ")"
	case 3:
		open, mid, end = "'b'/(", "'a'", ")"
	case 4:
		open, mid, end = "'a' ", "", ""
	case 5:
		open, mid, end = "'a'/", "'b'", ""
	}
	n := 5 + i*3
	s := strings.Repeat(open, n) + mid + strings.Repeat(end, n)
	texts := []map[string]interface{}{c.readText(s, false, [][]byte{[]byte("a"), []byte("b"), []byte(strings.Repeat("a", n))}, []string{"p"})}
	for _, cut := range []string{s[:len(s)-1], s + ")", s[:len(s)/2]} {
		texts = append(texts, c.readText(cut, false, nil, []string{"p"}))
	}
	c.emit("ReSyntax", map[string]interface{}{"texts": texts})
}

var charPieces = []string{"-", "^", "a", "b", "c", "z", "0", "7", "8", "9", " ", "\n", "#", "'", "\"", "[", ".", "/", "\\-", "\\]", "\\[", "\\\\", "\\n", "\\t", "\\r",
	"\\'", "\\\"", "\\0", "\\7", "\\01", "\\18", "\\60", "\\55", "\\055", "\\136", "\\101", "\\177", "\\200", "\\277", "\\377", "\\28", "\\300", "\\378",
	"\x00", "\x7f", "\x80", "\xfe", "\xff", "é"}

// classes are texts of one class, of any characters in any order, tried on
// every byte that may matter.
func classes(c *cx) {
	r := c.r
	var texts []map[string]interface{}
	for k := 0; k < 4; k++ {
		s := "["
		for n := r.Intn(7); n > 0; n-- {
			if r.Intn(3) == 0 {
				s += charPieces[r.Intn(len(charPieces))] + "-"
			}
			s += charPieces[r.Intn(len(charPieces))]
		}
		s += "]"
		if r.Intn(8) == 0 {
			s = "!" + s + "."
		}
		ins := [][]byte{nil, {'\\'}, {'-'}, {'^'}, {'['}, {']'}, {0}, {255}, {128}, {'n'}, {'\n'}, {'-' - 1}, {'-' + 1}, {byte(r.Intn(256))}, {byte(r.Intn(256))}, {byte(r.Intn(256))}}
		for i := 1; i < len(s)-1; i++ {
			ins = append(ins, []byte{s[i] + byte(r.Intn(3)) - 1}, s2b(s[i:i+1]))
		}
		for i := 1; i < len(s)-3; i++ {
			var v int
			if n, _ := fmt.Sscanf(s[i:], "\\%o", &v); n == 1 && v < 256 {
				ins = append(ins, []byte{byte(v)}, []byte{byte(v + 1)}, []byte{byte(v - 1)})
			}
		}
		texts = append(texts, c.readText(s, false, ins, []string{"p"}))
	}
	c.count("texts", len(texts))
	c.emit("ReSyntax", map[string]interface{}{"texts": texts})
}

func s2b(s string) []byte { return []byte(s) }

// quoted are texts of literals with all kinds of escapes, tried on what they
// say and on what they could be mistaken for.
func quoted(c *cx) {
	r := c.r
	simple := map[byte]byte{'n': '\n', 'r': '\r', 't': '\t'}
	var texts []map[string]interface{}
	for k := 0; k < 6; k++ {
		q := "'\""[r.Intn(2)]
		s, a, b := "", []byte{}, []byte{}
		for n := r.Intn(6); n > 0; n-- {
			x := charPieces[r.Intn(len(charPieces))]
			if x[0] == q && r.Intn(8) > 0 {
				continue
			}
			s += x
		}
		for i := 0; i < len(s); {
			if s[i] != '\\' || i+1 == len(s) {
				a, b = append(a, s[i]), append(b, s[i])
				i++
				continue
			}
			i++
			if s[i] < '0' || s[i] > '7' {
				x := s[i]
				if y, ok := simple[x]; ok {
					x = y
				}
				a, b = append(a, x), append(b, s[i])
				i++
				continue
			}
			v, j := 0, i
			for j < len(s) && j < i+3 && s[j] >= '0' && s[j] <= '7' && v*8+int(s[j]-'0') < 256 {
				v = v*8 + int(s[j]-'0')
				j++
			}
			if j == i+3 && s[i] > '2' {
				j--
				v /= 8
			}
			a, b = append(a, byte(v)), append(b, s[i:j]...)
			i = j
		}
		ins := [][]byte{a, b, append(append([]byte{}, a...), 'a')}
		if len(a) > 0 {
			ins = append(ins, a[:len(a)-1], a[1:])
		}
		s = string([]byte{q}) + s + string([]byte{q})
		texts = append(texts, c.readText(s, false, ins, []string{"p"}))
	}
	c.count("texts", len(texts))
	c.emit("ReSyntax", map[string]interface{}{"texts": texts})
}

// deepText nests far deeper than the specification can read.
func deepText(c *cx, i int) {
	kinds := []struct{ kind, open, end string }{{"group", "(", ")"}, {"memo", "{{", "}}"}, {"opt", "(", ")?"}, {"not", "!(", ")"}}
	k := kinds[i%4]
	depths := []int{400, 2000, 9000, 60000, 150000, 400000}
	n := depths[i/4%len(depths)]
	if k.kind == "not" && n == 9000 {
		n = 3000
	}
	closed := n
	if c.r.Intn(6) == 0 {
		closed--
	}
	s := strings.Repeat(k.open, n) + "'a'" + strings.Repeat(k.end, closed)
	o := c.readText(s, false, [][]byte{[]byte("a"), []byte("b"), nil}, []string{"p"})
	delete(o, "s")
	delete(o, "str")
	o["n"], o["closed"], o["kind"] = n, closed, k.kind
	c.emit("ReSyntax", map[string]interface{}{"deep": o})
}

// fixed are texts chosen by hand with inputs.
var fixedTexts = []struct {
	s   string
	ins []string
}{
	{"", []string{"", "a"}},
	{" # only a comment\n", []string{"", "a"}},
	{"# unfinished comment", []string{""}},
	{"'a' 'b' / 'c'", []string{"ab", "c", "ac", "a"}},
	{"'a' / 'b' 'c'", []string{"a", "bc", "ac", "b"}},
	{"'a' ('b' / 'c')", []string{"ab", "ac", "c"}},
	{"!'a' .", []string{"a", "b", ""}},
	{"!'a'? .", []string{"a", "b", ""}},
	{"&'a'+ .", []string{"aa", "b"}},
	{"!.", []string{"", "a"}},
	{"'a'?'a'", []string{"a", "aa"}},
	{"'a'*'b'", []string{"aab", "b"}},
	{"/ 'a'", []string{"a", ""}},
	{"'a' /", []string{"a", "b"}},
	{"'a' // 'b'", []string{"a", "b"}},
	{"[a-]", []string{"a", "-"}},
	{"[a-]]", []string{"a", "]", "^", "b"}},
	{"[-a]", []string{"a", "-"}},
	{"[a\\-z]", []string{"a", "-", "m", "z"}},
	{"[a-c-e]", []string{"b", "-", "d", "e"}},
	{"[^]", []string{"a", "]"}},
	{"[^^]", []string{"a", "^"}},
	{"[a^]", []string{"a", "^", "b"}},
	{"[\\^]", []string{"^"}},
	{"[]", []string{"a", ""}},
	{"[^] ]", []string{"a"}},
	{"[^ a]", []string{"a", " ", "b"}},
	{"[^\\040a]", []string{"a", " ", "b"}},
	{"[\\]]", []string{"]", "\\"}},
	{"[\\[]", []string{"[", "\\"}},
	{"[[]", []string{"[", "\\"}},
	{"'[' / ']'", []string{"[", "]"}},
	{"'\\0'", []string{"\x00", "0", ""}},
	{"'\\07'", []string{"\x07", "\x007"}},
	{"'\\077'", []string{"?", "\x077"}},
	{"'\\0777'", []string{"?7", "?"}},
	{"'\\100'", []string{"@"}},
	{"'\\177'", []string{"\x7f"}},
	{"'\\200'", []string{"\x80"}},
	{"'\\277'", []string{"\xbf"}},
	{"'\\300'", []string{"\xc0", "\x180"}},
	{"'\\377'", []string{"\xff", "\x1f7"}},
	{"'\\8'", []string{"8"}},
	{"'\\08'", []string{"\x008"}},
	{"'\\78'", []string{"\x078", "\x078"}},
	{"'\\'", []string{"\\"}},
	{"'\\x'", []string{"x"}},
	{"\"'\"", []string{"'"}},
	{"'\"'", []string{"\""}},
	{"'\\''", []string{"'"}},
	{"\"\\\"\"", []string{"\""}},
	{"\"\\'\"", []string{"'"}},
	{"'a\nb'", []string{"a\nb"}},
	{"'#'", []string{"#"}},
	{"[#]", []string{"#"}},
	{"'a'#'b'\n'c'", []string{"ac", "abc"}},
	{"'a'#'b'\r'c'", []string{"ac", "abc"}},
	{"'a'#'b'\r\n'c'", []string{"ac", "abc"}},
	{"S <- 'a' S / 'b'", []string{"aab", "b", "aa"}},
	{"S <- A B A <- 'a' B <- 'b'", []string{"ab", "a"}},
	{"S<-A!B.A<-'a'B<-'b'", []string{"ab", "ac", "aa"}},
	{"B <- 'x' A <- 'y'", []string{"x", "y"}},
	{"A <- B\nB <- C\nC <- 'z'", []string{"z"}},
	{"a_1B <- 'x' _ _ <- 'y'", []string{"xy"}},
	{"S <-\nA <- 'a'", []string{"", "a"}},
	{"S <- ", []string{"", "a"}},
	{"S < - 'a'", nil},
	{"<- 'a'", nil},
	{"S <- 'a' <- 'b'", nil},
	{"'a' S <- 'b'", nil},
	{"1a <- 'x'", nil},
	{"{'a'}", nil},
	{"{{'a'}", nil},
	{"{ {'a'} }", nil},
	{"{{ 'a' / 'b' }}", []string{"a", "b", "c"}},
	{"{{ 'a' }}*", []string{"aaa", "b"}},
	{"!{{ 'a' }}", []string{"a", "b"}},
	{"{{}}", []string{"a", ""}},
	{"()", []string{"a", ""}},
	{"(", nil}, {")", nil}, {"*", nil}, {"'a'**", nil}, {"'a'?*", nil}, {"!!'a'", nil}, {"!&'a'", nil}, {"!(!'a')", []string{"a", "b"}}, {"&", nil}, {"'a' !", nil},
	{"[a", nil}, {"'a", nil}, {"\"a'", nil}, {"a b c", nil}, {"a", nil},
	{"..", []string{"ab", "a"}},
	{". .*", []string{"abc", ""}},
	{"(!'b' .)* 'b'", []string{"aab", "aaa"}},
	{"[a-zA-Z_][a-zA-Z0-9_]*", []string{"ab1", "1a", "_"}},
	{"[\\0-\\177]", []string{"a", "\x80"}},
	{"[\\200-\\277]", []string{"a", "\x80", "\xbf", "\xc0"}},
	{"[+-/]", []string{",", "+", "/", "0"}},
	{"[\\--/]", []string{"-", ".", "/", "0"}},
	{"[+-\\-]", []string{",", "-", "."}},
	{"'\xff'", []string{"\xff"}},
	{"'é'", []string{"é", "\xc3"}},
	{"[é]", []string{"\xc3", "\xa9", "e"}},
	{"'a'\x00", nil},
	{"'a'\v'b'", nil},
	{"'a'\u00a0'b'", nil},
	{"S <- S_ S_<-'x'", []string{"x"}},
	{"S <- Sx Sx <- 'x'", []string{"x"}},
	{"A <- 'a' / 'b' B B <- 'c' / 'd'", []string{"a", "bc", "bd", "b"}},
}

// files are the grammars that come with the repository.
func files(c *cx, i int) {
	fs, _ := filepath.Glob("/repo/grammars/*.peg")
	if i >= len(fs) {
		return
	}
	b, err := os.ReadFile(fs[i])
	if err != nil {
		fatalf("%v", err)
	}
	ins := map[string][]string{
		"arith": {"1+2*(3-4)", "1+", "(1", "12/3"},
		"json":  {`{"a": [1, 2.5e3, true, null, "x\n"]}`, `[`, `{"a":}`, `[[],{}]`},
		"peg":   {"A <- 'b' C*\nC <- [a-z]\n", "A <-", "A"},
		"re":    {"A <- 'b'", "'a' / {'b'}", "(", "{+ 'a' +}"},
		"lpeg":  {"S <- 'a' %s", "'a' -> {}"},
		"c":     {"int main(void) { return 0; }", "int f(int a, char *b) { if (a < 3) b[a] = 'x'; else while (a--) ; }"},
		"java":  {"class A { int f(int x) { return x + 1; } }", "class {"},
	}
	base := strings.TrimSuffix(strings.TrimSuffix(filepath.Base(fs[i]), ".peg"), "_memo")
	var inputs [][]byte
	for _, s := range ins[base] {
		inputs = append(inputs, []byte(s))
	}
	var texts []map[string]interface{}
	texts = append(texts, c.readText(string(b), false, inputs, []string{"p"}))
	texts = append(texts, c.readText(string(b), true, inputs, []string{"p", "c"}))
	c.emit("ReSyntax", map[string]interface{}{"texts": texts})
}

func init() {
	fixed := family{"fixed", len(fixedTexts), func(c *cx, i int) {
		f := fixedTexts[i]
		var ins [][]byte
		for _, s := range f.ins {
			ins = append(ins, []byte(s), []byte(s))
		}
		var texts []map[string]interface{}
		texts = append(texts, c.readText(f.s, false, ins, []string{"p"}))
		texts = append(texts, c.readText(f.s, true, ins, []string{"p", "c"}))
		c.emit("ReSyntax", map[string]interface{}{"texts": texts})
	}}
	short := func(c *ctx, n, count int) family {
		all := pow(len(reAlphabet), n)
		const batch = 50
		nb := (all + batch - 1) / batch
		if count == 0 || count > nb {
			count = nb
		}
		return family{fmt.Sprintf("short%d", n), count, func(c *cx, i int) {
			b := i
			if count < nb {
				b = int(hash64(c.seed, "s", n, i) % int64(nb))
			}
			shorts(c, n, b*batch, min(all, (b+1)*batch))
		}}
	}
	properties["C12"] = func(c *ctx) []family {
		return []family{
			fixed,
			{"files", 9, files},
			{"written", c.n(2500, 40000), func(c *cx, i int) { written(c, 10, false) }},
			{"captured", c.n(1500, 25000), func(c *cx, i int) { written(c, 10, true) }},
			{"classes", c.n(500, 10000), func(c *cx, i int) { classes(c) }},
			{"quoted", c.n(500, 10000), func(c *cx, i int) { quoted(c) }},
			{"long", c.n(100, 2000), func(c *cx, i int) { written(c, 40, i%2 == 0) }},
			{"many", c.n(8, 100), manyWritten},
			{"nested", c.n(12, 24), nestedText},
			{"byte", 256, everyByte},
			short(c, 3, c.n(100, 0)),
		}
	}
	properties["C13"] = func(c *ctx) []family {
		return []family{
			fixed,
			{"files", 9, files},
			{"garbled", c.n(3000, 50000), func(c *cx, i int) { garbled(c) }},
			{"dangling", c.n(400, 8000), func(c *cx, i int) { dangling(c) }},
			{"nested", c.n(12, 24), nestedText},
			{"byte", 256, everyByte},
			{"deep", 24, deepText},
			short(c, 1, 0), short(c, 2, 0), short(c, 3, 0), short(c, 4, c.n(800, 0)), short(c, 5, c.n(800, 20000)),
		}
	}
}
