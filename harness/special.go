package main

import (
	"bytes"
	"fmt"
)

// specials are hand-made shapes that random patterns hardly reach: large
// programs, large operands, long texts, deep recursion.
var specials = []func(c *cx, f []string){
	// long literals, split across the read buffer
	func(c *cx, f []string) {
		g := newGen(c.r)
		n := 200 + c.r.Intn(400)
		s := g.str(n)
		p := &P{}
		p.Root = p.seq(p.un("opt", p.lit(s[:n/2])), p.alt(p.lit(s), p.lit(s[:n-1])))
		var ts []Text
		for _, pad := range []int{0, 4096 - n/2, 4096 - n, 4095} {
			_ = pad
		}
		ts = append(ts, txt([]byte(s)), txt([]byte(s[:n/2]+s)), txt([]byte(s[:n-1])), txt([]byte(s[:n-2])), txt([]byte(s[:n/2]+s[:n-1]+"a")))
		c.plain(p, ts, f)
	},
	// many alternatives, more than 64 KiB of code
	func(c *cx, f []string) {
		p := &P{}
		var ks []int
		n := 300 + c.r.Intn(200)
		var words []string
		for i := 0; i < n; i++ {
			w := fmt.Sprintf("%03d", i) + string(bytes.Repeat([]byte{byte(i)}, 60+c.r.Intn(20))) + "!"
			words = append(words, w)
			ks = append(ks, p.cap(p.lit(w), i))
		}
		p.Root = p.seq(p.un("star", p.alt(ks...)), p.un("not", p.any(1)))
		var ts []Text
		for i := 0; i < 5; i++ {
			w := words[c.r.Intn(n)]
			v := words[n-1-c.r.Intn(4)]
			ts = append(ts, txt([]byte(w)), txt([]byte(v+w)), txt([]byte(v[:len(v)-1])))
		}
		c.plain(p, ts, f)
	},
	// up to 256 distinct sets
	func(c *cx, f []string) {
		p := &P{}
		n := 200 + c.r.Intn(55)
		var ks []int
		text := []byte{}
		for i := 0; i < n; i++ {
			ks = append(ks, p.set([2]int{i, i}, [2]int{255, 255}))
			if c.r.Intn(5) == 0 {
				text = append(text, 255)
			} else {
				text = append(text, byte(i))
			}
		}
		p.Root = p.seq(ks...)
		bad := append([]byte{}, text...)
		bad[c.r.Intn(n)] ^= 1
		c.plain(p, []Text{txt(text), txt(bad), txt(text[:n-1])}, f)
	},
	// deep recursion
	func(c *cx, f []string) {
		p := &P{}
		open, shut := p.lit("("), p.lit(")")
		body := p.alt(p.seq(open, p.nt("A"), shut, p.nt("A")), p.empty())
		p.Root = p.gram("A", []Def{{"A", body}})
		d := 50 + c.r.Intn(200)
		a := bytes.Repeat([]byte("("), d)
		b := bytes.Repeat([]byte(")"), d)
		t1 := append(append([]byte{}, a...), b...)
		c.plain(p, []Text{txt(t1), txt(append(t1, '(')), txt(append([]byte("(()"), t1...)), txt(append(a, b[:d-1]...))}, f)
	},
	// right recursion: tail calls must not grow or lose anything
	func(c *cx, f []string) {
		p := &P{}
		body := p.alt(p.seq(p.set([2]int{'a', 'c'}), p.nt("L")), p.seq(p.lit("."), p.nt("E")), p.nt("E"))
		p.Root = p.seq(p.gram("L", []Def{{"L", body}, {"E", p.un("not", p.any(1))}}))
		n := 100 + c.r.Intn(c.n(250, 800))
		t := bytes.Repeat([]byte("abc"), n/3)
		u := append(append([]byte{}, t...), '.')
		c.plain(p, []Text{txt(t), txt(u), txt(append(u, 'x'))}, f)
	},
	// spans and stars over the end of a read buffer
	func(c *cx, f []string) {
		p := &P{}
		star := p.un("star", p.set([2]int{'a', 'b'}))
		p.Root = p.seq(p.cap(star, 1), p.un("plus", p.seq(p.lit("cd"), p.un("star", p.lit("ab")))), p.un("not", p.any(1)))
		n := 4090 + c.r.Intn(12)
		var ts []Text
		for _, tail := range []string{"cd", "cdab", "cdcdababab", "cda", ""} {
			ts = append(ts, txt(append(bytes.Repeat([]byte{'a'}, n), tail...)))
		}
		c.plain(p, ts, f)
	},
	// search far away
	func(c *cx, f []string) {
		p := &P{}
		p.Root = p.un("plus", p.un("search", p.cap(p.alt(p.lit("needle"), p.seq(p.lit("end"), p.un("not", p.any(1)))), 3)))
		n := 4080 + c.r.Intn(20)
		hay := bytes.Repeat([]byte("nee"), n/3+1)[:n]
		var ts []Text
		for _, tail := range []string{"needle", "needlenneedleend", "eedle", "end"} {
			ts = append(ts, txt(append(append([]byte{}, hay...), tail...)))
		}
		c.plain(p, ts, f)
	},
	// skips of every size at the end of the text
	func(c *cx, f []string) {
		p := &P{}
		k := []int{1, 2, 127, 128, 200, 254, 255}[c.r.Intn(7)]
		p.Root = p.seq(p.un("star", p.any(k)), p.cap(p.un("star", p.any(1)), 1))
		var ts []Text
		for _, n := range []int{0, k - 1, k, k + 1, 2*k - 1, 2 * k, 4095, 4096, 4097, 4096 + k} {
			ts = append(ts, Text{Pad: n, PB: 'q', T: nil})
		}
		c.plain(p, ts, f)
	},
	// failing skips restore the position
	func(c *cx, f []string) {
		p := &P{}
		k := 2 + c.r.Intn(200)
		p.Root = p.alt(p.seq(p.un("opt", p.any(k)), p.lit("z")), p.seq(p.rep(p.any(1), 1), p.un("and", p.any(k-1)), p.un("star", p.any(k))), p.cap(p.un("plus", p.any(1)), 2))
		var ts []Text
		for _, n := range []int{k - 2, k - 1, k, k + 1, 2*k + 1} {
			ts = append(ts, Text{Pad: n, PB: 'q', T: []byte("z")}, Text{Pad: n, PB: 'q'})
		}
		c.plain(p, ts, f)
	},
	// captures that start far back
	func(c *cx, f []string) {
		p := &P{}
		n := 250 + c.r.Intn(20)
		s := string(bytes.Repeat([]byte("k"), n))
		p.Root = p.seq(p.un("star", p.cap(p.lit(s), 1)), p.cap(p.any(min(n, 255)), 2), p.cap(p.rep(p.set([2]int{'a', 'k'}), n), -3), p.cap(p.rep(p.any(200), 2), 4))
		c.plain(p, []Text{{Pad: 3*n + 655, PB: 'k'}, {Pad: 2*n + 655, PB: 'k', T: []byte("b")}, {Pad: n + 255 + n + 400, PB: 'k'}, {Pad: n + 300, PB: 'k'}}, f)
	},
	// many repetitions
	func(c *cx, f []string) {
		for _, n := range []int{[]int{100, 127, 128, 129, 254, 255}[c.r.Intn(6)], []int{256, 257, 258, 300, 500}[c.r.Intn(5)]} {
			p := &P{}
			el := p.set([2]int{'a', 'c'})
			switch c.r.Intn(4) {
			case 0:
				el = p.alt(p.lit("ab"), p.lit("c"), p.lit("a"))
			case 1:
				el = p.any(1)
			case 2:
				el = p.lit("a")
			}
			p.Root = p.seq(p.rep(el, n), p.cap(p.un("star", p.any(1)), 1))
			var ts []Text
			for _, k := range []int{0, n - 1, n, n + 1, n + 3} {
				ts = append(ts, Text{Pad: k, PB: 'a'}, Text{Pad: k, PB: 'a', T: []byte("cc")})
			}
			if c.r.Intn(2) == 0 {
				var b []byte
				for k := 0; k < n+c.r.Intn(3)-1; k++ {
					b = append(b, []string{"a", "c", "ab"}[c.r.Intn(3)]...)
				}
				ts = append(ts, txt(b))
			}
			c.plain(p, ts, f)
		}
	},
	// many rules and calls across more than 64 KiB
	func(c *cx, f []string) {
		p := &P{}
		var defs []Def
		n := 60 + c.r.Intn(40)
		for i := 0; i < n; i++ {
			lit := string(bytes.Repeat([]byte{byte('a' + i%26)}, 180))
			body := p.alt(p.cap(p.lit(lit+"1"), i), p.seq(p.lit(fmt.Sprintf("r%d:", i)), p.nt(fmt.Sprintf("R%d", (i*7+3)%n))), p.seq(p.lit(lit+"2"), p.nt(fmt.Sprintf("R%d", (i+1)%n))))
			defs = append(defs, Def{fmt.Sprintf("R%d", i), body})
		}
		p.Root = p.gram("R0", defs)
		// follow references from R0
		i := 0
		var t []byte
		for s := 0; s < 8; s++ {
			if c.r.Intn(2) == 0 {
				t = append(t, fmt.Sprintf("r%d:", i)...)
				i = (i*7 + 3) % n
			} else {
				t = append(t, bytes.Repeat([]byte{byte('a' + i%26)}, 180)...)
				t = append(t, '2')
				i = (i + 1) % n
			}
		}
		t = append(t, bytes.Repeat([]byte{byte('a' + i%26)}, 180)...)
		good := append(append([]byte{}, t...), '1')
		c.plain(p, []Text{txt(good), txt(append(t, '3')), txt(good[:len(good)/2])}, f)
	},
}
