package main

import (
	"math/rand"

	"github.com/zyedidia/gpeg/charset"
)

// C20: the algebra of byte sets.

type setRegs struct {
	regs []charset.Set
	ops  []step
}

func runsOf(has func(b byte) bool) [][2]int {
	rs := [][2]int{}
	for b := 0; b < 256; b++ {
		if !has(byte(b)) {
			continue
		}
		if n := len(rs); n > 0 && rs[n-1][1] == b-1 {
			rs[n-1][1] = b
		} else {
			rs = append(rs, [2]int{b, b})
		}
	}
	return rs
}

func seenSet(s charset.Set) step {
	v := step{"m": runsOf(func(b byte) bool { return s.Has(b) }), "n": s.Size(), "small": 0, "sm": [][2]int{}, "sn": 0}
	if s.IsSmall() {
		v["small"] = 1
	}
	sm := s.SmallSet()
	v["sm"] = runsOf(func(b byte) bool { return sm.Has(b) })
	v["sn"] = sm.Size()
	return v
}

// do performs an operation; registers are numbered from 1.
func (s *setRegs) do(o step) {
	reg := func(k string) charset.Set { return s.regs[o[k].(int)-1] }
	x := guard(func() {
		var v charset.Set
		switch o["k"] {
		case "new":
			l := append([]byte{}, o["b"].([]byte)...)
			v = charset.New(l)
			o["l"] = ints(o["b"].([]byte))
			delete(o, "b")
			for i := range l {
				l[i] = 0
			}
		case "range":
			v = charset.Range(byte(o["lo"].(int)), byte(o["hi"].(int)))
		case "add":
			v = reg("x").Add(reg("y"))
		case "sub":
			v = reg("x").Sub(reg("y"))
		case "comp":
			v = reg("x").Complement()
		}
		s.regs[o["d"].(int)-1] = v
		seen := []step{}
		for i := range s.regs {
			seen = append(seen, seenSet(s.regs[i]))
		}
		o["seen"] = seen
	})
	if x != "" {
		o = step{"k": "crash", "x": x, "op": o["k"]}
	}
	s.ops = append(s.ops, o)
}

func (c *cx) emitSets(s *setRegs) {
	c.count("operations", len(s.ops))
	c.emit("Charset", map[string]interface{}{"regs": len(s.regs), "ops": s.ops})
}

var setEdges = []int{0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255}

func edgeByte(r *rand.Rand) int {
	if r.Intn(2) == 0 {
		return setEdges[r.Intn(len(setEdges))]
	}
	return r.Intn(256)
}

func setHistory(c *cx, nops int) {
	r := c.r
	s := &setRegs{regs: make([]charset.Set, 4)}
	for k := 0; k < nops; k++ {
		d := 1 + r.Intn(4)
		x, y := 1+r.Intn(4), 1+r.Intn(4)
		switch r.Intn(6) {
		case 0:
			n := r.Intn(8)
			if r.Intn(8) == 0 {
				n = r.Intn(300)
			}
			top := []int{256, 128}[r.Intn(2)]
			l := make([]byte, n)
			for i := range l {
				l[i] = byte(edgeByte(r) % top)
			}
			s.do(step{"k": "new", "d": d, "b": l})
		case 1:
			s.do(step{"k": "range", "d": d, "lo": edgeByte(r), "hi": edgeByte(r)})
		case 2, 3:
			s.do(step{"k": "add", "d": d, "x": x, "y": y})
		case 4:
			s.do(step{"k": "sub", "d": d, "x": x, "y": y})
		case 5:
			s.do(step{"k": "comp", "d": d, "x": x})
		}
	}
	c.emitSets(s)
}

func init() {
	properties["C20"] = func(c *ctx) []family {
		return []family{
			// every range
			{"ranges", 256, func(c *cx, i int) {
				s := &setRegs{regs: make([]charset.Set, 1)}
				for hi := 0; hi < 256; hi++ {
					s.do(step{"k": "range", "d": 1, "lo": i, "hi": hi})
				}
				c.emitSets(s)
			}},
			// every byte, alone and with every other
			{"pairs", 256, func(c *cx, i int) {
				s := &setRegs{regs: make([]charset.Set, 3)}
				for y := 0; y < 256; y++ {
					if !c.thorough && (y+i)%4 != 0 && y != i {
						continue
					}
					s.do(step{"k": "new", "d": 1, "b": []byte{byte(i)}})
					s.do(step{"k": "new", "d": 2, "b": []byte{byte(y), byte(i)}})
					s.do(step{"k": "sub", "d": 3, "x": 2, "y": 1})
					s.do(step{"k": "add", "d": 3, "x": 3, "y": 1})
				}
				s.do(step{"k": "comp", "d": 2, "x": 1})
				s.do(step{"k": "add", "d": 3, "x": 2, "y": 1})
				s.do(step{"k": "sub", "d": 3, "x": 3, "y": 2})
				c.emitSets(s)
			}},
			{"history", c.n(1500, 40000), func(c *cx, i int) { setHistory(c, 20) }},
		}
	}
}
