package main

import (
	"github.com/zyedidia/gpeg/memo"
)

// C05: histories of operations on a memoization table.

type ent struct {
	tag, off int
	e        *memo.Entry
	cap      *memo.Capture
}

// tableHistory performs random operations. Rules, positions and sizes are
// drawn from the given ranges; entries are told apart by their count.
func tableHistory(c *cx, ids, length, nops, maxEntries int, mix []int) {
	r := c.r
	threshold := 0
	if r.Intn(3) == 0 {
		threshold = r.Intn(6)
	}
	tbl := memo.NewTreeTable(threshold)
	var ops []step
	live := map[int]*ent{}
	var order []int
	byPos := func() int { // a position where something may be
		if len(order) > 0 && r.Intn(3) > 0 {
			e := live[order[r.Intn(len(order))]]
			if e.e != nil {
				return e.e.Pos() + r.Intn(3) - 1
			}
		}
		return r.Intn(length + 1)
	}
	view := func(e *memo.Entry) []int {
		return []int{e.Count(), e.Pos(), e.Length(), e.Examined()}
	}
	tag := 0
	idOf := func() int {
		k := r.Intn(ids)
		return []int{0, 1, -1, 32767, -32768, 2, 3, 4, 5, 6}[k%10]
	}
	x := guard(func() {
		for len(ops) < nops {
			pick := r.Intn(100)
			k := 0
			for pick >= mix[k] {
				pick -= mix[k]
				k++
			}
			switch k {
			case 0: // put
				if len(order) >= maxEntries && r.Intn(4) > 0 {
					k = 1
					continue
				}
				tag++
				pos := r.Intn(length + 1)
				if r.Intn(4) == 0 {
					pos = max(0, byPos())
				}
				ln := r.Intn(1 + length/4)
				if r.Intn(4) == 0 {
					ln = 1 + r.Intn(3)
				}
				ex := ln + r.Intn(4)
				switch r.Intn(8) {
				case 0:
					ln = -1
					ex = 1 + r.Intn(5)
				case 1:
					ex = r.Intn(ln + 1)
				case 2:
					ex = ln + r.Intn(length)
				}
				if ex < 1 {
					ex = 1
				}
				off := r.Intn(3)
				capt := memo.NewCaptureNode(1, pos+off, 1, nil)
				id := idOf()
				tbl.Put(id, pos, ln, ex, tag, []*memo.Capture{capt})
				small := 0
				if ex < threshold {
					small = 1
				}
				ops = append(ops, step{"k": "put", "tag": tag, "id": id, "pos": pos, "len": ln, "exam": ex, "small": small})
				live[tag] = &ent{tag: tag, off: off, cap: capt}
				order = append(order, tag)
				if r.Intn(2) == 0 {
					// a handle
					if e, ok := tbl.Get(id, pos); ok {
						ops = append(ops, step{"k": "get", "id": id, "pos": pos, "res": view(e)})
						live[e.Count()].e = e
					} else {
						ops = append(ops, step{"k": "get", "id": id, "pos": pos, "res": []int{}})
					}
				}
			case 1: // edit
				a := max(0, byPos())
				b := a
				n := 0
				switch r.Intn(6) {
				case 0, 1:
					n = 1 + r.Intn(4)
				case 2:
					b = a + 1 + r.Intn(3)
				case 3:
					b = a + 1 + r.Intn(3)
					n = r.Intn(4)
				case 4:
					if r.Intn(2) == 0 {
						a = r.Intn(length + 1)
					}
					b = a + r.Intn(1+length/3)
					n = r.Intn(1 + length/3)
				case 5:
					b = a + r.Intn(3)
					n = b - a
				}
				tbl.ApplyEdit(memo.Edit{Start: a, End: b, Len: n})
				ops = append(ops, step{"k": "edit", "a": a, "b": b, "n": n})
			case 2: // get
				id, pos := idOf(), byPos()
				e, ok := tbl.Get(id, pos)
				res := []int{}
				if ok {
					res = view(e)
					live[e.Count()].e = e
				}
				ops = append(ops, step{"k": "get", "id": id, "pos": pos, "res": res})
			case 3: // list
				n := tbl.Size()
				es := [][]int{}
				for _, e := range tbl.AllValues() {
					es = append(es, view(e))
				}
				ops = append(ops, step{"k": "all", "es": es, "size": n})
				var left []int
				for _, e := range es {
					left = append(left, e[0])
				}
				order = left
			case 4: // handle
				if len(order) == 0 {
					continue
				}
				e := live[order[r.Intn(len(order))]]
				if e.e == nil {
					continue
				}
				ops = append(ops, step{"k": "pos", "tag": e.tag, "off": e.off, "pos": e.e.Pos(), "cap": e.cap.Start()})
			case 5:
				ops = append(ops, step{"k": "size", "n": tbl.Size()})
			}
		}
		// at the end every handle and everything there is
		for _, t := range order {
			if e := live[t]; e.e != nil {
				ops = append(ops, step{"k": "pos", "tag": e.tag, "off": e.off, "pos": e.e.Pos(), "cap": e.cap.Start()})
			}
		}
		es := [][]int{}
		for _, e := range tbl.AllValues() {
			es = append(es, view(e))
		}
		ops = append(ops, step{"k": "all", "es": es, "size": tbl.Size()})
	})
	if x != "" {
		ops = append(ops, step{"k": "crash", "x": x})
	}
	c.count("operations", len(ops))
	c.count("entries left", tbl.Size())
	c.emit("MemoTable", map[string]interface{}{"ops": ops})
}

func init() {
	properties["C05"] = func(c *ctx) []family {
		// weights of put, edit, get, list, handle, size
		even := []int{40, 25, 15, 5, 10, 5}
		lazy := []int{50, 35, 5, 0, 9, 1} // few observations
		final := []int{62, 38, 0, 0, 0, 0}
		return []family{
			{"tiny", c.n(3000, 60000), func(c *cx, i int) { tableHistory(c, 2, 6, 24, 12, even) }},
			{"small", c.n(2500, 40000), func(c *cx, i int) { tableHistory(c, 4, 20, 50, 25, even) }},
			{"lazy", c.n(2500, 40000), func(c *cx, i int) { tableHistory(c, 3, 40, 40, 25, lazy) }},
			{"final", c.n(1500, 30000), func(c *cx, i int) { tableHistory(c, 3, 200, 40, 40, final) }},
			{"spread", c.n(3000, 60000), func(c *cx, i int) {
				tableHistory(c, 2, 60, 30+i%60, 60, []int{50, 40, 0, 0, 10, 0})
			}},
			{"hard", len(hardHistories), func(c *cx, i int) { recordHops(c, hardHistories[i]) }},
			{"near", c.n(400, 4000), func(c *cx, i int) { huntNear(c, c.n(1500, 10000)) }},
			{"hunt", c.n(400, 4000), func(c *cx, i int) { hunt(c, c.n(4000, 30000)) }},
			{"dense", c.n(300, 5000), func(c *cx, i int) { tableHistory(c, 8, 100, 200, 80, even) }},
			{"wide", c.n(300, 5000), func(c *cx, i int) { tableHistory(c, 8, 3000, 200, 120, lazy) }},
			{"grow", c.n(300, 5000), func(c *cx, i int) {
				tableHistory(c, 10, 20000, 160, 200, []int{85, 8, 4, 0, 2, 1})
			}},
		}
	}
}
