package main

import (
	"math/rand"

	"github.com/zyedidia/gpeg/memo"
)

// C05: a search for histories worth judging. Some shapes of the tree behind a
// table are so rare that the histories TLC can judge in the time of a check
// rarely reach them. A hunt runs many short histories against a rough copy of
// the table's specification, and hands over the first one where the two seem
// to differ, or else the last one; TLC judges what it is handed, so a mistake
// here can only cost coverage.

type hop struct {
	k, id, pos, ex, a, b, n, tag int
}

const (
	hPut = iota
	hEdit
	hPos
)

type hent struct {
	tag, pos, ex int
	must         bool
}

func huntHistory(r *rand.Rand, nops, width, span, reach, nputs int, ops []hop) []hop {
	tag := 0
	ops = ops[:0]
	// where stored results end or, if they have been removed, ended: edits are
	// often put there
	var ends []int
	for len(ops) < nops {
		k := r.Intn(5)
		if nputs > 0 { // all results are stored first
			k = 2 + r.Intn(5)/2
			if tag < nputs {
				k = 0
			}
		}
		switch k {
		case 0, 1:
			tag++
			o := hop{k: hPut, id: r.Intn(2), pos: r.Intn(width), ex: 1 + r.Intn(reach), tag: tag}
			ends = append(ends, o.pos+o.ex)
			ops = append(ops, o)
		case 2, 3:
			a := r.Intn(width + width/5)
			if len(ends) > 0 && r.Intn(2) == 0 {
				a = max(0, ends[r.Intn(len(ends))]-r.Intn(span))
			}
			o := hop{k: hEdit, a: a, b: a + r.Intn(span), n: r.Intn(span)}
			ops = append(ops, o)
			for i, e := range ends {
				if e >= o.a {
					ends[i] = e + o.n - (o.b - o.a)
				}
			}
		case 4:
			if tag > 0 {
				ops = append(ops, hop{k: hPos, tag: 1 + r.Intn(tag)})
			}
		}
	}
	return ops
}

// suspicious runs a history and says whether its outcome looks wrong.
func suspicious(ops []hop) (bad bool) {
	defer func() {
		if recover() != nil {
			bad = true
		}
	}()
	t := memo.NewTreeTable(0)
	var table []hent
	caps := make(map[int]*memo.Capture)
	for _, o := range ops {
		switch o.k {
		case hPut:
			c := memo.NewCaptureNode(1, o.pos, 1, nil)
			t.Put(o.id, o.pos, o.ex, o.ex, o.tag, []*memo.Capture{c})
			caps[o.tag] = c
			table = append(table, hent{o.tag, o.pos, o.ex, true})
		case hPos:
			if c := caps[o.tag]; c != nil {
				p := c.Start()
				for _, e := range table {
					if e.tag == o.tag && e.must && e.pos != p {
						return true
					}
				}
			}
		case hEdit:
			t.ApplyEdit(memo.Edit{Start: o.a, End: o.b, Len: o.n})
			keep := table[:0]
			for _, e := range table {
				hi := e.pos + e.ex
				tb := o.b
				if o.a == o.b {
					tb++
				}
				if e.pos < o.b && hi > o.a || o.a == o.b && e.pos < o.a && hi > o.a {
					continue
				}
				if e.pos <= tb && hi >= o.a {
					e.must = false
				}
				if e.pos >= o.b {
					e.pos += o.n - (o.b - o.a)
				}
				keep = append(keep, e)
			}
			table = keep
		}
	}
	seen := 0
	musts := 0
	for _, e := range table {
		if e.must {
			musts++
		}
	}
	for _, v := range t.AllValues() {
		ok := false
		for _, e := range table {
			if e.tag == v.Count() {
				ok = e.pos == v.Pos() && e.ex == v.Length()
				if e.must {
					seen++
				}
			}
		}
		if !ok {
			return true
		}
	}
	return seen != musts
}

// Histories that once went wrong, and that chance rarely finds.
var hardHistories = [][]hop{
	// the greatest end below a node was lost track of
	{
		{k: hPut, pos: 33, ex: 4, tag: 14}, {k: hPut, pos: 45, ex: 2, tag: 17}, {k: hPut, id: 1, pos: 43, ex: 1, tag: 18},
		{k: hPut, pos: 39, ex: 1, tag: 19}, {k: hPut, id: 1, pos: 6, ex: 3, tag: 20}, {k: hPut, pos: 48, ex: 2, tag: 21},
		{k: hEdit, a: 15, b: 19, n: 8}, {k: hPos, tag: 21},
		{k: hPut, pos: 8, ex: 4, tag: 23}, {k: hPut, id: 1, pos: 4, ex: 4, tag: 25}, {k: hPut, id: 1, pos: 15, ex: 2, tag: 26},
		{k: hPut, id: 1, pos: 44, ex: 4, tag: 27},
		{k: hEdit, a: 16, b: 16, n: 6}, {k: hEdit, a: 28, b: 39, n: 4}, {k: hEdit, a: 33, b: 39, n: 11},
		{k: hEdit, a: 59, b: 70, n: 0}, {k: hEdit, a: 56, b: 58, n: 5},
	},
	// reading where a removed result was moved another one
	{
		{k: hPut, pos: 19, ex: 4, tag: 2}, {k: hEdit, a: 16, b: 16, n: 2}, {k: hPut, pos: 8, ex: 1, tag: 3},
		{k: hPut, pos: 12, ex: 3, tag: 4}, {k: hPut, pos: 2, ex: 1, tag: 5}, {k: hEdit, a: 11, b: 13, n: 1},
		{k: hEdit, a: 6, b: 8, n: 0}, {k: hPos, tag: 4}, {k: hEdit, a: 21, b: 22, n: 2},
	},
}

// near changes a hard history a little.
func near(r *rand.Rand, from, ops []hop) []hop {
	ops = append(ops[:0], from...)
	next := 100
	for i := r.Intn(4); i >= 0; i-- {
		j := r.Intn(len(ops))
		o := &ops[j]
		switch r.Intn(6) {
		case 0:
			if o.k == hPut {
				o.pos = max(0, o.pos+r.Intn(5)-2)
			} else if o.k == hEdit {
				o.n = max(0, o.n+r.Intn(5)-2)
			}
		case 1:
			if o.k == hPut {
				o.ex = 1 + r.Intn(5)
			} else if o.k == hEdit {
				d := r.Intn(5) - 2
				o.a = max(0, o.a+d)
				o.b = max(o.a, o.b+d)
			}
		case 2:
			k := r.Intn(len(ops))
			ops[j], ops[k] = ops[k], ops[j]
		case 3:
			ops = append(ops[:j], ops[j+1:]...)
			if len(ops) == 0 {
				return append(ops, from...)
			}
		case 4:
			next++
			ops = append(ops, hop{k: hPut, id: r.Intn(2), pos: r.Intn(60), ex: 1 + r.Intn(5), tag: next})
			copy(ops[j+1:], ops[j:])
			ops[j] = hop{k: hPut, id: r.Intn(2), pos: r.Intn(60), ex: 1 + r.Intn(5), tag: next}
		case 5:
			a := r.Intn(70)
			ops = append(ops, hop{k: hEdit, a: a, b: a + r.Intn(10), n: r.Intn(10)})
		}
	}
	return ops
}

func huntNear(c *cx, tries int) {
	from := hardHistories[c.r.Intn(len(hardHistories))]
	var ops []hop
	for i := 0; i < tries; i++ {
		ops = near(c.r, from, ops)
		c.count("histories searched", 1)
		if suspicious(ops) {
			c.count("histories suspected", 1)
			break
		}
	}
	recordHops(c, ops)
}

func hunt(c *cx, tries int) {
	r := c.r
	nops := 10 + r.Intn(90)
	width := 10 + r.Intn(80)
	span := 2 + r.Intn(16)
	reach := 1 + r.Intn(8)
	nputs := 0
	if r.Intn(2) == 0 {
		nputs = 3 + r.Intn(20)
		nops += nputs
	}
	var ops []hop
	done := 0
	found := false
	for done < tries && !found {
		ops = huntHistory(r, 4+r.Intn(nops), width, span, reach, nputs, ops)
		done++
		found = suspicious(ops)
	}
	c.count("histories searched", done)
	if found {
		// drop operations that do not matter
		for again := true; again; {
			again = false
			for i := range ops {
				less := append(append([]hop{}, ops[:i]...), ops[i+1:]...)
				if suspicious(less) {
					ops, again = less, true
					break
				}
			}
		}
		c.count("histories suspected", 1)
	}
	recordHops(c, ops)
}

// recordHops runs a history and records it.
func recordHops(c *cx, ops []hop) {
	tbl := memo.NewTreeTable(0)
	caps := make(map[int]*memo.Capture)
	var rec []step
	x := guard(func() {
		for _, o := range ops {
			switch o.k {
			case hPut:
				capt := memo.NewCaptureNode(1, o.pos, 1, nil)
				tbl.Put(o.id, o.pos, o.ex, o.ex, o.tag, []*memo.Capture{capt})
				caps[o.tag] = capt
				rec = append(rec, step{"k": "put", "tag": o.tag, "id": o.id, "pos": o.pos, "len": o.ex, "exam": o.ex, "small": 0})
			case hPos:
				if capt := caps[o.tag]; capt != nil {
					p := capt.Start()
					rec = append(rec, step{"k": "pos", "tag": o.tag, "off": 0, "pos": p, "cap": p})
				}
			case hEdit:
				tbl.ApplyEdit(memo.Edit{Start: o.a, End: o.b, Len: o.n})
				rec = append(rec, step{"k": "edit", "a": o.a, "b": o.b, "n": o.n})
			}
		}
		es := [][]int{}
		for _, e := range tbl.AllValues() {
			es = append(es, []int{e.Count(), e.Pos(), e.Length(), e.Examined()})
		}
		rec = append(rec, step{"k": "all", "es": es, "size": tbl.Size()})
	})
	if x != "" {
		rec = append(rec, step{"k": "crash", "x": x})
	}
	c.emit("MemoTable", map[string]interface{}{"ops": rec})
}
