package main

import (
	"encoding/json"
	"math/rand"
	"sort"

	"github.com/zyedidia/gpeg/memo/interval"
	"github.com/zyedidia/gpeg/memo/interval/lazy"
	"github.com/zyedidia/gpeg/memo/interval/lazylog"
)

// C23: histories of operations on interval maps.

// imap is what the three implementations have in common.
type imap interface {
	FindLargest(id, pos int) interval.Value
	Add(id, low, high int, val interval.Value) interval.Pos
	RemoveAndShift(low, high, amt int)
	Size() int
}

const (
	iAdd = iota
	iRem
	iFind
	iPos
	iSize
	iAll
)

type iop struct{ k, tag, id, lo, hi, amt int }

var imapKinds = []string{"lazy", "lazylog", "array"}

func newImap(kind string) imap {
	switch kind {
	case "lazy":
		return &lazy.Tree{}
	case "lazylog":
		return &lazylog.Tree{}
	}
	return &lazy.Array{}
}

// imapOps draws a history. Ranges removed are often put where intervals begin
// or end.
func imapOps(r *rand.Rand, nops, ids, width, span, reach, puts, looks int) []iop {
	var ops []iop
	tag := 0
	var marks []int
	spot := func() int {
		if len(marks) > 0 && r.Intn(2) == 0 {
			return max(0, marks[r.Intn(len(marks))]+r.Intn(3)-1)
		}
		return r.Intn(width)
	}
	for len(ops) < nops {
		if tag < puts || r.Intn(5) < 2 {
			tag++
			lo := spot()
			o := iop{k: iAdd, tag: tag, id: r.Intn(ids), lo: lo, hi: lo + 1 + r.Intn(reach)}
			marks = append(marks, o.lo, o.hi)
			ops = append(ops, o)
			continue
		}
		if r.Intn(100) < looks {
			switch r.Intn(5) {
			case 0, 1:
				ops = append(ops, iop{k: iFind, id: r.Intn(ids), lo: spot()})
			case 2, 3:
				if tag > 0 {
					ops = append(ops, iop{k: iPos, tag: 1 + r.Intn(tag)})
				}
			case 4:
				ops = append(ops, iop{k: iSize})
				if r.Intn(3) == 0 {
					ops = append(ops, iop{k: iAll})
				}
			}
			continue
		}
		lo := spot()
		hi := lo + r.Intn(span)
		o := iop{k: iRem, lo: lo, hi: hi, amt: r.Intn(span) - (hi - lo)}
		if r.Intn(6) == 0 {
			o.amt = 0
		}
		for i, m := range marks {
			if m >= hi {
				marks[i] += o.amt
			}
		}
		ops = append(ops, o)
	}
	return ops
}

type ient struct {
	tag, id, lo, hi int
	must            bool
}

// imapSuspicious runs a history and says whether it looks wrong; TLC judges.
func imapSuspicious(kind string, ops []iop) (bad bool) {
	defer func() {
		if recover() != nil {
			bad = true
		}
	}()
	loose := kind == "lazylog"
	m := newImap(kind)
	pos := map[int]interval.Pos{}
	var es []ient
	look := func(id, at int) bool {
		v := m.FindLargest(id, at)
		best, top, ok := 0, 0, false
		for _, e := range es {
			if e.id == id && e.lo == at {
				if e.must {
					best = max(best, e.hi)
				}
				if v != nil && e.tag == v.(int) {
					ok, top = true, e.hi
				}
			}
		}
		if v == nil {
			return best > 0
		}
		return !ok || best > top
	}
	for _, o := range ops {
		switch o.k {
		case iAdd:
			pos[o.tag] = m.Add(o.id, o.lo, o.hi, o.tag)
			es = append(es, ient{o.tag, o.id, o.lo, o.hi, true})
		case iRem:
			m.RemoveAndShift(o.lo, o.hi, o.amt)
			keep := es[:0]
			for _, e := range es {
				if e.lo < o.hi && e.hi > o.lo {
					continue
				}
				if loose && e.lo <= o.hi && e.hi >= o.lo {
					e.must = false
				}
				if e.lo >= o.lo {
					e.lo += o.amt
					e.hi += o.amt
				}
				keep = append(keep, e)
			}
			es = keep
		case iFind:
			if look(o.id, o.lo) {
				return true
			}
		case iPos:
			for _, e := range es {
				if e.tag == o.tag && e.must && pos[o.tag].Pos() != e.lo {
					return true
				}
			}
		}
	}
	must := 0
	for _, e := range es {
		if look(e.id, e.lo) || e.must && pos[e.tag].Pos() != e.lo {
			return true
		}
		if e.must {
			must++
		}
	}
	n := m.Size()
	return n < must || n > len(es)
}

func recordImap(c *cx, kind string, ops []iop) {
	m := newImap(kind)
	pos := map[int]interval.Pos{}
	var order []int
	var rec []step
	val := func(v interval.Value) int {
		if v == nil {
			return 0
		}
		return v.(int)
	}
	where := map[[2]int]bool{}
	all := func() {
		if t, ok := m.(*lazylog.Tree); ok {
			es := []int{}
			for _, v := range t.AllValues() {
				es = append(es, val(v))
			}
			rec = append(rec, step{"k": "all", "es": es})
		}
	}
	x := guard(func() {
		for _, o := range ops {
			switch o.k {
			case iAdd:
				pos[o.tag] = m.Add(o.id, o.lo, o.hi, o.tag)
				order = append(order, o.tag)
				where[[2]int{o.id, o.lo}] = true
				rec = append(rec, step{"k": "add", "tag": o.tag, "id": o.id, "lo": o.lo, "hi": o.hi})
			case iRem:
				m.RemoveAndShift(o.lo, o.hi, o.amt)
				w := map[[2]int]bool{}
				for k := range where {
					if k[1] >= o.lo {
						k[1] += o.amt
					}
					w[k] = true
				}
				where = w
				rec = append(rec, step{"k": "rem", "lo": o.lo, "hi": o.hi, "amt": o.amt})
			case iFind:
				rec = append(rec, step{"k": "find", "id": o.id, "pos": o.lo, "res": val(m.FindLargest(o.id, o.lo))})
			case iPos:
				if p, ok := pos[o.tag]; ok {
					rec = append(rec, step{"k": "pos", "tag": o.tag, "pos": p.Pos()})
				}
			case iSize:
				rec = append(rec, step{"k": "size", "n": m.Size()})
			case iAll:
				all()
			}
		}
		// at the end, everything
		rec = append(rec, step{"k": "size", "n": m.Size()})
		c.r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		if c.r.Intn(2) == 0 {
			for _, t := range order {
				rec = append(rec, step{"k": "pos", "tag": t, "pos": pos[t].Pos()})
			}
		}
		if c.r.Intn(2) == 0 {
			all()
		}
		for _, k := range sortedPairs(where) {
			rec = append(rec, step{"k": "find", "id": k[0], "pos": k[1], "res": val(m.FindLargest(k[0], k[1]))})
		}
		all()
		for _, t := range order {
			rec = append(rec, step{"k": "pos", "tag": t, "pos": pos[t].Pos()})
		}
		rec = append(rec, step{"k": "size", "n": m.Size()})
	})
	if x != "" {
		rec = append(rec, step{"k": "crash", "x": x})
	}
	c.count("operations", len(rec))
	c.emit("IntervalMap", map[string]interface{}{"kind": kind, "loose": b2i(kind == "lazylog"), "ops": rec})
}

func imapHunt(c *cx, kind string, tries int) {
	r := c.r
	width, span, reach := 8+r.Intn(80), 2+r.Intn(12), 1+r.Intn(10)
	nops, puts, ids := 8+r.Intn(50), r.Intn(20), 1+r.Intn(3)
	looks := []int{0, 20, 50}[r.Intn(3)]
	var ops []iop
	found := false
	for done := 0; done < tries && !found; done++ {
		ops = imapOps(r, 4+puts+r.Intn(nops), ids, width, span, reach, puts, looks)
		c.count("histories searched", 1)
		found = imapSuspicious(kind, ops)
	}
	if found {
		c.count("histories suspected", 1)
		for again := true; again; {
			again = false
			for i := range ops {
				less := append(append([]iop{}, ops[:i]...), ops[i+1:]...)
				if imapSuspicious(kind, less) {
					ops, again = less, true
					break
				}
			}
		}
	}
	recordImap(c, kind, ops)
}

func init() {
	properties["C23"] = func(c *ctx) []family {
		rnd := func(name string, count, nops, ids, width, span, reach, looks int) family {
			return family{name, count, func(c *cx, i int) {
				kind := imapKinds[i%3]
				recordImap(c, kind, imapOps(c.r, nops/2+c.r.Intn(nops), ids, width, span, reach, c.r.Intn(nops/2), looks))
			}}
		}
		return []family{
			rnd("tiny", c.n(3000, 60000), 14, 2, 6, 4, 4, 40),
			rnd("small", c.n(3000, 60000), 30, 3, 20, 6, 6, 40),
			rnd("lazy", c.n(3000, 60000), 40, 2, 60, 12, 10, 10),
			rnd("wide", c.n(600, 10000), 120, 4, 500, 40, 60, 30),
			imapModel(c),
			{"hunt", c.n(600, 6000), func(c *cx, i int) { imapHunt(c, imapKinds[i%2], c.n(4000, 30000)) }},
		}
	}
}

// imapModel goes through histories of the specification: LazyTreeGen.tla prints
// one for every transition of the model.
func imapModel(c *ctx) family {
	if auxDir == "" {
		return family{"model", 0, nil}
	}
	hists := readLines("trees", "H ")
	n := len(hists)
	if q := 6000; !c.thorough && n > q {
		n = q
	}
	return family{"model", n, func(c *cx, i int) {
		k := i
		if n < len(hists) { // a sample, spread over all of them
			k = (i*len(hists) + c.r.Intn(len(hists))) / n % len(hists)
		}
		var h struct {
			Steps []struct {
				K           string
				Lo, Hi, Amt int
			}
		}
		if err := json.Unmarshal([]byte(hists[k]), &h); err != nil {
			fatalf("%v: %s", err, hists[k])
		}
		var ops []iop
		var es []ient // as in the specification, to name intervals that begin at a place
		far := c.r.Intn(2) * 3
		for _, st := range h.Steps {
			lo, hi := st.Lo+far, st.Hi+far
			switch st.K {
			case "add":
				es = append(es, ient{tag: len(es) + 1, lo: lo, hi: hi, must: true})
				ops = append(ops, iop{k: iAdd, tag: len(es), id: 1, lo: lo, hi: hi})
			case "rem":
				for i := range es {
					e := &es[i]
					if e.lo < hi && e.hi > lo {
						e.must = false
					} else if e.lo >= lo {
						e.lo, e.hi = e.lo+st.Amt, e.hi+st.Amt
					}
				}
				ops = append(ops, iop{k: iRem, lo: lo, hi: hi, amt: st.Amt})
			case "pos":
				for _, e := range es {
					if e.must && e.lo == lo {
						ops = append(ops, iop{k: iPos, tag: e.tag})
					}
				}
			}
		}
		recordImap(c, imapKinds[i%2], ops)
	}}
}

func sortedPairs(m map[[2]int]bool) [][2]int {
	var out [][2]int
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i][0] < out[j][0] || out[i][0] == out[j][0] && out[i][1] < out[j][1]
	})
	return out
}
