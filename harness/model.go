package main

import (
	"bufio"
	"encoding/json"
	"os"
	"path/filepath"
)

// Histories generated by the specification: IncrementalGen.tla prints one for
// every transition of the model.

type genStep struct {
	K       string
	At, Del int
	Ins     []int
	Lo, Hi  int
}

type genHist struct {
	P     int
	T     []int
	Steps []genStep
}

func bytesOf(xs []int) []byte {
	b := make([]byte, len(xs))
	for i, x := range xs {
		b[i] = byte(x)
	}
	return b
}

// readLines returns the lines of a generated file without their tags.
func readLines(name, tag string) []string {
	f, err := os.Open(filepath.Join(auxDir, name))
	if err != nil {
		fatalf("%v", err)
	}
	defer f.Close()
	var out []string
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		if t := sc.Text(); len(t) > len(tag) && t[:len(tag)] == tag {
			out = append(out, t[len(tag):])
		}
	}
	return out
}

// patterns of the specification
func readPrograms(lines []string) []*P {
	type node struct {
		T    string
		S    []int
		N    int
		A, B int
		Nm   string
		D    []Def
	}
	var progs [][]node
	if len(lines) != 1 || json.Unmarshal([]byte(lines[0]), &progs) != nil {
		fatalf("no programs: %q", lines)
	}
	var out []*P
	for _, ns := range progs {
		p := &P{}
		for _, n := range ns {
			d := Nd{T: n.T, S: bytesOf(n.S), N: n.N, A: n.A, B: n.B, Nm: n.Nm, D: n.D}
			if n.T == "memo" {
				d.MemoID = autoMemo
			}
			p.add(d)
		}
		p.Root = len(p.N)
		out = append(out, p)
	}
	return out
}

// modelFamily replays the histories in a file, each followed by after.
func modelFamily(c *ctx, name string, quick int, after func(s *session)) family {
	if auxDir == "" {
		return family{"model", 0, nil}
	}
	progs := readPrograms(readLines(name, "P "))
	hists := readLines(name, "H ")
	n := len(hists)
	if !c.thorough && n > quick {
		n = quick
	}
	return family{"model", n, func(c *cx, i int) {
		k := i
		if n < len(hists) { // a sample, spread over all of them
			k = (i*len(hists) + c.r.Intn(len(hists))) / n % len(hists)
		}
		var h genHist
		if err := json.Unmarshal([]byte(hists[k]), &h); err != nil {
			fatalf("%v: %s", err, hists[k])
		}
		s := c.newSession(progs[h.P-1], bytesOf(h.T), []int{0, 0, 0, 2}[c.r.Intn(4)])
		for _, st := range h.Steps {
			if s.bad {
				break
			}
			switch st.K {
			case "edit":
				s.edit(st.At, st.Del, bytesOf(st.Ins))
			case "parse":
				s.parse()
			case "iparse":
				s.iparse(st.Lo, st.Hi, s.tbl)
			}
		}
		if !s.bad {
			after(s)
		}
		s.emit(fieldsFor(c.prop), nil)
	}}
}
