// Command vh generates cases for one property, runs the code under test on
// them and writes what it observed for the TLA+ specifications to judge.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// A family is a numbered set of cases.
type family struct {
	name  string
	count int
	// run generates and executes case i, emitting records.
	run func(c *cx, i int)
}

// cx is the context of one case.
type cx struct {
	*ctx
	r   *rand.Rand
	id  string
	sub int
	// plain runs also save and load the program
	viaSaved bool
	// only sessions that look suspicious are recorded
	screen bool
	seen   int
}

type ctx struct {
	prop     string
	seed     int64
	tier     string
	dir      string
	shard    int
	files    map[string]*bufio.Writer
	closers  []*os.File
	stats    map[string]int
	samples  []json.RawMessage
	smallest json.RawMessage
	thorough bool
	maxRec   int
}

// emit writes a record for the named trace specification.
func (c *cx) emit(spec string, rec map[string]interface{}) {
	id := c.id
	if c.sub > 0 {
		id = fmt.Sprintf("%s.%d", c.id, c.sub)
	}
	c.sub++
	rec["id"] = id
	b, err := json.Marshal(rec)
	if err != nil {
		fatalf("marshal: %v", err)
	}
	w := c.files[spec]
	if w == nil {
		f, err := os.Create(filepath.Join(c.dir, fmt.Sprintf("%s.%d.ndjson", spec, c.shard)))
		if err != nil {
			fatalf("%v", err)
		}
		w = bufio.NewWriterSize(f, 1<<16)
		c.files[spec] = w
		c.closers = append(c.closers, f)
	}
	w.Write(b)
	w.WriteByte('\n')
	c.stats["records:"+spec]++
	if len(c.samples) < 3 && len(b) < 1500 && c.r.Intn(20) == 0 {
		c.samples = append(c.samples, json.RawMessage(b))
	}
	if c.smallest == nil || len(b) < len(c.smallest) {
		c.smallest = json.RawMessage(b)
	}
}

// count adds to a named statistic of the run.
func (c *ctx) count(what string, n int) { c.stats[what] += n }

func hash64(parts ...interface{}) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

var caseStart atomic.Int64

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "number of shards")
	dir := flag.String("dir", ".", "output directory")
	only := flag.String("only", "", "run only this case (family/index)")
	fams := flag.String("families", "", "run only these families")
	limit := flag.Int("limit", 20, "seconds a case may take")
	aux := flag.String("aux", "", "second stage: directory with results of a specification run")
	flag.Parse()
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(200)

	c := &ctx{prop: *prop, seed: *seed, tier: *tier, dir: *dir, shard: *shard,
		files: map[string]*bufio.Writer{}, stats: map[string]int{}, thorough: *tier == "thorough"}
	auxDir = *aux
	mk, ok := properties[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	progress := filepath.Join(*dir, fmt.Sprintf("progress.%d", *shard))
	pf, err := os.Create(progress)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	flush := func() {
		for _, w := range c.files {
			w.Flush()
		}
	}
	var cur atomic.Value
	cur.Store("")
	go func() {
		// watchdog: a case that takes too long or too much memory ends the run
		var ms runtime.MemStats
		for {
			time.Sleep(200 * time.Millisecond)
			s := caseStart.Load()
			if s != 0 && time.Now().UnixNano()-s > int64(*limit)*1e9 {
				fmt.Fprintf(os.Stderr, "HANG %s\n", cur.Load())
				os.Exit(7)
			}
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				fmt.Fprintf(os.Stderr, "MEMORY %s\n", cur.Load())
				os.Exit(7)
			}
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			flush()
			fmt.Fprintf(os.Stderr, "HARNESS FAILURE in %s: %v\n%s\n", cur.Load(), r, debug.Stack())
			os.Exit(4)
		}
	}()
	n := 0
	for _, f := range mk(c) {
		if *fams != "" && !strings.Contains(","+*fams+",", ","+f.name+",") {
			continue
		}
		h := int(uint32(hash64(f.name)) >> 8)
		for i := 0; i < f.count; i++ {
			id := fmt.Sprintf("%s/%d", f.name, i)
			if *only != "" {
				if *only != id {
					continue
				}
			} else if (i+h)%*shards != *shard {
				continue
			}
			pf.WriteAt([]byte(id+"\n"), 0)
			cur.Store(id)
			caseStart.Store(time.Now().UnixNano())
			x := &cx{ctx: c, r: rand.New(rand.NewSource(hash64(*seed, "|", *prop, "|", f.name, "|", i))), id: id}
			f.run(x, i)
			caseStart.Store(0)
			c.stats["cases:"+f.name]++
			n++
			if n%64 == 0 {
				flush()
			}
		}
	}
	flush()
	for _, f := range c.closers {
		f.Close()
	}
	c.stats["cases"] = n
	if len(c.samples) == 0 && c.smallest != nil {
		c.samples = append(c.samples, c.smallest)
	}
	out, _ := json.Marshal(map[string]interface{}{"stats": c.stats, "samples": c.samples})
	if err := os.WriteFile(filepath.Join(*dir, fmt.Sprintf("stats.%d.json", *shard)), out, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// auxDir holds what a specification computed for a second stage.
var auxDir string

var properties = map[string]func(c *ctx) []family{}

func (c *ctx) n(quick, thorough int) int {
	if c.thorough {
		return thorough
	}
	return min(quick*max(quickScale[c.prop], 1), max(quick, thorough))
}

// quickScale multiplies the numbers of cases of quick runs.
var quickScale = map[string]int{
	"C01": 3, "C02": 3, "C03": 3, "C04": 3, "C05": 2, "C06": 3, "C07": 5, "C08": 2, "C09": 4, "C11": 4, "C12": 2,
	"C13": 2, "C15": 4, "C16": 4, "C18": 3, "C20": 3, "C21": 2, "C22": 2,
}
