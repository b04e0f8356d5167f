// Package main is the runtime-monitoring harness for SteelSeries/golisp.
//
//	vh check  <ID> <outdir> <verifdir>    supervisor: runs worker shards, judges, writes evidence
//	vh worker <ID> <tier> <seed> <shard> <nshards> <dir> <fromPhase> <fromIdx>
//	vh replay <ID> <tier> <seed> <phase> <idx>
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Phase is a deterministic list of cases. Case i of a phase depends only on
// (seed, property, phase, i), so any case can be replayed on its own.
type Phase struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(c *Case)
}

type Check struct {
	ID          string
	Rule        string // how cases are made and what makes one non-trivial
	Assumptions []string
	Shards      int // 0: one per CPU
	Phases      []Phase
	Setup       func()   // once per worker process
	Need        []string // counters that must be non-zero, otherwise the run observed nothing
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Case is the context of one case.
type Case struct {
	R     *rand.Rand
	Phase string
	Idx   int
	Tier  string
	w     *Worker
	desc  string
}

type Violation struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
	Phase  string `json:"phase"`
	Idx    int    `json:"idx"`
	Desc   string `json:"desc"`
}

type ShardResult struct {
	Cases      int64            `json:"cases"`
	Counters   map[string]int64 `json:"counters"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	Inconcl    []string         `json:"inconclusive"`
	Done       bool             `json:"done"`
}

type Worker struct {
	mu       sync.Mutex
	check    *Check
	tier     string
	seed     int64
	dir      string
	shard    int
	res      ShardResult
	distinct map[uint64]struct{}
	prog     *os.File
	buf      []byte
	seq      uint64
	sigs     map[string]bool
	replay   bool
}

const progSize = 1 << 16

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func caseSeed(seed int64, id, phase string, idx int) int64 {
	return int64(hash64(fmt.Sprint(seed), id, phase, fmt.Sprint(idx)) & 0x7fffffffffffffff)
}

// Desc records what is about to be executed, so that a crash can be attributed.
func (c *Case) Desc(format string, args ...interface{}) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	c.desc = s
	c.w.progress(c.Phase, c.Idx, s)
}

func (c *Case) DescTag() string { return c.desc }

// Fail reports a violation; sig identifies the specific failing input.
func (c *Case) Fail(sig, format string, args ...interface{}) {
	d := format
	if len(args) > 0 {
		d = fmt.Sprintf(format, args...)
	}
	defer c.w.save()
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if c.w.sigs[sig] {
		return
	}
	c.w.sigs[sig] = true
	if len(d) > 6000 {
		d = d[:6000] + " ...(truncated)"
	}
	c.w.res.Violations = append(c.w.res.Violations, Violation{Sig: sig, Detail: d, Phase: c.Phase, Idx: c.Idx, Desc: c.desc})
	if c.w.replay {
		fmt.Printf("FAIL %s\n%s\ninput: %s\n", sig, d, c.desc)
	}
}

func (c *Case) Inconclusive(format string, args ...interface{}) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if len(c.w.res.Inconcl) < 20 {
		c.w.res.Inconcl = append(c.w.res.Inconcl, fmt.Sprintf("%s/%d: ", c.Phase, c.Idx)+fmt.Sprintf(format, args...))
	}
	c.w.res.Counters["inconclusive"]++
}

func (c *Case) Count(name string, n int) {
	c.w.mu.Lock()
	c.w.res.Counters[name] += int64(n)
	c.w.mu.Unlock()
}

// Distinct marks a distinct, non-trivial case key.
func (c *Case) Distinct(key string) {
	h := hash64(key)
	c.w.mu.Lock()
	c.w.distinct[h] = struct{}{}
	c.w.mu.Unlock()
}

func (c *Case) Sample(s string) {
	c.w.mu.Lock()
	if len(c.w.res.Samples) < 3 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.w.res.Samples = append(c.w.res.Samples, s)
	}
	c.w.mu.Unlock()
}

func (c *Case) Thorough() bool { return c.Tier == "thorough" }

// progress file layout: [0:8] sequence, [8:12] length, then "phase\x00idx\x00desc"
func (w *Worker) progress(phase string, idx int, desc string) {
	if w.prog == nil {
		return
	}
	s := fmt.Sprintf("%s\x00%d\x00%s", phase, idx, desc)
	if len(s) > progSize-12 {
		s = s[:progSize-12]
	}
	w.mu.Lock()
	w.seq++
	b := w.buf[:12+len(s)]
	binary.LittleEndian.PutUint64(b, w.seq)
	binary.LittleEndian.PutUint32(b[8:], uint32(len(s)))
	copy(b[12:], s)
	w.prog.WriteAt(b, 0)
	w.mu.Unlock()
}

func newWorker(ch *Check, tier string, seed int64, shard int, dir string) *Worker {
	w := &Worker{check: ch, tier: tier, seed: seed, shard: shard, dir: dir,
		distinct: map[uint64]struct{}{}, buf: make([]byte, progSize), sigs: map[string]bool{}}
	w.res.Counters = map[string]int64{}
	return w
}

func (w *Worker) save() {
	w.mu.Lock()
	defer w.mu.Unlock()
	b, _ := json.Marshal(&w.res)
	tmp := filepath.Join(w.dir, fmt.Sprintf("res.%d.tmp", w.shard))
	os.WriteFile(tmp, b, 0o644)
	var db bytes.Buffer
	keys := make([]uint64, 0, len(w.distinct))
	for k := range w.distinct {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	binary.Write(&db, binary.LittleEndian, keys)
	os.WriteFile(filepath.Join(w.dir, fmt.Sprintf("dist.%d", w.shard)), db.Bytes(), 0o644)
	os.Rename(tmp, filepath.Join(w.dir, fmt.Sprintf("res.%d", w.shard)))
}

// maxViolations: a worker stops after that many (VH_MAXV: fewer, for mutation campaigns).
var maxViolations = func() int {
	if n, err := strconv.Atoi(os.Getenv("VH_MAXV")); err == nil && n > 0 {
		return n
	}
	return 40
}()

func (w *Worker) runCase(p *Phase, i int) {
	c := &Case{R: rand.New(rand.NewSource(caseSeed(w.seed, w.check.ID, p.Name, i))), Phase: p.Name, Idx: i, Tier: w.tier, w: w}
	w.progress(p.Name, i, "")
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			c.Fail("panic:"+panicSite(st)+":"+c.desc, "panic while executing %s\npanic: %v\n%s", c.desc, e, st)
		}
	}()
	w.res.Cases++
	p.Run(c)
}

// panicSite names the innermost golisp frame of a stack, to tell panics apart.
func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "github.com/steelseries/golisp.") && !strings.HasPrefix(l, "\t") {
			l = strings.TrimSpace(l)
			l = l[strings.Index(l, "golisp.")+7:]
			if k := strings.Index(l, "("); k > 0 {
				l = l[:k]
			}
			return l
		}
	}
	return "?"
}

// quickScale multiplies the quick case counts of the checks whose cases are cheap.
var quickScale = map[string]int{"C01": 4, "C02": 4, "C03": 2, "C04": 4, "C05": 4, "C06": 4, "C07": 4, "C09": 4, "C10": 4, "C11": 4, "C12": 4, "C13": 4, "C14": 4, "C15": 4, "C16": 4, "C17": 4, "C18": 4, "C24": 2, "C25": 4, "C21": 4}

func (p *Phase) count(id, tier string) int {
	if tier == "thorough" {
		return p.Thorough
	}
	n := p.Quick
	if k := quickScale[id]; k > 1 && n >= 1000 {
		n *= k
		if n > p.Thorough {
			n = p.Thorough
		}
	}
	return n
}

func workerMain(id, tier string, seed int64, shard, nshards int, dir string, fromPhase string, fromIdx int) {
	ch := checks[id]
	debug.SetMaxStack(1 << 29)
	w := newWorker(ch, tier, seed, shard, dir)
	// resume: keep what an earlier incarnation of this shard had found
	if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res.%d", shard))); err == nil {
		json.Unmarshal(b, &w.res)
		if w.res.Counters == nil {
			w.res.Counters = map[string]int64{}
		}
		for _, v := range w.res.Violations {
			w.sigs[v.Sig] = true
		}
		if db, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("dist.%d", shard))); err == nil {
			for i := 0; i+8 <= len(db); i += 8 {
				w.distinct[binary.LittleEndian.Uint64(db[i:])] = struct{}{}
			}
		}
	}
	f, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("prog.%d", shard)), os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w.prog = f
	if ch.Setup != nil {
		ch.Setup()
	}
	skipping := fromPhase != ""
	for pi := range ch.Phases {
		p := &ch.Phases[pi]
		start := 0
		if skipping {
			if p.Name != fromPhase {
				continue
			}
			skipping = false
			start = fromIdx
		}
		n := p.count(id, tier)
		k := 0
		for i := 0; i < n; i++ {
			if i%nshards != shard || i < start {
				continue
			}
			w.runCase(p, i)
			k++
			if len(w.res.Violations) >= maxViolations {
				w.res.Done = true
				w.save()
				return
			}
			if k%2000 == 0 {
				w.save()
			}
		}
		w.save()
	}
	w.res.Done = true
	w.save()
}

func replayMain(id, tier string, seed int64, phase string, idx int) {
	ch := checks[id]
	debug.SetMaxStack(1 << 29)
	w := newWorker(ch, tier, seed, 0, os.TempDir())
	w.replay = true
	if ch.Setup != nil {
		ch.Setup()
	}
	for pi := range ch.Phases {
		if ch.Phases[pi].Name == phase {
			w.runCase(&ch.Phases[pi], idx)
		}
	}
	if len(w.res.Violations) > 0 {
		os.Exit(1)
	}
	fmt.Println("held", runtime.Version())
}
