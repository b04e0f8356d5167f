package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// The supervisor runs the shards of a check in worker processes, attributes
// crashes, fatal errors, race reports, deadlocks and runaway evaluations to the
// case that was executing, and turns everything into the verdict.

const (
	cpuLimitPerCase = 60.0 // CPU seconds one case may consume before it counts as not terminating (cases normally take well below one)
	stallWindow     = 20 * time.Second
	wallWatchdog    = 13 * time.Minute // inconclusive if it fires
)

type shardState struct {
	idx       int
	cmd       *exec.Cmd
	stderr    string
	done      chan error
	lastSeq   uint64
	seqCPU    float64
	seqSince  time.Time
	lastCPU   float64
	cpuSince  time.Time
	killed    string
	restarts  int
	fromPhase string
	fromIdx   int
}

func procCPU(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	s := string(b)
	k := strings.LastIndex(s, ")")
	if k < 0 {
		return -1
	}
	f := strings.Fields(s[k+1:])
	if len(f) < 13 {
		return -1
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	t, _ := strconv.ParseFloat(f[12], 64)
	return (u + t) / 100.0
}

func readProgress(dir string, shard int) (seq uint64, phase string, idx int, desc string) {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("prog.%d", shard)))
	if err != nil || len(b) < 12 {
		return
	}
	seq = binary.LittleEndian.Uint64(b)
	n := int(binary.LittleEndian.Uint32(b[8:]))
	if 12+n > len(b) {
		return
	}
	parts := strings.SplitN(string(b[12:12+n]), "\x00", 3)
	if len(parts) < 3 {
		return
	}
	phase, desc = parts[0], parts[2]
	idx, _ = strconv.Atoi(parts[1])
	return
}

type known struct{ prop, sig, what string }

func loadKnown(verif string) (out []known) {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "known: property="), "\t", 3)
		if len(p) == 3 {
			out = append(out, known{p[0], p[1], p[2]})
		}
	}
	return
}

func supervise(id, work, verif string) int {
	ch := checks[id]
	if ch == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	dir, err := os.MkdirTemp(work, "run")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	n := ch.Shards
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	self, _ := os.Executable()
	var mu sync.Mutex
	var extra []Violation
	var inconcl []string
	shards := make([]*shardState, n)
	startShard := func(s *shardState) {
		s.stderr = filepath.Join(dir, fmt.Sprintf("stderr.%d.%d", s.idx, s.restarts))
		ef, _ := os.Create(s.stderr)
		s.cmd = exec.Command(self, "worker", id, tier, fmt.Sprint(seed), fmt.Sprint(s.idx), fmt.Sprint(n), dir, s.fromPhase, fmt.Sprint(s.fromIdx))
		s.cmd.Stderr = ef
		s.cmd.Env = append(os.Environ(), "GOTRACEBACK=all",
			"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, fmt.Sprintf("race.%d.%d", s.idx, s.restarts)),
			"VH_DIR="+dir)
		s.cmd.Dir = dir
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		s.done = make(chan error, 1)
		s.lastSeq, s.seqCPU, s.lastCPU = 0, 0, 0
		s.seqSince, s.cpuSince = time.Now(), time.Now()
		s.killed = ""
		if err := s.cmd.Start(); err != nil {
			s.done <- err
			return
		}
		cmd := s.cmd
		go func(d chan error) { e := cmd.Wait(); ef.Close(); d <- e }(s.done)
	}
	addV := func(v Violation) { mu.Lock(); extra = append(extra, v); mu.Unlock() }
	addI := func(s string) { mu.Lock(); inconcl = append(inconcl, s); mu.Unlock() }

	var wg sync.WaitGroup
	var hung int32
	for i := 0; i < n; i++ {
		shards[i] = &shardState{idx: i}
		wg.Add(1)
		go func(s *shardState) {
			defer wg.Done()
			runtime.LockOSThread() // Pdeathsig is per thread
			startShard(s)
			for {
				select {
				case <-s.done:
					_, phase, idx, desc := readProgress(dir, s.idx)
					var r ShardResult
					if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res.%d", s.idx))); err == nil {
						json.Unmarshal(b, &r)
					}
					if r.Done {
						return
					}
					eb, _ := os.ReadFile(s.stderr)
					es := string(eb)
					switch {
					case strings.HasPrefix(s.killed, "deadlock") || strings.HasPrefix(s.killed, "runaway"):
						kind := strings.SplitN(s.killed, ":", 2)[0]
						site := stuckSite(es)
						addV(Violation{Sig: kind + ":" + site + ":" + desc, Phase: phase, Idx: idx, Desc: desc,
							Detail: s.killed + "\n" + tail(es, 12000)})
					case s.killed == "stopped":
						return
					case s.killed != "":
						addI(fmt.Sprintf("%s/%d: %s (%s)", phase, idx, s.killed, desc))
						return
					case phase == "":
						addI("worker failed before the first case: " + tail(es, 2000))
						return
					default:
						addV(Violation{Sig: "crash:" + fatalLine(es) + ":" + panicSite(es) + ":" + desc, Phase: phase, Idx: idx, Desc: desc,
							Detail: "the process running the interpreter died\n" + head(es, 12000)})
					}
					s.restarts++
					if strings.HasPrefix(s.killed, "runaway") || strings.HasPrefix(s.killed, "deadlock") {
						// each of these costs a minute and more: two are evidence enough
						if atomic.AddInt32(&hung, 1) >= 2 {
							return
						}
					}
					if s.restarts >= 6 {
						return
					}
					s.fromPhase, s.fromIdx = phase, idx+1
					startShard(s)
				case <-time.After(500 * time.Millisecond):
					pid := s.cmd.Process.Pid
					cpu := procCPU(pid)
					if cpu < 0 {
						continue
					}
					seq, phase, idx, desc := readProgress(dir, s.idx)
					now := time.Now()
					if seq != s.lastSeq {
						s.lastSeq, s.seqCPU, s.seqSince = seq, cpu, now
						s.lastCPU, s.cpuSince = cpu, now
						continue
					}
					if s.killed == "" && atomic.LoadInt32(&hung) >= 2 {
						s.killed = "stopped"
						s.cmd.Process.Kill()
						continue
					}
					if s.killed != "" {
						if now.Sub(s.seqSince) > 10*time.Minute {
							s.cmd.Process.Kill()
						}
						continue
					}
					if cpu-s.lastCPU > 0.25 {
						s.lastCPU, s.cpuSince = cpu, now
					}
					if seq > 0 && cpu-s.seqCPU > cpuLimitPerCase {
						s.killed = fmt.Sprintf("runaway: one case consumed %.0f CPU seconds without finishing", cpu-s.seqCPU)
						s.cmd.Process.Signal(syscall.SIGQUIT)
						time.AfterFunc(20*time.Second, func() { s.cmd.Process.Kill() })
					} else if seq > 0 && now.Sub(s.seqSince) > stallWindow && now.Sub(s.cpuSince) > stallWindow {
						// nothing happened and nothing was computed: look at every goroutine
						s.killed = "stall"
						s.cmd.Process.Signal(syscall.SIGQUIT)
						time.Sleep(3 * time.Second)
						s.cmd.Process.Kill()
						eb, _ := os.ReadFile(s.stderr)
						if ok, why := allBlocked(string(eb)); ok {
							s.killed = "deadlock: every goroutine is blocked forever"
						} else {
							s.killed = "stalled but not provably deadlocked: " + why
						}
					} else if now.Sub(start) > wallWatchdog {
						s.killed = fmt.Sprintf("wall-clock watchdog during %s/%d %s", phase, idx, desc)
						s.cmd.Process.Kill()
					}
				}
			}
		}(shards[i])
	}
	wg.Wait()

	// merge
	total := ShardResult{Counters: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	for i := 0; i < n; i++ {
		var r ShardResult
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res.%d", i))); err == nil {
			json.Unmarshal(b, &r)
		}
		total.Cases += r.Cases
		for k, v := range r.Counters {
			total.Counters[k] += v
		}
		total.Violations = append(total.Violations, r.Violations...)
		total.Inconcl = append(total.Inconcl, r.Inconcl...)
		if len(total.Samples) < 6 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("dist.%d", i))); err == nil {
			for j := 0; j+8 <= len(b); j += 8 {
				distinct[binary.LittleEndian.Uint64(b[j:])] = struct{}{}
			}
		}
	}
	total.Violations = append(total.Violations, extra...)
	races := collectRaces(dir)
	total.Violations = append(total.Violations, races...)
	total.Inconcl = append(total.Inconcl, inconcl...)
	sort.SliceStable(total.Violations, func(a, b int) bool {
		va, vb := total.Violations[a], total.Violations[b]
		if va.Phase != vb.Phase {
			return va.Phase < vb.Phase
		}
		return va.Idx < vb.Idx
	})

	// verdict
	kn := loadKnown(verif)
	seenKnown := map[string]bool{}
	outDir := filepath.Join(verif, "out")
	os.MkdirAll(outDir, 0o755)
	if old, err := filepath.Glob(filepath.Join(outDir, id+"-*.txt")); err == nil {
		for _, f := range old {
			os.Remove(f)
		}
	}
	bad := 0
	reported := map[string]bool{}
	for _, v := range total.Violations {
		isKnown := false
		for _, k := range kn {
			if k.prop == id && k.sig == v.Sig {
				isKnown = true
				if !seenKnown[k.sig] {
					seenKnown[k.sig] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
				}
			}
		}
		if isKnown || reported[v.Sig] {
			continue
		}
		reported[v.Sig] = true
		bad++
		if bad <= 10 {
			p := filepath.Join(outDir, fmt.Sprintf("%s-%d.txt", id, bad))
			os.WriteFile(p, []byte(fmt.Sprintf("property: %s\ntier: %s\nseed: %d\nphase: %s\ncase: %d\nreplay: bash check.sh %s replay %s %d %s %d\nsignature: %s\ninput:\n%s\n\n%s\n",
				id, tier, seed, v.Phase, v.Idx, id, tier, seed, v.Phase, v.Idx, v.Sig, v.Desc, v.Detail)), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
			fmt.Printf("  %s/%d %s\n", v.Phase, v.Idx, oneLine(v.Detail, 300))
		}
	}

	cov := map[string]interface{}{
		"evaluations":         total.Cases,
		"distinct_nontrivial": len(distinct),
		"rule":                ch.Rule,
		"samples":             total.Samples,
		"counters":            total.Counters,
		"shards":              n,
	}
	if len(total.Inconcl) > 0 {
		cov["inconclusive"] = total.Inconcl
	}
	if len(total.Samples) == 0 {
		cov["samples"] = []string{}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": append([]string{
			"Verdicts concern the executions produced in this run only (runtime monitoring): held on what was observed, never verified."}, ch.Assumptions...),
		"wall_s": time.Since(start).Seconds(), "violations": bad,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644)
	fmt.Printf("%s tier=%s seed=%d cases=%d distinct=%d violations=%d inconclusive=%d wall=%.1fs\n", id, tier, seed, total.Cases, len(distinct), bad, len(total.Inconcl), time.Since(start).Seconds())
	if os.Getenv("VH_VERBOSE") != "" {
		ks := make([]string, 0)
		for k := range total.Counters {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("   %-40s %d\n", k, total.Counters[k])
		}
	}
	if bad > 0 {
		return 1
	}
	for _, k := range ch.Need {
		if total.Counters[k] == 0 {
			fmt.Printf("INCONCLUSIVE property=%s the monitor observed no %q events\n", id, k)
			return 2
		}
	}
	if len(inconcl) > 0 {
		for _, s := range inconcl {
			fmt.Printf("INCONCLUSIVE property=%s %s\n", id, oneLine(s, 400))
		}
		return 2
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
func oneLine(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	return head(s, n)
}

func fatalLine(es string) string {
	for _, l := range strings.Split(es, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "SIG") || strings.HasPrefix(l, "runtime:") {
			l = regexp.MustCompile(`0x[0-9a-f]+`).ReplaceAllString(l, "0x")
			return head(l, 120)
		}
	}
	return "exit"
}

var goHdr = regexp.MustCompile(`(?m)^goroutine \d+ (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\]]*)\]:`)

// allBlocked reports whether a SIGQUIT dump shows only goroutines that wait on
// synchronisation, i.e. nothing that could make progress by itself.
func allBlocked(dump string) (bool, string) {
	m := goHdr.FindAllStringSubmatchIndex(dump, -1)
	if len(m) == 0 {
		return false, "no goroutine dump"
	}
	user := 0
	for i, x := range m {
		st := dump[x[2]:x[3]]
		end := len(dump)
		if i+1 < len(m) {
			end = m[i+1][0]
		}
		body := dump[x[1]:end]
		st = strings.SplitN(st, ",", 2)[0]
		switch {
		case strings.HasPrefix(st, "chan "), st == "semacquire", strings.HasPrefix(st, "sync."), strings.HasPrefix(st, "select"):
			user++
		case strings.HasPrefix(st, "force gc"), strings.HasPrefix(st, "GC "), strings.Contains(st, "idle"), strings.Contains(st, "finalizer"), strings.Contains(st, "cleanup"), strings.Contains(st, "bgsweep"):
		case strings.Contains(body, "os/signal"):
		default:
			return false, "goroutine in state " + st
		}
	}
	return user > 0, ""
}

func stuckSite(dump string) string {
	set := map[string]bool{}
	m := goHdr.FindAllStringSubmatchIndex(dump, -1)
	for i, x := range m {
		end := len(dump)
		if i+1 < len(m) {
			end = m[i+1][0]
		}
		s := panicSite(dump[x[1]:end])
		if s != "?" {
			set[s] = true
		}
	}
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// collectRaces turns race detector logs into violations, one per pair of sites.
func collectRaces(dir string) (out []Violation) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	sort.Strings(files)
	seen := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			// A close that overlaps a send is flagged by the detector as a likely
			// programming error although no memory is at risk; what a program sees
			// of it (an error) is judged by the monitors.
			if strings.Contains(blk, "runtime.closechan()") && strings.Contains(blk, "runtime.chansend()") {
				continue
			}
			sig := "race:" + raceSites(blk)
			if seen[sig] {
				continue
			}
			seen[sig] = true
			out = append(out, Violation{Sig: sig, Phase: "race", Idx: 0, Desc: "race detector report", Detail: "data race\n" + blk})
		}
	}
	return
}

func raceSites(blk string) string {
	var sites []string
	for _, sec := range strings.Split(blk, "\n\n") {
		l := strings.TrimSpace(sec)
		if strings.HasPrefix(l, "WARNING: DATA RACE") {
			if k := strings.Index(l, "\n"); k > 0 {
				l = strings.TrimSpace(l[k:])
			}
		}
		if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") || strings.HasPrefix(l, "Atomic") {
			sites = append(sites, panicSite(sec))
		}
	}
	sort.Strings(sites)
	return strings.Join(sites, "|")
}
