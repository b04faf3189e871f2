// Package core is the run-time of every check: it counts what was explored,
// records violations as replayable artefacts, knows the listed findings,
// writes the evidence file, and survives crashes, hangs and runaway memory of
// the code under test (they become violations, never error exits).
package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// C is the context of one check run.
type C struct {
	ID       string
	Tier     string
	Seed     int64
	Thorough bool
	Root     string // the /verif directory
	out      string // where results are written first (Root, unless unprivileged)

	start    time.Time
	deadline time.Time

	states, transitions, traces atomic.Int64
	evals                       atomic.Int64

	mu         sync.Mutex
	samples    []string
	sampleSeen map[string]int
	parts      []*partInfo
	cur        *partInfo
	only       string // restrict to one part (replay)
	violations []violation
	findings   map[string]string // key -> description (known findings)
	hitKnown   map[string]string
	seenKeys   map[string]bool
	stopped    atomic.Bool
	truncated  atomic.Bool
	extra      map[string]any
	assume     []string
	slots      []*W
}

type partInfo struct {
	Name       string  `json:"name"`
	Bounds     string  `json:"bounds"`
	States     int64   `json:"states"`
	Trans      int64   `json:"transitions"`
	Traces     int64   `json:"traces_validated_against_impl"`
	Exhaustive bool    `json:"exhaustive"`
	Seconds    float64 `json:"wall_s"`
}

type violation struct {
	Key, Part, Detail string
}

// W is one worker of a parallel exploration.
type W struct {
	C    *C
	ID   int
	seq  atomic.Int64
	desc atomic.Pointer[func() string]
	busy atomic.Bool

	// local counters, flushed by Flush
	S, T, V int64
}

// Begin names the case this worker is about to run (for hang reports).
func (w *W) Begin(desc func() string) {
	w.desc.Store(&desc)
	w.seq.Add(1)
}

// Flush adds the local counters to the run's totals.
func (w *W) Flush() {
	w.C.states.Add(w.S)
	w.C.transitions.Add(w.T)
	w.C.traces.Add(w.V)
	w.S, w.T, w.V = 0, 0, 0
}

func (c *C) State(n int)   { c.states.Add(int64(n)) }
func (c *C) Trans(n int)   { c.transitions.Add(int64(n)) }
func (c *C) Trace(n int)   { c.traces.Add(int64(n)) }
func (c *C) Stopped() bool { return c.stopped.Load() }
func (c *C) TimeUp() bool {
	if c.stopped.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.truncated.Store(true)
		c.mu.Lock()
		if c.cur != nil {
			c.cur.Exhaustive = false
		}
		c.mu.Unlock()
		return true
	}
	return false
}

// Truncate records that a bound other than the declared ones was hit.
func (c *C) Truncate() {
	c.truncated.Store(true)
	c.mu.Lock()
	if c.cur != nil {
		c.cur.Exhaustive = false
	}
	c.mu.Unlock()
}

func (c *C) Elapsed() time.Duration { return time.Since(c.start) }

// Sample records an actual case of this run (a few per part).
func (c *C) Sample(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	part := ""
	if c.cur != nil {
		part = c.cur.Name
	}
	if c.sampleSeen[part] >= 4 || len(c.samples) >= 60 {
		return
	}
	c.sampleSeen[part]++
	s := fmt.Sprintf(format, args...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	c.samples = append(c.samples, part+": "+s)
}

// WantSample tells whether another sample of this part would be kept.
func (c *C) WantSample() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	part := ""
	if c.cur != nil {
		part = c.cur.Name
	}
	return c.sampleSeen[part] < 4
}

func (c *C) Extra(key string, value any) {
	c.mu.Lock()
	c.extra[key] = value
	c.mu.Unlock()
}

func (c *C) Assume(s ...string) { c.assume = append(c.assume, s...) }

// Fail reports that the property is broken by the case named key.
func (c *C) Fail(key, format string, args ...any) {
	detail := fmt.Sprintf(format, args...)
	c.mu.Lock()
	defer c.mu.Unlock()
	if desc, ok := c.findings[key]; ok {
		c.hitKnown[key] = desc
		return
	}
	if c.seenKeys[key] {
		return
	}
	c.seenKeys[key] = true
	part := ""
	if c.cur != nil {
		part = c.cur.Name
	}
	c.violations = append(c.violations, violation{key, part, detail})
	c.stopped.Store(true)
}

// IsKnown tells whether the key is a listed finding (and notes that it was hit).
func (c *C) Part(name, bounds string, f func()) {
	if c.only != "" && c.only != name {
		return
	}
	if c.stopped.Load() {
		return
	}
	p := &partInfo{Name: name, Bounds: bounds, Exhaustive: true}
	c.mu.Lock()
	c.parts = append(c.parts, p)
	c.cur = p
	c.mu.Unlock()
	s0, t0, v0 := c.states.Load(), c.transitions.Load(), c.traces.Load()
	t := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Fail("panic:"+name, "unexpected panic: %v\n%s", r, debug.Stack())
			}
		}()
		f()
	}()
	p.Seconds = time.Since(t).Seconds()
	p.States = c.states.Load() - s0
	p.Trans = c.transitions.Load() - t0
	p.Traces = c.traces.Load() - v0
	c.mu.Lock()
	c.cur = nil
	c.mu.Unlock()
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "[%s] %-34s states=%d trans=%d traces=%d exh=%v %.2fs\n", c.ID, name, p.States, p.Trans, p.Traces, p.Exhaustive, p.Seconds)
	}
}

// Par runs f(w, i) for 0 <= i < n on all cores. It stops early when a
// violation was found or the time is up.
func (c *C) Par(n int, f func(w *W, i int)) {
	workers := runtime.GOMAXPROCS(0)
	if workers > n {
		workers = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		w := c.newWorker()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer c.dropWorker(w)
			defer w.Flush()
			for {
				i := int(next.Add(1) - 1)
				if i >= n || c.TimeUp() {
					return
				}
				func() {
					defer w.recoverTo("")
					f(w, i)
				}()
			}
		}()
	}
	wg.Wait()
}

// Solo runs f on the calling goroutine as a worker.
func (c *C) Solo(f func(w *W)) {
	w := c.newWorker()
	defer c.dropWorker(w)
	defer w.Flush()
	defer w.recoverTo("")
	f(w)
}

func (w *W) recoverTo(prefix string) {
	if r := recover(); r != nil {
		d := "?"
		if p := w.desc.Load(); p != nil {
			d = (*p)()
		}
		w.C.Fail("panic:"+prefix+d, "case %s: unexpected panic: %v\n%s", d, r, trimStack())
	}
}

func trimStack() string {
	s := string(debug.Stack())
	if len(s) > 6000 {
		s = s[:6000] + "\n..."
	}
	return s
}

func (c *C) newWorker() *W {
	w := &W{C: c}
	w.busy.Store(true)
	c.mu.Lock()
	w.ID = len(c.slots)
	c.slots = append(c.slots, w)
	c.mu.Unlock()
	return w
}

func (c *C) dropWorker(w *W) { w.busy.Store(false) }

// Try runs f and returns the panic value, if any (nil otherwise).
func Try(f func()) (panicked any) {
	defer func() {
		if r := recover(); r != nil {
			panicked = r
			if e, ok := r.(runtime.Error); ok {
				_ = e
			}
		}
	}()
	f()
	return nil
}

// Panics tells whether f panics.
func Panics(f func()) (yes bool) {
	yes = true
	defer func() {
		recover()
	}()
	f()
	yes = false
	return
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

// HangSeconds is how long one case may run before it counts as not terminating.
var HangSeconds = 90

// HeapLimit is the heap size which counts as runaway memory.
var HeapLimit uint64 = 14 << 30

// Main runs a check. body explores; everything else is done here.
func Main(id string, body func(c *C)) {
	if os.Getenv("MC_WORKER") == "" {
		os.Exit(supervise(id))
	}
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	c := &C{
		ID: id, Tier: env("VERIF_TIER", "quick"), Root: env("MC_ROOT", "/verif"),
		start: time.Now(), sampleSeen: map[string]int{}, findings: map[string]string{},
		hitKnown: map[string]string{}, seenKeys: map[string]bool{}, extra: map[string]any{},
		only: os.Getenv("MC_PART"),
	}
	c.Thorough = c.Tier == "thorough"
	c.Seed, _ = strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	c.out = env("MC_OUT", c.Root)
	limit := 240 * time.Second
	if c.Thorough {
		limit = 780 * time.Second
	}
	if s := os.Getenv("MC_SECONDS"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	c.deadline = c.start.Add(limit)
	c.loadFindings()
	go c.watchdog()
	body(c)
	c.finish()
}

func (c *C) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writeEvidence()
	keys := make([]string, 0, len(c.hitKnown))
	for k := range c.hitKnown {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, c.hitKnown[k])
	}
	if len(c.violations) > 0 {
		for i, v := range c.violations {
			if i >= 5 {
				break
			}
			path := WriteReplay(c.Root, c.ID, c.Tier, i, v.Part, v.Key, v.Detail)
			fmt.Printf("%s\n", indent(v.Detail))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		}
		os.Exit(1)
	}
	fmt.Printf("%s: held: states=%d transitions=%d traces=%d exhaustive=%v %.1fs\n", c.ID, c.states.Load(), c.transitions.Load(), c.traces.Load(), !c.truncated.Load(), time.Since(c.start).Seconds())
	os.Exit(0)
}

func indent(s string) string {
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return "  " + strings.ReplaceAll(s, "\n", "\n  ")
}

// WriteReplay stores a violation as a replayable artefact.
func WriteReplay(root, id, tier string, i int, part, key, detail string) string {
	dir := filepath.Join(env("MC_OUT", root), "out")
	os.MkdirAll(dir, 0o755)
	name := fmt.Sprintf("%s-%d.json", id, i)
	file := filepath.Join(dir, name)
	path := filepath.Join(root, "out", name)
	data, _ := json.MarshalIndent(map[string]any{
		"property": id, "tier": tier, "part": part, "case": key, "detail": detail,
		"replay_cmd": fmt.Sprintf("%s/replay.sh %s", root, path),
	}, "", " ")
	os.WriteFile(file, append(data, '\n'), 0o644)
	return path
}

func (c *C) writeEvidence() {
	cov := map[string]any{
		"states": c.states.Load(), "transitions": c.transitions.Load(),
		"traces_validated_against_impl": c.traces.Load(),
		"samples":                       c.samples,
		"exhaustive":                    !c.truncated.Load() && len(c.violations) == 0,
		"parts":                         c.parts,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	var msgs []string
	for _, v := range c.violations {
		msgs = append(msgs, v.Key)
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "model_checking",
		"coverage": cov, "assumptions": c.assume, "wall_s": time.Since(c.start).Seconds(),
		"violations": len(c.violations),
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	if msgs != nil {
		cov["violating_cases"] = msgs
	}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return
	}
	dir := filepath.Join(c.out, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

// loadFindings reads known_findings.txt: lines
//
//	finding: property=<id> key=<key> :: <what fails>
//
// Lines that start with "fixed:" suppress nothing.
func (c *C) loadFindings() {
	f, err := os.Open(filepath.Join(c.out, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "finding:") {
			continue
		}
		rest := strings.TrimSpace(strings.TrimPrefix(line, "finding:"))
		prefix := "property=" + c.ID + " key="
		if !strings.HasPrefix(rest, prefix) {
			continue
		}
		rest = strings.TrimPrefix(rest, prefix)
		key, desc, ok := strings.Cut(rest, " :: ")
		if ok {
			c.findings[key] = desc
		}
	}
}

// watchdog turns hangs and runaway memory into violations.
func (c *C) watchdog() {
	type seen struct {
		seq   int64
		since time.Time
	}
	last := map[int]*seen{}
	for {
		time.Sleep(time.Second)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		heavy := ms.HeapAlloc > HeapLimit
		c.mu.Lock()
		slots := append([]*W{}, c.slots...)
		c.mu.Unlock()
		now := time.Now()
		var worst *W
		var worstAge time.Duration
		for _, w := range slots {
			if !w.busy.Load() || w.desc.Load() == nil {
				delete(last, w.ID)
				continue
			}
			s := w.seq.Load()
			l := last[w.ID]
			if l == nil || l.seq != s {
				last[w.ID] = &seen{s, now}
				continue
			}
			if age := now.Sub(l.since); age > worstAge {
				worst, worstAge = w, age
			}
		}
		if worst != nil && (worstAge > time.Duration(HangSeconds)*time.Second || (heavy && worstAge > 2*time.Second)) {
			what := "does not terminate"
			if heavy {
				what = fmt.Sprintf("uses runaway memory (%d MB)", ms.HeapAlloc>>20)
			}
			d := (*worst.desc.Load())()
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c.Fail("hang:"+d, "case %s %s (%.0f s)\n%s", d, what, worstAge.Seconds(), buf)
			c.finish()
		}
	}
}

// Unprivileged makes the worker run as an unprivileged user whose only
// writable place is a scratch directory (named by MC_SCRATCH).
var Unprivileged = false

// unprivileged prepares cmd; the returned function collects the results.
func unprivileged(cmd *exec.Cmd, root string) func() {
	dir, err := os.MkdirTemp(os.Getenv("MC_TMP"), "worker")
	if err != nil {
		return func() {}
	}
	const nobody = 65534
	scratch := filepath.Join(dir, "scratch")
	for _, d := range []string{scratch, filepath.Join(dir, "out"), filepath.Join(dir, "evidence")} {
		os.Mkdir(d, 0o755)
		os.Chown(d, nobody, nobody)
	}
	os.Chmod(dir, 0o755)
	if t := os.Getenv("MC_TMP"); t != "" {
		os.Chmod(t, 0o755)
	}
	if data, err := os.ReadFile(filepath.Join(root, "known_findings.txt")); err == nil {
		os.WriteFile(filepath.Join(dir, "known_findings.txt"), data, 0o644)
	}
	cmd.Env = append(cmd.Env, "MC_OUT="+dir, "MC_SCRATCH="+scratch)
	cmd.Dir = scratch
	if os.Geteuid() == 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	return func() {
		for _, sub := range []string{"out", "evidence"} {
			es, _ := os.ReadDir(filepath.Join(dir, sub))
			for _, e := range es {
				if data, err := os.ReadFile(filepath.Join(dir, sub, e.Name())); err == nil {
					os.MkdirAll(filepath.Join(root, sub), 0o755)
					os.WriteFile(filepath.Join(root, sub, e.Name()), data, 0o644)
				}
			}
		}
		os.RemoveAll(dir)
	}
}

// supervise runs the check in a child process, so that a crash of the code
// under test is reported as a violation.
func supervise(id string) int {
	root := env("MC_ROOT", "/verif")
	tier := env("VERIF_TIER", "quick")
	exe, _ := os.Executable()
	os.Remove(filepath.Join(root, "evidence", id+".json"))
	for attempt := 0; ; attempt++ {
		cmd := exec.Command(exe, os.Args[1:]...)
		cmd.Env = append(os.Environ(), "MC_WORKER=1")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var tail tailBuf
		cmd.Stdout = os.Stdout
		cmd.Stderr = &tail
		sig := make(chan os.Signal, 1)
		signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
		runtime.LockOSThread()
		collect := func() {}
		if Unprivileged {
			collect = unprivileged(cmd, root)
		}
		if err := cmd.Start(); err != nil {
			if cmd.SysProcAttr.Credential != nil { // not allowed here: stay root
				collect()
				Unprivileged = false
				attempt--
				os.Setenv("MC_SCRATCH", "")
				continue
			}
			fmt.Println("cannot start:", err)
			return 3
		}
		go func() {
			if _, ok := <-sig; ok {
				cmd.Process.Kill()
			}
		}()
		err := cmd.Wait()
		signal.Stop(sig)
		collect()
		code := cmd.ProcessState.ExitCode()
		if err == nil || code == 0 || code == 1 {
			return code
		}
		text := tail.String()
		if attempt == 0 {
			fmt.Printf("worker ended with %v; running it again to confirm\n", cmd.ProcessState)
			continue
		}
		detail := fmt.Sprintf("the check's process crashed twice (%v) while running the code under test:\n%s", cmd.ProcessState, text)
		path := WriteReplay(root, id, tier, 0, "", "crash", detail)
		ev := map[string]any{
			"property": id, "tier": tier, "seed": 1, "level": "model_checking", "violations": 1, "wall_s": 0.0,
			"coverage": map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{detail[:min(len(detail), 500)]}, "exhaustive": false},
		}
		data, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		os.WriteFile(filepath.Join(root, "evidence", id+".json"), data, 0o644)
		fmt.Println(indent(detail))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
}

type tailBuf struct {
	mu   sync.Mutex
	head []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 8000 {
		t.head = append(t.head, p...)
	}
	if os.Getenv("MC_VERBOSE") != "" {
		os.Stderr.Write(p)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head)
}
