//go:build go1.22

package main

// Core of the harness: deterministic case generation, verdict bookkeeping,
// supervision of the worker process, evidence.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"
)

const repoModule = "github.com/kuznetsovin/egts-protocol/"

// Violation is one refutation of the property, with what is needed to see it again.
type Violation struct {
	Property string                 `json:"property"`
	Group    string                 `json:"group"`
	Index    int                    `json:"index"`
	Message  string                 `json:"message"`
	Detail   map[string]interface{} `json:"detail,omitempty"`
	Seed     int64                  `json:"seed"`
	Tier     string                 `json:"tier"`
	Rerun    string                 `json:"rerun"`
}

// Result is what a worker reports to its supervisor.
type Result struct {
	Evaluations  int64            `json:"evaluations"`
	Distinct     int64            `json:"distinct"`
	Counters     map[string]int64 `json:"counters"`
	Samples      []interface{}    `json:"samples"`
	Violations   []Violation      `json:"violations"`
	Known        []string         `json:"known"`
	Inconclusive []string         `json:"inconclusive"`
	Exhaustive   []string         `json:"exhaustive,omitempty"`
	Finished     bool             `json:"finished"`
}

// Ctx is the state of one run of one check.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int64
	Scratch  string
	RepoBin  string // directory with the programs built from the repository
	only     string
	mu       sync.Mutex
	res      Result
	distinct map[uint64]struct{}
	required []string
	stop     int32
	inFlight sync.Map // *Case -> start time
	knownSet map[string]bool
}

// Thorough tells whether the deep tier runs.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// scale makes the quick tier of each check take about 20 s on 8 cores.
var scale = map[string]int{
	"C01": 16, "C02": 24, "C03": 14, "C04": 10, "C05": 7, "C06": 6, "C07": 16, "C08": 2, "C09": 24,
	"C10": 7, "C11": 9, "C12": 9, "C13": 9, "C14": 4, "C15": 12, "C16": 3, "C17": 6, "C18": 20, "C19": 1,
	"C20": 12, "C21": 4, "C22": 16, "C23": 24, "C24": 20, "C25": 3, "C26": 40, "C27": 30, "C28": 12, "C29": 6,
}

// N scales a number of cases with the check and the tier.
func (c *Ctx) N(n int) int {
	m := scale[c.ID]
	if v, err := strconv.Atoi(os.Getenv("HX_SCALE")); err == nil { // only while developing
		m = v
	}
	n *= m
	if c.Thorough() {
		n *= 12
	}
	return n
}

// Case is one generated situation; everything random in it comes from R.
type Case struct {
	c      *Ctx
	Group  string
	Index  int
	R      *rand.Rand
	detail map[string]interface{}
	sig    uint64
	sigSet bool
	stage  atomic.Value
}

type caseFailed struct{ msg string }
type caseRetry struct{ msg string }
type caseInconclusive struct{ msg string }

// Failf records a violation and ends the case.
func (k *Case) Failf(format string, a ...interface{}) { panic(caseFailed{fmt.Sprintf(format, a...)}) }

// Retryf marks a violation whose only symptom is that something did not happen in
// time; it counts only if it shows again when the case is repeated.
func (k *Case) Retryf(format string, a ...interface{}) { panic(caseRetry{fmt.Sprintf(format, a...)}) }

// Skipf marks a case that could not be decided because of the environment.
func (k *Case) Skipf(format string, a ...interface{}) {
	panic(caseInconclusive{fmt.Sprintf(format, a...)})
}

// Note attaches a detail to the case for the replay file.
func (k *Case) Note(key string, v interface{}) {
	if b, ok := v.([]byte); ok {
		v = fmt.Sprintf("%x", b)
	}
	k.detail[key] = v
}

// Sig adds to the signature by which distinct cases are counted.
func (k *Case) Sig(parts ...interface{}) {
	h := fnv.New64a()
	if k.sigSet {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], k.sig)
		h.Write(b[:])
	}
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		default:
			fmt.Fprintf(h, "%v|", v)
		}
	}
	k.sig, k.sigSet = h.Sum64(), true
}

// Count adds to a counter of observed events.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.res.Counters[name] += n
	c.mu.Unlock()
}

// Count adds to a counter of observed events.
func (k *Case) Count(name string, n int64) { k.c.Count(name, n) }

// Require names counters that must not be zero at the end; otherwise the run observed nothing.
func (c *Ctx) Require(names ...string) { c.required = append(c.required, names...) }

// Known reports that a defect was seen; it is tolerated only if the committed list of
// findings has a line "finding: property=<this check> key=<key> <text>".
func (c *Ctx) Known(k *Case, key, what string) {
	c.mu.Lock()
	seen := c.knownSet[key]
	c.mu.Unlock()
	if seen {
		return
	}
	b, _ := os.ReadFile(filepath.Join(os.Getenv("HX_VERIF"), "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		pre := "finding: property=" + c.ID + " key=" + key + " "
		if strings.HasPrefix(l, pre) {
			c.mu.Lock()
			if !c.knownSet[key] {
				c.knownSet[key] = true
				c.res.Known = append(c.res.Known, strings.TrimPrefix(l, pre))
			}
			c.mu.Unlock()
			return
		}
	}
	k.Failf("%s", what)
}

func caseRand(seed int64, id, group string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, id, group, idx)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (c *Ctx) stopped() bool { return atomic.LoadInt32(&c.stop) != 0 }

// Cases runs n cases on par goroutines. The list of cases depends on the seed and
// tier only.
func (c *Ctx) Cases(group string, n, par int, f func(k *Case)) {
	if par < 1 {
		par = 1
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.stopped() {
					return
				}
				if c.only != "" && c.only != fmt.Sprintf("%s:%d", group, i) {
					continue
				}
				c.runCase(group, i, f)
			}
		}()
	}
	wg.Wait()
}

// Beside runs a group while the others run; the result waits for its end.
func (c *Ctx) Beside(group string, n, par int, f func(k *Case)) (wait func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		c.Cases(group, n, par, f)
	}()
	return func() { <-done }
}

// One runs a single case.
func (c *Ctx) One(group string, f func(k *Case)) { c.Cases(group, 1, 1, f) }

func (c *Ctx) runCase(group string, i int, f func(k *Case)) {
	for attempt := 0; ; attempt++ {
		k := &Case{c: c, Group: group, Index: i, R: caseRand(c.Seed, c.ID, group, i), detail: map[string]interface{}{}}
		c.progress(group, i)
		c.inFlight.Store(k, time.Now())
		retry, msg, failed := c.guard(k, f)
		c.inFlight.Delete(k)
		if retry {
			if attempt == 0 {
				c.Count("cases_repeated", 1)
				continue
			}
			failed = true
		}
		c.mu.Lock()
		c.res.Evaluations++
		if k.sigSet {
			c.distinct[k.sig] = struct{}{}
		}
		if len(c.res.Samples) < 4 && (i == 0 || i == 7) && len(k.detail) > 0 {
			c.res.Samples = append(c.res.Samples, map[string]interface{}{"group": group, "index": i, "detail": shorten(k.detail)})
		}
		c.mu.Unlock()
		if failed {
			c.violate(k, msg)
		}
		return
	}
}

func shorten(d map[string]interface{}) map[string]interface{} {
	out := map[string]interface{}{}
	for k, v := range d {
		if s, ok := v.(string); ok && len(s) > 400 {
			v = s[:400] + fmt.Sprintf("... (%d characters)", len(s))
		}
		out[k] = v
	}
	return out
}

func (c *Ctx) violate(k *Case, msg string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Violations) < 8 {
		c.res.Violations = append(c.res.Violations, Violation{
			Property: c.ID, Group: k.Group, Index: k.Index, Message: msg, Detail: k.detail, Seed: c.Seed, Tier: c.Tier,
		})
	}
	if len(c.res.Violations) >= 3 {
		atomic.StoreInt32(&c.stop, 1)
	}
	if len(c.res.Violations) == 1 { // further examples only if they come soon
		time.AfterFunc(20*time.Second, func() { atomic.StoreInt32(&c.stop, 1) })
	}
}

func (c *Ctx) guard(k *Case, f func(k *Case)) (retry bool, msg string, failed bool) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case caseFailed:
			msg, failed = e.msg, true
		case caseRetry:
			retry, msg = true, e.msg
		case caseInconclusive:
			c.mu.Lock()
			c.res.Inconclusive = append(c.res.Inconclusive, fmt.Sprintf("%s:%d %s", k.Group, k.Index, e.msg))
			c.mu.Unlock()
		default:
			st := string(debug.Stack())
			if panicInRepo(st) {
				msg, failed = fmt.Sprintf("panic in the code under test: %v", e), true
				k.Note("stack", st)
				return
			}
			panic(fmt.Sprintf("harness panic in %s:%d: %v\n%s", k.Group, k.Index, e, st))
		}
	}()
	f(k)
	return
}

// panicInRepo looks at the frames between the panic and the harness.
func panicInRepo(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, repoModule+"zz_verif_hx") || strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.HasPrefix(l, repoModule) {
			return true
		}
	}
	return false
}

func repoFrames(dump string) bool {
	for _, l := range strings.Split(dump, "\n") {
		if strings.HasPrefix(l, repoModule) && !strings.HasPrefix(l, repoModule+"zz_verif_hx") {
			return true
		}
	}
	return false
}

var progressFile *os.File

func (c *Ctx) progress(group string, i int) {
	if progressFile != nil {
		b := []byte(fmt.Sprintf("%-60s", fmt.Sprintf("%s:%d", group, i)))
		progressFile.WriteAt(b, 0)
	}
}

// watch finds cases that do not end and memory that grows without bound.
func (c *Ctx) watch(limit time.Duration, heap uint64) {
	for {
		time.Sleep(500 * time.Millisecond)
		var late *Case
		c.inFlight.Range(func(key, v interface{}) bool {
			if time.Since(v.(time.Time)) > limit {
				late = key.(*Case)
				return false
			}
			return true
		})
		what := ""
		if late != nil {
			what = fmt.Sprintf("the case did not end within %v", limit)
		} else {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > heap {
				what = fmt.Sprintf("memory in use grew to %d MB", m.HeapAlloc>>20)
				c.inFlight.Range(func(key, v interface{}) bool { late = key.(*Case); return false })
			}
		}
		if what == "" || late == nil {
			continue
		}
		buf := make([]byte, 4<<20)
		dump := string(buf[:runtime.Stack(buf, true)])
		blame := false
		for _, g := range strings.Split(dump, "\n\n") {
			if repoFrames(g) && !strings.Contains(strings.SplitN(g, "\n", 2)[0], "IO wait") {
				blame = true
				late.detail["stack"] = g
				break
			}
		}
		if blame {
			c.violate(late, what+" inside the code under test")
		} else {
			c.mu.Lock()
			c.res.Inconclusive = append(c.res.Inconclusive, fmt.Sprintf("%s:%d %s", late.Group, late.Index, what))
			c.mu.Unlock()
		}
		c.writeResult(false)
		os.Exit(7)
	}
}

func (c *Ctx) writeResult(finished bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Finished = finished
	c.res.Distinct = int64(len(c.distinct))
	b, err := json.Marshal(c.res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(c.Scratch, "result.json"), b, 0o644); err != nil {
		panic(err)
	}
}

// Check is one registered property check.
type Check struct {
	Run   func(c *Ctx)
	Rule  string
	Race  bool // the worker is built with the race detector
	Limit time.Duration
}

var checks = map[string]Check{}

func register(id string, ch Check) { checks[id] = ch }

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func worker(id string) {
	ch, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	logrus.SetOutput(io.Discard)
	logrus.StandardLogger().ExitFunc = func(int) { runtime.Goexit() }
	c := &Ctx{ID: id, Tier: tier(), Seed: envInt("VERIF_SEED", 1), Scratch: os.Getenv("HX_SCRATCH"), RepoBin: os.Getenv("HX_BIN"),
		only: os.Getenv("HX_ONLY"), distinct: map[uint64]struct{}{}, knownSet: map[string]bool{}}
	c.res.Counters = map[string]int64{}
	progressFile, _ = os.Create(filepath.Join(c.Scratch, "progress"))
	limit := ch.Limit
	if limit <= 0 {
		limit = 90 * time.Second
	}
	if c.Thorough() {
		limit *= 3
	}
	go c.watch(limit, 8<<30)
	if !c.Thorough() { // a tree or machine so slow that the list of cases cannot be finished
		time.AfterFunc(640*time.Second, func() {
			if atomic.CompareAndSwapInt32(&c.stop, 0, 1) {
				c.Count("cut_short", 1)
			}
		})
	}
	ch.Run(c)
	if c.only == "" {
		for _, r := range c.required {
			if c.res.Counters[r] == 0 && len(c.res.Violations) == 0 {
				c.res.Inconclusive = append(c.res.Inconclusive, "nothing observed for "+r)
			}
		}
	}
	c.writeResult(true)
	os.Exit(0)
}

// supervise runs the worker in its own process and turns what happened into a verdict.
func supervise(id string) int {
	ch, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	start := time.Now()
	verif := os.Getenv("HX_VERIF")
	scratch, err := os.MkdirTemp("", "hx-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	self, _ := os.Executable()
	stderr, _ := os.Create(filepath.Join(scratch, "stderr"))
	cmd := exec.Command(self, "worker", id)
	cmd.Env = append(os.Environ(), "HX_SCRATCH="+scratch,
		"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(scratch, "race"), "GOTRACEBACK=all", "TZ=UTC")
	cmd.Stdout, cmd.Stderr = stderr, stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	total := 780 * time.Second
	if tier() == "thorough" {
		total = 6 * time.Hour
	}
	timedOut := false
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	timer := time.AfterFunc(total, func() { timedOut = true; syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	werr := cmd.Wait()
	timer.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	stderr.Close()
	errText, _ := os.ReadFile(filepath.Join(scratch, "stderr"))

	res := Result{Counters: map[string]int64{}}
	if b, err := os.ReadFile(filepath.Join(scratch, "result.json")); err == nil {
		_ = json.Unmarshal(b, &res)
	}
	prog, _ := os.ReadFile(filepath.Join(scratch, "progress"))
	group, idx := "", 0
	if s := strings.TrimSpace(string(prog)); s != "" {
		if j := strings.LastIndex(s, ":"); j > 0 {
			group = s[:j]
			idx, _ = strconv.Atoi(s[j+1:])
		}
	}
	if !res.Finished && len(res.Violations) == 0 && !timedOut {
		if what, block := crashInRepo(string(errText)); what != "" {
			res.Violations = append(res.Violations, Violation{Property: id, Group: group, Index: idx,
				Message: "the process died: " + what, Detail: map[string]interface{}{"stack": block}, Seed: envInt("VERIF_SEED", 1), Tier: tier()})
		} else if len(res.Inconclusive) == 0 {
			res.Inconclusive = append(res.Inconclusive, fmt.Sprintf("worker ended early (%v) at %s:%d", werr, group, idx))
		}
	}
	if timedOut {
		res.Inconclusive = append(res.Inconclusive, fmt.Sprintf("worker exceeded %v at %s:%d", total, group, idx))
	}
	raceBlocks := 0
	if files, _ := filepath.Glob(filepath.Join(scratch, "race.*")); len(files) > 0 {
		seen := map[string]bool{}
		for _, f := range files {
			b, _ := os.ReadFile(f)
			for _, blk := range strings.Split(string(b), "==================") {
				if !strings.Contains(blk, "WARNING: DATA RACE") {
					continue
				}
				raceBlocks++
				if key, ok := raceInRepo(blk); ok && !seen[key] {
					seen[key] = true
					res.Violations = append(res.Violations, Violation{Property: id, Group: group, Index: idx,
						Message: "data race in the code under test: " + key, Detail: map[string]interface{}{"report": blk}, Seed: envInt("VERIF_SEED", 1), Tier: tier()})
				}
			}
		}
	}
	if ch.Race {
		res.Counters["race_reports"] = int64(raceBlocks)
	}

	cov := map[string]interface{}{
		"evaluations":         res.Evaluations,
		"distinct_nontrivial": res.Distinct,
		"rule":                ch.Rule,
		"samples":             res.Samples,
		"observed":            res.Counters,
	}
	if len(res.Samples) == 0 {
		cov["samples"] = []interface{}{}
	}
	if len(res.Exhaustive) > 0 {
		cov["enumerated_completely"] = res.Exhaustive
	}
	if len(res.Inconclusive) > 0 {
		cov["inconclusive"] = res.Inconclusive
	}
	if len(res.Known) > 0 {
		cov["known_findings_seen"] = res.Known
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier(), "seed": envInt("VERIF_SEED", 1), "level": "exploration", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(res.Violations),
		"assumptions": []string{"held on the executions counted here, not proved for all", "the independent reference codec and reference mapping of the harness"},
	}
	if os.Getenv("HX_ONLY") == "" {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	sort.Strings(res.Known)
	for _, k := range res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	var keys []string
	for k := range res.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs", id, tier(), envInt("VERIF_SEED", 1), res.Evaluations, res.Distinct, time.Since(start).Seconds())
	for _, k := range keys {
		fmt.Printf(" %s=%d", k, res.Counters[k])
	}
	fmt.Println()
	if len(res.Violations) > 0 {
		for i, v := range res.Violations {
			v.Rerun = fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s HX_ONLY=%s:%d bash check.sh %s", v.Seed, v.Tier, v.Group, v.Index, id)
			path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%d-%d.json", id, sanitize(v.Group), v.Index, i))
			os.MkdirAll(filepath.Dir(path), 0o755)
			b, _ := json.MarshalIndent(v, "", " ")
			_ = os.WriteFile(path, append(b, '\n'), 0o644)
			fmt.Printf("  %s:%d %s\n", v.Group, v.Index, firstLine(v.Message))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
		return 1
	}
	if len(res.Inconclusive) > 0 {
		fmt.Println("INCONCLUSIVE", res.Inconclusive)
		if n := len(errText); n > 6000 {
			errText = append(errText[:3000:3000], errText[n-3000:]...)
		}
		os.Stdout.Write(errText)
		return 2
	}
	if !res.Finished {
		os.Stdout.Write(errText)
		return 2
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

// crashInRepo says whether a Go crash report blames code of the repository: the first
// goroutine of the report is the one that crashed.
func crashInRepo(text string) (string, string) {
	i := strings.Index(text, "panic: ")
	if j := strings.Index(text, "fatal error: "); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		return "", ""
	}
	block := text[i:]
	j := strings.Index(block, "\ngoroutine ")
	if j < 0 {
		return "", ""
	}
	g := block[j+1:]
	if e := strings.Index(g, "\n\n"); e >= 0 {
		g = g[:e]
	}
	head := firstLine(block)
	if strings.HasPrefix(head, "panic: harness panic") {
		return "", ""
	}
	if panicInRepo(g) || (strings.HasPrefix(head, "fatal error: ") && repoFrames(g)) {
		return head, head + "\n" + g
	}
	return "", ""
}

// raceInRepo accepts a race report only if both accesses (or their callers up to the
// harness) go through repository code.
func raceInRepo(blk string) (string, bool) {
	var tops []string
	inAccess := false
	found := false
	for _, l := range strings.Split(blk, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Previous read at"), strings.HasPrefix(t, "Previous write at"):
			inAccess, found = true, false
		case strings.HasPrefix(t, "Goroutine "):
			inAccess = false
		case inAccess && !found && strings.HasPrefix(t, repoModule) && !strings.HasPrefix(t, repoModule+"zz_verif_hx"):
			found = true
			if j := strings.LastIndexByte(t, '('); j > 0 {
				t = t[:j]
			}
			tops = append(tops, strings.TrimPrefix(t, repoModule))
		case inAccess && !found && (strings.HasPrefix(t, "main.") || strings.HasPrefix(t, repoModule+"zz_verif_hx")):
			inAccess = false
		}
	}
	if len(tops) == 0 {
		return "", false
	}
	sort.Strings(tops)
	return strings.Join(tops, " / "), true
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: hx check|worker|race ID")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2])
	case "serve":
		serveMain(os.Args[2:])
	case "check":
		os.Exit(supervise(os.Args[2]))
	}
	os.Exit(2)
}

func mustEqual(k *Case, what string, want, got []byte) {
	if !bytes.Equal(want, got) {
		k.Note("want", want)
		k.Note("got", got)
		k.Failf("%s: bytes differ at offset %d: want %s got %s", what, firstDiff(want, got), hexWin(want, firstDiff(want, got)), hexWin(got, firstDiff(want, got)))
	}
}

func firstDiff(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return n
}

func hexWin(b []byte, off int) string {
	lo, hi := off-4, off+12
	if lo < 0 {
		lo = 0
	}
	if hi > len(b) {
		hi = len(b)
	}
	if lo > hi {
		lo = hi
	}
	return fmt.Sprintf("..%x.. (%d bytes)", b[lo:hi], len(b))
}
