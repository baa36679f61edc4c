//go:build go1.22

package main

// C28 the receiver program, C29 the packet generator: real processes.

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	register("C28", Check{Run: runC28, Limit: 240 * time.Second, Rule: "one case is one run of the receiver program with its configuration and traffic; distinct by configuration and traffic"})
	register("C29", Check{Run: runC29, Limit: 240 * time.Second, Rule: "one case is one run of the generator; distinct by options and answer"})
}

// proc is a program under observation.
type proc struct {
	cmd  *exec.Cmd
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
	err  error
}

type lockedBuf struct{ p *proc }

func (l lockedBuf) Write(b []byte) (int, error) {
	l.p.mu.Lock()
	defer l.p.mu.Unlock()
	return l.p.out.Write(b)
}

func startProc(k *Case, dir, bin string, args ...string) *proc {
	p := &proc{done: make(chan struct{})}
	p.cmd = exec.Command(bin, args...)
	p.cmd.Dir = dir
	p.cmd.Stdout = lockedBuf{p}
	p.cmd.Stderr = lockedBuf{p}
	p.cmd.Env = append(os.Environ(), "TZ=Asia/Tokyo") // nothing may depend on the local time zone
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	started := make(chan error, 1)
	go func() {
		runtime.LockOSThread() // the thread must outlive the child because of Pdeathsig
		defer runtime.UnlockOSThread()
		err := p.cmd.Start()
		started <- err
		if err == nil {
			p.err = p.cmd.Wait()
			close(p.done)
		}
	}()
	if err := <-started; err != nil {
		k.Skipf("cannot start %s: %v", bin, err)
	}
	return p
}

func (p *proc) text() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

func (p *proc) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// exit waits for the end of the program.
func (p *proc) exit(d time.Duration) (code int, ok bool) {
	select {
	case <-p.done:
		return p.cmd.ProcessState.ExitCode(), true
	case <-time.After(d):
		return 0, false
	}
}

func writeYAML(k *Case, dir string, top [][2]string, store map[string]map[string]string) string {
	s := ""
	for _, t := range top {
		s += t[0] + ": " + t[1] + "\n"
	}
	if store != nil {
		s += "storage:\n"
		for n, m := range store {
			s += "  " + yamlQ(n) + ":\n"
			for a, b := range m {
				s += "    " + yamlQ(a) + ": " + yamlQ(b) + "\n"
			}
		}
	}
	p := filepath.Join(dir, "config.yaml")
	if err := os.WriteFile(p, []byte(s), 0o600); err != nil {
		k.Skipf("%v", err)
	}
	k.Note("config", s)
	return p
}

func yamlQ(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func caseDir(k *Case) string {
	d, err := os.MkdirTemp(k.c.Scratch, "case")
	if err != nil {
		k.Skipf("%v", err)
	}
	return d
}

// startReceiver runs the receiver program and waits until it accepts connections.
func startReceiver(k *Case, dir string, top [][2]string, store map[string]map[string]string, addr string) *proc {
	cfg := writeYAML(k, dir, top, store)
	p := startProc(k, dir, filepath.Join(k.c.RepoBin, "receiver"), "-c", cfg)
	limit := time.Now().Add(patience)
	for {
		c, err := net.DialTimeout("tcp", addr, 5*time.Second)
		if err == nil {
			c.Close()
			return p
		}
		if p.ended() {
			k.Note("output", p.text())
			k.Retryf("the receiver ended at once: %s", p.cmd.ProcessState)
		}
		if time.Now().After(limit) {
			p.kill()
			k.Note("output", p.text())
			k.Retryf("the receiver does not listen on %s", addr)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

var exportRE = regexp.MustCompile(`packet=("(?:[^"\\]|\\.)*")`)

// logged takes the records from the program's log.
func logged(text string) (out []Nav, bad string) {
	// the output arrives in pieces: what follows the last line end is not complete yet
	for _, l := range strings.Split(text[:strings.LastIndexByte(text, '\n')+1], "\n") {
		if !strings.Contains(l, "navigation_unix_time") {
			continue
		}
		m := exportRE.FindStringSubmatch(l)
		if m == nil {
			bad = l
			continue
		}
		s, err := strconv.Unquote(m[1])
		if err != nil {
			bad = l
			continue
		}
		n, err := parseNav([]byte(s))
		if err != nil {
			bad = l
			continue
		}
		out = append(out, n)
	}
	return
}

func (p *proc) alive(k *Case) {
	if p.ended() {
		k.Note("output", lastPart(p.text()))
		k.Failf("the receiver ended: %s", p.cmd.ProcessState)
	}
}

func lastPart(s string) string {
	if len(s) > 3000 {
		s = s[len(s)-3000:]
	}
	return s
}

func splitAddr(a string) (string, string) {
	h, p, _ := net.SplitHostPort(a)
	return h, p
}

func topLines(r *rand.Rand, addr string, ttl int) [][2]string {
	h, p := splitAddr(addr)
	t := [][2]string{{"host", "\"" + h + "\""}, {"port", p}}
	if coin(r) {
		t[1][1] = "\"" + p + "\""
	}
	if ttl >= 0 {
		t = append(t, [2]string{"conn_ttl", strconv.Itoa(ttl)})
	}
	if r.Intn(3) > 0 {
		t = append(t, [2]string{"log_level", []string{"\"DEBUG\"", "INFO", "'INFO'"}[r.Intn(3)]})
	}
	r.Shuffle(len(t), func(i, j int) { t[i], t[j] = t[j], t[i] })
	return t
}

func runC28(c *Ctx) {
	c.Require("answers_compared", "stored_compared", "values_compared", "logged_records", "refused_starts", "storages_used", "log_levels")
	// devices play their scripts; everything must arrive everywhere
	drive := func(k *Case, p *proc, addr string, n, packets int) []*script {
		var ss []*script
		var fs []func(*Case)
		for i := 0; i < n; i++ {
			d := &dev{r: subRand(k.R), oid: goodBase + uint32(i), serial: uint32(i+1) << 20, pid: genU16(k.R), noTerm: true}
			s := makeScript(d, packets)
			if i == 0 { // one record with many sensors
				p, rec := d.head(), d.rec()
				rec.Subs = []RSub{{tPos, d.pos()}}
				for n := 20 << uint(k.R.Intn(7)); n > 0; n-- {
					if coin(k.R) {
						l := genLiq(k.R)
						l.LLSVU = uint8(k.R.Intn(3))
						rec.Subs = append(rec.Subs, RSub{tLiq, l})
					} else {
						rec.Subs = append(rec.Subs, RSub{tAn, RAbsAn{genU8(k.R), genU24(k.R)}})
					}
				}
				p.Records = append(p.Records, rec)
				s.good(p)
			}
			ss = append(ss, s)
			k.Sig(s.raw)
			fs = append(fs, func(k *Case) {
				matchReplies(k, s.exp.replies, splitReplies(k, play(k, addr, s.raw, nil, 0)))
			})
		}
		defer func() {
			if e := recover(); e != nil {
				k.Note("output", lastPart(p.text()))
				panic(e)
			}
		}()
		together(k, fs...)
		p.alive(k)
		return ss
	}
	compare := func(k *Case, what string, ss []*script, navs []Nav, t0 int64) {
		total := 0
		for i, s := range ss {
			got := navsOf(navs, goodBase+uint32(i))
			total += len(got)
			matchOrder(k, s.exp.stored, got)
			for j := range got {
				matchValues(k, s.exp.stored[j], got[j], t0, time.Now().Unix())
			}
		}
		if total != len(navs) {
			k.Failf("%s: %d records, want %d", what, len(navs), total)
		}
	}
	expected := func(ss []*script) int {
		n := 0
		for _, s := range ss {
			n += len(s.exp.stored)
		}
		return n
	}
	c.Cases("storages", c.N(14), 6, func(k *Case) {
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		fakes := map[string]*fake{}
		where := map[string]string{}
		store := map[string]map[string]string{}
		pick := k.R.Intn(len(storeKinds))
		for i, kind := range storeKinds {
			if i != pick && i != k.Index%len(storeKinds) && k.R.Intn(3) > 0 {
				continue
			}
			f := startFake(k, kind)
			defer f.stop()
			m, w := f.setup(k.R)
			for a, b := range m {
				if strings.ContainsAny(b, "\n\x00") {
					delete(m, a)
				}
			}
			fakes[kind], where[kind], store[kind] = f, w, m
		}
		addr := freshAddr()
		t0 := time.Now().Unix()
		p := startReceiver(k, dir, topLines(k.R, addr, []int{-1, 0, 10, 60}[k.R.Intn(4)]), store, addr)
		defer p.kill()
		ss := drive(k, p, addr, 1+k.R.Intn(4), 6)
		for kind, f := range fakes {
			waitFor(k, func() bool { return len(f.deliveries()) >= expected(ss) || len(f.oddities()) > 0 })
			var navs []Nav
			for _, d := range f.deliveries() {
				n, err := parseNav([]byte(d.payload))
				if err != nil {
					k.Failf("%s: %v", kind, err)
				}
				if !samePlace(kind, d.where, where[kind]) {
					k.Failf("%s: a record arrived at %q, configured is %q", kind, d.where, where[kind])
				}
				navs = append(navs, n)
			}
			compare(k, kind, ss, navs, t0)
			k.Count("storages_used", 1)
		}
		if n, _ := logged(p.text()); len(n) > 0 && !strings.Contains(p.text(), "DEBUG") {
			k.Failf("records are printed to the log although storages are configured")
		}
	})
	c.Cases("log", c.N(10), 6, func(k *Case) {
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		var store map[string]map[string]string
		how := []string{"no storage section", "unknown storage", "unreachable storage", "refusing storage", "empty storage section"}[k.Index%5]
		k.Note("how", how)
		var f *fake
		switch how {
		case "unknown storage":
			store = map[string]map[string]string{word(k.R): {"host": "x"}}
		case "empty storage section":
			store = map[string]map[string]string{}
		case "unreachable storage", "refusing storage":
			kind := []string{"postgresql", "mysql", "nats", "rabbitmq", "tarantool_queue"}[k.R.Intn(5)]
			f = startFake(k, kind)
			m, _ := f.setup(k.R)
			store = map[string]map[string]string{kind: m}
			if how == "refusing storage" {
				f.rejectLogin = true
				defer f.stop()
			} else {
				f.stop()
			}
		}
		addr := freshAddr()
		t0 := time.Now().Unix()
		p := startReceiver(k, dir, topLines(k.R, addr, -1), store, addr)
		defer p.kill()
		ss := drive(k, p, addr, 1+k.R.Intn(3), 6)
		waitFor(k, func() bool { n, bad := logged(p.text()); return len(n) >= expected(ss) || bad != "" })
		navs, bad := logged(p.text())
		if bad != "" {
			k.Note("line", bad)
			k.Failf("a record in the log cannot be read")
		}
		compare(k, "log", ss, navs, t0)
		k.Count("logged_records", int64(len(navs)))
	})
	// the idle time of the configuration is the one in force
	// no idle time configured: nothing is closed
	quiet := []int{0, -1, 3600, 600}
	pauses := []time.Duration{13 * time.Second, 32 * time.Second, 62 * time.Second}
	if c.Thorough() {
		pauses = append(pauses, 125*time.Second, 310*time.Second)
	}
	defer c.Beside("noidle", len(quiet)*len(pauses), 20, func(k *Case) {
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		addr := freshAddr()
		ttl, pause := quiet[k.Index%len(quiet)], pauses[k.Index/len(quiet)]
		k.Note("conn_ttl", ttl)
		k.Sig(ttl, pause)
		p := startReceiver(k, dir, topLines(k.R, addr, ttl), nil, addr)
		defer p.kill()
		cl := dial(k, addr)
		defer cl.conn.Close()
		d := &dev{r: k.R, oid: goodBase, noTerm: true}
		e := &expect{}
		pingOn(k, cl, d, e, 1)
		cl.conn.SetReadDeadline(time.Now().Add(pause))
		n, err := cl.conn.Read(make([]byte, 1))
		if ne, ok := err.(net.Error); n > 0 || !ok || !ne.Timeout() {
			k.Failf("conn_ttl %d (-1: not given): within %v of silence the connection ended or something was sent: %v", ttl, pause, err)
		}
		pingOn(k, cl, d, e, 2)
		k.Count("kept_without_limit", 1)
	})()
	c.Cases("idle", 3, 3, func(k *Case) {
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		addr := freshAddr()
		ttl := []int{1, 2, 0}[k.Index]
		k.Sig(ttl)
		p := startReceiver(k, dir, topLines(k.R, addr, ttl), nil, addr)
		defer p.kill()
		t := time.Now()
		cl := dial(k, addr)
		defer cl.conn.Close()
		if ttl == 0 {
			time.Sleep(3 * time.Second)
			d := &dev{r: k.R, oid: goodBase, noTerm: true}
			pingOn(k, cl, d, &expect{}, 3)
			return
		}
		cl.conn.SetReadDeadline(time.Now().Add(time.Duration(ttl)*time.Second*5/4 + 1500*time.Millisecond))
		_, err := cl.conn.Read(make([]byte, 1))
		took := time.Since(t)
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			k.Retryf("a silent connection was not closed although conn_ttl is %d", ttl)
		}
		if took < time.Duration(ttl)*time.Second-20*time.Millisecond {
			k.Failf("a connection was closed after %v, conn_ttl is %d s", took, ttl)
		}
	})
	// without a host, or with 0.0.0.0, the program listens on every address; otherwise on the one given
	c.Cases("addresses", 6, 2, func(k *Case) {
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		host := []string{"", "0.0.0.0", "127.0.0.1", "localhost", "127.77.1.2", ""}[k.Index]
		port := ""
		for i := 0; port == "" && i < 100; i++ {
			p := strconv.Itoa(15000 + k.R.Intn(5000))
			if l, err := net.Listen("tcp", ":"+p); err == nil {
				l.Close()
				port = p
			}
		}
		if port == "" {
			return
		}
		first := host
		if net.ParseIP(host) == nil || host == "0.0.0.0" {
			first = "127.0.0.1"
		}
		top := [][2]string{{"port", "\"" + port + "\""}}
		if k.Index != 5 {
			top = append(top, [2]string{"host", "\"" + host + "\""})
		}
		k.Note("host", host)
		k.Sig(k.Index)
		p := startReceiver(k, dir, top, nil, first+":"+port)
		defer p.kill()
		at := []string{first}
		if host == "" || host == "0.0.0.0" {
			at = append(at, "127.0.0.2", "127.200.3.4")
		}
		for _, a := range at {
			d := &dev{r: k.R, oid: goodBase, noTerm: true}
			pingPong(k, a+":"+port, d, 2)
			k.Count("addresses_served", 1)
		}
		p.alive(k)
	})
	// the log level of the configuration is the one in force
	c.Cases("level", 8, 4, func(k *Case) {
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		addr := freshAddr()
		lv := []string{"DEBUG", "INFO", "WARN", "ERROR", "", "VERBOSE", "TRACE", "FATAL"}[k.Index]
		rank := map[string]int{"DEBUG": 0, "WARN": 2, "ERROR": 3}
		least, known := rank[lv]
		if !known {
			least = 1 // INFO, also for unknown and missing levels
		}
		k.Sig(lv)
		k.Note("log_level", lv)
		h, po := splitAddr(addr)
		top := [][2]string{{"host", h}, {"port", po}}
		if lv != "" {
			top = append(top, [2]string{"log_level", lv})
		}
		p := startReceiver(k, dir, top, nil, addr)
		defer p.kill()
		ss := drive(k, p, addr, 2, 6)
		names := []string{"level=debug", "level=info", "level=warning", "level=error"}
		waitFor(k, func() bool {
			n, _ := logged(p.text())
			return least > 1 && strings.Contains(p.text(), "level=error") || len(n) >= expected(ss)
		})
		text := p.text()
		k.Note("output", lastPart(text))
		for i, n := range names {
			if i < least && strings.Contains(text, n) {
				k.Failf("log level %q, but the log has %s", lv, n)
			}
		}
		if !strings.Contains(text, names[least]) && least != 2 {
			k.Failf("log level %q, but the log has nothing of %s", lv, names[least])
		}
		k.Count("log_levels", 1)
	})
	// nor when somebody else has its address
	c.Cases("busy", c.N(1), 4, func(k *Case) {
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		addr := freshAddr()
		l, err := net.Listen("tcp", addr)
		if err != nil {
			k.Skipf("%v", err)
		}
		defer l.Close()
		cfg := writeYAML(k, dir, topLines(k.R, addr, -1), nil)
		p := startProc(k, dir, filepath.Join(c.RepoBin, "receiver"), "-c", cfg)
		defer p.kill()
		k.Sig(k.Index)
		code, ok := p.exit(patience)
		if !ok {
			k.Failf("the receiver keeps running although its address is taken")
		}
		if code == 0 {
			k.Failf("the receiver exits with 0 although its address is taken")
		}
		k.Count("refused_starts", 1)
	})
	// nor does a second receiver with the address of the first
	c.Cases("second", 4, 4, func(k *Case) {
		dir, dir2 := caseDir(k), caseDir(k)+"-2"
		defer os.RemoveAll(dir)
		os.MkdirAll(dir2, 0o755)
		defer os.RemoveAll(dir2)
		k.Sig(k.Index)
		addr := freshAddr()
		p := startReceiver(k, dir, topLines(k.R, addr, -1), nil, addr)
		defer p.kill()
		cfg := writeYAML(k, dir2, topLines(k.R, addr, -1), nil)
		q := startProc(k, dir2, filepath.Join(c.RepoBin, "receiver"), "-c", cfg)
		defer q.kill()
		code, ok := q.exit(patience)
		if !ok {
			k.Failf("a second receiver with the same address keeps running")
		}
		if code == 0 {
			k.Failf("a second receiver with the same address exits with 0")
		}
		ss := drive(k, p, addr, 2, 4) // the first is as it was
		k.Count("refused_starts", 1)
		k.Count("answers_compared", int64(len(ss)))
	})
	// it does not start without a usable configuration
	c.Cases("refused", c.N(16), 6, func(k *Case) {
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		addr := freshAddr()
		bin := filepath.Join(c.RepoBin, "receiver")
		bad := filepath.Join(dir, "bad.yaml")
		h, po := splitAddr(addr)
		os.WriteFile(bad, []byte(fmt.Sprintf("host: %s\nport: %s\n%s", h, po, []string{"x: [\n", "storage: 'x\n", "a: b: c\n", "]\n", "\tx: y\n"}[k.R.Intn(5)])), 0o600)
		var args []string
		how := k.Index % 5
		switch how {
		case 0:
		case 1:
			args = []string{"-c", filepath.Join(dir, "nothere.yaml")}
		case 2:
			args = []string{"-c", bad}
		case 3:
			args = []string{"-c", dir}
		case 4:
			args = []string{"-c", ""}
		}
		k.Note("arguments", fmt.Sprint(args))
		k.Sig(how, k.Index)
		p := startProc(k, dir, bin, args...)
		defer p.kill()
		code, ok := p.exit(patience)
		if !ok {
			k.Failf("the receiver keeps running without a usable configuration")
		}
		if code == 0 {
			k.Failf("the receiver exits with 0 without a usable configuration")
		}
		k.Count("refused_starts", 1)
	})
	// killed at any moment: what was acknowledged had been stored
	c.Cases("killed", c.N(12), 6, func(k *Case) {
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		kind := []string{"postgresql", "mysql", "redis", "tarantool_queue"}[k.Index%4]
		f := startFake(k, kind)
		defer f.stop()
		m, _ := f.setup(k.R)
		addr := freshAddr()
		p := startReceiver(k, dir, topLines(k.R, addr, -1), map[string]map[string]string{kind: m}, addr)
		defer p.kill()
		cl := dial(k, addr)
		defer cl.conn.Close()
		d := &dev{r: k.R, oid: goodBase, noTerm: true}
		s := &script{}
		for i := 0; i < 60; i++ {
			pk := d.packet()
			pk.PID = uint16(1000 + i) // told apart by their number
			s.good(pk)
		}
		after := 1 + k.R.Intn(40)
		go cl.conn.Write(s.raw)
		acked := map[uint16]bool{}
		n := 0
		for {
			b, err := cl.readPacket(patience)
			if err != nil {
				break
			}
			ps := splitReplies(k, b)
			if len(ps) == 1 && ps[0].PT == 0 && ps[0].Resp != nil {
				if ps[0].Resp.PR != 0 {
					k.Failf("a valid packet was refused with %d", ps[0].Resp.PR)
				}
				acked[ps[0].Resp.RPID] = true
			}
			if n++; n == after {
				go p.cmd.Process.Kill()
			}
		}
		if !p.ended() && n < after {
			k.Retryf("the receiver closed the connection of a correct client")
		}
		<-p.done
		got := map[uint32]int{}
		for _, x := range f.deliveries() {
			if v, err := parseNav([]byte(x.payload)); err == nil {
				got[v.id()]++
			}
		}
		for pid := range acked {
			for _, id := range s.idsOf(pid) {
				if got[id] != 1 {
					k.Failf("%s: the receiver acknowledged packet %d before it was killed, but record %d is stored %d times", kind, pid, id, got[id])
				}
				k.Count("acknowledged_before_kill", 1)
			}
		}
		k.Sig(kind, after, s.raw)
	})
	// hostile traffic against the real process
	c.Cases("hostile", c.N(4), 4, func(k *Case) {
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		addr := freshAddr()
		f := startFake(k, "redis")
		defer f.stop()
		m, _ := f.setup(k.R)
		t0 := time.Now().Unix()
		p := startReceiver(k, dir, topLines(k.R, addr, 5), map[string]map[string]string{"redis": m}, addr)
		defer p.kill()
		var kmu sync.Mutex
		var kept []net.Conn
		for i := 0; i < 6; i++ {
			badDos[k.R.Intn(len(badDos))].do(subRand(k.R), addr, func(c net.Conn) { kmu.Lock(); kept = append(kept, c); kmu.Unlock() })
		}
		ss := drive(k, p, addr, 3, 6)
		kmu.Lock()
		for _, c := range kept {
			rst(c)
		}
		kmu.Unlock()
		p.alive(k)
		var navs []Nav
		for _, x := range f.deliveries() {
			n, err := parseNav([]byte(x.payload))
			if err != nil {
				k.Failf("%v", err)
			}
			if *n.Client >= goodBase && *n.Client < goodBase+10 {
				navs = append(navs, n)
			}
		}
		compare(k, "redis", ss, navs, t0)
	})
}

// idsOf lists the positions of the packets with this number.
func (s *script) idsOf(pid uint16) []uint32 {
	var out []uint32
	start := 0
	for _, end := range s.cuts {
		b := s.raw[start:end]
		start = end
		p, _, err := parsePacket(b)
		if err != nil || p.PT != 1 || p.PID != pid {
			continue
		}
		for _, r := range p.Records {
			for _, sub := range r.Subs {
				if x, ok := sub.Data.(RPos); ok {
					out = append(out, x.NTM)
				}
			}
		}
	}
	return out
}

// ---- C29 ----

type genOpts struct {
	pid     int
	oid     uint32
	ts      time.Time
	tsText  string
	lat     float64
	lon     float64
	liquid  uint32
	hasLat  bool
	hasLon  bool
	hasLiq  bool
	args    []string
	timeout int
}

func genOptions(r *rand.Rand, addr string) genOpts {
	o := genOpts{timeout: 20}
	o.pid = []int{1, 2, 255, 256, 32767, 32768, 65534, 65535, 1 + r.Intn(65535)}[r.Intn(9)]
	for o.oid == 0 {
		o.oid = genU32(r)
	}
	var sec int64
	switch r.Intn(6) {
	case 0:
		sec = []int64{0, 1, 59, 86399, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(7)]
	default:
		sec = int64(r.Uint32())
	}
	o.ts = time.Unix(epoch2010+sec, 0).UTC()
	zone := time.UTC
	if r.Intn(3) == 0 {
		zone = time.FixedZone("", (r.Intn(27)-12)*3600+[]int{0, 1800, 2700}[r.Intn(3)])
	}
	o.tsText = o.ts.In(zone).Format(time.RFC3339)
	coord := func(max float64) float64 {
		switch r.Intn(6) {
		case 0:
			return []float64{0, max, -max, 1e-6, -1e-6, 0.5, -0.5, max / 2, -max / 2}[r.Intn(9)]
		}
		return math.Round((r.Float64()*2-1)*max*1e6) / 1e6
	}
	dash := func() string { return []string{"-", "--"}[r.Intn(2)] }
	var as [][]string
	opt := func(n, v string) {
		if coin(r) || strings.HasPrefix(v, "-") {
			as = append(as, []string{dash() + n + "=" + v})
		} else {
			as = append(as, []string{dash() + n, v})
		}
	}
	opt("pid", strconv.Itoa(o.pid))
	opt("oid", strconv.FormatUint(uint64(o.oid), 10))
	opt("time", o.tsText)
	opt("server", addr)
	opt("timeout", strconv.Itoa(o.timeout))
	if r.Intn(6) > 0 {
		o.hasLat, o.lat = true, coord(90)
		opt("lat", strconv.FormatFloat(o.lat, 'f', -1, 64))
	}
	if r.Intn(6) > 0 {
		o.hasLon, o.lon = true, coord(180)
		opt("lon", strconv.FormatFloat(o.lon, 'f', -1, 64))
	}
	if r.Intn(3) > 0 {
		o.hasLiq, o.liquid = true, genU32(r)
		opt("liquid", strconv.FormatUint(uint64(o.liquid), 10))
	}
	r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	for _, a := range as {
		o.args = append(o.args, a...)
	}
	return o
}

// checkGenPacket compares the packet of the generator with its options.
func checkGenPacket(k *Case, o genOpts, raw []byte) RPkg {
	k.Note("packet", raw)
	p, n, err := parsePacket(raw)
	if err != nil {
		k.Failf("the packet of the generator is not well-formed: %v", err)
	}
	if n != len(raw) {
		k.Failf("the generator sent %d bytes after its packet", len(raw)-n)
	}
	body, ok := refFrame(raw)
	if !ok || refBody(1, body) == reject {
		k.Failf("the packet of the generator is not well-formed")
	}
	if p.PT != 1 || int(p.PID) != o.pid {
		k.Failf("packet of type %d with number %d, want application data with number %d", p.PT, p.PID, o.pid)
	}
	pos, liq := 0, 0
	for _, r := range p.Records {
		if !r.OBFE || r.OID != o.oid {
			k.Failf("record for object %d (given: %v), want %d", r.OID, r.OBFE, o.oid)
		}
		for _, s := range r.Subs {
			switch d := s.Data.(type) {
			case RPos:
				pos++
				if int64(d.NTM) != o.ts.Unix()-epoch2010 {
					k.Failf("time on the wire %d, option %s means %d", d.NTM, o.tsText, o.ts.Unix()-epoch2010)
				}
				lat := float64(d.LAT) * 90 / 0xffffffff
				lon := float64(d.LONG) * 180 / 0xffffffff
				if d.LAHS {
					lat = -lat
				}
				if d.LOHS {
					lon = -lon
				}
				if math.Abs(lat-o.lat) > 90.0/0xffffffff*1.01 {
					k.Failf("latitude on the wire %v, option %v", lat, o.lat)
				}
				if math.Abs(lon-o.lon) > 180.0/0xffffffff*1.01 {
					k.Failf("longitude on the wire %v, option %v", lon, o.lon)
				}
			case RLiq:
				liq++
				if d.RDF || d.LLSD != o.liquid {
					k.Failf("liquid level on the wire %d (raw data: %v), option %d", d.LLSD, d.RDF, o.liquid)
				}
			}
		}
	}
	if pos != 1 || liq != 1 {
		k.Failf("%d positions and %d liquid levels in the packet, want one of each", pos, liq)
	}
	return p
}

// ackFor makes a right answer to a packet.
func ackFor(r *rand.Rand, p RPkg) RPkg {
	a := genHeader(r)
	a.ENA, a.CMP = 0, false
	a.PT = 0
	a.PID = genU16(r)
	a.Resp = &RResp{RPID: p.PID}
	rec := RRec{RN: genU16(r), SST: 2, RST: 2}
	for _, x := range p.Records {
		rec.Subs = append(rec.Subs, RSub{tConf, RConf{CRN: x.RN}})
	}
	a.Resp.SDR = []RRec{rec}
	return a
}

// longAck confirms thousands of records, the last one with the given status.
func longAck(r *rand.Rand, p RPkg, status uint8) RPkg {
	a := ackFor(r, p)
	rec := &a.Resp.SDR[0]
	for n := []int{50, 300, 700, 3000, 10900}[r.Intn(5)]; n > 0; n-- {
		rec.Subs = append(rec.Subs, RSub{tConf, RConf{CRN: uint16(n)}})
	}
	rec.Subs = append(rec.Subs, RSub{tConf, RConf{CRN: 7, RST: status}})
	return a
}

type answer struct {
	name string
	ok   bool
	make func(r *rand.Rand, p RPkg) []byte // nil: close without an answer
	late bool                              // the caller judges the exit status
}

var answers = []answer{
	{name: "right", ok: true, make: func(r *rand.Rand, p RPkg) []byte { return ackFor(r, p).bytes() }},
	{name: "right, with extras", ok: true, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.Resp.SDR[0].OBFE, a.Resp.SDR[0].OID, a.Resp.SDR[0].TMFE, a.Resp.SDR[0].TM = true, 5, true, 9
		return a.bytes()
	}},
	{name: "right, and more after it", ok: true, make: func(r *rand.Rand, p RPkg) []byte {
		return append(ackFor(r, p).bytes(), ackFor(r, p).bytes()...)
	}},
	{name: "right, and very long", ok: true, make: func(r *rand.Rand, p RPkg) []byte { return longAck(r, p, 0).bytes() }},
	{name: "very long, a failure at its end", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		return longAck(r, p, uint8(1+r.Intn(255))).bytes()
	}},
	{name: "right, routed", ok: true, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.RTE, a.PRA, a.RCA, a.TTL = true, 7, 8, 9
		return a.bytes()
	}},
	{name: "without confirmations", ok: true, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.Resp.SDR = nil
		return a.bytes()
	}},
	{name: "another packet number", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.Resp.RPID ^= uint16(1 + r.Intn(65535))
		return a.bytes()
	}},
	{name: "packet number off by 256", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.Resp.RPID += 256
		return a.bytes()
	}},
	{name: "own number instead of the packet's", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.PID = p.PID
		a.Resp.RPID = p.PID + 1
		return a.bytes()
	}},
	{name: "result not 0", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.Resp.PR = uint8(1 + r.Intn(255))
		return a.bytes()
	}},
	{name: "result not 0, no confirmations", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.Resp.PR = uint8(1 + r.Intn(255))
		a.Resp.SDR = nil
		return a.bytes()
	}},
	{name: "status not 0", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.Resp.SDR[0].Subs[0] = RSub{tConf, RConf{CRN: p.Records[0].RN, RST: uint8(1 + r.Intn(255))}}
		return a.bytes()
	}},
	{name: "second status not 0", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.Resp.SDR[0].Subs = append(a.Resp.SDR[0].Subs, RSub{tConf, RConf{CRN: p.Records[0].RN + 1, RST: uint8(1 + r.Intn(255))}})
		return a.bytes()
	}},
	{name: "status not 0 in the second record", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.Resp.SDR = append(a.Resp.SDR, RRec{RN: 2, SST: 2, RST: 2, Subs: []RSub{{tConf, RConf{CRN: p.Records[0].RN, RST: uint8(1 + r.Intn(255))}}}})
		return a.bytes()
	}},
	{name: "application data instead", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.PT, a.Records, a.Resp = 1, a.Resp.SDR, nil
		return a.bytes()
	}},
	{name: "wrong header checksum", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		b := ackFor(r, p).bytes()
		b[int(b[3])-1] ^= byte(1 + r.Intn(255))
		return b
	}},
	{name: "damaged body", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		b := ackFor(r, p).bytes()
		hl := int(b[3])
		b[hl+r.Intn(len(b)-hl)] ^= byte(1 + r.Intn(255))
		return b
	}},
	{name: "cut off", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		b := ackFor(r, p).bytes()
		return b[:1+r.Intn(len(b)-1)]
	}},
	{name: "no body", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.Resp = nil
		return a.bytes()
	}},
	{name: "empty response", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		a := ackFor(r, p)
		a.Resp, a.Body = nil, randBytes(r, 1+r.Intn(2))
		return a.bytes()
	}},
	{name: "impossible header length", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		b := ackFor(r, p).bytes()
		b[3] = byte(r.Intn(10))
		return b
	}},
	{name: "garbage", ok: false, make: func(r *rand.Rand, p RPkg) []byte {
		b := randBytes(r, 1+r.Intn(60))
		b[0] = 'H'
		return b
	}},
	{name: "nothing", ok: false, make: func(r *rand.Rand, p RPkg) []byte { return []byte{} }},
	{name: "echo", ok: false, make: func(r *rand.Rand, p RPkg) []byte { return p.bytes() }},
}

func runC29(c *Ctx) {
	c.Require("packets_compared", "exits_success", "exits_failure")
	bin := filepath.Join(c.RepoBin, "packet-gen")
	run := func(k *Case, o genOpts, ln net.Listener, a answer, pieces string, delay time.Duration, hold bool) int {
		k.Note("options", strings.Join(o.args, " "))
		k.Note("answer", a.name+", "+pieces)
		k.Sig(strings.Join(o.args, " "), a.name, pieces)
		type seen struct {
			raw  []byte
			rest []byte
			err  error
			n    int
		}
		got := make(chan seen, 1)
		r := subRand(k.R)
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		go func() {
			var s seen
			defer func() { got <- s }()
			cn, err := ln.Accept()
			if err != nil {
				s.err = err
				return
			}
			defer cn.Close()
			cn.(*net.TCPConn).SetNoDelay(true)
			cn.SetDeadline(time.Now().Add(delay + 2*patience))
			s.raw, s.err = readPacketFrom(cn)
			if s.err != nil {
				return
			}
			p, _, err := parsePacket(s.raw)
			if err != nil {
				return
			}
			b := a.make(r, p)
			if pieces == "ends late" {
				at := 1 + r.Intn(len(b)-1)
				cn.Write(b[:at])
				b = b[at:]
			}
			time.Sleep(delay)
			switch pieces {
			case "ends late":
				cn.Write(b)
			case "whole":
				cn.Write(b)
			case "bytes":
				if len(b) > 2000 { // the middle in one piece
					cn.Write(b[:len(b)-1000])
					b = b[len(b)-1000:]
				}
				for i := range b {
					cn.Write(b[i : i+1])
					if i%3 == 0 {
						time.Sleep(time.Millisecond)
					}
				}
			case "two":
				at := 0
				if len(b) > 1 {
					at = 1 + r.Intn(len(b)-1)
				}
				cn.Write(b[:at])
				time.Sleep(20 * time.Millisecond)
				cn.Write(b[at:])
			}
			if !hold {
				cn.(*net.TCPConn).CloseWrite()
			}
			s.rest, _ = io.ReadAll(cn)
			// a second connection would be another packet
			ln.(*net.TCPListener).SetDeadline(time.Now().Add(time.Millisecond))
			if c2, err := ln.Accept(); err == nil {
				c2.Close()
				s.n++
			}
		}()
		p := startProc(k, dir, bin, o.args...)
		defer p.kill()
		code, ended := p.exit(delay + 2*patience)
		if !ended {
			k.Retryf("the generator does not end")
		}
		ln.(*net.TCPListener).SetDeadline(time.Now().Add(50 * time.Millisecond))
		s := <-got
		k.Note("output", lastPart(p.text()))
		if s.err != nil {
			k.Failf("the generator did not send a packet: %v", s.err)
		}
		checkGenPacket(k, o, append(append([]byte(nil), s.raw...), s.rest...))
		if s.n > 0 {
			k.Failf("the generator connected twice")
		}
		k.Count("packets_compared", 1)
		if a.late {
			return code
		}
		if a.ok && code != 0 {
			k.Failf("exit status %d although the answer was %s", code, a.name)
		}
		if !a.ok && code == 0 {
			k.Failf("exit status 0 although the answer was: %s", a.name)
		}
		if code == 0 {
			k.Count("exits_success", 1)
		} else {
			k.Count("exits_failure", 1)
		}
		return code
	}
	listen := func(k *Case) net.Listener {
		for i := 0; i < 8; i++ {
			if ln, err := net.Listen("tcp", freshAddr()); err == nil {
				return ln
			}
		}
		k.Skipf("no address")
		return nil
	}
	c.Cases("options", c.N(150), 8, func(k *Case) {
		ln := listen(k)
		defer ln.Close()
		at := ln.Addr().String()
		if k.Index%6 == 0 { // a name instead of an address
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err == nil {
				defer l.Close()
				if as, err := net.LookupHost("localhost"); err == nil && len(as) > 0 && as[0] == "127.0.0.1" {
					_, port := splitAddr(l.Addr().String())
					ln, at = l, "localhost:"+port
				}
			}
		}
		o := genOptions(k.R, at)
		run(k, o, ln, answers[0], "whole", 0, coin(k.R))
	})
	ways := []string{"whole", "bytes", "two"}
	c.Cases("answers", len(answers)*len(ways)*c.N(1), 8, func(k *Case) {
		ln := listen(k)
		defer ln.Close()
		a := answers[k.Index%len(answers)]
		o := genOptions(k.R, ln.Addr().String())
		run(k, o, ln, a, ways[k.Index/len(answers)%len(ways)], 0, false)
	})
	// damaged answers of every kind
	c.Cases("damaged", c.N(60), 8, func(k *Case) {
		ln := listen(k)
		defer ln.Close()
		o := genOptions(k.R, ln.Addr().String())
		a := answer{name: "damaged", make: func(r *rand.Rand, p RPkg) []byte {
			for {
				x := ackFor(r, p)
				body := mutate(r, x.body())
				if len(body) == 0 || len(body) > 60000 || refBody(0, body) != reject {
					continue
				}
				x.Body = body
				return x.bytes()
			}
		}}
		run(k, o, ln, a, ways[k.R.Intn(3)], 0, false)
	})
	// late, but in time; and never
	c.Cases("waiting", 6, 6, func(k *Case) {
		ln := listen(k)
		defer ln.Close()
		o := genOptions(k.R, ln.Addr().String())
		if k.Index < 2 {
			// without the option, the time is five seconds
			var args []string
			for i := 0; i < len(o.args); i++ {
				if strings.Contains(o.args[i], "timeout") {
					if !strings.Contains(o.args[i], "=") {
						i++
					}
					continue
				}
				args = append(args, o.args[i])
			}
			o.args = args
			run(k, o, ln, answers[0], "two", time.Duration(k.Index*1500)*time.Millisecond, true)
			return
		}
		if k.Index < 4 {
			run(k, o, ln, answers[0], "bytes", 2500*time.Millisecond, true)
			return
		}
		o.args = append(o.args, "-timeout=1")
		t := time.Now()
		run(k, o, ln, answer{name: "nothing, ever", make: func(r *rand.Rand, p RPkg) []byte { return nil }}, "whole", 0, true)
		if time.Since(t) < 900*time.Millisecond {
			k.Failf("the generator gave up after %v, it was told to wait a second", time.Since(t))
		}
	})
	// an answer that comes, or is complete, only after the time is over
	overdue := c.Beside("overdue", 7, 7, func(k *Case) {
		secs := 5 // without the option
		if k.Index < 6 {
			secs = 1 + k.Index%3
		}
		way := "whole"
		if k.Index >= 3 && k.Index < 6 {
			way = "ends late"
		}
		for try := 0; try < 3; try++ {
			ln := listen(k)
			o := genOptions(k.R, ln.Addr().String())
			var args []string
			for i := 0; i < len(o.args); i++ {
				if strings.Contains(o.args[i], "timeout") {
					if !strings.Contains(o.args[i], "=") {
						i++
					}
					continue
				}
				args = append(args, o.args[i])
			}
			o.args = args
			if k.Index < 6 {
				o.args = append(o.args, fmt.Sprintf("-timeout=%d", secs))
			}
			a := answer{name: fmt.Sprintf("right, but %.1f s after a time of %d s", 0.8, secs), make: answers[0].make, late: true}
			code := run(k, o, ln, a, way, time.Duration(secs)*time.Second+800*time.Millisecond, true)
			ln.Close()
			if code != 0 {
				k.Count("overdue_answers", 1)
				k.Count("exits_failure", 1)
				return
			}
		}
		// a machine that stood still may explain one such end, not three
		k.Failf("exit status 0, three times, although the answer was complete only 0.8 s after the %d s it waits", secs)
	})
	defer overdue()
	// without -server it talks to localhost:5555
	c.Cases("default", 1, 1, func(k *Case) {
		for i := 0; i < 3; i++ {
			l, err := net.Listen("tcp4", "127.0.0.1:5555")
			if err != nil {
				k.Count("default_port_taken", 1)
				return
			}
			o := genOptions(k.R, "")
			var args []string
			for i := 0; i < len(o.args); i++ {
				if n := strings.TrimLeft(o.args[i], "-"); n == "server" {
					i++
					continue
				} else if strings.HasPrefix(n, "server=") {
					continue
				}
				args = append(args, o.args[i])
			}
			o.args = args
			run(k, o, l, answers[0], "whole", 0, true)
			l.Close()
		}
		k.Count("default_server", 1)
	})
	// told to wait long, it does
	defer c.Beside("patient", 4, 4, func(k *Case) {
		ln := listen(k)
		defer ln.Close()
		o := genOptions(k.R, ln.Addr().String())
		var args []string
		for i := 0; i < len(o.args); i++ {
			if strings.Contains(o.args[i], "timeout") {
				if !strings.Contains(o.args[i], "=") {
					i++
				}
				continue
			}
			args = append(args, o.args[i])
		}
		after := []int{12, 31, 45, 62}[k.Index]
		o.args = append(args, fmt.Sprintf("-timeout=%d", after+30+k.R.Intn(5000)))
		run(k, o, ln, answers[0], "whole", time.Duration(after)*time.Second, true)
		k.Count("patient", 1)
	})()
	// wrong options: an error, and nothing is sent
	c.Cases("wrong", c.N(40), 8, func(k *Case) {
		ln := listen(k)
		defer ln.Close()
		addr := ln.Addr().String()
		all := map[string]string{"pid": "7", "oid": "12", "time": "2021-12-16T09:12:00Z", "lat": "45", "lon": "60", "server": addr, "timeout": "1"}
		how := k.Index % 8
		switch how {
		case 0:
			delete(all, "pid")
		case 1:
			delete(all, "oid")
		case 2:
			delete(all, "time")
		case 3:
			all["time"] = []string{"yesterday", "2021-13-16T09:12:00Z", "2021-12-16", "1639645920", "2021-12-16 09:12:00"}[k.R.Intn(5)]
		case 4:
			all["pid"] = []string{"x", "1.5", ""}[k.R.Intn(3)]
		case 5:
			all["lat"] = "north"
		case 6:
			all["unknown"] = "1"
		case 7:
			h, p := deadAddr()
			all["server"] = h + ":" + p
		}
		var args []string
		for n, v := range all {
			args = append(args, "-"+n+"="+v)
		}
		k.Note("options", strings.Join(args, " "))
		k.Sig(how, k.Index)
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		p := startProc(k, dir, bin, args...)
		defer p.kill()
		code, ok := p.exit(patience)
		if !ok {
			k.Retryf("the generator does not end")
		}
		if code == 0 {
			k.Note("output", p.text())
			k.Failf("exit status 0 with wrong options")
		}
		ln.(*net.TCPListener).SetDeadline(time.Now().Add(time.Millisecond))
		if cn, err := ln.Accept(); err == nil {
			cn.SetDeadline(time.Now().Add(time.Second))
			b, _ := io.ReadAll(cn)
			cn.Close()
			if len(b) > 0 && how < 7 {
				k.Failf("something was sent with wrong options")
			}
		}
		k.Count("exits_failure", 1)
	})
	// against the real receiver
	c.Cases("receiver", c.N(4), 4, func(k *Case) {
		dir := caseDir(k)
		defer os.RemoveAll(dir)
		addr := freshAddr()
		f := startFake(k, "redis")
		defer f.stop()
		m, _ := f.setup(k.R)
		rp := startReceiver(k, dir, topLines(k.R, addr, 5), map[string]map[string]string{"redis": m}, addr)
		defer rp.kill()
		for i := 0; i < 6; i++ {
			o := genOptions(k.R, addr)
			k.Note("options", strings.Join(o.args, " "))
			k.Sig(strings.Join(o.args, " "))
			p := startProc(k, dir, bin, o.args...)
			code, ok := p.exit(2 * patience)
			if !ok {
				p.kill()
				k.Retryf("the generator does not end")
			}
			if code != 0 {
				k.Note("output", p.text())
				k.Failf("exit status %d against the receiver of the same repository", code)
			}
			ds := f.deliveries()
			if len(ds) != i+1 {
				k.Failf("%d records stored after %d successful runs", len(ds), i+1)
			}
			n, err := parseNav([]byte(ds[i].payload))
			if err != nil {
				k.Failf("%v", err)
			}
			if *n.Client != o.oid || *n.PacketID != uint32(o.pid) || *n.NavTime != o.ts.Unix() || math.Abs(*n.Lat-o.lat) > 1e-7 || math.Abs(*n.Lon-o.lon) > 1e-7 {
				k.Note("stored", ds[i].payload)
				k.Failf("what arrived is not what the options said")
			}
			k.Count("end_to_end", 1)
		}
	})
}
