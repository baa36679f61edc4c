//go:build go1.22

package main

// C16 hostile clients, C17 confirmation after saving, C18 fan-out, C19 idle time,
// C20 stopping, C21 concurrent devices.

import (
	"bufio"
	"bytes"
	"context"
	"database/sql"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/server"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"github.com/sirupsen/logrus"
)

func init() {
	register("C16", Check{Run: runC16, Race: true, Limit: 240 * time.Second, Rule: "one case is one server under a set of hostile clients while correct clients run; distinct by the traffic of the correct clients and the behaviours"})
	register("C17", Check{Run: runC17, Limit: 240 * time.Second, Rule: "one case is one packet stream with a pattern of storage delays and failures; distinct by stream and pattern"})
	register("C18", Check{Run: runC18, Limit: 240 * time.Second, Rule: "one case is one set of storages with a failure pattern and a sequence of saves; distinct by pattern"})
	register("C19", Check{Run: runC19, Limit: 240 * time.Second, Rule: "one case is one connection with a sending pattern and an idle time; distinct by pattern"})
	register("C20", Check{Run: runC20, Race: true, Limit: 240 * time.Second, Rule: "one case is one life of a server: start, load, stop; distinct by the situation at the moment of stopping"})
	register("C21", Check{Run: runC21, Race: true, Limit: 240 * time.Second, Rule: "one case is one server with many devices at once; distinct by the order in which devices' records reached the storage"})
}

// together runs functions at the same time and passes on the first failure.
func together(k *Case, fs ...func(k *Case)) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failed interface{}
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			sub := &Case{c: k.c, Group: k.Group, Index: k.Index, detail: map[string]interface{}{}}
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					defer mu.Unlock()
					if _, isFail := failed.(caseFailed); failed == nil || !isFail {
						failed = e
						for n, v := range sub.detail {
							k.detail[n] = v
						}
					}
				}
			}()
			f(sub)
		}()
	}
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
}

func subRand(r *rand.Rand) *rand.Rand { return rand.New(rand.NewSource(r.Int63())) }

// serveMain is the receiver in a process of its own: hx serve ADDR TTL NOFILE. Every
// saved record is printed as one line.
func serveMain(args []string) {
	logrus.SetOutput(io.Discard)
	ttl, _ := time.ParseDuration(args[1])
	if n, _ := strconv.Atoi(args[2]); n > 0 {
		var lim syscall.Rlimit
		_ = syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
		lim.Cur = uint64(n)
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	repo := storage.NewRepository()
	repo.AddStore(lineStore{})
	srv := server.New(args[0], ttl, repo)
	srv.Run()
	os.Exit(0)
}

type lineStore struct{}

var lineMu sync.Mutex

func (lineStore) Save(m interface{ ToBytes() ([]byte, error) }) error {
	b, err := m.ToBytes()
	if err != nil {
		return err
	}
	lineMu.Lock()
	defer lineMu.Unlock()
	_, err = os.Stdout.Write(append(b, '\n'))
	return err
}

// child is a receiver in its own process.
type child struct {
	cmd  *exec.Cmd
	addr string
	mu   sync.Mutex
	navs []Nav
	errb bytes.Buffer
	dead chan struct{}
}

func startChild(k *Case, ttl time.Duration, nofile int) *child {
	self, _ := os.Executable()
	for try := 0; try < 5; try++ {
		c := &child{addr: freshAddr(), dead: make(chan struct{})}
		c.cmd = exec.Command(self, "serve", c.addr, ttl.String(), strconv.Itoa(nofile))
		out, err := c.cmd.StdoutPipe()
		if err != nil {
			k.Skipf("%v", err)
		}
		c.cmd.Stderr = &c.errb
		c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		runtime.LockOSThread() // Pdeathsig follows the thread
		err = c.cmd.Start()
		runtime.UnlockOSThread()
		if err != nil {
			k.Skipf("%v", err)
		}
		go func() {
			sc := bufio.NewScanner(out)
			sc.Buffer(make([]byte, 1<<20), 1<<24)
			for sc.Scan() {
				if n, err := parseNav(sc.Bytes()); err == nil {
					c.mu.Lock()
					c.navs = append(c.navs, n)
					c.mu.Unlock()
				}
			}
			c.cmd.Wait()
			close(c.dead)
		}()
		limit := time.Now().Add(patience)
		for time.Now().Before(limit) {
			cn, err := net.DialTimeout("tcp", c.addr, 5*time.Second)
			if err == nil {
				cn.Close()
				return c
			}
			select {
			case <-c.dead:
				limit = time.Time{}
			default:
				time.Sleep(5 * time.Millisecond)
			}
		}
		c.kill()
	}
	k.Retryf("the receiver process does not accept connections")
	return nil
}

func (c *child) alive() bool {
	select {
	case <-c.dead:
		return false
	default:
		return true
	}
}

func (c *child) kill() {
	c.cmd.Process.Kill()
	select {
	case <-c.dead:
	case <-time.After(patience):
	}
}

func (c *child) byDevice(oid uint32) []Nav {
	c.mu.Lock()
	defer c.mu.Unlock()
	return navsOf(c.navs, oid)
}

func navsOf(all []Nav, oid uint32) []Nav {
	var out []Nav
	for _, n := range all {
		if *n.Client == oid {
			out = append(out, n)
		}
	}
	return out
}

// ---- C16 ----

const goodBase = 0x60000000

// pingPong sends packets one at a time and waits for each answer.
func pingPong(k *Case, addr string, d *dev, n int) *expect {
	c := dial(k, addr)
	defer c.conn.Close()
	e := &expect{}
	pingOn(k, c, d, e, n)
	return e
}

func pingOn(k *Case, c *client, d *dev, e *expect, n int) {
	for i := 0; i < n; i++ {
		p := d.packet()
		was := len(e.replies)
		e.feed(p)
		raw := p.bytes()
		if err := c.write(raw); err != nil {
			k.Note("packet", raw)
			k.Failf("the connection of a correct client was closed: %v", err)
		}
		for _, w := range e.replies[was:] {
			b, err := c.readPacket(patience)
			if err != nil {
				k.Note("packet", raw)
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					k.Retryf("a correct client got no answer within %v", patience)
				}
				k.Failf("a correct client got no answer: %v", err)
			}
			got := splitReplies(k, b)
			if len(got) != 1 {
				k.Failf("answer does not parse")
			}
			if m := matchReply(w, got[0]); m != "" {
				k.Note("packet", raw)
				k.Failf("%s", m)
			}
			k.Count("answers_compared", 1)
		}
	}
}

func fixCRC(b []byte) []byte {
	b = append([]byte(nil), b...)
	if len(b) < 11 {
		return b
	}
	hl := int(b[3])
	if hl >= 11 && hl <= len(b) {
		b[hl-1] = refCRC8(b[:hl-1])
		if len(b) >= hl+2 {
			binary.LittleEndian.PutUint16(b[len(b)-2:], refCRC16(b[hl:len(b)-2]))
		}
	}
	return b
}

func rst(c net.Conn) {
	if t, ok := c.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.Close()
}

// badDo runs one hostile client; it must return soon, what it leaves open goes to keep.
type badDo struct {
	name string
	do   func(r *rand.Rand, addr string, keep func(net.Conn))
}

func quickDial(addr string) net.Conn {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return nil
	}
	return c
}

func badDev(r *rand.Rand) *dev {
	return &dev{r: r, pid: genU16(r), oid: 1 + uint32(r.Intn(1<<20)), noTerm: true}
}

func sendSome(r *rand.Rand, c net.Conn, b []byte) {
	c.SetWriteDeadline(time.Now().Add(2 * time.Second))
	_, _ = c.Write(b)
}

// weird makes a packet with right checksums and a strange inside.
func weird(r *rand.Rand) []byte {
	d := badDev(r)
	var p RPkg
	switch r.Intn(5) {
	case 0:
		p = d.packet()
	case 1:
		p = genPkg(r)
	case 2:
		p = d.positions(1 + r.Intn(4))
	case 3:
		p = genHeader(r)
		p.PT = uint8(r.Intn(3))
		p.Body = randBytes(r, 1+r.Intn(80))
		return p.bytes()
	case 4:
		p = d.head()
		p.Records = append(p.Records, d.termRec())
	}
	body := p.body()
	for n := r.Intn(4); n > 0; n-- {
		body = mutate(r, body)
	}
	if len(body) == 0 || len(body) > 65535 {
		body = []byte{1}
	}
	p.Body = body
	return p.bytes()
}

var badDos = []badDo{
	{"garbage", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		if c := quickDial(addr); c != nil {
			sendSome(r, c, randBytes(r, 1+r.Intn(3000)))
			keep(c)
		}
	}},
	{"garbage after a good start", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		if c := quickDial(addr); c != nil {
			b := append(badDev(r).packet().bytes(), 1)
			sendSome(r, c, append(b, randBytes(r, 200)...))
			keep(c)
		}
	}},
	{"every header length", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		for i := 0; i < 24; i++ {
			if c := quickDial(addr); c != nil {
				p := badDev(r).positions(1).bytes()
				p[3] = []byte{0, 1, 5, 9, 10, 11, 12, 15, 16, 17, 127, 128, 255, byte(r.Intn(256))}[r.Intn(14)]
				if coin(r) {
					binary.LittleEndian.PutUint16(p[5:], []uint16{0, 1, 2, 65535, 65534, 32768, uint16(r.Intn(65536))}[r.Intn(7)])
				}
				if coin(r) {
					p = fixCRC(p)
				}
				sendSome(r, c, p)
				if coin(r) {
					c.(*net.TCPConn).CloseWrite()
				}
				keep(c)
			}
		}
	}},
	{"strange insides", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		if c := quickDial(addr); c != nil {
			go io.Copy(io.Discard, c)
			for i := 0; i < 40; i++ {
				sendSome(r, c, weird(r))
			}
			keep(c)
		}
	}},
	{"refused packets", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		if c := quickDial(addr); c != nil {
			go io.Copy(io.Discard, c)
			d := badDev(r)
			for i := 0; i < 40; i++ {
				b, _, _, _ := malform(r, d)
				sendSome(r, c, b)
			}
			keep(c)
		}
	}},
	{"gone in the middle of a packet", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		for i := 0; i < 20; i++ {
			if c := quickDial(addr); c != nil {
				p := badDev(r).packet().bytes()
				sendSome(r, c, p[:r.Intn(len(p))])
				if coin(r) {
					rst(c)
				} else {
					c.Close()
				}
			}
		}
	}},
	{"reset instead of reading", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		for i := 0; i < 10; i++ {
			if c := quickDial(addr); c != nil {
				d := badDev(r)
				for n := r.Intn(12); n >= 0; n-- {
					sendSome(r, c, d.packet().bytes())
				}
				rst(c)
			}
		}
	}},
	{"stall in the middle of a packet", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		if c := quickDial(addr); c != nil {
			p := badDev(r).packet().bytes()
			sendSome(r, c, p[:1+r.Intn(len(p)-1)])
			keep(c)
		}
	}},
	{"silent", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		for i := 0; i < 10; i++ {
			if c := quickDial(addr); c != nil {
				keep(c)
			}
		}
	}},
	{"never reads", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		dl := net.Dialer{Timeout: 5 * time.Second, Control: func(_, _ string, rc syscall.RawConn) error {
			rc.Control(func(fd uintptr) {
				_ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 2048)
				// small segments keep the sending buffer of the server small
				_ = syscall.SetsockoptInt(int(fd), syscall.IPPROTO_TCP, syscall.TCP_MAXSEG, 536)
			})
			return nil
		}}
		c, err := dl.Dial("tcp", addr)
		if err != nil {
			return
		}
		d := badDev(r)
		p := d.head()
		for i := 0; i < 800; i++ {
			p.Records = append(p.Records, RRec{RN: uint16(i), SST: 2, RST: 2})
		}
		chunk := p.bytes()
		// the answers (about 5 KB each) fill the buffers of both sides; nothing moves then
		for i, rest := 0, chunk; i < 4000; i++ {
			c.SetWriteDeadline(time.Now().Add(400 * time.Millisecond))
			n, err := c.Write(rest)
			if n == 0 && err != nil {
				break
			}
			if rest = rest[n:]; len(rest) == 0 {
				rest = chunk
			}
		}
		keep(c)
	}},
	{"connection storm", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		for i := 0; i < 120; i++ {
			if c := quickDial(addr); c != nil {
				if coin(r) {
					rst(c)
				} else {
					c.Close()
				}
			}
		}
	}},
	{"biggest packets", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		if c := quickDial(addr); c != nil {
			go io.Copy(io.Discard, c)
			for i := 0; i < 3; i++ {
				p := badDev(r).head()
				p.Body = randBytes(r, 65535)
				sendSome(r, c, p.bytes())
			}
			keep(c)
		}
	}},
	{"someone else's protocol", func(r *rand.Rand, addr string, keep func(net.Conn)) {
		for _, s := range []string{"GET / HTTP/1.1\r\nHost: x\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "\x00", "\x01", "\n\n\n\n\n\n\n\n\n\n\n\n", "SSH-2.0-x\r\n"} {
			if c := quickDial(addr); c != nil {
				sendSome(r, c, []byte(s))
				keep(c)
			}
		}
	}},
}

func runC16(c *Ctx) {
	c.Require("answers_compared", "stored_compared", "hostile_actions")
	scenario := func(k *Case, dos []badDo, rounds, goods int) {
		r := k.R
		st := &recStore{hook: func(Nav) error { runtime.Gosched(); return nil }}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		var kmu sync.Mutex
		var kept []net.Conn
		keep := func(c net.Conn) { kmu.Lock(); kept = append(kept, c); kmu.Unlock() }
		defer func() {
			kmu.Lock()
			for _, c := range kept {
				rst(c)
			}
			kmu.Unlock()
		}()
		var names []string
		for _, d := range dos {
			names = append(names, d.name)
		}
		k.Note("behaviours", strings.Join(names, ", "))
		k.Sig(strings.Join(names, ","), k.Index)
		// correct clients connected before anything bad happens
		old := make([]*client, 2)
		olde := make([]*expect, 2)
		oldd := make([]*dev, 2)
		for i := range old {
			old[i] = dial(k, rs.addr)
			defer old[i].conn.Close()
			olde[i] = &expect{}
			oldd[i] = &dev{r: subRand(r), oid: goodBase + uint32(i), noTerm: true, serial: uint32(i) << 20, pid: genU16(r)}
			pingOn(k, old[i], oldd[i], olde[i], 3)
		}
		var fs []func(*Case)
		for i := range old {
			i := i
			fs = append(fs, func(k *Case) { pingOn(k, old[i], oldd[i], olde[i], 12) })
		}
		exps := make([]*expect, goods)
		for i := 0; i < goods; i++ {
			i := i
			d := &dev{r: subRand(r), oid: goodBase + 100 + uint32(i), noTerm: true, serial: uint32(100+i) << 20, pid: genU16(r)}
			fs = append(fs, func(k *Case) { exps[i] = pingPong(k, rs.addr, d, 10) })
		}
		for _, b := range dos {
			b := b
			rr := subRand(r)
			fs = append(fs, func(k *Case) {
				for j := 0; j < rounds; j++ {
					b.do(rr, rs.addr, keep)
					k.Count("hostile_actions", 1)
				}
			})
		}
		together(k, fs...)
		// and after it
		for i := range old {
			pingOn(k, old[i], oldd[i], olde[i], 3)
		}
		d := &dev{r: subRand(r), oid: goodBase + 99, noTerm: true, serial: 99 << 20, pid: genU16(r)}
		late := pingPong(k, rs.addr, d, 5)
		all := st.all()
		check := func(oid uint32, e *expect) {
			got := navsOf(all, oid)
			matchOrder(k, e.stored, got)
			for i := range got {
				matchValues(k, e.stored[i], got[i], 0, 1<<40)
			}
		}
		for i := range old {
			check(goodBase+uint32(i), olde[i])
		}
		for i := range exps {
			check(goodBase+100+uint32(i), exps[i])
		}
		check(goodBase+99, late)
		kmu.Lock()
		k.Count("hostile_connections_open_at_end", int64(len(kept)))
		kmu.Unlock()
	}
	c.Cases("each", len(badDos)*c.N(1), 4, func(k *Case) {
		scenario(k, badDos[k.Index%len(badDos):k.Index%len(badDos)+1], 4, 2)
	})
	c.Cases("mixed", c.N(10), 2, func(k *Case) {
		var dos []badDo
		for _, b := range badDos {
			if k.R.Intn(3) > 0 {
				dos = append(dos, b)
			}
		}
		scenario(k, dos, 3, 5)
	})
	// a fuzzing client; any crash ends the worker
	c.Cases("fuzz", c.N(60), 6, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		var sent []byte
		cl := dial(k, rs.addr)
		go io.Copy(io.Discard, cl.conn)
		for i := 0; i < 120; i++ {
			b := weird(k.R)
			sent = append(sent[:0], b...)
			k.Note("last", sent)
			if err := cl.write(b); err != nil {
				// a strange header may end the connection
				cl.conn.Close()
				cl = dial(k, rs.addr)
				go io.Copy(io.Discard, cl.conn)
			}
			k.Count("strange_packets", 1)
		}
		k.Sig(sent)
		cl.conn.CloseWrite()
		d := &dev{r: subRand(k.R), oid: goodBase, noTerm: true, pid: genU16(k.R)}
		e := pingPong(k, rs.addr, d, 3)
		matchOrder(k, e.stored, navsOf(st.all(), goodBase))
		k.Count("hostile_actions", 1)
		cl.conn.Close()
	})
	// many connections at once, all idle, then many that broke off
	c.Cases("crowd", 7, 2, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		k.Sig(k.Index)
		var conns []net.Conn
		defer func() {
			for _, c := range conns {
				rst(c)
			}
		}()
		total := 1200
		if k.Index == 0 {
			total = manyConns(4500)
		}
		for i := 0; i < total; i++ {
			cn := quickDial(rs.addr)
			if cn == nil {
				k.Retryf("connection %d was not accepted", i)
			}
			whole := badDev(k.R).positions(1).bytes()
			leave := func() { // wait until the server has answered or closed
				cn.SetReadDeadline(time.Now().Add(patience))
				cn.Read(make([]byte, 200))
				cn.Close()
			}
			switch k.Index {
			case 0: // stays
				conns = append(conns, cn)
			case 1: // breaks off in the middle
				sendSome(k.R, cn, whole[:5+i%30])
				cn.Close()
			case 2: // not this protocol
				cn.Write([]byte("GET / HTTP/1.0\r\n\r\n"))
				leave()
			case 3: // damaged
				whole[len(whole)-1] ^= 0x55
				cn.Write(whole)
				leave()
			case 4: // orderly
				cn.Write(whole)
				leave()
			case 5:
				rst(cn)
			case 6: // sends and resets without reading
				cn.Write(whole)
				rst(cn)
			}
			k.Count("hostile_actions", 1)
		}
		d := &dev{r: subRand(k.R), oid: goodBase, noTerm: true, pid: genU16(k.R)}
		e := pingPong(k, rs.addr, d, 5)
		matchOrder(k, e.stored, navsOf(st.all(), goodBase))
	})
	// more bad connections in succession than there are 16-bit numbers, beside a good one
	c.Cases("churn", 1, 1, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		k.Sig(k.Index)
		d := &dev{r: subRand(k.R), oid: goodBase, noTerm: true, pid: genU16(k.R)}
		cl := dial(k, rs.addr)
		defer cl.conn.Close()
		e := &expect{}
		speak := func() {
			p := d.positions(2)
			e.feed(p)
			if err := cl.write(p.bytes()); err != nil {
				k.Failf("the connection of the good client was closed: %v", err)
			}
			if _, err := cl.readPacket(patience); err != nil {
				k.Retryf("no answer: %v", err)
			}
		}
		var fs []func(*Case)
		for l := 0; l < 6; l++ {
			r := subRand(k.R)
			fs = append(fs, func(k *Case) {
				whole := badDev(r).positions(1).bytes()
				for i := 0; i < 11100; i++ {
					cn := quickDial(rs.addr)
					if cn == nil {
						k.Retryf("connection %d was not accepted", i)
					}
					switch i % 8 {
					case 0:
						cn.Write([]byte("GET / HTTP/1.0\r\n\r\n"))
					case 1:
						cn.Write(whole[:1+i%30])
					case 2:
						bad := append([]byte(nil), whole...)
						bad[len(bad)-1-i%3] ^= 0x55
						cn.Write(bad)
					case 3:
						cn.Write(whole)
					}
					if i%4 == 0 {
						cn.SetReadDeadline(time.Now().Add(patience))
						cn.(*net.TCPConn).CloseWrite()
						io.Copy(io.Discard, cn)
					}
					rst(cn)
					k.Count("hostile_actions", 1)
				}
			})
		}
		speak()
		together(k, fs...)
		speak()
		more := &dev{r: subRand(k.R), oid: goodBase + 1, noTerm: true, pid: genU16(k.R)}
		f := pingPong(k, rs.addr, more, 3)
		matchOrder(k, e.stored, navsOf(st.all(), goodBase))
		matchOrder(k, f.stored, navsOf(st.all(), goodBase+1))
	})
	// more connections than the process may have files: service resumes when they go
	c.Cases("descriptors", c.N(3), 3, func(k *Case) {
		ch := startChild(k, 0, 48)
		defer ch.kill()
		d := &dev{r: subRand(k.R), oid: goodBase, noTerm: true, pid: genU16(k.R)}
		old := dial(k, ch.addr)
		defer old.conn.Close()
		e := &expect{}
		pingOn(k, old, d, e, 3)
		var conns []net.Conn
		for i := 0; i < 90; i++ {
			if cn := quickDial(ch.addr); cn != nil {
				conns = append(conns, cn)
			}
		}
		time.Sleep(100 * time.Millisecond)
		pingOn(k, old, d, e, 3) // the one already served is still served
		for _, cn := range conns {
			rst(cn)
		}
		k.Count("hostile_actions", int64(len(conns)))
		d2 := &dev{r: subRand(k.R), oid: goodBase + 1, noTerm: true, pid: genU16(k.R)}
		if !ch.alive() {
			k.Failf("the receiver ended when it ran out of file descriptors: %s", firstLine(ch.errb.String()))
		}
		e2 := pingPong(k, ch.addr, d2, 3)
		pingOn(k, old, d, e, 3)
		time.Sleep(50 * time.Millisecond)
		waitFor(k, func() bool {
			return len(ch.byDevice(goodBase)) >= len(e.stored) && len(ch.byDevice(goodBase+1)) >= len(e2.stored)
		})
		matchOrder(k, e.stored, ch.byDevice(goodBase))
		matchOrder(k, e2.stored, ch.byDevice(goodBase+1))
	})
}

// waitFor waits for something that arrives by itself; the caller checks afterwards.
func waitFor(k *Case, f func() bool) bool {
	limit := time.Now().Add(patience)
	for !f() {
		if time.Now().After(limit) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}

// ---- C17 ----

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

type emptyErr struct{}

func (emptyErr) Error() string { return "" }

var storeErrs = []error{errStore, io.EOF, io.ErrUnexpectedEOF, timeoutErr{}, emptyErr{}, context.Canceled, context.DeadlineExceeded,
	sql.ErrNoRows, sql.ErrConnDone, net.ErrClosed, fmt.Errorf("wrapped: %w", errStore), syscall.EPIPE, syscall.ECONNRESET, os.ErrNotExist,
	storage.InvalidStorage, storage.UnknownStorage, errors.Join(errStore, io.EOF), &net.OpError{Op: "write", Err: syscall.EPIPE}}

func runC17(c *Ctx) {
	c.Require("answers_compared", "held_back", "failed_saves", "stored_compared", "long_saves")
	// a save that takes long, and how it ends after that
	holds := []time.Duration{1200 * time.Millisecond, 2300 * time.Millisecond, 3400 * time.Millisecond, 5700 * time.Millisecond, 11500 * time.Millisecond, 31 * time.Second, 62 * time.Second}
	if c.Thorough() {
		holds = append(holds, 125*time.Second, 310*time.Second)
	}
	defer c.Beside("held", len(holds)*4, 40, func(k *Case) {
		hold := holds[k.Index/4]
		var want error
		if k.Index%2 == 1 {
			want = storeErrs[k.R.Intn(len(storeErrs))]
		}
		n := 1 + k.R.Intn(3)
		slow := k.R.Intn(n)
		var first, ended int64
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		p := d.positions(n)
		var e expect
		e.feed(p)
		slowID := e.stored[slow].id
		var stores []storage.Saver
		var recs []*recStore
		nst := 1 + k.R.Intn(3)
		which := k.R.Intn(nst)
		for i := 0; i < nst; i++ {
			st := &recStore{}
			if i == which {
				st.hook = func(v Nav) error {
					if v.id() != slowID {
						return nil
					}
					atomic.StoreInt64(&first, time.Now().UnixNano())
					time.Sleep(hold)
					atomic.StoreInt64(&ended, 1)
					return want
				}
			}
			recs = append(recs, st)
			stores = append(stores, st)
		}
		if want != nil {
			e = expect{fails: func(id uint32) bool { return id == slowID }}
			e.feed(p)
		}
		next := d.positions(2)
		e.feed(next)
		ttl := time.Duration(0)
		if k.Index/2%2 == 1 {
			ttl = 700 * time.Millisecond // the device is not idle while it waits for its answer
		}
		rs := launch(k, "", ttl, stores...)
		defer rs.stop(k)
		cl := dial(k, rs.addr)
		defer cl.conn.Close()
		k.Note("save takes", hold.String())
		k.Note("save ends with", fmt.Sprint(want))
		k.Note("idle time", ttl.String())
		k.Sig(p.bytes(), hold, fmt.Sprint(want))
		if err := cl.write(append(p.bytes(), next.bytes()...)); err != nil {
			k.Retryf("write failed: %v", err)
		}
		var out []byte
		for i := range e.replies {
			b, err := cl.readPacket(hold + patience)
			if i == 0 && err == nil && atomic.LoadInt64(&ended) == 0 {
				k.Failf("an answer arrived while the save of record %d of %d was still running (for %v so far)", slow+1, n, time.Since(time.Unix(0, atomic.LoadInt64(&first))))
			}
			if err != nil {
				k.Retryf("no answer %d after a save of %v: %v", i, hold, err)
			}
			out = append(out, b...)
		}
		matchReplies(k, e.replies, splitReplies(k, out))
		k.Count("long_saves", 1)
		for i, st := range recs {
			st, i := st, i
			var all []expNav
			for _, w := range e.stored {
				if w.id != slowID || i != which || want == nil {
					all = append(all, w)
				}
			}
			waitFor(k, func() bool { return len(st.all()) >= len(all) })
			matchOrder(k, all, st.all())
		}
	})()
	// an answer may not arrive while a save of its packet is still running
	c.Cases("gate", c.N(150), 16, func(k *Case) {
		gate := make(chan struct{})
		var returned int64
		var entered int64
		nstores := 1 + k.R.Intn(3)
		var stores []storage.Saver
		var recs []*recStore
		gated := k.R.Intn(nstores)
		for i := 0; i < nstores; i++ {
			st := &recStore{}
			if i == gated {
				st.hook = func(Nav) error {
					atomic.AddInt64(&entered, 1)
					select {
					case <-gate:
					case <-time.After(patience):
					}
					return nil
				}
				st.after = func(Nav) { atomic.AddInt64(&returned, 1) }
			}
			recs = append(recs, st)
			stores = append(stores, st)
		}
		rs := launch(k, "", 0, stores...)
		defer rs.stop(k)
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: coin(k.R)}
		cl := dial(k, rs.addr)
		defer cl.conn.Close()
		var e expect
		for round := 0; round < 3; round++ {
			n := 1 + k.R.Intn(4)
			p := d.positions(n)
			if coin(k.R) {
				p.Records = append(p.Records, d.noPosRec())
			}
			if coin(k.R) {
				p.Records = append([]RRec{d.authRec()}, p.Records...)
			}
			was := len(e.replies)
			e.feed(p)
			k.Sig(p.bytes())
			atomic.StoreInt64(&returned, 0)
			if err := cl.write(p.bytes()); err != nil {
				k.Failf("connection closed: %v", err)
			}
			type ans struct {
				b        []byte
				returned int64
				err      error
			}
			got := make(chan ans, 8)
			want := len(e.replies) - was
			go func() {
				for i := 0; i < want; i++ {
					// the first byte is what counts
					first := make([]byte, 1)
					cl.conn.SetReadDeadline(time.Now().Add(2 * patience))
					_, err := io.ReadFull(cl.conn, first)
					ret := atomic.LoadInt64(&returned)
					if err != nil {
						got <- ans{nil, ret, err}
						return
					}
					b, err := readPacketFrom(io.MultiReader(bytes.NewReader(first), cl.conn))
					got <- ans{b, ret, err}
				}
			}()
			for i := 0; i < n; i++ {
				// let one save finish, having given a premature answer the time to show itself
				waitFor(k, func() bool { return atomic.LoadInt64(&entered) > 0 || len(got) > 0 })
				time.Sleep(time.Duration(k.R.Intn(8)) * time.Millisecond)
				if len(got) > 0 {
					a := <-got
					if a.err == nil && a.returned < int64(n) {
						k.Failf("an answer arrived when %d of the %d records of the packet were saved", a.returned, n)
					}
					k.Failf("unexpected end: %v", a.err)
				}
				k.Count("held_back", 1)
				atomic.AddInt64(&entered, -1)
				gate <- struct{}{}
			}
			for i := 0; i < want; i++ {
				a := <-got
				if a.err != nil {
					if ne, ok := a.err.(net.Error); ok && ne.Timeout() {
						k.Retryf("no answer after the storage finished")
					}
					k.Failf("no answer after the storage finished: %v", a.err)
				}
				if a.returned < int64(n) {
					k.Failf("an answer arrived when %d of the %d records of the packet were saved", a.returned, n)
				}
				ps := splitReplies(k, a.b)
				if m := matchReply(e.replies[was+i], ps[0]); m != "" {
					k.Failf("%s", m)
				}
				k.Count("answers_compared", 1)
			}
		}
		for _, st := range recs {
			matchOrder(k, e.stored, st.all())
		}
	})
	// failing and slow storages
	c.Cases("faults", c.N(1000), srvPar, func(k *Case) {
		r := k.R
		nstores := 1 + r.Intn(3)
		// which store fails for which serial, and how
		mode := r.Intn(5)
		salt := r.Uint32()
		failing := func(store int, id uint32) error {
			h := (id*2654435761 + uint32(store)*40503 + salt)
			h ^= h >> 15
			bad := false
			switch mode {
			case 0:
				bad = h%2 == 0
			case 1:
				bad = h%10 == 0
			case 2:
				bad = store == nstores-1
			case 3:
				bad = store == 0 && h%3 != 0
			case 4: // breaks down for a while and recovers
				bad = id%40 > 10 && id%40 < 30
			}
			if bad {
				return storeErrs[(h>>8)%uint32(len(storeErrs))]
			}
			return nil
		}
		var stores []storage.Saver
		var recs []*recStore
		slow := r.Intn(3) == 0
		for i := 0; i < nstores; i++ {
			i := i
			rr := subRand(r)
			var mu sync.Mutex
			st := &recStore{hook: func(n Nav) error {
				if slow {
					mu.Lock()
					x := rr.Intn(6)
					mu.Unlock()
					if x == 0 {
						time.Sleep(3 * time.Millisecond)
					}
				}
				return failing(i, n.id())
			}}
			recs = append(recs, st)
			stores = append(stores, st)
		}
		rs := launch(k, "", 0, stores...)
		defer rs.stop(k)
		d := &dev{r: r, pid: genU16(r), step: uint32(r.Intn(2))}
		s := &script{}
		s.exp.fails = func(id uint32) bool {
			for i := 0; i < nstores; i++ {
				if failing(i, id) != nil {
					return true
				}
			}
			return false
		}
		for i, n := 0, 5+r.Intn(25); i < n; i++ {
			s.good(d.packet())
		}
		k.Note("stream", s.raw)
		k.Note("mode", mode)
		k.Sig(s.raw, mode, salt)
		matchReplies(k, s.exp.replies, splitReplies(k, play(k, rs.addr, s.raw, nil, 0)))
		for i, st := range recs {
			var want []expNav
			for _, w := range s.exp.stored {
				if failing(i, w.id) == nil {
					want = append(want, w)
				} else {
					k.Count("failed_saves", 1)
				}
			}
			matchOrder(k, want, st.all())
		}
	})
	// more failures on a connection than there are record numbers
	c.Cases("endless", 1, 1, func(k *Case) {
		salt := k.R.Uint32()
		fails := func(id uint32) bool { return ((id+salt)*2654435761)>>29 != 0 }
		st := &recStore{hook: func(v Nav) error {
			if fails(v.id()) {
				return errStore
			}
			return nil
		}}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		s := &script{}
		s.exp.fails = fails
		for i := 0; i < 8000; i++ {
			s.good(d.positions(10))
		}
		k.Sig(s.raw)
		matchReplies(k, s.exp.replies, splitReplies(k, play(k, rs.addr, s.raw, nil, 0)))
		var want []expNav
		for _, w := range s.exp.stored {
			if !fails(w.id) {
				want = append(want, w)
			}
		}
		matchOrder(k, want, st.all())
	})
	// packets of very many records, some of which fail
	c.Cases("large", c.N(24), srvPar, func(k *Case) {
		r := k.R
		salt := r.Uint32()
		every := uint32([]int{1, 2, 7, 100}[k.Index%4])
		fails := func(id uint32) bool { return (id^salt)%every == 0 }
		st := &recStore{hook: func(n Nav) error {
			if fails(n.id()) {
				return storeErrs[n.id()%uint32(len(storeErrs))]
			}
			return nil
		}}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		d := &dev{r: r, pid: genU16(r), noTerm: true}
		s := &script{}
		s.exp.fails = fails
		for _, n := range []int{50 + r.Intn(100), 200 + r.Intn(200), 400 + r.Intn(600)} {
			p := d.head()
			for i := 0; i < n; i++ {
				p.Records = append(p.Records, RRec{RN: uint16(i), SST: 2, RST: 2, OBFE: i%3 == 0, OID: 7, Subs: []RSub{{tPos, d.pos()}}})
			}
			if len(p.body()) > 65535 {
				k.Skipf("too long")
			}
			s.good(p)
		}
		k.Note("salt", salt)
		k.Sig(s.raw, salt)
		matchReplies(k, s.exp.replies, splitReplies(k, play(k, rs.addr, s.raw, nil, 0)))
		var want []expNav
		for _, w := range s.exp.stored {
			if !fails(w.id) {
				want = append(want, w)
			} else {
				k.Count("failed_saves", 1)
			}
		}
		matchOrder(k, want, st.all())
	})
	// every pattern of failures over the records of one packet
	c.Cases("patterns", 1, 1, func(k *Case) {
		for n := 1; n <= 6; n++ {
			bad := map[uint32]bool{}
			st := &recStore{}
			st.hook = func(v Nav) error {
				if bad[v.id()] {
					return storeErrs[v.id()%uint32(len(storeErrs))]
				}
				return nil
			}
			d := &dev{r: k.R, pid: genU16(k.R)}
			s := &script{}
			s.exp.fails = func(id uint32) bool { return bad[id] }
			for m := 0; m < 1<<uint(n); m++ {
				p := d.head()
				for i := 0; i < n; i++ {
					rec := d.posRec()
					for _, sub := range rec.Subs {
						if x, ok := sub.Data.(RPos); ok && m>>uint(i)&1 == 1 {
							bad[x.NTM] = true
						}
					}
					p.Records = append(p.Records, rec)
				}
				s.good(p)
			}
			rs := launch(k, "", 0, st)
			k.Sig(s.raw)
			matchReplies(k, s.exp.replies, splitReplies(k, play(k, rs.addr, s.raw, nil, 0)))
			rs.stop(k)
			k.Count("failure_patterns", 1<<uint(n))
		}
		c.mu.Lock()
		c.res.Exhaustive = append(c.res.Exhaustive, "all patterns of failed saves over packets of one to six position records")
		c.mu.Unlock()
	})
	// record numbers that repeat inside a packet keep their own status
	c.Cases("samenumber", c.N(150), srvPar, func(k *Case) {
		salt := k.R.Uint32()
		fails := func(id uint32) bool { return ((id+salt)*2654435761)>>31 == 1 }
		st := &recStore{hook: func(v Nav) error {
			if fails(v.id()) {
				return errStore
			}
			return nil
		}}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		s.exp.fails = fails
		for i := 0; i < 10; i++ {
			p := d.positions(1 + k.R.Intn(6))
			for j := range p.Records {
				p.Records[j].RN = uint16(k.R.Intn(2))
			}
			s.good(p)
		}
		k.Sig(s.raw)
		matchReplies(k, s.exp.replies, splitReplies(k, play(k, rs.addr, s.raw, nil, 0)))
	})
}

// ---- C18 ----

type plainRec struct{ b []byte }

func (p *plainRec) ToBytes() ([]byte, error) { return p.b, nil }

type seqStore struct {
	mu    sync.Mutex
	got   []string
	ptr   []interface{}
	fail  func(s string) error
	delay bool
}

func (s *seqStore) Save(m interface{ ToBytes() ([]byte, error) }) error {
	b, err := m.ToBytes()
	if err != nil {
		return err
	}
	if s.delay {
		runtime.Gosched()
	}
	s.mu.Lock()
	s.got = append(s.got, string(b))
	s.ptr = append(s.ptr, m)
	s.mu.Unlock()
	if s.fail != nil {
		return s.fail(string(b))
	}
	return nil
}

func runC18(c *Ctx) {
	c.Require("saves", "deliveries", "failed_saves", "stored_compared", "long_saves")
	// a storage that takes long does not cost the others anything, nor itself
	holds := []time.Duration{700 * time.Millisecond, 1700 * time.Millisecond, 3400 * time.Millisecond, 5700 * time.Millisecond, 11500 * time.Millisecond, 31 * time.Second, 62 * time.Second}
	if c.Thorough() {
		holds = append(holds, 125*time.Second, 310*time.Second)
	}
	defer c.Beside("slow", len(holds)*6, 60, func(k *Case) {
		hold := holds[k.Index/6]
		n := 1 + k.R.Intn(4)
		which := k.R.Intn(n)
		var slowErr, otherErr error
		other := -1
		if k.Index%2 == 1 {
			slowErr = storeErrs[k.R.Intn(len(storeErrs))]
		}
		if k.R.Intn(3) == 0 {
			other, otherErr = k.R.Intn(n), errStore
		}
		k.Note("save takes", hold.String())
		k.Note("storages", n)
		k.Note("slow storage", which)
		k.Sig(n, which, hold, fmt.Sprint(slowErr), other)
		repo := storage.NewRepository()
		var ss []*seqStore
		var slowNow int32 = 1
		for i := 0; i < n; i++ {
			i := i
			s := &seqStore{}
			s.fail = func(string) error {
				if i == which && atomic.LoadInt32(&slowNow) == 1 {
					time.Sleep(hold)
					if slowErr != nil {
						return slowErr
					}
				}
				if i == other {
					return otherErr
				}
				return nil
			}
			ss = append(ss, s)
			repo.AddStore(s)
		}
		var want []string
		for j := 0; j < 3; j++ {
			if j == 1 {
				atomic.StoreInt32(&slowNow, 0)
			}
			rec := &plainRec{[]byte(fmt.Sprintf("%d-%d-%d", k.Index, j, k.R.Int63()))}
			want = append(want, string(rec.b))
			err := repo.Save(rec)
			bad := other >= 0 || j == 0 && slowErr != nil
			if (err != nil) != bad {
				k.Failf("save %d with storage %d of %d taking %v: Save returned %v, want an error: %v", j, which, n, hold, err, bad)
			}
			k.Count("saves", 1)
			if bad {
				k.Count("failed_saves", 1)
			}
			for i, s := range ss {
				s.mu.Lock()
				got := append([]string(nil), s.got...)
				s.mu.Unlock()
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					k.Failf("storage %d of %d has %q when Save returned, want %q (storage %d took %v)", i, n, got, want, which, hold)
				}
				k.Count("deliveries", 1)
			}
		}
		k.Count("long_saves", 1)
	})()
	var combos [][2]int
	for n := 0; n <= 6; n++ {
		for m := 0; m < 1<<uint(n); m++ {
			combos = append(combos, [2]int{n, m})
		}
	}
	c.Cases("patterns", len(combos), srvPar, func(k *Case) {
		n, m := combos[k.Index][0], combos[k.Index][1]
		k.Sig(n, m)
		repo := storage.NewRepository()
		var ss []*seqStore
		for i := 0; i < n; i++ {
			i := i
			s := &seqStore{}
			if m>>uint(i)&1 == 1 {
				s.fail = func(string) error { return storeErrs[(i+m)%len(storeErrs)] }
			}
			ss = append(ss, s)
			repo.AddStore(s)
		}
		var want []string
		for j := 0; j < 3; j++ {
			rec := &plainRec{[]byte(fmt.Sprintf("%d-%d-%d-%d", n, m, j, k.R.Int63()))}
			if j == 2 { // the same once more
				rec = &plainRec{[]byte(want[1])}
			}
			want = append(want, string(rec.b))
			err := repo.Save(rec)
			k.Count("saves", 1)
			if (err != nil) != (m != 0) {
				k.Failf("%d storages, failing mask %b: Save returned %v", n, m, err)
			}
			if err != nil {
				k.Count("failed_saves", 1)
			}
			for i, s := range ss {
				if len(s.got) != j+1 || s.got[j] != want[j] {
					k.Failf("%d storages, failing mask %b: storage %d has %q after saving %q", n, m, i, s.got, want)
				}
				k.Count("deliveries", 1)
			}
		}
	})
	c.mu.Lock()
	c.res.Exhaustive = append(c.res.Exhaustive, "all patterns of failing storages for up to six storages")
	c.mu.Unlock()
	history := func(k *Case, steps int) {
		r := k.R
		repo := storage.NewRepository()
		type slot struct {
			s     *seqStore
			times int
			salt  uint32
		}
		var slots []*slot
		from := map[*slot]int{}
		var all []string
		var recs []*storage.NavRecord
		bad := func(sl *slot, s string) bool {
			h := sl.salt
			for i := 0; i < len(s); i++ {
				h = h*16777619 ^ uint32(s[i])
			}
			return h%4 == 0
		}
		for step := 0; step < steps; step++ {
			if r.Intn(6) == 0 && len(slots) < 12 {
				sl := &slot{s: &seqStore{}, salt: r.Uint32(), times: 1}
				if r.Intn(3) == 0 {
					e := storeErrs[r.Intn(len(storeErrs))]
					sl.s.fail = func(s string) error {
						if bad(sl, s) {
							return e
						}
						return nil
					}
				}
				slots = append(slots, sl)
				from[sl] = len(all)
				repo.AddStore(sl.s)
				continue
			}
			rec := &storage.NavRecord{Client: r.Uint32(), PacketID: uint32(step), Latitude: float64(r.Intn(9000)) / 100}
			if len(recs) > 0 {
				switch r.Intn(8) {
				case 0: // the same record again
					rec = recs[len(recs)-1]
				case 1: // one like it
					x := *recs[len(recs)-1]
					rec = &x
				case 2: // or like an earlier one
					x := *recs[r.Intn(len(recs))]
					rec = &x
				}
			}
			recs = append(recs, rec)
			b, _ := rec.ToBytes()
			s := string(b)
			wantErr := false
			for _, sl := range slots {
				if sl.s.fail != nil && bad(sl, s) {
					wantErr = true
				}
			}
			all = append(all, s)
			err := repo.Save(rec)
			k.Count("saves", 1)
			if wantErr {
				k.Count("failed_saves", 1)
			}
			if (err != nil) != wantErr {
				k.Failf("step %d: Save returned %v, want an error: %v", step, err, wantErr)
			}
			if b2, _ := rec.ToBytes(); string(b2) != s {
				k.Failf("saving changed the record: %s, was %s", b2, s)
			}
		}
		k.Sig(strings.Join(all, ""))
		for i, sl := range slots {
			want := all[from[sl]:]
			if strings.Join(want, "\n") != strings.Join(sl.s.got, "\n") {
				k.Failf("storage %d got %d records, want %d (or in another order)", i, len(sl.s.got), len(want))
			}
			k.Count("deliveries", int64(len(want)))
		}
	}
	c.Cases("histories", c.N(3000), srvPar, func(k *Case) { history(k, 5+k.R.Intn(60)) })
	c.Cases("endless", 1, 1, func(k *Case) { history(k, 67000) })
	c.Cases("concurrent", c.N(40), 2, func(k *Case) {
		r := k.R
		repo := storage.NewRepository()
		var ss []*seqStore
		n := 1 + r.Intn(5)
		for i := 0; i < n; i++ {
			s := &seqStore{delay: true}
			if r.Intn(3) == 0 {
				s.fail = func(x string) error {
					if strings.HasSuffix(x, "7") {
						return errStore
					}
					return nil
				}
			}
			ss = append(ss, s)
			repo.AddStore(s)
		}
		anyFails := false
		for _, s := range ss {
			anyFails = anyFails || s.fail != nil
		}
		var fs []func(*Case)
		for g := 0; g < 8; g++ {
			g := g
			fs = append(fs, func(k *Case) {
				for j := 0; j < 50; j++ {
					rec := &plainRec{[]byte(fmt.Sprintf("%d:%d", g, j))}
					err := repo.Save(rec)
					if want := anyFails && j%10 == 7; (err != nil) != want {
						k.Failf("Save of %s returned %v, want an error: %v", rec.b, err, want)
					}
				}
			})
		}
		together(k, fs...)
		k.Count("saves", 400)
		for i, s := range ss {
			next := map[string]int{}
			for _, x := range s.got {
				p := strings.SplitN(x, ":", 2)
				if strconv.Itoa(next[p[0]]) != p[1] {
					k.Failf("storage %d: goroutine %s delivered %s, want %d", i, p[0], p[1], next[p[0]])
				}
				next[p[0]]++
			}
			if len(s.got) != 400 {
				k.Failf("storage %d got %d of 400 records", i, len(s.got))
			}
			k.Count("deliveries", 400)
		}
		k.Sig(strings.Join(ss[0].got, ","))
	})
	// through the receiver
	c.Cases("receiver", c.N(400), srvPar, func(k *Case) {
		r := k.R
		n := 2 + r.Intn(4)
		mask := r.Intn(1 << uint(n))
		var stores []storage.Saver
		var ss []*recStore
		for i := 0; i < n; i++ {
			s := &recStore{}
			if mask>>uint(i)&1 == 1 {
				e := storeErrs[r.Intn(len(storeErrs))]
				s.hook = func(v Nav) error {
					s.mu.Lock()
					s.navs = append(s.navs, v) // it was delivered, but fails
					s.mu.Unlock()
					return e
				}
			}
			ss = append(ss, s)
			stores = append(stores, s)
		}
		rs := launch(k, "", 0, stores...)
		defer rs.stop(k)
		d := &dev{r: r, pid: genU16(r)}
		sc := &script{}
		sc.exp.fails = func(uint32) bool { return mask != 0 }
		for i := 0; i < 12; i++ {
			sc.good(d.packet())
		}
		k.Sig(sc.raw, mask)
		k.Note("mask", mask)
		matchReplies(k, sc.exp.replies, splitReplies(k, play(k, rs.addr, sc.raw, nil, 0)))
		for _, s := range ss {
			matchOrder(k, sc.exp.stored, s.all())
		}
	})
}

// manyConns is how many connections, up to n, may be open without using up the file descriptors of this process, which has both ends.
func manyConns(n int) int {
	var l syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l) == nil && l.Cur < uint64(2*n+2500) {
		if n = (int(l.Cur) - 2500) / 2; n < 500 {
			n = 500
		}
	}
	return n
}

// ---- C19 ----

func runC19(c *Ctx) {
	c.Require("closed_idle", "kept_active", "kept_without_limit")
	const closeSlack = 12 * time.Second
	// long pauses at every stage of a packet
	longs := []time.Duration{0, -1, 10 * time.Minute, time.Hour}
	long := []time.Duration{6 * time.Second, 12 * time.Second, 32 * time.Second, 62 * time.Second}
	if c.Thorough() {
		long = append(long, 130*time.Second, 310*time.Second)
	}
	stages := []int{0, 1, 5, 10, 11, 30, -1}
	defer c.Beside("longpause", len(long)*len(longs)*len(stages), 500, func(k *Case) {
		pause := long[k.Index%len(long)]
		ttl := longs[k.Index/len(long)%len(longs)]
		stage := stages[k.Index/len(long)/len(longs)]
		k.Note("idle time", ttl.String())
		k.Note("pause", pause.String())
		k.Note("pause after bytes", stage)
		k.Sig(ttl, pause, stage)
		st := &recStore{}
		rs := launch(k, "", ttl, st)
		defer rs.stop(k)
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		cl := dial(k, rs.addr)
		defer cl.conn.Close()
		e := &expect{}
		if coin(k.R) {
			pingOn(k, cl, d, e, 1)
		}
		p := d.positions(1)
		b := p.bytes()
		if stage < 0 {
			stage = len(b) - 1
		}
		was := len(e.replies)
		e.feed(p)
		if stage > 0 {
			if err := cl.write(b[:stage]); err != nil {
				k.Retryf("write failed: %v", err)
			}
		}
		cl.conn.SetReadDeadline(time.Now().Add(pause))
		n, err := cl.conn.Read(make([]byte, 1))
		if ne, ok := err.(net.Error); n > 0 || !ok || !ne.Timeout() {
			k.Failf("idle time %v: after %d bytes of a packet the device paused, and within %v the server ended the connection or sent something: %v", ttl, stage, pause, err)
		}
		if err := cl.write(b[stage:]); err != nil {
			k.Failf("idle time %v: closed in a pause of %v after %d bytes of a packet: %v", ttl, pause, stage, err)
		}
		got, err := cl.readPacket(patience)
		if err != nil {
			k.Retryf("idle time %v: no answer to a packet sent with a pause of %v after %d bytes: %v", ttl, pause, stage, err)
		}
		if m := matchReply(e.replies[was], splitReplies(k, got)[0]); m != "" {
			k.Failf("%s", m)
		}
		pingOn(k, cl, d, e, 1)
		matchOrder(k, e.stored, st.all())
		k.Count("kept_without_limit", 1)
	})()
	// a connection that keeps sending lives for ever
	lives := []time.Duration{62 * time.Second}
	if c.Thorough() {
		lives = append(lives, 130*time.Second, 310*time.Second)
	}
	defer c.Beside("lifetime", len(lives)*8, 100, func(k *Case) {
		life := lives[k.Index/8]
		ttl := []time.Duration{4 * time.Second, 0, 20 * time.Second, time.Minute}[k.Index%4]
		trickle := k.Index/4%2 == 1
		step := 600*time.Millisecond + time.Duration(k.R.Intn(200))*time.Millisecond
		k.Note("idle time", ttl.String())
		k.Note("sends every", step.String())
		k.Note("bytes of one packet", trickle)
		k.Sig(ttl, life, trickle)
		st := &recStore{}
		rs := launch(k, "", ttl, st)
		defer rs.stop(k)
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		cl := dial(k, rs.addr)
		defer cl.conn.Close()
		e := &expect{}
		began, last := time.Now(), time.Now()
		slow := false
		put := func(b []byte) {
			time.Sleep(step)
			if ttl > 0 && time.Since(last) > ttl*3/4 {
				slow = true
			}
			err := cl.write(b)
			last = time.Now()
			if err != nil && !slow {
				k.Failf("a connection that sent something every %v was closed after %v, idle time %v: %v", step, time.Since(began), ttl, err)
			}
		}
		for time.Since(began) < life && !slow {
			p := d.positions(1 + k.R.Intn(4))
			was := len(e.replies)
			e.feed(p)
			b := p.bytes()
			if trickle { // a packet takes long, too
				whole := len(b)
				for n := 1; len(b) > n; n = 1 + k.R.Intn(1+whole/12) {
					put(b[:n])
					b = b[n:]
				}
			}
			put(b)
			got, err := cl.readPacket(patience)
			if slow {
				break
			}
			if err != nil {
				k.Failf("idle time %v: no answer after %v to a device that sent something every %v: %v", ttl, time.Since(began), step, err)
			}
			if m := matchReply(e.replies[was], splitReplies(k, got)[0]); m != "" {
				k.Failf("%s", m)
			}
		}
		if slow {
			k.Count("undecided_machine_too_slow", 1)
			return
		}
		matchOrder(k, e.stored, st.all())
		k.Count("kept_for_a_minute", 1)
	})()
	// a connection that falls silent is closed, not before the idle time
	type silent struct {
		name string
		send func(r *rand.Rand, d *dev) (raw []byte, replies int)
	}
	kinds := []silent{
		{"nothing sent", func(r *rand.Rand, d *dev) ([]byte, int) { return nil, 0 }},
		{"one byte", func(r *rand.Rand, d *dev) ([]byte, int) { return []byte{1}, 0 }},
		{"part of the header", func(r *rand.Rand, d *dev) ([]byte, int) { return d.positions(1).bytes()[:2+r.Intn(8)], 0 }},
		{"only the header", func(r *rand.Rand, d *dev) ([]byte, int) { return d.positions(1).bytes()[:10], 0 }},
		{"part of the body", func(r *rand.Rand, d *dev) ([]byte, int) {
			b := d.positions(2).bytes()
			return b[:11+r.Intn(len(b)-12)], 0
		}},
		{"all but one byte", func(r *rand.Rand, d *dev) ([]byte, int) {
			b := d.positions(2).bytes()
			return b[:len(b)-1], 0
		}},
		{"a packet", func(r *rand.Rand, d *dev) ([]byte, int) { return d.positions(2).bytes(), 1 }},
		{"a packet and a half", func(r *rand.Rand, d *dev) ([]byte, int) {
			b := d.positions(2).bytes()
			return append(d.positions(1).bytes(), b[:len(b)/2]...), 1
		}},
		{"authorisation", func(r *rand.Rand, d *dev) ([]byte, int) {
			p := d.head()
			p.Records = append(p.Records, d.authRec())
			return p.bytes(), 2
		}},
		{"a refused packet", func(r *rand.Rand, d *dev) ([]byte, int) { b, _, _, _ := malform(r, d); return b, 1 }},
		{"a response", func(r *rand.Rand, d *dev) ([]byte, int) {
			p := d.head()
			p.PT, p.Resp = 0, &RResp{RPID: 1}
			return p.bytes(), 0
		}},
		{"only a confirmation", func(r *rand.Rand, d *dev) ([]byte, int) {
			p := d.head()
			p.Records = append(p.Records, d.confRec())
			return p.bytes(), 0
		}},
	}
	ttls := []time.Duration{300 * time.Millisecond, 700 * time.Millisecond, 1100 * time.Millisecond}
	reps := 2
	if c.Thorough() {
		reps = 12
	}
	// many of a kind, or of all kinds, before it falls silent
	whole := kinds[6:]
	for _, kd := range append([]silent{{}}, append(append([]silent(nil), whole[:1]...), whole[2:]...)...) {
		kd := kd
		name := "many times " + kd.name
		if kd.send == nil {
			name = "many packets of all kinds"
		}
		kinds = append(kinds, silent{name, func(r *rand.Rand, d *dev) (raw []byte, replies int) {
			for i, n := 0, 3+r.Intn(8); i < n; i++ {
				x := kd
				if x.send == nil {
					x = whole[r.Intn(len(whole))]
					for x.name == "a packet and a half" {
						x = whole[r.Intn(len(whole))]
					}
				}
				b, m := x.send(r, d)
				raw = append(raw, b...)
				replies += m
			}
			return
		}})
	}
	c.Cases("silent", len(kinds)*len(ttls)*reps, 24, func(k *Case) {
		kd := kinds[k.Index%len(kinds)]
		ttl := ttls[k.Index/len(kinds)%len(ttls)]
		k.Note("sent before the silence", kd.name)
		k.Note("idle time", ttl.String())
		k.Sig(kd.name, ttl, k.Index)
		st := &recStore{}
		rs := launch(k, "", ttl, st)
		defer rs.stop(k)
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		for late := 0; ; {
			before := time.Now()
			cl := dial(k, rs.addr)
			defer cl.conn.Close()
			raw, replies := kd.send(k.R, d)
			if len(raw) > 0 {
				before = time.Now()
				if err := cl.write(raw); err != nil {
					k.Retryf("write failed: %v", err)
				}
			}
			for i := 0; i < replies; i++ {
				if _, err := cl.readPacket(patience); err != nil {
					k.Retryf("no answer before the idle time is over: %v", err)
				}
			}
			// what a timer of this process is late by tells how much the machine is
			answered := time.Now()
			tick := make(chan time.Duration, 1)
			time.AfterFunc(ttl, func() { tick <- time.Since(answered) - ttl })
			cl.conn.SetReadDeadline(time.Now().Add(ttl + closeSlack))
			n, err := cl.conn.Read(make([]byte, 100))
			end := time.Now()
			if n > 0 {
				k.Failf("unexpected data after %s", kd.name)
			}
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				k.Retryf("a connection silent after %s was not closed within %v (idle time %v)", kd.name, ttl+closeSlack, ttl)
			}
			if took := end.Sub(before); took < ttl-20*time.Millisecond {
				k.Failf("a connection silent after %s was closed after %v, the idle time is %v", kd.name, took, ttl)
			}
			if over := end.Sub(answered) - ttl; over > ttl/4+400*time.Millisecond && over > 4*<-tick+400*time.Millisecond {
				// not once by chance, but every time
				if late++; late < 4 {
					continue
				}
				k.Failf("a connection silent after %s was closed only %v after the idle time of %v was over", kd.name, over, ttl)
			}
			break
		}
		k.Count("closed_idle", 1)
	})
	// drip sends pieces with pauses well below the idle time and tells the longest pause
	drip := func(k *Case, cl *client, pieces [][]byte, pause time.Duration) (longest time.Duration, err error) {
		last := time.Now()
		for _, p := range pieces {
			time.Sleep(pause)
			if g := time.Since(last); g > longest {
				longest = g
			}
			last = time.Now()
			if err = cl.write(p); err != nil {
				return
			}
		}
		return
	}
	pieceKinds := []string{"bytes of the header", "bytes of the body", "whole packets", "mixed", "first byte late", "slow storage", "close, then far apart"}
	c.Cases("active", len(pieceKinds)*2*reps, 24, func(k *Case) {
		kind := pieceKinds[k.Index%len(pieceKinds)]
		ttl := 1200 * time.Millisecond
		const pause = 300 * time.Millisecond
		far := kind == "close, then far apart"
		if far {
			ttl = 3 * time.Second
		}
		for try := 0; try < 5; try++ {
			st := &recStore{}
			if kind == "slow storage" {
				st.hook = func(Nav) error { time.Sleep(1700 * time.Millisecond); return nil }
			}
			rs := launch(k, "", ttl, st)
			d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
			s := &script{}
			var pieces [][]byte
			byBytes := func(b []byte, step func() int) {
				for len(b) > 0 {
					n := step()
					if n > len(b) {
						n = len(b)
					}
					pieces = append(pieces, b[:n])
					b = b[n:]
				}
			}
			switch kind {
			case "bytes of the header":
				for i := 0; i < 2; i++ {
					p := d.positions(1)
					s.good(p)
					b := p.bytes()
					byBytes(b[:9], func() int { return 1 })
					pieces = append(pieces, b[9:])
				}
			case "bytes of the body":
				p := d.positions(1)
				s.good(p)
				b := p.bytes()
				pieces = append(pieces, b[:len(b)-14])
				byBytes(b[len(b)-14:], func() int { return 1 })
			case "whole packets":
				for i := 0; i < 14; i++ {
					p := d.packet()
					s.good(p)
					pieces = append(pieces, p.bytes())
				}
			case "mixed":
				for i := 0; i < 3; i++ {
					p := d.positions(2)
					s.good(p)
					b := p.bytes()
					byBytes(b, func() int { return 1 + k.R.Intn(len(b)/3) })
				}
			case "first byte late":
				for i := 0; i < 5; i++ {
					p := d.positions(1)
					s.good(p)
					b := p.bytes()
					pieces = append(pieces, b[:1], b[1:10], b[10:])
				}
			case "close, then far apart":
				for i := 0; i < 6; i++ {
					p := d.packet()
					s.good(p)
					b := p.bytes()
					if coin(k.R) {
						pieces = append(pieces, b)
					} else {
						at := 1 + k.R.Intn(len(b)-1)
						pieces = append(pieces, b[:at], b[at:])
					}
				}
			case "slow storage":
				for i := 0; i < 4; i++ {
					p := d.positions(1)
					s.good(p)
					b := p.bytes()
					pieces = append(pieces, b[:7], b[7:20], b[20:])
				}
			}
			k.Note("pattern", kind)
			k.Note("stream", s.raw)
			k.Sig(kind, s.raw)
			cl := dial(k, rs.addr)
			var out []byte
			var rerr error
			done := make(chan struct{})
			go func() { out, rerr = cl.drain(); close(done) }()
			longest, err := time.Duration(0), error(nil)
			tooLong := ttl / 2
			if far {
				// once or twice a short pause, then one of more than four fifths of the idle time
				last := time.Now()
				short := k.R.Intn(2)
				for _, p := range pieces {
					w := ttl * 17 / 20
					if short > 0 {
						short--
						w = time.Duration(k.R.Intn(int(ttl / 3)))
					} else {
						short = 1 + k.R.Intn(2)
					}
					time.Sleep(w)
					if g := time.Since(last); g > longest {
						longest = g
					}
					last = time.Now()
					if err = cl.write(p); err != nil {
						break
					}
				}
				tooLong = ttl * 9 / 10
			} else {
				longest, err = drip(k, cl, pieces, pause)
			}
			if err == nil {
				cl.conn.CloseWrite()
			}
			<-done
			cl.conn.Close()
			rs.stop(k)
			ended := err != nil || rerr != nil
			full := false
			if !ended {
				full = len(splitReplies(k, out)) >= len(s.exp.replies)
			}
			if (ended || !full) && longest > tooLong {
				continue // this process was held up; the pause was not what it should be
			}
			if ended {
				k.Retryf("an active connection (%s, at most %v between pieces, idle time %v) was closed: write %v, read %v", kind, longest, ttl, err, rerr)
			}
			if !full {
				k.Retryf("an active connection (%s, at most %v between pieces, idle time %v) was cut off: %d of %d answers", kind, longest, ttl, len(splitReplies(k, out)), len(s.exp.replies))
			}
			matchReplies(k, s.exp.replies, splitReplies(k, out))
			k.Count("kept_active", 1)
			return
		}
		k.Count("undecided_machine_too_slow", 1)
	})
	// a client that stopped reading its answers, and falls silent when nothing more can be sent
	defer c.Beside("unread", 1, 1, func(k *Case) {
		const ttl = 1500 * time.Millisecond
		st := &recStore{}
		rs := launch(k, "", ttl, st)
		defer rs.stop(k)
		k.Sig(k.Index)
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		cl := dial(k, rs.addr)
		defer cl.conn.Close()
		cl.conn.SetReadBuffer(4096)
		cl.conn.SetWriteBuffer(64 << 10)
		var chunk []byte
		for len(chunk) < 32<<10 {
			p := d.head()
			p.Records = []RRec{{RN: 1, SST: 2, RST: 2}}
			chunk = append(chunk, p.bytes()...)
		}
		limit := time.Now().Add(60 * time.Second)
		for {
			cl.conn.SetWriteDeadline(time.Now().Add(800 * time.Millisecond))
			n, err := cl.conn.Write(chunk)
			if err == nil && time.Now().Before(limit) {
				continue
			}
			if n > 0 && time.Now().Before(limit) {
				chunk = append(chunk[n:len(chunk):len(chunk)], chunk[:n]...)
				continue
			}
			if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
				return // never blocked, or ended otherwise
			}
			break
		}
		k.Count("blocked_writers", 1)
		open := func() bool {
			rc, err := cl.conn.SyscallConn()
			if err != nil {
				return false
			}
			state := byte(0)
			rc.Control(func(fd uintptr) {
				var info [256]byte
				l := uint32(len(info))
				_, _, e := syscall.Syscall6(syscall.SYS_GETSOCKOPT, fd, syscall.IPPROTO_TCP, 11, uintptr(unsafe.Pointer(&info[0])), uintptr(unsafe.Pointer(&l)), 0)
				if e == 0 {
					state = info[0]
				}
			})
			return state == 1 // established
		}
		till := time.Now().Add(ttl + 6*time.Second)
		for open() && time.Now().Before(till) {
			time.Sleep(50 * time.Millisecond)
		}
		if open() {
			k.c.Known(k, "unread-silent", fmt.Sprintf("a client that does not read its answers and has been silent for %v is still connected, idle time %v", ttl+6*time.Second, ttl))
		} else {
			k.Count("closed_idle", 1)
		}
	})()
	// activity of one connection does not keep another one open
	c.Cases("neighbours", 2*reps, 24, func(k *Case) {
		const ttl = 900 * time.Millisecond
		k.Sig(k.Index)
		rs := launch(k, "", ttl, &recStore{})
		defer rs.stop(k)
		quiet := dial(k, rs.addr)
		defer quiet.conn.Close()
		busy := dial(k, rs.addr)
		defer busy.conn.Close()
		end := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		go func() {
			defer wg.Done()
			go io.Copy(io.Discard, busy.conn)
			for {
				select {
				case <-end:
					return
				case <-time.After(50 * time.Millisecond):
					busy.write(d.packet().bytes())
				}
			}
		}()
		quiet.conn.SetReadDeadline(time.Now().Add(ttl + closeSlack))
		_, err := quiet.conn.Read(make([]byte, 1))
		close(end)
		wg.Wait()
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			k.Retryf("a silent connection was not closed within %v while another one was active", ttl+closeSlack)
		}
		k.Count("closed_idle", 1)
	})
	// no limit, or a limit that is far away
	free := []time.Duration{0, -1, -time.Second, -time.Hour, time.Minute, time.Hour}
	c.Cases("unlimited", len(free)*reps, 24, func(k *Case) {
		ttl := free[k.Index%len(free)]
		k.Note("idle time", ttl.String())
		k.Sig(ttl, k.Index)
		st := &recStore{}
		rs := launch(k, "", ttl, st)
		defer rs.stop(k)
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		cl := dial(k, rs.addr)
		defer cl.conn.Close()
		e := &expect{}
		pause := 2500 * time.Millisecond
		time.Sleep(pause)
		pingOn(k, cl, d, e, 2)
		time.Sleep(pause)
		p := d.positions(1)
		b := p.bytes()
		was := len(e.replies)
		e.feed(p)
		if err := cl.write(b[:12]); err != nil {
			k.Failf("idle time %v: closed after a pause of %v", ttl, pause)
		}
		time.Sleep(pause)
		if err := cl.write(b[12:]); err != nil {
			k.Failf("idle time %v: closed after a pause of %v inside a packet", ttl, pause)
		}
		got, err := cl.readPacket(patience)
		if err != nil {
			k.Failf("idle time %v: no answer after a pause inside a packet: %v", ttl, err)
		}
		if m := matchReply(e.replies[was], splitReplies(k, got)[0]); m != "" {
			k.Failf("%s", m)
		}
		pingOn(k, cl, d, e, 2)
		matchOrder(k, e.stored, st.all())
		k.Count("kept_without_limit", 1)
	})
}

// ---- C20 ----

// serverGoroutines lists the goroutines that run code of the server package.
func serverGoroutines() []string {
	buf := make([]byte, 8<<20)
	var out []string
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if strings.Contains(g, "cli/receiver/server.") && !strings.Contains(g, "main.launchRepo.func") {
			out = append(out, g)
		} else if strings.Contains(g, "created by "+repoModule+"cli/receiver/server") {
			out = append(out, g)
		}
	}
	return out
}

func runC20(c *Ctx) {
	c.Require("lives", "ports_free", "quiet_after_stop", "stops")
	situations := []string{"nothing connected", "silent clients", "busy clients", "half a packet", "storage blocked", "connects while stopping", "after use", "clients reset"}
	reps := c.N(4)
	c.Cases("lives", len(situations)*reps, 1, func(k *Case) {
		r := k.R
		what := situations[k.Index%len(situations)]
		k.Note("situation", what)
		ttl := []time.Duration{0, time.Hour, 200 * time.Millisecond}[r.Intn(3)]
		stoppers := []int{1, 1, 2, 5}[r.Intn(4)]
		k.Note("goroutines that stop", stoppers)
		k.Sig(what, ttl, stoppers, k.Index)
		var st recStore
		block := make(chan struct{})
		if what == "storage blocked" {
			st.hook = func(Nav) error {
				select {
				case <-block:
				case <-time.After(patience):
				}
				return nil
			}
		}
		rs := launch(k, "", ttl, &st)
		var conns []net.Conn
		closeAll := func() {
			for _, cn := range conns {
				if what == "clients reset" {
					rst(cn)
				} else {
					cn.Close()
				}
			}
			conns = nil
		}
		defer closeAll()
		end := make(chan struct{})
		var wg sync.WaitGroup
		d := &dev{r: subRand(r), pid: genU16(r), noTerm: true}
		n := 1 + r.Intn(6)
		switch what {
		case "silent clients", "clients reset":
			for i := 0; i < n; i++ {
				conns = append(conns, dial(k, rs.addr).conn)
			}
		case "half a packet":
			for i := 0; i < n; i++ {
				cl := dial(k, rs.addr)
				b := d.positions(1).bytes()
				cl.write(b[:1+r.Intn(len(b)-1)])
				conns = append(conns, cl.conn)
			}
		case "storage blocked":
			cl := dial(k, rs.addr)
			cl.write(d.positions(2).bytes())
			conns = append(conns, cl.conn)
			time.Sleep(5 * time.Millisecond)
		case "busy clients":
			for i := 0; i < n; i++ {
				cl := dial(k, rs.addr)
				conns = append(conns, cl.conn)
				dd := &dev{r: subRand(r), pid: genU16(r), noTerm: true}
				wg.Add(2)
				go func() { defer wg.Done(); io.Copy(io.Discard, cl.conn) }()
				go func() {
					defer wg.Done()
					for {
						select {
						case <-end:
							return
						default:
						}
						if cl.write(dd.packet().bytes()) != nil {
							return
						}
						time.Sleep(time.Millisecond)
					}
				}()
			}
			time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
		case "connects while stopping":
			for i := 0; i < 4; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case <-end:
							return
						default:
						}
						if cn, err := net.DialTimeout("tcp", rs.addr, time.Second); err == nil {
							cn.Write([]byte{1})
							cn.Close()
						} else {
							time.Sleep(time.Millisecond)
						}
					}
				}()
			}
			time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
		case "after use":
			e := pingPong(k, rs.addr, d, 5)
			matchOrder(k, e.stored, st.all())
		}
		// stop, possibly from several goroutines, possibly twice
		var fs []func(*Case)
		again := coin(r)
		for i := 0; i < stoppers; i++ {
			fs = append(fs, func(k *Case) {
				rs.srv.Stop()
				if again {
					rs.srv.Stop()
				}
				k.Count("stops", 1)
			})
		}
		stopped := make(chan struct{})
		go func() {
			defer close(stopped)
			together(k, fs...)
		}()
		select {
		case <-stopped:
		case <-time.After(patience):
			k.Retryf("Stop did not return (%s)", what)
		}
		select {
		case <-rs.done:
		case <-time.After(patience):
			k.Retryf("Run did not return after Stop (%s)", what)
		}
		// nothing is served any more
		for i := 0; i < 2; i++ {
			if cn, err := net.DialTimeout("tcp", rs.addr, 5*time.Second); err == nil {
				cn.SetDeadline(time.Now().Add(500 * time.Millisecond))
				cn.Write(d.positions(1).bytes())
				if m, _ := cn.Read(make([]byte, 1)); m > 0 {
					cn.Close()
					k.Failf("a connection made after Stop was served (%s)", what)
				}
				cn.Close()
				k.Failf("a connection was accepted after Stop returned (%s)", what)
			}
		}
		k.Count("quiet_after_stop", 1)
		l, err := net.Listen("tcp", rs.addr)
		if err != nil {
			k.Retryf("the port is not free after Stop (%s): %v", what, err)
		}
		l.Close()
		k.Count("ports_free", 1)
		// a new life on the same address while old connections are still open
		if coin(r) {
			st2 := &recStore{}
			rs2 := launch(k, rs.addr, 0, st2)
			d2 := &dev{r: subRand(r), pid: genU16(r), noTerm: true, oid: goodBase}
			e := pingPong(k, rs2.addr, d2, 4)
			matchOrder(k, e.stored, navsOf(st2.all(), goodBase))
			rs2.srv.Stop()
			select {
			case <-rs2.done:
			case <-time.After(patience):
				k.Retryf("Run of the second life did not return after Stop")
			}
			k.Count("lives", 1)
		}
		close(end)
		close(block)
		closeAll()
		wg.Wait()
		if !waitFor(k, func() bool { return len(serverGoroutines()) == 0 }) {
			g := serverGoroutines()
			k.Note("goroutine", g[0])
			k.Retryf("%d goroutines of the server remain after Stop and the end of all clients (%s)", len(g), what)
		}
		k.Count("lives", 1)
	})
	// stop in the first moments of listening
	c.Cases("early", c.N(60), 1, func(k *Case) {
		addr := freshAddr()
		repo := storage.NewRepository()
		repo.AddStore(&recStore{})
		srv := server.New(addr, 0, repo)
		done := make(chan struct{})
		go func() { defer close(done); srv.Run() }()
		limit := time.Now().Add(patience)
		for {
			cn, err := net.DialTimeout("tcp", addr, 5*time.Second)
			if err == nil {
				// it listens
				go func() { srv.Stop() }()
				if k.Index%2 == 0 {
					srv.Stop()
				}
				cn.Close()
				break
			}
			select {
			case <-done:
				return // the address was taken
			default:
			}
			if time.Now().After(limit) {
				k.Retryf("the server does not listen")
			}
			runtime.Gosched()
		}
		select {
		case <-done:
		case <-time.After(patience):
			k.Retryf("Run did not return although Stop was called as soon as it listened")
		}
		k.Sig(k.Index)
		k.Count("lives", 1)
		k.Count("stops", 1)
		if !waitFor(k, func() bool { return len(serverGoroutines()) == 0 }) {
			k.Retryf("goroutines of the server remain")
		}
	})
	// many lives on one address, each used
	c.Cases("repeated", c.N(2), 1, func(k *Case) {
		addr := ""
		for i := 0; i < 15; i++ {
			st := &recStore{}
			rs := launch(k, addr, 0, st)
			addr = rs.addr
			d := &dev{r: subRand(k.R), pid: genU16(k.R), noTerm: true}
			e := pingPong(k, addr, d, 4)
			matchOrder(k, e.stored, st.all())
			rs.srv.Stop()
			select {
			case <-rs.done:
			case <-time.After(patience):
				k.Retryf("Run did not return in life %d", i)
			}
			k.Count("lives", 1)
			k.Count("stops", 1)
		}
		k.Sig(k.Index)
	})
	// the same server object in several lives
	c.Cases("samevalue", c.N(2), 1, func(k *Case) {
		addr := freshAddr()
		repo := storage.NewRepository()
		st := &recStore{}
		repo.AddStore(st)
		srv := server.New(addr, 0, repo)
		d := &dev{r: subRand(k.R), pid: genU16(k.R), noTerm: true}
		var want []expNav
		for i := 0; i < 5; i++ {
			done := make(chan struct{})
			go func() { defer close(done); srv.Run() }()
			if !waitFor(k, func() bool {
				cn, err := net.DialTimeout("tcp", addr, time.Second)
				if err == nil {
					cn.Close()
				}
				select {
				case <-done:
					return true
				default:
				}
				return err == nil
			}) {
				k.Retryf("life %d does not listen", i)
			}
			select {
			case <-done:
				if i == 0 {
					return // the address was taken
				}
				k.Retryf("life %d of the same server ended at once", i)
			default:
			}
			e := pingPong(k, addr, d, 3)
			want = append(want, e.stored...)
			srv.Stop()
			select {
			case <-done:
			case <-time.After(patience):
				k.Retryf("Run did not return in life %d of the same server", i)
			}
			k.Count("lives", 1)
			k.Count("stops", 1)
		}
		matchOrder(k, want, st.all())
		k.Sig(k.Index)
	})
}

// ---- C21 ----

func runC21(c *Ctx) {
	c.Require("answers_compared", "stored_compared", "values_compared", "switches_between_devices")
	run := func(k *Case, devices, packets int, mode string) {
		r := k.R
		salt := r.Uint32()
		fails := func(id uint32) bool {
			h := (id ^ salt) * 2654435761
			return mode == "rough" && h>>28 < 5
		}
		var sync1 sync.Mutex
		shared := map[uint32]int{}
		st := &recStore{}
		rr := subRand(r)
		var rmu sync.Mutex
		st.hook = func(n Nav) error {
			rmu.Lock()
			x := rr.Intn(16)
			rmu.Unlock()
			switch {
			case x == 0:
				time.Sleep(time.Duration(50+20*x) * time.Microsecond)
			case x < 8:
				runtime.Gosched()
			}
			sync1.Lock()
			shared[*n.Client]++
			sync1.Unlock()
			if fails(n.id()) {
				return errStore
			}
			return nil
		}
		st2 := &recStore{}
		rs := launch(k, "", 0, st, st2)
		defer rs.stop(k)
		devs := make([]*dev, devices)
		scripts := make([]*script, devices)
		exps := make([]*expect, devices)
		var fs []func(*Case)
		t0 := time.Now().Unix()
		for i := range devs {
			i := i
			// consecutive identifiers, equal packet and record numbers: nothing but the data tells devices apart
			devs[i] = &dev{r: subRand(r), oid: goodBase + uint32(i), serial: uint32(i) << 16, pid: 1, noTerm: true}
			m := mode
			if mode == "mixed" {
				m = []string{"pipelined", "pingpong", "cut", "identified"}[i%4]
			}
			switch m {
			case "rough": // refused packets, identification and failing saves among the rest
				devs[i].noTerm = false
				s := &script{}
				s.exp.fails = fails
				for j := 0; j < packets; j++ {
					switch x := devs[i].r.Intn(8); x {
					case 0, 1:
						b, pid, code, _ := malform(devs[i].r, devs[i])
						s.add(b)
						s.exp.refuse(pid, code)
					case 2, 3: // identifies itself, then sends without an identifier
						p := devs[i].head()
						t := devs[i].termRec()
						if x == 3 {
							t = devs[i].authRec()
						}
						q := devs[i].posRec()
						q.OBFE, q.OID = x == 3, devs[i].oid
						p.Records = []RRec{t, q}
						s.good(p)
					default:
						s.good(devs[i].packet())
					}
				}
				scripts[i] = s
				exps[i] = &s.exp
				fs = append(fs, func(k *Case) {
					matchReplies(k, s.exp.replies, splitReplies(k, play(k, rs.addr, s.raw, nil, 0)))
				})
			case "pingpong":
				fs = append(fs, func(k *Case) { exps[i] = pingPong(k, rs.addr, devs[i], packets) })
			case "identified":
				// identified once, then no identifiers in the records
				devs[i].oid = 0
				s := &script{}
				s.exp.client = goodBase + uint32(i)
				p := devs[i].head()
				p.Records = []RRec{{RN: 1, SST: 1, RST: 1, OBFE: true, OID: goodBase + uint32(i), Subs: []RSub{{tPos, devs[i].pos()}}}}
				s.good(p)
				for j := 0; j < packets; j++ {
					q := devs[i].positions(1 + devs[i].r.Intn(3))
					for x := range q.Records {
						q.Records[x].OBFE, q.Records[x].OID = false, 0
					}
					s.good(q)
				}
				scripts[i] = s
				exps[i] = &s.exp
				fs = append(fs, func(k *Case) {
					matchReplies(k, s.exp.replies, splitReplies(k, play(k, rs.addr, s.raw, nil, 0)))
				})
			default:
				s := makeScript(devs[i], packets)
				scripts[i] = s
				exps[i] = &s.exp
				var pieces [][]byte
				if m == "cut" {
					pieces, _ = cutStream(devs[i].r, s.raw, devs[i].r.Intn(3))
					if len(pieces) > 400 {
						pieces = nil
					}
				}
				fs = append(fs, func(k *Case) {
					matchReplies(k, s.exp.replies, splitReplies(k, play(k, rs.addr, s.raw, pieces, 0)))
				})
			}
		}
		together(k, fs...)
		t1 := time.Now().Unix()
		all := st.all()
		total := 0
		kept := make([][]expNav, len(devs)) // what the failing storage took
		for i := range devs {
			for _, w := range exps[i].stored {
				if !fails(w.id) {
					kept[i] = append(kept[i], w)
				}
			}
			total += len(kept[i])
		}
		if len(all) != total {
			k.Note("devices", devices)
			seen := map[uint32]int{}
			for _, n := range all {
				seen[n.id()]++
			}
			for i := range exps {
				for _, w := range kept[i] {
					seen[w.id]--
				}
			}
			for i := range exps {
				for _, w := range kept[i] {
					if seen[w.id] != 0 {
						k.Failf("record %d of device %d was stored %+d times too often (%d records in all, want %d)", w.id, i, seen[w.id], len(all), total)
					}
				}
			}
			k.Failf("%d records stored, want %d", len(all), total)
		}
		all2 := st2.all()
		byDev := func(all []Nav) map[uint32][]Nav {
			out := map[uint32][]Nav{}
			for _, n := range all {
				out[n.id()>>16] = append(out[n.id()>>16], n)
			}
			return out
		}
		a, b := byDev(all), byDev(all2)
		var order []byte
		sw := 0
		for i, n := range all {
			order = append(order, byte(n.id()>>16), byte(n.id()>>24))
			if i > 0 && n.id()>>16 != all[i-1].id()>>16 {
				sw++
			}
		}
		k.Sig(order)
		k.Count("switches_between_devices", int64(sw))
		k.Count("saves_overlapping_max", int64(atomic.LoadInt32(&st.maxAct)))
		for i := range devs {
			got := a[uint32(i)]
			matchOrder(k, kept[i], got)
			matchOrder(k, exps[i].stored, b[uint32(i)])
			for j, n := range got {
				if *n.Client != kept[i][j].client {
					k.Failf("record %d of device %x was stored for device %x", j, kept[i][j].client, *n.Client)
				}
				matchValues(k, kept[i][j], n, t0, t1)
			}
		}
	}
	c.Cases("pipelined", c.N(5), 1, func(k *Case) { run(k, 40, 25, "pipelined") })
	c.Cases("pingpong", c.N(4), 1, func(k *Case) { run(k, 40, 12, "pingpong") })
	c.Cases("mixed", c.N(6), 1, func(k *Case) { run(k, 60, 12, "mixed") })
	c.Cases("rough", c.N(4), 1, func(k *Case) { run(k, 40, 30, "rough") })
	c.Cases("few", c.N(20), 3, func(k *Case) { run(k, 2+k.R.Intn(4), 30, "mixed") })
	c.Cases("crowd", c.N(1), 1, func(k *Case) { run(k, 300, 4, "mixed") })
	// very many devices connected at the same time, all of which stay
	c.Cases("open", 1, 1, func(k *Case) {
		n := manyConns(8500)
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		type one struct {
			d  *dev
			e  expect
			cl *client
		}
		var all []*one
		defer func() {
			for _, o := range all {
				rst(o.cl.conn)
			}
		}()
		t0 := time.Now().Unix()
		send := func(o *one) {
			p := o.d.positions(1)
			o.e.feed(p)
			if err := o.cl.write(p.bytes()); err != nil {
				k.Failf("device %x of %d connected: %v", o.d.oid, len(all), err)
			}
		}
		answer := func(o *one) {
			b, err := o.cl.readPacket(patience)
			if err != nil {
				k.Failf("device %x of %d connected devices is not answered: %v", o.d.oid-goodBase, len(all), err)
			}
			matchReplies(k, o.e.replies[len(o.e.replies)-1:], splitReplies(k, b))
			k.Count("answers_compared", 1)
		}
		for i := 0; i < n; i++ {
			o := &one{d: &dev{r: subRand(k.R), oid: goodBase + uint32(i), noTerm: true, serial: uint32(i) << 16, pid: 1}, cl: dial(k, rs.addr)}
			all = append(all, o)
			if i%16 == 0 { // some are served while others come
				send(o)
				answer(o)
			}
		}
		for _, i := range k.R.Perm(n) {
			send(all[i])
		}
		for _, i := range k.R.Perm(n) {
			answer(all[i])
		}
		t1 := time.Now().Unix()
		by := map[uint32][]Nav{}
		for _, x := range st.all() {
			by[*x.Client] = append(by[*x.Client], x)
		}
		for _, o := range all {
			got := by[o.d.oid]
			matchOrder(k, o.e.stored, got)
			for j, w := range o.e.stored {
				matchValues(k, w, got[j], t0, t1)
			}
		}
		k.Sig(k.Index)
		k.Count("open_connections", int64(n))
	})
}
