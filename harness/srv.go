//go:build go1.22

package main

// Running the receiver in this process: a recording storage, clients that talk to it
// over TCP, and a reference model of what it must answer and store.

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/server"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
)

const patience = 30 * time.Second

// Nav is the documented JSON of a stored record.
type Nav struct {
	Client    *uint32  `json:"client"`
	PacketID  *uint32  `json:"packet_id"`
	NavTime   *int64   `json:"navigation_unix_time"`
	RecvTime  *int64   `json:"received_unix_time"`
	Lat       *float64 `json:"latitude"`
	Lon       *float64 `json:"longitude"`
	Speed     *uint16  `json:"speed"`
	Pdop      *uint16  `json:"pdop"`
	Hdop      *uint16  `json:"hdop"`
	Vdop      *uint16  `json:"vdop"`
	Nsat      *uint8   `json:"nsat"`
	Ns        *uint16  `json:"ns"`
	Course    *uint16  `json:"course"`
	AnSensors []NavAn  `json:"an_sensors"`
	Liquid    []NavLiq `json:"liquid_sensors"`
}
type NavAn struct {
	N uint8  `json:"sensor_number"`
	V uint32 `json:"value"`
}
type NavLiq struct {
	N  uint8  `json:"sensor_number"`
	E  string `json:"error_flag"`
	Mm uint32 `json:"value_mm"`
	L  uint32 `json:"value_l"`
}

func parseNav(b []byte) (Nav, error) {
	var n Nav
	if err := json.Unmarshal(b, &n); err != nil {
		return n, err
	}
	if n.Client == nil || n.PacketID == nil || n.NavTime == nil || n.RecvTime == nil || n.Lat == nil || n.Lon == nil || n.Speed == nil ||
		n.Pdop == nil || n.Hdop == nil || n.Vdop == nil || n.Nsat == nil || n.Ns == nil || n.Course == nil {
		return n, fmt.Errorf("a documented field is missing: %s", b)
	}
	return n, nil
}

// id is the serial number that generated positions carry as navigation time.
func (n Nav) id() uint32 { return uint32(*n.NavTime - epoch2010) }

type toBytes = interface{ ToBytes() ([]byte, error) }

// recStore records everything it is given.
type recStore struct {
	mu     sync.Mutex
	raw    [][]byte
	navs   []Nav
	bad    []string
	hook   func(n Nav) error // called before recording; may block or fail
	after  func(n Nav)       // called when the save is about to return success
	active int32
	maxAct int32
}

func (s *recStore) Save(m interface{ ToBytes() ([]byte, error) }) error {
	a := atomic.AddInt32(&s.active, 1)
	defer atomic.AddInt32(&s.active, -1)
	for {
		old := atomic.LoadInt32(&s.maxAct)
		if a <= old || atomic.CompareAndSwapInt32(&s.maxAct, old, a) {
			break
		}
	}
	b, err := m.ToBytes()
	if err != nil {
		s.mu.Lock()
		s.bad = append(s.bad, err.Error())
		s.mu.Unlock()
		return err
	}
	n, err := parseNav(b)
	if err != nil {
		s.mu.Lock()
		s.bad = append(s.bad, err.Error())
		s.mu.Unlock()
		return err
	}
	if s.hook != nil {
		if err := s.hook(n); err != nil {
			return err
		}
	}
	s.mu.Lock()
	s.raw = append(s.raw, append([]byte(nil), b...))
	s.navs = append(s.navs, n)
	s.mu.Unlock()
	if s.after != nil {
		s.after(n)
	}
	return nil
}

func (s *recStore) all() []Nav {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Nav(nil), s.navs...)
}

// ---- addresses ----

var addrSeq uint32

// freshAddr gives an address no other server of this run uses: every one gets its own
// loopback address, and the port lies below the range used for outgoing connections.
func freshAddr() string {
	n := atomic.AddUint32(&addrSeq, 1)
	pid := uint32(os.Getpid())
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, 1+(n/240)%250, 1+n%240, 20000+(pid/250+n)%9000)
}

type runningServer struct {
	addr string
	srv  interface {
		Run()
		Stop() error
	}
	done chan struct{}
}

// launch starts a server on addr and waits until it accepts connections.
func launch(k *Case, addr string, ttl time.Duration, stores ...storage.Saver) *runningServer {
	repo := storage.NewRepository()
	for _, s := range stores {
		repo.AddStore(s)
	}
	return launchRepo(k, addr, ttl, repo)
}

func launchRepo(k *Case, addr string, ttl time.Duration, repo *storage.Repository) *runningServer {
	for try := 0; ; try++ {
		a := addr
		if a == "" {
			a = freshAddr()
		}
		srv := server.New(a, ttl, repo)
		rs := &runningServer{addr: a, srv: &srv, done: make(chan struct{})}
		go func() {
			defer close(rs.done)
			srv.Run()
		}()
		limit := time.Now().Add(patience)
		for {
			c, err := net.DialTimeout("tcp", a, 5*time.Second)
			if err == nil {
				c.Close()
				return rs
			}
			ended := false
			select {
			case <-rs.done:
				ended = true
			default:
			}
			if ended && addr == "" && try < 5 {
				break // the address was taken by someone else
			}
			if ended {
				k.Retryf("the server ended at once on %s", a)
			}
			if time.Now().After(limit) {
				k.Retryf("the server does not accept connections on %s: %v", a, err)
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
}

var stopLate int32 // a Stop did not end its Run in time

func (rs *runningServer) stop(k *Case) {
	rs.srv.Stop()
	d := 3 * time.Second
	if atomic.LoadInt32(&stopLate) != 0 {
		d = 0
	}
	select {
	case <-rs.done:
	case <-time.After(d):
		// C20 decides about this; here it would only keep a goroutine
		atomic.StoreInt32(&stopLate, 1)
	}
}

// ---- client ----

type client struct {
	k    *Case
	conn *net.TCPConn
}

func dial(k *Case, addr string) *client {
	var last error
	for i := 0; i < 5; i++ {
		c, err := net.DialTimeout("tcp", addr, patience)
		if err == nil {
			t := c.(*net.TCPConn)
			t.SetNoDelay(true)
			return &client{k, t}
		}
		last = err
		time.Sleep(50 * time.Millisecond)
	}
	k.Retryf("cannot connect to the receiver: %v", last)
	return nil
}

func (c *client) write(b []byte) error {
	c.conn.SetWriteDeadline(time.Now().Add(patience))
	_, err := c.conn.Write(b)
	return err
}

// readPacket reads one packet by its lengths.
func (c *client) readPacket(d time.Duration) ([]byte, error) {
	c.conn.SetReadDeadline(time.Now().Add(d))
	return readPacketFrom(c.conn)
}

func readPacketFrom(r io.Reader) ([]byte, error) {
	h := make([]byte, 10)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	n := int(h[3])
	if fdl := int(binary.LittleEndian.Uint16(h[5:])); fdl > 0 {
		n += fdl + 2
	}
	if n < 11 {
		return h, fmt.Errorf("answer with header length %d", h[3])
	}
	b := make([]byte, n)
	copy(b, h)
	if _, err := io.ReadFull(r, b[10:]); err != nil {
		return b, err
	}
	return b, nil
}

// drain reads everything until the server closes the connection.
func (c *client) drain() ([]byte, error) {
	var out []byte
	buf := make([]byte, 64<<10)
	for {
		c.conn.SetReadDeadline(time.Now().Add(patience))
		n, err := c.conn.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// ---- reference model ----

type expConf struct {
	RN       uint16
	Optional bool // record made only of confirmations: the property does not say
	Fail     bool // a storage failed
}

type expReply struct {
	auth  bool
	rpid  uint16
	code  int // 0, an exact code, or -1 for any code but 0
	confs []expConf
	svc   int // the service all records of the packet come from, -1 if several
}

type expNav struct {
	id, client, pid uint32
	rec             RRec
	pos             RPos
}

type expect struct {
	client  uint32
	replies []expReply
	stored  []expNav
	fails   func(id uint32) bool // which saves fail; nil means none
}

// feed advances the model by one accepted packet.
func (e *expect) feed(p RPkg) {
	if p.PT != 1 {
		return
	}
	auth := false
	var confs []expConf
	must := 0
	for _, r := range p.Records {
		if r.OBFE {
			e.client = r.OID
		}
		var pos *RPos
		pid := uint32(p.PID)
		var c110, c111 *uint32
		onlyConf := len(r.Subs) > 0
		for i := range r.Subs {
			s := r.Subs[i]
			if s.Type != tConf {
				onlyConf = false
			}
			switch d := s.Data.(type) {
			case RTerm:
				if !r.OBFE { // its own identifier comes first
					e.client = d.TID
				}
				auth = true
			case RAuth:
				auth = true
			case RPos:
				d2 := d
				pos = &d2
			case RAbsCnt:
				v := d.V
				switch d.N {
				case 110:
					c110 = &v
				case 111:
					c111 = &v
				}
			}
		}
		if c110 != nil {
			pid = *c110 & 0xffffff
			if c111 != nil {
				pid |= *c111 << 24
			}
		}
		confs = append(confs, expConf{RN: r.RN, Optional: onlyConf})
		if !onlyConf {
			must++
		}
		if pos != nil {
			e.stored = append(e.stored, expNav{id: pos.NTM, client: e.client, pid: pid, rec: r, pos: *pos})
			if e.fails != nil && e.fails(pos.NTM) {
				confs[len(confs)-1].Fail = true
			}
		}
	}
	if must == 0 {
		return // only confirmations
	}
	svc := int(p.Records[0].SST)
	for _, r := range p.Records {
		if int(r.SST) != svc {
			svc = -1
			break
		}
	}
	e.replies = append(e.replies, expReply{rpid: p.PID, confs: confs, svc: svc})
	if auth {
		e.replies = append(e.replies, expReply{auth: true})
	}
}

// refuse adds the answer to a malformed packet.
func (e *expect) refuse(pid uint16, code int) {
	e.replies = append(e.replies, expReply{rpid: pid, code: code})
}

// splitReplies parses what the server sent.
func splitReplies(k *Case, b []byte) []RPkg {
	var out []RPkg
	for len(b) > 0 {
		p, n, err := parsePacket(b)
		if err != nil {
			k.Note("answer_bytes", b)
			k.Failf("answer %d is not a well-formed packet: %v", len(out), err)
		}
		out = append(out, p)
		b = b[n:]
	}
	return out
}

func confsOf(p RPkg) []RConf {
	var out []RConf
	if p.Resp == nil {
		return nil
	}
	for _, r := range p.Resp.SDR {
		for _, s := range r.Subs {
			if c, ok := s.Data.(RConf); ok {
				out = append(out, c)
			}
		}
	}
	return out
}

// isAuthAnswer says whether p is the answer to an authorisation, or why not.
func isAuthAnswer(p RPkg) string {
	if p.PT != 1 {
		return fmt.Sprintf("packet type %d", p.PT)
	}
	n := 0
	for _, r := range p.Records {
		if r.SST != 1 || r.RST != 1 {
			return fmt.Sprintf("service %d/%d instead of the authorisation service", r.SST, r.RST)
		}
		for _, s := range r.Subs {
			if c, ok := s.Data.(RRes); ok {
				n++
				if c.RCD != 0 {
					return fmt.Sprintf("result code %d", c.RCD)
				}
			} else {
				return fmt.Sprintf("subrecord type %d", s.Type)
			}
		}
	}
	if n != 1 {
		return fmt.Sprintf("%d result codes", n)
	}
	return ""
}

// plainHeader tells what in the header of an answer a device could not be expected to read.
func plainHeader(p RPkg) string {
	if p.PRV != 1 || p.PRF != 0 || p.ENA != 0 || p.CMP || p.RTE || p.HE != 0 {
		return fmt.Sprintf("the answer is not a plain packet of protocol version 1: version %d, prefix %d, encryption %d, compressed %v, routed %v, header encoding %d", p.PRV, p.PRF, p.ENA, p.CMP, p.RTE, p.HE)
	}
	return ""
}

func matchReply(want expReply, got RPkg) string {
	if m := plainHeader(got); m != "" {
		return m
	}
	if want.auth {
		if m := isAuthAnswer(got); m != "" {
			return "want the authorisation result: " + m
		}
		return ""
	}
	if got.PT != 0 || got.Resp == nil {
		return fmt.Sprintf("want a response to packet %d, got packet type %d", want.rpid, got.PT)
	}
	if got.Resp.RPID != want.rpid {
		return fmt.Sprintf("want a response to packet %d, it names packet %d", want.rpid, got.Resp.RPID)
	}
	if want.code == -1 && got.Resp.PR == 0 || want.code >= 0 && int(got.Resp.PR) != want.code {
		return fmt.Sprintf("response to packet %d carries result %d, want %d", want.rpid, got.Resp.PR, want.code)
	}
	if want.code != 0 {
		return ""
	}
	for _, r := range got.Resp.SDR {
		if want.svc >= 0 && (int(r.SST) != want.svc || int(r.RST) != want.svc) {
			return fmt.Sprintf("the confirmations of packet %d are of service %d for %d, its records of service %d", want.rpid, r.SST, r.RST, want.svc)
		}
	}
	confs := confsOf(got)
	j := 0
	for _, w := range want.confs {
		if w.Optional {
			if j < len(confs) && confs[j].CRN == w.RN {
				// may or may not be this record's; decided by what must follow
				rest := 0
				for _, x := range want.confs {
					if !x.Optional {
						rest++
					}
				}
				if len(confs) == len(want.confs) && rest != len(confs) {
					j++
				}
			}
			continue
		}
		if j >= len(confs) {
			return fmt.Sprintf("record %d of packet %d is not confirmed (%d confirmations)", w.RN, want.rpid, len(confs))
		}
		if confs[j].CRN != w.RN {
			return fmt.Sprintf("confirmation %d of packet %d names record %d, want %d", j, want.rpid, confs[j].CRN, w.RN)
		}
		if w.Fail && confs[j].RST == 0 {
			return fmt.Sprintf("record %d of packet %d is confirmed with status 0 although saving it failed", w.RN, want.rpid)
		}
		if !w.Fail && confs[j].RST != 0 {
			return fmt.Sprintf("record %d of packet %d is confirmed with status %d", w.RN, want.rpid, confs[j].RST)
		}
		j++
	}
	if j != len(confs) {
		return fmt.Sprintf("%d confirmations for packet %d, want %d", len(confs), want.rpid, j)
	}
	return ""
}

func matchReplies(k *Case, want []expReply, got []RPkg) {
	for i := range want {
		if i >= len(got) {
			k.Failf("answer %d of %d is missing (response to packet %d, authorisation=%v)", i, len(want), want[i].rpid, want[i].auth)
		}
		if m := matchReply(want[i], got[i]); m != "" {
			k.Failf("answer %d: %s", i, m)
		}
	}
	if len(got) > len(want) {
		k.Failf("%d answers, want %d; the first superfluous one is of type %d", len(got), len(want), got[len(want)].PT)
	}
	k.Count("answers_compared", int64(len(got)))
}

// matchOrder compares the sequence of stored records by identity.
func matchOrder(k *Case, want []expNav, got []Nav) {
	for i := range want {
		if i >= len(got) {
			k.Failf("record %d of %d (serial %d) was not stored", i, len(want), want[i].id)
		}
		if got[i].id() != want[i].id {
			k.Failf("stored record %d is serial %d, want %d", i, got[i].id(), want[i].id)
		}
	}
	if len(got) > len(want) {
		k.Failf("%d records stored, want %d; superfluous: serial %d", len(got), len(want), got[len(want)].id())
	}
	k.Count("stored_compared", int64(len(got)))
}

// matchValues compares every value of a stored record except the device.
func matchValues(k *Case, w expNav, n Nav, t0, t1 int64) {
	fail := func(what string, want, got interface{}) {
		k.Note("record", recsBytes([]RRec{w.rec}))
		k.Failf("record with serial %d: %s stored as %v, sent %v", w.id, what, got, want)
	}
	if *n.NavTime != epoch2010+int64(w.pos.NTM) {
		fail("navigation time", epoch2010+int64(w.pos.NTM), *n.NavTime)
	}
	if *n.RecvTime < t0-1 || *n.RecvTime > t1+1 {
		fail("receive time", fmt.Sprintf("%d..%d", t0, t1), *n.RecvTime)
	}
	if *n.PacketID != w.pid {
		fail("packet number", w.pid, *n.PacketID)
	}
	lat, lon := latDeg(w.pos.LAT), lonDeg(w.pos.LONG)
	if w.pos.LAHS {
		lat = -lat
	}
	if w.pos.LOHS {
		lon = -lon
	}
	if math.Abs(*n.Lat-lat) > 1e-9 {
		fail("latitude", lat, *n.Lat)
	}
	if math.Abs(*n.Lon-lon) > 1e-9 {
		fail("longitude", lon, *n.Lon)
	}
	if *n.Speed != w.pos.SPD/10 {
		fail("speed", w.pos.SPD/10, *n.Speed)
	}
	if *n.Course != w.pos.Angle {
		fail("course", w.pos.Angle, *n.Course)
	}
	var ext RExt
	var ans []NavAn
	var liqs []RLiq
	for _, s := range w.rec.Subs {
		switch d := s.Data.(type) {
		case RExt:
			ext = d
			if !d.VFE {
				ext.VDOP = 0
			}
			if !d.HFE {
				ext.HDOP = 0
			}
			if !d.PFE {
				ext.PDOP = 0
			}
			if !d.SFE {
				ext.SAT = 0
			}
			if !d.NSFE {
				ext.NS = 0
			}
		case RAd:
			for i := uint(0); i < 8; i++ {
				if d.ASFE>>i&1 == 1 {
					ans = append(ans, NavAn{uint8(i + 1), d.ANS[i]})
				}
			}
		case RAbsAn:
			ans = append(ans, NavAn{d.N, d.V})
		case RLiq:
			liqs = append(liqs, d)
		}
	}
	if *n.Vdop != ext.VDOP || *n.Hdop != ext.HDOP || *n.Pdop != ext.PDOP {
		fail("vdop/hdop/pdop", []uint16{ext.VDOP, ext.HDOP, ext.PDOP}, []uint16{*n.Vdop, *n.Hdop, *n.Pdop})
	}
	if *n.Nsat != ext.SAT {
		fail("satellites", ext.SAT, *n.Nsat)
	}
	if *n.Ns != ext.NS {
		fail("navigation system", ext.NS, *n.Ns)
	}
	got := append([]NavAn(nil), n.AnSensors...)
	less := func(x []NavAn) func(i, j int) bool {
		return func(i, j int) bool { return x[i].N < x[j].N || x[i].N == x[j].N && x[i].V < x[j].V }
	}
	sort.Slice(got, less(got))
	sort.Slice(ans, less(ans))
	if fmt.Sprint(got) != fmt.Sprint(ans) {
		fail("analog sensors", ans, n.AnSensors)
	}
	if len(n.Liquid) != len(liqs) {
		fail("liquid sensors", liqs, n.Liquid)
	}
	used := make([]bool, len(liqs))
	for _, g := range n.Liquid {
		ok := false
		for i, l := range liqs {
			if used[i] || g.N != l.LLSN || g.E != b01(l.LLSEF) {
				continue
			}
			switch l.LLSVU {
			case 0, 1:
				ok = g.Mm == l.LLSD && g.L == 0
			case 2:
				ok = g.Mm == 0 && g.L == l.LLSD/10
				if !ok && g.Mm == 0 && g.L == l.LLSD*10 {
					ok = true
					if k.c.ID == "C13" {
						k.c.Known(k, "liquid-tenths", fmt.Sprintf("liquid level of %d units of 0.1 l stored as %d l", l.LLSD, g.L))
					}
				}
			default:
				ok = true
			}
			if ok {
				used[i] = true
				break
			}
		}
		if !ok {
			fail("liquid sensors", liqs, n.Liquid)
		}
	}
	k.Count("values_compared", 1)
}

// ---- traffic ----

// traffic generator of one device; serials identify positions.
type dev struct {
	r      *rand.Rand
	serial uint32
	step   uint32
	pid    uint16
	oid    uint32 // when set, every record carries it
	noTerm bool
	maxSub int
	auth   *RAuth // what it identified itself with last
}

func (d *dev) nextSerial() uint32 {
	d.serial += d.step + 1
	return d.serial
}

func (d *dev) pos() RPos {
	p := genPos(d.r)
	p.NTM = d.nextSerial()
	return p
}

// noise makes subrecords that may accompany anything.
func (d *dev) noise() []RSub {
	r := d.r
	var out []RSub
	n := r.Intn(4)
	for i := 0; i < n; i++ {
		t := []uint8{tMod, tDisp, tRes, tCnt, t20, tSt, tAd, tAn, tLiq, tPlus, tCntr, 200}[r.Intn(12)]
		switch t {
		case 200:
			out = append(out, genUnknown(r, 20))
		case tLiq:
			l := genLiq(r)
			l.LLSVU = uint8(r.Intn(3))
			out = append(out, RSub{t, l})
		case tCntr:
			out = append(out, RSub{t, RAbsCnt{[]uint8{0, 1, 109, 112, 255}[r.Intn(5)], genU24(r)}})
		case tPlus:
			s := genSubOf(r, t)
			if len(s.content()) < 500 {
				out = append(out, s)
			}
		default:
			out = append(out, genSubOf(r, t))
		}
	}
	return out
}

func shuffle(r *rand.Rand, s []RSub) []RSub {
	r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
	return s
}

func (d *dev) rec() RRec {
	r := d.r
	rec := genRecHead(r)
	if d.oid != 0 {
		rec.OBFE, rec.OID = true, d.oid
	}
	return rec
}

// posRec is a record with one position and whatever belongs to it.
func (d *dev) posRec() RRec {
	r := d.r
	rec := d.rec()
	subs := d.noise()
	subs = append(subs, RSub{tPos, d.pos()})
	if coin(r) {
		subs = append(subs, RSub{tExt, genExt(r)})
	}
	if r.Intn(3) == 0 {
		subs = append(subs, RSub{tCntr, RAbsCnt{110, genU24(r)}})
		if r.Intn(4) != 0 {
			subs = append(subs, RSub{tCntr, RAbsCnt{111, uint32(genU8(r))}})
		}
	}
	if r.Intn(12) == 0 {
		subs = append(subs, RSub{tConf, RConf{genU16(r), genU8(r)}})
	}
	if r.Intn(40) == 0 { // said twice: still one record
		for _, s := range subs {
			if s.Type == tPos {
				subs = append(subs, s)
				break
			}
		}
	}
	rec.Subs = shuffle(r, subs)
	return rec
}

func (d *dev) noPosRec() RRec {
	rec := d.rec()
	rec.Subs = d.noise()
	if len(rec.Subs) > 0 && d.r.Intn(4) == 0 {
		rec.Subs = append(rec.Subs, RSub{tExt, genExt(d.r)})
	}
	return rec
}

func (d *dev) termRec() RRec {
	rec := d.rec()
	t := genTerm(d.r)
	if d.oid != 0 {
		t.TID = d.oid
	} else if rec.OBFE && d.r.Intn(3) == 0 {
		rec.OID = t.TID
	}
	rec.Subs = []RSub{{tTerm, t}}
	if coin(d.r) {
		rec.Subs = append(rec.Subs, RSub{tMod, genMod(d.r)})
	}
	if d.r.Intn(4) == 0 {
		rec.Subs = append(rec.Subs, RSub{tAuth, genAuth(d.r)})
	}
	return rec
}

func (d *dev) authRec() RRec {
	rec := d.rec()
	if d.auth == nil || d.r.Intn(3) > 0 {
		a := genAuth(d.r)
		d.auth = &a
	}
	rec.Subs = append(d.noise(), RSub{tAuth, *d.auth})
	return rec
}

func (d *dev) confRec() RRec {
	rec := d.rec()
	for n := 1 + d.r.Intn(3); n > 0; n-- {
		rec.Subs = append(rec.Subs, RSub{tConf, RConf{genU16(d.r), genU8(d.r)}})
	}
	return rec
}

func (d *dev) head() RPkg {
	p := genHeader(d.r)
	p.PRV = 1
	d.pid++
	p.PID = d.pid
	if d.r.Intn(5) == 0 {
		p.PID = genU16(d.r)
	}
	return p
}

// packet makes one acceptable packet of any kind.
func (d *dev) packet() RPkg {
	r := d.r
	p := d.head()
	switch r.Intn(12) {
	case 0: // a response
		p.PT = 0
		p.Resp = &RResp{RPID: genU16(r), PR: genU8(r)}
		if coin(r) {
			p.Resp.SDR = []RRec{d.confRec()}
			// whatever else it has is no record of the device
			for r.Intn(3) == 0 && len(p.Resp.SDR) < 5 {
				x := []func() RRec{d.posRec, d.noPosRec, d.authRec}[r.Intn(3)]()
				x.OBFE = x.OBFE && d.oid != 0
				p.Resp.SDR = append(p.Resp.SDR, x)
				r.Shuffle(len(p.Resp.SDR), func(i, j int) { p.Resp.SDR[i], p.Resp.SDR[j] = p.Resp.SDR[j], p.Resp.SDR[i] })
			}
		}
		return p
	case 1: // only confirmations
		for n := 1 + r.Intn(3); n > 0; n-- {
			p.Records = append(p.Records, d.confRec())
		}
		return p
	case 2:
		if !d.noTerm {
			p.Records = append(p.Records, d.termRec())
			if coin(r) {
				p.Records = append(p.Records, d.posRec())
			}
			return p
		}
	case 3:
		p.Records = append(p.Records, d.authRec())
		if coin(r) {
			p.Records = append(p.Records, d.posRec())
		}
		return p
	}
	n := 1 + r.Intn(4)
	if r.Intn(10) == 0 {
		n = 5 + r.Intn(40)
		if r.Intn(8) == 0 {
			n = 50 + r.Intn(300)
		}
	}
	for i := 0; i < n; i++ {
		switch r.Intn(10) {
		case 0:
			p.Records = append(p.Records, d.confRec())
		case 1, 2, 3:
			p.Records = append(p.Records, d.noPosRec())
		default:
			p.Records = append(p.Records, d.posRec())
		}
	}
	if len(p.body()) == 0 || len(p.body()) > 65535 {
		return d.packet()
	}
	return p
}

// positions makes a packet with exactly n position records.
func (d *dev) positions(n int) RPkg {
	p := d.head()
	for i := 0; i < n; i++ {
		p.Records = append(p.Records, d.posRec())
	}
	return p
}

var errStore = errors.New("storage failed")

// script is a byte stream together with what must come of it.
type script struct {
	raw    []byte
	cuts   []int // packet boundaries
	exp    expect
	nBad   int
	nGood  int
	nBytes int
}

func (s *script) add(b []byte) {
	s.raw = append(s.raw, b...)
	s.cuts = append(s.cuts, len(s.raw))
}

func (s *script) good(p RPkg) {
	s.exp.feed(p)
	s.add(p.bytes())
	s.nGood++
}

func makeScript(d *dev, n int) *script {
	s := &script{}
	var last []RPkg
	for i := 0; i < n; i++ {
		p := d.packet()
		if len(last) > 0 && d.r.Intn(8) == 0 { // the same packet once more
			p = last[len(last)-1-d.r.Intn(min(len(last), 3))]
		}
		last = append(last, p)
		s.good(p)
	}
	return s
}

// play writes the stream (cut into the given pieces, with pauses between them), ends
// the sending direction, and returns everything the server answered.
func play(k *Case, addr string, raw []byte, pieces [][]byte, pause time.Duration) []byte {
	c := dial(k, addr)
	defer c.conn.Close()
	if pieces == nil {
		pieces = [][]byte{raw}
	}
	werr := make(chan error, 1)
	go func() {
		for i, p := range pieces {
			if i > 0 && pause > 0 {
				time.Sleep(pause)
			}
			if err := c.write(p); err != nil {
				werr <- err
				return
			}
		}
		c.conn.CloseWrite()
		werr <- nil
	}()
	out, err := c.drain()
	we := <-werr
	if err != nil {
		k.Note("stream", raw)
		k.Retryf("the connection did not end normally: %v (%d bytes of answers, write error %v)", err, len(out), we)
	}
	if we != nil {
		k.Note("stream", raw)
		k.Failf("the server closed the connection while valid data was being sent: %v (%d bytes of answers)", we, len(out))
	}
	return out
}
