//go:build go1.22

package main

// Stand-in servers for the databases and brokers: they speak enough of the wire
// protocols to let the real client libraries work, and record what arrives.

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

// delivery is one stored row or published message.
type delivery struct {
	where   string // table, channel, topic, exchange|key, tube
	payload string
	conn    int
}

// fake is a stand-in server.
type fake struct {
	kind    string
	ln      net.Listener
	host    string
	port    string
	mu      sync.Mutex
	got     []delivery
	events  []string
	conns   map[net.Conn]bool
	opened  int
	maxOpen int
	limit   int // simultaneous connections allowed, 0: any
	odd     []string
	stmts   int // prepared statements on all connections

	user, password, database string
	// refuse decides whether a delivery is refused; nil means never
	refuse func(d delivery) string
	// drop decides whether the connection breaks before the delivery counts
	drop func(d delivery) bool
	// refuseCommit decides whether a transaction with the delivery is refused at its end
	refuseCommit func(d delivery) string
	// lose decides whether the connection breaks after the delivery, before the answer
	lose func(d delivery) bool
	// hold tells how long the server takes to answer after the delivery
	hold func(d delivery) time.Duration
	// rejectLogin refuses every login
	rejectLogin bool
	logins      []string
	handle      func(f *fake, c net.Conn, id int)
	wg          sync.WaitGroup
}

func startFake(k *Case, kind string) *fake {
	var last error
	for i := 0; i < 8; i++ {
		addr := freshAddr()
		ln, err := net.Listen("tcp", addr)
		if err != nil {
			last = err
			continue
		}
		h, p, _ := net.SplitHostPort(addr)
		f := &fake{kind: kind, ln: ln, host: h, port: p, conns: map[net.Conn]bool{}}
		f.handle = map[string]func(*fake, net.Conn, int){"postgresql": servePG, "mysql": serveMySQL, "redis": serveRedis, "nats": serveNATS, "rabbitmq": serveAMQP, "tarantool_queue": serveTarantool}[kind]
		go f.loop()
		return f
	}
	k.Skipf("no address for a stand-in server: %v", last)
	return nil
}

func (f *fake) loop() {
	for {
		c, err := f.ln.Accept()
		if err != nil {
			return
		}
		f.mu.Lock()
		f.opened++
		id := f.opened
		f.conns[c] = true
		if len(f.conns) > f.maxOpen {
			f.maxOpen = len(f.conns)
		}
		f.mu.Unlock()
		f.wg.Add(1)
		go func() {
			defer f.wg.Done()
			defer func() {
				c.Close()
				f.mu.Lock()
				delete(f.conns, c)
				f.mu.Unlock()
				if e := recover(); e != nil {
					f.oddf("stand-in %s: %v", f.kind, e)
				}
			}()
			f.handle(f, c, id)
		}()
	}
}

func (f *fake) addr() string { return f.host + ":" + f.port }

func (f *fake) stop() {
	f.ln.Close()
	f.dropAll()
	f.wg.Wait()
}

// dropAll breaks all connections.
func (f *fake) dropAll() {
	f.mu.Lock()
	defer f.mu.Unlock()
	for c := range f.conns {
		c.Close()
	}
}

func (f *fake) oddf(format string, a ...interface{}) {
	f.mu.Lock()
	f.odd = append(f.odd, fmt.Sprintf(format, a...))
	f.mu.Unlock()
}

func (f *fake) login(format string, a ...interface{}) {
	f.mu.Lock()
	f.logins = append(f.logins, fmt.Sprintf(format, a...))
	f.mu.Unlock()
}

// deliver records a delivery unless it is refused; drop means: break the connection.
func (f *fake) deliver(d delivery) (refused string, drop bool) {
	if f.drop != nil && f.drop(d) {
		return "", true
	}
	if f.refuse != nil {
		if m := f.refuse(d); m != "" {
			return m, false
		}
	}
	if f.refuseCommit != nil {
		if m := f.refuseCommit(d); m != "" {
			return m, false
		}
	}
	f.mu.Lock()
	f.got = append(f.got, d)
	f.mu.Unlock()
	if f.hold != nil {
		time.Sleep(f.hold(d))
	}
	return "", f.lose != nil && f.lose(d)
}

func (f *fake) deliveries() []delivery {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]delivery(nil), f.got...)
}

func (f *fake) oddities() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]string(nil), f.odd...)
}

func (f *fake) statements(n int) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.stmts += n
	return f.stmts
}

func (f *fake) tooMany() bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.limit > 0 && len(f.conns) > f.limit
}

// ---- SQL text ----

var insertRE = regexp.MustCompile("(?is)^\\s*insert\\s+into\\s+([^\\s(]+)\\s*\\(\\s*[`\"]?point[`\"]?\\s*\\)\\s*values?\\s*\\((.*)\\)\\s*(?:returning\\s+[\\w*]+)?\\s*;?\\s*$")

// parseInsert takes the table and the value expression of an insert of one row.
func parseInsert(q string) (table, value string, ok bool) {
	m := insertRE.FindStringSubmatch(q)
	if m == nil {
		return "", "", false
	}
	return tableName(m[1]), strings.TrimSpace(m[2]), true
}

// tableName removes the quotes of a possibly qualified name; a dot inside quotes belongs to the name.
func tableName(s string) string {
	var quote rune
	out := ""
	for _, c := range s {
		switch {
		case quote == 0 && (c == '"' || c == '`'):
			quote = c
		case quote != 0 && c == quote:
			quote = 0
		case quote != 0 && c == '.':
			out += "\\."
		default:
			out += string(c)
		}
	}
	return out
}

// sqlString evaluates a string literal.
func sqlString(v string, backslash bool) (string, bool) {
	for _, p := range []string{"_binary", "E", "e"} {
		if strings.HasPrefix(v, p) {
			if p != "_binary" {
				backslash = true
			}
			v = v[len(p):]
			break
		}
	}
	if i := strings.LastIndex(v, "::"); i > 0 && strings.HasSuffix(strings.TrimSpace(v[:i]), "'") {
		v = strings.TrimSpace(v[:i])
	}
	if len(v) < 2 || v[0] != '\'' || v[len(v)-1] != '\'' {
		return "", false
	}
	v = v[1 : len(v)-1]
	var out []byte
	for i := 0; i < len(v); i++ {
		switch {
		case v[i] == '\'':
			if i+1 >= len(v) || v[i+1] != '\'' {
				return "", false
			}
			i++
			out = append(out, '\'')
		case v[i] == '\\' && backslash && i+1 < len(v):
			i++
			switch v[i] {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case '0':
				out = append(out, 0)
			case 'Z':
				out = append(out, 26)
			default:
				out = append(out, v[i])
			}
		default:
			out = append(out, v[i])
		}
	}
	return string(out), true
}

// sqlConn holds the state of a database session.
type sqlConn struct {
	f       *fake
	id      int
	inTx    bool
	failed  bool // a statement of the transaction failed (PostgreSQL)
	pending []delivery
}

// exec runs a statement with its parameters; it returns an error text, the tag, and
// whether the connection breaks.
func (s *sqlConn) exec(q string, args []string, ph func(i int) string, backslash bool) (errText, tag string, drop bool) {
	if s.failed {
		switch t := strings.ToUpper(strings.Trim(strings.TrimSpace(q), ";")); t {
		case "COMMIT", "ROLLBACK", "":
			s.inTx, s.failed, s.pending = false, false, nil
			return "", "ROLLBACK", false
		}
		return "current transaction is aborted, commands ignored until end of transaction block", "", false
	}
	defer func() { s.failed = errText != "" && s.inTx && !backslash }()
	t := strings.ToUpper(strings.Trim(strings.TrimSpace(q), ";"))
	switch {
	case t == "":
		return "", "", false
	case strings.HasPrefix(t, "BEGIN") || strings.HasPrefix(t, "START TRANSACTION"):
		s.inTx, s.pending = true, nil
		return "", "BEGIN", false
	case t == "COMMIT":
		if s.f.refuseCommit != nil {
			for _, d := range s.pending {
				if m := s.f.refuseCommit(d); m != "" { // a deferred constraint
					s.inTx, s.pending = false, nil
					return m, "", false
				}
			}
		}
		for _, d := range s.pending {
			s.f.mu.Lock()
			s.f.got = append(s.f.got, d)
			s.f.mu.Unlock()
			if s.f.hold != nil {
				time.Sleep(s.f.hold(d))
			}
			drop = drop || s.f.lose != nil && s.f.lose(d)
		}
		s.inTx, s.pending = false, nil
		return "", "COMMIT", drop
	case t == "ROLLBACK":
		s.inTx, s.pending = false, nil
		return "", "ROLLBACK", false
	case strings.HasPrefix(t, "SET ") || strings.HasPrefix(t, "SELECT ") && !strings.Contains(t, " FROM ") || strings.HasPrefix(t, "DEALLOCATE"):
		return "", "SELECT 0", false
	}
	table, v, ok := parseInsert(q)
	if !ok {
		s.f.oddf("statement %q", q)
		return "syntax error", "", false
	}
	d := delivery{where: table, conn: s.id}
	if i := strings.LastIndex(v, "::"); i > 0 && v[0] == '$' {
		v = v[:i]
	}
	if v == ph(0) {
		if len(args) != 1 {
			return "wrong number of parameters", "", false
		}
		d.payload = args[0]
	} else if lit, ok := sqlString(v, backslash); ok {
		d.payload = lit
	} else {
		s.f.oddf("value %q", v)
		return "syntax error", "", false
	}
	if s.inTx {
		if s.f.drop != nil && s.f.drop(d) {
			return "", "", true
		}
		if s.f.refuse != nil {
			if m := s.f.refuse(d); m != "" {
				return m, "", false
			}
		}
		s.pending = append(s.pending, d)
		return "", "INSERT 0 1", false
	}
	m, dr := s.f.deliver(d)
	return m, "INSERT 0 1", dr
}

// ---- PostgreSQL ----

func pgMsg(t byte, body []byte) []byte {
	b := make([]byte, 5, 5+len(body))
	b[0] = t
	binary.BigEndian.PutUint32(b[1:], uint32(len(body)+4))
	return append(b, body...)
}

func pgErr(code, text string) []byte {
	return pgMsg('E', []byte("SERROR\x00C"+code+"\x00M"+text+"\x00\x00"))
}

func cstr(b []byte) (string, []byte) {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return string(b), nil
	}
	return string(b[:i]), b[i+1:]
}

func servePG(f *fake, c net.Conn, id int) {
	r := bufio.NewReader(c)
	var params map[string]string
	for {
		var h [8]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(h[:]))
		if n < 8 || n > 1<<20 {
			f.oddf("startup message of length %d", n)
			return
		}
		body := make([]byte, n-8)
		if _, err := io.ReadFull(r, body); err != nil {
			return
		}
		code := binary.BigEndian.Uint32(h[4:])
		if code == 80877103 { // SSLRequest
			f.login("ssl requested")
			c.Write([]byte{'N'})
			continue
		}
		if code == 80877102 {
			return
		}
		params = map[string]string{}
		for len(body) > 1 {
			var k, v string
			k, body = cstr(body)
			v, body = cstr(body)
			params[k] = v
		}
		break
	}
	if f.tooMany() {
		c.Write(pgErr("53300", "sorry, too many clients already"))
		return
	}
	readMsg := func() (byte, []byte, bool) {
		var h [5]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return 0, nil, false
		}
		n := int(binary.BigEndian.Uint32(h[1:]))
		if n < 4 || n > 64<<20 {
			return 0, nil, false
		}
		b := make([]byte, n-4)
		if _, err := io.ReadFull(r, b); err != nil {
			return 0, nil, false
		}
		return h[0], b, true
	}
	c.Write(pgMsg('R', []byte{0, 0, 0, 3}))
	t, b, ok := readMsg()
	if !ok || t != 'p' {
		return
	}
	pw, _ := cstr(b)
	f.login("user=%s database=%s password=%s", params["user"], params["database"], pw)
	if f.rejectLogin || params["user"] != f.user || pw != f.password || params["database"] != f.database {
		c.Write(pgErr("28P01", "password authentication failed"))
		return
	}
	out := pgMsg('R', []byte{0, 0, 0, 0})
	out = append(out, pgMsg('S', []byte("server_version\x009.6.1\x00"))...)
	out = append(out, pgMsg('K', make([]byte, 8))...)
	out = append(out, pgMsg('Z', []byte{'I'})...)
	c.Write(out)
	s := &sqlConn{f: f, id: id}
	stmts := map[string]string{}
	portals := map[string][2]interface{}{}
	skip := false
	state := func() []byte {
		if s.failed {
			return pgMsg('Z', []byte{'E'})
		}
		if s.inTx {
			return pgMsg('Z', []byte{'T'})
		}
		return pgMsg('Z', []byte{'I'})
	}
	ph := func(i int) string { return "$" + strconv.Itoa(i+1) }
	for {
		t, b, ok := readMsg()
		if !ok {
			return
		}
		if skip && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'X':
			return
		case 'Q':
			q, _ := cstr(b)
			e, tag, drop := s.exec(q, nil, ph, false)
			if drop {
				return
			}
			switch {
			case e != "":
				c.Write(append(pgErr("23505", e), state()...))
			case tag == "":
				c.Write(append(pgMsg('I', nil), state()...))
			default:
				c.Write(append(pgMsg('C', []byte(tag+"\x00")), state()...))
			}
		case 'P':
			name, rest := cstr(b)
			q, _ := cstr(rest)
			stmts[name] = q
			c.Write(pgMsg('1', nil))
		case 'D':
			nm, _ := cstr(b[1:])
			if b[0] == 'S' {
				q := stmts[nm]
				n := strings.Count(q, "$1")
				pd := []byte{0, byte(n)}
				for i := 0; i < n; i++ {
					pd = append(pd, 0, 0, 0x0e, 0xda) // 3802, jsonb
				}
				c.Write(pgMsg('t', pd))
			}
			c.Write(pgMsg('n', nil))
		case 'B':
			portal, rest := cstr(b)
			st, rest := cstr(rest)
			nf := int(binary.BigEndian.Uint16(rest))
			fmts := rest[2 : 2+2*nf]
			rest = rest[2+2*nf:]
			na := int(binary.BigEndian.Uint16(rest))
			rest = rest[2:]
			var args []string
			bin := false
			for i := 0; i < na; i++ {
				l := int32(binary.BigEndian.Uint32(rest))
				rest = rest[4:]
				if l < 0 {
					args = append(args, "\x00NULL")
					continue
				}
				v := string(rest[:l])
				if nf > 0 {
					at := i
					if nf == 1 {
						at = 0
					}
					bin = fmts[2*at+1] == 1
				}
				if bin && strings.HasPrefix(v, "\x01") {
					v = v[1:] // binary jsonb
				}
				args = append(args, v)
				rest = rest[l:]
			}
			portals[portal] = [2]interface{}{stmts[st], args}
			c.Write(pgMsg('2', nil))
		case 'E':
			nm, _ := cstr(b)
			po := portals[nm]
			if po[0] == nil {
				f.oddf("unknown portal")
				return
			}
			e, tag, drop := s.exec(po[0].(string), po[1].([]string), ph, false)
			if drop {
				return
			}
			if e != "" {
				c.Write(pgErr("23505", e))
				skip = true
			} else {
				c.Write(pgMsg('C', []byte(tag+"\x00")))
			}
		case 'C':
			c.Write(pgMsg('3', nil))
		case 'S':
			skip = false
			c.Write(state())
		case 'H':
		default:
			f.oddf("message %q", t)
			return
		}
	}
}

// ---- MySQL ----

type myConn struct {
	c   net.Conn
	r   *bufio.Reader
	seq byte
}

func (m *myConn) read() ([]byte, bool) {
	var out []byte
	for {
		var h [4]byte
		if _, err := io.ReadFull(m.r, h[:]); err != nil {
			return nil, false
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		m.seq = h[3] + 1
		b := make([]byte, n)
		if _, err := io.ReadFull(m.r, b); err != nil {
			return nil, false
		}
		out = append(out, b...)
		if n < 0xffffff {
			return out, true
		}
	}
}

func (m *myConn) write(b []byte) {
	h := []byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), m.seq}
	m.seq++
	m.c.Write(append(h, b...))
}

func (m *myConn) ok() { m.write([]byte{0, 1, 0, 2, 0, 0, 0}) }
func (m *myConn) errText(n uint16, s string) {
	m.write(append([]byte{0xff, byte(n), byte(n >> 8), '#', '2', '3', '0', '0', '0'}, s...))
}

func lenenc(b []byte) (uint64, []byte, bool) {
	if len(b) == 0 {
		return 0, nil, false
	}
	n := 0
	switch b[0] {
	case 0xfc:
		n = 2
	case 0xfd:
		n = 3
	case 0xfe:
		n = 8
	default:
		return uint64(b[0]), b[1:], true
	}
	if len(b) < 1+n {
		return 0, nil, false
	}
	var v uint64
	for i := 0; i < n; i++ {
		v |= uint64(b[1+i]) << (8 * uint(i))
	}
	return v, b[1+n:], true
}

func nativePassword(pw string, scramble []byte) []byte {
	if pw == "" {
		return nil
	}
	h1 := sha1.Sum([]byte(pw))
	h2 := sha1.Sum(h1[:])
	h3 := sha1.Sum(append(append([]byte(nil), scramble...), h2[:]...))
	out := make([]byte, 20)
	for i := range out {
		out[i] = h1[i] ^ h3[i]
	}
	return out
}

func serveMySQL(f *fake, c net.Conn, id int) {
	m := &myConn{c: c, r: bufio.NewReader(c)}
	scramble := []byte("abcdefgh12345678ABCD")
	if f.tooMany() {
		m.write(append([]byte{0xff, 0x10, 0x04}, "Too many connections"...))
		return
	}
	hs := []byte{10}
	hs = append(hs, "5.7.30\x00"...)
	hs = append(hs, 1, 0, 0, 0)
	hs = append(hs, scramble[:8]...)
	hs = append(hs, 0)
	caps := uint32(0x00000001 | 0x00000002 | 0x00000004 | 0x00000008 | 0x00000200 | 0x00002000 | 0x00008000 | 0x00080000)
	hs = append(hs, byte(caps), byte(caps>>8), 33, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	hs = append(hs, make([]byte, 10)...)
	hs = append(hs, scramble[8:]...)
	hs = append(hs, 0)
	hs = append(hs, "mysql_native_password\x00"...)
	m.write(hs)
	b, ok := m.read()
	if !ok || len(b) < 33 {
		return
	}
	ccaps := binary.LittleEndian.Uint32(b)
	user, rest := cstr(b[32:])
	if len(rest) == 0 {
		return
	}
	al := int(rest[0])
	auth := rest[1 : 1+al]
	rest = rest[1+al:]
	db := ""
	if ccaps&8 != 0 {
		db, _ = cstr(rest)
	}
	good := bytes.Equal(auth, nativePassword(f.password, scramble))
	f.login("user=%s database=%s password=%v", user, db, good)
	if f.rejectLogin || user != f.user || db != f.database || !good {
		m.errText(1045, "Access denied")
		return
	}
	m.ok()
	s := &sqlConn{f: f, id: id}
	type stmt struct {
		q    string
		n    int
		long map[int][]byte
	}
	stmts := map[uint32]*stmt{}
	defer func() { f.statements(-len(stmts)) }()
	next := uint32(0)
	ph := func(int) string { return "?" }
	run := func(q string, args []string) bool {
		e, _, drop := s.exec(q, args, ph, true)
		if drop {
			return false
		}
		if e != "" {
			m.errText(1062, e)
		} else {
			m.ok()
		}
		return true
	}
	for {
		b, ok := m.read()
		if !ok || len(b) == 0 {
			return
		}
		switch b[0] {
		case 1:
			return
		case 0x0e, 0x02:
			m.ok()
		case 3:
			if !run(string(b[1:]), nil) {
				return
			}
		case 0x16:
			q := string(b[1:])
			n := strings.Count(q, "?")
			if f.statements(1) > 16382 { // the server's usual limit
				f.statements(-1)
				m.errText(1461, "Can't create more than max_prepared_stmt_count statements")
				continue
			}
			next++
			stmts[next] = &stmt{q: q, n: n, long: map[int][]byte{}}
			m.write([]byte{0, byte(next), byte(next >> 8), byte(next >> 16), byte(next >> 24), 0, 0, byte(n), 0, 0, 0, 0})
			if n > 0 {
				for i := 0; i < n; i++ {
					def := []byte{3, 'd', 'e', 'f', 0, 0, 0, 1, '?', 0, 0x0c, 63, 0, 0, 0, 0, 0, 0xfd, 0x80, 0, 0, 0, 0}
					m.write(def)
				}
				m.write([]byte{0xfe, 0, 0, 2, 0})
			}
		case 0x18:
			st := stmts[binary.LittleEndian.Uint32(b[1:])]
			if st == nil {
				f.oddf("long data for an unknown statement")
				return
			}
			i := int(binary.LittleEndian.Uint16(b[5:]))
			st.long[i] = append(st.long[i], b[7:]...)
		case 0x17:
			st := stmts[binary.LittleEndian.Uint32(b[1:])]
			if st == nil {
				m.errText(1243, "Unknown prepared statement")
				continue
			}
			var args []string
			rest := b[10:]
			if st.n > 0 {
				nb := (st.n + 7) / 8
				nulls := rest[:nb]
				rest = rest[nb:]
				if rest[0] != 1 {
					f.oddf("parameters without types")
					return
				}
				rest = rest[1:]
				types := rest[:2*st.n]
				rest = rest[2*st.n:]
				for i := 0; i < st.n; i++ {
					if v, ok := st.long[i]; ok {
						args = append(args, string(v))
						continue
					}
					if nulls[i/8]>>(uint(i)%8)&1 == 1 {
						args = append(args, "\x00NULL")
						continue
					}
					switch types[2*i] {
					case 0xfc, 0xfd, 0xfe, 0x0f, 0xf5:
						n, r2, ok := lenenc(rest)
						if !ok || uint64(len(r2)) < n {
							f.oddf("parameter cut off")
							return
						}
						args = append(args, string(r2[:n]))
						rest = r2[n:]
					default:
						f.oddf("parameter of type %d", types[2*i])
						args = append(args, "?")
					}
				}
			}
			st.long = map[int][]byte{}
			if !run(st.q, args) {
				return
			}
		case 0x19:
			if i := binary.LittleEndian.Uint32(b[1:]); stmts[i] != nil {
				delete(stmts, i)
				f.statements(-1)
			}
		case 0x1a:
			m.ok()
		default:
			f.oddf("command %d", b[0])
			m.errText(1047, "Unknown command")
		}
	}
}

// ---- Redis ----

func serveRedis(f *fake, c net.Conn, id int) {
	r := bufio.NewReader(c)
	line := func() (string, bool) {
		s, err := r.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err == nil
	}
	if f.tooMany() {
		io.WriteString(c, "-ERR max number of clients reached\r\n")
		return
	}
	authed := f.password == ""
	db := "0"
	for {
		l, ok := line()
		if !ok {
			return
		}
		if !strings.HasPrefix(l, "*") {
			f.oddf("line %q", l)
			return
		}
		n, _ := strconv.Atoi(l[1:])
		var args []string
		for i := 0; i < n; i++ {
			l, ok := line()
			if !ok || !strings.HasPrefix(l, "$") {
				return
			}
			m, _ := strconv.Atoi(l[1:])
			b := make([]byte, m+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			args = append(args, string(b[:m]))
		}
		if len(args) == 0 {
			continue
		}
		switch strings.ToUpper(args[0]) {
		case "AUTH":
			f.login("password=%s", args[len(args)-1])
			if f.password == "" || args[len(args)-1] != f.password || f.rejectLogin {
				io.WriteString(c, "-WRONGPASS invalid password\r\n")
			} else {
				authed = true
				io.WriteString(c, "+OK\r\n")
			}
		case "SELECT":
			if !authed {
				io.WriteString(c, "-NOAUTH Authentication required.\r\n")
				continue
			}
			db = args[1]
			f.login("db=%s", db)
			io.WriteString(c, "+OK\r\n")
		case "PING":
			io.WriteString(c, "+PONG\r\n")
		case "PUBLISH":
			if !authed || f.rejectLogin {
				io.WriteString(c, "-NOAUTH Authentication required.\r\n")
				continue
			}
			if len(args) != 3 {
				io.WriteString(c, "-ERR wrong number of arguments\r\n")
				continue
			}
			m, drop := f.deliver(delivery{where: db + "|" + args[1], payload: args[2], conn: id})
			if drop {
				return
			}
			if m != "" {
				io.WriteString(c, "-ERR "+m+"\r\n")
			} else {
				io.WriteString(c, ":1\r\n")
			}
		default:
			f.oddf("command %q", args[0])
			io.WriteString(c, "-ERR unknown command\r\n")
		}
	}
}

// ---- NATS ----

func serveNATS(f *fake, c net.Conn, id int) {
	r := bufio.NewReader(c)
	auth := f.user != ""
	fmt.Fprintf(c, "INFO {\"server_id\":\"x\",\"version\":\"2.9.0\",\"proto\":1,\"host\":\"%s\",\"port\":%s,\"max_payload\":1048576,\"auth_required\":%v,\"headers\":true}\r\n", f.host, f.port, auth)
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		l = strings.TrimRight(l, "\r\n")
		up := strings.ToUpper(l)
		switch {
		case strings.HasPrefix(up, "CONNECT "):
			var o struct {
				User string `json:"user"`
				Pass string `json:"pass"`
			}
			_ = json.Unmarshal([]byte(l[8:]), &o)
			f.login("user=%s password=%s", o.User, o.Pass)
			if f.rejectLogin || f.user != "" && (o.User != f.user || o.Pass != f.password) {
				io.WriteString(c, "-ERR 'Authorization Violation'\r\n")
				return
			}
		case up == "PING":
			io.WriteString(c, "PONG\r\n")
		case up == "PONG":
		case strings.HasPrefix(up, "PUB ") || strings.HasPrefix(up, "HPUB "):
			fs := strings.Fields(l)
			n, _ := strconv.Atoi(fs[len(fs)-1])
			b := make([]byte, n+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			b = b[:n]
			if up[0] == 'H' {
				h, _ := strconv.Atoi(fs[len(fs)-2])
				b = b[h:]
			}
			m, drop := f.deliver(delivery{where: fs[1], payload: string(b), conn: id})
			if drop {
				return
			}
			if m != "" {
				fmt.Fprintf(c, "-ERR '%s'\r\n", m)
			}
		case strings.HasPrefix(up, "SUB ") || strings.HasPrefix(up, "UNSUB "):
		default:
			f.oddf("line %q", l)
		}
	}
}

// ---- AMQP 0-9-1 ----

func amqpFrame(t byte, ch uint16, payload []byte) []byte {
	b := make([]byte, 7, 8+len(payload))
	b[0] = t
	binary.BigEndian.PutUint16(b[1:], ch)
	binary.BigEndian.PutUint32(b[3:], uint32(len(payload)))
	b = append(b, payload...)
	return append(b, 0xce)
}

func amqpMethod(ch uint16, class, method uint16, args []byte) []byte {
	p := make([]byte, 4, 4+len(args))
	binary.BigEndian.PutUint16(p, class)
	binary.BigEndian.PutUint16(p[2:], method)
	return amqpFrame(1, ch, append(p, args...))
}

func longstr(s string) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(len(s)))
	return append(b, s...)
}

func shortstr(b []byte) (string, []byte) {
	n := int(b[0])
	return string(b[1 : 1+n]), b[1+n:]
}

func serveAMQP(f *fake, c net.Conn, id int) {
	r := bufio.NewReader(c)
	h := make([]byte, 8)
	if _, err := io.ReadFull(r, h); err != nil || string(h[:4]) != "AMQP" {
		return
	}
	start := []byte{0, 9, 0, 0, 0, 0}
	start = append(start, longstr("PLAIN")...)
	start = append(start, longstr("en_US")...)
	c.Write(amqpMethod(0, 10, 10, start))
	type pending struct {
		where string
		size  uint64
		have  []byte
		head  bool
	}
	pend := map[uint16]*pending{}
	finish := func(ch uint16, p *pending) bool {
		delete(pend, ch)
		m, drop := f.deliver(delivery{where: p.where, payload: string(p.have), conn: id})
		if drop {
			return false
		}
		if m != "" { // the channel is closed
			a := []byte{0x01, 0x94}
			a = append(a, byte(len(m)))
			a = append(a, m...)
			a = append(a, 0, 60, 0, 40)
			c.Write(amqpMethod(ch, 20, 40, a))
		}
		return true
	}
	confirm := map[uint16]uint64{}
	for {
		var h [7]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return
		}
		ch := binary.BigEndian.Uint16(h[1:])
		n := binary.BigEndian.Uint32(h[3:])
		if n > 64<<20 {
			return
		}
		b := make([]byte, n+1)
		if _, err := io.ReadFull(r, b); err != nil {
			return
		}
		b = b[:n]
		switch h[0] {
		case 8:
			continue
		case 1:
		case 2:
			if p := pend[ch]; p != nil {
				p.size = binary.BigEndian.Uint64(b[4:])
				p.head = true
				if p.size == 0 && !finish(ch, p) {
					return
				}
			}
			continue
		case 3:
			if p := pend[ch]; p != nil {
				p.have = append(p.have, b...)
				if uint64(len(p.have)) >= p.size {
					if !finish(ch, p) {
						return
					}
					if _, ok := confirm[ch]; ok {
						confirm[ch]++
						a := make([]byte, 9)
						binary.BigEndian.PutUint64(a, confirm[ch])
						c.Write(amqpMethod(ch, 60, 80, a))
					}
				}
			}
			continue
		default:
			f.oddf("frame type %d", h[0])
			return
		}
		class, method := binary.BigEndian.Uint16(b), binary.BigEndian.Uint16(b[2:])
		a := b[4:]
		switch {
		case class == 10 && method == 11: // start-ok
			tl := binary.BigEndian.Uint32(a)
			a = a[4+tl:]
			mech, rest := shortstr(a)
			rl := binary.BigEndian.Uint32(rest)
			resp := string(rest[4 : 4+rl])
			parts := strings.Split(resp, "\x00")
			u, p := "", ""
			if len(parts) == 3 {
				u, p = parts[1], parts[2]
			}
			f.login("user=%s password=%s", u, p)
			if mech != "PLAIN" || f.rejectLogin || u != f.user || p != f.password {
				m := "ACCESS_REFUSED"
				x := []byte{0x01, 0x93, byte(len(m))}
				x = append(x, m...)
				x = append(x, 0, 0, 0, 0)
				c.Write(amqpMethod(0, 10, 50, x))
				return
			}
			c.Write(amqpMethod(0, 10, 30, []byte{0x07, 0xff, 0, 2, 0, 0, 0, 0}))
		case class == 10 && method == 31: // tune-ok
		case class == 10 && method == 40: // open
			v, _ := shortstr(a)
			f.login("vhost=%s", v)
			c.Write(amqpMethod(0, 10, 41, []byte{0}))
		case class == 10 && method == 50:
			c.Write(amqpMethod(0, 10, 51, nil))
			return
		case class == 10 && method == 51:
			return
		case class == 20 && method == 10:
			c.Write(amqpMethod(ch, 20, 11, []byte{0, 0, 0, 0}))
		case class == 20 && method == 40:
			c.Write(amqpMethod(ch, 20, 41, nil))
		case class == 20 && method == 41:
		case class == 85 && method == 10:
			confirm[ch] = 0
			if len(a) == 0 || a[0]&1 == 0 {
				c.Write(amqpMethod(ch, 85, 11, nil))
			}
		case class == 60 && method == 40:
			ex, rest := shortstr(a[2:])
			key, _ := shortstr(rest)
			pend[ch] = &pending{where: ex + "|" + key}
		case class == 40 && method == 10: // exchange.declare
			c.Write(amqpMethod(ch, 40, 11, nil))
		default:
			f.oddf("method %d.%d", class, method)
			return
		}
	}
}

// ---- Tarantool ----

// mpRead reads one MessagePack value.
func mpRead(b []byte) (v interface{}, rest []byte, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("msgpack: %v", e)
		}
	}()
	if len(b) == 0 {
		return nil, nil, io.ErrUnexpectedEOF
	}
	t := b[0]
	b = b[1:]
	arr := func(n int) (interface{}, []byte, error) {
		out := make([]interface{}, 0, n)
		for i := 0; i < n; i++ {
			var x interface{}
			var err error
			if x, b, err = mpRead(b); err != nil {
				return nil, nil, err
			}
			out = append(out, x)
		}
		return out, b, nil
	}
	mp := func(n int) (interface{}, []byte, error) {
		out := map[interface{}]interface{}{}
		for i := 0; i < n; i++ {
			var k, x interface{}
			var err error
			if k, b, err = mpRead(b); err != nil {
				return nil, nil, err
			}
			if x, b, err = mpRead(b); err != nil {
				return nil, nil, err
			}
			out[k] = x
		}
		return out, b, nil
	}
	be := func(n int) uint64 {
		var v uint64
		for i := 0; i < n; i++ {
			v = v<<8 | uint64(b[i])
		}
		b = b[n:]
		return v
	}
	str := func(n int) (interface{}, []byte, error) { return string(b[:n]), b[n:], nil }
	switch {
	case t < 0x80:
		return uint64(t), b, nil
	case t < 0x90:
		return mp(int(t & 15))
	case t < 0xa0:
		return arr(int(t & 15))
	case t < 0xc0:
		return str(int(t & 31))
	case t >= 0xe0:
		return int64(int8(t)), b, nil
	}
	switch t {
	case 0xc0:
		return nil, b, nil
	case 0xc2:
		return false, b, nil
	case 0xc3:
		return true, b, nil
	case 0xc4, 0xd9:
		return str(int(be(1)))
	case 0xc5, 0xda:
		return str(int(be(2)))
	case 0xc6, 0xdb:
		return str(int(be(4)))
	case 0xca:
		return float64(math.Float32frombits(uint32(be(4)))), b, nil
	case 0xcb:
		return math.Float64frombits(be(8)), b, nil
	case 0xcc:
		return be(1), b, nil
	case 0xcd:
		return be(2), b, nil
	case 0xce:
		return be(4), b, nil
	case 0xcf:
		return be(8), b, nil
	case 0xd0:
		return int64(int8(be(1))), b, nil
	case 0xd1:
		return int64(int16(be(2))), b, nil
	case 0xd2:
		return int64(int32(be(4))), b, nil
	case 0xd3:
		return int64(be(8)), b, nil
	case 0xdc:
		return arr(int(be(2)))
	case 0xdd:
		return arr(int(be(4)))
	case 0xde:
		return mp(int(be(2)))
	case 0xdf:
		return mp(int(be(4)))
	}
	return nil, nil, fmt.Errorf("msgpack type %x", t)
}

func mpUint(v uint64) []byte {
	b := make([]byte, 9)
	b[0] = 0xcf
	binary.BigEndian.PutUint64(b[1:], v)
	return b
}

func mpStr(s string) []byte {
	b := []byte{0xdb, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(b[1:], uint32(len(s)))
	return append(b, s...)
}

func tntReply(code, sync uint64, body []byte) []byte {
	p := []byte{0x82, 0x00}
	p = append(p, mpUint(code)...)
	p = append(p, 0x01)
	p = append(p, mpUint(sync)...)
	p = append(p, body...)
	out := []byte{0xce, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(out[1:], uint32(len(p)))
	return append(out, p...)
}

func chapSha1(pass string, salt []byte) string {
	s1 := sha1.Sum([]byte(pass))
	s2 := sha1.Sum(s1[:])
	s3 := sha1.Sum(append(append([]byte(nil), salt[:20]...), s2[:]...))
	out := make([]byte, 20)
	for i := range out {
		out[i] = s1[i] ^ s3[i]
	}
	return string(out)
}

func serveTarantool(f *fake, c net.Conn, id int) {
	salt := bytes.Repeat([]byte{7, 9, 200, 3}, 8)
	g := []byte(fmt.Sprintf("%-63s\n%-63s\n", "Tarantool 1.10.0 (Binary) 00000000-0000-0000-0000-000000000000", base64.StdEncoding.EncodeToString(salt)))
	c.Write(g)
	r := bufio.NewReader(c)
	seq := uint64(0)
	authed := f.user == ""
	for {
		l, err := r.ReadByte()
		if err != nil {
			return
		}
		n := 0
		switch {
		case l < 0x80:
			n = int(l)
		case l == 0xcc, l == 0xcd, l == 0xce, l == 0xcf:
			w := map[byte]int{0xcc: 1, 0xcd: 2, 0xce: 4, 0xcf: 8}[l]
			for i := 0; i < w; i++ {
				x, err := r.ReadByte()
				if err != nil {
					return
				}
				n = n<<8 | int(x)
			}
		default:
			f.oddf("frame starts with %x", l)
			return
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			return
		}
		hv, rest, err := mpRead(b)
		if err != nil {
			f.oddf("%v", err)
			return
		}
		hdr := hv.(map[interface{}]interface{})
		body := map[interface{}]interface{}{}
		if len(rest) > 0 {
			bv, _, err := mpRead(rest)
			if err != nil {
				f.oddf("%v", err)
				return
			}
			body = bv.(map[interface{}]interface{})
		}
		code, _ := hdr[uint64(0)].(uint64)
		syn, _ := hdr[uint64(1)].(uint64)
		fail := func(s string) {
			c.Write(tntReply(0x8000|32, syn, append([]byte{0x81, 0x31}, mpStr(s)...)))
		}
		switch code {
		case 7:
			u, _ := body[uint64(0x23)].(string)
			t, _ := body[uint64(0x21)].([]interface{})
			good := len(t) == 2 && t[1] == chapSha1(f.password, salt)
			f.login("user=%s password=%v", u, good)
			if f.rejectLogin || u != f.user || !good {
				fail("Incorrect password supplied for user")
				return
			}
			authed = true
			c.Write(tntReply(0, syn, []byte{0x80}))
		case 1:
			c.Write(tntReply(0, syn, []byte{0x81, 0x30, 0x90}))
		case 64:
			c.Write(tntReply(0, syn, []byte{0x80}))
		case 6, 10:
			if !authed {
				fail("access denied")
				continue
			}
			fn, _ := body[uint64(0x22)].(string)
			t, _ := body[uint64(0x21)].([]interface{})
			var payload string
			ok := len(t) >= 1
			if ok {
				payload, ok = t[0].(string)
			}
			if !strings.HasPrefix(fn, "queue.tube.") || !strings.HasSuffix(fn, ":put") || !ok {
				f.oddf("call of %s with %v", fn, t)
				fail("no such function")
				continue
			}
			m, drop := f.deliver(delivery{where: strings.TrimSuffix(strings.TrimPrefix(fn, "queue.tube."), ":put"), payload: payload, conn: id})
			if drop {
				return
			}
			if m != "" {
				fail(m)
				continue
			}
			seq++
			tup := []byte{0x93}
			tup = append(tup, mpUint(seq)...)
			tup = append(tup, mpStr("r")...)
			tup = append(tup, mpStr(payload)...)
			c.Write(tntReply(0, syn, append([]byte{0x81, 0x30, 0x91}, tup...)))
		default:
			f.oddf("request %d", code)
			fail("unknown request")
		}
	}
}
