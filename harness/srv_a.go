//go:build go1.22

package main

// C10 - C15, C22 and the receiver part of C07.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"syscall"
	"time"
)

func init() {
	register("C10", Check{Run: runC10, Rule: "a case is one stream of accepted packets of all kinds sent over one connection; distinct by the stream's bytes. Everything the receiver sends back until it closes the connection is parsed by the reference parser and compared with the reference model."})
	register("C11", Check{Run: runC11, Rule: "a case is one stream mixing malformed and valid packets (or ending in data that is not this protocol); distinct by the stream's bytes. Answers and stored records are compared with the reference model."})
	register("C12", Check{Run: runC12, Rule: "a case is one stream of packets whose position records carry serial numbers; distinct by the stream's bytes. The sequence of records the storage saw is compared with the sequence sent."})
	register("C13", Check{Run: runC13, Rule: "a case is one stream of packets with position records of random content; distinct by the stream's bytes. Every value of every stored record is compared with a reference mapping of the sent bytes."})
	register("C14", Check{Run: runC14, Rule: "a case is one stream and one way of cutting it into TCP segments; distinct by stream and cuts. Answers and stored records are compared with what the uncut stream means."})
	register("C15", Check{Run: runC15, Rule: "a case is a set of connections with interleaved packets, with and without identifiers; distinct by the bytes and their order. The device of every stored record is compared with a per-connection model."})
	register("C22", Check{Run: runC22, Rule: "a case is one stream mixing authorisation and other packets; distinct by the stream's bytes. The answers are compared with the reference model."})
}

const srvPar = 8

func runC10(c *Ctx) {
	c.Require("answers_compared", "not_answered", "confirmations", "prompt_answers")
	// a device that reads its answers only when it cannot send any more, and later than the idle time
	defer c.Beside("latereader", 3, 3, func(k *Case) {
		ttl := []time.Duration{1500 * time.Millisecond, 0, 4 * time.Second}[k.Index]
		k.Note("idle time", ttl.String())
		k.Sig(k.Index)
		rs := launch(k, "", ttl, &recStore{})
		defer rs.stop(k)
		cl := dial(k, rs.addr)
		defer cl.conn.Close()
		d := &dev{r: subRand(k.R), pid: genU16(k.R), noTerm: true}
		var mu sync.Mutex
		var e expect
		sent, reading := time.Now(), false
		done := make(chan error, 1)
		go func() {
			for i := 0; i < 20000; i++ {
				p := d.head()
				for j := 0; j < 1000; j++ {
					p.Records = append(p.Records, RRec{RN: uint16(j), SST: 2, RST: 2})
				}
				mu.Lock()
				end := reading
				if !end {
					e.feed(p)
					sent = time.Now()
				}
				mu.Unlock()
				if end {
					done <- nil
					return
				}
				if err := cl.write(p.bytes()); err != nil {
					done <- err
					return
				}
			}
			done <- nil
		}()
		wait := 2*ttl + 2500*time.Millisecond
		for stuck := false; !stuck; time.Sleep(50 * time.Millisecond) {
			mu.Lock()
			stuck = time.Since(sent) > wait
			mu.Unlock()
			select {
			case err := <-done:
				k.Failf("idle time %v: a device that keeps sending without reading its answers cannot send: %v", ttl, err)
			default:
			}
		}
		mu.Lock()
		reading = true
		want := e.replies
		mu.Unlock()
		k.Note("packets", len(want))
		for i := range want {
			b, err := cl.readPacket(patience)
			if err != nil {
				k.Retryf("idle time %v: of %d answers, which the device reads after %v, the one number %d does not come: %v", ttl, len(want), wait, i, err)
			}
			if m := matchReply(want[i], splitReplies(k, b)[0]); m != "" {
				k.Failf("idle time %v: answer %d of %d, which the device reads after %v: %s", ttl, i, len(want), wait, m)
			}
		}
		if err := <-done; err != nil {
			k.Failf("idle time %v: sending ended with %v", ttl, err)
		}
		k.Count("answers_compared", int64(len(want)))
		k.Count("answers_read_late", int64(len(want)))
	})()
	oneStream := func(k *Case, s *script) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		k.Note("stream", s.raw)
		k.Sig(s.raw)
		out := play(k, rs.addr, s.raw, nil, 0)
		got := splitReplies(k, out)
		// the authorisation result is C22's; here it must only not disturb the acks
		var want []expReply
		for _, w := range s.exp.replies {
			if !w.auth {
				want = append(want, w)
			}
		}
		var acks []RPkg
		for _, g := range got {
			if g.PT == 0 {
				acks = append(acks, g)
			}
		}
		matchReplies(k, want, acks)
		k.Count("not_answered", int64(s.nGood-len(want)))
		for _, a := range acks {
			k.Count("confirmations", int64(len(confsOf(a))))
		}
	}
	c.Cases("streams", c.N(2500), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		oneStream(k, makeScript(d, 1+k.R.Intn(30)))
	})
	c.Cases("manyrecords", c.N(24), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		for i := 0; i < 2; i++ {
			p := d.head()
			n := []int{255, 256, 257, 1000, 4000, 9000}[k.R.Intn(6)]
			for j := 0; j < n; j++ {
				rec := RRec{RN: uint16(j), SST: 2, RST: 2}
				if k.R.Intn(50) == 0 {
					rec.Subs = []RSub{{tCntr, RAbsCnt{1, 2}}}
				}
				if len(p.Records)*7 > 60000 {
					break
				}
				p.Records = append(p.Records, rec)
			}
			if len(p.body()) > 65535 {
				p.Records = p.Records[:5000]
			}
			s.good(p)
			s.good(d.packet())
		}
		oneStream(k, s)
	})
	// a connection on which more packets are sent than there are packet numbers
	c.Cases("endless", 1, 1, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		s := &script{}
		for i := 0; i < 70000; i++ {
			p := d.head()
			if i%1000 == 500 {
				p = d.packet()
			} else {
				p.Records = []RRec{{RN: uint16(i), SST: 2, RST: 2, Subs: []RSub{{tCntr, RAbsCnt{1, uint32(i)}}}}}
			}
			s.good(p)
		}
		oneStream(k, s)
	})
	c.Cases("packetnumbers", c.N(12), srvPar, func(k *Case) { // all corners of the number space
		d := &dev{r: k.R}
		s := &script{}
		for _, pid := range []uint16{0, 1, 255, 256, 32767, 32768, 65534, 65535, 0, 0, 7, 7} {
			p := d.positions(1 + k.R.Intn(3))
			p.PID = pid
			for i := range p.Records {
				p.Records[i].RN = []uint16{0, 1, 65535, 32768, 256}[k.R.Intn(5)]
			}
			s.good(p)
		}
		oneStream(k, s)
	})
	// one packet at a time: the answer comes without any further input
	c.Cases("prompt", c.N(300), srvPar, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		d := &dev{r: k.R, pid: genU16(k.R)}
		cl := dial(k, rs.addr)
		defer cl.conn.Close()
		var all []byte
		for i := 0; i < 12; i++ {
			p := d.packet()
			e := expect{}
			e.feed(p)
			raw := p.bytes()
			all = append(all, raw...)
			k.Note("stream", all)
			if err := cl.write(raw); err != nil {
				k.Failf("the connection was closed: %v", err)
			}
			for _, w := range e.replies {
				b, err := cl.readPacket(patience)
				if err != nil {
					k.Retryf("no answer to packet %d: %v", p.PID, err)
				}
				g, _, err := parsePacket(b)
				if err != nil {
					k.Note("answer_bytes", b)
					k.Failf("answer is not a well-formed packet: %v", err)
				}
				if w.auth || g.PT != 0 {
					continue
				}
				if m := matchReply(w, g); m != "" {
					k.Failf("%s", m)
				}
				k.Count("prompt_answers", 1)
			}
		}
		k.Sig(all)
	})
}

// malform damages a packet in a way the receiver must refuse but can skip: it returns
// the bytes, the packet number they name and the code (-1: any but 0).
func malform(r *rand.Rand, d *dev) ([]byte, uint16, int, string) {
	for {
		p := d.positions(1 + r.Intn(3))
		if r.Intn(50) == 0 { // a long one
			for n, to := 0, r.Intn(64000); n < to; {
				rec := d.posRec()
				if n += len(rec.bytes()); n < 64000 {
					p.Records = append(p.Records, rec)
				}
			}
		}
		raw := p.bytes()
		hl := int(raw[3])
		pid := func(b []byte) uint16 { return binary.LittleEndian.Uint16(b[7:]) }
		switch r.Intn(9) {
		case 0: // header checksum
			raw[hl-1] ^= byte(1 + r.Intn(255))
			return raw, pid(raw), 137, "header checksum"
		case 1: // a header field
			at := []int{1, 2, 4, 7, 8, 9}[r.Intn(6)]
			x := byte(1 + r.Intn(255))
			if at == 2 {
				x = 1 << uint([]int{0, 1, 2, 3, 4, 6, 7}[r.Intn(7)])
			}
			raw[at] ^= x
			return raw, pid(raw), 137, "header field"
		case 2: // body
			raw[hl+r.Intn(len(raw)-hl)] ^= byte(1 + r.Intn(255))
			return raw, pid(raw), 138, "body"
		case 3: // type
			p.PT = uint8(2 + r.Intn(254))
			return p.bytes(), p.PID, -1, "packet type"
		case 4: // no body
			p.Records, p.Resp, p.Body = nil, nil, nil
			if r.Intn(3) == 0 {
				p.PT = 0
			}
			return p.bytes(), p.PID, -1, "no body"
		case 5: // inside does not add up
			body := mutate(r, p.body())
			if len(body) == 0 || len(body) > 65535 || refBody(1, body) != reject {
				continue
			}
			p.Body = body
			return p.bytes(), p.PID, -1, "undecodable body"
		case 6: // encrypted, and there is no key
			p.ENA = uint8(1 + r.Intn(3))
			return p.bytes(), p.PID, -1, "encrypted"
		case 7: // a response too short
			p.PT, p.Body = 0, randBytes(r, 1+r.Intn(2))
			return p.bytes(), p.PID, -1, "short response"
		case 8: // good up to the last record
			body := spoilEnd(r, p.body())
			if len(body) > 65535 || refBody(1, body) != reject {
				continue
			}
			p.Body = body
			return p.bytes(), p.PID, -1, "undecodable end"
		}
	}
}

// spoilEnd puts something that does not add up behind whole records.
func spoilEnd(r *rand.Rand, body []byte) []byte {
	var bad []byte
	switch r.Intn(4) {
	case 0: // too short for its type
		bad = RRec{RN: genU16(r), SST: 2, RST: 2, OBFE: coin(r), OID: 0xBADBAD, Subs: []RSub{{tPos, randBytes(r, 1+r.Intn(15))}}}.bytes()
	case 1:
		bad = RRec{RN: genU16(r), SST: 2, RST: 2, OBFE: coin(r), OID: 0xBADBAD, Subs: []RSub{{200, []byte{}}, {tTerm, randBytes(r, r.Intn(4))}}}.bytes()
	case 2: // longer than the rest
		bad = RRec{RN: genU16(r), SST: 2, RST: 2, OBFE: coin(r), OID: 0xBADBAD, Subs: []RSub{{tPos, randBytes(r, 21)}}}.bytes()
		bad = bad[:len(bad)-1-r.Intn(20)]
	case 3: // part of a record header
		bad = randBytes(r, 1+r.Intn(6))
	}
	return append(append([]byte(nil), body...), bad...)
}

func runC11(c *Ctx) {
	c.Require("malformed_sent", "answers_compared", "stored_compared", "closed_for_foreign_data", "others_undisturbed")
	mixed := func(k *Case, n int, p float64) *script {
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		s := &script{}
		for i := 0; i < n; i++ {
			if k.R.Float64() < p {
				b, pid, code, what := malform(k.R, d)
				s.add(b)
				s.exp.refuse(pid, code)
				s.nBad++
				k.Count("malformed_"+what, 1)
			} else {
				// stored records of malformed packets would show as extra ones here
				s.good(d.packet())
			}
		}
		return s
	}
	// more refusals on a connection than there are packet numbers
	c.Cases("endless", 1, 1, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		s := mixed(k, 66500, 0.99)
		k.Sig(s.raw)
		out := play(k, rs.addr, s.raw, nil, 0)
		matchReplies(k, s.exp.replies, splitReplies(k, out))
		matchOrder(k, s.exp.stored, st.all())
		k.Count("malformed_sent", int64(s.nBad))
	})
	c.Cases("onlybad", c.N(150), srvPar, func(k *Case) { // nothing is stored at all
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		s := mixed(k, 40, 1)
		k.Note("stream", s.raw)
		k.Sig(s.raw)
		out := play(k, rs.addr, s.raw, nil, 0)
		matchReplies(k, s.exp.replies, splitReplies(k, out))
		matchOrder(k, s.exp.stored, st.all())
		k.Count("malformed_sent", int64(s.nBad))
	})
	// each answer comes at once, and the next packet works
	c.Cases("stepwise", c.N(200), srvPar, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		cl := dial(k, rs.addr)
		defer cl.conn.Close()
		d := &dev{r: k.R, pid: genU16(k.R)}
		for i := 0; i < 10; i++ {
			b, pid, code, what := malform(k.R, d)
			good := d.positions(1)
			e := expect{}
			e.refuse(pid, code)
			e.feed(good)
			k.Note("malformed", b)
			k.Sig(b)
			for j, part := range [][]byte{b, good.bytes()} {
				if err := cl.write(part); err != nil {
					k.Failf("the connection was closed after a packet with a wrong %s: %v", what, err)
				}
				ans, err := cl.readPacket(patience)
				if err != nil {
					k.Retryf("no answer (%s): %v", what, err)
				}
				g, _, err := parsePacket(ans)
				if err != nil {
					k.Failf("answer is not a well-formed packet: %v", err)
				}
				if m := matchReply(e.replies[j], g); m != "" {
					k.Failf("%s: %s", what, m)
				}
			}
			k.Count("malformed_sent", 1)
			k.Count("answers_compared", 2)
		}
	})
	// foreign data and impossible header lengths close this connection only
	c.Cases("foreign", c.N(300), srvPar, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		other := dial(k, rs.addr)
		defer other.conn.Close()
		s := makeScript(d, k.R.Intn(4))
		var junk []byte
		answered := false
		switch k.R.Intn(3) {
		case 0:
			junk = randBytes(k.R, 10+k.R.Intn(60))
			for junk[0] == 1 {
				junk[0] = genU8(k.R)
			}
		case 1:
			junk = []byte("GET / HTTP/1.1\r\nHost: example.org\r\n\r\n")
		case 2:
			p := d.positions(1)
			junk = p.bytes()
			junk[3] = byte(k.R.Intn(10))
		}
		full := append(append([]byte(nil), s.raw...), junk...)
		k.Note("stream", full)
		k.Sig(full)
		cl := dial(k, rs.addr)
		defer cl.conn.Close()
		if err := cl.write(full); err != nil {
			k.Count("write_after_close", 1)
		}
		// no CloseWrite: the server must close on its own
		var out []byte
		buf := make([]byte, 4096)
		for {
			cl.conn.SetReadDeadline(time.Now().Add(patience))
			n, err := cl.conn.Read(buf)
			out = append(out, buf[:n]...)
			if err != nil {
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					k.Retryf("the connection stays open after data that is not this protocol")
				}
				break // closed or reset
			}
		}
		_ = answered
		// a reset may destroy answers under way, so only what arrived is compared
		for i, g := range func() []RPkg {
			var l []RPkg
			for len(out) > 0 {
				p, n, err := parsePacket(out)
				if err != nil {
					break
				}
				l = append(l, p)
				out = out[n:]
			}
			return l
		}() {
			if i >= len(s.exp.replies) {
				k.Failf("foreign data was answered")
			}
			if m := matchReply(s.exp.replies[i], g); m != "" {
				k.Failf("%s", m)
			}
		}
		k.Count("closed_for_foreign_data", 1)
		// what was sent before is stored, nothing of the rest, and others are served
		p := d.positions(2)
		e := expect{}
		e.feed(p)
		if err := other.write(p.bytes()); err != nil {
			k.Failf("another connection was closed too: %v", err)
		}
		ans, err := other.readPacket(patience)
		if err != nil {
			k.Retryf("another connection is not served any more: %v", err)
		}
		g, _, err := parsePacket(ans)
		if err != nil {
			k.Failf("%v", err)
		}
		if m := matchReply(e.replies[0], g); m != "" {
			k.Failf("other connection: %s", m)
		}
		matchOrder(k, append(s.exp.stored, e.stored...), st.all())
		k.Count("others_undisturbed", 1)
	})
	// a header length that contradicts the flags: refused in one way or the other, never stored
	c.Cases("headerlength", c.N(60), srvPar, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		p := d.positions(1)
		raw := p.bytes()
		hl := []byte{10, 12, 13, 15, 17, 18, 30, 255, 11, 16}[k.R.Intn(10)]
		if hl == raw[3] {
			hl++
		}
		body := raw[int(raw[3]):]
		h := append([]byte(nil), raw[:raw[3]]...)
		h[3] = hl
		for len(h) < int(hl) {
			h = append(h, genU8(k.R))
		}
		h = h[:hl]
		if len(h) > 10 && coin(k.R) {
			h[len(h)-1] = refCRC8(h[:len(h)-1])
		}
		full := append(h, body...)
		k.Note("stream", full)
		k.Sig(full)
		cl := dial(k, rs.addr)
		defer cl.conn.Close()
		cl.write(full)
		cl.conn.CloseWrite()
		out, err := cl.drain()
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			k.Retryf("the receiver neither answers nor closes")
		}
		for _, g := range splitReplies(k, out) {
			if g.Resp == nil || g.Resp.PR == 0 || g.Resp.RPID != p.PID {
				k.Failf("a packet with header length %d instead of %d was answered as if it were valid", hl, raw[3])
			}
		}
		matchOrder(k, nil, st.all())
		k.Count("malformed_sent", 1)
	})
	c.Cases("streams", c.N(2500), srvPar, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		s := mixed(k, 1+k.R.Intn(24), 0.5)
		k.Note("stream", s.raw)
		k.Sig(s.raw)
		out := play(k, rs.addr, s.raw, nil, 0)
		matchReplies(k, s.exp.replies, splitReplies(k, out))
		matchOrder(k, s.exp.stored, st.all())
		k.Count("malformed_sent", int64(s.nBad))
	})
}

func runC12(c *Ctx) {
	c.Require("stored_compared", "records_sent", "packets_refused")
	one := func(k *Case, s *script) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		k.Note("stream", s.raw)
		k.Sig(s.raw)
		play(k, rs.addr, s.raw, nil, 0)
		matchOrder(k, s.exp.stored, st.all())
		k.Count("records_sent", int64(len(s.exp.stored)))
	}
	c.Cases("streams", c.N(2500), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R), step: uint32(k.R.Intn(3))}
		s := &script{}
		for i, n := 0, 1+k.R.Intn(30); i < n; i++ {
			if k.R.Intn(5) == 0 {
				b, _, _, _ := malform(k.R, d)
				s.add(b)
				k.Count("packets_refused", 1)
			} else {
				s.good(d.packet())
			}
		}
		one(k, s)
	})
	// every arrangement of record kinds in one packet, up to four records
	kinds := []string{"pos", "none", "conf", "auth", "term", "empty"}
	var combos [][]int
	for a := range kinds {
		combos = append(combos, []int{a})
		for b := range kinds {
			combos = append(combos, []int{a, b})
			for x := range kinds {
				combos = append(combos, []int{a, b, x})
				for y := range kinds {
					combos = append(combos, []int{a, b, x, y})
				}
			}
		}
	}
	const per = 37
	groups := (len(combos) + per - 1) / per
	c.Cases("arrangements", groups, srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		for i := k.Index * per; i < (k.Index+1)*per && i < len(combos); i++ {
			p := d.head()
			for _, kd := range combos[i] {
				switch kinds[kd] {
				case "pos":
					p.Records = append(p.Records, d.posRec())
				case "none":
					p.Records = append(p.Records, d.noPosRec())
				case "conf":
					p.Records = append(p.Records, d.confRec())
				case "auth":
					p.Records = append(p.Records, d.authRec())
				case "term":
					p.Records = append(p.Records, d.termRec())
				case "empty":
					p.Records = append(p.Records, d.rec())
				}
			}
			s.good(p)
		}
		one(k, s)
		k.Count("arrangements", int64(len(combos)/groups))
	})
	c.mu.Lock()
	c.res.Exhaustive = append(c.res.Exhaustive, fmt.Sprintf("all %d arrangements of one to four records of six kinds in one packet", len(combos)))
	c.mu.Unlock()
	c.Cases("manyrecords", c.N(16), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		p := d.head()
		n := []int{255, 256, 257, 1000, 1800}[k.R.Intn(5)]
		for i := 0; i < n; i++ {
			p.Records = append(p.Records, RRec{RN: uint16(i), SST: 2, RST: 2, Subs: []RSub{{tPos, d.pos()}}})
		}
		s.good(p)
		s.good(d.positions(3))
		one(k, s)
	})
	// the same position sent again is a new record
	c.Cases("repeated", c.N(30), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		p := d.positions(2)
		for i := 0; i < 5; i++ {
			s.good(p)
		}
		p.PID++
		s.good(p)
		one(k, s)
	})
	// many packets over one connection, and over consecutive connections
	// more records on a connection than there are record numbers
	c.Cases("endless", 1, 1, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		s := &script{}
		for i := 0; i < 7000; i++ {
			s.good(d.positions(10))
		}
		one(k, s)
	})
	c.Cases("long", c.N(8), srvPar, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		d := &dev{r: k.R, pid: 65000, noTerm: true}
		var want []expNav
		for j := 0; j < 4; j++ {
			s := makeScript(d, 200)
			k.Sig(s.raw)
			play(k, rs.addr, s.raw, nil, 0)
			want = append(want, s.exp.stored...)
		}
		matchOrder(k, want, st.all())
		k.Count("records_sent", int64(len(want)))
	})
}

func runC13(c *Ctx) {
	c.Require("values_compared")
	one := func(k *Case, s *script) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		k.Note("stream", s.raw)
		k.Sig(s.raw)
		t0 := time.Now().Unix()
		play(k, rs.addr, s.raw, nil, 0)
		t1 := time.Now().Unix()
		if len(st.bad) > 0 {
			k.Failf("%s", st.bad[0])
		}
		got := st.all()
		if len(got) != len(s.exp.stored) {
			k.Failf("%d records stored, %d sent", len(got), len(s.exp.stored))
		}
		for i, w := range s.exp.stored {
			if *got[i].Client != w.client {
				k.Failf("record %d names object %d, want %d", i, *got[i].Client, w.client)
			}
			matchValues(k, w, got[i], t0, t1)
		}
	}
	c.Cases("streams", c.N(2500), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R), serial: k.R.Uint32() >> 1}
		s := &script{}
		for i, n := 0, 1+k.R.Intn(20); i < n; i++ {
			s.good(d.packet())
		}
		one(k, s)
	})
	// neighbours with and without each kind of data: nothing may leak from one to the next
	c.Cases("leaks", c.N(600), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		for i := 0; i < 6; i++ {
			p := d.head()
			for j := 0; j < 1+k.R.Intn(4); j++ {
				if coin(k.R) { // bare position
					rec := d.rec()
					rec.Subs = []RSub{{tPos, d.pos()}}
					p.Records = append(p.Records, rec)
				} else { // loaded position
					rec := d.rec()
					l := genLiq(k.R)
					l.LLSVU = uint8(k.R.Intn(3))
					rec.Subs = shuffle(k.R, []RSub{{tPos, d.pos()}, {tExt, genExt(k.R)}, {tAd, genAd(k.R)}, {tAd, genAd(k.R)}, {tAn, RAbsAn{genU8(k.R), genU24(k.R)}}, {tLiq, l},
						{tCntr, RAbsCnt{110, genU24(k.R)}}, {tCntr, RAbsCnt{111, uint32(genU8(k.R))}}})
					p.Records = append(p.Records, rec)
				}
				if coin(k.R) { // data without a position: must not show up elsewhere
					rec := d.rec()
					rec.Subs = []RSub{{tExt, genExt(k.R)}, {tAd, genAd(k.R)}, {tCntr, RAbsCnt{110, genU24(k.R)}}, {tCntr, RAbsCnt{111, 9}}}
					p.Records = append(p.Records, rec)
				}
			}
			s.good(p)
		}
		one(k, s)
	})
	// every course, many speeds, all hemispheres
	c.Cases("courses", 36, srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		p := d.head()
		for i := 0; i < 10; i++ {
			ps := d.pos()
			ps.Angle = uint16(k.Index*10 + i)
			ps.SPD = uint16(k.R.Intn(1 << 14))
			rec := d.rec()
			rec.Subs = []RSub{{tPos, ps}}
			p.Records = append(p.Records, rec)
		}
		s.good(p)
		one(k, s)
	})
	// many sensors in one record, numbers and values that repeat
	c.Cases("sensors", c.N(200), srvPar, func(k *Case) {
		r := k.R
		d := &dev{r: r, pid: genU16(r)}
		s := &script{}
		for i := 0; i < 3; i++ {
			p := d.head()
			for j := 0; j < 1+r.Intn(3); j++ {
				rec := d.rec()
				subs := []RSub{{tPos, d.pos()}}
				n := 1 + r.Intn(12)
				if r.Intn(10) == 0 {
					n = 200 + r.Intn(200)
				}
				for ; n > 0; n-- {
					switch r.Intn(4) {
					case 0:
						ad := genAd(r)
						if coin(r) {
							ad.ASFE = 0xff
						}
						if r.Intn(3) == 0 {
							ad.ANS[1], ad.ANS[2] = ad.ANS[0], ad.ANS[0]
						}
						subs = append(subs, RSub{tAd, ad})
					case 1:
						l := genLiq(r)
						l.LLSVU = uint8(r.Intn(3))
						subs = append(subs, RSub{tLiq, l})
						if r.Intn(4) == 0 {
							subs = append(subs, RSub{tLiq, l})
						}
					default:
						a := RAbsAn{uint8(r.Intn(10)), []uint32{0, 1, 0xffffff, genU24(r)}[r.Intn(4)]}
						subs = append(subs, RSub{tAn, a})
						if r.Intn(4) == 0 {
							subs = append(subs, RSub{tAn, a})
						}
					}
				}
				if coin(r) {
					subs = append(subs, RSub{tCntr, RAbsCnt{110, genU24(r)}}, RSub{tCntr, RAbsCnt{111, uint32(genU8(r))}})
				}
				if coin(r) {
					subs = shuffle(r, subs)
				}
				rec.Subs = subs
				p.Records = append(p.Records, rec)
			}
			s.good(p)
		}
		one(k, s)
	})
	c.Cases("corners", c.N(300), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		p := d.head()
		for i := 0; i < 16; i++ {
			ps := d.pos()
			ps.LAHS, ps.LOHS = i&1 != 0, i&2 != 0
			ps.ALTS, ps.ALTE = i&4 != 0, i&8 != 0
			ps.LAT = []uint32{0, 1, 0xffffffff, 0x80000000, k.R.Uint32()}[k.R.Intn(5)]
			ps.LONG = []uint32{0, 1, 0xffffffff, 0x80000000, k.R.Uint32()}[k.R.Intn(5)]
			ps.SPD = []uint16{0, 9, 10, 2559, 2560, 16383}[k.R.Intn(6)]
			rec := d.rec()
			ad := genAd(k.R)
			ad.ASFE = 1 << uint(i%8)
			ex := genExt(k.R)
			rec.Subs = []RSub{{tPos, ps}, {tAd, ad}, {tExt, ex}}
			for n := k.R.Intn(4); n > 0; n-- {
				l := genLiq(k.R)
				l.LLSVU = uint8(k.R.Intn(3))
				rec.Subs = append(rec.Subs, RSub{tLiq, l})
			}
			p.Records = append(p.Records, rec)
		}
		s.good(p)
		one(k, s)
	})
}

func cutStream(r *rand.Rand, raw []byte, how int) ([][]byte, string) {
	var out [][]byte
	switch how {
	case 0: // single bytes
		for i := range raw {
			out = append(out, raw[i:i+1])
		}
		return out, "single bytes"
	case 1: // small random pieces
		for len(raw) > 0 {
			n := 1 + r.Intn(7)
			if n > len(raw) {
				n = len(raw)
			}
			out = append(out, raw[:n])
			raw = raw[n:]
		}
		return out, "pieces of 1 to 7 bytes"
	case 2: // random pieces
		for len(raw) > 0 {
			n := 1 + r.Intn(len(raw))
			out = append(out, raw[:n])
			raw = raw[n:]
		}
		return out, "random pieces"
	case 3: // fixed size
		n := []int{9, 10, 11, 12, 16, 1448, 4096, 8192}[r.Intn(8)]
		for len(raw) > 0 {
			m := n
			if m > len(raw) {
				m = len(raw)
			}
			out = append(out, raw[:m])
			raw = raw[m:]
		}
		return out, fmt.Sprintf("pieces of %d bytes", n)
	}
	return [][]byte{raw}, "at once"
}

func runC14(c *Ctx) {
	c.Require("segments", "answers_compared", "stored_compared", "cut_points")
	one := func(k *Case, s *script, pieces [][]byte, how string, pause time.Duration) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		k.Note("stream", s.raw)
		k.Note("segmentation", how)
		k.Sig(s.raw, how)
		out := play(k, rs.addr, s.raw, pieces, pause)
		matchReplies(k, s.exp.replies, splitReplies(k, out))
		matchOrder(k, s.exp.stored, st.all())
		k.Count("segments", int64(len(pieces)))
	}
	// all cut points of a short stream: two segments with a pause
	c.Cases("everycut", c.N(4), 2, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		s := &script{}
		for len(s.raw) < 60 {
			p := d.head()
			rec := d.rec()
			rec.Subs = []RSub{{tPos, d.pos()}}
			p.Records = []RRec{rec}
			s.good(p)
		}
		p := d.head()
		p.PRF, p.RTE = 0, true
		rec := d.rec()
		rec.Subs = []RSub{{tAuth, genAuth(k.R)}}
		p.Records = []RRec{rec}
		s.good(p)
		b, pid, code, _ := malform(k.R, d)
		s.add(b)
		s.exp.refuse(pid, code)
		s.good(d.positions(1))
		k.Note("stream", s.raw)
		k.Sig(s.raw)
		rs := launch(k, "", 0)
		rs.stop(k)
		st := &recStore{}
		rs = launch(k, "", 0, st)
		defer rs.stop(k)
		// every cut point of the stream, many connections at a time
		sem := make(chan struct{}, 32)
		var wg sync.WaitGroup
		var mu sync.Mutex
		outs := map[int][]byte{}
		var failed interface{}
		for cut := 1; cut < len(s.raw); cut++ {
			cut := cut
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() {
					if e := recover(); e != nil {
						mu.Lock()
						failed = e
						mu.Unlock()
					}
					<-sem
					wg.Done()
				}()
				out := play(&Case{c: k.c, detail: map[string]interface{}{}}, rs.addr, s.raw, [][]byte{s.raw[:cut], s.raw[cut:]}, 4*time.Millisecond)
				mu.Lock()
				outs[cut] = out
				mu.Unlock()
			}()
		}
		wg.Wait()
		if failed != nil {
			panic(failed)
		}
		for cut, out := range outs {
			k.Note("cut", cut)
			matchReplies(k, s.exp.replies, splitReplies(k, out))
			k.Count("cut_points", 1)
			k.Count("segments", 2)
		}
		// every connection stored the same records
		count := map[uint32]int{}
		for _, n := range st.all() {
			count[n.id()]++
		}
		for _, w := range s.exp.stored {
			if count[w.id] != len(outs) {
				k.Failf("record with serial %d was stored %d times over %d connections that each sent it once", w.id, count[w.id], len(outs))
			}
		}
		if n := len(st.all()); n != len(s.exp.stored)*len(outs) {
			k.Failf("%d records stored, want %d", n, len(s.exp.stored)*len(outs))
		}
	})
	c.Cases("cuts", c.N(240), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		for i, n := 0, 1+k.R.Intn(6); i < n; i++ {
			if k.R.Intn(6) == 0 {
				b, pid, code, _ := malform(k.R, d)
				s.add(b)
				s.exp.refuse(pid, code)
			} else {
				s.good(d.packet())
			}
		}
		how := k.Index % 5
		pieces, name := cutStream(k.R, s.raw, how)
		pause := time.Duration(0)
		if coin(k.R) {
			pause = time.Duration(k.R.Intn(600)) * time.Microsecond
			if len(pieces) > 400 {
				pause = time.Nanosecond
			}
		}
		one(k, s, pieces, name, pause)
	})
	// the largest packets, whole and in pieces
	// packets of a given body length, twice in a row
	sized := func(k *Case, size int, how []int) {
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		s := &script{}
		p := d.head()
		for {
			rec := d.posRec()
			if len(p.body())+len(rec.bytes()) > size-400 || len(p.Records) > 300 {
				break
			}
			p.Records = append(p.Records, rec)
		}
		last := RRec{RN: 77, SST: 2, RST: 2}
		fill := size - len(p.body()) - 7 - 3 - 5
		last.Subs = []RSub{{tDisp, RDisp{1, 2, genText(k.R, fill)}}}
		p.Records = append(p.Records, last)
		s.good(d.positions(1))
		s.good(p)
		s.good(p)
		s.good(d.positions(1))
		pieces, name := cutStream(k.R, s.raw, how[k.R.Intn(len(how))])
		one(k, s, pieces, name, time.Duration(k.R.Intn(300))*time.Microsecond)
	}
	c.Cases("large", c.N(24), srvPar, func(k *Case) {
		sized(k, []int{65535, 65534, 65535 - 2, 32768, 50000, 4096, 4097}[k.R.Intn(7)], []int{2, 3, 4})
	})
	var sizes []int
	for n := 15; n < 300; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range nearPowers(300, 65535) {
		sizes = append(sizes, n, n-11, n-13) // as body, with header, and as whole packet
	}
	c.Cases("sizes", len(sizes), srvPar, func(k *Case) {
		how := []int{2, 3, 4}
		if sizes[k.Index] < 1000 {
			how = append(how, 0)
		}
		sized(k, sizes[k.Index], how)
	})
	// many packets in one segment
	c.Cases("burst", c.N(12), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := makeScript(d, 300)
		one(k, s, [][]byte{s.raw}, "300 packets at once", 0)
	})
}

func runC15(c *Ctx) {
	c.Require("attributed", "connections", "without_identifier")
	// packet with some records, identifiers as the mode says
	mk := func(d *dev, r *rand.Rand) RPkg {
		if r.Intn(5) == 0 {
			p := d.head()
			p.Records = []RRec{d.termRec()}
			if coin(r) {
				p.Records = append(p.Records, d.posRec())
				if coin(r) {
					p.Records[1].OBFE = false
				}
			}
			return p
		}
		p := d.head()
		for n := 1 + r.Intn(3); n > 0; n-- {
			rec := d.posRec()
			if r.Intn(4) == 0 {
				rec = d.noPosRec()
			}
			rec.OBFE = r.Intn(3) == 0
			if r.Intn(6) == 0 {
				rec.OID = 0
			}
			if r.Intn(8) == 0 { // identification and position in one record
				at := r.Intn(len(rec.Subs) + 1)
				rec.Subs = append(append(append([]RSub(nil), rec.Subs[:at]...), RSub{tTerm, genTerm(r)}), rec.Subs[at:]...)
			}
			p.Records = append(p.Records, rec)
		}
		if len(p.body()) == 0 {
			p.Records = []RRec{d.posRec()}
		}
		return p
	}
	check := func(k *Case, want map[uint32]expNav, got []Nav) {
		for _, n := range got {
			w, ok := want[n.id()]
			if !ok {
				continue // not this property's business
			}
			if *n.Client != w.client {
				k.Failf("record with serial %d is attributed to %d, want %d", n.id(), *n.Client, w.client)
			}
			if w.client == 0 {
				k.Count("without_identifier", 1)
			}
			k.Count("attributed", 1)
			delete(want, n.id())
		}
		if len(want) > 0 {
			k.Failf("%d records never reached the storage", len(want))
		}
	}
	// several connections, packets interleaved one at a time in a random order
	c.Cases("interleaved", c.N(800), srvPar, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		type cn struct {
			cl *client
			d  *dev
			e  expect
		}
		want := map[uint32]expNav{}
		var cs []*cn
		next := uint32(1)
		open := func() {
			cs = append(cs, &cn{cl: dial(k, rs.addr), d: &dev{r: k.R, pid: genU16(k.R), serial: next << 16}})
			next++
			k.Count("connections", 1)
		}
		var trace bytes.Buffer
		open()
		open()
		for i := 0; i < 30; i++ {
			switch x := k.R.Intn(10); {
			case x == 0 && len(cs) < 6:
				open()
			case x == 1 && len(cs) > 1: // close one and maybe come back later
				j := k.R.Intn(len(cs))
				cs[j].cl.conn.Close()
				cs = append(cs[:j], cs[j+1:]...)
			default:
				q := cs[k.R.Intn(len(cs))]
				if k.R.Intn(8) == 0 { // a refused packet must not set the identifier
					p := q.d.positions(1)
					p.Records[0].OBFE, p.Records[0].OID = true, 0xBADBAD
					for k.R.Intn(3) == 0 {
						x := []func() RRec{q.d.termRec, q.d.noPosRec, q.d.authRec, q.d.posRec}[k.R.Intn(4)]()
						if coin(k.R) {
							x.OBFE, x.OID = true, 0xBADBAE
						}
						p.Records = append(p.Records, x)
					}
					k.R.Shuffle(len(p.Records), func(i, j int) { p.Records[i], p.Records[j] = p.Records[j], p.Records[i] })
					how := k.R.Intn(6)
					switch how {
					case 0:
						p.PT = uint8(2 + k.R.Intn(254))
					case 1:
						p.ENA = uint8(1 + k.R.Intn(3))
					case 2, 3:
						body := spoilEnd(k.R, p.body())
						if refBody(1, body) != reject {
							continue
						}
						p.Body = body
					}
					raw := p.bytes()
					if how == 4 {
						raw[len(raw)-1] ^= 0x55
					}
					if how == 5 {
						raw[int(raw[3])-1] ^= 0x55
					}
					fmt.Fprintf(&trace, "%d:%x ", q.d.serial>>16, raw)
					q.cl.write(raw)
					if _, err := q.cl.readPacket(patience); err != nil {
						k.Retryf("no answer to a malformed packet: %v", err)
					}
					continue
				}
				p := mk(q.d, k.R)
				before := len(q.e.replies)
				stored := len(q.e.stored)
				q.e.feed(p)
				for _, w := range q.e.stored[stored:] {
					want[w.id] = w
				}
				raw := p.bytes()
				fmt.Fprintf(&trace, "%d:%x ", q.d.serial>>16, raw)
				k.Note("trace", trace.String())
				if err := q.cl.write(raw); err != nil {
					k.Failf("connection closed: %v", err)
				}
				for range q.e.replies[before:] {
					if _, err := q.cl.readPacket(patience); err != nil {
						k.Retryf("no answer: %v", err)
					}
				}
			}
		}
		k.Sig(trace.Bytes())
		for _, q := range cs {
			q.cl.conn.Close()
		}
		check(k, want, st.all())
	})
	// a later connection from the address and port of an earlier one knows nothing
	c.Cases("sameport", c.N(8), 4, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		want := map[uint32]expNav{}
		from, _ := net.ResolveTCPAddr("tcp", freshAddr())
		dl := net.Dialer{LocalAddr: from, Timeout: patience, Control: func(_, _ string, rc syscall.RawConn) error {
			return rc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1) })
		}}
		for i := 0; i < 4; i++ {
			var cl *client
			for try := 0; cl == nil && try < 20; try++ {
				if cn, err := dl.Dial("tcp", rs.addr); err == nil {
					cl = &client{k, cn.(*net.TCPConn)}
				} else {
					time.Sleep(25 * time.Millisecond)
				}
			}
			if cl == nil {
				break // the port is taken: fewer connections to look at
			}
			k.Count("connections", 1)
			d := &dev{r: k.R, pid: genU16(k.R), serial: uint32(i+1) << 16}
			e := &expect{}
			for j := 0; j < 3; j++ {
				p := mk(d, k.R)
				if j == 0 {
					p = d.positions(1)
					p.Records[0].OBFE = i%2 == 0
				}
				was := len(e.replies)
				e.feed(p)
				if err := cl.write(p.bytes()); err != nil {
					k.Retryf("write failed: %v", err)
				}
				for range e.replies[was:] {
					if _, err := cl.readPacket(patience); err != nil {
						k.Retryf("no answer: %v", err)
					}
				}
			}
			for _, w := range e.stored {
				want[w.id] = w
			}
			rst(cl.conn)
		}
		k.Sig(k.Index)
		check(k, want, st.all())
	})
	// more connections to one server than there are 16-bit numbers, beside some that stay
	c.Cases("succession", 1, 1, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		var mu sync.Mutex
		want := map[uint32]expNav{}
		type stay struct {
			cl *client
			d  *dev
			e  *expect
		}
		talk := func(k *Case, q *stay, p RPkg) {
			was, ws := len(q.e.replies), len(q.e.stored)
			q.e.feed(p)
			mu.Lock()
			for _, w := range q.e.stored[ws:] {
				want[w.id] = w
			}
			mu.Unlock()
			if err := q.cl.write(p.bytes()); err != nil {
				k.Retryf("write failed: %v", err)
			}
			for range q.e.replies[was:] {
				if _, err := q.cl.readPacket(patience); err != nil {
					k.Retryf("no answer: %v", err)
				}
			}
		}
		open := func(k *Case, r *rand.Rand, serial uint32) *stay {
			return &stay{dial(k, rs.addr), &dev{r: r, pid: genU16(r), serial: serial}, &expect{}}
		}
		with := func(d *dev, id bool) RPkg {
			p := d.positions(1)
			p.Records[0].OBFE = id
			if id {
				p.Records[0].OID = 1 + d.r.Uint32()>>1
			}
			return p
		}
		var long []*stay
		for i := 0; i < 6; i++ {
			q := open(k, subRand(k.R), 0xf0000000+uint32(i)<<16)
			talk(k, q, with(q.d, i != 0))
			long = append(long, q)
		}
		const lanes = 8
		each := c.N(66000) / lanes
		if each > 140000/lanes {
			each = 140000 / lanes
		}
		var fs []func(*Case)
		for l := 0; l < lanes; l++ {
			l, r := l, subRand(k.R)
			fs = append(fs, func(k *Case) {
				for i := 0; i < each; i++ {
					q := open(k, r, uint32(l*each+i)<<4)
					if i%40 == 0 {
						talk(k, q, with(q.d, coin(r)))
						talk(k, q, with(q.d, false))
					} else if i%3 == 0 {
						q.cl.write(randBytes(r, 1+r.Intn(5)))
					}
					rst(q.cl.conn)
				}
			})
		}
		together(k, fs...)
		for _, q := range long {
			for i := 0; i < 3; i++ {
				talk(k, q, with(q.d, false))
			}
			q.cl.conn.Close()
		}
		k.Count("connections", int64(lanes*each))
		k.Sig(k.Index)
		check(k, want, st.all())
	})
	// connections at the same time, without lockstep
	c.Cases("parallel", c.N(30), 2, func(k *Case) {
		st := &recStore{hook: func(Nav) error { time.Sleep(50 * time.Microsecond); return nil }}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		want := map[uint32]expNav{}
		var scripts []*script
		for i := 0; i < 12; i++ {
			r := rand.New(rand.NewSource(k.R.Int63()))
			d := &dev{r: r, pid: genU16(r), serial: uint32(i+1) << 16}
			s := &script{}
			for j := 0; j < 12; j++ {
				s.good(mk(d, r))
			}
			for _, w := range s.exp.stored {
				want[w.id] = w
			}
			k.Sig(s.raw)
			scripts = append(scripts, s)
		}
		playAll(k, rs.addr, scripts)
		k.Count("connections", int64(len(scripts)))
		check(k, want, st.all())
	})
	// a device that reconnects without identifying itself is not the one before it
	c.Cases("reconnect", c.N(200), srvPar, func(k *Case) {
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		want := map[uint32]expNav{}
		d := &dev{r: k.R, pid: genU16(k.R)}
		for i := 0; i < 5; i++ {
			s := &script{}
			for j := 0; j < 4; j++ {
				p := d.positions(2)
				for x := range p.Records {
					p.Records[x].OBFE = j > 1 && coin(k.R)
				}
				s.good(p)
			}
			for _, w := range s.exp.stored {
				want[w.id] = w
			}
			k.Sig(s.raw)
			play(k, rs.addr, s.raw, nil, 0)
			k.Count("connections", 1)
		}
		check(k, want, st.all())
	})
}

// playAll plays scripts at the same time, each over its own connection.
func playAll(k *Case, addr string, scripts []*script) [][]byte {
	outs := make([][]byte, len(scripts))
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failed interface{}
	for i := range scripts {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					failed = e
					mu.Unlock()
				}
			}()
			outs[i] = play(&Case{c: k.c, detail: map[string]interface{}{}}, addr, scripts[i].raw, nil, 0)
		}()
	}
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
	return outs
}

func runC22(c *Ctx) {
	c.Require("auth_answers", "packets_without_auth")
	one := func(k *Case, s *script) {
		st := &recStore{}
		fail := k.R.Intn(8) // of eight saves
		if fail > 3 {
			fail = 0
		} else if fail == 3 {
			fail = 8
		}
		k.Note("failing saves of eight", fail)
		st.hook = func(n Nav) error {
			if int(n.id()*2654435761>>29) < fail {
				return errStore
			}
			return nil
		}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		k.Note("stream", s.raw)
		k.Sig(s.raw)
		got := splitReplies(k, play(k, rs.addr, s.raw, nil, 0))
		// only kind and order matter here
		i := 0
		for n, w := range s.exp.replies {
			if i >= len(got) {
				k.Failf("answer %d is missing (authorisation=%v)", n, w.auth)
			}
			if w.auth {
				if m := isAuthAnswer(got[i]); m != "" {
					k.Failf("answer %d should be the authorisation result: %s", n, m)
				}
				k.Count("auth_answers", 1)
			} else {
				if got[i].PT != 0 || got[i].Resp == nil || got[i].Resp.RPID != w.rpid {
					k.Failf("answer %d should be the acknowledgement of packet %d, got packet type %d", n, w.rpid, got[i].PT)
				}
				k.Count("packets_without_auth", 1)
			}
			i++
		}
		if i < len(got) {
			k.Failf("%d answers, want %d", len(got), i)
		}
	}
	c.Cases("streams", c.N(2000), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		for i, n := 0, 1+k.R.Intn(15); i < n; i++ {
			p := d.head()
			switch k.R.Intn(7) {
			case 0:
				p.Records = []RRec{d.termRec()}
			case 1:
				p.Records = []RRec{d.authRec()}
			case 2: // several in one packet: one answer
				p.Records = []RRec{d.termRec(), d.authRec(), d.termRec()}
			case 3: // between others
				p.Records = []RRec{d.posRec(), d.authRec(), d.posRec(), d.noPosRec()}
			case 4:
				p.Records = []RRec{d.noPosRec(), d.posRec(), d.termRec()}
				if coin(k.R) {
					p.Records = append(p.Records, d.confRec())
				}
			case 5:
				b, pid, code, _ := malform(k.R, d)
				s.add(b)
				s.exp.refuse(pid, code)
				continue
			default:
				p = d.packet()
			}
			s.good(p)
		}
		one(k, s)
	})
	// a device that identifies itself again and again, with the same data
	c.Cases("again", c.N(150), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		var term, auth RRec
		term, auth = d.termRec(), d.authRec()
		for i, n := 0, 3+k.R.Intn(8); i < n; i++ {
			p := d.head()
			switch k.R.Intn(5) {
			case 0:
				p.Records = []RRec{term}
			case 1, 2:
				p.Records = []RRec{auth}
			case 3:
				p.Records = []RRec{term, auth}
			default:
				p.Records = []RRec{d.posRec()}
			}
			s.good(p)
			if k.R.Intn(4) == 0 {
				s.good(p)
			}
		}
		one(k, s)
	})
	// more authorisations on a connection than there are packet numbers
	c.Cases("endless", 1, 1, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		for i := 0; i < 66500; i++ {
			p := d.head()
			switch i % 11 {
			case 3:
				p.Records = []RRec{d.posRec()}
			case 5:
				p.Records = []RRec{d.authRec()}
			default:
				p.Records = []RRec{d.termRec()}
			}
			s.good(p)
		}
		one(k, s)
	})
	// every combination of TERM_IDENTITY flags, and a packet after it
	c.Cases("termflags", 64, srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		for i := 0; i < 4; i++ {
			p := d.head()
			rec := d.rec()
			t := genTermFlags(k.R, uint8(k.Index*4+i))
			rec.OBFE = false
			rec.Subs = []RSub{{tTerm, t}}
			p.Records = []RRec{rec}
			s.good(p)
			s.good(d.positions(1))
		}
		one(k, s)
	})
	// authorisation data in a refused packet gets no result code
	c.Cases("refused", c.N(40), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R)}
		s := &script{}
		for i := 0; i < 6; i++ {
			p := d.head()
			p.Records = []RRec{d.authRec(), d.termRec()}
			raw := p.bytes()
			raw[len(raw)-1-k.R.Intn(20)] ^= 0x10
			s.add(raw)
			s.exp.refuse(p.PID, 138)
			s.good(d.positions(1))
		}
		one(k, s)
	})
}

func runC07Server(c *Ctx) {
	c.Cases("server", c.N(500), srvPar, func(k *Case) {
		d := &dev{r: k.R, pid: genU16(k.R), noTerm: true}
		s := &script{}
		for i := 0; i < 6; i++ {
			p := d.positions(1 + k.R.Intn(3))
			q, n := withUnknown(k.R, p, 60)
			s.good(q)
			k.Count("unknown_subrecords", int64(n))
			k.Count("server_packets", 1)
		}
		st := &recStore{}
		rs := launch(k, "", 0, st)
		defer rs.stop(k)
		k.Note("stream", s.raw)
		k.Sig(s.raw)
		t0 := time.Now().Unix()
		out := play(k, rs.addr, s.raw, nil, 0)
		matchReplies(k, s.exp.replies, splitReplies(k, out))
		got := st.all()
		matchOrder(k, s.exp.stored, got)
		for i, w := range s.exp.stored {
			matchValues(k, w, got[i], t0, time.Now().Unix())
		}
	})
}
