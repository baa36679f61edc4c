//go:build go1.22

package main

// C04 - C09: damaged and hostile input, unknown subrecords, independence of calls, keys.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sync"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

func init() {
	register("C04", Check{Run: runC04, Rule: "a case is one valid packet with a set of damages: every single bit flip and every truncation of small packets, sampled bursts, multi-bit flips, byte swaps and cuts of packets of all sizes; distinct by the undamaged packet's bytes. " +
		"Whether a damaged packet must be refused is decided by independent checksums."})
	register("C05", Check{Run: runC05, Limit: 60e9, Rule: "a case is one batch of hostile inputs: random bytes, mutated packets (checksums repaired or not), mutated sections fed to each section decoder, deeply nested confirmations, recorded traffic mutated; distinct by the batch's inputs. " +
		"Observed: return without panic within the time limit, code 0 exactly without error, encoding and JSON of whatever was accepted."})
	register("C06", Check{Run: runC06, Rule: "a case is one packet with correct checksums whose inside was edited (lengths, flags, cut or added bytes at every level); distinct by packet bytes; the accept/refuse decision is compared with an independent strict parser."})
	register("C07", Check{Run: runC07, Rule: "a case is one packet with subrecords of unknown types inserted at random positions and compared with the same packet without them, in the library and through the receiver; distinct by packet bytes."})
	register("C08", Check{Run: runC08, Race: true, Rule: "a case is one batch of packets whose decode/encode results are computed once alone and then again repeatedly, in other orders, between failing calls and from many goroutines, under the race detector; distinct by the batch's bytes."})
	register("C09", Check{Run: runC09, Rule: "a case is one packet and one instrumented key (transforming, growing, shrinking or failing) or none; distinct by packet bytes and kind of key. The calls the key saw are compared with the bytes of the packet."})
}

// ---- C04 ----

func runC04(c *Ctx) {
	c.Require("bit_flips", "truncations", "header_crc_reported", "data_crc_reported", "bursts", "forged_checksums")
	try := func(k *Case, what string, orig, bad []byte) {
		if _, ok := refFrame(bad); ok {
			k.Count("damage_matching_checksums", 1)
			return
		}
		p := egts.Package{}
		code, err := p.Decode(bad)
		if err == nil || code == 0 {
			k.Note("damaged", bad)
			k.Note("damage", what)
			k.Failf("%s: damaged packet accepted (code %d, error %v)", what, code, err)
		}
		k.Count("refused", 1)
		if len(bad) != len(orig) {
			return
		}
		hl := int(orig[3])
		lens, head, body := false, false, false
		for i := range orig {
			x := orig[i] ^ bad[i]
			if x == 0 {
				continue
			}
			switch {
			case i == 2:
				if x&0x20 != 0 {
					lens = true
				} else {
					head = true
				}
			case i == 3 || i == 5 || i == 6:
				lens = true
			case i < hl:
				head = true
			default:
				body = true
			}
		}
		if head && !lens && !body {
			if code != 137 {
				k.Note("damaged", bad)
				k.Failf("%s: header damage reported as %d, want 137", what, code)
			}
			k.Count("header_crc_reported", 1)
		}
		if body && !lens && !head {
			if code != 138 {
				k.Note("damaged", bad)
				k.Failf("%s: body damage reported as %d, want 138", what, code)
			}
			k.Count("data_crc_reported", 1)
		}
	}
	flips := func(k *Case, raw []byte) {
		bad := append([]byte(nil), raw...)
		for i := 0; i < len(raw)*8; i++ {
			bad[i/8] ^= 1 << uint(i%8)
			try(k, fmt.Sprintf("bit %d of byte %d", i%8, i/8), raw, bad)
			bad[i/8] = raw[i/8]
			k.Count("bit_flips", 1)
		}
	}
	cuts := func(k *Case, raw []byte) {
		for i := 0; i < len(raw); i++ {
			try(k, fmt.Sprintf("cut to %d of %d bytes", i, len(raw)), raw, raw[:i:i])
			k.Count("truncations", 1)
		}
	}
	small := func(r *rand.Rand) RPkg {
		for {
			p := genPkg(r)
			if n := len(p.bytes()); n < 200 {
				return p
			}
		}
	}
	c.Cases("complete", c.N(400), codecPar, func(k *Case) {
		raw := small(k.R).bytes()
		k.Note("packet", raw)
		k.Sig(raw)
		flips(k, raw)
		cuts(k, raw)
	})
	c.Cases("sampled", c.N(3000), codecPar, func(k *Case) {
		var p RPkg
		if k.Index%60 == 59 {
			p = genBig(k.R, 20000+k.R.Intn(45536))
		} else {
			p = genPkg(k.R)
		}
		raw := p.bytes()
		k.Note("packet", raw)
		k.Sig(raw)
		r := k.R
		for i := 0; i < 40; i++ {
			bad := append([]byte(nil), raw...)
			hl := int(raw[3])
			lo, n := 0, len(raw)
			switch r.Intn(3) { // damage in the header only, the body only, or anywhere
			case 0:
				n = hl
			case 1:
				lo, n = hl, len(raw)-hl
			}
			what := ""
			switch r.Intn(6) {
			case 0: // a burst
				at := lo + r.Intn(n)
				for j, m := 0, 1+r.Intn(4); j < m && at+j < lo+n; j++ {
					bad[at+j] ^= byte(1 + r.Intn(255))
				}
				what = fmt.Sprintf("burst at %d", at)
				k.Count("bursts", 1)
			case 1: // some bits
				for j, m := 0, 1+r.Intn(6); j < m; j++ {
					bad[lo+r.Intn(n)] ^= 1 << uint(r.Intn(8))
				}
				what = "scattered bits"
			case 2: // two bytes exchanged
				a, b := lo+r.Intn(n), lo+r.Intn(n)
				bad[a], bad[b] = bad[b], bad[a]
				what = fmt.Sprintf("bytes %d and %d exchanged", a, b)
			case 3: // a stretch zeroed or filled
				a := lo + r.Intn(n)
				b := a + r.Intn(lo+n-a) + 1
				v := []byte{0, 0xff}[r.Intn(2)]
				for j := a; j < b; j++ {
					bad[j] = v
				}
				what = fmt.Sprintf("bytes %d to %d overwritten", a, b)
			case 4: // cut
				at := r.Intn(len(raw))
				bad = bad[:at:at]
				what = fmt.Sprintf("cut to %d", at)
				k.Count("truncations", 1)
			case 5: // single bit
				at := lo + r.Intn(n)
				bad[at] ^= 1 << uint(r.Intn(8))
				what = fmt.Sprintf("one bit of byte %d", at)
				k.Count("bit_flips", 1)
			}
			if bytes.Equal(bad, raw) {
				continue
			}
			try(k, what, raw, bad)
		}
	})
	// the last byte, the last but one, the ends of large packets
	c.Cases("large", c.N(24), codecPar, func(k *Case) {
		p := genBig(k.R, []int{65535, 65534, 32768, 4096, 40000, 256}[k.Index%6])
		raw := p.bytes()
		k.Sig(raw)
		for _, at := range []int{0, 1, int(raw[3]), int(raw[3]) + 1, len(raw) / 2, 32767, 32768, len(raw) - 4, len(raw) - 3, len(raw) - 2, len(raw) - 1} {
			if at >= len(raw) {
				continue
			}
			bad := append([]byte(nil), raw...)
			bad[at] ^= 1 << uint(k.R.Intn(8))
			try(k, fmt.Sprintf("one bit of byte %d of %d", at, len(raw)), raw, bad)
			try(k, fmt.Sprintf("cut to %d of %d bytes", at, len(raw)), raw, raw[:at:at])
			k.Count("bit_flips", 1)
			k.Count("truncations", 1)
		}
	})
	// checksums that a careless check might let pass
	c.Cases("forged", c.N(1500), codecPar, func(k *Case) {
		p := genPkg(k.R)
		if k.Index%50 == 49 {
			p = genBig(k.R, 1000+k.R.Intn(64000))
		}
		raw := p.bytes()
		k.Sig(raw)
		k.Note("packet", raw)
		hl := int(raw[3])
		head, body := raw[:hl], raw[hl:len(raw)-2]
		sum := uint16(raw[len(raw)-2]) | uint16(raw[len(raw)-1])<<8
		alt := []uint16{0, 0xffff, 1, sum<<8 | sum>>8, ^sum, sum ^ 0xffff>>1, sum & 0xff, sum & 0xff00, sum | 0xff, sum | 0xff00, sum + 1, sum - 1,
			refCRC16(raw[:len(raw)-2]), refCRC16(head), uint16(len(body)), uint16(refCRC8(body)), uint16(head[hl-1])}
		for _, n := range []int{len(body) - 1, len(body) - 2, len(body) / 2, 1, 2, 3, 7, 64, 128, 255, 256, 512, 1024, 2048, 4096, 8192, 16384, 32767, 32768} {
			if n > 0 && n < len(body) {
				alt = append(alt, refCRC16(body[:n]), refCRC16(body[n:]))
			}
		}
		for _, v := range alt {
			if v == sum {
				continue
			}
			bad := append([]byte(nil), raw...)
			bad[len(bad)-2], bad[len(bad)-1] = byte(v), byte(v>>8)
			try(k, fmt.Sprintf("data checksum %#x instead of %#x", v, sum), raw, bad)
			k.Count("forged_checksums", 1)
		}
		hs := head[hl-1]
		ha := []byte{0, 0xff, ^hs, hs + 1, hs - 1, hs ^ 0x80, refCRC8(head), refCRC8(raw), byte(sum)}
		for n := 1; n < hl-1; n++ {
			ha = append(ha, refCRC8(head[:n]), refCRC8(head[n:hl-1]))
		}
		for _, v := range ha {
			if v == hs {
				continue
			}
			bad := append([]byte(nil), raw...)
			bad[hl-1] = v
			try(k, fmt.Sprintf("header checksum %#x instead of %#x", v, hs), raw, bad)
			k.Count("forged_checksums", 1)
		}
	})
	// two packets glued after a cut: the rest of one must not complete the other
	c.Cases("spliced", c.N(3000), codecPar, func(k *Case) {
		a, b := small(k.R).bytes(), small(k.R).bytes()
		at := k.R.Intn(len(a))
		bad := append(append([]byte(nil), a[:at]...), b...)
		k.Note("spliced", bad)
		k.Sig(bad)
		try(k, fmt.Sprintf("cut at %d and followed by another packet", at), nil, bad)
	})
}

// ---- C05 ----

func sectionDecoders() map[string]func() egts.BinaryData {
	return map[string]func() egts.BinaryData{
		"ServiceDataSet":       func() egts.BinaryData { return &egts.ServiceDataSet{} },
		"RecordDataSet":        func() egts.BinaryData { return &egts.RecordDataSet{} },
		"PtResponse":           func() egts.BinaryData { return &egts.PtResponse{} },
		"SrPosData":            func() egts.BinaryData { return &egts.SrPosData{} },
		"SrExtPosData":         func() egts.BinaryData { return &egts.SrExtPosData{} },
		"SrAdSensorsData":      func() egts.BinaryData { return &egts.SrAdSensorsData{} },
		"SrCountersData":       func() egts.BinaryData { return &egts.SrCountersData{} },
		"SrTermIdentity":       func() egts.BinaryData { return &egts.SrTermIdentity{} },
		"SrModuleData":         func() egts.BinaryData { return &egts.SrModuleData{} },
		"SrAuthInfo":           func() egts.BinaryData { return &egts.SrAuthInfo{} },
		"SrDispatcherIdentity": func() egts.BinaryData { return &egts.SrDispatcherIdentity{} },
		"SrAbsAnSensData":      func() egts.BinaryData { return &egts.SrAbsAnSensData{} },
		"SrAbsCntrData":        func() egts.BinaryData { return &egts.SrAbsCntrData{} },
		"SrLiquidLevelSensor":  func() egts.BinaryData { return &egts.SrLiquidLevelSensor{} },
		"SrResponse":           func() egts.BinaryData { return &egts.SrResponse{} },
		"SrResultCode":         func() egts.BinaryData { return &egts.SrResultCode{} },
		"SrStateData":          func() egts.BinaryData { return &egts.SrStateData{} },
		"StorageRecord":        func() egts.BinaryData { return &egts.StorageRecord{} },
	}
}

var sectionTypes = map[string][]uint8{
	"SrPosData": {tPos}, "SrExtPosData": {tExt}, "SrAdSensorsData": {tAd}, "SrCountersData": {tCnt}, "SrTermIdentity": {tTerm}, "SrModuleData": {tMod},
	"SrAuthInfo": {tAuth}, "SrDispatcherIdentity": {tDisp}, "SrAbsAnSensData": {tAn}, "SrAbsCntrData": {tCntr}, "SrLiquidLevelSensor": {tLiq},
	"SrResponse": {tConf}, "SrResultCode": {tRes}, "SrStateData": {tSt}, "StorageRecord": {tPlus},
}

var sectionNames = func() []string {
	var out []string
	for n := range sectionDecoders() {
		out = append(out, n)
	}
	// fixed order
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}()

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(5) {
	case 0:
		r.Read(b)
	case 4: // texts with delimiters
		for i := range b {
			b[i] = []byte{0, 'a', 'b', 'c', 'd', 'e', 0xd0, 0xff}[r.Intn(8)]
		}
	case 1: // few values, many zeros
		for i := range b {
			if r.Intn(3) == 0 {
				b[i] = byte(r.Intn(4))
			}
		}
	case 2: // plausible types and lengths
		for i := range b {
			b[i] = []byte{0, 1, 2, 5, 7, 9, 15, 16, 17, 18, 19, 20, 21, 24, 25, 27, 3, 4, 0, 0, 0, 255}[r.Intn(22)]
		}
	default:
		v := byte(r.Intn(256))
		for i := range b {
			b[i] = v
		}
	}
	return b
}

// mutate edits bytes in place and in length.
func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch r.Intn(8) {
		case 0:
			if len(b) > 0 {
				b[r.Intn(len(b))] = genU8(r)
			}
		case 1:
			if len(b) > 0 {
				b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			}
		case 2:
			if len(b) > 0 {
				at := r.Intn(len(b))
				b = b[:at]
			}
		case 3:
			at := r.Intn(len(b) + 1)
			b = append(b[:at:at], append(randBytes(r, 1+r.Intn(8)), b[at:]...)...)
		case 4:
			if len(b) > 2 {
				at := r.Intn(len(b) - 1)
				binary.LittleEndian.PutUint16(b[at:], genU16(r))
			}
		case 5:
			if len(b) > 1 {
				at := r.Intn(len(b))
				n := 1 + r.Intn(len(b)-at)
				b = append(b[:at:at], b[at+n:]...)
			}
		case 6:
			b = append(b, randBytes(r, r.Intn(20))...)
		case 7:
			if len(b) > 1 {
				at := r.Intn(len(b))
				n := 1 + r.Intn(len(b)-at)
				b = append(b, b[at:at+n]...)
			}
		}
	}
	return b
}

// wrap puts a body into a packet with correct lengths and checksums.
func wrap(r *rand.Rand, pt uint8, body []byte) []byte {
	p := genHeader(r)
	p.PT = pt
	if len(body) > 65535 {
		body = body[:65535]
	}
	p.Body = body
	return p.bytes()
}

func runC05(c *Ctx) {
	c.Require("packets_decoded", "packets_accepted", "packets_refused", "sections_decoded", "sections_accepted", "accepted_reencoded", "nested_confirmations")
	pkt := func(k *Case, raw []byte) {
		k.detail["packet"] = raw // formatted on demand
		p := egts.Package{}
		code, err := p.Decode(raw)
		k.Count("packets_decoded", 1)
		if (code == 0) != (err == nil) {
			k.Note("packet", raw)
			k.Failf("result code %d with error %v", code, err)
		}
		if err != nil {
			k.Count("packets_refused", 1)
			return
		}
		k.Count("packets_accepted", 1)
		p.ToBytes()
		p.ServicesFrameData.Length()
		if _, err := p.Encode(); err == nil {
			k.Count("accepted_reencoded", 1)
		}
		p.ToBytes()
	}
	fin := func(k *Case) {
		if b, ok := k.detail["packet"].([]byte); ok {
			k.Note("packet", b)
		}
	}
	c.Cases("random", c.N(1500), codecPar, func(k *Case) {
		defer fin(k)
		for i := 0; i < 40; i++ {
			raw := randBytes(k.R, k.R.Intn(80))
			if k.R.Intn(3) == 0 && len(raw) > 3 {
				raw[0], raw[3] = 1, []byte{11, 16, 10, 0, 255}[k.R.Intn(5)]
			}
			k.Sig(raw)
			pkt(k, raw)
		}
	})
	c.Cases("lengths", 256, codecPar, func(k *Case) { // every header length with and without route, body of various lengths
		defer fin(k)
		for _, fl := range []byte{0, 0x20, 0x08, 0xff} {
			for _, n := range []int{0, 3, 10, 11, 12, 15, 16, 17, 30, 260} {
				for _, fdl := range []uint16{0, 1, 7, 65535} {
					raw := make([]byte, n)
					k.R.Read(raw)
					for i, v := range []byte{1, 0, fl, byte(k.Index), 0, byte(fdl), byte(fdl >> 8), 5, 0, byte(k.R.Intn(3))} {
						if i < n {
							raw[i] = v
						}
					}
					for _, hl := range []int{k.Index, 11, 16} {
						if hl >= 1 && hl <= n {
							raw[hl-1] = refCRC8(raw[:hl-1])
						}
					}
					k.Sig(raw)
					pkt(k, raw)
				}
			}
		}
	})
	real := traffic()
	c.Cases("mutated", c.N(3000), codecPar, func(k *Case) {
		defer fin(k)
		var body []byte
		pt := uint8(1)
		switch k.R.Intn(4) {
		case 0:
			raw := real[k.R.Intn(len(real))]
			if b, ok := refFrame(raw); ok {
				body, pt = b, raw[9]
			}
		default:
			p := genPkg(k.R)
			body, pt = p.body(), p.PT
		}
		if r := k.R.Intn(30); r == 0 {
			pt = genU8(k.R)
		}
		for i := 0; i < 15; i++ {
			raw := wrap(k.R, pt, mutate(k.R, body))
			if k.R.Intn(6) == 0 {
				raw = mutate(k.R, raw)
			}
			k.Sig(raw)
			pkt(k, raw)
		}
	})
	sect := func(k *Case, name string, b []byte) {
		k.detail["section"] = b
		d := sectionDecoders()[name]()
		err := d.Decode(b)
		k.Count("sections_decoded", 1)
		if err == nil {
			k.Count("sections_accepted", 1)
			d.Length()
			d.Encode()
		}
	}
	for _, name := range sectionNames {
		name := name
		c.Cases("sec_"+name, c.N(250), codecPar, func(k *Case) {
			defer func() {
				if b, ok := k.detail["section"].([]byte); ok {
					k.Note("section", b)
				}
			}()
			for i := 0; i < 40; i++ {
				var b []byte
				if ts := sectionTypes[name]; len(ts) > 0 && coin(k.R) {
					b = mutate(k.R, genSubOf(k.R, ts[0]).content())
				} else if coin(k.R) {
					b = randBytes(k.R, k.R.Intn(70))
				} else if name == "RecordDataSet" {
					b = mutate(k.R, genRec(k.R, 1+k.R.Intn(3)).data())
				} else {
					b = mutate(k.R, recsBytes([]RRec{genRec(k.R, 1+k.R.Intn(3))}))
				}
				k.Sig(b)
				sect(k, name, b)
			}
			// every prefix of a valid section
			if ts := sectionTypes[name]; len(ts) > 0 {
				b := genSubOf(k.R, ts[0]).content()
				for i := 0; i <= len(b); i++ {
					sect(k, name, b[:i:i])
				}
			}
		})
	}
	c.Cases("nested", c.N(24), codecPar, func(k *Case) {
		defer fin(k)
		// confirmations whose trailing bytes are records with confirmations, as deep as fits
		depth := []int{1, 2, 10, 100, 1000, 5000}[k.Index%6]
		var b []byte
		for i := 0; i < depth; i++ {
			sub := append([]byte{0, 0}, b...)
			sub = append([]byte{1}, sub...)
			w := &wr{}
			w.u16(uint16(3 + len(sub)))
			w.u16(uint16(i))
			w.u8(0)
			w.u8(2)
			w.u8(2)
			w.u8(0)
			w.u16(uint16(len(sub)))
			w.raw(sub)
			if len(w.b) > 65500 {
				break
			}
			b = w.b
			k.Count("nested_confirmations", 1)
		}
		k.Sig(depth, k.Index)
		pkt(k, wrap(k.R, 1, b))
		pkt(k, wrap(k.R, 0, append([]byte{1, 0, 0}, b...)))
		pkt(k, wrap(k.R, 1, mutate(k.R, b)))
	})
	c.Cases("large", c.N(40), codecPar, func(k *Case) {
		defer fin(k)
		var body []byte
		switch k.Index % 5 {
		case 0:
			body = make([]byte, 65535) // thousands of empty records
		case 1:
			body = bytes.Repeat([]byte{0xff}, 65535)
		case 2:
			body = mutate(k.R, genBig(k.R, 60000).body())
		case 3: // one record full of the smallest subrecords
			r := genRecHead(k.R)
			for i := 0; i < 20000; i++ {
				r.Subs = append(r.Subs, RSub{Type: genUnknownType(k.R), Data: []byte{}})
			}
			body = r.bytes()
		case 4:
			body = randBytes(k.R, 65535)
		}
		k.Sig(body)
		pkt(k, wrap(k.R, uint8(k.R.Intn(2)), body))
		pkt(k, wrap(k.R, 1, body))
	})
}

// ---- C06 ----

func runC06(c *Ctx) {
	c.Require("must_accept", "must_refuse")
	judge := func(k *Case, pt uint8, body []byte) {
		if len(body) == 0 || len(body) > 65535 {
			return
		}
		raw := wrap(k.R, pt, body)
		k.detail["packet"] = raw
		k.Sig(raw)
		v := refBody(pt, body)
		p := egts.Package{}
		code, err := p.Decode(raw)
		if (code == 0) != (err == nil) {
			k.Note("packet", raw)
			k.Failf("result code %d with error %v", code, err)
		}
		switch v {
		case accept:
			k.Count("must_accept", 1)
			if err != nil {
				k.Note("packet", raw)
				k.Failf("consistent packet refused: code %d %v", code, err)
			}
		case reject:
			k.Count("must_refuse", 1)
			if err == nil {
				k.Note("packet", raw)
				k.Failf("inconsistent packet accepted")
			}
		default:
			k.Count("not_decided", 1)
		}
	}
	fin := func(k *Case) {
		if b, ok := k.detail["packet"].([]byte); ok {
			k.Note("packet", b)
		}
	}
	// cut every subrecord type at every byte, the lengths around it staying consistent
	for _, t := range subTypes {
		t := t
		c.Cases(fmt.Sprintf("short%d", t), c.N(120), codecPar, func(k *Case) {
			defer fin(k)
			s := genSubOf(k.R, t)
			full := s.content()
			if len(full) > 400 {
				full = full[:400]
			}
			for i := 0; i <= len(full); i++ {
				rec := genRecHead(k.R)
				rec.Subs = []RSub{{t, full[:i:i]}}
				if coin(k.R) {
					rec.Subs = append(rec.Subs, RSub{tCntr, RAbsCnt{1, 2}})
				}
				recs := []RRec{rec}
				if coin(k.R) {
					recs = append(recs, RRec{RN: 9, Subs: []RSub{{tCntr, RAbsCnt{3, 4}}}})
				}
				judge(k, 1, recsBytes(recs))
			}
		})
	}
	// cut the whole body at every byte
	c.Cases("cut", c.N(600), codecPar, func(k *Case) {
		defer fin(k)
		p := genPkg(k.R)
		b := p.body()
		if len(b) > 500 {
			b = b[:500]
		}
		for i := 1; i <= len(b); i++ {
			judge(k, p.PT, b[:i:i])
		}
	})
	// wrong length fields: every length field by small and large amounts
	c.Cases("lengths", c.N(1500), codecPar, func(k *Case) {
		defer fin(k)
		p := genPkg(k.R)
		p.PT, p.Resp = 1, nil
		if len(p.Records) == 0 {
			p.Records = []RRec{genRec(k.R, 2)}
		}
		body := p.body()
		var offs []int
		at := 0
		for _, r := range p.Records {
			offs = append(offs, at)
			at += len(r.head(0))
			for _, s := range r.Subs {
				offs = append(offs, at+1)
				at += len(s.bytes())
			}
		}
		for _, o := range offs {
			old := binary.LittleEndian.Uint16(body[o:])
			for _, d := range []int{1, -1, 2, 3, -3, 4, 256, -256, 0x8000, 65535 - int(old), -int(old), k.R.Intn(50)} {
				b := append([]byte(nil), body...)
				binary.LittleEndian.PutUint16(b[o:], uint16(int(old)+d))
				judge(k, 1, b)
			}
		}
	})
	// flag bytes that promise more or fewer fields than are there
	c.Cases("flags", c.N(600), codecPar, func(k *Case) {
		defer fin(k)
		t := []uint8{tExt, tAd, tCnt, tTerm, tPos}[k.R.Intn(5)]
		s := genSubOf(k.R, t)
		c0 := s.content()
		at := map[uint8][]int{tExt: {0}, tAd: {0, 2}, tCnt: {0}, tTerm: {4}, tPos: {12}}[t]
		for _, o := range at {
			for b := uint(0); b < 8; b++ {
				cc := append([]byte(nil), c0...)
				cc[o] ^= 1 << b
				rec := genRecHead(k.R)
				rec.Subs = []RSub{{t, cc}}
				judge(k, 1, rec.bytes())
			}
		}
		// the record's own flags
		rec := genRec(k.R, 1)
		b := rec.bytes()
		for i := uint(0); i < 3; i++ {
			bb := append([]byte(nil), b...)
			bb[4] ^= 1 << i
			judge(k, 1, bb)
		}
	})
	c.Cases("mutated", c.N(6000), codecPar, func(k *Case) {
		defer fin(k)
		p := genPkg(k.R)
		b := p.body()
		for i := 0; i < 6; i++ {
			judge(k, p.PT, mutate(k.R, b))
		}
		judge(k, p.PT, b)
	})
	c.Cases("large", c.N(24), codecPar, func(k *Case) {
		defer fin(k)
		p := genBig(k.R, 65535-k.R.Intn(3))
		b := p.body()
		judge(k, 1, b)
		judge(k, 1, b[:len(b)-1-k.R.Intn(20)])
		judge(k, 1, mutate(k.R, b[:len(b)-100]))
	})
}

// ---- C07 ----

func withUnknown(r *rand.Rand, p RPkg, max int) (RPkg, int) {
	q := p
	q.Records = nil
	n := 0
	for _, rec := range p.Records {
		nr := rec
		nr.Subs = nil
		for _, s := range rec.Subs {
			for r.Intn(2) == 0 {
				nr.Subs = append(nr.Subs, genUnknown(r, max))
				n++
			}
			nr.Subs = append(nr.Subs, s)
		}
		for r.Intn(2) == 0 {
			nr.Subs = append(nr.Subs, genUnknown(r, max))
			n++
		}
		q.Records = append(q.Records, nr)
	}
	return q, n
}

func runC07(c *Ctx) {
	c.Require("unknown_subrecords", "packets_compared", "server_packets")
	one := func(k *Case, p, q RPkg, n int) {
		raw := q.bytes()
		k.Note("packet", raw)
		k.Note("without_unknown", p.bytes())
		k.Sig(raw)
		got := egts.Package{}
		code, err := got.Decode(raw)
		if err != nil || code != 0 {
			k.Failf("packet with unknown subrecords refused: code %d %v", code, err)
		}
		plain := egts.Package{}
		if code, err := plain.Decode(p.bytes()); err != nil || code != 0 {
			k.Failf("packet without unknown subrecords refused: code %d %v", code, err)
		}
		a, b := got.ServicesFrameData.(*egts.ServiceDataSet), plain.ServicesFrameData.(*egts.ServiceDataSet)
		if len(*a) != len(*b) {
			k.Failf("%d records instead of %d", len(*a), len(*b))
		}
		for i := range *a {
			(*a)[i].RecordLength = (*b)[i].RecordLength
			// an implementation may keep unknown subrecords, but must not change the others
			var known egts.RecordDataSet
			for _, s := range (*a)[i].RecordDataSet {
				if knownTypes[s.SubrecordType] {
					known = append(known, s)
				}
			}
			(*a)[i].RecordDataSet = known
		}
		if d := diff("records", reflect.ValueOf(b), reflect.ValueOf(a)); d != "" {
			k.Failf("unknown subrecords changed the rest: %s", d)
		}
		if d := diff("records", reflect.ValueOf(p.toEgts().ServicesFrameData), reflect.ValueOf(a)); d != "" {
			k.Failf("value differs from the reference: %s", d)
		}
		k.Count("unknown_subrecords", int64(n))
		k.Count("packets_compared", 1)
	}
	c.Cases("mixed", c.N(5000), codecPar, func(k *Case) {
		p := genHeader(k.R)
		for i := 0; i <= k.R.Intn(4); i++ {
			p.Records = append(p.Records, genRec(k.R, 1+k.R.Intn(4)))
		}
		q, n := withUnknown(k.R, p, 40)
		one(k, p, q, n)
	})
	// every unknown type code, alone, first, last
	c.Cases("everytype", 256, codecPar, func(k *Case) {
		t := uint8(k.Index)
		if knownTypes[t] {
			return
		}
		for _, l := range []int{0, 1, 2, 3, 5, 21, 255, 256, 4000} {
			p := genHeader(k.R)
			p.Records = []RRec{genRec(k.R, 2), genRec(k.R, 1)}
			q := p
			u := make([]byte, l)
			k.R.Read(u)
			first := p.Records[0]
			first.Subs = append([]RSub{{t, u}}, append(append([]RSub(nil), first.Subs...), RSub{t, u})...)
			q.Records = []RRec{first, p.Records[1]}
			one(k, p, q, 2)
		}
	})
	c.mu.Lock()
	c.res.Exhaustive = append(c.res.Exhaustive, "every subrecord type code the library does not implement, with nine lengths")
	c.mu.Unlock()
	c.Cases("onlyunknown", c.N(500), codecPar, func(k *Case) {
		p := genHeader(k.R)
		p.Records = []RRec{genRec(k.R, 1), genRec(k.R, 0), genRec(k.R, 1)}
		q := p
		mid := p.Records[1]
		n := 1 + k.R.Intn(5)
		for i := 0; i < n; i++ {
			mid.Subs = append(mid.Subs, genUnknown(k.R, 300))
		}
		q.Records = []RRec{p.Records[0], mid, p.Records[2]}
		one(k, p, q, n)
	})
	c.Cases("big", c.N(12), codecPar, func(k *Case) {
		p := genHeader(k.R)
		p.Records = []RRec{genRec(k.R, 1)}
		q := p
		rec := p.Records[0]
		b := make([]byte, 65000)
		k.R.Read(b)
		rec.Subs = append([]RSub{{genUnknownType(k.R), b}}, rec.Subs...)
		if len(rec.data()) > 65000+400 {
			return
		}
		q.Records = []RRec{rec}
		one(k, p, q, 1)
	})
	runC07Server(c)
}

// ---- C08 ----

func runC08(c *Ctx) {
	c.Require("calls_repeated", "parallel_calls", "inputs_unchanged", "outputs_unchanged")
	type res struct {
		code uint8
		err  bool
		pkg  egts.Package
		enc  []byte
		eerr bool
		js   []byte
	}
	run := func(raw []byte) (r res) {
		p := egts.Package{}
		code, err := p.Decode(raw)
		r.code, r.err = code, err != nil
		if err != nil {
			return
		}
		r.js, _ = p.ToBytes()
		e, err := p.Encode()
		r.enc, r.eerr, r.pkg = e, err != nil, p
		return
	}
	same := func(k *Case, what string, raw []byte, a, b res) {
		if a.code != b.code || a.err != b.err || a.eerr != b.eerr || !bytes.Equal(a.enc, b.enc) || !bytes.Equal(a.js, b.js) {
			k.Note("packet", raw)
			k.Note("first", fmt.Sprintf("code=%d err=%v enc=%x json=%s", a.code, a.err, a.enc, a.js))
			k.Note("later", fmt.Sprintf("code=%d err=%v enc=%x json=%s", b.code, b.err, b.enc, b.js))
			k.Failf("%s: the same call gave another result", what)
		}
		if !a.err {
			if d := diffPkg(a.pkg, b.pkg); d != "" {
				k.Note("packet", raw)
				k.Failf("%s: the same call gave another value: %s", what, d)
			}
		}
	}
	batch := func(r *rand.Rand, n int) [][]byte {
		var out [][]byte
		for i := 0; i < n; i++ {
			p := genPkg(r)
			switch r.Intn(6) {
			case 0:
				out = append(out, mutate(r, p.bytes()))
			case 1:
				out = append(out, wrap(r, p.PT, mutate(r, p.body())))
			default:
				out = append(out, p.bytes())
			}
		}
		return out
	}
	c.Cases("repeat", c.N(250), codecPar, func(k *Case) {
		in := batch(k.R, 12)
		first := make([]res, len(in))
		for i := range in {
			k.Sig(in[i])
			keep := append([]byte(nil), in[i]...)
			first[i] = run(in[i])
			if !bytes.Equal(keep, in[i]) {
				k.Note("packet", keep)
				k.Failf("decoding modified its input")
			}
			k.Count("inputs_unchanged", 1)
		}
		for j := 0; j < 3; j++ {
			for _, i := range k.R.Perm(len(in)) {
				same(k, "repeated call", in[i], first[i], run(in[i]))
				k.Count("calls_repeated", 1)
			}
		}
	})
	// the decoded value must not refer to the input, nor the encoded bytes to anything
	c.Cases("aliasing", c.N(500), codecPar, func(k *Case) {
		p := genPkg(k.R)
		raw := p.bytes()
		k.Note("packet", raw)
		k.Sig(raw)
		in := append([]byte(nil), raw...)
		got := egts.Package{}
		if code, err := got.Decode(in); err != nil {
			k.Failf("valid packet refused: %d %v", code, err)
		}
		if !bytes.Equal(in, raw) {
			k.Failf("decoding modified its input")
		}
		k.Count("inputs_unchanged", 1)
		for i := range in {
			in[i] = byte(k.R.Intn(256))
		}
		if d := diffPkg(p.toEgts(), got); d != "" {
			k.Failf("the decoded value changed with the input buffer: %s", d)
		}
		out, err := got.Encode()
		if err != nil {
			k.Failf("encoding failed: %v", err)
		}
		keep := append([]byte(nil), out...)
		q := genPkg(k.R)
		other := q.toEgts()
		other.Encode()
		out2, _ := got.Encode()
		garbage := egts.Package{}
		garbage.Decode(mutate(k.R, raw))
		if !bytes.Equal(out, keep) {
			k.Failf("encoded bytes changed after later calls")
		}
		for i := range out {
			out[i] ^= 0xff
		}
		if !bytes.Equal(out2, keep) {
			k.Failf("two encodings share memory or differ")
		}
		if out3, _ := got.Encode(); !bytes.Equal(out3, keep) {
			k.Failf("encoding again gave other bytes")
		}
		if d := diffPkg(p.toEgts(), got); d != "" {
			k.Failf("the value changed with the encoded bytes: %s", d)
		}
		// changing one decoded value changes no other, neither one decoded before nor one decoded later
		in2 := append([]byte(nil), raw...)
		twin := egts.Package{}
		if code, err := twin.Decode(in2); err != nil {
			k.Failf("valid packet refused the second time: %d %v", code, err)
		}
		out4, _ := twin.Encode()
		scramble(k.R, reflect.ValueOf(&twin))
		if d := diffPkg(p.toEgts(), got); d != "" {
			k.Failf("the value changed with another one decoded from the same bytes: %s", d)
		}
		if !bytes.Equal(out4, keep) {
			k.Failf("encoded bytes changed with the value they were made of")
		}
		later := egts.Package{}
		if code, err := later.Decode(in2); err != nil {
			k.Failf("valid packet refused the third time: %d %v", code, err)
		}
		if d := diffPkg(p.toEgts(), later); d != "" {
			k.Failf("decoding depends on what was done to an earlier result: %s", d)
		}
		k.Count("outputs_unchanged", 1)
	})
	for _, t := range subTypes {
		t := t
		c.Cases(fmt.Sprintf("section%d", t), c.N(40), codecPar, func(k *Case) {
			s := genSubOf(k.R, t)
			raw := s.content()
			k.Note("content", raw)
			k.Sig(t, raw)
			want := s.toEgts()
			in := append([]byte(nil), raw...)
			d := reflect.New(reflect.TypeOf(want).Elem()).Interface().(egts.BinaryData)
			if err := d.Decode(in); err != nil {
				k.Failf("refused: %v", err)
			}
			if !bytes.Equal(in, raw) {
				k.Failf("decoding modified its input")
			}
			for i := range in {
				in[i] ^= 0x5a
			}
			if x := diff(fmt.Sprintf("%T", want), reflect.ValueOf(want), reflect.ValueOf(d)); x != "" {
				k.Failf("the decoded value changed with the input buffer: %s", x)
			}
			o1, err1 := d.Encode()
			o2, err2 := d.Encode()
			if err1 != nil || err2 != nil || !bytes.Equal(o1, o2) || !bytes.Equal(o1, raw) {
				k.Failf("encoding twice gave different bytes")
			}
			for i := range o1 {
				o1[i] ^= 0xff
			}
			if !bytes.Equal(o2, raw) {
				k.Failf("two encodings share memory")
			}
			k.Count("outputs_unchanged", 1)
			k.Count("inputs_unchanged", 1)
		})
	}
	c.Cases("parallel", c.N(40), 1, func(k *Case) {
		in := batch(k.R, 24)
		first := make([]res, len(in))
		for i := range in {
			k.Sig(in[i])
			first[i] = run(append([]byte(nil), in[i]...))
		}
		const g = 16
		var wg sync.WaitGroup
		var mu sync.Mutex
		start := make(chan struct{})
		var failed interface{}
		for w := 0; w < g; w++ {
			wg.Add(1)
			order := k.R.Perm(len(in))
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						mu.Lock()
						failed = e
						mu.Unlock()
					}
				}()
				<-start
				for rep := 0; rep < 2; rep++ {
					for _, i := range order {
						got := run(in[i]) // all goroutines read the same input
						mu.Lock()
						func() { defer mu.Unlock(); same(k, "parallel call", in[i], first[i], got) }()
						k.Count("parallel_calls", 1)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		if failed != nil {
			panic(failed)
		}
	})
	// keys used at the same time must not mix
	c.Cases("parallelkeys", c.N(30), 1, func(k *Case) {
		var wg sync.WaitGroup
		var mu sync.Mutex
		msg := ""
		for w := 0; w < 8; w++ {
			p := genPkg(k.R)
			p.ENA = 1
			mask := byte(1 + w)
			plain := p.body()
			p.Body = xor(plain, mask)
			raw := p.bytes()
			p.Body = nil
			k.Sig(raw)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					key := &spyKey{mask: mask}
					e := egts.Package{}
					_, err := e.Decode(raw, func(o *egts.Options) { o.Secret = key })
					var out []byte
					if err == nil {
						out, err = e.Encode(func(o *egts.Options) { o.Secret = key })
					}
					if err != nil || !bytes.Equal(out, raw) {
						mu.Lock()
						msg = fmt.Sprintf("encrypted packet did not survive parallel use: %v", err)
						mu.Unlock()
						return
					}
					k.Count("parallel_calls", 1)
				}
			}()
		}
		wg.Wait()
		if msg != "" {
			k.Failf("%s", msg)
		}
	})
}

// scramble overwrites everything a value refers to.
func scramble(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scramble(r, v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				scramble(r, f)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(r, v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x55)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x55)
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float() + 1)
		}
	}
}

// ---- C09 ----

func xor(b []byte, m byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[i] = b[i] ^ m
	}
	return out
}

type spyKey struct {
	mask   byte
	grow   int  // bytes put in front of the cipher text
	fail   bool // both directions fail
	leak   bool // the failing key returns data along with the error
	dec    [][]byte
	enc    [][]byte
	decOut []byte // overrides what decoding returns
	encOut []byte
}

var errKey = errors.New("key failed")

func (s *spyKey) Decode(b []byte) ([]byte, error) {
	s.dec = append(s.dec, append([]byte(nil), b...))
	if s.fail {
		if s.leak {
			return xor(b[s.grow:], s.mask), errKey
		}
		return nil, errKey
	}
	if s.decOut != nil {
		return s.decOut, nil
	}
	if len(b) < s.grow {
		return nil, errKey
	}
	return xor(b[s.grow:], s.mask), nil
}

func (s *spyKey) Encode(b []byte) ([]byte, error) {
	s.enc = append(s.enc, append([]byte(nil), b...))
	if s.fail {
		if s.leak {
			return append([]byte(nil), b...), errKey
		}
		return nil, errKey
	}
	if s.encOut != nil {
		return s.encOut, nil
	}
	return append(bytes.Repeat([]byte{0xEE}, s.grow), xor(b, s.mask)...), nil
}

func noPlain(d egts.BinaryData) bool {
	switch v := d.(type) {
	case nil:
		return true
	case *egts.ServiceDataSet:
		return v == nil || len(*v) == 0
	case *egts.PtResponse:
		return v == nil || v.ResponsePacketID == 0 && v.ProcessingResult == 0 && v.SDR == nil
	}
	return false
}

func runC09(c *Ctx) {
	c.Require("decrypted", "encrypted", "refused_without_key", "refused_by_key", "plain_untouched")
	gen := func(k *Case) (RPkg, *spyKey) {
		p := genPkg(k.R)
		p.ENA = uint8(1 + k.R.Intn(3))
		key := &spyKey{mask: byte(1 + k.R.Intn(255))}
		if coin(k.R) {
			key.grow = k.R.Intn(40)
		}
		return p, key
	}
	with := func(key egts.SecretKey) func(*egts.Options) {
		return func(o *egts.Options) { o.Secret = key }
	}
	c.Cases("decode", c.N(2500), codecPar, func(k *Case) {
		p, key := gen(k)
		plain := p.body()
		q := p
		q.Body = append(bytes.Repeat([]byte{0xEE}, key.grow), xor(plain, key.mask)...)
		raw := q.bytes()
		k.Note("packet", raw)
		k.Sig(raw)
		got := egts.Package{}
		code, err := got.Decode(append([]byte(nil), raw...), with(key))
		if err != nil || code != 0 {
			k.Failf("encrypted packet refused with the right key: code %d %v", code, err)
		}
		if len(key.dec) != 1 || len(key.enc) != 0 {
			k.Failf("the key was asked to decode %d times and encode %d times", len(key.dec), len(key.enc))
		}
		mustEqual(k, "bytes passed to the key", q.Body, key.dec[0])
		want := p.toEgts()
		want.FrameDataLength = uint16(len(q.Body))
		want.HeaderCheckSum, want.ServicesFrameDataCheckSum = got.HeaderCheckSum, got.ServicesFrameDataCheckSum
		if d := diffPkg(want, got); d != "" {
			k.Failf("decrypted value differs: %s", d)
		}
		k.Count("decrypted", 1)
	})
	c.Cases("encode", c.N(2500), codecPar, func(k *Case) {
		p, key := gen(k)
		plain := p.body()
		q := p
		q.Body = append(bytes.Repeat([]byte{0xEE}, key.grow), xor(plain, key.mask)...)
		k.Note("want_packet", q.bytes())
		k.Sig(q.bytes())
		e := stale(k, p)
		got, err := e.Encode(with(key))
		if err != nil {
			k.Failf("encoding failed: %v", err)
		}
		if len(key.enc) != 1 || len(key.dec) != 0 {
			k.Failf("the key was asked to encode %d times and decode %d times", len(key.enc), len(key.dec))
		}
		mustEqual(k, "bytes passed to the key", plain, key.enc[0])
		mustEqual(k, "encrypted packet", q.bytes(), got)
		k.Count("encrypted", 1)
	})
	c.Cases("arbitrary", c.N(1500), codecPar, func(k *Case) { // the key returns something unrelated
		p, key := gen(k)
		body := randBytes(k.R, 1+k.R.Intn(100))
		other := genPkg(k.R)
		key.decOut = other.body()
		pt := other.PT
		bad := k.R.Intn(3) == 0
		if bad {
			key.decOut = mutate(k.R, key.decOut)
		}
		q := p
		q.PT, q.Body = pt, body
		raw := q.bytes()
		k.Note("packet", raw)
		k.Note("key_returns", key.decOut)
		k.Sig(raw, key.decOut)
		got := egts.Package{}
		code, err := got.Decode(raw, with(key))
		if (err == nil) != (code == 0) {
			k.Failf("code %d with error %v", code, err)
		}
		v := accept
		if bad {
			v = refBody(pt, key.decOut)
			if len(key.decOut) == 0 {
				v = either
			}
		}
		if v == accept && err != nil {
			k.Failf("decrypted body refused: %v", err)
		}
		if v == reject && err == nil {
			k.Failf("inconsistent decrypted body accepted")
		}
		if v == accept && !bad {
			want := other.toEgts().ServicesFrameData
			if d := diff("body", reflect.ValueOf(want), reflect.ValueOf(got.ServicesFrameData)); d != "" {
				k.Failf("what the key returned was not what was parsed: %s", d)
			}
		}
		if len(key.dec) != 1 {
			k.Failf("the key was asked %d times", len(key.dec))
		}
		mustEqual(k, "bytes passed to the key", body, key.dec[0])
		// and in the other direction
		key2 := &spyKey{encOut: randBytes(k.R, k.R.Intn(200))}
		e := p.toEgts()
		out, err := e.Encode(with(key2))
		if err != nil {
			k.Failf("encoding failed: %v", err)
		}
		q = p
		q.Body = key2.encOut
		mustEqual(k, "packet with what the key returned", q.bytes(), out)
		k.Count("encrypted", 1)
		k.Count("decrypted", 1)
	})
	leaks := func(out, plain []byte) bool { return len(plain) >= 3 && bytes.Contains(out, plain) }
	c.Cases("nokey", c.N(1500), codecPar, func(k *Case) {
		p, key := gen(k)
		plain := p.body()
		q := p
		if coin(k.R) {
			q.Body = xor(plain, key.mask)
		} else {
			q.Body = plain // marked as encrypted but readable: must not be opened without the key
		}
		raw := q.bytes()
		k.Note("packet", raw)
		k.Sig(raw)
		var opts []func(*egts.Options)
		if coin(k.R) {
			opts = append(opts, func(o *egts.Options) {})
		}
		got := egts.Package{}
		code, err := got.Decode(raw, opts...)
		if err == nil || code == 0 {
			k.Failf("encrypted packet accepted without a key (code %d)", code)
		}
		if !noPlain(got.ServicesFrameData) {
			k.Failf("decoding without a key produced data")
		}
		e := p.toEgts()
		out, err := e.Encode(opts...)
		if err == nil {
			k.Failf("packet marked as encrypted was encoded without a key")
		}
		if leaks(out, plain) {
			k.Failf("plain data returned with the error")
		}
		k.Count("refused_without_key", 1)
	})
	c.Cases("failingkey", c.N(1500), codecPar, func(k *Case) {
		p, key := gen(k)
		plain := p.body()
		key.fail, key.leak = true, coin(k.R)
		q := p
		q.Body = append(bytes.Repeat([]byte{0xEE}, key.grow), xor(plain, key.mask)...)
		raw := q.bytes()
		k.Note("packet", raw)
		k.Sig(raw)
		got := egts.Package{}
		code, err := got.Decode(raw, with(key))
		if err == nil || code == 0 {
			k.Failf("packet accepted although the key failed (code %d)", code)
		}
		if !noPlain(got.ServicesFrameData) {
			k.Failf("decoding with a failing key produced data")
		}
		e := p.toEgts()
		out, err := e.Encode(with(key))
		if err == nil {
			k.Failf("packet encoded although the key failed")
		}
		if leaks(out, plain) {
			k.Failf("plain data returned with the error")
		}
		k.Count("refused_by_key", 1)
	})
	c.Cases("plain", c.N(1500), codecPar, func(k *Case) {
		p := genPkg(k.R)
		key := &spyKey{mask: 7, fail: coin(k.R)}
		raw := p.bytes()
		k.Note("packet", raw)
		k.Sig(raw)
		got := egts.Package{}
		if code, err := got.Decode(raw, with(key)); err != nil || code != 0 {
			k.Failf("plain packet refused when a key is given: %d %v", code, err)
		}
		if d := diffPkg(p.toEgts(), got); d != "" {
			k.Failf("plain packet changed when a key is given: %s", d)
		}
		out, err := got.Encode(with(key))
		if err != nil {
			k.Failf("encoding failed: %v", err)
		}
		mustEqual(k, "plain packet", raw, out)
		if len(key.dec)+len(key.enc) != 0 {
			k.Failf("the key was used for a plain packet")
		}
		k.Count("plain_untouched", 1)
	})
	c.Cases("oversize", c.N(12), codecPar, func(k *Case) {
		p, _ := gen(k)
		n := 65533 + k.Index%6
		key := &spyKey{encOut: randBytes(k.R, n)}
		k.Note("cipher_bytes", n)
		k.Sig(n, k.Index)
		e := p.toEgts()
		out, err := e.Encode(with(key))
		if n > 65535 {
			if err == nil {
				k.Failf("cipher text of %d bytes was written with a 16-bit length", n)
			}
			return
		}
		q := p
		q.Body = key.encOut
		if err != nil {
			k.Failf("encoding failed: %v", err)
		}
		mustEqual(k, "packet with what the key returned", q.bytes(), out)
	})
}
