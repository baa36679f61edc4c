//go:build go1.22

package main

// C01 - C03: decoding, encoding and their composition against the reference codec.

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"reflect"
	"strings"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

// traffic is the recorded real traffic of the repository.
func traffic() [][]byte {
	var out [][]byte
	for _, l := range strings.Fields(trafficCSV) {
		if b, err := hex.DecodeString(strings.TrimSpace(l)); err == nil && len(b) > 0 {
			out = append(out, b)
		}
	}
	return out
}

const codecPar = 8

// decodeAgrees decodes raw and demands the structure the reference defines.
func decodeAgrees(k *Case, p RPkg, raw []byte) egts.Package {
	got := egts.Package{}
	in := append([]byte(nil), raw...)
	code, err := got.Decode(in)
	if err != nil || code != 0 {
		k.Failf("valid packet refused: code %d, error %v", code, err)
	}
	if d := diffPkg(p.toEgts(), got); d != "" {
		k.Failf("decoded value differs: %s", d)
	}
	return got
}

func init() {
	register("C01", Check{Run: runC01, Rule: "a case is one generated valid packet (or a batch enumerating one flag byte); distinct by packet bytes; every packet has at least one record or response body. " +
		"Each is decoded by the library and every field compared with the independent reference codec."})
	register("C02", Check{Run: runC02, Rule: "a case is one packet value, built with deliberately stale length fields and sometimes unset subrecord types, encoded by the library and compared byte for byte with the reference; distinct by bytes. " +
		"Size cases surround the 65535-byte limits of subrecord, record and frame."})
	register("C03", Check{Run: runC03, Rule: "a case is one chain of decode/encode steps over a generated packet value or recorded real packet; distinct by the first packet's bytes."})
}

func runC01(c *Ctx) {
	c.Require("packets_decoded", "subrecords_compared")
	one := func(k *Case, p RPkg) {
		raw := p.bytes()
		k.Note("packet", raw)
		k.Sig(raw)
		got := decodeAgrees(k, p, raw)
		k.Count("packets_decoded", 1)
		n := int64(0)
		if s, ok := got.ServicesFrameData.(*egts.ServiceDataSet); ok {
			for _, r := range *s {
				n += int64(len(r.RecordDataSet))
			}
		}
		k.Count("subrecords_compared", n)
	}
	c.Cases("mixed", c.N(12000), codecPar, func(k *Case) { one(k, genPkg(k.R)) })
	// every subrecord type on its own, many values each
	for _, t := range subTypes {
		t := t
		c.Cases(fmt.Sprintf("type%d", t), c.N(700), codecPar, func(k *Case) {
			p := genHeader(k.R)
			rec := genRecHead(k.R)
			rec.Subs = []RSub{genSubOf(k.R, t)}
			p.Records = []RRec{rec}
			one(k, p)
		})
		// and decoded directly as a section
		c.Cases(fmt.Sprintf("section%d", t), c.N(150), codecPar, func(k *Case) {
			s := genSubOf(k.R, t)
			k.Note("content", s.content())
			k.Sig(s.Type, s.content())
			want := s.toEgts()
			got := reflect.New(reflect.TypeOf(want).Elem()).Interface().(egts.BinaryData)
			if err := got.Decode(s.content()); err != nil {
				k.Failf("valid section refused: %v", err)
			}
			if d := diff(fmt.Sprintf("%T", want), reflect.ValueOf(want), reflect.ValueOf(got)); d != "" {
				k.Failf("decoded value differs: %s", d)
			}
			k.Count("sections_decoded", 1)
		})
	}
	// complete enumeration of the presence-flag bytes
	c.Cases("flagbytes", 256, codecPar, func(k *Case) {
		f := uint8(k.Index)
		var subs []RSub
		subs = append(subs, RSub{tTerm, genTermFlags(k.R, f)})
		ad := genAd(k.R)
		ad.DIOE, ad.ASFE = f, genMask(k.R)
		ad2 := genAd(k.R)
		ad2.DIOE, ad2.ASFE = genMask(k.R), f
		cn := genCnt(k.R)
		cn.CFE = f
		ps := genPos(k.R)
		ps.ALTE, ps.LOHS, ps.LAHS, ps.MV, ps.BB, ps.CS, ps.FIX, ps.VLD = f&128 != 0, f&64 != 0, f&32 != 0, f&16 != 0, f&8 != 0, f&4 != 0, f&2 != 0, f&1 != 0
		ex := genExt(k.R)
		ex.VFE, ex.HFE, ex.PFE, ex.SFE, ex.NSFE = f&1 != 0, f&2 != 0, f&4 != 0, f&8 != 0, f&16 != 0
		lq := genLiq(k.R)
		lq.LLSEF, lq.LLSVU, lq.RDF, lq.LLSN = f&64 != 0, f>>4&3, f&8 != 0, f&7
		st := RState{genU8(k.R), genU8(k.R), genU8(k.R), genU8(k.R), f&4 != 0, f&2 != 0, f&1 != 0}
		subs = append(subs, RSub{tAd, ad}, RSub{tAd, ad2}, RSub{tCnt, cn}, RSub{tPos, ps}, RSub{tExt, ex}, RSub{tLiq, lq}, RSub{tSt, st})
		p := genHeader(k.R)
		rec := genRecHead(k.R)
		rec.SSOD, rec.RSOD, rec.GRP, rec.RPP, rec.TMFE, rec.EVFE, rec.OBFE = f&128 != 0, f&64 != 0, f&32 != 0, f>>3&3, f&4 != 0, f&2 != 0, f&1 != 0
		rec.Subs = subs
		p.PRF, p.RTE, p.CMP, p.PR = f>>6, f&32 != 0, f&4 != 0, f&3
		p.Records = []RRec{rec, genRec(k.R, 2)}
		one(k, p)
	})
	c.mu.Lock()
	c.res.Exhaustive = append(c.res.Exhaustive, "all 256 values of each presence-flag byte of header, record, TERM_IDENTITY, AD_SENSORS_DATA, COUNTERS_DATA, POS_DATA, EXT_POS_DATA, LIQUID_LEVEL_SENSOR, STATE_DATA")
	c.mu.Unlock()
	// every speed and direction word
	c.Cases("speedword", 64, codecPar, func(k *Case) {
		for i := 0; i < 256; i++ {
			d := genPos(k.R)
			d.SPD = uint16(k.Index*256+i) & 0x3fff
			d.Angle = uint16(k.R.Intn(360))
			p := genHeader(k.R)
			p.Records = []RRec{{RN: uint16(i), Subs: []RSub{{tPos, d}}}}
			raw := p.bytes()
			k.Note("packet", raw)
			k.Sig(raw)
			decodeAgrees(k, p, raw)
			k.Count("packets_decoded", 1)
		}
	})
	// empty and odd shapes
	c.Cases("shapes", c.N(600), codecPar, func(k *Case) {
		p := genHeader(k.R)
		switch k.R.Intn(4) {
		case 0: // records without subrecords, not last
			p.Records = []RRec{genRec(k.R, 0), genRec(k.R, 1)}
		case 1: // many small records
			for i := 0; i < 100+k.R.Intn(300); i++ {
				r := genRecHead(k.R)
				r.Subs = []RSub{genSubOf(k.R, tCntr)}
				p.Records = append(p.Records, r)
			}
		case 2: // many subrecords
			p.Records = []RRec{genRec(k.R, 100+k.R.Intn(100))}
		case 3: // an empty record at the end
			p.Records = []RRec{genRec(k.R, 1), genRec(k.R, 0)}
		}
		one(k, p)
	})
	c.Cases("large", c.N(40), codecPar, func(k *Case) {
		target := []int{65535, 65534, 65530, 32768, 32767, 40000, 65535}[k.R.Intn(7)]
		one(k, genBig(k.R, target))
	})
	sizes := nearPowers(32, 65535)
	c.Cases("sizes", len(sizes), codecPar, func(k *Case) { one(k, genBig(k.R, sizes[k.Index])) })
}

// stale returns the library structure for p with wrong lengths and, where asked for,
// without subrecord types.
func stale(k *Case, p RPkg) egts.Package {
	e := p.toEgts()
	r := k.R
	// times may be given in any zone
	inZones := func(s *egts.ServiceDataSet) {
		for i := range *s {
			for _, rd := range (*s)[i].RecordDataSet {
				if d, ok := rd.SubrecordData.(*egts.SrPosData); ok && r.Intn(4) == 0 {
					d.NavigationTime = inZone(r, d.NavigationTime)
				}
			}
		}
	}
	mode := r.Intn(3)
	junk := func() uint16 {
		if mode == 0 {
			return 0
		}
		return genU16(r)
	}
	if mode < 2 {
		e.HeaderLength, e.FrameDataLength = byte(junk()), junk()
		e.HeaderCheckSum, e.ServicesFrameDataCheckSum = byte(junk()), junk()
	}
	fix := func(s *egts.ServiceDataSet) {
		inZones(s)
		for i := range *s {
			rec := &(*s)[i]
			if mode < 2 {
				rec.RecordLength = junk()
			}
			for j := range rec.RecordDataSet {
				if mode < 2 {
					rec.RecordDataSet[j].SubrecordLength = junk()
				}
				// the type may be left out, except for the one code that also means STATE_DATA
				if rec.RecordDataSet[j].SubrecordType != t20 && r.Intn(3) == 0 {
					rec.RecordDataSet[j].SubrecordType = 0
					k.Count("types_derived", 1)
				}
			}
		}
	}
	switch d := e.ServicesFrameData.(type) {
	case *egts.ServiceDataSet:
		fix(d)
	case *egts.PtResponse:
		if s, ok := d.SDR.(*egts.ServiceDataSet); ok && s != nil {
			fix(s)
		}
	}
	return e
}

func runC02(c *Ctx) {
	c.Require("packets_encoded", "lengths_compared", "oversize_refused", "types_derived")
	one := func(k *Case, p RPkg) {
		want := p.bytes()
		k.Note("want_packet", want)
		k.Sig(want)
		e := stale(k, p)
		got, err := e.Encode()
		if err != nil {
			k.Failf("encoding failed: %v", err)
		}
		mustEqual(k, "encoded packet", want, got)
		k.Count("packets_encoded", 1)
		if n := e.ServicesFrameData.Length(); int(n) != len(p.body()) {
			k.Failf("reported body length %d, encoded %d", n, len(p.body()))
		}
		k.Count("lengths_compared", 1)
		lens := func(rs []RRec, s *egts.ServiceDataSet) {
			for i := range rs {
				if n := (*s)[i].RecordDataSet.Length(); int(n) != len(rs[i].data()) {
					k.Failf("record %d: reported length %d, encoded %d", i, n, len(rs[i].data()))
				}
				for j := range rs[i].Subs {
					sub := (*s)[i].RecordDataSet[j].SubrecordData
					if n := sub.Length(); int(n) != len(rs[i].Subs[j].content()) {
						k.Failf("subrecord %T: reported length %d, encoded %d", sub, n, len(rs[i].Subs[j].content()))
					}
					k.Count("lengths_compared", 1)
				}
			}
		}
		if s, ok := e.ServicesFrameData.(*egts.ServiceDataSet); ok && len(p.Records) < 30 {
			lens(p.Records, s)
		}
	}
	c.Cases("mixed", c.N(6000), codecPar, func(k *Case) { one(k, genPkg(k.R)) })
	for _, t := range subTypes {
		t := t
		c.Cases(fmt.Sprintf("type%d", t), c.N(500), codecPar, func(k *Case) {
			s := genSubOf(k.R, t)
			k.Note("want_content", s.content())
			k.Sig(s.Type, s.content())
			e := s.toEgts()
			if d, ok := e.(*egts.SrPosData); ok && coin(k.R) {
				d.NavigationTime = inZone(k.R, d.NavigationTime)
			}
			got, err := e.Encode()
			if err != nil {
				k.Failf("encoding %T failed: %v", e, err)
			}
			mustEqual(k, fmt.Sprintf("section %T", e), s.content(), got)
			if int(e.Length()) != len(got) {
				k.Failf("%T reports length %d, encodes to %d", e, e.Length(), len(got))
			}
			// inside a packet, with and without an explicit type
			p := genHeader(k.R)
			rec := genRecHead(k.R)
			rec.Subs = []RSub{s, genSub(k.R)}
			p.Records = []RRec{rec}
			one(k, p)
		})
	}
	c.Cases("flagbytes", 256, codecPar, func(k *Case) {
		f := uint8(k.Index)
		p := genHeader(k.R)
		rec := genRecHead(k.R)
		rec.SSOD, rec.RSOD, rec.GRP, rec.RPP, rec.TMFE, rec.EVFE, rec.OBFE = f&128 != 0, f&64 != 0, f&32 != 0, f>>3&3, f&4 != 0, f&2 != 0, f&1 != 0
		p.PRF, p.RTE, p.CMP, p.PR = f>>6, f&32 != 0, f&4 != 0, f&3
		ad := genAd(k.R)
		ad.DIOE, ad.ASFE = f, genMask(k.R)
		ad2 := genAd(k.R)
		ad2.DIOE, ad2.ASFE = genMask(k.R), f
		cn := genCnt(k.R)
		cn.CFE = f
		ps := genPos(k.R)
		ps.ALTE, ps.LOHS, ps.LAHS, ps.MV, ps.BB, ps.CS, ps.FIX, ps.VLD = f&128 != 0, f&64 != 0, f&32 != 0, f&16 != 0, f&8 != 0, f&4 != 0, f&2 != 0, f&1 != 0
		lq := genLiq(k.R)
		lq.LLSEF, lq.LLSVU, lq.RDF, lq.LLSN = f&64 != 0, f>>4&3, f&8 != 0, f&7
		ex := genExt(k.R)
		ex.VFE, ex.HFE, ex.PFE, ex.SFE, ex.NSFE = f&1 != 0, f&2 != 0, f&4 != 0, f&8 != 0, f&16 != 0
		rec.Subs = []RSub{{tTerm, genTermFlags(k.R, f)}, {tAd, ad}, {tAd, ad2}, {tCnt, cn}, {tPos, ps}, {tLiq, lq}, {tExt, ex}}
		p.Records = []RRec{rec}
		one(k, p)
	})
	// speeds, courses
	c.Cases("speeds", 1639, codecPar, func(k *Case) {
		ps := genPos(k.R)
		ps.SPD = uint16(k.Index) * 10
		ps.Angle = uint16(k.Index % 360)
		p := genHeader(k.R)
		p.Records = []RRec{{RN: 1, Subs: []RSub{{tPos, ps}}}}
		one(k, p)
	})
	// degrees chosen freely, not from the wire grid: the nearest wire value must be written
	c.Cases("degrees", c.N(3000), codecPar, func(k *Case) {
		ps := genPos(k.R)
		s := RSub{tPos, ps}
		e := s.toEgts().(*egts.SrPosData)
		e.Latitude = k.R.Float64() * 90
		e.Longitude = k.R.Float64() * 180
		if k.R.Intn(3) == 0 {
			e.Latitude = float64(k.R.Intn(900001)) / 10000
			e.Longitude = float64(k.R.Intn(1800001)) / 10000
		}
		k.Note("lat", e.Latitude)
		k.Note("lon", e.Longitude)
		k.Sig(e.Latitude, e.Longitude)
		got, err := e.Encode()
		if err != nil {
			k.Failf("encoding failed: %v", err)
		}
		if len(got) != len(s.content()) {
			k.Failf("length %d, want %d", len(got), len(s.content()))
		}
		lat, lon := float64(binary.LittleEndian.Uint32(got[4:])), float64(binary.LittleEndian.Uint32(got[8:]))
		if d := lat - e.Latitude/90*0xFFFFFFFF; d > 1 || d < -1 {
			k.Failf("latitude %v written as %v", e.Latitude, lat)
		}
		if d := lon - e.Longitude/180*0xFFFFFFFF; d > 1 || d < -1 {
			k.Failf("longitude %v written as %v", e.Longitude, lon)
		}
		k.Count("coordinates_encoded", 1)
	})
	c.Cases("large", c.N(30), codecPar, func(k *Case) {
		one(k, genBig(k.R, []int{65535, 65534, 65500, 32768, 32767, 256, 255}[k.R.Intn(7)]))
	})
	sizes := nearPowers(32, 65535)
	c.Cases("sizes", len(sizes), codecPar, func(k *Case) { one(k, genBig(k.R, sizes[k.Index])) })
	// no body
	c.Cases("nobody", c.N(100), codecPar, func(k *Case) {
		p := genHeader(k.R)
		e := p.toEgts()
		if coin(k.R) {
			e.ServicesFrameData = nil
		}
		e.FrameDataLength = genU16(k.R)
		k.Sig(p.bytes())
		got, err := e.Encode()
		if err != nil {
			k.Failf("encoding failed: %v", err)
		}
		mustEqual(k, "packet without body", p.bytes(), got)
	})
	// limits
	c.Cases("limits", c.N(48), codecPar, func(k *Case) {
		over := []int{-1, 0, 1, 2, 3, 100, 65536, 70000}[k.Index%8]
		kind := k.Index / 8 % 3
		p := genHeader(k.R)
		rec := genRecHead(k.R)
		var fits bool
		switch kind {
		case 0: // one subrecord of 65535+over bytes of content can never fit record and frame
			rec.Subs = []RSub{{tDisp, RDisp{1, 7, genText(k.R, 65535-5+over)}}}
		case 1: // record data of 65535+over bytes
			rec.Subs = []RSub{{tDisp, RDisp{1, 7, genText(k.R, 30000-8)}}, {tDisp, RDisp{2, 9, genText(k.R, 65535+over-30000-8)}}}
		case 2: // frame of 65535+over bytes
			r2 := genRecHead(k.R)
			r2.Subs = []RSub{{tDisp, RDisp{1, 7, genText(k.R, 30000)}}}
			used := len(r2.bytes())
			rest := 65535 + over - used - len(rec.head(0)) - 3 - 5
			rec.Subs = []RSub{{tDisp, RDisp{1, 7, genText(k.R, rest)}}}
			p.Records = append(p.Records, r2)
			fits = over <= 0
		}
		p.Records = append(p.Records, rec)
		k.Note("kind", kind)
		k.Note("over", over)
		k.Sig(kind, over, k.Index)
		e := egts.Package{ProtocolVersion: 1, Prefix: "00", Route: b01(p.RTE), EncryptionAlg: "00", Compression: "0", Priority: bits(p.PR, 2), PacketIdentifier: p.PID, PacketType: 1,
			PeerAddress: p.PRA, RecipientAddress: p.RCA, TimeToLive: p.TTL}
		sds := egts.ServiceDataSet{}
		for _, r := range p.Records {
			er := egts.ServiceDataRecord{RecordNumber: r.RN, SourceServiceOnDevice: b01(r.SSOD), RecipientServiceOnDevice: b01(r.RSOD), Group: b01(r.GRP), RecordProcessingPriority: bits(r.RPP, 2),
				TimeFieldExists: b01(r.TMFE), EventIDFieldExists: b01(r.EVFE), ObjectIDFieldExists: b01(r.OBFE), ObjectIdentifier: r.OID, EventIdentifier: r.EVID, Time: egtsTime(r.TM),
				SourceServiceType: r.SST, RecipientServiceType: r.RST}
			for _, s := range r.Subs {
				er.RecordDataSet = append(er.RecordDataSet, egts.RecordData{SubrecordType: s.Type, SubrecordData: s.toEgts()})
			}
			sds = append(sds, er)
		}
		e.ServicesFrameData = &sds
		got, err := e.Encode()
		if !fits {
			if err == nil {
				k.Failf("data that does not fit the length fields was encoded to %d bytes without an error", len(got))
			}
			k.Count("oversize_refused", 1)
			return
		}
		if err != nil {
			k.Failf("a frame of %d bytes was refused: %v", 65535+over, err)
		}
		body, ok := refFrame(got)
		if !ok || len(body) != 65535+over || !bytes.Equal(body, recsBytes(p.Records)) {
			k.Failf("a frame of %d bytes was written wrongly", 65535+over)
		}
		k.Count("largest_frames_encoded", 1)
	})
}

func runC03(c *Ctx) {
	c.Require("values_round_tripped", "bytes_round_tripped", "real_packets")
	chain := func(k *Case, raw []byte, steps int, exact bool) {
		var first egts.Package
		if code, err := first.Decode(append([]byte(nil), raw...)); err != nil {
			k.Failf("refused: code %d %v", code, err)
		}
		cur := first
		prev := raw
		for i := 0; i < steps; i++ {
			out, err := cur.Encode()
			if err != nil {
				k.Failf("step %d: encoding what was decoded failed: %v", i, err)
			}
			if exact || i > 0 {
				mustEqual(k, fmt.Sprintf("step %d: re-encoded packet", i), prev, out)
				k.Count("bytes_round_tripped", 1)
			}
			prev = out
			next := egts.Package{}
			if code, err := next.Decode(append([]byte(nil), out...)); err != nil {
				k.Failf("step %d: own encoding refused: code %d %v", i, code, err)
			}
			cmp := cur
			if !exact && i == 0 {
				// lengths and checksums change when skipped content is dropped
				if d := diff("body", reflect.ValueOf(stripLengths(first)), reflect.ValueOf(stripLengths(next))); d != "" {
					k.Failf("step %d: value changed: %s", i, d)
				}
			} else {
				cmp.HeaderCheckSum, cmp.ServicesFrameDataCheckSum = next.HeaderCheckSum, next.ServicesFrameDataCheckSum
				if d := diffPkg(cmp, next); d != "" {
					k.Failf("step %d: value changed: %s", i, d)
				}
			}
			k.Count("values_round_tripped", 1)
			cur = next
		}
	}
	c.Cases("bytes", c.N(6000), codecPar, func(k *Case) {
		p := genPkg(k.R)
		raw := p.bytes()
		k.Note("packet", raw)
		k.Sig(raw)
		chain(k, raw, 2, true)
	})
	c.Cases("chains", c.N(800), codecPar, func(k *Case) {
		p := genHeader(k.R)
		rec := genRecHead(k.R)
		rec.Subs = []RSub{genSubOf(k.R, tPos), genSub(k.R)}
		p.Records = []RRec{rec}
		raw := p.bytes()
		k.Note("packet", raw)
		k.Sig(raw)
		chain(k, raw, 20, true)
	})
	// values: what the caller put in is what comes out
	c.Cases("values", c.N(6000), codecPar, func(k *Case) {
		p := genPkg(k.R)
		k.Note("want_packet", p.bytes())
		k.Sig(p.bytes())
		e := stale(k, p)
		out, err := e.Encode()
		if err != nil {
			k.Failf("encoding failed: %v", err)
		}
		got := egts.Package{}
		if code, err := got.Decode(out); err != nil || code != 0 {
			k.Failf("own encoding refused: code %d %v", code, err)
		}
		if d := diffPkg(p.toEgts(), got); d != "" {
			k.Failf("value changed: %s", d)
		}
		k.Count("values_round_tripped", 1)
	})
	// free coordinates: one wire step of rounding at first, then nothing moves any more
	c.Cases("coordinates", c.N(3000), codecPar, func(k *Case) {
		e := RSub{tPos, genPos(k.R)}.toEgts().(*egts.SrPosData)
		e.Latitude, e.Longitude = k.R.Float64()*90, k.R.Float64()*180
		k.Note("lat", e.Latitude)
		k.Note("lon", e.Longitude)
		k.Sig(e.Latitude, e.Longitude)
		b0, err := e.Encode()
		if err != nil {
			k.Failf("encoding failed: %v", err)
		}
		for i := 0; i < 15; i++ {
			d := egts.SrPosData{}
			if err := d.Decode(b0); err != nil {
				k.Failf("own encoding refused: %v", err)
			}
			if x := d.Latitude - e.Latitude; x > 2.2e-8 || x < -2.2e-8 {
				k.Failf("latitude %.12f became %.12f after %d steps", e.Latitude, d.Latitude, i+1)
			}
			if x := d.Longitude - e.Longitude; x > 4.3e-8 || x < -4.3e-8 {
				k.Failf("longitude %.12f became %.12f after %d steps", e.Longitude, d.Longitude, i+1)
			}
			b1, err := d.Encode()
			if err != nil {
				k.Failf("encoding failed: %v", err)
			}
			mustEqual(k, "re-encoded position", b0, b1)
		}
		k.Count("values_round_tripped", 1)
	})
	for _, t := range subTypes {
		t := t
		c.Cases(fmt.Sprintf("section%d", t), c.N(300), codecPar, func(k *Case) {
			s := genSubOf(k.R, t)
			k.Note("content", s.content())
			k.Sig(s.Type, s.content())
			want := s.toEgts()
			d := reflect.New(reflect.TypeOf(want).Elem()).Interface().(egts.BinaryData)
			if err := d.Decode(s.content()); err != nil {
				k.Failf("refused: %v", err)
			}
			out, err := d.Encode()
			if err != nil {
				k.Failf("encoding failed: %v", err)
			}
			mustEqual(k, fmt.Sprintf("%T re-encoded", want), s.content(), out)
			k.Count("bytes_round_tripped", 1)
		})
	}
	real := traffic()
	c.Cases("real", len(real), codecPar, func(k *Case) {
		raw := real[k.Index]
		k.Note("packet", raw)
		k.Sig(raw)
		body, ok := refFrame(raw)
		if !ok || refBody(raw[9], body) != accept && !plusOnly(body) {
			k.Count("real_packets_not_canonical", 1)
		}
		first := egts.Package{}
		if _, err := first.Decode(append([]byte(nil), raw...)); err != nil {
			if ok && refBody(raw[9], body) == accept {
				k.Failf("recorded packet refused: %v", err)
			}
			k.Count("real_packets_refused", 1)
			return
		}
		chain(k, raw, 5, false)
		k.Count("real_packets", 1)
	})
	c.Cases("large", c.N(16), codecPar, func(k *Case) {
		p := genBig(k.R, 65535-k.R.Intn(4))
		raw := p.bytes()
		k.Sig(raw)
		chain(k, raw, 2, true)
	})
}

func plusOnly([]byte) bool { return false }

type stripped struct {
	Type  byte
	Subs  []egts.BinaryData
	Recs  []uint16
	OIDs  []uint32
	Times []int64
}

// stripLengths keeps the values of a packet and leaves out its lengths and checksums.
func stripLengths(p egts.Package) stripped {
	s := stripped{Type: p.PacketType}
	set, ok := p.ServicesFrameData.(*egts.ServiceDataSet)
	if !ok {
		if r, ok2 := p.ServicesFrameData.(*egts.PtResponse); ok2 {
			s.Recs = append(s.Recs, r.ResponsePacketID, uint16(r.ProcessingResult))
			set, _ = r.SDR.(*egts.ServiceDataSet)
		}
	}
	if set != nil {
		for _, r := range *set {
			s.Recs = append(s.Recs, r.RecordNumber)
			s.OIDs = append(s.OIDs, r.ObjectIdentifier)
			s.Times = append(s.Times, r.Time.Unix())
			for _, d := range r.RecordDataSet {
				s.Subs = append(s.Subs, d.SubrecordData)
			}
		}
	}
	return s
}
