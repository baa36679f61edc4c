//go:build go1.22

package main

// Generators of abstract packets: boundary-heavy values, every presence-flag
// combination, arbitrary sequences.

import (
	"math/rand"
	"time"
)

func genU8(r *rand.Rand) uint8 {
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return 255
	case 2:
		return []uint8{1, 127, 128, 254}[r.Intn(4)]
	}
	return uint8(r.Intn(256))
}

func genU16(r *rand.Rand) uint16 {
	switch r.Intn(5) {
	case 0:
		return []uint16{0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff}[r.Intn(8)]
	case 1:
		return uint16(r.Intn(256))
	}
	return uint16(r.Intn(65536))
}

func genU24(r *rand.Rand) uint32 {
	switch r.Intn(5) {
	case 0:
		return []uint32{0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xfffffe, 0xffffff}[r.Intn(10)]
	case 1:
		return uint32(r.Intn(65536))
	}
	return uint32(r.Intn(1 << 24))
}

func genU32(r *rand.Rand) uint32 {
	switch r.Intn(5) {
	case 0:
		return []uint32{0, 1, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}[r.Intn(12)]
	case 1:
		return uint32(r.Intn(65536))
	}
	return r.Uint32()
}

func coin(r *rand.Rand) bool { return r.Intn(2) == 0 }

// genText makes text without the NUL delimiter, of any other bytes.
func genText(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		switch r.Intn(6) {
		case 0:
			b[i] = byte(1 + r.Intn(255))
		default:
			b[i] = byte(33 + r.Intn(90))
		}
	}
	if r.Intn(6) == 0 { // padded
		pad := []byte(" \t\n0\xff")[r.Intn(5)]
		at := r.Intn(n + 1)
		for i := range b {
			if i >= at || pad == '0' && i < at {
				b[i] = pad
			}
		}
	}
	if n > 1 && r.Intn(8) == 0 {
		b[r.Intn(2)*(n-1)] = " \t\r\""[r.Intn(4)]
	}
	return string(b)
}

// genFixed makes a text of fixed length, which has no delimiter: zero bytes count.
func genFixed(r *rand.Rand, n int) string {
	b := []byte(genText(r, n))
	if r.Intn(3) == 0 {
		at, before := r.Intn(n+1), r.Intn(4) == 0
		for i := range b {
			if i >= at != before {
				b[i] = 0
			}
		}
	}
	return string(b)
}

func genPos(r *rand.Rand) RPos {
	d := RPos{NTM: genU32(r), LAT: genU32(r), LONG: genU32(r), ALTE: coin(r), LOHS: coin(r), LAHS: coin(r), MV: coin(r), BB: coin(r), CS: coin(r),
		FIX: coin(r), VLD: coin(r), ALTS: coin(r), ODM: genU24(r), DIN: genU8(r), SRC: genU8(r), ALT: genU24(r)}
	switch r.Intn(4) {
	case 0:
		d.SPD = []uint16{0, 10, 20, 16380, 8190, 8200, 2550, 2560}[r.Intn(8)]
	default:
		d.SPD = uint16(r.Intn(1639)) * 10
	}
	switch r.Intn(4) {
	case 0:
		d.Angle = []uint16{0, 1, 127, 128, 255, 256, 257, 359}[r.Intn(8)]
	default:
		d.Angle = uint16(r.Intn(360))
	}
	return d
}

func genExt(r *rand.Rand) RExt {
	f := r.Intn(32)
	return RExt{VFE: f&1 != 0, HFE: f&2 != 0, PFE: f&4 != 0, SFE: f&8 != 0, NSFE: f&16 != 0,
		VDOP: genU16(r), HDOP: genU16(r), PDOP: genU16(r), SAT: genU8(r), NS: genU16(r)}
}

func genMask(r *rand.Rand) uint8 {
	switch r.Intn(4) {
	case 0:
		return 1 << uint(r.Intn(8))
	case 1:
		return []uint8{0, 0xff, 0xf0, 0x0f}[r.Intn(4)]
	}
	return uint8(r.Intn(256))
}

func genAd(r *rand.Rand) RAd {
	d := RAd{DIOE: genMask(r), DOUT: genU8(r), ASFE: genMask(r)}
	for i := range d.ADIO {
		d.ADIO[i], d.ANS[i] = genU8(r), genU24(r)
	}
	return d
}

func genCnt(r *rand.Rand) RCnt {
	d := RCnt{CFE: genMask(r)}
	for i := range d.CN {
		d.CN[i] = genU24(r)
	}
	return d
}

func genTermFlags(r *rand.Rand, f uint8) RTerm {
	d := RTerm{TID: genU32(r), MNE: f&0x80 != 0, BSE: f&0x40 != 0, NIDE: f&0x20 != 0, SSRA: f&0x10 != 0, LNGCE: f&8 != 0, IMSIE: f&4 != 0, IMEIE: f&2 != 0, HDIDE: f&1 != 0,
		HDID: genU16(r), IMEI: genFixed(r, 15), IMSI: genFixed(r, 16), LNGC: genFixed(r, 3), BS: genU16(r), MSISDN: genFixed(r, 15)}
	d.NID = make([]byte, 3)
	r.Read(d.NID)
	return d
}

func genTerm(r *rand.Rand) RTerm { return genTermFlags(r, uint8(r.Intn(256))) }

func genMod(r *rand.Rand) RMod {
	return RMod{MT: genU8(r), VID: genU32(r), FWV: genU16(r), SWV: genU16(r), MD: genU8(r), ST: genU8(r), SRN: genText(r, genTextLen(r)), DSCR: genText(r, genTextLen(r))}
}

func genLen(r *rand.Rand, max int) int {
	switch r.Intn(4) {
	case 0:
		return 0
	case 1:
		return max
	}
	return r.Intn(max + 1)
}

// genTextLen is the length of a text: mostly short, sometimes around the sizes of
// buffers and length bytes.
func genTextLen(r *rand.Rand) int {
	if r.Intn(5) == 0 {
		return []int{33, 40, 41, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 1024, 1025}[r.Intn(20)]
	}
	return genLen(r, 32)
}

func genAuth(r *rand.Rand) RAuth {
	d := RAuth{UNM: genText(r, genTextLen(r)), UPSW: genText(r, genTextLen(r))}
	if coin(r) {
		d.SS = genText(r, 1+r.Intn(255))
		if r.Intn(6) == 0 {
			d.SS = genText(r, 1+genTextLen(r))
		}
	}
	return d
}

func genDisp(r *rand.Rand) RDisp {
	b := make([]byte, genLen(r, 255))
	if r.Intn(6) == 0 {
		b = make([]byte, genTextLen(r))
	}
	r.Read(b)
	return RDisp{DT: genU8(r), DID: genU32(r), DSCR: string(b)}
}

func genLiq(r *rand.Rand) RLiq {
	return RLiq{LLSEF: coin(r), LLSVU: uint8(r.Intn(4)), RDF: coin(r), LLSN: uint8(r.Intn(8)), MADDR: genU16(r), LLSD: genU32(r)}
}

// genSubOf makes a subrecord of the given known type.
func genSubOf(r *rand.Rand, t uint8) RSub {
	s := RSub{Type: t}
	switch t {
	case tPos:
		s.Data = genPos(r)
	case tExt:
		s.Data = genExt(r)
	case tAd:
		s.Data = genAd(r)
	case tCnt:
		s.Data = genCnt(r)
	case tTerm:
		s.Data = genTerm(r)
	case tMod:
		s.Data = genMod(r)
	case tAuth:
		s.Data = genAuth(r)
	case tDisp:
		s.Data = genDisp(r)
	case tAn:
		s.Data = RAbsAn{genU8(r), genU24(r)}
	case tCntr:
		s.Data = RAbsCnt{genU8(r), genU24(r)}
	case tLiq:
		s.Data = genLiq(r)
	case tConf:
		s.Data = RConf{genU16(r), genU8(r)}
	case tRes:
		s.Data = RRes{genU8(r)}
	case t20, tSt:
		s.Data = RState{genU8(r), genU8(r), genU8(r), genU8(r), coin(r), coin(r), coin(r)}
	case tPlus:
		s.Data = *genPlusMsg(r, "StorageRecord", r.Intn(10) == 0)
	default:
		panic("genSubOf")
	}
	return s
}

var subTypes = []uint8{tConf, tTerm, tMod, tDisp, tAuth, tRes, tPlus, tPos, tExt, tAd, tCnt, t20, tSt, tAn, tCntr, tLiq}

func genUnknownType(r *rand.Rand) uint8 {
	for {
		t := uint8(r.Intn(256))
		if r.Intn(4) == 0 {
			t = []uint8{3, 4, 6, 8, 10, 11, 22, 23, 26, 28, 51, 62, 63, 255}[r.Intn(14)]
		}
		if !knownTypes[t] {
			return t
		}
	}
}

func genUnknown(r *rand.Rand, max int) RSub {
	b := make([]byte, genLen(r, max))
	r.Read(b)
	return RSub{Type: genUnknownType(r), Data: b}
}

func genSub(r *rand.Rand) RSub { return genSubOf(r, subTypes[r.Intn(len(subTypes))]) }

func genRecHead(r *rand.Rand) RRec {
	return RRec{RN: genU16(r), SSOD: coin(r), RSOD: coin(r), GRP: coin(r), RPP: uint8(r.Intn(4)), OBFE: coin(r), EVFE: coin(r), TMFE: coin(r),
		OID: genU32(r), EVID: genU32(r), TM: genU32(r), SST: genU8(r), RST: genU8(r)}
}

func genRec(r *rand.Rand, subs int) RRec {
	rec := genRecHead(r)
	for i := 0; i < subs; i++ {
		rec.Subs = append(rec.Subs, genSub(r))
	}
	return rec
}

func genHeader(r *rand.Rand) RPkg {
	p := RPkg{PRV: 1, PRF: 0, RTE: r.Intn(3) == 0, PR: uint8(r.Intn(4)), PID: genU16(r), PT: 1, PRA: genU16(r), RCA: genU16(r), TTL: genU8(r)}
	switch r.Intn(3) {
	case 0:
		p.SKID, p.PRF, p.CMP, p.HE = genU8(r), uint8(r.Intn(4)), coin(r), genU8(r)
	case 1:
		p.SKID, p.HE = genU8(r), genU8(r)
	}
	return p
}

// genPkg makes an application data or response packet.
func genPkg(r *rand.Rand) RPkg {
	p := genHeader(r)
	if r.Intn(6) == 0 {
		p.PT = 0
		p.Resp = &RResp{RPID: genU16(r), PR: genU8(r)}
		for n := r.Intn(3); n > 0; n-- {
			rec := genRecHead(r)
			for m := 1 + r.Intn(3); m > 0; m-- {
				rec.Subs = append(rec.Subs, genSubOf(r, tConf))
			}
			p.Resp.SDR = append(p.Resp.SDR, rec)
		}
		return p
	}
	n := 1 + r.Intn(3)
	if r.Intn(10) == 0 {
		n = 1 + r.Intn(20)
	}
	for i := 0; i < n; i++ {
		p.Records = append(p.Records, genRec(r, 1+r.Intn(4)))
	}
	return p
}

// genBig makes a packet whose body is as near to 65535 bytes as asked for.
func genBig(r *rand.Rand, target int) RPkg {
	p := genHeader(r)
	left := target
	style := r.Intn(6) // 0: thousands of small records, 1: thousands of small subrecords, else larger ones
	for left > 0 {
		rec := genRecHead(r)
		h := len(rec.head(0))
		if style == 0 && left > 200 {
			if r.Intn(8) > 0 {
				rec.OBFE, rec.EVFE, rec.TMFE = false, false, false
			}
			if r.Intn(3) == 0 {
				rec.Subs = []RSub{{Type: tDisp, Data: RDisp{genU8(r), genU32(r), genText(r, r.Intn(4))}}}
			}
			p.Records = append(p.Records, rec)
			left -= len(rec.bytes())
			continue
		}
		if left < h+3+5 {
			break
		}
		room := left - h
		if r.Intn(2) == 0 && room > 2000 {
			room = 500 + r.Intn(1500)
		}
		if style == 1 {
			room = left - h
		}
		for room >= 3+5 {
			s := genSub(r)
			if style == 1 {
				s = RSub{Type: tDisp, Data: RDisp{genU8(r), genU32(r), ""}}
			}
			if l := len(s.bytes()); l <= room {
				rec.Subs = append(rec.Subs, s)
				room -= l
				continue
			}
			break
		}
		// a dispatcher identity of the exact rest fills the record up
		if fill := room - 3 - 5; fill >= 0 {
			rec.Subs = append(rec.Subs, RSub{Type: tDisp, Data: RDisp{1, 2, genText(r, fill)}})
			room = 0
		}
		p.Records = append(p.Records, rec)
		left -= len(rec.bytes())
	}
	return p
}

// nearPowers are sizes at which buffers and length fields change behaviour.
func nearPowers(lo, hi int) (out []int) {
	for b := 32; b <= 65536; b *= 2 {
		for _, m := range []int{b, b + b/2} {
			for d := -4; d <= 4; d++ {
				if v := m + d; v >= lo && v <= hi {
					out = append(out, v)
				}
			}
		}
	}
	return
}

// inZone tells the same moment in another time zone.
func inZone(r *rand.Rand, t time.Time) time.Time {
	if r.Intn(3) == 0 {
		return t.Local()
	}
	return t.In(time.FixedZone("somewhere", (r.Intn(2*14*4+1)-14*4)*900))
}
