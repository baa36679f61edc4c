//go:build go1.22

package main

// Independent reference model of the protocol (GOST R 54619-2011, Order 285):
// abstract packet values, their byte layout, and a strict parser. Nothing here uses
// the library under test.

import (
	"encoding/binary"
	"fmt"
	"math"
)

// table driven checksums, written differently from the bitwise ones of the library
var crc8Tab [256]byte
var crc16Tab [256]uint16

func init() {
	for i := 0; i < 256; i++ {
		c := byte(i)
		for j := 0; j < 8; j++ {
			hi := c & 0x80
			c <<= 1
			if hi != 0 {
				c ^= 0x31
			}
		}
		crc8Tab[i] = c
		d := uint16(i) << 8
		for j := 0; j < 8; j++ {
			hi := d & 0x8000
			d <<= 1
			if hi != 0 {
				d ^= 0x1021
			}
		}
		crc16Tab[i] = d
	}
}

func refCRC8(b []byte) byte {
	c := byte(0xff)
	for _, x := range b {
		c = crc8Tab[c^x]
	}
	return c
}

func refCRC16(b []byte) uint16 {
	c := uint16(0xffff)
	for _, x := range b {
		c = c<<8 ^ crc16Tab[byte(c>>8)^x]
	}
	return c
}

type wr struct{ b []byte }

func (w *wr) u8(v uint8)   { w.b = append(w.b, v) }
func (w *wr) u16(v uint16) { w.b = append(w.b, byte(v), byte(v>>8)) }
func (w *wr) u24(v uint32) { w.b = append(w.b, byte(v), byte(v>>8), byte(v>>16)) }
func (w *wr) u32(v uint32) { w.b = append(w.b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24)) }
func (w *wr) raw(b []byte) { w.b = append(w.b, b...) }
func (w *wr) str(s string) { w.b = append(w.b, s...) }

func bit(v bool, n uint) uint8 {
	if v {
		return 1 << n
	}
	return 0
}

// RPkg is a packet.
type RPkg struct {
	PRV, SKID    uint8
	PRF, ENA, PR uint8 // two bits each
	RTE, CMP     bool
	HE           uint8
	PID          uint16
	PT           uint8
	PRA, RCA     uint16
	TTL          uint8
	Records      []RRec
	Resp         *RResp // packet type 0
	Body         []byte // overrides the encoded body when not nil (raw/encrypted)
}

// RResp is the body of a response packet.
type RResp struct {
	RPID uint16
	PR   uint8
	SDR  []RRec
	Has  bool // SDR present (may be checked only when len(SDR)>0)
}

// RRec is a service data record.
type RRec struct {
	RN               uint16
	SSOD, RSOD, GRP  bool
	RPP              uint8
	OBFE, EVFE, TMFE bool
	OID, EVID, TM    uint32
	SST, RST         uint8
	Subs             []RSub
}

// RSub is a subrecord. Data is one of the R* values below, or []byte for raw content.
type RSub struct {
	Type uint8
	Data interface{}
}

// RPos is POS_DATA.
type RPos struct {
	NTM, LAT, LONG                         uint32
	ALTE, LOHS, LAHS, MV, BB, CS, FIX, VLD bool
	SPD                                    uint16 // 14 bits, 0.1 km/h
	ALTS                                   bool
	Angle                                  uint16 // 0..359
	ODM                                    uint32 // 24 bits
	DIN, SRC                               uint8
	ALT                                    uint32 // 24 bits
}

// RExt is EXT_POS_DATA.
type RExt struct {
	VFE, HFE, PFE, SFE, NSFE bool
	VDOP, HDOP, PDOP         uint16
	SAT                      uint8
	NS                       uint16
}

// RAd is AD_SENSORS_DATA.
type RAd struct {
	DIOE uint8
	DOUT uint8
	ASFE uint8
	ADIO [8]uint8
	ANS  [8]uint32
}

// RCnt is COUNTERS_DATA.
type RCnt struct {
	CFE uint8
	CN  [8]uint32
}

// RTerm is TERM_IDENTITY.
type RTerm struct {
	TID                                              uint32
	MNE, BSE, NIDE, SSRA, LNGCE, IMSIE, IMEIE, HDIDE bool
	HDID                                             uint16
	IMEI, IMSI, LNGC                                 string
	NID                                              []byte
	BS                                               uint16
	MSISDN                                           string
}

// RMod is MODULE_DATA.
type RMod struct {
	MT        uint8
	VID       uint32
	FWV, SWV  uint16
	MD, ST    uint8
	SRN, DSCR string
}

// RAuth is AUTH_INFO.
type RAuth struct{ UNM, UPSW, SS string }

// RDisp is DISPATCHER_IDENTITY.
type RDisp struct {
	DT   uint8
	DID  uint32
	DSCR string
}

// RAbsAn is ABS_AN_SENS_DATA; RAbsCnt is ABS_CNTR_DATA.
type RAbsAn struct {
	N uint8
	V uint32
}
type RAbsCnt struct {
	N uint8
	V uint32
}

// RLiq is LIQUID_LEVEL_SENSOR.
type RLiq struct {
	LLSEF bool
	LLSVU uint8
	RDF   bool
	LLSN  uint8
	MADDR uint16
	LLSD  uint32
}

// RConf is RECORD_RESPONSE; RRes is RESULT_CODE; RState is STATE_DATA.
type RConf struct {
	CRN uint16
	RST uint8
}
type RRes struct{ RCD uint8 }
type RState struct {
	ST, MPSV, BBV, IBV uint8
	NMS, IBU, BBU      bool
}

// subrecord type codes of the protocol
const (
	tConf = 0
	tTerm = 1
	tMod  = 2
	tDisp = 5
	tAuth = 7
	tRes  = 9
	tPlus = 15
	tPos  = 16
	tExt  = 17
	tAd   = 18
	tCnt  = 19
	t20   = 20
	tSt   = 21
	tAn   = 24
	tCntr = 25
	tLiq  = 27
)

var knownTypes = map[uint8]bool{tConf: true, tTerm: true, tMod: true, tDisp: true, tAuth: true, tRes: true, tPlus: true, tPos: true,
	tExt: true, tAd: true, tCnt: true, t20: true, tSt: true, tAn: true, tCntr: true, tLiq: true}

func (s RSub) content() []byte {
	w := &wr{}
	switch d := s.Data.(type) {
	case []byte:
		return d
	case RPos:
		w.u32(d.NTM)
		w.u32(d.LAT)
		w.u32(d.LONG)
		w.u8(bit(d.ALTE, 7) | bit(d.LOHS, 6) | bit(d.LAHS, 5) | bit(d.MV, 4) | bit(d.BB, 3) | bit(d.CS, 2) | bit(d.FIX, 1) | bit(d.VLD, 0))
		spd := d.SPD & 0x3fff
		if d.ALTS {
			spd |= 0x4000
		}
		if d.Angle > 255 {
			spd |= 0x8000
		}
		w.u16(spd)
		w.u8(uint8(d.Angle))
		w.u24(d.ODM)
		w.u8(d.DIN)
		w.u8(d.SRC)
		if d.ALTE {
			w.u24(d.ALT)
		}
	case RExt:
		w.u8(bit(d.NSFE, 4) | bit(d.SFE, 3) | bit(d.PFE, 2) | bit(d.HFE, 1) | bit(d.VFE, 0))
		if d.VFE {
			w.u16(d.VDOP)
		}
		if d.HFE {
			w.u16(d.HDOP)
		}
		if d.PFE {
			w.u16(d.PDOP)
		}
		if d.SFE {
			w.u8(d.SAT)
		}
		if d.NSFE {
			w.u16(d.NS)
		}
	case RAd:
		w.u8(d.DIOE)
		w.u8(d.DOUT)
		w.u8(d.ASFE)
		for i := uint(0); i < 8; i++ {
			if d.DIOE>>i&1 == 1 {
				w.u8(d.ADIO[i])
			}
		}
		for i := uint(0); i < 8; i++ {
			if d.ASFE>>i&1 == 1 {
				w.u24(d.ANS[i])
			}
		}
	case RCnt:
		w.u8(d.CFE)
		for i := uint(0); i < 8; i++ {
			if d.CFE>>i&1 == 1 {
				w.u24(d.CN[i])
			}
		}
	case RTerm:
		w.u32(d.TID)
		w.u8(bit(d.MNE, 7) | bit(d.BSE, 6) | bit(d.NIDE, 5) | bit(d.SSRA, 4) | bit(d.LNGCE, 3) | bit(d.IMSIE, 2) | bit(d.IMEIE, 1) | bit(d.HDIDE, 0))
		if d.HDIDE {
			w.u16(d.HDID)
		}
		if d.IMEIE {
			w.str(d.IMEI)
		}
		if d.IMSIE {
			w.str(d.IMSI)
		}
		if d.LNGCE {
			w.str(d.LNGC)
		}
		if d.NIDE {
			w.raw(d.NID)
		}
		if d.BSE {
			w.u16(d.BS)
		}
		if d.MNE {
			w.str(d.MSISDN)
		}
	case RMod:
		w.u8(d.MT)
		w.u32(d.VID)
		w.u16(d.FWV)
		w.u16(d.SWV)
		w.u8(d.MD)
		w.u8(d.ST)
		w.str(d.SRN)
		w.u8(0)
		w.str(d.DSCR)
		w.u8(0)
	case RAuth:
		w.str(d.UNM)
		w.u8(0)
		w.str(d.UPSW)
		w.u8(0)
		if d.SS != "" {
			w.str(d.SS)
			w.u8(0)
		}
	case RDisp:
		w.u8(d.DT)
		w.u32(d.DID)
		w.str(d.DSCR)
	case RAbsAn:
		w.u8(d.N)
		w.u24(d.V)
	case RAbsCnt:
		w.u8(d.N)
		w.u24(d.V)
	case RLiq:
		w.u8(bit(d.LLSEF, 6) | d.LLSVU<<4 | bit(d.RDF, 3) | d.LLSN)
		w.u16(d.MADDR)
		w.u32(d.LLSD)
	case RConf:
		w.u16(d.CRN)
		w.u8(d.RST)
	case RRes:
		w.u8(d.RCD)
	case RState:
		w.u8(d.ST)
		w.u8(d.MPSV)
		w.u8(d.BBV)
		w.u8(d.IBV)
		w.u8(bit(d.NMS, 2) | bit(d.IBU, 1) | bit(d.BBU, 0))
	case RPlus:
		return d.content()
	default:
		panic(fmt.Sprintf("content of %T", s.Data))
	}
	return w.b
}

func (s RSub) bytes() []byte {
	c := s.content()
	if len(c) > math.MaxUint16 {
		panic("subrecord too long")
	}
	w := &wr{}
	w.u8(s.Type)
	w.u16(uint16(len(c)))
	w.raw(c)
	return w.b
}

func (r RRec) data() []byte {
	var b []byte
	for _, s := range r.Subs {
		b = append(b, s.bytes()...)
	}
	return b
}

// head writes the record header with the given record length.
func (r RRec) head(rl int) []byte {
	w := &wr{}
	w.u16(uint16(rl))
	w.u16(r.RN)
	w.u8(bit(r.SSOD, 7) | bit(r.RSOD, 6) | bit(r.GRP, 5) | r.RPP<<3 | bit(r.TMFE, 2) | bit(r.EVFE, 1) | bit(r.OBFE, 0))
	if r.OBFE {
		w.u32(r.OID)
	}
	if r.EVFE {
		w.u32(r.EVID)
	}
	if r.TMFE {
		w.u32(r.TM)
	}
	w.u8(r.SST)
	w.u8(r.RST)
	return w.b
}

func (r RRec) bytes() []byte {
	d := r.data()
	return append(r.head(len(d)), d...)
}

func recsBytes(rs []RRec) []byte {
	var b []byte
	for _, r := range rs {
		b = append(b, r.bytes()...)
	}
	return b
}

func (p RPkg) body() []byte {
	if p.Body != nil {
		return p.Body
	}
	if p.Resp != nil {
		w := &wr{}
		w.u16(p.Resp.RPID)
		w.u8(p.Resp.PR)
		w.raw(recsBytes(p.Resp.SDR))
		return w.b
	}
	return recsBytes(p.Records)
}

func (p RPkg) header(fdl int) []byte {
	w := &wr{}
	w.u8(p.PRV)
	w.u8(p.SKID)
	w.u8(p.PRF<<6 | bit(p.RTE, 5) | p.ENA<<3 | bit(p.CMP, 2) | p.PR)
	hl := uint8(11)
	if p.RTE {
		hl = 16
	}
	w.u8(hl)
	w.u8(p.HE)
	w.u16(uint16(fdl))
	w.u16(p.PID)
	w.u8(p.PT)
	if p.RTE {
		w.u16(p.PRA)
		w.u16(p.RCA)
		w.u8(p.TTL)
	}
	w.u8(refCRC8(w.b))
	return w.b
}

func (p RPkg) headerLen() int {
	if p.RTE {
		return 16
	}
	return 11
}

// bytes is the packet on the wire. A packet without a body has no data checksum.
func (p RPkg) bytes() []byte {
	body := p.body()
	w := &wr{}
	w.raw(p.header(len(body)))
	if len(body) > 0 {
		w.raw(body)
		w.u16(refCRC16(body))
	}
	return w.b
}

// ---- strict parsing ----

type verdict int

const (
	accept verdict = iota // must be accepted
	reject                // must be refused
	either                // the property does not say
)

func worse(a, b verdict) verdict {
	if a == reject || b == reject {
		return reject
	}
	if a == either || b == either {
		return either
	}
	return accept
}

// refFrame says whether the envelope of a packet is intact: header length, header
// checksum, body present, body checksum.
func refFrame(b []byte) (body []byte, ok bool) {
	if len(b) < 11 {
		return nil, false
	}
	hl := 11
	if b[2]&0x20 != 0 {
		hl = 16
	}
	if len(b) < hl || int(b[3]) != hl || refCRC8(b[:hl-1]) != b[hl-1] {
		return nil, false
	}
	fdl := int(binary.LittleEndian.Uint16(b[5:7]))
	if len(b) < hl+fdl+2 {
		return nil, false
	}
	body = b[hl : hl+fdl]
	if refCRC16(body) != binary.LittleEndian.Uint16(b[hl+fdl:]) {
		return nil, false
	}
	return body, true
}

// refBody judges the inside of an application data or response body.
func refBody(pt uint8, body []byte) verdict {
	switch pt {
	case 1:
		return refRecords(body)
	case 0:
		if len(body) < 3 {
			return reject
		}
		return refRecords(body[3:])
	}
	return reject
}

func refRecords(b []byte) verdict {
	v := accept
	for len(b) > 0 {
		if len(b) < 7 {
			return reject
		}
		rl := int(binary.LittleEndian.Uint16(b))
		h := 7
		for i := uint(0); i < 3; i++ {
			if b[4]>>i&1 == 1 {
				h += 4
			}
		}
		if len(b) < h {
			return reject
		}
		b = b[h:]
		if rl > len(b) {
			if len(b) == 0 {
				return worse(v, either) // header only: tolerated by the library's own tests
			}
			return reject
		}
		v = worse(v, refSubs(b[:rl]))
		if v == reject {
			return v
		}
		b = b[rl:]
	}
	return v
}

func refSubs(b []byte) verdict {
	v := accept
	for len(b) > 0 {
		if len(b) < 3 {
			return reject
		}
		l := int(binary.LittleEndian.Uint16(b[1:]))
		if l > len(b)-3 {
			return reject
		}
		v = worse(v, refSub(b[0], b[3:3+l]))
		if v == reject {
			return v
		}
		b = b[3+l:]
	}
	return v
}

func popcount(b uint8) int {
	n := 0
	for ; b != 0; b &= b - 1 {
		n++
	}
	return n
}

// need says accept when the content is exactly long enough, reject when too short,
// and either when bytes are left over.
func need(c []byte, n int) verdict {
	switch {
	case len(c) < n:
		return reject
	case len(c) == n:
		return accept
	}
	return either
}

func refSub(t uint8, c []byte) verdict {
	switch t {
	case tPos:
		if len(c) < 21 {
			return reject
		}
		n := 21
		if c[12]&0x80 != 0 {
			n += 3
		}
		if len(c) < n {
			return reject
		}
		return accept // source data may follow
	case tExt:
		if len(c) < 1 {
			return reject
		}
		f := c[0]
		return need(c, 1+2*popcount(f&7)+popcount(f&8)+2*popcount(f&16))
	case tAd:
		if len(c) < 3 {
			return reject
		}
		return need(c, 3+popcount(c[0])+3*popcount(c[2]))
	case tCnt:
		if len(c) < 1 {
			return reject
		}
		return need(c, 1+3*popcount(c[0]))
	case tTerm:
		if len(c) < 5 {
			return reject
		}
		n := 5
		for i, l := range []int{2, 15, 16, 3, 0, 3, 2, 15} {
			if c[4]>>uint(i)&1 == 1 {
				n += l
			}
		}
		return need(c, n)
	case tMod:
		if len(c) < 13 {
			return reject
		}
		z := 0
		for i, x := range c[11:] {
			if x == 0 {
				z++
				if z == 2 {
					return need(c, 11+i+1)
				}
			}
		}
		return reject
	case tAuth:
		z := 0
		for i, x := range c {
			if x == 0 {
				z++
				if z == 2 && i == len(c)-1 {
					return accept
				}
				if z == 3 {
					return need(c, i+1)
				}
			}
		}
		if z < 2 {
			return reject
		}
		return either
	case tDisp:
		if len(c) < 5 {
			return reject
		}
		return accept
	case tAn, tCntr:
		return need(c, 4)
	case tLiq:
		return need(c, 7)
	case tConf:
		return need(c, 3)
	case tRes:
		return need(c, 1)
	case t20:
		if len(c) == 5 {
			return accept
		}
		return either
	case tSt:
		return need(c, 5)
	case tPlus:
		return either
	}
	return accept // unknown: skipped
}

// ---- parser for what the receiver and the generator send ----

// parsePacket parses one intact packet from the front of b into the abstract form.
// Only what the programs under test send is understood.
func parsePacket(b []byte) (p RPkg, n int, err error) {
	if len(b) < 11 {
		return p, 0, fmt.Errorf("packet of %d bytes", len(b))
	}
	p.PRV, p.SKID = b[0], b[1]
	f := b[2]
	p.PRF, p.RTE, p.ENA, p.CMP, p.PR = f>>6, f&0x20 != 0, f>>3&3, f&4 != 0, f&3
	p.HE = b[4]
	fdl := int(binary.LittleEndian.Uint16(b[5:]))
	p.PID = binary.LittleEndian.Uint16(b[7:])
	p.PT = b[9]
	hl := p.headerLen()
	if int(b[3]) != hl {
		return p, 0, fmt.Errorf("header length %d", b[3])
	}
	n = hl
	if fdl > 0 {
		n += fdl + 2
	}
	if len(b) < n {
		return p, 0, fmt.Errorf("packet of %d bytes, lengths say %d", len(b), n)
	}
	if p.RTE {
		p.PRA, p.RCA, p.TTL = binary.LittleEndian.Uint16(b[10:]), binary.LittleEndian.Uint16(b[12:]), b[14]
	}
	if refCRC8(b[:hl-1]) != b[hl-1] {
		return p, 0, fmt.Errorf("wrong header checksum")
	}
	if fdl == 0 {
		return p, n, nil
	}
	body := b[hl : hl+fdl]
	if refCRC16(body) != binary.LittleEndian.Uint16(b[hl+fdl:]) {
		return p, 0, fmt.Errorf("wrong data checksum")
	}
	p.Body = body
	switch p.PT {
	case 0:
		if len(body) < 3 {
			return p, 0, fmt.Errorf("response body of %d bytes", len(body))
		}
		p.Resp = &RResp{RPID: binary.LittleEndian.Uint16(body), PR: body[2]}
		p.Resp.SDR, err = parseRecords(body[3:])
		p.Resp.Has = len(body) > 3
	case 1:
		p.Records, err = parseRecords(body)
	default:
		err = fmt.Errorf("packet type %d", p.PT)
	}
	return p, n, err
}

func parseRecords(b []byte) ([]RRec, error) {
	var out []RRec
	for len(b) > 0 {
		if len(b) < 7 {
			return out, fmt.Errorf("record header of %d bytes", len(b))
		}
		rl := int(binary.LittleEndian.Uint16(b))
		r := RRec{RN: binary.LittleEndian.Uint16(b[2:])}
		f := b[4]
		r.SSOD, r.RSOD, r.GRP, r.RPP = f&0x80 != 0, f&0x40 != 0, f&0x20 != 0, f>>3&3
		r.TMFE, r.EVFE, r.OBFE = f&4 != 0, f&2 != 0, f&1 != 0
		b = b[5:]
		take := func() uint32 {
			if len(b) < 4 {
				b = nil
				return 0
			}
			v := binary.LittleEndian.Uint32(b)
			b = b[4:]
			return v
		}
		if r.OBFE {
			r.OID = take()
		}
		if r.EVFE {
			r.EVID = take()
		}
		if r.TMFE {
			r.TM = take()
		}
		if len(b) < 2 {
			return out, fmt.Errorf("record header cut off")
		}
		r.SST, r.RST = b[0], b[1]
		b = b[2:]
		if rl > len(b) {
			return out, fmt.Errorf("record length %d, %d bytes left", rl, len(b))
		}
		d := b[:rl]
		b = b[rl:]
		for len(d) > 0 {
			if len(d) < 3 {
				return out, fmt.Errorf("subrecord header cut off")
			}
			l := int(binary.LittleEndian.Uint16(d[1:]))
			if l > len(d)-3 {
				return out, fmt.Errorf("subrecord length %d, %d bytes left", l, len(d)-3)
			}
			s, err := parseSub(d[0], d[3:3+l])
			if err != nil {
				return out, err
			}
			r.Subs = append(r.Subs, s)
			d = d[3+l:]
		}
		out = append(out, r)
	}
	return out, nil
}

func parseSub(t uint8, c []byte) (RSub, error) {
	s := RSub{Type: t, Data: append([]byte(nil), c...)}
	if v := refSub(t, c); v == reject {
		return s, fmt.Errorf("subrecord %d too short: %x", t, c)
	}
	le := binary.LittleEndian
	switch t {
	case tConf:
		s.Data = RConf{le.Uint16(c), c[2]}
	case tRes:
		s.Data = RRes{c[0]}
	case tPos:
		d := RPos{NTM: le.Uint32(c), LAT: le.Uint32(c[4:]), LONG: le.Uint32(c[8:])}
		f := c[12]
		d.ALTE, d.LOHS, d.LAHS, d.MV = f&0x80 != 0, f&0x40 != 0, f&0x20 != 0, f&0x10 != 0
		d.BB, d.CS, d.FIX, d.VLD = f&8 != 0, f&4 != 0, f&2 != 0, f&1 != 0
		spd := le.Uint16(c[13:])
		d.SPD, d.ALTS, d.Angle = spd&0x3fff, spd&0x4000 != 0, spd>>15<<8|uint16(c[15])
		d.ODM = uint32(c[16]) | uint32(c[17])<<8 | uint32(c[18])<<16
		d.DIN, d.SRC = c[19], c[20]
		if d.ALTE {
			d.ALT = uint32(c[21]) | uint32(c[22])<<8 | uint32(c[23])<<16
		}
		s.Data = d
	case tLiq:
		s.Data = RLiq{LLSEF: c[0]&0x40 != 0, LLSVU: c[0] >> 4 & 3, RDF: c[0]&8 != 0, LLSN: c[0] & 7, MADDR: le.Uint16(c[1:]), LLSD: le.Uint32(c[3:])}
	}
	return s, nil
}
