//go:build go1.22

package main

// Conversion between the abstract values of the reference model and the structures of
// the library, and comparison of such structures.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

func b01(v bool) string {
	if v {
		return "1"
	}
	return "0"
}

func bits(v uint8, n int) string { return fmt.Sprintf("%0*b", n, v) }

const epoch2010 = 1262304000

func egtsTime(sec uint32) time.Time { return time.Unix(epoch2010+int64(sec), 0).UTC() }

func latDeg(raw uint32) float64 { return float64(raw) * 90 / 0xFFFFFFFF }
func lonDeg(raw uint32) float64 { return float64(raw) * 180 / 0xFFFFFFFF }

// toEgts builds the structure the library must produce for this subrecord.
func (s RSub) toEgts() egts.BinaryData {
	switch d := s.Data.(type) {
	case RPos:
		e := &egts.SrPosData{
			NavigationTime: egtsTime(d.NTM), Latitude: latDeg(d.LAT), Longitude: lonDeg(d.LONG),
			ALTE: b01(d.ALTE), LOHS: b01(d.LOHS), LAHS: b01(d.LAHS), MV: b01(d.MV), BB: b01(d.BB), CS: b01(d.CS), FIX: b01(d.FIX), VLD: b01(d.VLD),
			Speed: d.SPD / 10, Direction: byte(d.Angle), Odometer: d.ODM, DigitalInputs: d.DIN, Source: d.SRC,
		}
		if d.ALTS {
			e.AltitudeSign = 1
		}
		if d.Angle > 255 {
			e.DirectionHighestBit = 1
			e.Direction |= 0x80
		}
		if d.ALTE {
			e.Altitude = d.ALT
		}
		return e
	case RExt:
		e := &egts.SrExtPosData{NavigationSystemFieldExists: b01(d.NSFE), SatellitesFieldExists: b01(d.SFE), PdopFieldExists: b01(d.PFE),
			HdopFieldExists: b01(d.HFE), VdopFieldExists: b01(d.VFE)}
		if d.VFE {
			e.VerticalDilutionOfPrecision = d.VDOP
		}
		if d.HFE {
			e.HorizontalDilutionOfPrecision = d.HDOP
		}
		if d.PFE {
			e.PositionDilutionOfPrecision = d.PDOP
		}
		if d.SFE {
			e.Satellites = d.SAT
		}
		if d.NSFE {
			e.NavigationSystem = d.NS
		}
		return e
	case RAd:
		e := &egts.SrAdSensorsData{DigitalOutputs: d.DOUT}
		v := reflect.ValueOf(e).Elem()
		for i := uint(0); i < 8; i++ {
			n := fmt.Sprint(i + 1)
			di, as := d.DIOE>>i&1 == 1, d.ASFE>>i&1 == 1
			v.FieldByName("DigitalInputsOctetExists" + n).SetString(b01(di))
			v.FieldByName("AnalogSensorFieldExists" + n).SetString(b01(as))
			if di {
				v.FieldByName("AdditionalDigitalInputsOctet" + n).SetUint(uint64(d.ADIO[i]))
			}
			if as {
				v.FieldByName("AnalogSensor" + n).SetUint(uint64(d.ANS[i]))
			}
		}
		return e
	case RCnt:
		e := &egts.SrCountersData{}
		v := reflect.ValueOf(e).Elem()
		for i := uint(0); i < 8; i++ {
			n := fmt.Sprint(i + 1)
			on := d.CFE>>i&1 == 1
			v.FieldByName("CounterFieldExists" + n).SetString(b01(on))
			if on {
				v.FieldByName("Counter" + n).SetUint(uint64(d.CN[i]))
			}
		}
		return e
	case RTerm:
		e := &egts.SrTermIdentity{TerminalIdentifier: d.TID, MNE: b01(d.MNE), BSE: b01(d.BSE), NIDE: b01(d.NIDE), SSRA: b01(d.SSRA),
			LNGCE: b01(d.LNGCE), IMSIE: b01(d.IMSIE), IMEIE: b01(d.IMEIE), HDIDE: b01(d.HDIDE)}
		if d.HDIDE {
			e.HomeDispatcherIdentifier = d.HDID
		}
		if d.IMEIE {
			e.IMEI = d.IMEI
		}
		if d.IMSIE {
			e.IMSI = d.IMSI
		}
		if d.LNGCE {
			e.LanguageCode = d.LNGC
		}
		if d.NIDE {
			e.NetworkIdentifier = append([]byte{}, d.NID...)
		}
		if d.BSE {
			e.BufferSize = d.BS
		}
		if d.MNE {
			e.MobileNumber = d.MSISDN
		}
		return e
	case RMod:
		return &egts.SrModuleData{ModuleType: int8(d.MT), VendorID: d.VID, FirmwareVersion: d.FWV, SoftwareVersion: d.SWV, Modification: d.MD,
			State: d.ST, SerialNumber: d.SRN, Description: d.DSCR}
	case RAuth:
		return &egts.SrAuthInfo{UserName: d.UNM, UserPassword: d.UPSW, ServerSequence: d.SS}
	case RDisp:
		return &egts.SrDispatcherIdentity{DispatcherType: d.DT, DispatcherID: d.DID, Description: d.DSCR}
	case RAbsAn:
		return &egts.SrAbsAnSensData{SensorNumber: d.N, Value: d.V}
	case RAbsCnt:
		return &egts.SrAbsCntrData{CounterNumber: d.N, CounterValue: d.V}
	case RLiq:
		return &egts.SrLiquidLevelSensor{LiquidLevelSensorErrorFlag: b01(d.LLSEF), LiquidLevelSensorValueUnit: bits(d.LLSVU, 2), RawDataFlag: b01(d.RDF),
			LiquidLevelSensorNumber: d.LLSN, ModuleAddress: d.MADDR, LiquidLevelSensorData: d.LLSD}
	case RConf:
		return &egts.SrResponse{ConfirmedRecordNumber: d.CRN, RecordStatus: d.RST}
	case RRes:
		return &egts.SrResultCode{ResultCode: d.RCD}
	case RState:
		return &egts.SrStateData{State: d.ST, MainPowerSourceVoltage: d.MPSV, BackUpBatteryVoltage: d.BBV, InternalBatteryVoltage: d.IBV,
			NMS: b01(d.NMS), IBU: b01(d.IBU), BBU: b01(d.BBU)}
	case RPlus:
		return d.toEgts()
	}
	return nil
}

// toEgts builds the record the library must produce; unknown subrecords are skipped.
func (r RRec) toEgts() egts.ServiceDataRecord {
	e := egts.ServiceDataRecord{
		RecordLength: uint16(len(r.data())), RecordNumber: r.RN,
		SourceServiceOnDevice: b01(r.SSOD), RecipientServiceOnDevice: b01(r.RSOD), Group: b01(r.GRP), RecordProcessingPriority: bits(r.RPP, 2),
		TimeFieldExists: b01(r.TMFE), EventIDFieldExists: b01(r.EVFE), ObjectIDFieldExists: b01(r.OBFE),
		SourceServiceType: r.SST, RecipientServiceType: r.RST,
	}
	if r.OBFE {
		e.ObjectIdentifier = r.OID
	}
	if r.EVFE {
		e.EventIdentifier = r.EVID
	}
	if r.TMFE {
		e.Time = egtsTime(r.TM)
	}
	for _, s := range r.Subs {
		if d := s.toEgts(); d != nil {
			e.RecordDataSet = append(e.RecordDataSet, egts.RecordData{SubrecordType: s.Type, SubrecordLength: uint16(len(s.content())), SubrecordData: d})
		}
	}
	return e
}

func recsToEgts(rs []RRec) *egts.ServiceDataSet {
	out := egts.ServiceDataSet{}
	for _, r := range rs {
		out = append(out, r.toEgts())
	}
	return &out
}

func (p RPkg) toEgts() egts.Package {
	body := p.body()
	raw := p.bytes()
	e := egts.Package{
		ProtocolVersion: p.PRV, SecurityKeyID: p.SKID, Prefix: bits(p.PRF, 2), Route: b01(p.RTE), EncryptionAlg: bits(p.ENA, 2),
		Compression: b01(p.CMP), Priority: bits(p.PR, 2), HeaderLength: byte(p.headerLen()), HeaderEncoding: p.HE,
		FrameDataLength: uint16(len(body)), PacketIdentifier: p.PID, PacketType: p.PT, HeaderCheckSum: raw[p.headerLen()-1],
	}
	if p.RTE {
		e.PeerAddress, e.RecipientAddress, e.TimeToLive = p.PRA, p.RCA, p.TTL
	}
	if len(body) > 0 {
		e.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(raw[len(raw)-2:])
	}
	if p.Resp != nil {
		pr := &egts.PtResponse{ResponsePacketID: p.Resp.RPID, ProcessingResult: p.Resp.PR}
		if len(p.Resp.SDR) > 0 {
			pr.SDR = recsToEgts(p.Resp.SDR)
		}
		e.ServicesFrameData = pr
	} else {
		e.ServicesFrameData = recsToEgts(p.Records)
	}
	return e
}

var timeType = reflect.TypeOf(time.Time{})

// diff compares two library structures field by field (exported fields only) and
// describes the first difference; floats may differ by less than a hundredth of the
// wire resolution.
func diff(path string, want, got reflect.Value) string {
	if want.Kind() == reflect.Interface || want.Kind() == reflect.Ptr {
		wn, gn := want.IsNil(), got.IsNil()
		if wn || gn {
			if wn != gn {
				return fmt.Sprintf("%s: want nil=%v got nil=%v", path, wn, gn)
			}
			return ""
		}
		if want.Elem().Type() != got.Elem().Type() {
			return fmt.Sprintf("%s: want %v got %v", path, want.Elem().Type(), got.Elem().Type())
		}
		return diff(path, want.Elem(), got.Elem())
	}
	if want.Type() == timeType {
		w, g := want.Interface().(time.Time), got.Interface().(time.Time)
		if !w.Equal(g) {
			return fmt.Sprintf("%s: want %v got %v", path, w, g)
		}
		return ""
	}
	switch want.Kind() {
	case reflect.Struct:
		for i := 0; i < want.NumField(); i++ {
			f := want.Type().Field(i)
			if f.PkgPath != "" && !f.Anonymous || f.Name == "_" || strings.HasPrefix(f.Name, "XXX_") {
				continue
			}
			if d := diff(path+"."+f.Name, want.Field(i), got.Field(i)); d != "" {
				return d
			}
			if d := accessor(want.Field(i), got, f.Name); d != "" {
				return path + d
			}
		}
		return ""
	case reflect.Slice:
		if want.Type().Elem().Kind() == reflect.Uint8 {
			if !bytes.Equal(want.Bytes(), got.Bytes()) {
				return fmt.Sprintf("%s: want %x got %x", path, want.Bytes(), got.Bytes())
			}
			return ""
		}
		if want.Len() != got.Len() {
			return fmt.Sprintf("%s: want %d elements got %d", path, want.Len(), got.Len())
		}
		for i := 0; i < want.Len(); i++ {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), want.Index(i), got.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float64, reflect.Float32:
		if math.Abs(want.Float()-got.Float()) > 2e-10 {
			return fmt.Sprintf("%s: want %.12g got %.12g", path, want.Float(), got.Float())
		}
		return ""
	}
	if !reflect.DeepEqual(want.Interface(), got.Interface()) {
		return fmt.Sprintf("%s: want %v got %v", path, want.Interface(), got.Interface())
	}
	return ""
}

// accessor compares what the accessor method of a field gives, where there is one.
func accessor(want reflect.Value, got reflect.Value, name string) string {
	if !got.CanAddr() {
		return ""
	}
	if _, ok := got.Addr().Interface().(interface{ ProtoMessage() }); !ok {
		return ""
	}
	m := got.Addr().MethodByName("Get" + name)
	if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
		return ""
	}
	if want.Kind() == reflect.Ptr {
		if want.IsNil() {
			return ""
		}
		want = want.Elem()
	}
	g := m.Call(nil)[0]
	if want.Type() != g.Type() {
		return ""
	}
	if d := diff(".Get"+name+"()", want, g); d != "" {
		return d
	}
	return ""
}

func diffPkg(want, got egts.Package) string {
	return diff("packet", reflect.ValueOf(want), reflect.ValueOf(got))
}
