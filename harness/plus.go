//go:build go1.22

package main

// Reference encoding of the EGTS_PLUS_DATA message (protobuf wire format, by hand).

import (
	"math"
	"math/rand"
	"reflect"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

type plusField struct {
	name, kind string
	num        int
	label, sub string
}

// RPlus is a message: values per field in layout order. A scalar value is a uint64 (bit
// pattern), []byte for bytes, *RPlus for messages.
type RPlus struct {
	Msg  string
	Vals map[string][]interface{}
}

func varint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func (m RPlus) content() []byte {
	var b []byte
	for _, f := range plusLayout[m.Msg] {
		for _, v := range m.Vals[f.name] {
			switch f.kind {
			case "message":
				c := v.(*RPlus).content()
				b = varint(b, uint64(f.num)<<3|2)
				b = varint(b, uint64(len(c)))
				b = append(b, c...)
			case "bytes":
				b = varint(b, uint64(f.num)<<3|2)
				b = varint(b, uint64(len(v.([]byte))))
				b = append(b, v.([]byte)...)
			case "fixed32", "sfixed32", "float":
				x := uint32(v.(uint64))
				b = varint(b, uint64(f.num)<<3|5)
				b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
			case "sint32":
				x := int32(uint32(v.(uint64)))
				b = varint(b, uint64(f.num)<<3)
				b = varint(b, uint64(uint32(x<<1)^uint32(x>>31)))
			default: // uint32, bool, reason
				b = varint(b, uint64(f.num)<<3)
				b = varint(b, v.(uint64))
			}
		}
	}
	return b
}

var plusReasons = []uint64{1, 2, 7, 13, 14, 25, 38, 99}

func genPlusMsg(r *rand.Rand, msg string, full bool) *RPlus {
	m := &RPlus{Msg: msg, Vals: map[string][]interface{}{}}
	for _, f := range plusLayout[msg] {
		n := 0
		switch f.label {
		case "req":
			n = 1
		case "opt":
			if full || r.Intn(3) > 0 {
				n = 1
			}
		case "rep":
			if full || r.Intn(5) == 0 {
				n = 1 + r.Intn(2)
			}
		}
		for i := 0; i < n; i++ {
			var v interface{}
			switch f.kind {
			case "message":
				v = genPlusMsg(r, f.sub, full || r.Intn(4) == 0)
			case "bytes":
				b := make([]byte, r.Intn(5))
				r.Read(b)
				v = b
			case "bool":
				v = uint64(r.Intn(2))
			case "reason":
				v = plusReasons[r.Intn(len(plusReasons))]
			case "float":
				v = uint64(math.Float32bits(float32(r.Intn(200000)) / 16))
			default:
				v = uint64(genU32(r))
			}
			m.Vals[f.name] = append(m.Vals[f.name], v)
		}
	}
	return m
}

// fill writes the values into the library's message structure by field name.
func (m RPlus) fill(dst reflect.Value) {
	for _, f := range plusLayout[m.Msg] {
		fv := dst.FieldByName(f.name)
		for _, v := range m.Vals[f.name] {
			switch f.kind {
			case "message":
				p := reflect.New(fv.Type().Elem().Elem())
				v.(*RPlus).fill(p.Elem())
				fv.Set(reflect.Append(fv, p))
			case "bytes":
				fv.SetBytes(append([]byte{}, v.([]byte)...))
			case "reason":
				e := reflect.New(fv.Type().Elem()).Elem()
				e.SetInt(int64(v.(uint64)))
				fv.Set(reflect.Append(fv, e))
			default:
				p := reflect.New(fv.Type().Elem())
				switch p.Elem().Kind() {
				case reflect.Bool:
					p.Elem().SetBool(v.(uint64) != 0)
				case reflect.Float32:
					p.Elem().SetFloat(float64(math.Float32frombits(uint32(v.(uint64)))))
				case reflect.Int32:
					p.Elem().SetInt(int64(int32(uint32(v.(uint64)))))
				default:
					p.Elem().SetUint(v.(uint64))
				}
				fv.Set(p)
			}
		}
	}
}

func (m RPlus) toEgts() *egts.StorageRecord {
	s := &egts.StorageRecord{}
	m.fill(reflect.ValueOf(s).Elem())
	return s
}
