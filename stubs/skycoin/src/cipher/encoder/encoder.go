// Package encoder is a stand-in for
// github.com/skycoin/skycoin/src/cipher/encoder (not available offline):
// little-endian, 4-byte length prefixes, fields in order, `enc:"-"` skipped.
package encoder

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
)

var ErrBufferUnderflow = errors.New("Not enough buffer data to deserialize")

func Serialize(data interface{}) []byte {
	return enc(nil, reflect.Indirect(reflect.ValueOf(data)))
}

func Size(v interface{}) uint64 { return uint64(len(Serialize(v))) }

func enc(b []byte, v reflect.Value) []byte {
	le := binary.LittleEndian
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return append(b, 1)
		}
		return append(b, 0)
	case reflect.Int8:
		return append(b, byte(v.Int()))
	case reflect.Int16:
		return le.AppendUint16(b, uint16(v.Int()))
	case reflect.Int32:
		return le.AppendUint32(b, uint32(v.Int()))
	case reflect.Int64:
		return le.AppendUint64(b, uint64(v.Int()))
	case reflect.Uint8:
		return append(b, byte(v.Uint()))
	case reflect.Uint16:
		return le.AppendUint16(b, uint16(v.Uint()))
	case reflect.Uint32:
		return le.AppendUint32(b, uint32(v.Uint()))
	case reflect.Uint64:
		return le.AppendUint64(b, uint64(v.Uint()))
	case reflect.Float32:
		return le.AppendUint32(b, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return le.AppendUint64(b, math.Float64bits(v.Float()))
	case reflect.String:
		b = le.AppendUint32(b, uint32(v.Len()))
		return append(b, v.String()...)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b = enc(b, v.Index(i))
		}
		return b
	case reflect.Slice:
		b = le.AppendUint32(b, uint32(v.Len()))
		for i := 0; i < v.Len(); i++ {
			b = enc(b, v.Index(i))
		}
		return b
	case reflect.Map:
		b = le.AppendUint32(b, uint32(v.Len()))
		for _, k := range v.MapKeys() {
			b = enc(b, k)
			b = enc(b, v.MapIndex(k))
		}
		return b
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Tag.Get("enc") == "-" || f.Name == "_" {
				continue
			}
			b = enc(b, v.Field(i))
		}
		return b
	}
	panic(fmt.Sprintf("encoder: invalid type %s", v.Type()))
}

// DeserializeRaw decodes b to data (a pointer), and returns bytes used
func DeserializeRaw(b []byte, data interface{}) (uint64, error) {
	return DeserializeRawToValue(b, reflect.ValueOf(data))
}

func DeserializeRawToValue(b []byte, v reflect.Value) (n uint64, err error) {
	if v.Kind() != reflect.Ptr {
		return 0, fmt.Errorf("Invalid type %s", v.Type())
	}
	v = v.Elem()
	rest, err := dec(b, v)
	if err != nil {
		return 0, err
	}
	return uint64(len(b) - len(rest)), nil
}

func dec(b []byte, v reflect.Value) (_ []byte, err error) {
	le := binary.LittleEndian
	need := func(n int) bool { return len(b) >= n }
	switch v.Kind() {
	case reflect.Bool:
		if !need(1) {
			return b, ErrBufferUnderflow
		}
		if b[0] > 1 {
			return b, errors.New("Invalid bool")
		}
		v.SetBool(b[0] == 1)
		return b[1:], nil
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
		reflect.Float32, reflect.Float64:
		s := int(v.Type().Size())
		if !need(s) {
			return b, ErrBufferUnderflow
		}
		var buf [8]byte
		copy(buf[:], b[:s])
		u := le.Uint64(buf[:])
		switch v.Kind() {
		case reflect.Int8:
			v.SetInt(int64(int8(u)))
		case reflect.Int16:
			v.SetInt(int64(int16(u)))
		case reflect.Int32:
			v.SetInt(int64(int32(u)))
		case reflect.Int64:
			v.SetInt(int64(u))
		case reflect.Float32:
			v.SetFloat(float64(math.Float32frombits(uint32(u))))
		case reflect.Float64:
			v.SetFloat(math.Float64frombits(u))
		default:
			v.SetUint(u)
		}
		return b[s:], nil
	case reflect.String:
		var l int
		if l, b, err = length(b); err != nil {
			return
		}
		v.SetString(string(b[:l]))
		return b[l:], nil
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if b, err = dec(b, v.Index(i)); err != nil {
				return
			}
		}
		return b, nil
	case reflect.Slice:
		var l int
		if l, b, err = length(b); err != nil {
			return
		}
		if l == 0 {
			return b, nil
		}
		s := reflect.MakeSlice(v.Type(), l, l)
		for i := 0; i < l; i++ {
			if b, err = dec(b, s.Index(i)); err != nil {
				return
			}
		}
		v.Set(s)
		return b, nil
	case reflect.Map:
		var l int
		if l, b, err = length(b); err != nil {
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := 0; i < l; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			e := reflect.New(v.Type().Elem()).Elem()
			if b, err = dec(b, k); err != nil {
				return
			}
			if b, err = dec(b, e); err != nil {
				return
			}
			m.SetMapIndex(k, e)
		}
		v.Set(m)
		return b, nil
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Tag.Get("enc") == "-" || f.Name == "_" {
				continue
			}
			if b, err = dec(b, v.Field(i)); err != nil {
				return
			}
		}
		return b, nil
	}
	return b, fmt.Errorf("Decode error: kind %s not handled", v.Kind())
}

func length(b []byte) (l int, rest []byte, err error) {
	if len(b) < 4 {
		return 0, b, ErrBufferUnderflow
	}
	u := binary.LittleEndian.Uint32(b)
	rest = b[4:]
	if uint64(u) > uint64(len(rest)) {
		return 0, b, ErrBufferUnderflow
	}
	return int(u), rest, nil
}
