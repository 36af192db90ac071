package registry

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
)

var vBasic = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)),
	reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int32(0)),
	reflect.TypeOf(uint32(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint64(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
}

type vNamed struct {
	name string
	typ  reflect.Type
}

// vTypes makes up a set of structures to register; a later one can contain
// an earlier one, and refer to any of them
func vTypes(v *V, max int, refs bool) (ts []vNamed) {
	n := 1 + v.R.Intn(max)
	names := make([]string, n)
	for i := range names {
		names[i] = fmt.Sprintf("t%d.%c", (i*7+3)%10, 'A'+i)
	}
	used := map[reflect.Type]bool{}
	for i := 0; i < n; i++ {
		var t reflect.Type
		for {
			t = vStruct(v, ts, names, refs, 3)
			if !used[t] {
				break
			}
		}
		used[t] = true
		ts = append(ts, vNamed{names[i], t})
	}
	return
}

func vStruct(v *V, ts []vNamed, names []string, refs bool, depth int) reflect.Type {
	var fs []reflect.StructField
	nf := v.R.Intn(5)
	for i := 0; i < nf; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", v.R.Intn(3)*10+i)}
		switch k := v.R.Intn(10); {
		case refs && k == 0:
			f.Type = typeOfRef
			f.Tag = reflect.StructTag(fmt.Sprintf(`skyobject:"schema=%s"`, names[v.R.Intn(len(names))]))
		case refs && k == 1:
			f.Type = typeOfRefs
			f.Tag = reflect.StructTag(fmt.Sprintf(`skyobject:"schema=%s"`, names[v.R.Intn(len(names))]))
		case k == 2:
			f.Type = vType(v, ts, names, refs, depth-1)
			f.Tag = `enc:"-"`
		default:
			f.Type = vType(v, ts, names, refs, depth-1)
			if v.R.Intn(4) == 0 {
				f.Tag = `json:"x"`
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// arrays too long for making values of them often
var vLongArrays bool

func vType(v *V, ts []vNamed, names []string, refs bool, depth int) reflect.Type {
	k := v.R.Intn(10)
	if depth <= 0 {
		k = v.R.Intn(4)
	}
	switch {
	case k < 3:
		return vBasic[v.R.Intn(len(vBasic))]
	case k == 3 && refs:
		return typeOfDynamic
	case k == 4 || k == 5:
		return reflect.SliceOf(vType(v, ts, names, refs, depth-1))
	case k == 6 && vLongArrays && v.R.Intn(12) == 0:
		return reflect.ArrayOf([]int{127, 128, 255, 256, 32767, 32768, 65535, 65536, 70000}[v.R.Intn(9)], vBasic[v.R.Intn(len(vBasic))])
	case k == 6:
		return reflect.ArrayOf(v.R.Intn(4), vType(v, ts, names, refs, depth-1))
	case k == 7:
		return vStruct(v, ts, names, refs, depth-1)
	case k >= 8 && len(ts) > 0:
		return ts[v.R.Intn(len(ts))].typ
	}
	return vBasic[v.R.Intn(len(vBasic))]
}

// vFill gives the value random contents; hash is asked for a hash for each reference
func vFill(v *V, x reflect.Value, hash func(t reflect.Type, tag string) cipher.SHA256) {
	vFillTag(v, x, "", hash)
}

func vFillTag(v *V, x reflect.Value, tag string, hash func(t reflect.Type, tag string) cipher.SHA256) {
	switch x.Type() {
	case typeOfRef:
		x.Addr().Interface().(*Ref).Hash = hash(typeOfRef, tag)
		return
	case typeOfRefs:
		x.Addr().Interface().(*Refs).Hash = hash(typeOfRefs, tag)
		return
	case typeOfDynamic:
		d := x.Addr().Interface().(*Dynamic)
		d.Hash = hash(typeOfDynamic, tag)
		if d.Hash != (cipher.SHA256{}) {
			d.Schema = SchemaRef(hash(reflect.TypeOf(SchemaRef{}), tag))
		}
		return
	}
	switch x.Kind() {
	case reflect.Bool:
		x.SetBool(v.R.Intn(2) == 0)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x.SetInt(v.R.Int63() >> uint(v.R.Intn(63)))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x.SetUint(uint64(v.R.Int63() >> uint(v.R.Intn(63))))
	case reflect.Float32, reflect.Float64:
		x.SetFloat(float64(v.R.Intn(1000)) / 8)
	case reflect.String:
		x.SetString(string(v.Bytes(v.R.Intn(9))))
	case reflect.Array:
		for i := 0; i < x.Len(); i++ {
			vFillTag(v, x.Index(i), "", hash)
		}
	case reflect.Slice:
		n := v.R.Intn(4)
		if n == 0 {
			return
		}
		x.Set(reflect.MakeSlice(x.Type(), n, n))
		for i := 0; i < x.Len(); i++ {
			vFillTag(v, x.Index(i), "", hash)
		}
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			if x.Type().Field(i).Tag.Get("enc") == "-" {
				continue
			}
			vFillTag(v, x.Field(i), x.Type().Field(i).Tag.Get(Tag), hash)
		}
	}
}

// vRegistry registers the types, in the order given
func vRegistry(ts []vNamed, order []int) *Registry {
	return NewRegistry(func(r *Reg) {
		for _, i := range order {
			r.Register(ts[i].name, reflect.New(ts[i].typ).Interface())
		}
	})
}

func vTypesString(ts []vNamed) string {
	var ss []string
	for _, t := range ts {
		ss = append(ss, t.name+" = "+t.typ.String())
	}
	return strings.Join(ss, "; ")
}

// vTimed is whether the call returned within the time
func vTimed(d time.Duration, f func()) (r interface{}, panicked, intime bool) {
	type res struct {
		r   interface{}
		did bool
	}
	c := make(chan res, 1)
	go func() {
		r, did := vpanics(f)
		c <- res{r, did}
	}()
	select {
	case x := <-c:
		return x.r, x.did, true
	case <-time.After(d):
		return nil, false, false
	}
}
