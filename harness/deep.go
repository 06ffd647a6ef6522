package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"unsafe"
)

// Deep writes every field of every value reachable from v, exported or not,
// except for addresses.
func Deep(v interface{}) []byte {
	d := &deep{}
	d.val(reflect.ValueOf(v), 0)
	return d.b.Bytes()
}

type deep struct {
	b     bytes.Buffer
	path  []uintptr
	addrs map[unsafe.Pointer]string // set: collect addresses instead
	short map[reflect.Type]string
}

func (d *deep) name(t reflect.Type) string {
	if s, ok := d.short[t]; ok {
		return s
	}
	if d.short == nil {
		d.short = map[reflect.Type]string{}
	}
	s := t.String()
	d.short[t] = s
	return s
}

func (d *deep) val(v reflect.Value, depth int) {
	b := &d.b
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil:")
			b.WriteString(d.name(v.Type()))
			return
		}
		p := v.Pointer()
		for _, q := range d.path {
			if q == p {
				b.WriteString("cycle")
				return
			}
		}
		if d.addrs != nil && v.Type().Elem().Size() > 0 {
			d.addrs[v.UnsafePointer()] = d.name(v.Type())
		}
		d.path = append(d.path, p)
		b.WriteByte('&')
		d.val(v.Elem(), depth+1)
		d.path = d.path[:len(d.path)-1]
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		d.val(v.Elem(), depth)
	case reflect.Struct:
		t := v.Type()
		b.WriteString(d.name(t))
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(t.Field(i).Name)
			b.WriteByte(':')
			d.val(v.Field(i), depth+1)
			b.WriteByte('\n')
		}
		b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			// a missing and an empty list are the same to a reader
			b.WriteString("[]")
			return
		}
		if d.addrs != nil && v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			d.addrs[v.UnsafePointer()] = d.name(v.Type())
		}
		fallthrough
	case reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i), depth+1)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.Map:
		if d.addrs != nil && !v.IsNil() {
			d.addrs[v.UnsafePointer()] = d.name(v.Type())
		}
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k)
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		b.WriteString("map[")
		for _, k := range ks {
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			d.val(m[k], depth+1)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			b.WriteString(v.Kind().String())
		}
	default:
		fmt.Fprintf(b, "?%s", v.Kind())
	}
}

// Addrs collects the addresses of everything mutable reachable from v.
func Addrs(v interface{}) map[unsafe.Pointer]string {
	d := &deep{addrs: map[unsafe.Pointer]string{}}
	d.val(reflect.ValueOf(v), 0)
	return d.addrs
}

// DiffBytes describes where two dumps part.
func DiffBytes(a, b []byte) string {
	if bytes.Equal(a, b) {
		return ""
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s []byte) []byte {
		hi := i + 100
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return nil
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at byte %d: expected ...%q, got ...%q", i, cut(a), cut(b))
}
