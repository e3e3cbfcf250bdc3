package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"
)

// Encoding of the specification's integers as values of arbitrary types, and back. enc(x, salt, T) is deterministic, and
// pointers, maps, channels and functions are memoized, so that identity can be compared.

type Small struct {
	A int
	B string
}
type Small2 struct {
	A int
	B *int
}
type Big struct {
	A [20]int
	B string
	C [4]float64
	D []byte
	E error
}
type Big2 struct {
	A [10]string
	B int
}
type MyInt int
type MyStr string
type MyErr error
type xErr struct{ x int }

func (e *xErr) Error() string { stray("Error"); return "e" + strconv.Itoa(e.x) }
func (e *xErr) M(int) string  { stray("M"); return "m" }
func (MyInt) String() string    { stray("MyInt.String"); return "MyInt" }
func (MyStr) GoString() string  { stray("MyStr.GoString"); return "MyStr" }
func (MyStr) String() string    { stray("MyStr.String"); return "MyStr" }
func (*Small) String() string   { stray("Small.String"); return "Small" }
func (Big) String() string      { stray("Big.String"); return "Big" }

// stray notes the call of a method of an argument that nobody has called: mocks pass arguments on, and do not use them
func stray(what string) { strayed.Store(what) }

var strayed atomic.Value

type memoKey struct {
	t    reflect.Type
	x, s int
}

var memo sync.Map

func memoized(t reflect.Type, x, s int, mk func() reflect.Value) reflect.Value {
	k := memoKey{t, x, s}
	if v, ok := memo.Load(k); ok {
		return v.(reflect.Value)
	}
	v, _ := memo.LoadOrStore(k, mk())
	return v.(reflect.Value)
}

func mod(x, n int) int { return ((x % n) + n) % n }

func enc(x, salt int, t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	encInto(x, salt, v)
	return v
}

func encInto(x, salt int, v reflect.Value) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(mod(x+salt, 2) == 1)
	case reflect.Int, reflect.Int64:
		v.SetInt(int64(x)*3 + int64(salt))
	case reflect.Int32, reflect.Int16, reflect.Int8:
		v.SetInt(int64(mod(x*3+salt, 120)) - 60)
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uintptr:
		v.SetUint(uint64(mod(x*5+salt, 250)))
	case reflect.Float64:
		v.SetFloat(float64(x)*2 + float64(salt)/4)
	case reflect.Float32:
		v.SetFloat(float64(mod(x, 100)) + float64(salt)/4)
	case reflect.Complex128, reflect.Complex64:
		v.SetComplex(complex(float64(mod(x, 100)), float64(salt)))
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d:%d", salt, x))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			encInto(x, salt+i, f)
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			encInto(x, salt+i, v.Index(i))
		}
	case reflect.Slice:
		n := mod(x+salt, 4)
		if n > 0 || mod(x, 3) == 0 { // nil, empty, or up to 3 elements
			c := canon(t)
			v.Set(as(memoized(c, x, salt, func() reflect.Value {
				s := reflect.MakeSlice(c, n, n+1)
				for i := 0; i < n; i++ {
					encInto(x, salt+i, s.Index(i))
				}
				return s
			}), t))
		}
	case reflect.Ptr:
		if mod(x+salt, 6) != 5 && *flagSharing { // all pointers may share code
			p := memoized(reflect.TypeOf((*Big)(nil)), x, salt, func() reflect.Value { return reflect.ValueOf(&Big{}) })
			v.Set(reflect.NewAt(t.Elem(), unsafe.Pointer(p.Pointer())).Convert(t))
		} else if mod(x+salt, 6) != 5 {
			v.Set(memoized(t, x, salt, func() reflect.Value {
				p := reflect.New(t.Elem())
				if t.Elem().Kind() != reflect.Struct || t.Elem().NumField() == 0 || t.Elem().Field(0).Type != t { // no recursive type
					encInto(x, salt, p.Elem())
				}
				return p
			}))
		}
	case reflect.Map:
		t := canon(t)
		v.Set(memoized(t, x, salt, func() reflect.Value {
			m := reflect.MakeMap(t)
			m.SetMapIndex(enc(x, salt, t.Key()), enc(x, salt, t.Elem()))
			return m
		}))
	case reflect.Chan:
		v.Set(memoized(t, x, salt, func() reflect.Value { return reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), 1).Convert(t) }))
	case reflect.Func:
		if mod(x+salt, 5) != 4 {
			t := canon(t)
			v.Set(memoized(t, x, salt, func() reflect.Value {
				return reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { panic("never called") })
			}))
		}
	case reflect.Interface:
		if mod(x+salt, 3) == 0 {
			return // nil
		}
		e := &xErr{}
		if reflect.TypeOf(e).Implements(t) && (t.NumMethod() > 0 || mod(x, 2) == 0) {
			v.Set(memoized(reflect.TypeOf(e), x, salt, func() reflect.Value { return reflect.ValueOf(&xErr{x}) }))
		} else if t.NumMethod() > 0 {
			v.Set(enc(x, salt, reflect.TypeOf(MyStr(""))))
		} else if mod(x+salt, 3) == 1 {
			v.Set(enc(x, salt, reflect.TypeOf("")))
		} else {
			v.Set(enc(x, salt, reflect.TypeOf(Small{})))
		}
	case reflect.UnsafePointer:
		v.Set(reflect.ValueOf(unsafe.Pointer(enc(x, salt, reflect.TypeOf(&Small{})).Pointer())))
	default:
		panic("enc: " + t.String())
	}
}

// canon gives a type of the same layout, the same one for types whose values may take each other's places in shared code
func canon(t reflect.Type) reflect.Type {
	switch t.Kind() {
	case reflect.Slice:
		return reflect.SliceOf(canon(t.Elem()))
	case reflect.Ptr:
		if *flagSharing {
			return reflect.TypeOf((*Big)(nil))
		}
	case reflect.Struct:
		if *flagSharing && t.NumField() > 0 {
			var fs []reflect.StructField
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				if f.PkgPath != "" || f.Anonymous {
					return t
				}
				fs = append(fs, reflect.StructField{Name: f.Name, Type: f.Type, Tag: f.Tag})
			}
			return reflect.StructOf(fs)
		}
	case reflect.Interface:
		if t.NumMethod() == 1 && t.Method(0).Name == "Error" {
			return reflect.TypeOf((*error)(nil)).Elem()
		}
	case reflect.Func:
		var in, out []reflect.Type
		for i := 0; i < t.NumIn(); i++ {
			in = append(in, t.In(i))
		}
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, t.Out(i))
		}
		return reflect.FuncOf(in, out, t.IsVariadic())
	case reflect.Map:
		return reflect.MapOf(t.Key(), t.Elem())
	case reflect.Int:
		return reflect.TypeOf(0)
	case reflect.String:
		return reflect.TypeOf("")
	case reflect.Float64:
		return reflect.TypeOf(0.0)
	}
	return t
}

func word(v reflect.Value) uintptr {
	c := reflect.New(v.Type())
	c.Elem().Set(v)
	return *(*uintptr)(unsafe.Pointer(c.Pointer()))
}

func eq(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return word(a) == word(b)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return eq(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		return a.Len() == b.Len() && a.Cap() == b.Cap() && a.Pointer() == b.Pointer()
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.Complex64, reflect.Complex128:
		return a.Complex() == b.Complex()
	case reflect.String:
		return a.String() == b.String()
	}
	panic("eq: " + a.Type().String())
}

// dec recovers x from a value if its type can hold every x
func dec(v reflect.Value, salt int) (int, bool) {
	switch v.Kind() {
	case reflect.Int, reflect.Int64:
		d := v.Int() - int64(salt)
		if d%3 != 0 {
			panic(mismatch(fmt.Sprintf("value %v is no encoding", v)))
		}
		return int(d / 3), true
	case reflect.Float64:
		return int((v.Float() - float64(salt)/4) / 2), true
	case reflect.String:
		i := strings.IndexByte(v.String(), ':')
		if i < 0 {
			panic(mismatch(fmt.Sprintf("value %q is no encoding", v.String())))
		}
		x, err := strconv.Atoi(v.String()[i+1:])
		if err != nil {
			panic(mismatch(fmt.Sprintf("value %q is no encoding", v.String())))
		}
		return x, true
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if x, ok := dec(v.Field(i), salt+i); ok {
				return x, true
			}
		}
	case reflect.Array:
		if v.Len() > 0 {
			return dec(v.Index(0), salt)
		}
	}
	return 0, false
}

type mismatch string

// decAll recovers x from the values (salts are first, first+1, ...) and checks that each value is the encoding of x.
// If no value determines x, amb does.
func decAll(vs []reflect.Value, first int, variadic bool, amb func() int, what string) int {
	x, found := 0, false
	for i, v := range vs {
		if x, found = dec(v, first+i); found {
			break
		}
	}
	if !found && variadic && vs[len(vs)-1].Len() > 0 {
		x, found = dec(vs[len(vs)-1].Index(0), first+len(vs)-1)
	}
	if !found {
		x = amb()
	}
	for i, v := range vs {
		if w := enc(x, first+i, v.Type()); !eq(v, w) {
			panic(mismatch(fmt.Sprintf("%s: value %d of %d is %v, want %v (x=%d)", what, i, len(vs), show(v), show(w), x)))
		}
	}
	return x
}

func show(v reflect.Value) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

// EV is the encoding of x as a T
func EV[T any](x, salt int) T {
	var t T
	encInto(x, salt, reflect.ValueOf(&t).Elem())
	return t
}

func TY[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

func typs(ts ...reflect.Type) []reflect.Type { return ts }
func rv(x interface{}) reflect.Value         { return reflect.ValueOf(x) }

func encOut(p interface{}, x, salt int) { encInto(x, salt, reflect.ValueOf(p).Elem()) }

var used interface{}

func use(x interface{}) { used = x }

// types for Adapt.tla that are easily taken for another
type adFunc func(int) int
type adSlice []int
type adBool bool
type adTag1 struct {
	A int `x:"1"`
}
type adGen[T any] struct{ A T }
