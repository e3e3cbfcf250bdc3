package main

import (
	"fmt"
	"reflect"
	"sync"
	"unsafe"

	"github.com/bytedance/mockey"
)

// Target is one mockable function of the code, it plays the part of f1..f4 (Idx) of the specification.
type Target struct {
	Kind     string
	Idx      int
	Mk       func() interface{}
	fn       interface{}
	Call     func(x int) int
	Generic  bool
	Unsafe   bool
	HasRecv  bool
	Recv     reflect.Value
	TArgs    []reflect.Type
	Amb      bool
	entry    uintptr // address of the code that is patched
	pristine [16]byte
}

var targets = map[string][5]*Target{}
var kinds []string

func add(t *Target) {
	if t.Idx == 1 {
		kinds = append(kinds, t.Kind)
	}
	a := targets[t.Kind]
	a[t.Idx] = t
	targets[t.Kind] = a
}

func (t *Target) Fn() interface{} {
	if t.fn == nil {
		t.fn = t.Mk()
	}
	return t.fn
}

func (t *Target) typ() reflect.Type { return reflect.TypeOf(t.Fn()) }

// ---- calls

// bound gives the target that plays f in the current behaviour
var bound [5]*Target

type event struct {
	k    string
	m, c int
	x    int
}

var (
	evMu    sync.Mutex
	events  []event
	logging bool
)

func logEvent(k string, m, c, x int) {
	if logging {
		evMu.Lock()
		events = append(events, event{k, m, c, x})
		evMu.Unlock()
	}
}

// the argument of the innermost call of a target, for hooks that cannot recover it from their parameters; only used
// while a single goroutine makes calls
var ambient int

func getAmbient() int { return ambient }

// call calls the target that plays f with x
func call(f, x int) int {
	if logging {
		old, oldF := ambient, calleeF
		ambient, calleeF = x, f
		defer func() { ambient, calleeF = old, oldF }()
	}
	return bound[f].Call(x)
}

// body is what the original code of f does. args point to the receiver (or nil) and the parameters.
func body(f int, variadic bool, recv interface{}, args ...interface{}) int {
	vs := make([]reflect.Value, len(args))
	for i, a := range args {
		vs[i] = reflect.ValueOf(a).Elem()
	}
	if recv != nil {
		checkRecv(reflect.ValueOf(recv).Elem(), f)
	}
	x := decAll(vs, 0, variadic, getAmbient, "original code of "+bound[f].Kind)
	logEvent("o", f, 0, x)
	switch f {
	case 2:
		if x >= 4 {
			panic(panicVal(0))
		}
	case 3:
		return 3000 + call(1, x)
	case 4:
		if x > 0 {
			return 1 + call(4, x-1)
		}
		return 4000
	}
	return 1000*f + x
}

func checkRecv(v reflect.Value, f int) {
	w := bound[f].Recv
	if *flagSharing {
		v = as(v, w.Type())
	}
	if p, ok := v.Interface().(unsafe.Pointer); ok {
		if uintptr(p) != w.Pointer() {
			panic(mismatch(fmt.Sprintf("receiver of %s is at %p, want %#x", bound[f].Kind, p, w.Pointer())))
		}
		return
	}
	if v.Type() != w.Type() {
		panic(mismatch(fmt.Sprintf("receiver of %s has type %v, want %v", bound[f].Kind, v.Type(), w.Type())))
	}
	if !eq(v, w) {
		panic(mismatch(fmt.Sprintf("receiver of %s is %v, want %v", bound[f].Kind, show(v), show(w))))
	}
}

// dres recovers the result of a target
func dres(rs ...interface{}) int {
	vs := make([]reflect.Value, len(rs))
	for i, a := range rs {
		vs[i] = reflect.ValueOf(a).Elem()
	}
	return decAll(vs, 0, false, func() int { panic("no result") }, "results")
}

func encResults(v int, t reflect.Type) []reflect.Value {
	out := make([]reflect.Value, t.NumOut())
	for i := range out {
		out[i] = enc(v, i, t.Out(i))
	}
	return out
}

// ---- functions given to mockey

type form struct{ info, recv bool } // with GenericInfo in front; with the first parameter

// forms lists the parameter lists that a hook or condition for t may have
func (t *Target) forms(needX bool) []form {
	fs := []form{{false, true}}
	typ := t.typ()
	if typ.NumIn() > 0 && !(typ.IsVariadic() && typ.NumIn() == 1) && (t.HasRecv || !needX) {
		fs = append(fs, form{false, false})
	}
	if t.Generic {
		n := len(fs)
		for i := 0; i < n; i++ {
			fs = append(fs, form{true, fs[i].recv})
		}
	}
	return fs
}

var infoType = reflect.TypeOf(mockey.GenericInfo(0))

func (t *Target) in(fo form) []reflect.Type {
	var in []reflect.Type
	if fo.info {
		in = append(in, infoType)
	}
	typ := t.typ()
	for i := 0; i < typ.NumIn(); i++ {
		if i > 0 || fo.recv {
			in = append(in, typ.In(i))
		}
	}
	return in
}

func (t *Target) outs() []reflect.Type {
	var out []reflect.Type
	for i := 0; i < t.typ().NumOut(); i++ {
		out = append(out, t.typ().Out(i))
	}
	return out
}

// decodeArgs recovers x from the arguments of a function with form fo
func (t *Target) decodeArgs(args []reflect.Value, fo form, what string) int {
	if fo.info {
		info := args[0].Interface().(mockey.GenericInfo)
		t.callee().checkInfo(info, what)
		for i, w := range t.callee().TArgs {
			if got := info.UsedParamType(uintptr(i)); got != w {
				panic(mismatch(fmt.Sprintf("%s: GenericInfo has type argument %d = %v, want %v", what, i, got, w)))
			}
		}
		args = args[1:]
	}
	first := 0
	if t.HasRecv {
		if fo.recv {
			checkRecv(args[0], t.callee().Idx)
			args = args[1:]
		}
	} else if !fo.recv {
		first = 1
	}
	return decAll(args, first, t.typ().IsVariadic(), getAmbient, what)
}

// hook makes a function of form fo that runs sem
func (t *Target) hook(fo form, what string, sem func(x int) int) interface{} {
	typ := reflect.FuncOf(t.in(fo), t.outs(), t.typ().IsVariadic())
	return reflect.MakeFunc(typ, func(args []reflect.Value) []reflect.Value {
		return encResults(sem(t.decodeArgs(args, fo, what)), typ)
	}).Interface()
}

type myBool bool

func (t *Target) when(fo form, named bool, what string, sem func(x int) bool) interface{} {
	bt := reflect.TypeOf(true)
	if named {
		bt = reflect.TypeOf(myBool(true))
	}
	typ := reflect.FuncOf(t.in(fo), []reflect.Type{bt}, t.typ().IsVariadic())
	return reflect.MakeFunc(typ, func(args []reflect.Value) []reflect.Value {
		return []reflect.Value{reflect.ValueOf(sem(t.decodeArgs(args, fo, what))).Convert(bt)}
	}).Interface()
}

// unfit makes a function whose type does not fit as a hook (or condition) of t
func (t *Target) unfit(when bool, k int) interface{} {
	outs := t.outs()
	if when {
		outs = []reflect.Type{reflect.TypeOf(true)}
	}
	in := t.in(form{false, true})
	v := t.typ().IsVariadic()
	mk := func(in, out []reflect.Type, v bool) interface{} {
		return reflect.MakeFunc(reflect.FuncOf(in, out, v), func([]reflect.Value) []reflect.Value { panic(mismatch("unfit function called")) }).Interface()
	}
	extra := reflect.TypeOf(struct{ Q int }{})
	switch k % 5 {
	case 0:
		return mk(append([]reflect.Type{extra}, in...), outs, v)
	case 1:
		if !t.Generic && len(in) > 0 {
			return mk(append([]reflect.Type{infoType}, in...), outs, v)
		}
		return mk([]reflect.Type{extra, extra}, outs, false)
	case 2:
		if v {
			return mk(in, outs, false)
		}
		return mk(append(append([]reflect.Type{}, in...), reflect.SliceOf(extra)), outs, true)
	case 3:
		if when {
			return mk(in, []reflect.Type{reflect.TypeOf(1)}, v)
		}
		return mk([]reflect.Type{extra, extra, extra}, outs, false)
	default:
		if when {
			return mk(in, []reflect.Type{reflect.TypeOf(true), reflect.TypeOf(true)}, v)
		}
		return 42
	}
}

// returns gives the values for Return that stand for v
func (t *Target) returns(v int) []interface{} {
	out := []interface{}{}
	for _, r := range encResults(v, t.typ()) {
		out = append(out, r.Interface())
	}
	return out
}

// badReturns gives values for Return that do not fit
func (t *Target) badReturns(k int) []interface{} {
	r := t.returns(1)
	switch k % 3 {
	case 0:
		return append(r, 1)
	case 1:
		return r[:len(r)-1]
	default:
		r[k/3%len(r)] = struct{ Q int }{1}
		if t.typ().Out(k/3%len(r)).Kind() == reflect.Interface {
			return append(r, nil)
		}
		return r
	}
}

type originVar struct {
	t  *Target
	fo form
	p  reflect.Value // *func
}

func (t *Target) newOrigin(fo form) *originVar {
	typ := reflect.FuncOf(t.in(fo), t.outs(), t.typ().IsVariadic())
	return &originVar{t, fo, reflect.New(typ)}
}

// call calls the origin function with x
func (o *originVar) call(x int) int {
	f := o.p.Elem()
	var args []reflect.Value
	n := 0
	if o.t.HasRecv {
		n = 1
		if o.fo.recv {
			args = append(args, as(o.t.callee().Recv, o.t.typ().In(0)))
		}
	}
	for i := n; i < o.t.typ().NumIn(); i++ {
		args = append(args, enc(x, i-n, o.t.typ().In(i)))
	}
	if logging {
		old := ambient
		ambient = x
		defer func() { ambient = old }()
	}
	var out []reflect.Value
	if f.Type().IsVariadic() {
		out = f.CallSlice(args)
	} else {
		out = f.Call(args)
	}
	return decAll(out, 0, false, func() int { panic("no result") }, "results of the origin of "+o.t.Kind)
}
