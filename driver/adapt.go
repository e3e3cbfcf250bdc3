package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zverif/wk"
)

// ---- which functions fit (Adapt.tla)

type adPair struct{ name, a, b, s string }

// adTarget is a real function with the parameters that the specification's target has
type adTarget struct {
	key  string
	pair int
	ts   map[string]reflect.Type
	fn   interface{}
	call func(x int) []reflect.Value
}

var adTargets = map[string][]*adTarget{} // by signature
var adArgs []reflect.Value               // what the original code got

func addAd(key string, pair int, a, b, s reflect.Type, fn interface{}, call func(x int) []reflect.Value) {
	adTargets[key] = append(adTargets[key], &adTarget{key, pair, map[string]reflect.Type{"a": a, "b": b, "s": s, "i": infoType}, fn, call})
}

func adRec(ps ...interface{}) {
	adArgs = []reflect.Value{}
	for _, p := range ps {
		adArgs = append(adArgs, reflect.ValueOf(p).Elem())
	}
}

func adRes(ps ...interface{}) (vs []reflect.Value) {
	for _, p := range ps {
		vs = append(vs, reflect.ValueOf(p).Elem())
	}
	return
}

type adCase struct {
	Role string
	Ins  []string
	V    bool
	Acc  bool
	Map  []int
	Outs string
}
type adLine struct {
	T struct {
		Ins  []string
		V, G bool
	}
	Us []adCase
}

func init() { modes["adapt"] = func() { inWorker(adaptMode) } }

// inWorker runs f where the stack is large enough for originals
func inWorker(f func()) {
	debug.SetGCPercent(-1)
	var fl interface{}
	w := wk.New()
	fl = w.Do(f)
	if fl != nil {
		panic(fl)
	}
}

func (l *adLine) key() string {
	k := ""
	for _, t := range l.T.Ins {
		k += t
	}
	if l.T.V {
		k += "V"
	}
	if l.T.G {
		k += "G"
	}
	return k
}

func lines(f func(n int, text []byte) bool) {
	file, err := os.Open(*flagIn)
	must(err)
	sc := bufio.NewScanner(file)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for line := 0; sc.Scan(); line++ {
		if line >= *flagFrom && line < *flagTo && !f(line, sc.Bytes()) {
			return
		}
	}
	must(sc.Err())
}

func lineRand(line, k int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%d/%d", *flagSeed, line+*flagBase, k)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func adaptMode() {
	lines(func(line int, text []byte) bool {
		var l adLine
		must(json.Unmarshal(text, &l))
		ts := adTargets[l.key()]
		if len(ts) == 0 {
			panic("no target " + l.key())
		}
		for ti, t := range ts {
			rnd := lineRand(line, ti)
			rep.Behaviours++
			for i := range l.Us {
				c := &l.Us[i]
				progress(fmt.Sprintf("%d %d %d %s", line, ti, i, c.Role))
				rep.Steps++
				p := catch(func() { adaptCase(&l, t, c, rnd) })
				if p != nil {
					f, ok := p.(failure)
					if !ok {
						f.What = fmt.Sprintf("panic %T %v", p, p)
					}
					rep.Fail = &failRec{Line: line, Rep: ti, Step: i, What: fmt.Sprintf("target %v, %s %s(results %s): %s",
						reflect.TypeOf(t.fn), c.Role, adType(t, c), c.Outs, f.What), Bound: []string{t.key, fmt.Sprint(t.pair)}}
					return false
				}
				k := c.Role + "/reject"
				if c.Acc {
					k = c.Role + "/fit"
				}
				rep.Cover[k]++
				if rep.Steps%4096 == 0 {
					idleGC()
				}
			}
		}
		return true
	})
}

func adTypes(t *adTarget, tags []string) (ts []reflect.Type) {
	for _, g := range tags {
		ts = append(ts, t.ts[g])
	}
	return
}

func adType(t *adTarget, c *adCase) interface{} {
	if c.Outs == "nil" || c.Outs == "value" || c.Outs == "pointer" {
		return c.Outs + " "
	}
	return reflect.FuncOf(adTypes(t, c.Ins), nil, c.V)
}

const adHookVal, adRetVal, adOrigVal = 31, 47, 9

func adaptCase(l *adLine, t *adTarget, c *adCase, rnd *rand.Rand) {
	fail := func(f string, a ...interface{}) { panic(failure{What: fmt.Sprintf(f, a...)}) }
	typ := reflect.TypeOf(t.fn)
	var outs []reflect.Type
	for i := 0; i < typ.NumOut(); i++ {
		outs = append(outs, typ.Out(i))
	}
	vals := func(v int) (r []reflect.Value) {
		for i, o := range outs {
			r = append(r, enc(v, i, o))
		}
		return
	}
	rets := func(v int) (r []interface{}) {
		for _, x := range vals(v) {
			r = append(r, x.Interface())
		}
		return
	}
	arg := func(x, k int) reflect.Value { return enc(x, k-1, t.ts[l.T.Ins[k-1]]) } // argument k of a call with x
	checkArgs := func(got []reflect.Value, m []int, x, recvX int, what string) {
		if len(got) != len(m) {
			fail("%s got %d arguments, want %d", what, len(got), len(m))
		}
		for i, k := range m {
			if k == 0 {
				if got[i].Type() != infoType {
					fail("%s: argument %d is no GenericInfo", what, i)
				}
				continue
			}
			y := x
			if k == 1 {
				y = recvX
			}
			if !eq(got[i], arg(y, k)) {
				fail("%s: argument %d is %v, want argument %d of the call: %v", what, i, show(got[i]), k, show(arg(y, k)))
			}
		}
	}
	full := make([]int, len(l.T.Ins))
	for i := range full {
		full[i] = i + 1
	}
	checkRes := func(got []reflect.Value, v int, what string) {
		for i, w := range vals(v) {
			if !eq(got[i], w) {
				fail("%s: result %d is %v, want %v", what, i, show(got[i]), show(w))
			}
		}
	}
	x := rnd.Intn(6)
	callOrig := func(what string) {
		adArgs = nil
		r := t.call(x)
		checkRes(r, adOrigVal, what)
		checkArgs(adArgs, full, x, x, what+", original code")
	}
	var got [][]reflect.Value // arguments of the user function
	mk := func(outs []reflect.Type, sem func(args []reflect.Value) []reflect.Value) reflect.Value {
		return reflect.MakeFunc(reflect.FuncOf(adTypes(t, c.Ins), outs, c.V), func(args []reflect.Value) []reflect.Value {
			got = append(got, args)
			return sem(args)
		})
	}
	extra := reflect.TypeOf(struct{ Q int }{})
	verdict := true
	var user interface{}
	var org reflect.Value
	switch c.Role {
	case "to":
		os := append([]reflect.Type{}, outs...)
		switch c.Outs {
		case "none":
			os = nil
		case "fewer":
			os = os[1:]
		case "more":
			os = append(os, reflect.TypeOf(1))
		case "other":
			os[0] = extra
		case "swapped":
			os[0], os[1] = os[1], os[0]
		}
		user = mk(os, func([]reflect.Value) (r []reflect.Value) {
			for i, o := range os {
				r = append(r, enc(adHookVal, i, o))
			}
			return
		}).Interface()
	case "when":
		os := []reflect.Type{reflect.TypeOf(true)}
		switch c.Outs {
		case "mybool":
			os[0] = reflect.TypeOf(myBool(true))
		case "int":
			os[0] = reflect.TypeOf(1)
		case "string":
			os[0] = reflect.TypeOf("")
		case "two":
			os = append(os, os[0])
		case "none":
			os = nil
		}
		user = mk(os, func([]reflect.Value) []reflect.Value { return []reflect.Value{reflect.ValueOf(verdict).Convert(os[0])} }).Interface()
	case "origin":
		org = reflect.New(reflect.FuncOf(adTypes(t, c.Ins), outs, c.V))
		user = org.Interface()
	}
	switch c.Outs {
	case "nil":
		user = nil
	case "value":
		user = 42
		if c.Role == "origin" {
			user = t.fn
		}
	case "pointer":
		user = &x
	}
	newBuilder := func() *mockey.MockBuilder {
		if l.T.G {
			return mockey.MockGeneric(t.fn)
		}
		return mockey.Mock(t.fn)
	}
	b := newBuilder()
	set := func(m *mockey.Mocker) {
		switch c.Role {
		case "to":
			if m != nil {
				m.To(user)
			} else {
				b.To(user)
			}
		case "when":
			if m != nil {
				m.When(user)
			} else {
				b.When(user)
			}
		case "origin":
			if m != nil {
				m.Origin(user)
			} else {
				b.Origin(user)
			}
		}
	}
	// the hook that calls the origin function with y
	y := rnd.Intn(6)
	var orgRes []reflect.Value
	callOrigin := reflect.MakeFunc(reflect.FuncOf(adTypes(t, l.T.Ins), outs, l.T.V), func([]reflect.Value) []reflect.Value {
		var args []reflect.Value
		for _, k := range c.Map {
			args = append(args, arg(y, k))
		}
		if c.V {
			orgRes = org.Elem().CallSlice(args)
		} else {
			orgRes = org.Elem().Call(args)
		}
		return vals(adHookVal)
	}).Interface()
	if !c.Acc && rnd.Intn(3) > 0 { // most are rejected: here without making a mock
		var m *mockey.Mocker
		p := catch(func() {
			set(nil)
			if c.Role == "origin" || c.Outs != "same" {
				m = b.Build()
			}
		})
		if p == nil && c.Role == "to" && m != nil && len(c.Ins) == len(l.T.Ins) { // results that do not fit: no call may yield any
			if q := catch(func() { t.call(x) }); q == nil {
				fail("a call delivers results although those of the hook do not fit")
			}
			m.UnPatch()
			callOrig("after the rejection")
			return
		}
		if p == nil {
			fail("was accepted")
		}
		if rnd.Intn(8) == 0 {
			callOrig("after the rejection")
		}
		if rnd.Intn(8) == 0 && c.Role != "origin" { // the builder is as before
			b.Return(rets(adRetVal)...)
			m := b.Build()
			checkRes(t.call(x), adRetVal, "builder used after the rejection")
			m.UnPatch()
		}
		return
	}
	var m *mockey.Mocker
	onMocker := rnd.Intn(2) == 0
	var p interface{}
	if onMocker {
		switch {
		case c.Role == "origin" && c.Acc:
			m = b.To(callOrigin).Build()
		default:
			m = b.Return(rets(adRetVal)...).Build()
		}
		if c.Role != "origin" || !c.Acc {
			checkRes(t.call(x), adRetVal, "before")
		}
		p = catch(func() { set(m) })
	} else {
		p = catch(func() {
			set(nil)
			switch {
			case c.Role == "when":
				b.Return(rets(adRetVal)...)
			case c.Role == "origin" && c.Acc:
				b.To(callOrigin)
			}
			m = b.Build()
		})
	}
	defer func() {
		if m != nil {
			m.UnPatch()
		}
	}()
	if c.Acc != (p == nil) {
		if c.Acc {
			fail("was rejected: %v", p)
		}
		if c.Role == "to" && len(c.Map) > 0 || c.Role == "to" && c.Outs != "same" && c.Outs != "nil" && c.Outs != "value" && c.Outs != "pointer" {
			if q := catch(func() { t.call(x) }); q == nil {
				fail("a call delivers results although those of the hook do not fit")
			}
			return
		}
		fail("was accepted")
	}
	if !c.Acc {
		if m != nil { // was built before: still works as before
			checkRes(t.call(x), adRetVal, "mock after the rejection")
			if m.Times() != 2 || m.MockTimes() != 2 {
				fail("counters are %d and %d after 2 calls and a rejection in between", m.Times(), m.MockTimes())
			}
			m.UnPatch()
			m = nil
		}
		callOrig("after the rejection")
		return
	}
	switch c.Role {
	case "to":
		checkRes(t.call(x), adHookVal, "hook")
		if len(got) != 1 {
			fail("the hook ran %d times", len(got))
		}
		checkArgs(got[0], c.Map, x, x, "hook")
	case "when":
		checkRes(t.call(x), adRetVal, "condition true")
		verdict = false
		callOrig("condition false")
		if len(got) != 2 {
			fail("the condition ran %d times in 2 calls", len(got))
		}
		checkArgs(got[0], c.Map, x, x, "condition")
		checkArgs(got[1], c.Map, x, x, "condition")
	case "origin":
		adArgs = nil
		checkRes(t.call(x), adHookVal, "hook that calls the origin function")
		checkRes(orgRes, adOrigVal, "origin function")
		recvX := y
		if len(c.Map) < len(l.T.Ins) {
			recvX = x
		}
		checkArgs(adArgs, full, y, recvX, "original code called through the origin function")
	}
	m.UnPatch()
	m = nil
	callOrig("after UnPatch")
}

var _ = unsafe.Pointer(nil)
