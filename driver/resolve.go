package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/bytedance/mockey"
)

// ---- which implementation GetMethod names (Resolve.tla)

type rsImpl struct {
	node int
	name string
	ptr  bool
	id   int
	call func() int // calls it directly
}

type rsFamily struct {
	m, u               string // what the members M and u are called
	impls, fields      []rsImpl
	types, sigs, ftyps []reflect.Type // by node
	inst               func(kind string) interface{}
}

var rsFamilies = map[int]*rsFamily{}

func addRs(n int, m, u string, impls, fields []rsImpl, types, sigs, ftyps []reflect.Type, inst func(string) interface{}) {
	rsFamilies[n] = &rsFamily{m, u, impls, fields, types, sigs, ftyps, inst}
}

// the linker keeps unexported methods if their type is in use
var _ = func() bool {
	use((func(int) int)(nil))
	use((func(string, ...int) (int, string))(nil))
	use((func() int)(nil))
	return true
}()

func rsBody(id int) int { return id }

type rsLine struct {
	Qs []struct {
		Api, Inst, Nm string
		R             struct {
			K   string
			N   int
			Ptr bool
		}
	}
}

func init() { modes["resolve"] = func() { inWorker(resolveMode) } }

func resolveMode() {
	lines(func(line int, text []byte) bool {
		var l rsLine
		must(json.Unmarshal(text, &l))
		f := rsFamilies[line]
		if f == nil {
			panic("no family")
		}
		rep.Behaviours++
		for i, q := range l.Qs {
			progress(fmt.Sprintf("%d 0 %d %v", line, i, q))
			rnd := lineRand(line, i)
			p := catch(func() { rsCase(f, q.Api, q.Inst, q.Nm, q.R.K, q.R.N, q.R.Ptr, rnd) })
			if p != nil {
				fl, ok := p.(failure)
				if !ok {
					fl.What = fmt.Sprintf("panic %T %v", p, p)
				}
				rep.Fail = &failRec{Line: line, Step: i, What: fmt.Sprintf("%s(%s of family %d, %s = %.20q), answer %v: %s", q.Api, q.Inst, line, q.Nm, map[string]string{"M": f.m, "u": f.u}[q.Nm], q.R, fl.What)}
				return false
			}
			rep.Steps++
			rep.Cover[q.Api+"/"+q.Nm+"/"+q.R.K]++
		}
		for _, nm := range []string{"X", "x", "", "m", "U", "M ", f.m + "?", f.u + "?", f.m[:len(f.m)-1], f.u[:len(f.u)-1], f.u[:len(f.u)/2]} {
			for _, k := range []string{"val", "ptr"} {
				nm := nm
				if catch(func() { mockey.GetMethod(f.inst(k), nm) }) == nil {
					rep.Fail = &failRec{Line: line, What: fmt.Sprintf("GetMethod(%s of family %d, %q) does not panic", k, line, nm)}
					return false
				}
			}
		}
		if line%8 == 0 {
			idleGC()
		}
		return true
	})
}

func rsCase(f *rsFamily, api, inst, nm, k string, n int, ptr bool, rnd *rand.Rand) {
	fail := func(s string, a ...interface{}) { panic(failure{What: fmt.Sprintf(s, a...)}) }
	var fn interface{}
	name := f.m
	if nm == "u" {
		name = f.u
	}
	p := catch(func() {
		switch api {
		case "get":
			fn = mockey.GetMethod(f.inst(inst), name)
		case "nested":
			fn = mockey.GetNestedMethod(f.inst(inst), name)
		case "private":
			fn = mockey.GetPrivateMethod(f.inst(inst), name)
		}
	})
	if p != nil {
		if k == "panic" || k == "open" {
			return
		}
		// unexported methods are found for pointers and structs only
		if nm == "u" && f.types[len(f.types)-1].Kind() != reflect.Struct {
			return
		}
		fail("panic %v", p)
	}
	typ := reflect.TypeOf(fn)
	if k == "panic" {
		fail("it gives a %v", typ)
	}
	if k == "open" {
		return
	}
	var want *rsImpl
	if k == "field" {
		for i := range f.fields {
			if f.fields[i].node == n && f.fields[i].name == nm {
				want = &f.fields[i]
			}
		}
		if typ != f.ftyps[n-1] {
			fail("type %v, want %v", typ, f.ftyps[n-1])
		}
	} else {
		recv := f.types[n-1]
		if ptr {
			recv = reflect.PtrTo(recv)
		}
		if typ.Kind() != reflect.Func || typ.NumIn() == 0 || typ.In(0) != recv {
			fail("type %v, want one with receiver %v", typ, recv)
		}
		if k == "impl" {
			sig := f.sigs[n-1]
			ok := typ.NumIn() == sig.NumIn()+1 && typ.NumOut() == sig.NumOut() && typ.IsVariadic() == sig.IsVariadic()
			for i := 0; ok && i < sig.NumIn(); i++ {
				ok = typ.In(i+1) == sig.In(i)
			}
			for i := 0; ok && i < sig.NumOut(); i++ {
				ok = typ.Out(i) == sig.Out(i)
			}
			if !ok {
				fail("type %v, want %v with receiver %v", typ, sig, recv)
			}
			for i := range f.impls {
				if f.impls[i].node == n && f.impls[i].name == nm && f.impls[i].ptr == ptr {
					want = &f.impls[i]
				}
			}
		}
	}
	if k == "wrap" {
		// Generated code: it calls the method of some field. No other claim here.
		rep.Kinds["generated method"]++
		return
	}
	if want == nil {
		panic("no such implementation")
	}
	all := append(append([]rsImpl{}, f.impls...), f.fields...)
	check := func(when string, mocked bool, value int) {
		for i := range all {
			w := all[i].id
			if mocked && w == want.id {
				w = value
			}
			if g := all[i].call(); g != w {
				fail("%s: a call of %s of node %d gives %d, want %d", when, all[i].name, all[i].node, g, w)
			}
		}
	}
	// the function itself
	var args []reflect.Value
	for i := 0; i < typ.NumIn(); i++ {
		if typ.IsVariadic() && i == typ.NumIn()-1 {
			break
		}
		a := reflect.Zero(typ.In(i))
		if i == 0 && k == "impl" && ptr {
			a = reflect.New(typ.In(0).Elem())
		}
		args = append(args, a)
	}
	if g := reflect.ValueOf(fn).Call(args)[0].Int(); int(g) != want.id {
		fail("calling the result gives %d, want %d", g, want.id)
	}
	check("before", false, 0)
	value := 100000 + rnd.Intn(100000)
	rets := []interface{}{value}
	if typ.NumOut() == 2 {
		rets = append(rets, "y")
	}
	var m *mockey.Mocker
	if rnd.Intn(2) == 0 {
		m = mockey.Mock(fn).Return(rets...).Build()
	} else {
		hook := reflect.MakeFunc(typ, func(in []reflect.Value) (r []reflect.Value) {
			if k == "impl" && in[0].Type() != typ.In(0) {
				stray("receiver")
			}
			for i, v := range rets {
				_ = i
				r = append(r, reflect.ValueOf(v))
			}
			return
		}).Interface()
		m = mockey.Mock(fn).To(hook).Build()
	}
	check("while mocked", true, value)
	if c := m.Times(); c != 1 {
		fail("Times() is %d after one call", c)
	}
	m.UnPatch()
	check("after UnPatch", false, 0)
	if msg := textDiff(nil); msg != "" {
		fail("after UnPatch: %s", msg)
	}
}
