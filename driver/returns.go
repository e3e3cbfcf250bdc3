package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/bytedance/mockey"
)

// ---- what Return delivers (Returns.tla)

type rtRecv struct{ A int }
type rtBytes []byte
type rtSmall struct {
	A int
	B string
}
type rtChan chan int
type rtChanR <-chan int
type rtMap map[string]int
type rtStringer interface{ String() string }

var rtR = &rtRecv{1}
var rtRan int

func rtOrig() { rtRan++ }

type rtTarget struct {
	generic bool
	fn      interface{}
	call    func() []reflect.Value
}

var rtTargets = map[string][]*rtTarget{}
var rtTypes = map[string]reflect.Type{}
var rtConv = map[[2]string]func(x interface{}) reflect.Value{} // Go's conversions that the specification allows

func addRt(key string, generic bool, fn interface{}, call func() []reflect.Value) {
	rtTargets[key] = append(rtTargets[key], &rtTarget{generic, fn, call})
}

type rtCase struct {
	Vs []string
	Ok bool
}
type rtLine struct {
	Outs []string
	Cs   []rtCase
}

func init() { modes["returns"] = func() { inWorker(returnsMode) } }

func (c rtCase) key() string { return strings.Join(c.Vs, " ") }

func returnsMode() {
	lines(func(line int, text []byte) bool {
		var l rtLine
		must(json.Unmarshal(text, &l))
		sort.Slice(l.Cs, func(i, j int) bool { return l.Cs[i].key() < l.Cs[j].key() })
		ts := rtTargets[strings.Join(l.Outs, " ")]
		if len(ts) == 0 {
			panic("no target for " + fmt.Sprint(l.Outs))
		}
		for ti, t := range ts {
			rnd := lineRand(line, ti)
			rep.Behaviours++
			for i := range l.Cs {
				progress(fmt.Sprintf("%d %d %d return", line, ti, i))
				rep.Steps++
				p := catch(func() { (&rtRun{l: &l, t: t, rnd: rnd}).run(&l.Cs[i]) })
				if p != nil {
					f, ok := p.(failure)
					if !ok {
						f.What = fmt.Sprintf("panic %T %v", p, p)
					}
					rep.Fail = &failRec{Line: line, Rep: ti, Step: i, What: fmt.Sprintf("target %v, Return(%s): %s", reflect.TypeOf(t.fn), l.Cs[i].key(), f.What)}
					return false
				}
				if l.Cs[i].Ok {
					rep.Cover["fits"]++
				} else {
					rep.Cover["does not fit"]++
				}
				if rep.Steps%1024 == 0 {
					idleGC()
				}
			}
		}
		return true
	})
}

type rtRun struct {
	l   *rtLine
	t   *rtTarget
	rnd *rand.Rand
}

func (r *rtRun) fail(f string, a ...interface{}) { panic(failure{What: fmt.Sprintf(f, a...)}) }

// draw gives values of a case, and the results that they stand for, or false if a conversion is impossible for these
// values (a slice too short for an array)
func (r *rtRun) draw(c *rtCase) (vals []interface{}, want []reflect.Value, ok bool) {
	ok = c.Ok
	for i, v := range c.Vs {
		var x interface{}
		switch v {
		case "nil":
		case "seq":
			x = mockey.Sequence(1)
		default:
			x = enc(r.rnd.Intn(30), i, rtTypes[v]).Interface()
		}
		vals = append(vals, x)
		if !c.Ok {
			continue
		}
		out := rtTypes[r.l.Outs[i]]
		w := reflect.New(out).Elem()
		switch v {
		case "nil":
		case "seq":
			w.Set(reflect.ValueOf(x))
		default:
			f := rtConv[[2]string{v, r.l.Outs[i]}]
			if f == nil {
				panic("no conversion from " + v)
			}
			if catch(func() { w = f(x) }) != nil {
				ok = false
			}
		}
		want = append(want, w)
	}
	return
}

// valid gives values of exactly the result types
func (r *rtRun) valid() (vals []interface{}, want []reflect.Value) {
	for i, o := range r.l.Outs {
		w := enc(r.rnd.Intn(30), i, rtTypes[o])
		want = append(want, w)
		vals = append(vals, w.Interface())
	}
	return
}

func (r *rtRun) expect(want []reflect.Value, ok bool, what string) {
	rtRan = 0
	var got []reflect.Value
	p := catch(func() { got = r.t.call() })
	if rtRan != 0 {
		r.fail("%s: the original code ran", what)
	}
	if !ok {
		if p == nil {
			r.fail("%s: delivered %s", what, showAll(got))
		}
		return
	}
	if p != nil {
		r.fail("%s: panicked: %v", what, p)
	}
	for i, w := range want {
		same := eq(got[i], w)
		if k := w.Kind(); !same && k == reflect.Slice && (w.Type().Elem().Kind() == reflect.Uint8 || w.Type().Elem().Kind() == reflect.Int32) {
			same = reflect.DeepEqual(got[i].Interface(), w.Interface()) // a copy of a string
		}
		if !same {
			r.fail("%s: result %d is %s, want %s", what, i, show(got[i]), show(w))
		}
	}
}

func showAll(vs []reflect.Value) string {
	s := ""
	for _, v := range vs {
		s += " " + show(v)
	}
	return s
}

func (r *rtRun) run(c *rtCase) {
	vals, want, ok := r.draw(c)
	mk := func() *mockey.MockBuilder {
		if r.t.generic {
			return mockey.MockGeneric(r.t.fn)
		}
		return mockey.Mock(r.t.fn)
	}
	when := func(b bool) interface{} {
		typ := reflect.TypeOf(r.t.fn)
		in := []reflect.Type{}
		for i := 0; i < typ.NumIn(); i++ {
			in = append(in, typ.In(i))
		}
		return reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{reflect.TypeOf(true)}, typ.IsVariadic()),
			func([]reflect.Value) []reflect.Value { return []reflect.Value{reflect.ValueOf(b)} }).Interface()
	}
	v2, w2 := r.valid()
	var m *mockey.Mocker
	defer func() {
		if m != nil {
			m.UnPatch()
		}
	}()
	// values that do not fit may be refused when they are declared, or make the call panic
	declare := func(f func()) bool {
		p := catch(f)
		if p != nil && ok {
			r.fail("declaration panicked: %v", p)
		}
		return p == nil
	}
	isSeq := len(vals) == 1 && c.Vs[0] == "seq"
	if isSeq {
		return
	}
	switch k := r.rnd.Intn(5); k {
	case 0: // plain
		if declare(func() { m = mk().Return(vals...).Build(); reuse(vals) }) {
			for i := 0; i < 2; i++ {
				r.expect(want, ok, "call")
			}
		}
	case 1: // in a condition
		b := mk()
		n := r.rnd.Intn(3)
		for i := 0; i < n; i++ {
			b.When(when(false)).Return(v2...)
		}
		b.When(when(true))
		if declare(func() { b.Return(vals...); reuse(vals) }) {
			if r.rnd.Intn(2) == 0 {
				b.Return(v2...) // the condition for all other calls
			}
			m = b.Build()
			r.expect(want, ok, "call that condition decides")
		}
	case 2: // a mock in effect
		m = mk().Return(v2...).Build()
		r.expect(w2, true, "first call")
		if declare(func() { m.Return(vals...); reuse(vals) }) {
			r.expect(want, ok, "call after reconfiguration")
			v3, w3 := r.valid()
			m.Return(v3...)
			r.expect(w3, true, "call after the next reconfiguration")
		}
	case 3, 4: // sequence
		if !declare(func() {
			if k == 3 {
				m = mk().Return(mockey.Sequence(v2...).Then(vals...).Times(2).Then(v2...)).Build()
			} else {
				m = mk().When(when(true)).Return(mockey.Sequence(v2...).Then(vals...).Times(2)).Build()
			}
			reuse(vals)
		}) {
			return
		}
		for i := 0; i < 2; i++ {
			r.expect(w2, true, "value 1 of the sequence")
			r.expect(want, ok, "value 2 of the sequence")
			r.expect(want, ok, "value 2 of the sequence, again")
			if k == 3 {
				r.expect(w2, true, "value 3 of the sequence")
			}
		}
	}
}
