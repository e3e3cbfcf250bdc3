package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"unsafe"

	"github.com/bytedance/mockey"
)

// ---- instantiations that share code (Shapes.tla)

type shInt MyInt
type shS1 struct {
	A int
	B string
}
type shS2 struct {
	A int
	B string
}
type shS3 struct {
	A int `x:"1"`
	B string
}
type shS4 struct {
	C int
	B string
}
type shE1 struct{ MyInt }
type shE2 struct{ MyInt MyInt }
type shP *int
type shSl []int
type shFn func(int) int
type shErr interface{ Error() string }
type shRec1 struct{ N *shRec1 }
type shRec2 struct{ N *shRec2 }
type shSt1 int
type shSt2 int
type shSp1 struct{ A int }
type shSp2 struct{ A string }

func (shSt1) String() string  { stray("shSt1"); return "" }
func (shSt2) String() string  { stray("shSt2"); return "" }
func (*shSp1) String() string { stray("shSp1"); return "" }
func (*shSp2) String() string { stray("shSp2"); return "" }

type shG[T any] struct{ A T }
type shL[T any] []T
type shN[T any] int
type shStringer interface{ String() string }
type shNumber interface{ ~int | ~int64 | ~float64 }

// shSite is a call of an instantiation, and, if it can be mocked, what MockGeneric takes
type shSite struct {
	n, it  int
	name   string
	forms  int // ways to call it
	call   func(x, k int) []reflect.Value
	ts     []reflect.Type // real type arguments
	in     []reflect.Type // parameters, after the receiver
	out    []reflect.Type
	recv   reflect.Type
	v      bool
	fns    []interface{}
	reject []interface{}
}

var shSites = map[int]*shSite{}
var shItems [][]int
var shItemNames []string

func addShItem(name string) { shItemNames = append(shItemNames, name); shItems = append(shItems, nil) }
func addSh(n int, name string, forms int, v bool, recv reflect.Type, ts, in, out []reflect.Type, call func(x, k int) []reflect.Value, fns, reject []interface{}) {
	it := len(shItems) - 1
	shItems[it] = append(shItems[it], n)
	shSites[n] = &shSite{n, it, name, forms, call, ts, in, out, recv, v, fns, reject}
}

const shRecvSalt = 9

var (
	shRan  []reflect.Value // what the original code got (the receiver first)
	shRuns int
)

// shBody is what the original code does
func shBody(in []interface{}, out ...interface{}) {
	shRan = nil
	for _, p := range in {
		shRan = append(shRan, reflect.ValueOf(p).Elem())
	}
	shRuns++
	for i, p := range out {
		encOut(p, adOrigVal, i)
	}
}

func ptrs(ps ...interface{}) []interface{} { return ps }

// as reinterprets the memory of a value
func as(v reflect.Value, t reflect.Type) reflect.Value {
	if v.Type() == t {
		return v
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return reflect.NewAt(t, unsafe.Pointer(p.Pointer())).Elem()
}

type shLine struct {
	N    int
	It   string
	Path string
	Hits []int
	Same []int
}

func init() { modes["shapes"] = func() { inWorker(shapesMode) } }

func shapesMode() {
	lines(func(line int, text []byte) bool {
		var l shLine
		must(json.Unmarshal(text, &l))
		s := shSites[l.N]
		if s == nil {
			panic("no site")
		}
		if len(s.fns) == 0 {
			return true
		}
		rep.Behaviours++
		for i := 0; i < 4**flagReps; i++ {
			rnd := lineRand(line, i)
			progress(fmt.Sprintf("%d 0 %d %s", line, i, s.name))
			var p interface{}
			if i%4 == 3 && len(s.reject) > 0 {
				p = catch(func() { shReject(s) })
			} else {
				p = catch(func() { shCase(&l, s, i%4, rnd) })
			}
			if p != nil {
				f, ok := p.(failure)
				if !ok {
					f.What = fmt.Sprintf("panic %T %v", p, p)
				}
				rep.Fail = &failRec{Line: line, Step: i, What: fmt.Sprintf("mock of %s: %s", s.name, f.What), Bound: []string{s.name}}
				return false
			}
		}
		rep.Kinds[l.It]++
		if line%4 == 0 {
			idleGC()
		}
		return true
	})
}

func shReject(s *shSite) {
	for _, fn := range s.reject {
		var m *mockey.Mocker
		p := catch(func() { m = mockey.MockGeneric(fn).To(reflect.Zero(reflect.TypeOf(fn)).Interface()).Build() })
		if p == nil {
			p = catch(func() { m.UnPatch() })
			panic(failure{What: fmt.Sprintf("the mock of a wrapper (%T) was not rejected", fn)})
		}
		if msg := textDiff(nil); msg != "" {
			panic(failure{What: "after a rejection: " + msg})
		}
		rep.Cover["wrapper/reject"]++
	}
}

func shCase(l *shLine, s *shSite, kind int, rnd *rand.Rand) {
	fail := func(f string, a ...interface{}) { panic(failure{What: fmt.Sprintf(f, a...)}) }
	hits, same := map[int]bool{}, map[int]bool{}
	for _, h := range l.Hits {
		hits[h] = true
	}
	for _, h := range l.Same {
		same[h] = true
	}
	fn := s.fns[rnd.Intn(len(s.fns))]
	typ := reflect.TypeOf(fn)
	var (
		cur      *shSite // being called
		curX     int
		infos    = map[int]mockey.GenericInfo{}
		hookRuns int
		condRuns int
	)
	args := func(t *shSite, x int) (r []reflect.Value) {
		if t.recv != nil {
			r = append(r, enc(x, shRecvSalt, t.recv))
		}
		for i, a := range t.in {
			r = append(r, enc(x, i, a))
		}
		return
	}
	checkOrig := func(t *shSite, x int, what string) {
		w := args(t, x)
		if len(shRan) != len(w) {
			fail("%s: original code of %s got %d arguments", what, t.name, len(shRan))
		}
		for i := range w {
			if shRan[i].Type() != w[i].Type() {
				fail("%s: original code of %s ran as if argument %d was a %v", what, t.name, i, shRan[i].Type())
			}
			if !eq(shRan[i], w[i]) {
				fail("%s: original code of %s: argument %d is %v, want %v", what, t.name, i, show(shRan[i]), show(w[i]))
			}
		}
	}
	// hooks and conditions: with or without GenericInfo, with or without the first argument
	mk := func(outs []reflect.Type, what string, sem func([]reflect.Value) []reflect.Value) (interface{}, bool) {
		info, first := rnd.Intn(2) == 0, 0
		if rnd.Intn(3) == 0 && typ.NumIn() > 0 && !(typ.IsVariadic() && typ.NumIn() == 1) {
			first = 1
		}
		var in []reflect.Type
		if info {
			in = append(in, infoType)
		}
		for i := first; i < typ.NumIn(); i++ {
			in = append(in, typ.In(i))
		}
		return reflect.MakeFunc(reflect.FuncOf(in, outs, typ.IsVariadic()), func(got []reflect.Value) []reflect.Value {
			if cur == nil {
				fail("%s ran outside of a call", what)
			}
			if !hits[cur.n] {
				fail("%s ran in a call of %s", what, cur.name)
			}
			if info {
				g := got[0].Interface().(mockey.GenericInfo)
				got = got[1:]
				infos[cur.n] = g
				if cur.recv == nil && !cur.v { // (the dictionary of a variadic function begins with another type)
					for i, w := range cur.ts {
						if t := g.UsedParamType(uintptr(i)); t != w {
							fail("%s, call of %s: type argument %d is %v, want %v", what, cur.name, i, t, w)
						}
					}
				}
			}
			w := args(cur, curX)[first:]
			for i := range got {
				if !eq(as(got[i], w[i].Type()), w[i]) {
					fail("%s, call of %s: argument %d is %v, want %v", what, cur.name, i+first, show(got[i]), show(w[i]))
				}
			}
			return sem(got)
		}).Interface(), first == 0
	}
	results := func(v int) (r []reflect.Value) { // of the call, in the types of the mocked instantiation
		for i, o := range cur.out {
			r = append(r, as(enc(v, i, o), s.out[i]))
		}
		return
	}
	b := mockey.MockGeneric(fn)
	var org reflect.Value
	cond := func(x int) bool { return true }
	ret := kind == 1 || kind == 2 && rnd.Intn(2) == 0
	if kind == 2 {
		verdict := rnd.Intn(3)
		cond = func(x int) bool { return mod(x, 3) == verdict }
		f, _ := mk([]reflect.Type{reflect.TypeOf(true)}, "condition", func([]reflect.Value) []reflect.Value {
			condRuns++
			return []reflect.Value{reflect.ValueOf(cond(curX))}
		})
		b.When(f)
	}
	if ret {
		var vs []interface{}
		for i, o := range s.out {
			vs = append(vs, enc(adRetVal, i, o).Interface())
		}
		b.Return(vs...)
	} else {
		if kind == 3 {
			org = reflect.New(typ)
			b.Origin(org.Interface())
		}
		f, _ := mk(s.out, "hook", func([]reflect.Value) []reflect.Value {
			hookRuns++
			if kind == 3 {
				var ys []reflect.Value
				y := curX + 1
				for i, a := range args(cur, y) {
					ys = append(ys, as(a, typ.In(i)))
				}
				shRan = nil
				var rs []reflect.Value
				if typ.IsVariadic() {
					rs = org.Elem().CallSlice(ys)
				} else {
					rs = org.Elem().Call(ys)
				}
				checkOrig(cur, y, "origin function")
				for i, o := range cur.out {
					if w := enc(adOrigVal, i, o); !eq(as(rs[i], o), w) {
						fail("origin function, call of %s: result %d is %v, want %v", cur.name, i, show(rs[i]), show(w))
					}
				}
			}
			return results(adHookVal)
		})
		b.To(f)
	}
	m := b.Build()
	defer m.UnPatch()
	times, mtimes := 0, 0
	do := func(t *shSite, on bool) {
		k, x := rnd.Intn(t.forms), rnd.Intn(7)
		rep.Steps++
		cur, curX = t, x
		shRan = nil
		h, c, o := hookRuns, condRuns, shRuns
		var rs []reflect.Value
		if p := catch(func() { rs = t.call(x, k) }); p != nil {
			if f, ok := p.(failure); ok {
				panic(f)
			}
			fail("call of %s (form %d): panic %v", t.name, k, p)
		}
		cur = nil
		on = on && hits[t.n]
		v := adOrigVal
		wasHook := on && cond(x)
		if on {
			times++
			rep.Cover["call/shared"]++
			if kind == 2 && condRuns != c+1 {
				fail("call of %s (form %d): the condition ran %d times", t.name, k, condRuns-c)
			}
		} else {
			rep.Cover["call/other"]++
		}
		if wasHook {
			mtimes++
			v = adHookVal
			if ret {
				v = adRetVal
			}
			if !ret && hookRuns != h+1 {
				fail("call of %s (form %d): the hook ran %d times", t.name, k, hookRuns-h)
			}
			if kind != 3 && shRuns != o || shRuns > o+1 {
				fail("call of %s (form %d): the original code ran", t.name, k)
			}
		} else {
			if hookRuns != h {
				fail("call of %s (form %d): the hook ran", t.name, k)
			}
			if shRuns != o+1 {
				fail("call of %s (form %d): the original code ran %d times", t.name, k, shRuns-o)
			}
			checkOrig(t, x, "call")
		}
		for i := range t.out {
			got, w := rs[i], enc(v, i, t.out[i])
			if wasHook && ret { // in the types of the mocked instantiation
				got, w = as(got, s.out[i]), enc(v, i, s.out[i])
			}
			if !eq(got, w) {
				fail("call of %s (form %d): result %d is %v, want %v", t.name, k, i, show(got), show(w))
			}
		}
	}
	order := append([]int{}, shItems[s.it]...)
	rnd.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	if len(order) > 60 { // all that are affected, and others
		var a, b []int
		for _, n := range order {
			if hits[n] {
				a = append(a, n)
			} else {
				b = append(b, n)
			}
		}
		order = append(a, b[:40]...)
	}
	for i := 0; i < 4; i++ {
		it := shItems[rnd.Intn(len(shItems))]
		order = append(order, it[rnd.Intn(len(it))])
	}
	for _, n := range order {
		do(shSites[n], true)
	}
	if m.Times() != times || m.MockTimes() != mtimes {
		fail("counters are %d and %d, want %d and %d", m.Times(), m.MockTimes(), times, mtimes)
	}
	for a, ga := range infos {
		for b, gb := range infos {
			sameInst := same[a] && same[b] || a == b
			if !same[a] && !same[b] && a != b {
				sameInst = sameTypes(shSites[a].ts, shSites[b].ts)
			}
			if ga.Equal(gb) != sameInst {
				fail("GenericInfo of calls of %s and %s: Equal is %v", shSites[a].name, shSites[b].name, ga.Equal(gb))
			}
			rep.Cover["equal"]++
		}
	}
	m.UnPatch()
	for i := 0; i < 3; i++ {
		do(shSites[l.Hits[rnd.Intn(len(l.Hits))]], false)
	}
	do(s, false)
	if m := strayed.Load(); m != nil {
		fail("method %v of an argument was called", m)
	}
	if rnd.Intn(6) == 0 {
		if msg := textDiff(nil); msg != "" {
			fail("after UnPatch: %s", msg)
		}
	}
}


func sameTypes(a, b []reflect.Type) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}
