package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"time"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zverif/wk"
	"github.com/smartystreets/goconvey/convey"
)

// ---- scopes

// enter opens a PatchConvey context on a goroutine of its own, which then waits for leave
func (in *interp) enter() {
	sc := &scope{entered: make(chan struct{}), leave: make(chan string), t: &fakeT{}}
	named := in.rnd.Intn(3)
	sc.left = wk.Go(func() {
		inner := func() {
			close(sc.entered)
			switch <-sc.leave {
			case "ret":
			case "fail":
				convey.So(1, convey.ShouldEqual, 2)
			case "panic":
				panic("scope left by panic")
			case "goexit":
				runtime.Goexit()
			}
		}
		switch named {
		case 0:
			mockey.PatchConvey("scope", sc.t, func(c convey.C) { inner() })
		default:
			mockey.PatchConvey("scope", sc.t, inner)
		}
	})
	wait(sc.entered, "PatchConvey does not start")
	in.scopes = append(in.scopes, sc)
}

func (in *interp) exit(how string) {
	sc := in.scopes[len(in.scopes)-1]
	in.scopes = in.scopes[:len(in.scopes)-1]
	sc.leave <- how
	wait(sc.left, "PatchConvey does not end")
	in.note("exit-" + how)
}

func wait(c chan struct{}, what string) {
	select {
	case <-c:
	case <-time.After(30 * time.Second):
		panic(failure{What: what})
	}
}

// ---- outcomes

func (in *interp) callOutcome(rk string, rvv, v int, p interface{}) {
	switch x := p.(type) {
	case mismatch:
		in.fail("%s", string(x))
	}
	switch rk {
	case "ok":
		if p != nil {
			in.fail("call panicked: %v, want result %d", p, rvv)
		}
		if v != rvv {
			in.fail("call returned %d, want %d", v, rvv)
		}
	case "panic":
		if !samePanic(p, rvv) {
			in.fail("call gave %d, panic %T %v; want the panic of the hook or condition of mock %d", v, p, p, rvv)
		}
	case "bad":
		if !asserted(p) {
			in.fail("call gave %d, panic %T %v; want a panic about unfit Return values", v, p, p)
		}
	default:
		in.fail("outcome %s of call?", rk)
	}
}

func (in *interp) compareEvents(raw json.RawMessage) {
	var want [][]interface{}
	must(json.Unmarshal(raw, &want))
	var w []event
	for _, e := range want {
		w = append(w, event{e[0].(string), ints(e[1]), ints(e[2]), ints(e[3])})
	}
	if len(w) == 0 && len(events) == 0 || reflect.DeepEqual(w, events) {
		return
	}
	in.fail("functions that ran (w condition, h hook, o original; mock or function; condition; argument): %v, want %v", events, w)
}

// conc runs calls concurrently
func (in *interp) conc(s *step) {
	var want [][][2]interface{}
	must(json.Unmarshal(s.Ev, &want))
	type outcome struct {
		v int
		p interface{}
	}
	got := make([][]outcome, len(s.O.Qs))
	ws := make([]*wk.Worker, len(s.O.Qs))
	for i, q := range s.O.Qs {
		ws[i] = in.ws[q.G]
	}
	wk.Together(ws, func(i int) {
		q := s.O.Qs[i]
		for n := 0; n < q.N; n++ {
			var oc outcome
			oc.p = catch(func() { oc.v = call(q.F, q.X) })
			got[i] = append(got[i], oc)
		}
	})
	for i := range got {
		for j, oc := range got[i] {
			if mm, ok := oc.p.(mismatch); ok {
				in.fail("concurrent call %d of goroutine %d: %s", j, s.O.Qs[i].G, string(mm))
			}
			if s.Sq == 0 {
				in.callOutcome(want[i][j][0].(string), ints(want[i][j][1]), oc.v, oc.p)
			}
		}
	}
}

// ---- observable state

func (in *interp) view(w *viewRec) {
	if m := strayed.Load(); m != nil {
		in.fail("method %v of an argument was called", m)
	}
	for f := 1; f <= 4; f++ {
		t := bound[f]
		same := codeAt(t.entry) == t.pristine
		if same == (w.P[f-1] == 1) {
			if same {
				in.fail("%s.%d is not patched although it is mocked", t.Kind, f)
			}
			in.fail("%s.%d is patched although it is not mocked: % x", t.Kind, f, codeAt(t.entry))
		}
	}
	for m := range w.N {
		mk := in.mk[m+1]
		if n := mk.m.Times(); n != w.N[m] {
			in.fail("Times of mock %d is %d, want %d", m+1, n, w.N[m])
		}
		if n := mk.m.MockTimes(); n != w.K[m] {
			in.fail("MockTimes of mock %d is %d, want %d", m+1, n, w.K[m])
		}
	}
	for v := range w.V {
		if msg := in.vt.check(v+1, w.V); msg != "" {
			in.fail("%s", msg)
		}
	}
	if in.deep {
		n := 0
		var ok [][2]uintptr
		for f := 1; f <= 4; f++ {
			if w.P[f-1] == 1 {
				n++
				ok = append(ok, [2]uintptr{bound[f].entry, bound[f].entry + 32})
			}
		}
		if msg := textDiff(ok); msg != "" {
			in.fail("%s", msg)
		}
	}
}

func codeAt(a uintptr) (c [16]byte) {
	copy(c[:], unsafe.Slice((*byte)(unsafe.Pointer(a)), 16))
	return
}

// ---- the code segment of this process

var textLo, textHi uintptr
var textCopy []byte

type mapping struct {
	lo, hi uintptr
	perm   string
	path   string
}

func maps() (ms []mapping) {
	b, err := os.ReadFile("/proc/self/maps")
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 5 {
			continue
		}
		var m mapping
		fmt.Sscanf(f[0], "%x-%x", &m.lo, &m.hi)
		m.perm = f[1]
		if len(f) > 5 {
			m.path = f[5]
		}
		ms = append(ms, m)
	}
	return
}

func initText() {
	pc := reflect.ValueOf(initText).Pointer()
	for _, m := range maps() {
		if m.lo <= pc && pc < m.hi {
			textLo, textHi = m.lo, m.hi
		}
	}
	textCopy = append([]byte(nil), unsafe.Slice((*byte)(unsafe.Pointer(textLo)), int(textHi-textLo))...)
}

// textDiff compares the code segment with its initial contents, except for the ranges in ok
func textDiff(ok [][2]uintptr) string {
	cur := unsafe.Slice((*byte)(unsafe.Pointer(textLo)), int(textHi-textLo))
	if len(ok) == 0 {
		if string(cur) == string(textCopy) {
			return ""
		}
	}
	const blk = 4096
	for b := 0; b < len(cur); b += blk {
		e := b + blk
		if e > len(cur) {
			e = len(cur)
		}
		if string(cur[b:e]) == string(textCopy[b:e]) {
			continue
		}
	next:
		for i := b; i < e; i++ {
			if cur[i] != textCopy[i] {
				a := textLo + uintptr(i)
				for _, r := range ok {
					if r[0] <= a && a < r[1] {
						continue next
					}
				}
				n := "?"
				if f := runtime.FuncForPC(a); f != nil {
					n = fmt.Sprintf("%s+%d", f.Name(), a-f.Entry())
				}
				return fmt.Sprintf("code changed at %#x (%s): %#x, was %#x", a, n, cur[i], textCopy[i])
			}
		}
	}
	return ""
}

// protections checks that the code segment is one executable read-only mapping and counts the executable anonymous pages
func protections() (string, int) {
	pages := 0
	lo := textLo
	for _, m := range maps() {
		if m.lo <= lo && lo < m.hi && lo < textHi {
			if m.perm != "r-xp" {
				return fmt.Sprintf("code at %#x-%#x is mapped %s", m.lo, m.hi, m.perm), 0
			}
			lo = m.hi
		} else if m.path == "" && strings.Contains(m.perm, "x") {
			if strings.Contains(m.perm, "w") {
				return fmt.Sprintf("memory at %#x-%#x is mapped %s", m.lo, m.hi, m.perm), 0
			}
			pages += int((m.hi - m.lo) / uintptr(os.Getpagesize()))
		}
	}
	if lo < textHi {
		return fmt.Sprintf("code at %#x is not mapped", lo), 0
	}
	return "", pages
}

// learnEntry finds where the code of a target is that a mock of it changes
func learnEntry(t *Target) string {
	if t.entry != 0 {
		return ""
	}
	if !t.Generic {
		t.entry = reflect.ValueOf(t.Fn()).Pointer()
		t.pristine = codeAt(t.entry)
		return ""
	}
	m := mockey.Mock(t.Fn(), mockey.OptGeneric).Return(t.returns(1)...).Build()
	cur := unsafe.Slice((*byte)(unsafe.Pointer(textLo)), int(textHi-textLo))
	for b := 0; b < len(cur); b += 4096 {
		e := b + 4096
		if e > len(cur) {
			e = len(cur)
		}
		if string(cur[b:e]) != string(textCopy[b:e]) {
			for i := b; i < e; i++ {
				if cur[i] != textCopy[i] {
					f := runtime.FuncForPC(textLo + uintptr(i))
					t.entry = f.Entry()
					break
				}
			}
			break
		}
	}
	m.UnPatch()
	if t.entry == 0 {
		return "mock of generic function " + t.Kind + " changed no code"
	}
	t.pristine = codeAt(t.entry)
	return textDiff(nil)
}

var sink [][]byte

// collect forces garbage collections and reuses freed memory
func collect() {
	for i := 0; i < 2; i++ {
		runtime.GC()
		sink = sink[:0]
		for j := 0; j < 300; j++ {
			b := make([]byte, 16+(j%12)*16)
			for k := range b {
				b[k] = 0xee
			}
			sink = append(sink, b)
		}
	}
}

// ---- variables

type varKind struct {
	name string
	ptrs [5]interface{} // 1..3, and 4: a part of 3
	bad  interface{}
	part func(whole reflect.Value) reflect.Value // the part of a value of the type of 3
}

func (k *varKind) typ(v int) reflect.Type { return reflect.TypeOf(k.ptrs[v]).Elem() }
func (k *varKind) ptr(v int) interface{}  { return k.ptrs[v] }
func (k *varKind) set(v, x int)           { reflect.ValueOf(k.ptrs[v]).Elem().Set(k.enc(v, x)) }

// enc maps 0 to the zero value
func (k *varKind) enc(v, x int) reflect.Value {
	if x == 0 {
		return reflect.Zero(k.typ(v))
	}
	if k.part != nil && v == 3 {
		w := reflect.New(k.typ(v)).Elem()
		w.Set(encNonZero(x, k.typ(v)))
		k.part(w).Set(k.enc(4, x))
		return w
	}
	return encNonZero(x, k.typ(v))
}

func encNonZero(x int, t reflect.Type) reflect.Value {
	for s := 1; ; s += 7 {
		v := enc(x, s, t)
		if !v.IsZero() {
			return v
		}
	}
}

func (k *varKind) arg(v, x int, r *rand.Rand) interface{} {
	if x == 0 && r.Intn(2) == 0 {
		return nil
	}
	return k.enc(v, x).Interface()
}

// vbad is a value of a type that does not fit variable v
func (k *varKind) vbad(v int) interface{} {
	if k.part != nil {
		return struct{ X [2]bool }{}
	}
	return k.bad
}

// check compares variable v with its value among all
func (k *varKind) check(v int, vals []int) string {
	got, want := reflect.ValueOf(k.ptrs[v]).Elem(), k.enc(v, vals[v-1])
	if k.part != nil && v == 3 {
		w := reflect.New(k.typ(v)).Elem()
		w.Set(want)
		k.part(w).Set(k.enc(4, vals[3]))
		want = w
	}
	if !eq(got, want) {
		return fmt.Sprintf("variable %d (%s) is %v, want %v (values %v)", v, k.name, show(got), show(want), vals)
	}
	return ""
}

func mkVar[T any](name string, a *[4]T, bad interface{}) *varKind {
	k := &varKind{name: name, bad: bad}
	for i := 1; i <= 3; i++ {
		k.ptrs[i] = &a[i]
	}
	return k
}

// mkPart: a variable and a part of it
func mkPart[W any](name string, w *W, part func(whole reflect.Value) reflect.Value) *varKind {
	k := &varKind{name: name, part: part}
	k.ptrs[1], k.ptrs[2], k.ptrs[3] = &vInt[1], &vStr[2], w
	k.ptrs[4] = part(reflect.ValueOf(w).Elem()).Addr().Interface()
	return k
}

func fieldOf(path ...int) func(reflect.Value) reflect.Value {
	return func(w reflect.Value) reflect.Value { return w.FieldByIndex(path) }
}
func elemOf(i int) func(reflect.Value) reflect.Value {
	return func(w reflect.Value) reflect.Value { return w.Index(i) }
}

type vStruct struct {
	A int
	B string
	C *Small
	D []int
	E map[string]int
}
type vIface interface{ Error() string }
type vFunc func(int, string) error

var (
	vInt     [4]int
	vStr     [4]string
	vSt      [4]vStruct
	vPtr     [4]*Small
	vErr     [4]error
	vAny     [4]interface{}
	vFn      [4]func(int) string
	vFnN     [4]vFunc
	vSl      [4][]string
	vMap     [4]map[string]int
	vFl      [4]float64
	vMy      [4]MyInt
	vArr     [4][3]string
	vChan    [4]chan int
	vIf      [4]vIface
	vBig     [4]Big
	vPP      [4]**Small
	vI8      [4]int32
	varKinds = []*varKind{
		mkVar("int", &vInt, "no int"), mkVar("string", &vStr, 12), mkVar("struct", &vSt, Small{}), mkVar("pointer", &vPtr, Small{}),
		mkVar("error", &vErr, 3), mkVar("func", &vFn, func(int) int { return 1 }), mkVar("named func", &vFnN, func(int) string { return "" }),
		mkVar("slice", &vSl, []int{1}), mkVar("map", &vMap, map[int]int{}), mkVar("float", &vFl, 1), mkVar("named", &vMy, 5),
		mkVar("array", &vArr, [2]string{}), mkVar("chan", &vChan, make(chan string)), mkVar("interface", &vIf, Small{}), mkVar("big", &vBig, Big2{}),
		mkVar("pointer pointer", &vPP, &Small{}), mkVar("int32", &vI8, int64(1)),
	}
)

type vOuter struct {
	ID    int64
	Inner struct {
		On   bool
		Name string
		Any  interface{}
	}
	Tail [3]int16
}

var (
	pSt      [9]vStruct
	pArr     [5]string
	pAny     [3]interface{}
	pOut     [3]vOuter
	pFn      struct {
		N int
		F func(int) string
		E error
	}
	partKinds = []*varKind{
		mkPart("struct/string", &pSt[0], fieldOf(1)), mkPart("struct/pointer", &pSt[1], fieldOf(2)), mkPart("struct/slice", &pSt[2], fieldOf(3)),
		mkPart("struct/map", &pSt[3], fieldOf(4)), mkPart("array/element", &pArr, elemOf(2)), mkPart("array/any", &pAny, elemOf(1)),
		mkPart("struct/struct", &pOut[0], fieldOf(1)), mkPart("struct/deep", &pOut[1], fieldOf(1, 1)), mkPart("struct/array", &pOut[2], fieldOf(2)),
		mkPart("struct/func", &pFn, fieldOf(1)),
	}
)
