package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zverif/wk"
)

// ---- behaviours, as printed by Gen.tla

type tagged struct {
	T   string `json:"t"`
	P   int    `json:"p"`
	G   int    `json:"g"`
	Cur bool   `json:"cur"`
}
type bcall struct {
	C string `json:"c"`
	A tagged `json:"a"`
}
type concCall struct{ G, F, X, N int }
type opRec struct {
	Op    string
	G     int
	F     int
	M     int
	V     int
	X     int
	O     bool
	How   string
	Calls []bcall
	Fl    tagged
	A     tagged
	Vs    [][2]int
	Qs    []concCall
}
type viewRec struct {
	P []int
	N []int
	K []int
	V []int
}
type step struct {
	O  opRec
	R  [2]interface{}
	Ev json.RawMessage
	Sq int
	On []int // mocks in effect after the step
	Vn []int // variable mocks in effect after the step
	Vw viewRec
}

// failure is a deviation of the code from the specification
type failure struct {
	Step int
	What string
}

type loc struct {
	file string
	line int
}

var lastLoc loc

func here() {
	_, f, l, _ := runtime.Caller(1)
	lastLoc = loc{f, l}
}

type fakeT struct{ failed bool }

func (t *fakeT) Fail() { t.failed = true }

type scope struct {
	entered chan struct{}
	leave   chan string
	left    chan struct{}
	t       *fakeT
}

type seqT = interface {
	mockey.SequenceOpt
}

type mocker struct {
	m    *mockey.Mocker
	b    *mockey.MockBuilder
	t    *Target
	ov   *originVar
	at   loc
	dead bool
}
type vmocker struct {
	m  *mockey.MockerVar
	v  int
	at loc
}

type interp struct {
	rnd    *rand.Rand
	ws     [9]*wk.Worker
	scopes []*scope
	mk     []*mocker // 1-based
	vmk    []*vmocker
	seqVs  [][][2]int
	seqs   []map[reflect.Type]seqT
	vt     *varKind
	onlyX  bool // x must be recoverable from arguments
	fon    map[int]bool
	von    map[int]bool
	cover  map[string]int
	line   int
	rep    int
	at     int
	deep   bool // compare all code after every step
	gates  [9]*gate // hooks that wait, per worker
	gate   *gate    // that of the call that is under way
}

// gate is a call that waits in a hook
type gate struct {
	held  chan struct{}
	open  chan bool // false: the goroutine is to end
	done  chan struct{}
	p     *interface{}
	v     int
	ended bool // by Goexit
}

func (in *interp) fail(f string, a ...interface{}) { panic(failure{What: fmt.Sprintf(f, a...)}) }

func (in *interp) pickForm(t *Target, origin bool) form {
	fs := t.forms(in.onlyX || origin)
	if origin { // never with GenericInfo
		var g []form
		for _, f := range fs {
			if !f.info && (f.recv || t.HasRecv) {
				g = append(g, f)
			}
		}
		fs = g
	}
	return fs[in.rnd.Intn(len(fs))]
}

// sequence returns the sequence q for result types of t: a Go sequence holds values of the result types, so a sequence
// of the specification that is shared by several targets exists once per target kind only if the kinds have equal types
func (in *interp) sequence(q int, t *Target) interface{} {
	vs := in.seqVs[q-1]
	key := t.typ()
	for k := range in.seqs[q-1] { // share among targets with equal result types
		if sameOuts(k, key) {
			return in.seqs[q-1][k]
		}
	}
	vals := t.returns(vs[0][0])
	s := mockey.Sequence(vals...)
	reuse(vals)
	set := func(n int) {
		if n > 1 || in.rnd.Intn(2) == 0 {
			s = s.Times(n)
		}
		if in.rnd.Intn(6) == 0 {
			if p := catch(func() { s.Times(-in.rnd.Intn(3)) }); p == nil {
				in.fail("Sequence.Times accepted a count of zero or less")
			}
		}
	}
	if in.rnd.Intn(4) == 0 {
		s = s.Times(5) // overridden below
		s = s.Times(vs[0][1])
	}
	set(vs[0][1])
	for _, v := range vs[1:] {
		vals := t.returns(v[0])
		s = s.Then(vals...)
		reuse(vals)
		set(v[1])
	}
	in.seqs[q-1][key] = s
	return s
}

// reuse: the program uses a slice of values for something else after it has passed it on
func reuse(vals []interface{}) {
	for i := range vals {
		vals[i] = "used for something else"
	}
}

func sameOuts(a, b reflect.Type) bool {
	if a.NumOut() != b.NumOut() {
		return false
	}
	for i := 0; i < a.NumOut(); i++ {
		if a.Out(i) != b.Out(i) {
			return false
		}
	}
	return true
}

func catch(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// asserted tells whether p is a rejection by mockey
func asserted(p interface{}) bool {
	if p == nil {
		return false
	}
	switch p.(type) {
	case mismatch, failure, runtime.Error:
		return false
	}
	for m := range panicVals {
		if samePanic(p, m) {
			return false
		}
	}
	return true
}

// hookSem is the semantics of a To hook
func (in *interp) hookSem(h tagged, m, c int, t *Target, mk *mocker) func(x int) int {
	return func(x int) int {
		logEvent("h", m, c, x)
		switch h.T {
		case "to":
			return 100*h.P + x
		case "pan":
			panic(panicVal(m))
		case "gox":
			runtime.Goexit()
		case "org":
			return mk.ov.call(x) + 5
		case "org1":
			return mk.ov.call(x+1) + 6
		case "org2":
			v := mk.ov.call(x)
			return v + mk.ov.call(x+1)
		case "rec":
			if x <= 0 {
				return 70
			}
			return call(t.Idx, x-1) + 7
		case "ror":
			if x <= 0 {
				return 80
			}
			v := call(t.Idx, x-1)
			return v + mk.ov.call(x)
		case "oth":
			return call(h.P, x) + 9
		case "once":
			mk.m.UnPatch()
			return 300 + h.P
		case "offo":
			mk.m.UnPatch()
			return mk.ov.call(x) + 11
		case "allo":
			mockey.UnPatchAll()
			return mk.ov.call(x) + 12
		case "reo":
			siteReturn(m, mk.m, t.returns(700+h.P))
			mk.at = lastLoc
			return mk.ov.call(x) + 13
		case "gate":
			g := in.gate
			if g == nil {
				in.fail("a hook that waits was executed")
			}
			in.gate = nil
			close(g.held)
			if !<-g.open {
				runtime.Goexit()
			}
			return mk.ov.call(x) + 14
		}
		panic("hook " + h.T)
	}
}

func (in *interp) whenSem(w tagged, m, c int, mk *mocker) func(x int) bool {
	return func(x int) bool {
		logEvent("w", m, c, x)
		switch w.T {
		case "T":
			return true
		case "F":
			return false
		case "lt":
			return x < w.P
		case "eq":
			return x == w.P
		case "odd":
			return mod(x, 2) == 1
		case "pan":
			panic(panicVal(m))
		case "gox":
			runtime.Goexit()
		case "org":
			return mod(mk.ov.call(x), 2) == 1
		case "off":
			mk.m.UnPatch()
			return false
		}
		panic("when " + w.T)
	}
}

func (in *interp) whenFn(w tagged, m, c int, t *Target, mk *mocker) interface{} {
	return t.when(in.pickForm(t, false), in.rnd.Intn(4) == 0, fmt.Sprintf("condition %d of mock %d (%s)", c, m, t.Kind), in.whenSem(w, m, c, mk))
}

// hookVal gives (To function, nil) or (nil, Return values)
func (in *interp) hookVal(h tagged, m, c int, t *Target, mk *mocker) (interface{}, []interface{}) {
	switch h.T {
	case "ret":
		return nil, t.returns(h.P)
	case "bad":
		return nil, t.badReturns(in.rnd.Intn(30))
	case "seq":
		return nil, []interface{}{in.sequence(h.P, t)}
	}
	return t.hook(in.pickForm(t, false), fmt.Sprintf("hook %d of mock %d (%s)", c, m, t.Kind), in.hookSem(h, m, c, t, mk)), nil
}

// conf runs the builder calls, in the specification's order, with origin and filter calls at arbitrary places
func (in *interp) conf(o *opRec, m int, mk *mocker, origin bool, s *step) {
	var rej []int
	must(json.Unmarshal(s.Ev, &rej))
	t, b := mk.t, mk.b
	// the condition that a call belongs to, for the event labels
	type slot struct{ w, h bool }
	cur, cond := slot{}, 1
	w := in.ws[o.G]
	originAt, filterAt := -1, -1
	if origin {
		originAt = in.rnd.Intn(len(o.Calls) + 1)
	}
	if o.Fl.T == "inc" || o.Fl.T == "exc" {
		filterAt = in.rnd.Intn(len(o.Calls) + 1)
	}
	side := func(i int) {
		if i == originAt {
			if p := w.Do(func() { b = b.Origin(mk.ov.p.Interface()) }); p != nil {
				in.fail("Origin panicked: %v", p)
			}
			if in.rnd.Intn(8) == 0 {
				if p := w.Do(func() { b.Origin(mk.ov.p.Interface()) }); !asserted(p) {
					in.fail("second Origin of a builder was not rejected: %v", p)
				}
			}
		}
		if i == filterAt {
			in.filter(o.Fl, func(g int, f func()) {
				if p := in.ws[g].Do(f); p != nil {
					in.fail("filter panicked: %v", p)
				}
			}, o.G,
				func(ft mockey.FilterGoroutineType, id int64) { b = b.FilterGoRoutine(ft, id) },
				func() { b = b.IncludeCurrentGoRoutine() }, func() { b = b.ExcludeCurrentGoRoutine() })
		}
	}
	for i, c := range o.Calls {
		side(i)
		c := c
		rejected := rej[i] == 1
		if cur.w && cur.h && !rejected {
			cur = slot{}
			cond++
		}
		var f func()
		switch c.C {
		case "when":
			fn := in.whenFn(c.A, m, cond, t, mk)
			f = func() { b = b.When(fn) }
			if !rejected {
				cur.w = true
			}
		case "hook":
			to, ret := in.hookVal(c.A, m, cond, t, mk)
			if to != nil {
				f = func() { b = b.To(to) }
			} else {
				f = func() { b = b.Return(ret...); reuse(ret) }
			}
			if !rejected {
				cur.h = true
			}
		case "badwhen":
			fn := t.unfit(true, in.rnd.Intn(100))
			f = func() { b.When(fn) }
		case "badhook":
			fn := t.unfit(false, in.rnd.Intn(100))
			f = func() { b.To(fn) }
		}
		p := w.Do(f)
		if rejected && !asserted(p) {
			in.fail("builder call %d (%s) was not rejected: %v", i+1, c.C, p)
		}
		if !rejected && p != nil {
			in.fail("builder call %d (%s) was rejected: %v", i+1, c.C, p)
		}
	}
	side(len(o.Calls))
	mk.b = b
}

func (in *interp) filter(fl tagged, do func(g int, f func()), g int, set func(mockey.FilterGoroutineType, int64), inc, exc func()) {
	switch {
	case fl.T == "off":
		do(g, func() { set(mockey.Disable, 0) })
	case fl.T == "inc" && fl.Cur:
		do(fl.G, inc)
	case fl.T == "exc" && fl.Cur:
		do(fl.G, exc)
	case fl.T == "inc":
		do(g, func() { set(mockey.Include, in.goid(fl.G)) })
	case fl.T == "exc":
		do(g, func() { set(mockey.Exclude, in.goid(fl.G)) })
	}
}

// goid is the identity of worker g; 0: that of no goroutine
func (in *interp) goid(g int) int64 {
	if g > 0 {
		return in.ws[g].Id
	}
	ids := []int64{0, -1, math.MaxInt64, math.MinInt64}
	for _, w := range in.workers() {
		ids = append(ids, -w.Id, w.Id+1<<32, w.Id+1<<62, w.Id+math.MinInt64)
	}
	return ids[in.rnd.Intn(len(ids))]
}

func (in *interp) expectRemock(p interface{}, at loc) {
	msg := fmt.Sprint(p)
	if _, ok := p.(string); !ok {
		in.fail("expected a re-mock panic, got %T %v", p, p)
	}
	want := fmt.Sprintf("%s:%d", filepath.Base(at.file), at.line)
	if !strings.HasSuffix(msg, want) && !strings.Contains(msg, want+" ") {
		in.fail("re-mock panic does not name the previous mock at %s: %s", want, msg)
	}
}

func (in *interp) workers() (ws []*wk.Worker) {
	for _, w := range in.ws {
		if w != nil {
			ws = append(ws, w)
		}
	}
	return
}

func (in *interp) note(k string) { in.cover[k]++ }

func ints(x interface{}) int { return int(x.(float64)) }

// run performs one operation and compares its outcome
func (in *interp) run(s *step) {
	o := &s.O
	rk, rvv := s.R[0].(string), ints(s.R[1])
	in.note(o.Op + "/" + rk)
	w := in.ws[1]
	if o.G > 0 {
		w = in.ws[o.G]
	}
	// effect of an operation that may be refused
	settle := func(p interface{}, prev func(int) loc) bool {
		switch rk {
		case "done":
			if p != nil {
				in.fail("%s panicked: %v", o.Op, p)
			}
			return true
		case "rej":
			if !asserted(p) {
				in.fail("%s was not rejected: %v", o.Op, p)
			}
		case "remock":
			if !asserted(p) {
				in.fail("%s: re-mock was not rejected: %v", o.Op, p)
			}
			in.expectRemock(p, prev(rvv))
		default:
			in.fail("outcome %s of %s?", rk, o.Op)
		}
		return false
	}
	fprev := func(m int) loc { return in.mk[m].at }
	vprev := func(m int) loc { return in.vmk[m].at }
	site := in.rnd.Intn(1000)
	switch o.Op {
	case "enter":
		in.enter()
	case "exit":
		in.exit(o.How)
	case "build":
		t := bound[o.F]
		mk := &mocker{t: t}
		if o.O {
			mk.ov = t.newOrigin(in.pickForm(t, true))
		}
		var p interface{}
		p = w.Do(func() {
			switch {
			case t.Unsafe && !t.Generic && in.rnd.Intn(2) == 0:
				mk.b = mockey.MockUnsafe(t.Fn())
			case t.Unsafe:
				mk.b = mockey.Mock(t.Fn(), mockey.OptUnsafe)
			case t.Generic && in.rnd.Intn(2) == 0:
				mk.b = mockey.MockGeneric(t.Fn())
			case t.Generic:
				mk.b = mockey.Mock(t.Fn(), mockey.OptGeneric)
			default:
				mk.b = mockey.Mock(t.Fn())
			}
		})
		if p != nil {
			in.fail("Mock panicked: %v", p)
		}
		m := len(in.mk)
		in.conf(o, m, mk, mk.ov != nil, s)
		p = w.Do(func() { mk.m = siteBuild(site, mk.b) })
		if settle(p, fprev) {
			mk.at = lastLoc
			in.mk = append(in.mk, mk)
		}
	case "again":
		mk := *in.mk[o.M]
		if settle(w.Do(func() { mk.m = siteBuild(site, mk.b) }), fprev) {
			mk.at = lastLoc
			in.mk = append(in.mk, &mk)
		}
	case "rebuild":
		old := in.mk[o.M]
		mk := &mocker{t: old.t, b: old.b, ov: old.ov}
		m := len(in.mk)
		in.conf(o, m, mk, false, s)
		p := w.Do(func() { mk.m = siteBuild(site, mk.b) })
		if settle(p, fprev) {
			mk.at = lastLoc
			in.mk = append(in.mk, mk)
		}
	case "patch":
		mk := in.mk[o.M]
		was := in.fon[o.M]
		p := w.Do(func() { sitePatch(site, mk.m) })
		if settle(p, fprev) && !was {
			mk.at = lastLoc
		}
	case "unpatch":
		mk := in.mk[o.M]
		settle(w.Do(func() { mk.m.UnPatch() }), fprev)
	case "cpatch", "cunpatch":
		mk := in.mk[o.M]
		was := in.fon[o.M]
		at, ps := wk.PatchTogether(in.workers(), mk.m, o.Op == "cunpatch")
		for _, p := range ps {
			if settle(p, fprev) && !was && o.Op == "cpatch" {
				mk.at = loc{at.File, at.Line}
			}
		}
	case "cvpatch", "cvunpatch":
		vm := in.vmk[o.M]
		was := in.von[o.M]
		at, ps := wk.VPatchTogether(in.workers(), vm.m, o.Op == "cvunpatch")
		for _, p := range ps {
			if settle(p, vprev) && !was && o.Op == "cvpatch" {
				vm.at = loc{at.File, at.Line}
			}
		}
	case "release":
		mk := in.mk[o.M]
		settle(w.Do(func() {
			b := mk.m.Release()
			if b == nil {
				panic("Release returned nil")
			}
			mk.b = b
		}), fprev)
		mk.dead = true
	case "rewhen":
		mk := in.mk[o.M]
		fn := in.whenFn(o.A, o.M, 1, mk.t, mk)
		if settle(w.Do(func() { siteWhen(site, mk.m, fn) }), fprev) {
			mk.at = lastLoc
		}
	case "rehook":
		mk := in.mk[o.M]
		to, ret := in.hookVal(o.A, o.M, 1, mk.t, mk)
		p := w.Do(func() {
			if to != nil {
				siteTo(site, mk.m, to)
			} else {
				siteReturn(site, mk.m, ret)
				reuse(ret)
			}
		})
		if settle(p, fprev) {
			mk.at = lastLoc
		}
	case "refilter":
		mk := in.mk[o.M]
		var p interface{}
		in.filter(o.Fl, func(g int, f func()) { p = in.ws[g].Do(f) }, o.G,
			func(ft mockey.FilterGoroutineType, id int64) { siteFilter(site, mk.m, ft, id) },
			func() { siteInc(site, mk.m) }, func() { siteExc(site, mk.m) })
		if settle(p, fprev) {
			mk.at = lastLoc
		}
	case "reorigin":
		mk := in.mk[o.M]
		ov := mk.t.newOrigin(in.pickForm(mk.t, true))
		if settle(w.Do(func() { siteOrigin(site, mk.m, ov.p.Interface()) }), fprev) {
			mk.at = lastLoc
			mk.ov = ov
		}
	case "badconf":
		mk := in.mk[o.M]
		k := in.rnd.Intn(100)
		settle(w.Do(func() {
			switch k % 3 {
			case 0:
				mk.m.To(mk.t.unfit(false, k/3))
			case 1:
				mk.m.When(mk.t.unfit(true, k/3))
			default:
				extra := reflect.TypeOf(struct{ Q int }{})
				mk.m.Origin(reflect.New(reflect.FuncOf([]reflect.Type{extra, extra, extra}, nil, mk.t.typ().IsVariadic() && false)).Interface())
			}
		}), fprev)
	case "junk":
		what, f := in.junk(bound[o.F])
		p := w.Do(f)
		if p == nil {
			in.fail("%s was not rejected", what)
		}
		settle(fmt.Sprint("rejected: ", p), fprev) // any panic will do
	case "unpatchall":
		settle(w.Do(mockey.UnPatchAll), fprev)
	case "call":
		in.called(s, w, func() int { return call(o.F, o.X) })
	case "ocall":
		ov := in.mk[o.M].ov
		in.called(s, w, func() int { return ov.call(o.X) })
	case "hcall":
		events = events[:0]
		logging = true
		g := &gate{held: make(chan struct{}), open: make(chan bool), ended: true}
		in.gate, in.gates[o.G] = g, g
		g.done, g.p = w.Start(func() {
			g.v = call(o.F, o.X)
			g.ended = false
		})
		select {
		case <-g.held:
		case <-g.done:
			in.gates[o.G] = nil
			in.callOutcome("ok", g.v, g.v, *g.p)
			in.fail("the call returned %d, want it to be in the hook of mock %d", g.v, rvv)
		case <-time.After(30 * time.Second):
			in.fail("the call does not end")
		}
		logging = false
		in.compareEvents(s.Ev)
	case "resume":
		events = events[:0]
		logging = true
		g := in.gates[o.G]
		in.gates[o.G] = nil
		g.open <- true
		wait(g.done, "the call does not end")
		logging = false
		in.outcome(s, o.G, g.ended, g.v, *g.p)
	case "conc":
		in.conc(s)
	case "bulk":
		in.bulk(s)
	case "window":
		in.window(s, in.line, in.at)
	case "seqnew":
		in.seqVs = append(in.seqVs, o.Vs)
		in.seqs = append(in.seqs, map[reflect.Type]seqT{})
	case "vnew":
		vm := &vmocker{v: o.V}
		p := w.Do(func() { vm.m = mockey.MockValue(in.vt.ptr(o.V)) })
		settle(p, vprev)
		in.vmk = append(in.vmk, vm)
	case "vto":
		vm := in.vmk[o.M]
		x := in.vt.arg(vm.v, o.X, in.rnd)
		if settle(w.Do(func() { siteVTo(site, vm.m, x) }), vprev) {
			vm.at = lastLoc
		}
	case "vpatch":
		vm := in.vmk[o.M]
		was := in.von[o.M]
		if settle(w.Do(func() { siteVPatch(site, vm.m) }), vprev) && !was {
			vm.at = lastLoc
		}
	case "vunpatch":
		vm := in.vmk[o.M]
		settle(w.Do(func() { vm.m.UnPatch() }), vprev)
	case "vset":
		settle(w.Do(func() { in.vt.set(o.V, o.X) }), vprev)
	case "vbad":
		vm := in.vmk[o.M]
		settle(w.Do(func() { vm.m.To(in.vt.vbad(vm.v)) }), vprev)
	case "respawn":
		w.Close()
		in.ws[o.G] = wk.New()
	case "gid":
		id := int64(0)
		if p := w.Do(func() { id = mockey.GetGoroutineId() }); p != nil || id != w.Id {
			in.fail("GetGoroutineId is %d (%v), the goroutine is %d", id, p, w.Id)
		}
	case "gc":
		collect()
	default:
		panic("op " + o.Op)
	}
	in.setOn(s)
	in.view(&s.Vw)
}

// called makes a call on w
func (in *interp) called(s *step, w *wk.Worker, f func() int) {
	events = events[:0]
	logging = true
	v := 0
	ended := true // by Goexit
	p := w.Do(func() {
		v = f()
		ended = false
	})
	logging = false
	in.outcome(s, s.O.G, ended, v, p)
}

// outcome compares that of a call on the worker g
func (in *interp) outcome(s *step, g int, ended bool, v int, p interface{}) {
	rk, rvv := s.R[0].(string), ints(s.R[1])
	if ended && p == nil {
		in.ws[g] = wk.New()
		if rk != "goexit" {
			in.fail("the call ended the goroutine, want %s %d", rk, rvv)
		}
	} else {
		in.callOutcome(rk, rvv, v, p)
	}
	in.compareEvents(s.Ev)
}

// openGates ends the calls that still wait
func (in *interp) openGates() {
	for i, g := range in.gates {
		if g != nil {
			select {
			case <-g.held:
				g.open <- false
				wait(g.done, "the call does not end")
			default:
			}
			in.gates[i] = nil
			in.ws[i] = wk.New()
		}
	}
}

// setOn notes the mocks that are in effect after the step
func (in *interp) setOn(s *step) {
	in.fon, in.von = map[int]bool{}, map[int]bool{}
	for _, m := range s.On {
		in.fon[m] = true
	}
	for _, m := range s.Vn {
		in.von[m] = true
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// junk is a request that makes no sense: a target, variable, hook, condition or origin that is none
func (in *interp) junk(t *Target) (string, func()) {
	fn := t.Fn()
	b := func() *mockey.MockBuilder {
		if t.Generic {
			return mockey.MockGeneric(fn)
		}
		return mockey.Mock(fn)
	}
	yes := reflect.MakeFunc(reflect.FuncOf(t.in(form{false, true}), []reflect.Type{reflect.TypeOf(true)}, t.typ().IsVariadic()), func([]reflect.Value) []reflect.Value {
		panic(mismatch("condition of a builder that was not built"))
	}).Interface()
	n, list := 5, []struct {
		what string
		f    func()
	}{}
	add := func(what string, f func()) {
		list = append(list, struct {
			what string
			f    func()
		}{what, f})
	}
	add("Mock of a number", func() { mockey.Mock(n) })
	add("Mock of nothing", func() { mockey.Mock(nil) })
	add("Mock of a name", func() { mockey.Mock("main.main") })
	add("Mock of a pointer to a function variable", func() { mockey.Mock(&fn) })
	add("Mock of a reflected function", func() { mockey.Mock(reflect.ValueOf(fn)) })
	add("MockUnsafe of a number", func() { mockey.MockUnsafe(n) })
	add("MockGeneric of a number", func() { mockey.MockGeneric(n) })
	add("Mock of a pointer", func() { mockey.Mock(&n) })
	add("MockValue of a number", func() { mockey.MockValue(n) })
	add("MockValue of nothing", func() { mockey.MockValue(nil) })
	add("MockValue of a function", func() { mockey.MockValue(fn) })
	add("MockValue of a nil pointer", func() { mockey.MockValue((*int)(nil)) })
	add("MockValue of a struct", func() { mockey.MockValue(struct{ A int }{}) })
	add("MockValue of a map", func() { mockey.MockValue(map[int]int{}) })
	add("To(nil)", func() { b().To(nil).Build() })
	add("To(5)", func() { b().To(n).Build() })
	add("To of a pointer", func() { b().To(&n).Build() })
	add("When(nil)", func() { b().When(nil).Return().Build() })
	add("When(true)", func() { b().When(true).Build() })
	add("When of a name", func() { b().When("yes").Build() })
	add("a second When", func() { b().When(yes).When(yes) })
	add("Origin(nil)", func() { b().Origin(nil).Build() })
	add("Origin(5)", func() { b().Origin(n).Build() })
	add("Origin of a function", func() { b().Origin(fn).Build() })
	add("Origin of a pointer to a number", func() { b().Origin(&n).Build() })
	add("Origin of an empty interface", func() { var x interface{}; b().Origin(&x).Build() })
	add("a second Origin", func() {
		o := reflect.New(t.typ()).Interface()
		b().Origin(o).Origin(o)
	})
	j := list[in.rnd.Intn(len(list))]
	in.cover["junk "+j.what]++
	return j.what, j.f
}
