package main

import (
	"encoding/json"
	"fmt"
	"sync/atomic"

	"github.com/bytedance/mockey/zverif/wk"
)

// ---- targets without a stack check in front: their originals can be called concurrently (see known-findings.txt)

func nsBody(f, e, salt int) int {
	x := (e - salt) / 3
	if 3*x+salt != e {
		panic(mismatch(fmt.Sprintf("the original code got %d, which no call passes", e)))
	}
	if logging {
		logEvent("o", f, 0, x)
	}
	v := 1000*f + x
	switch {
	case f == 2 && x >= 4:
		panic(panicVal(0))
	case f == 3:
		v = 3000 + bound[1].Call(x)
	case f == 4 && x > 0:
		v = 1 + bound[4].Call(x-1)
	case f == 4:
		v = 4000
	}
	return 3 * v
}

func nsDec(r int) int {
	if r%3 != 0 {
		panic(mismatch(fmt.Sprintf("a call gave %d, which nothing returns", r)))
	}
	return r / 3
}

//go:nosplit
func nsFn1(x int) int { return nsBody(1, x, 0) }

//go:nosplit
func nsTwo1(s string, x int) int { return nsBody(1, x, 1) }

//go:nosplit
func (r *nsT) M1(x int) int { return nsBody(1, x, 0) }

//go:nosplit
func nsVar1(x int, s ...string) int { return nsBody(1, x, 0) }

//go:nosplit
func nsFn2(x int) int { return nsBody(2, x, 0) }

//go:nosplit
func nsTwo2(s string, x int) int { return nsBody(2, x, 1) }

//go:nosplit
func (r *nsT) M2(x int) int { return nsBody(2, x, 0) }

//go:nosplit
func nsVar2(x int, s ...string) int { return nsBody(2, x, 0) }

//go:nosplit
func nsFn3(x int) int { return nsBody(3, x, 0) }

//go:nosplit
func nsTwo3(s string, x int) int { return nsBody(3, x, 1) }

//go:nosplit
func (r *nsT) M3(x int) int { return nsBody(3, x, 0) }

//go:nosplit
func nsVar3(x int, s ...string) int { return nsBody(3, x, 0) }

//go:nosplit
func nsFn4(x int) int { return nsBody(4, x, 0) }

//go:nosplit
func nsTwo4(s string, x int) int { return nsBody(4, x, 1) }

//go:nosplit
func (r *nsT) M4(x int) int { return nsBody(4, x, 0) }

//go:nosplit
func nsVar4(x int, s ...string) int { return nsBody(4, x, 0) }

type nsT struct{ A, B int }

var nsRecv = &nsT{77, 50}

var nsKinds = []string{"ns", "ns2", "nsm", "nsv"}

func init() {
	old := kinds
	for i := 1; i <= 4; i++ {
		f := [...]func(int) int{nil, nsFn1, nsFn2, nsFn3, nsFn4}[i]
		add(&Target{Kind: "ns", Idx: i, Mk: func() interface{} { return f }, Call: func(x int) int { return nsDec(f(3 * x)) }})
		f2 := [...]func(string, int) int{nil, nsTwo1, nsTwo2, nsTwo3, nsTwo4}[i]
		add(&Target{Kind: "ns2", Idx: i, Mk: func() interface{} { return f2 }, Call: func(x int) int { return nsDec(f2(EV[string](x, 0), 3*x+1)) }})
		m := [...]func(*nsT, int) int{nil, (*nsT).M1, (*nsT).M2, (*nsT).M3, (*nsT).M4}[i]
		add(&Target{Kind: "nsm", Idx: i, Mk: func() interface{} { return m }, Call: func(x int) int { return nsDec(m(nsRecv, 3*x)) },
			HasRecv: true, Recv: rv(nsRecv)})
		fv := [...]func(int, ...string) int{nil, nsVar1, nsVar2, nsVar3, nsVar4}[i]
		add(&Target{Kind: "nsv", Idx: i, Mk: func() interface{} { return fv }, Call: func(x int) int { return nsDec(fv(3*x, EV[[]string](x, 1)...)) }})
	}
	kinds = old
}

// ---- calls in tight loops and recorded windows of calls

type bulkRec struct {
	Outs  [][]interface{}   `json:"outs"`
	Draws [][][2]int        `json:"draws"`
	Plans [][][]interface{} `json:"plans"`
	Sq    json.RawMessage   `json:"sq"`
	N     []int             `json:"n"`
	K     []int             `json:"k"`
}

// together runs f(0..n-1) on the workers gs at the same time
func (in *interp) together(gs []int, f func(i int)) {
	var ws []*wk.Worker
	for _, g := range gs {
		ws = append(ws, in.ws[g])
	}
	for _, p := range wk.Together(ws, f) {
		if p != nil {
			panic(p)
		}
	}
}

// outcome checks what one call gave and returns the sequence value it got
func (in *interp) bulkOutcome(want []interface{}, v int, p interface{}) (int, string) {
	if m, ok := p.(mismatch); ok {
		return 0, string(m)
	}
	k := want[0].(string)
	switch k {
	case "ok":
		if p != nil || v != ints(want[1]) {
			return 0, fmt.Sprintf("a concurrent call gave %d, panic %v; want result %d", v, p, ints(want[1]))
		}
	case "draw":
		if p != nil {
			return 0, fmt.Sprintf("a concurrent call panicked: %v; want a result", p)
		}
		return v - ints(want[2]), ""
	case "panic":
		if !samePanic(p, ints(want[1])) {
			return 0, fmt.Sprintf("a concurrent call gave %d, panic %v; want the panic of mock %d", v, p, ints(want[1]))
		}
	case "bad":
		if !asserted(p) {
			return 0, fmt.Sprintf("a concurrent call gave %d, panic %v; want a panic about unfit Return values", v, p)
		}
	}
	return 0, ""
}

func (in *interp) bulk(s *step) {
	var b bulkRec
	must(json.Unmarshal(s.Ev, &b))
	gs := make([]int, len(s.O.Qs))
	msgs := make([]string, len(gs))
	counts := make([]map[int]int, len(gs))
	for i, q := range s.O.Qs {
		gs[i] = q.G
		counts[i] = map[int]int{}
	}
	in.together(gs, func(i int) {
		q := s.O.Qs[i]
		for n := 0; n < q.N && msgs[i] == ""; n++ {
			var v int
			p := catch(func() { v = bound[q.F].Call(q.X) })
			var d int
			d, msgs[i] = in.bulkOutcome(b.Outs[i], v, p)
			if b.Outs[i][0] == "draw" {
				counts[i][d]++
			}
			if n&1023 == 0 {
				atomic.AddInt64(&beat, 1)
			}
		}
	})
	for _, m := range msgs {
		if m != "" {
			in.fail("%s", m)
		}
	}
	for q := range b.Draws {
		want, got := map[int]int{}, map[int]int{}
		for _, d := range b.Draws[q] {
			want[d[0]] += d[1]
		}
		for i := range gs {
			if b.Outs[i][0] == "draw" && ints(b.Outs[i][1]) == q+1 {
				for v, n := range counts[i] {
					got[v] += n
				}
			}
		}
		for v, n := range got {
			if n != want[v] {
				in.fail("sequence %d gave the value %d %d times in concurrent calls, want %d times", q+1, v, n, want[v])
			}
		}
		for v, n := range want {
			if n != got[v] {
				in.fail("sequence %d gave the value %d %d times in concurrent calls, want %d times", q+1, v, got[v], n)
			}
		}
	}
}

// a recorded window: events in the order of a global ticket, for ConcTrace.tla
type traceRec struct {
	Line  int               `json:"line"`
	Step  int               `json:"step"`
	Sq    json.RawMessage   `json:"sq"`
	N     []int             `json:"n"`
	K     []int             `json:"k"`
	Plans [][][]interface{} `json:"plans"`
	Ev    [][]interface{}   `json:"ev"` // <<"b"|"e", thread, a, b>>
}

var traces []traceRec

type windowEvent struct {
	at   int64
	kind string
	a, b interface{}
}

func (in *interp) window(s *step, line, at int) {
	var b bulkRec
	must(json.Unmarshal(s.Ev, &b))
	nq := len(s.O.Qs)
	gs := make([]int, nq)
	for i, q := range s.O.Qs {
		gs[i] = q.G
	}
	var readers []int // mocks in effect, read by one more goroutine
	for m := range in.fon {
		readers = append(readers, m)
	}
	if len(readers) > 0 && in.rnd.Intn(3) > 0 {
		gs = append(gs, 8)
	}
	rm, rk := 0, in.rnd.Intn(2)
	if len(readers) > 0 {
		rm = readers[0]
		for _, m := range readers {
			if m > rm {
				rm = m
			}
		}
	}
	var ticket int64
	evs := make([][]windowEvent, len(gs))
	msgs := make([]string, len(gs))
	in.together(gs, func(i int) {
		out := make([]windowEvent, 0, 32)
		tick := func() int64 { return atomic.AddInt64(&ticket, 1) }
		if i == nq {
			mk := in.mk[rm]
			for n := 0; n < 6; n++ {
				t0 := tick()
				v := 0
				if rk == 0 {
					v = mk.m.Times()
				} else {
					v = mk.m.MockTimes()
				}
				t1 := tick()
				out = append(out, windowEvent{t0, "b", rm, rk}, windowEvent{t1, "e", v, 0})
				for k := 0; k < 200*n; k++ {
					atomic.LoadInt64(&ticket)
				}
			}
			evs[i] = out
			return
		}
		q := s.O.Qs[i]
		for n := 0; n < q.N && msgs[i] == ""; n++ {
			var v int
			t0 := tick()
			p := catch(func() { v = bound[q.F].Call(q.X) })
			t1 := tick()
			var d int
			d, msgs[i] = in.bulkOutcome(b.Outs[i], v, p)
			out = append(out, windowEvent{t0, "b", 0, 0}, windowEvent{t1, "e", d, 0})
		}
		evs[i] = out
	})
	for _, m := range msgs {
		if m != "" {
			in.fail("%s", m)
		}
	}
	tr := traceRec{Line: line, Step: at, Sq: b.Sq, N: b.N, K: b.K, Plans: b.Plans}
	all := make([][]interface{}, ticket+1)
	for i := range evs {
		for _, e := range evs[i] {
			all[e.at] = []interface{}{e.kind, i + 1, e.a, e.b}
		}
	}
	for _, e := range all {
		if e != nil {
			tr.Ev = append(tr.Ev, e)
		}
	}
	traces = append(traces, tr)
}
