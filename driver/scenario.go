package main

import (
	"fmt"
	"os"
	"runtime/debug"

	"github.com/bytedance/mockey"
)

// Single programs, each run in a process of its own. They return what fails, or "".
var scenarios = map[string]func() string{}

func init() { modes["scenario"] = scenarioMode }

func scenarioMode() {
	f := scenarios[*flagName]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no scenario", *flagName)
		os.Exit(2)
	}
	rep.Behaviours, rep.Steps = 1, 1
	if what := f(); what != "" {
		rep.Fail = &failRec{What: what}
	}
}

// ---- C05: calls of originals that do not work (known-findings.txt)

func scBig(x int) int {
	var a [20000]byte
	for i := range a {
		a[i] = byte(x)
	}
	return 1000 + x + int(a[x%20000]) - int(byte(x))
}

var scRan int

func scTail() { scRan += 7 }

func scWrap() { scTail() }

type scRecv struct{ n int }

func (r *scRecv) M(x int) int {
	if x > 0 {
		return scOther.M(0) + x
	}
	return r.n
}

var scOther *scRecv

func init() {
	scenarios["origin-stack-growth"] = func() string {
		var org func(int) int
		m := mockey.Mock(scBig).To(func(x int) int { return org(x) + 1 }).Origin(&org).Build()
		res := make(chan int)
		go func() { res <- scBig(4) }()
		if v := <-res; v != 1005 || m.Times() != 1 {
			return fmt.Sprintf("the original of a function that has to grow the stack: result %d after %d calls of the mock, want 1005 after 1", v, m.Times())
		}
		return ""
	}
	scenarios["origin-relative-call"] = func() string {
		var org func()
		mockey.Mock(scWrap).To(func() { org(); scRan++ }).Origin(&org).Build()
		scWrap()
		if scRan != 8 {
			return fmt.Sprintf("the original of a function that begins with a call: effect %d, want 8", scRan)
		}
		return ""
	}
	scenarios["origin-closure"] = func() string {
		k, s := 40, "abc"
		f := func(x int) int { k++; return x + k + len(s) }
		var org func(int) int
		mockey.Mock(f).To(func(x int) int { return org(x) + 1 }).Origin(&org).Build()
		if v := f(5); v != 50 {
			return fmt.Sprintf("the original of a capturing closure: result %d, want 50", v)
		}
		return ""
	}
	scenarios["origin-other-receiver"] = func() string {
		a, b := &scRecv{100}, &scRecv{200}
		scOther = b
		var org func(int) int
		mockey.Mock((*scRecv).M).To(func(x int) int {
			if x > 0 {
				b.M(0)
			}
			return org(0)
		}).Origin(&org).Build()
		if v := a.M(1); v != 100 {
			return fmt.Sprintf("a receiver-less origin called after a nested call with another receiver: result %d, want 100", v)
		}
		return ""
	}
	// C16
	scenarios["origin-other-instance"] = func() string {
		var org func(*int, int) int
		mockey.MockGeneric(scInst[*int]).To(func(a *int, n int) int {
			if n > 0 {
				scInst[*string](nil, 0)
			}
			return org(nil, 0)
		}).Origin(&org).Build()
		if v := scInst[*int](nil, 1); v != 1 {
			return fmt.Sprintf("the origin function of a generic mock called after a nested call of another instantiation with the same code: ran instantiation %d, want 1", v)
		}
		return ""
	}
	// C15
	scenarios["method-in-interface-pointer"] = func() string {
		o := scOuter{&scInner{}}
		mockey.Mock(mockey.GetMethod(o, "Named")).Return(5).Build()
		if v, w := (scInner{}).Named(), o.Named(); v != 5 || w != 5 {
			return fmt.Sprintf("the mock of a method with value receiver, found by GetMethod in an embedded interface that holds a pointer: direct call %d, call through the interface %d, want 5", v, w)
		}
		return ""
	}
	scenarios["method-behind-nil"] = func() string {
		mockey.Mock(mockey.GetMethod(scNilOuter{}, "Stars")).Return(5).Build()
		if v := (scNilOuter{}).Stars(); v != 5 {
			return fmt.Sprintf("the mock of a method of a nil embedded pointer found by GetMethod: result %d, want 5", v)
		}
		return ""
	}
	scenarios["method-cycle"] = func() string {
		debug.SetMaxStack(1 << 24)
		a, b := &scCycle{}, &scCycle{}
		a.scCycle, b.scCycle = b, a
		if p := catch(func() { mockey.GetMethod(a, "Unknown") }); p == nil {
			return "GetMethod of an unknown method does not panic"
		}
		mockey.Mock(mockey.GetMethod(a, "Around")).Return(5).Build()
		if v := b.Around(); v != 5 {
			return fmt.Sprintf("the mock of a method of a cyclic instance: result %d, want 5", v)
		}
		return ""
	}
	// C09
	scenarios["remock-inside-generic"] = func() (what string) {
		mockey.PatchConvey("c", &fakeT{}, func() { what = scRemock[int]() })
		return
	}
}

type scNamed interface{ Named() int }
type scOuter struct{ scNamed }
type scInner struct{ a, b int }

func (s scInner) Named() int { return s.a }

type scNilOuter struct{ *scInner2 }
type scInner2 struct{ a int }

func (s *scInner2) Stars() int { use(s); return 1 }

type scCycle struct {
	a int
	*scCycle
}

func (s *scCycle) Around() int { return s.a }

func scInst[T any](a T, n int) int {
	use(any(a))
	switch any(&a).(type) {
	case **int:
		return 1
	case **string:
		return 2
	}
	return 3
}

func scRemock[T any]() string {
	m := mockey.MockGeneric(scInst[T]).Return(1).Build()
	if p := catch(func() { mockey.MockGeneric(scInst[T]).Return(2).Build() }); p == nil {
		return "a second mock of a generic function in the same context, with type arguments of surrounding generic code, was not rejected"
	}
	m.UnPatch()
	return ""
}
