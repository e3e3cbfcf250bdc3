package main

import (
	"fmt"
	"runtime"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zverif/wk"
	"github.com/smartystreets/goconvey/convey"
)

// ---- trees of contexts on one goroutine (Convey.tla)

// treeWalk executes the steps of one root: the bodies of its contexts are closures that take the steps from the list in
// the order in which they get to run. What ran too much or too little shows as a step that is not the next one.
type treeWalk struct {
	in    *interp
	t     *fakeT
	steps []step
	i     int
	stop  interface{} // failure that ended the walk
}

// root executes the steps from i, which is the start of a root, and returns the number of the step after it
func (in *interp) root(steps []step, i int) int {
	w := &treeWalk{in: in, t: &fakeT{}, steps: steps, i: i}
	o := &steps[i].O
	w.i++
	how := "goexit"
	var p interface{}
	left := wk.Go(func() {
		p = catch(func() {
			w.context(o, true)
			how = "ret"
		})
		if p != nil {
			how = "err"
		}
	})
	wait(left, "PatchConvey does not end")
	if w.stop != nil {
		panic(w.stop)
	}
	w.sync()
	if s := w.next("cvdone"); s.O.How != how {
		in.fail("the contexts were left by %s %v, want %s", how, p, s.O.How)
	}
	return w.i
}

func (w *treeWalk) die(f string, a ...interface{}) {
	w.abort(failure{What: fmt.Sprintf(f, a...)})
}

// abort ends the goroutine: a panic would be recovered by goconvey
func (w *treeWalk) abort(p interface{}) {
	if w.stop == nil {
		w.stop = p
	}
	runtime.Goexit()
}

func (w *treeWalk) check(f func()) {
	if p := catch(f); p != nil {
		w.abort(p)
	}
}

func (w *treeWalk) next(op string) *step {
	if w.stop != nil {
		runtime.Goexit()
	}
	if w.i >= len(w.steps) || w.steps[w.i].O.Op != op {
		at := "the end"
		if w.i < len(w.steps) {
			at = fmt.Sprintf("%s of context %d", w.steps[w.i].O.Op, w.steps[w.i].O.F)
		}
		w.die("got to %s, want %s", op, at)
	}
	s := &w.steps[w.i]
	w.in.at = w.i
	w.in.note(op + "/" + s.O.How)
	progress(fmt.Sprintf("%d %d %d %s", w.in.line, w.in.rep, w.i, op))
	rep.Steps++
	w.i++
	return s
}

// sync compares the state with that after the contexts that have been left
func (w *treeWalk) sync() {
	var last *step
	for w.i < len(w.steps) && w.steps[w.i].O.Op == "cvout" {
		last = w.next("cvout")
	}
	if last != nil {
		w.in.setOn(last)
		w.check(func() { w.in.view(&last.Vw) })
	}
}

func (w *treeWalk) context(o *opRec, root bool) {
	rnd := w.in.rnd
	items := []interface{}{fmt.Sprintf("context %d", o.F)}
	if root {
		items = append(items, w.t)
	}
	var kind, mode string
	fmt.Sscan(o.How, &kind, &mode)
	switch {
	case mode == "cont":
		items = append(items, convey.FailureContinues)
	case mode == "halt":
		items = append(items, convey.FailureHalts)
	case rnd.Intn(4) == 0:
		items = append(items, convey.FailureInherits)
	}
	if rnd.Intn(6) == 0 {
		items = append(items, convey.StackFail)
	}
	switch {
	case kind == "nil":
		items = append(items, nil)
	case rnd.Intn(3) == 0:
		items = append(items, func(c convey.C) { w.body(o.F, c) })
	default:
		items = append(items, func() { w.body(o.F, nil) })
	}
	if kind == "plain" {
		convey.Convey(items...)
	} else {
		mockey.PatchConvey(items...)
	}
}

func (w *treeWalk) body(n int, c convey.C) {
	w.sync() // when the root is executed again
	w.entered(n)
	w.run(n, c)
}

func (w *treeWalk) entered(n int) {
	s := w.next("cvin")
	if s.O.F != n {
		w.die("context %d started, want %d", n, s.O.F)
	}
	w.in.setOn(s)
	w.check(func() { w.in.view(&s.Vw) })
}

// run takes steps until the function it is called by ends
func (w *treeWalk) run(n int, c convey.C) {
	for {
		if w.stop != nil {
			runtime.Goexit()
		}
		if w.i >= len(w.steps) {
			w.die("the function of context %d goes on", n)
		}
		s := &w.steps[w.i]
		switch s.O.Op {
		case "cvcall":
			w.next("cvcall")
			w.context(&s.O, false)
			w.sync()
			if b := w.next("cvback"); b.O.F != s.O.F {
				w.die("got back from context %d, want %d", s.O.F, b.O.F)
			}
		case "cvreset":
			w.next("cvreset")
			at := s.O.X
			act := func() {
				w.sync()
				if b := w.next("cvrun"); b.O.F != n || b.O.X != at {
					w.die("Reset action %d of context %d runs, want %d of %d", at, n, b.O.X, b.O.F)
				}
				w.run(n, nil)
			}
			if c != nil && w.in.rnd.Intn(2) == 0 {
				c.Reset(act)
			} else {
				convey.Reset(act)
			}
		case "cvso":
			w.next("cvso")
			if c != nil && w.in.rnd.Intn(2) == 0 {
				c.So(1, convey.ShouldEqual, 2)
			} else {
				convey.So(1, convey.ShouldEqual, 2)
			}
		case "cvend":
			w.next("cvend")
			switch s.O.How {
			case "ret":
				return
			case "panic":
				panic(fmt.Sprintf("function of context %d panics", n))
			case "goexit":
				runtime.Goexit()
			case "err":
				if w.in.rnd.Intn(2) == 0 {
					mockey.PatchConvey("no action")
				}
				mockey.PatchConvey("second T", w.t, func() { w.die("a context that goconvey rejects was executed") })
				w.die("goconvey accepted a second T")
			}
		case "cvin", "cvout", "cvback", "cvrun", "cvdone":
			w.die("the function of context %d goes on, want %s of context %d", n, s.O.Op, s.O.F)
		default:
			w.in.at = w.i
			progress(fmt.Sprintf("%d %d %d %s", w.in.line, w.in.rep, w.i, s.O.Op))
			rep.Steps++
			w.check(func() { w.in.run(s) })
			w.i++
		}
	}
}
