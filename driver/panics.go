package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
)

// ---- what hooks, conditions and originals panic with

type (
	hookPanic struct{ m int }
	hookError struct {
		m   int
		err error
	}
	hookRuntime struct{ m int } // looks like a runtime error
	hookNumber  int
)

func (e *hookError) Error() string  { return fmt.Sprint("hook error ", e.m, e.err) }
func (e *hookError) Unwrap() error  { return e.err }
func (hookRuntime) Error() string   { return "hook runtime error" }
func (e hookRuntime) RuntimeError() {}

// panicVals has what mock m panics with; 0: what originals panic with
var panicVals [256]interface{}

func setPanics(r *rand.Rand) {
	for m := range panicVals {
		switch r.Intn(9) {
		case 0:
			panicVals[m] = hookPanic{m}
		case 1:
			panicVals[m] = &hookPanic{m}
		case 2:
			panicVals[m] = &hookError{m, errors.New("inner")}
		case 3:
			panicVals[m] = errors.New(fmt.Sprint("hook panic ", m))
		case 4:
			panicVals[m] = fmt.Sprint("hook panic ", m)
		case 5:
			panicVals[m] = fmt.Errorf("hook panic %d: %w", m, &hookError{m, nil})
		case 6:
			panicVals[m] = hookRuntime{m}
		case 7:
			panicVals[m] = hookNumber(m)
		case 8:
			panicVals[m] = []interface{}{"hook panic", m}
		}
	}
}

func panicVal(m int) interface{} { return panicVals[m%len(panicVals)] }

// samePanic tells whether p is the very value that mock m panics with
func samePanic(p interface{}, m int) bool {
	w := panicVal(m)
	a, b := reflect.ValueOf(p), reflect.ValueOf(w)
	if !a.IsValid() || a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr:
		return a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.Pointer() == b.Pointer() && a.Len() == b.Len()
	}
	return p == w
}
