package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"syscall"
	"unsafe"

	"github.com/bytedance/mockey"
)

// ---- patching of functions made of chosen instructions at chosen places (CodePatch.tla)

type cpOp struct {
	Op string
	F  string
	P  int
}
type cpLine struct {
	A, B   []int
	Ra, Rb int
	Unsafe bool
	Edge   int
	Ops    []cpOp
}

func init() { modes["codepatch"] = func() { inWorker(codepatchMode) } }

// cpIns gives an instruction of n bytes, and what it does to RAX (argument and result of a func(int) int)
func cpIns(n int, rnd *rand.Rand) ([]byte, func(int) int) {
	same := func(x int) int { return x }
	imm := func(k int) ([]byte, int) {
		v := rnd.Intn(1 << 20)
		if k == 1 {
			v = rnd.Intn(100)
		}
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(v >> (8 * i))
		}
		return b, v
	}
	switch n {
	case 1:
		return []byte{0x90}, same
	case 2:
		if rnd.Intn(2) == 0 {
			return []byte{0x31, 0xc0}, func(int) int { return 0 }
		}
		return []byte{0x66, 0x90}, same
	case 3:
		if rnd.Intn(4) == 0 {
			return []byte{0x48, 0xf7, 0xd8}, func(x int) int { return -x }
		}
		return []byte{0x48, 0xff, 0xc0}, func(x int) int { return x + 1 }
	case 4:
		b, v := imm(1)
		return append([]byte{0x48, 0x83, 0xc0}, b...), func(x int) int { return x + v }
	case 5:
		return []byte{0x0f, 0x1f, 0x44, 0x00, 0x00}, same
	case 6:
		b, v := imm(4)
		return append([]byte{0x48, 0x05}, b...), func(x int) int { return x + v }
	case 7:
		b, v := imm(4)
		return append([]byte{0x48, 0x81, 0xc0}, b...), func(x int) int { return x + v }
	case 8:
		return []byte{0x0f, 0x1f, 0x84, 0x00, 0, 0, 0, 0}, same
	case 9:
		return []byte{0x66, 0x0f, 0x1f, 0x84, 0x00, 0, 0, 0, 0}, same
	case 10:
		b, v := imm(8)
		return append([]byte{0x48, 0xb8}, b...), func(int) int { return v }
	}
	panic("no instruction")
}

func cpCode(lens []int, ret int, rnd *rand.Rand) (b []byte, f func(int) int) {
	f = func(x int) int { return x }
	for _, n := range lens {
		c, g := cpIns(n, rnd)
		b = append(b, c...)
		h := f
		f = func(x int) int { return g(h(x)) }
	}
	switch ret {
	case 1:
		b = append(b, 0xc3)
	case 2:
		b = append(b, 0xf3, 0xc3)
	case 3:
		b = append(b, 0xc2, 0, 0)
	}
	return
}

// cpMem is some memory for code, with inaccessible pages before and after
type cpMem struct {
	all, b []byte
}

var cpRegion *cpMem

const cpPages = 2

func cpAlloc() *cpMem {
	ps := os.Getpagesize()
	b, err := syscall.Mmap(-1, 0, (cpPages+2)*ps, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	must(err)
	return &cpMem{b, b[ps : (cpPages+1)*ps]}
}
func (m *cpMem) prot(p int)    { must(syscall.Mprotect(m.b, p)) }
func (m *cpMem) base() uintptr { return uintptr(unsafe.Pointer(&m.b[0])) }

// check compares the protection of all pages: executable, not writable
func (m *cpMem) check() string {
	lo, hi := m.base(), m.base()+uintptr(len(m.b))
	for _, x := range maps() {
		if x.hi <= lo || x.lo >= hi {
			continue
		}
		if x.perm != "r-xp" || x.lo < lo || x.hi > hi {
			return fmt.Sprintf("the code at %#x is mapped %s", x.lo, x.perm)
		}
		lo = x.hi
	}
	if lo != hi {
		return "code is not mapped"
	}
	return ""
}

func codepatchMode() {
	lines(func(line int, text []byte) bool {
		var l cpLine
		must(json.Unmarshal(text, &l))
		rnd := lineRand(line, 0)
		at := 0
		run := func(edge, place int) interface{} {
			rep.Steps++
			progress(fmt.Sprintf("%d 0 %d patch", line, at))
			at++
			return catch(func() { (&cpRun{l: &l, rnd: rnd, edge: edge, place: place, line: line}).run() })
		}
		rep.Behaviours++
		edges := []int{l.Edge}
		if len(l.Ops) <= 1 { // all places relative to a page boundary, and the end of the mapping
			edges = []int{999, -999}
			for e := 0; e <= 20; e++ {
				edges = append(edges, e)
			}
		}
		for _, e := range edges {
			if p := run(e, rnd.Intn(3)); p != nil {
				f, ok := p.(failure)
				if !ok {
					f.What = fmt.Sprintf("panic %T %v", p, p)
				}
				rep.Fail = &failRec{Line: line, Step: at - 1, What: fmt.Sprintf("instructions of %v bytes and a return of %d, page boundary at %d, unsafe %v: %s", l.A, l.Ra, e, l.Unsafe, f.What)}
				return false
			}
		}
		if line%16 == 0 {
			if msg := textDiff(nil); msg != "" {
				rep.Fail = &failRec{Line: line, What: msg}
				return false
			}
			idleGC()
		}
		return true
	})
}

type cpMock struct {
	f      string
	m      *mockey.Mocker
	cut    int
	origin func(int) int
}

type cpRun struct {
	l     *cpLine
	rnd   *rand.Rand
	edge  int // bytes of A before the page boundary; 999: far from one; -999: at the end of the memory
	place int
	line  int

	code    map[string][]byte
	sem     map[string]func(int) int
	at      map[string]int // where, in the memory
	want    []byte
	mocks   []*cpMock // all, from 1
	stack   map[string][]int
	scopes  [][]int
	handle  *interp
	pages0  int
	rejectA bool
}

func (r *cpRun) fail(f string, a ...interface{}) { panic(failure{What: fmt.Sprintf(f, a...)}) }

func (r *cpRun) fn(f string) func(int) int {
	p := &struct{ a uintptr }{cpRegion.base() + uintptr(r.at[f])}
	return *(*func(int) int)(unsafe.Pointer(&p))
}

func (r *cpRun) pages() int {
	msg, n := protections()
	if msg != "" {
		r.fail("%s", msg)
	}
	return n
}

func (r *cpRun) run() {
	if cpRegion == nil {
		cpRegion = cpAlloc()
	}
	m := cpRegion
	ps := len(m.b) / cpPages
	r.code, r.sem, r.at, r.stack = map[string][]byte{}, map[string]func(int) int{}, map[string]int{}, map[string][]int{}
	r.code["A"], r.sem["A"] = cpCode(r.l.A, r.l.Ra, r.rnd)
	r.code["B"], r.sem["B"] = cpCode(r.l.B, r.l.Rb, r.rnd)
	all := append(append([]byte{}, r.code["A"]...), r.code["B"]...)
	switch r.edge {
	case 999:
		r.at["A"] = 100 + r.rnd.Intn(1000)
	case -999:
		if r.l.Unsafe || len(r.l.Ops) > 1 {
			r.at["A"] = len(m.b) - len(all)
		} else { // nothing after A
			r.at["A"] = len(m.b) - len(r.code["A"])
			all = r.code["A"]
		}
	default:
		r.at["A"] = ps - r.edge
	}
	r.at["B"] = r.at["A"] + len(r.code["A"])
	m.prot(syscall.PROT_READ | syscall.PROT_WRITE)
	for i := range m.b {
		m.b[i] = 0x90
	}
	copy(m.b[r.at["A"]:], all)
	m.prot(syscall.PROT_READ | syscall.PROT_EXEC)
	r.want = append([]byte{}, m.b...)
	r.mocks = []*cpMock{nil}
	r.scopes = [][]int{nil}
	r.handle = &interp{rnd: r.rnd, cover: rep.Cover}
	r.pages0 = r.pages()
	defer func() {
		if p := recover(); p != nil { // leave nothing behind
			catch(func() {
				for len(r.handle.scopes) > 0 {
					r.handle.exit("ret")
				}
				mockey.UnPatchAll()
			})
			panic(p)
		}
	}()
	r.view("before")
	ops := r.l.Ops
	for i := range ops {
		r.op(&ops[i])
		r.view(fmt.Sprintf("after operation %d (%s %s)", i+1, ops[i].Op, ops[i].F))
	}
	for len(r.handle.scopes) > 0 {
		r.op(&cpOp{Op: "exit"})
		r.view("after exit")
	}
	for len(r.scopes[0]) > 0 {
		r.op(&cpOp{Op: "unpatch", P: r.scopes[0][r.rnd.Intn(len(r.scopes[0]))]})
		r.view("after the last removals")
	}
	if string(m.b) != string(r.want) {
		r.fail("at the end the code is not as before")
	}
	if n := r.pages(); n != r.pages0 {
		r.fail("%d pages of code are still allocated", n-r.pages0)
	}
}

func (r *cpRun) drop(p int) {
	k := r.mocks[p]
	var st []int
	for i, q := range r.stack[k.f] {
		if q != p {
			st = append(st, q)
		} else if i == 0 && len(r.stack[k.f]) > 1 {
			r.mocks[r.stack[k.f][1]].cut = k.cut // the next one has the original instructions now
		}
	}
	r.stack[k.f] = st
	for s := range r.scopes {
		var q []int
		for _, x := range r.scopes[s] {
			if x != p {
				q = append(q, x)
			}
		}
		r.scopes[s] = q
	}
}

const cpJump = 12

// cut is where whole instructions of f end that cover a jump
func (r *cpRun) cut(f string) int {
	lens := r.l.A
	if f == "B" {
		lens = r.l.B
	}
	n := 0
	for _, l := range lens {
		if n >= cpJump {
			return n
		}
		n += l
	}
	if n >= cpJump {
		return n
	}
	n += r.l.Ra // unsafe: what follows
	for _, l := range r.l.B {
		if n >= cpJump {
			break
		}
		n += l
	}
	return n
}

func (r *cpRun) op(o *cpOp) {
	rep.Cover["code/"+o.Op]++
	switch o.Op {
	case "enter":
		r.handle.enter()
		r.scopes = append(r.scopes, nil)
	case "exit":
		for _, p := range append([]int{}, r.scopes[len(r.scopes)-1]...) {
			r.drop(p)
		}
		r.handle.exit([]string{"ret", "panic", "goexit"}[r.rnd.Intn(3)])
		r.scopes = r.scopes[:len(r.scopes)-1]
	case "unpatch":
		r.mocks[o.P].m.UnPatch()
		r.drop(o.P)
	case "patch", "reject":
		f := r.fn(o.F)
		k := &cpMock{f: o.F, cut: r.cut(o.F)}
		if len(r.stack[o.F]) > 0 {
			k.cut = cpJump
		}
		id := len(r.mocks)
		p := catch(func() {
			var b *mockey.MockBuilder
			if r.l.Unsafe {
				b = mockey.MockUnsafe(f)
			} else {
				b = mockey.Mock(f)
			}
			k.m = b.Origin(&k.origin).To(func(x int) int { return k.origin(x) + 1000000*id }).Build()
		})
		if o.Op == "reject" {
			if p == nil {
				r.fail("a function too short for a jump was patched")
			}
			return
		}
		if p != nil {
			r.fail("Build panicked: %v", p)
		}
		r.mocks = append(r.mocks, k)
		r.stack[o.F] = append(r.stack[o.F], id)
		r.scopes[len(r.scopes)-1] = append(r.scopes[len(r.scopes)-1], id)
	}
}

// view compares memory, protection, and what calls do
func (r *cpRun) view(when string) {
	m := cpRegion
	for i := range m.b {
		if m.b[i] == r.want[i] {
			continue
		}
		ok := false
		for _, f := range []string{"A", "B"} {
			if st := r.stack[f]; len(st) > 0 && i >= r.at[f] && i < r.at[f]+r.mocks[st[0]].cut {
				ok = true
			}
		}
		if !ok {
			r.fail("%s: byte %d of A (at %#x) is %#x, was %#x; mocks in effect: A %v, B %v", when, i-r.at["A"], m.base()+uintptr(i), m.b[i], r.want[i], r.stack["A"], r.stack["B"])
		}
	}
	if msg := m.check(); msg != "" {
		r.fail("%s: %s", when, msg)
	}
	if n, k := r.pages()-r.pages0, len(r.stack["A"])+len(r.stack["B"]); k == 0 && n != 0 {
		r.fail("%s: %d pages of code are allocated, but no mock is in effect", when, n)
	}
	for _, f := range []string{"A", "B"} {
		if f == "B" && (len(r.l.Ops) <= 1 && (r.edge == -999 || r.l.Unsafe && len(r.stack["A"]) > 0)) {
			continue // not there
		}
		x := r.rnd.Intn(1000)
		w := r.sem[f](x)
		for _, p := range r.stack[f] {
			w += 1000000 * p
		}
		if got := r.fn(f)(x); got != w {
			r.fail("%s: %s(%d) is %d, want %d (mocks in effect: %v)", when, f, x, got, w, r.stack[f])
		}
	}
}

var _ = strings.Contains
