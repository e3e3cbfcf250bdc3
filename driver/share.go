package main

import (
	"flag"
	"fmt"
	"reflect"

	"github.com/bytedance/mockey"
)

// ---- behaviours on instantiations that share code

var flagSharing = flag.Bool("sharing", false, "bind the functions to instantiations of one generic function each")

type adFloat float64

var shareFams = map[string]map[reflect.Type]int{}

func addShare(key reflect.Type, t *Target) {
	add(t)
	if shareFams[t.Kind] == nil {
		shareFams[t.Kind] = map[reflect.Type]int{}
	}
	if shareFams[t.Kind][key] != 0 {
		panic("two equal instantiations of " + t.Kind)
	}
	shareFams[t.Kind][key] = t.Idx
}

// shareBody is the original code of an instantiation, it learns which one from its type arguments
func shareBody(fam string, key interface{}, variadic bool, recv interface{}, args ...interface{}) int {
	f := shareFams[fam][reflect.TypeOf(key)]
	if f == 0 {
		panic(mismatch(fmt.Sprintf("original code of %s ran with type arguments that nobody used: %T", fam, key)))
	}
	return body(f, variadic, recv, args...)
}

// callee is the function being called, which may be another instantiation than the one that is mocked
var calleeF int

func (t *Target) callee() *Target {
	if *flagSharing && calleeF != 0 && bound[calleeF].Kind == t.Kind {
		return bound[calleeF]
	}
	return t
}

var infoSeen = map[*Target]mockey.GenericInfo{}

// checkInfo compares the GenericInfo of instantiations of one function
func (t *Target) checkInfo(g mockey.GenericInfo, what string) {
	if !*flagSharing {
		return
	}
	infoSeen[t] = g
	for f := 1; f <= 4; f++ {
		if h, ok := infoSeen[bound[f]]; ok && bound[f].entry == t.entry && h.Equal(g) != (bound[f] == t) {
			panic(mismatch(fmt.Sprintf("%s: GenericInfo of calls of %s %d and %d: Equal is %v", what, t.Kind, t.Idx, f, h.Equal(g))))
		}
	}
}
