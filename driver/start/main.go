// A small program that mocks a function and a variable, for Startup.tla: what it prints is compared with the specification.
package main

import (
	"fmt"
	"os"

	"github.com/bytedance/mockey"
)

var sink, value = 0, 3

//go:noinline
func target(x int) int {
	if x > 100 {
		sink += x
		fmt.Println("target", x)
	}
	return x + sink + 1
}

func main() {
	m := mockey.Mock(target).When(func(x int) bool { return x < 5 }).Return(70).Build()
	v := mockey.MockValue(&value).To(30)
	res := []int{target(1), target(2), m.Times(), value}
	m.UnPatch()
	v.UnPatch()
	res = append(res, target(1), value)
	// files, as mockey may print to the standard ones
	if err := os.WriteFile(os.Args[1], []byte(fmt.Sprint(res)), 0o600); err != nil {
		panic(err)
	}
}
