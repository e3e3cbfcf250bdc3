package main

import (
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockey/zverif/wk"
)

// Mocks are made while whoever reads the program's output is slow: the process must not stop working.

func init() {
	modes["slowreader"] = func() {
		b := make([]byte, 60000)
		for {
			if n, err := os.Stdin.Read(b); n <= 0 || err != nil {
				os.Exit(0)
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
	for i := 1; i <= 8; i++ {
		scenarios[fmt.Sprintf("slow-output-%d", i)] = slowOutput
	}
}

func slowOutput() string {
	r, w, err := os.Pipe()
	must(err)
	c := exec.Command(os.Args[0], "-mode", "slowreader", "-out", "/dev/null")
	c.Stdin = r
	must(c.Start())
	r.Close()
	must(syscall.Dup2(int(w.Fd()), 1))
	w.Close()
	debug.SetGCPercent(100)
	stop := wk.Busy(4)
	bad := ""
	for i := 0; i < 3000 && bad == ""; i++ {
		m := mockey.Mock(slowTarget).Return(i).Build()
		if v := slowTarget(1); v != i {
			bad = fmt.Sprintf("mock %d: the call gives %d", i, v)
		}
		m.UnPatch()
		if v := slowTarget(1); bad == "" && v != 1001 {
			bad = fmt.Sprintf("after mock %d: the call gives %d", i, v)
		}
	}
	atomic.StoreInt32(stop, 1)
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	must(err)
	must(syscall.Dup2(int(null.Fd()), 1))
	c.Process.Kill()
	c.Wait()
	return bad
}

//go:nosplit
//go:noinline
func slowTarget(x int) int { return 1000 + x }
