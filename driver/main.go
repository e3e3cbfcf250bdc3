package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/bytedance/mockey/zverif/wk"
	"github.com/smartystreets/goconvey/convey"
)

var (
	flagIn    = flag.String("in", "", "behaviours, one JSON array per line")
	flagOut   = flag.String("out", "", "report (JSON)")
	flagSeed  = flag.Int64("seed", 1, "seed for the choice of concrete functions and forms")
	flagFrom  = flag.Int("from", 0, "first behaviour (line, from 0)")
	flagTo    = flag.Int("to", 1<<30, "behaviour to stop before")
	flagKinds = flag.String("kinds", "", "comma separated target kinds to use (default all)")
	flagDeep  = flag.Bool("deep", false, "compare all code after every step")
	flagMode  = flag.String("mode", "replay", "what to do")
	flagProg  = flag.String("progress", "", "file that names the behaviour and step being executed")
	flagBase  = flag.Int("base", 0, "number of the first behaviour in the run that recorded it")
	flagName  = flag.String("name", "", "scenario")
	flagReps  = flag.Int("reps", 1, "bindings per behaviour")
)

type report struct {
	Behaviours int            `json:"behaviours"`
	Steps      int            `json:"steps"`
	Cover      map[string]int `json:"cover"`
	Kinds      map[string]int `json:"kinds"`
	Fail       *failRec       `json:"fail,omitempty"`
	Extra      interface{}    `json:"extra,omitempty"`
	Traces     []traceRec     `json:"traces,omitempty"`
	Done       bool           `json:"done"`
}
type failRec struct {
	Line  int               `json:"line"`
	Rep   int               `json:"rep"`
	Step  int               `json:"step"`
	What  string            `json:"what"`
	Bound []string          `json:"bound"`
	Ops   []json.RawMessage `json:"ops,omitempty"`
}

var rep = report{Cover: map[string]int{}, Kinds: map[string]int{}}

var beat int64 // increases with every step, for the watchdog
var where atomic.Value

func progress(s string) {
	where.Store(s)
	atomic.AddInt64(&beat, 1)
	if progFile != nil {
		progFile.WriteAt([]byte(fmt.Sprintf("%-60s\n", s)), 0)
	}
}

var progFile *os.File

func finish() {
	b, err := json.Marshal(rep)
	must(err)
	must(os.WriteFile(*flagOut, b, 0o644))
}

func main() {
	flag.Parse()
	convey.SuppressConsoleStatistics()
	if *flagProg != "" {
		progFile, _ = os.Create(*flagProg)
	}
	where.Store("start")
	// goroutines get larger numbers the longer a program runs
	for n := []int{0, 300, 70000}[*flagSeed%3]; n > 0; n-- {
		ended := make(chan bool)
		go close(ended)
		<-ended
	}
	wk.Watch(&beat, &where)
	initText()
	sort.Strings(kinds)
	f := modes[*flagMode]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no mode", *flagMode)
		os.Exit(2)
	}
	f()
	rep.Done = true
	if len(traces) > 0 {
		rep.Traces = traces
	}
	finish()
}

var modes = map[string]func(){"replay": replayMode}

func useKinds() []string {
	if *flagKinds == "" {
		return kinds
	}
	return strings.Split(*flagKinds, ",")
}

// A call of an original function through a mock must not be preempted (see known-findings.txt), so there is no garbage
// collection except between behaviours and where a behaviour asks for one, while no such call is running.
func idleGC() {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 200<<20 {
		runtime.GC()
	}
}

func replayMode() {
	debug.SetGCPercent(-1)
	f, err := os.Open(*flagIn)
	must(err)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for line := 0; sc.Scan(); line++ {
		if line < *flagFrom {
			continue
		}
		if line >= *flagTo {
			break
		}
		for r := 0; r < *flagReps; r++ {
			rep.Behaviours++
			if f := replay(line, r, sc.Bytes()); f != nil {
				rep.Fail = f
				return
			}
			if rep.Behaviours%8 == 0 {
				idleGC()
			}
		}
	}
	must(sc.Err())
}

func replay(line, r int, text []byte) (fl *failRec) {
	var steps []step
	must(json.Unmarshal(text, &steps))
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%d/%d", *flagSeed, line+*flagBase, r)
	rnd := rand.New(rand.NewSource(int64(h.Sum64())))
	in := &interp{rnd: rnd, cover: rep.Cover, deep: *flagDeep, mk: make([]*mocker, 1), vmk: make([]*vmocker, 1)}
	ks, ng := useKinds(), 3
	same := false // a sequence is shared by different functions: they must have the same result types
	for i := range steps {
		if steps[i].O.G > 3 {
			ng = 8
		}
		if steps[i].O.Op == "conc" {
			in.onlyX = true
		}
		if steps[i].O.Op == "bulk" || steps[i].O.Op == "window" {
			in.onlyX = true
			ks = nsKinds
			ng = 8
		}
		if steps[i].O.Op == "seqnew" && steps[i].O.F == 0 {
			same = true
		}
	}
	var names []string
	for f := 1; f <= 4; f++ {
		for {
			k := ks[rnd.Intn(len(ks))]
			if (same || *flagSharing) && f > 1 {
				k = bound[1].Kind
			}
			if same && *flagSharing && !(sameOuts(targets[k][1].typ(), targets[k][2].typ()) && sameOuts(targets[k][1].typ(), targets[k][3].typ()) && sameOuts(targets[k][1].typ(), targets[k][4].typ())) {
				continue // one Go sequence cannot have two types
			}
			if t := targets[k][f]; !(in.onlyX && (t.Amb || k == "variad2")) {
				bound[f] = t
				break
			}
		}
		names = append(names, bound[f].Kind)
	}
	vks := varKinds
	if len(steps[0].Vw.V) == 4 {
		vks = partKinds
	}
	in.vt = vks[rnd.Intn(len(vks))]
	names = append(names, in.vt.name)
	in.at = -1
	fl0 := func(what string) *failRec {
		at := in.at
		fr := &failRec{Line: line, Rep: r, Step: at, What: what, Bound: names}
		var raw []json.RawMessage
		json.Unmarshal(text, &raw)
		for i := 0; i <= at && i < len(raw); i++ {
			var m map[string]json.RawMessage
			json.Unmarshal(raw[i], &m)
			fr.Ops = append(fr.Ops, m["o"])
		}
		return fr
	}
	defer func() {
		if p := recover(); p != nil {
			if f, ok := p.(failure); ok {
				fl = fl0(f.What)
				return
			}
			panic(p)
		}
	}()
	progress(fmt.Sprintf("%d %d -1 start", line, r))
	for f := 1; f <= 4; f++ {
		msg := ""
		if p := catch(func() { msg = learnEntry(bound[f]) }); p != nil {
			msg = fmt.Sprintf("no mock of %s: %v", bound[f].Kind, p)
		}
		if msg != "" {
			return fl0(msg)
		}
		rep.Kinds[bound[f].Kind]++
	}
	rep.Kinds["var:"+in.vt.name]++
	for g := 1; g <= ng; g++ {
		in.ws[g] = wk.New()
	}
	setPanics(rnd)
	for v := 1; v <= len(steps[0].Vw.V); v++ {
		in.vt.set(v, v)
	}
	ambient = 0
	in.line, in.rep = line, r
	for i := 0; i < len(steps); i++ {
		in.at = i
		if steps[i].O.Op == "cvroot" {
			i = in.root(steps, i) - 1
			continue
		}
		progress(fmt.Sprintf("%d %d %d %s", line, r, i, steps[i].O.Op))
		rep.Steps++
		in.run(&steps[i])
	}
	in.openGates()
	for g := 1; g <= ng; g++ {
		in.ws[g].Close()
	}
	if len(in.fon) == 0 {
		if msg := textDiff(nil); msg != "" {
			return fl0("at the end: " + msg)
		}
		msg, pages := protections()
		if msg != "" {
			return fl0("at the end: " + msg)
		}
		if pages != 0 {
			return fl0(fmt.Sprintf("at the end: %d executable pages are still allocated", pages))
		}
	}
	return nil
}
