// Package wk holds the code that other goroutines run while the driver patches functions of package main: pages that are
// being patched cannot be executed meanwhile, so none of it may be in package main.
package wk

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"

	"github.com/bytedance/mockey"
)

// Goid is the identity of the running goroutine, as the runtime prints it.
func Goid() int64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = bytes.TrimPrefix(s, []byte("goroutine "))
	n, err := strconv.ParseInt(string(s[:bytes.IndexByte(s, ' ')]), 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

//go:noinline
func growStack(n int) int {
	var a [256]int
	a[n%256] = n
	if n > 0 {
		return growStack(n-1) + a[(n+1)%256]
	}
	return a[0]
}

// GrowStack makes the stack of the running goroutine large enough for all that follows.
func GrowStack() { growStack(400) } // ~ 1MB

type job struct {
	f    func()
	done chan struct{}
	p    *interface{}
}

// Worker is a goroutine that runs functions.
type Worker struct {
	Id int64
	c  chan job
}

func New() *Worker {
	w := &Worker{c: make(chan job)}
	ready := make(chan int64)
	go func() {
		GrowStack()
		ready <- Goid()
		for j := range w.c {
			run(j)
		}
	}()
	w.Id = <-ready
	return w
}

func run(j job) {
	defer close(j.done)
	defer func() { *j.p = recover() }()
	j.f()
}

// Start begins f on the worker; the channel is closed when it has ended.
func (w *Worker) Start(f func()) (chan struct{}, *interface{}) {
	j := job{f, make(chan struct{}), new(interface{})}
	w.c <- j
	return j.done, j.p
}

// Do runs f on the worker and returns what it panicked with.
func (w *Worker) Do(f func()) interface{} {
	done, p := w.Start(f)
	<-done
	return *p
}

// Close ends the worker.
func (w *Worker) Close() { close(w.c) }

// Go runs f on a new goroutine; the channel is closed when it has ended, however it ends.
func Go(f func()) chan struct{} {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	return done
}

// Together starts f(i) on ws[i], all at the same time, as far as possible, and waits for them.
func Together(ws []*Worker, f func(i int)) (ps []interface{}) {
	var ready int32
	ds, es := make([]chan struct{}, len(ws)), make([]*interface{}, len(ws))
	for i, w := range ws {
		i := i
		ds[i], es[i] = w.Start(func() {
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < int32(len(ws)) {
				runtime.Gosched()
			}
			f(i)
		})
	}
	for i := range ws {
		<-ds[i]
		ps = append(ps, *es[i])
	}
	return
}

// At is a place in the code.
type At struct {
	File string
	Line int
}

// PatchTogether applies m (un: removes it) on all of ws at the same time.
func PatchTogether(ws []*Worker, m *mockey.Mocker, un bool) (at At, ps []interface{}) {
	ats := make([]At, len(ws))
	ps = Together(ws, func(i int) {
		if un {
			m.UnPatch()
			return
		}
		a := &ats[i]
		_, a.File, a.Line, _ = runtime.Caller(0); m.Patch()
	})
	return ats[0], ps
}

// VPatchTogether does so with a mock of a variable.
func VPatchTogether(ws []*Worker, m *mockey.MockerVar, un bool) (at At, ps []interface{}) {
	ats := make([]At, len(ws))
	ps = Together(ws, func(i int) {
		if un {
			m.UnPatch()
			return
		}
		a := &ats[i]
		_, a.File, a.Line, _ = runtime.Caller(0); m.Patch()
	})
	return ats[0], ps
}

// Watch ends the process if beat does not change for a minute.
func Watch(beat *int64, where *atomic.Value) {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			if b := atomic.LoadInt64(beat); b != last {
				last, since = b, time.Now()
			} else if time.Since(since) > 60*time.Second {
				fmt.Fprintln(os.Stderr, "HANG at", where.Load())
				os.Exit(3)
			}
		}
	}()
}

var busySink []byte

// Busy starts n goroutines that compute and allocate until the result is set.
func Busy(n int) *int32 {
	stop := new(int32)
	for i := 0; i < n; i++ {
		go func() {
			for i := 0; atomic.LoadInt32(stop) == 0; i++ {
				if i%1000 == 0 {
					busySink = make([]byte, 1000)
				}
			}
		}()
	}
	return stop
}

//go:noinline
func pad(x int) int { // keeps the code above away from the pages of package main
	s := 0
	switch x {
	case 1:
		s += 1 * x
		s ^= 7919
	case 2:
		s += 2 * x
		s ^= 15838
	case 3:
		s += 3 * x
		s ^= 23757
	case 4:
		s += 4 * x
		s ^= 31676
	case 5:
		s += 5 * x
		s ^= 39595
	case 6:
		s += 6 * x
		s ^= 47514
	case 7:
		s += 7 * x
		s ^= 55433
	case 8:
		s += 8 * x
		s ^= 63352
	case 9:
		s += 9 * x
		s ^= 71271
	case 10:
		s += 10 * x
		s ^= 79190
	case 11:
		s += 11 * x
		s ^= 87109
	case 12:
		s += 12 * x
		s ^= 95028
	case 13:
		s += 13 * x
		s ^= 102947
	case 14:
		s += 14 * x
		s ^= 110866
	case 15:
		s += 15 * x
		s ^= 118785
	case 16:
		s += 16 * x
		s ^= 126704
	case 17:
		s += 17 * x
		s ^= 134623
	case 18:
		s += 18 * x
		s ^= 142542
	case 19:
		s += 19 * x
		s ^= 150461
	case 20:
		s += 20 * x
		s ^= 158380
	case 21:
		s += 21 * x
		s ^= 166299
	case 22:
		s += 22 * x
		s ^= 174218
	case 23:
		s += 23 * x
		s ^= 182137
	case 24:
		s += 24 * x
		s ^= 190056
	case 25:
		s += 25 * x
		s ^= 197975
	case 26:
		s += 26 * x
		s ^= 205894
	case 27:
		s += 27 * x
		s ^= 213813
	case 28:
		s += 28 * x
		s ^= 221732
	case 29:
		s += 29 * x
		s ^= 229651
	case 30:
		s += 30 * x
		s ^= 237570
	case 31:
		s += 31 * x
		s ^= 245489
	case 32:
		s += 32 * x
		s ^= 253408
	case 33:
		s += 33 * x
		s ^= 261327
	case 34:
		s += 34 * x
		s ^= 269246
	case 35:
		s += 35 * x
		s ^= 277165
	case 36:
		s += 36 * x
		s ^= 285084
	case 37:
		s += 37 * x
		s ^= 293003
	case 38:
		s += 38 * x
		s ^= 300922
	case 39:
		s += 39 * x
		s ^= 308841
	case 40:
		s += 40 * x
		s ^= 316760
	case 41:
		s += 41 * x
		s ^= 324679
	case 42:
		s += 42 * x
		s ^= 332598
	case 43:
		s += 43 * x
		s ^= 340517
	case 44:
		s += 44 * x
		s ^= 348436
	case 45:
		s += 45 * x
		s ^= 356355
	case 46:
		s += 46 * x
		s ^= 364274
	case 47:
		s += 47 * x
		s ^= 372193
	case 48:
		s += 48 * x
		s ^= 380112
	case 49:
		s += 49 * x
		s ^= 388031
	case 50:
		s += 50 * x
		s ^= 395950
	case 51:
		s += 51 * x
		s ^= 403869
	case 52:
		s += 52 * x
		s ^= 411788
	case 53:
		s += 53 * x
		s ^= 419707
	case 54:
		s += 54 * x
		s ^= 427626
	case 55:
		s += 55 * x
		s ^= 435545
	case 56:
		s += 56 * x
		s ^= 443464
	case 57:
		s += 57 * x
		s ^= 451383
	case 58:
		s += 58 * x
		s ^= 459302
	case 59:
		s += 59 * x
		s ^= 467221
	case 60:
		s += 60 * x
		s ^= 475140
	case 61:
		s += 61 * x
		s ^= 483059
	case 62:
		s += 62 * x
		s ^= 490978
	case 63:
		s += 63 * x
		s ^= 498897
	case 64:
		s += 64 * x
		s ^= 506816
	case 65:
		s += 65 * x
		s ^= 514735
	case 66:
		s += 66 * x
		s ^= 522654
	case 67:
		s += 67 * x
		s ^= 530573
	case 68:
		s += 68 * x
		s ^= 538492
	case 69:
		s += 69 * x
		s ^= 546411
	case 70:
		s += 70 * x
		s ^= 554330
	case 71:
		s += 71 * x
		s ^= 562249
	case 72:
		s += 72 * x
		s ^= 570168
	case 73:
		s += 73 * x
		s ^= 578087
	case 74:
		s += 74 * x
		s ^= 586006
	case 75:
		s += 75 * x
		s ^= 593925
	case 76:
		s += 76 * x
		s ^= 601844
	case 77:
		s += 77 * x
		s ^= 609763
	case 78:
		s += 78 * x
		s ^= 617682
	case 79:
		s += 79 * x
		s ^= 625601
	case 80:
		s += 80 * x
		s ^= 633520
	case 81:
		s += 81 * x
		s ^= 641439
	case 82:
		s += 82 * x
		s ^= 649358
	case 83:
		s += 83 * x
		s ^= 657277
	case 84:
		s += 84 * x
		s ^= 665196
	case 85:
		s += 85 * x
		s ^= 673115
	case 86:
		s += 86 * x
		s ^= 681034
	case 87:
		s += 87 * x
		s ^= 688953
	case 88:
		s += 88 * x
		s ^= 696872
	case 89:
		s += 89 * x
		s ^= 704791
	case 90:
		s += 90 * x
		s ^= 712710
	case 91:
		s += 91 * x
		s ^= 720629
	case 92:
		s += 92 * x
		s ^= 728548
	case 93:
		s += 93 * x
		s ^= 736467
	case 94:
		s += 94 * x
		s ^= 744386
	case 95:
		s += 95 * x
		s ^= 752305
	case 96:
		s += 96 * x
		s ^= 760224
	case 97:
		s += 97 * x
		s ^= 768143
	case 98:
		s += 98 * x
		s ^= 776062
	case 99:
		s += 99 * x
		s ^= 783981
	case 100:
		s += 100 * x
		s ^= 791900
	case 101:
		s += 101 * x
		s ^= 799819
	case 102:
		s += 102 * x
		s ^= 807738
	case 103:
		s += 103 * x
		s ^= 815657
	case 104:
		s += 104 * x
		s ^= 823576
	case 105:
		s += 105 * x
		s ^= 831495
	case 106:
		s += 106 * x
		s ^= 839414
	case 107:
		s += 107 * x
		s ^= 847333
	case 108:
		s += 108 * x
		s ^= 855252
	case 109:
		s += 109 * x
		s ^= 863171
	case 110:
		s += 110 * x
		s ^= 871090
	case 111:
		s += 111 * x
		s ^= 879009
	case 112:
		s += 112 * x
		s ^= 886928
	case 113:
		s += 113 * x
		s ^= 894847
	case 114:
		s += 114 * x
		s ^= 902766
	case 115:
		s += 115 * x
		s ^= 910685
	case 116:
		s += 116 * x
		s ^= 918604
	case 117:
		s += 117 * x
		s ^= 926523
	case 118:
		s += 118 * x
		s ^= 934442
	case 119:
		s += 119 * x
		s ^= 942361
	case 120:
		s += 120 * x
		s ^= 950280
	case 121:
		s += 121 * x
		s ^= 958199
	case 122:
		s += 122 * x
		s ^= 966118
	case 123:
		s += 123 * x
		s ^= 974037
	case 124:
		s += 124 * x
		s ^= 981956
	case 125:
		s += 125 * x
		s ^= 989875
	case 126:
		s += 126 * x
		s ^= 997794
	case 127:
		s += 127 * x
		s ^= 1005713
	case 128:
		s += 128 * x
		s ^= 1013632
	case 129:
		s += 129 * x
		s ^= 1021551
	case 130:
		s += 130 * x
		s ^= 1029470
	case 131:
		s += 131 * x
		s ^= 1037389
	case 132:
		s += 132 * x
		s ^= 1045308
	case 133:
		s += 133 * x
		s ^= 1053227
	case 134:
		s += 134 * x
		s ^= 1061146
	case 135:
		s += 135 * x
		s ^= 1069065
	case 136:
		s += 136 * x
		s ^= 1076984
	case 137:
		s += 137 * x
		s ^= 1084903
	case 138:
		s += 138 * x
		s ^= 1092822
	case 139:
		s += 139 * x
		s ^= 1100741
	case 140:
		s += 140 * x
		s ^= 1108660
	case 141:
		s += 141 * x
		s ^= 1116579
	case 142:
		s += 142 * x
		s ^= 1124498
	case 143:
		s += 143 * x
		s ^= 1132417
	case 144:
		s += 144 * x
		s ^= 1140336
	case 145:
		s += 145 * x
		s ^= 1148255
	case 146:
		s += 146 * x
		s ^= 1156174
	case 147:
		s += 147 * x
		s ^= 1164093
	case 148:
		s += 148 * x
		s ^= 1172012
	case 149:
		s += 149 * x
		s ^= 1179931
	case 150:
		s += 150 * x
		s ^= 1187850
	case 151:
		s += 151 * x
		s ^= 1195769
	case 152:
		s += 152 * x
		s ^= 1203688
	case 153:
		s += 153 * x
		s ^= 1211607
	case 154:
		s += 154 * x
		s ^= 1219526
	case 155:
		s += 155 * x
		s ^= 1227445
	case 156:
		s += 156 * x
		s ^= 1235364
	case 157:
		s += 157 * x
		s ^= 1243283
	case 158:
		s += 158 * x
		s ^= 1251202
	case 159:
		s += 159 * x
		s ^= 1259121
	case 160:
		s += 160 * x
		s ^= 1267040
	case 161:
		s += 161 * x
		s ^= 1274959
	case 162:
		s += 162 * x
		s ^= 1282878
	case 163:
		s += 163 * x
		s ^= 1290797
	case 164:
		s += 164 * x
		s ^= 1298716
	case 165:
		s += 165 * x
		s ^= 1306635
	case 166:
		s += 166 * x
		s ^= 1314554
	case 167:
		s += 167 * x
		s ^= 1322473
	case 168:
		s += 168 * x
		s ^= 1330392
	case 169:
		s += 169 * x
		s ^= 1338311
	case 170:
		s += 170 * x
		s ^= 1346230
	case 171:
		s += 171 * x
		s ^= 1354149
	case 172:
		s += 172 * x
		s ^= 1362068
	case 173:
		s += 173 * x
		s ^= 1369987
	case 174:
		s += 174 * x
		s ^= 1377906
	case 175:
		s += 175 * x
		s ^= 1385825
	case 176:
		s += 176 * x
		s ^= 1393744
	case 177:
		s += 177 * x
		s ^= 1401663
	case 178:
		s += 178 * x
		s ^= 1409582
	case 179:
		s += 179 * x
		s ^= 1417501
	case 180:
		s += 180 * x
		s ^= 1425420
	case 181:
		s += 181 * x
		s ^= 1433339
	case 182:
		s += 182 * x
		s ^= 1441258
	case 183:
		s += 183 * x
		s ^= 1449177
	case 184:
		s += 184 * x
		s ^= 1457096
	case 185:
		s += 185 * x
		s ^= 1465015
	case 186:
		s += 186 * x
		s ^= 1472934
	case 187:
		s += 187 * x
		s ^= 1480853
	case 188:
		s += 188 * x
		s ^= 1488772
	case 189:
		s += 189 * x
		s ^= 1496691
	case 190:
		s += 190 * x
		s ^= 1504610
	case 191:
		s += 191 * x
		s ^= 1512529
	case 192:
		s += 192 * x
		s ^= 1520448
	case 193:
		s += 193 * x
		s ^= 1528367
	case 194:
		s += 194 * x
		s ^= 1536286
	case 195:
		s += 195 * x
		s ^= 1544205
	case 196:
		s += 196 * x
		s ^= 1552124
	case 197:
		s += 197 * x
		s ^= 1560043
	case 198:
		s += 198 * x
		s ^= 1567962
	case 199:
		s += 199 * x
		s ^= 1575881
	case 200:
		s += 200 * x
		s ^= 1583800
	case 201:
		s += 201 * x
		s ^= 1591719
	case 202:
		s += 202 * x
		s ^= 1599638
	case 203:
		s += 203 * x
		s ^= 1607557
	case 204:
		s += 204 * x
		s ^= 1615476
	case 205:
		s += 205 * x
		s ^= 1623395
	case 206:
		s += 206 * x
		s ^= 1631314
	case 207:
		s += 207 * x
		s ^= 1639233
	case 208:
		s += 208 * x
		s ^= 1647152
	case 209:
		s += 209 * x
		s ^= 1655071
	case 210:
		s += 210 * x
		s ^= 1662990
	case 211:
		s += 211 * x
		s ^= 1670909
	case 212:
		s += 212 * x
		s ^= 1678828
	case 213:
		s += 213 * x
		s ^= 1686747
	case 214:
		s += 214 * x
		s ^= 1694666
	case 215:
		s += 215 * x
		s ^= 1702585
	case 216:
		s += 216 * x
		s ^= 1710504
	case 217:
		s += 217 * x
		s ^= 1718423
	case 218:
		s += 218 * x
		s ^= 1726342
	case 219:
		s += 219 * x
		s ^= 1734261
	case 220:
		s += 220 * x
		s ^= 1742180
	case 221:
		s += 221 * x
		s ^= 1750099
	case 222:
		s += 222 * x
		s ^= 1758018
	case 223:
		s += 223 * x
		s ^= 1765937
	case 224:
		s += 224 * x
		s ^= 1773856
	case 225:
		s += 225 * x
		s ^= 1781775
	case 226:
		s += 226 * x
		s ^= 1789694
	case 227:
		s += 227 * x
		s ^= 1797613
	case 228:
		s += 228 * x
		s ^= 1805532
	case 229:
		s += 229 * x
		s ^= 1813451
	case 230:
		s += 230 * x
		s ^= 1821370
	case 231:
		s += 231 * x
		s ^= 1829289
	case 232:
		s += 232 * x
		s ^= 1837208
	case 233:
		s += 233 * x
		s ^= 1845127
	case 234:
		s += 234 * x
		s ^= 1853046
	case 235:
		s += 235 * x
		s ^= 1860965
	case 236:
		s += 236 * x
		s ^= 1868884
	case 237:
		s += 237 * x
		s ^= 1876803
	case 238:
		s += 238 * x
		s ^= 1884722
	case 239:
		s += 239 * x
		s ^= 1892641
	case 240:
		s += 240 * x
		s ^= 1900560
	case 241:
		s += 241 * x
		s ^= 1908479
	case 242:
		s += 242 * x
		s ^= 1916398
	case 243:
		s += 243 * x
		s ^= 1924317
	case 244:
		s += 244 * x
		s ^= 1932236
	case 245:
		s += 245 * x
		s ^= 1940155
	case 246:
		s += 246 * x
		s ^= 1948074
	case 247:
		s += 247 * x
		s ^= 1955993
	case 248:
		s += 248 * x
		s ^= 1963912
	case 249:
		s += 249 * x
		s ^= 1971831
	case 250:
		s += 250 * x
		s ^= 1979750
	case 251:
		s += 251 * x
		s ^= 1987669
	case 252:
		s += 252 * x
		s ^= 1995588
	case 253:
		s += 253 * x
		s ^= 2003507
	case 254:
		s += 254 * x
		s ^= 2011426
	case 255:
		s += 255 * x
		s ^= 2019345
	case 256:
		s += 256 * x
		s ^= 2027264
	case 257:
		s += 257 * x
		s ^= 2035183
	case 258:
		s += 258 * x
		s ^= 2043102
	case 259:
		s += 259 * x
		s ^= 2051021
	case 260:
		s += 260 * x
		s ^= 2058940
	case 261:
		s += 261 * x
		s ^= 2066859
	case 262:
		s += 262 * x
		s ^= 2074778
	case 263:
		s += 263 * x
		s ^= 2082697
	case 264:
		s += 264 * x
		s ^= 2090616
	case 265:
		s += 265 * x
		s ^= 2098535
	case 266:
		s += 266 * x
		s ^= 2106454
	case 267:
		s += 267 * x
		s ^= 2114373
	case 268:
		s += 268 * x
		s ^= 2122292
	case 269:
		s += 269 * x
		s ^= 2130211
	case 270:
		s += 270 * x
		s ^= 2138130
	case 271:
		s += 271 * x
		s ^= 2146049
	case 272:
		s += 272 * x
		s ^= 2153968
	case 273:
		s += 273 * x
		s ^= 2161887
	case 274:
		s += 274 * x
		s ^= 2169806
	case 275:
		s += 275 * x
		s ^= 2177725
	case 276:
		s += 276 * x
		s ^= 2185644
	case 277:
		s += 277 * x
		s ^= 2193563
	case 278:
		s += 278 * x
		s ^= 2201482
	case 279:
		s += 279 * x
		s ^= 2209401
	case 280:
		s += 280 * x
		s ^= 2217320
	case 281:
		s += 281 * x
		s ^= 2225239
	case 282:
		s += 282 * x
		s ^= 2233158
	case 283:
		s += 283 * x
		s ^= 2241077
	case 284:
		s += 284 * x
		s ^= 2248996
	case 285:
		s += 285 * x
		s ^= 2256915
	case 286:
		s += 286 * x
		s ^= 2264834
	case 287:
		s += 287 * x
		s ^= 2272753
	case 288:
		s += 288 * x
		s ^= 2280672
	case 289:
		s += 289 * x
		s ^= 2288591
	case 290:
		s += 290 * x
		s ^= 2296510
	case 291:
		s += 291 * x
		s ^= 2304429
	case 292:
		s += 292 * x
		s ^= 2312348
	case 293:
		s += 293 * x
		s ^= 2320267
	case 294:
		s += 294 * x
		s ^= 2328186
	case 295:
		s += 295 * x
		s ^= 2336105
	case 296:
		s += 296 * x
		s ^= 2344024
	case 297:
		s += 297 * x
		s ^= 2351943
	case 298:
		s += 298 * x
		s ^= 2359862
	case 299:
		s += 299 * x
		s ^= 2367781
	case 300:
		s += 300 * x
		s ^= 2375700
	case 301:
		s += 301 * x
		s ^= 2383619
	case 302:
		s += 302 * x
		s ^= 2391538
	case 303:
		s += 303 * x
		s ^= 2399457
	case 304:
		s += 304 * x
		s ^= 2407376
	case 305:
		s += 305 * x
		s ^= 2415295
	case 306:
		s += 306 * x
		s ^= 2423214
	case 307:
		s += 307 * x
		s ^= 2431133
	case 308:
		s += 308 * x
		s ^= 2439052
	case 309:
		s += 309 * x
		s ^= 2446971
	case 310:
		s += 310 * x
		s ^= 2454890
	case 311:
		s += 311 * x
		s ^= 2462809
	case 312:
		s += 312 * x
		s ^= 2470728
	case 313:
		s += 313 * x
		s ^= 2478647
	case 314:
		s += 314 * x
		s ^= 2486566
	case 315:
		s += 315 * x
		s ^= 2494485
	case 316:
		s += 316 * x
		s ^= 2502404
	case 317:
		s += 317 * x
		s ^= 2510323
	case 318:
		s += 318 * x
		s ^= 2518242
	case 319:
		s += 319 * x
		s ^= 2526161
	case 320:
		s += 320 * x
		s ^= 2534080
	case 321:
		s += 321 * x
		s ^= 2541999
	case 322:
		s += 322 * x
		s ^= 2549918
	case 323:
		s += 323 * x
		s ^= 2557837
	case 324:
		s += 324 * x
		s ^= 2565756
	case 325:
		s += 325 * x
		s ^= 2573675
	case 326:
		s += 326 * x
		s ^= 2581594
	case 327:
		s += 327 * x
		s ^= 2589513
	case 328:
		s += 328 * x
		s ^= 2597432
	case 329:
		s += 329 * x
		s ^= 2605351
	case 330:
		s += 330 * x
		s ^= 2613270
	case 331:
		s += 331 * x
		s ^= 2621189
	case 332:
		s += 332 * x
		s ^= 2629108
	case 333:
		s += 333 * x
		s ^= 2637027
	case 334:
		s += 334 * x
		s ^= 2644946
	case 335:
		s += 335 * x
		s ^= 2652865
	case 336:
		s += 336 * x
		s ^= 2660784
	case 337:
		s += 337 * x
		s ^= 2668703
	case 338:
		s += 338 * x
		s ^= 2676622
	case 339:
		s += 339 * x
		s ^= 2684541
	case 340:
		s += 340 * x
		s ^= 2692460
	case 341:
		s += 341 * x
		s ^= 2700379
	case 342:
		s += 342 * x
		s ^= 2708298
	case 343:
		s += 343 * x
		s ^= 2716217
	case 344:
		s += 344 * x
		s ^= 2724136
	case 345:
		s += 345 * x
		s ^= 2732055
	case 346:
		s += 346 * x
		s ^= 2739974
	case 347:
		s += 347 * x
		s ^= 2747893
	case 348:
		s += 348 * x
		s ^= 2755812
	case 349:
		s += 349 * x
		s ^= 2763731
	case 350:
		s += 350 * x
		s ^= 2771650
	case 351:
		s += 351 * x
		s ^= 2779569
	case 352:
		s += 352 * x
		s ^= 2787488
	case 353:
		s += 353 * x
		s ^= 2795407
	case 354:
		s += 354 * x
		s ^= 2803326
	case 355:
		s += 355 * x
		s ^= 2811245
	case 356:
		s += 356 * x
		s ^= 2819164
	case 357:
		s += 357 * x
		s ^= 2827083
	case 358:
		s += 358 * x
		s ^= 2835002
	case 359:
		s += 359 * x
		s ^= 2842921
	case 360:
		s += 360 * x
		s ^= 2850840
	case 361:
		s += 361 * x
		s ^= 2858759
	case 362:
		s += 362 * x
		s ^= 2866678
	case 363:
		s += 363 * x
		s ^= 2874597
	case 364:
		s += 364 * x
		s ^= 2882516
	case 365:
		s += 365 * x
		s ^= 2890435
	case 366:
		s += 366 * x
		s ^= 2898354
	case 367:
		s += 367 * x
		s ^= 2906273
	case 368:
		s += 368 * x
		s ^= 2914192
	case 369:
		s += 369 * x
		s ^= 2922111
	case 370:
		s += 370 * x
		s ^= 2930030
	case 371:
		s += 371 * x
		s ^= 2937949
	case 372:
		s += 372 * x
		s ^= 2945868
	case 373:
		s += 373 * x
		s ^= 2953787
	case 374:
		s += 374 * x
		s ^= 2961706
	case 375:
		s += 375 * x
		s ^= 2969625
	case 376:
		s += 376 * x
		s ^= 2977544
	case 377:
		s += 377 * x
		s ^= 2985463
	case 378:
		s += 378 * x
		s ^= 2993382
	case 379:
		s += 379 * x
		s ^= 3001301
	case 380:
		s += 380 * x
		s ^= 3009220
	case 381:
		s += 381 * x
		s ^= 3017139
	case 382:
		s += 382 * x
		s ^= 3025058
	case 383:
		s += 383 * x
		s ^= 3032977
	case 384:
		s += 384 * x
		s ^= 3040896
	case 385:
		s += 385 * x
		s ^= 3048815
	case 386:
		s += 386 * x
		s ^= 3056734
	case 387:
		s += 387 * x
		s ^= 3064653
	case 388:
		s += 388 * x
		s ^= 3072572
	case 389:
		s += 389 * x
		s ^= 3080491
	case 390:
		s += 390 * x
		s ^= 3088410
	case 391:
		s += 391 * x
		s ^= 3096329
	case 392:
		s += 392 * x
		s ^= 3104248
	case 393:
		s += 393 * x
		s ^= 3112167
	case 394:
		s += 394 * x
		s ^= 3120086
	case 395:
		s += 395 * x
		s ^= 3128005
	case 396:
		s += 396 * x
		s ^= 3135924
	case 397:
		s += 397 * x
		s ^= 3143843
	case 398:
		s += 398 * x
		s ^= 3151762
	case 399:
		s += 399 * x
		s ^= 3159681
	}
	return s
}

var Sink = pad(0)
