From d1725eb1179ce83585454ec8ca0d753106a1d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 01/18] fix: do not let the origin hook overwrite the arguments
 of the mocked call

append(args[0:shift], ...) wrote into the argument slice of the call, so a
condition calling origin changed the arguments seen by the hook, and
concurrent calls of origin got each other's arguments.
---
 mock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock.go b/mock.go
index 676f006..4d897eb 100644
--- a/mock.go
+++ b/mock.go
@@ -313,7 +313,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		}
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				return tool.ReflectCall(proxy.Elem(), append(args[0:shift], innerArgs...))
+				return tool.ReflectCall(proxy.Elem(), append(args[0:shift:shift], innerArgs...))
 			}))
 		}
 	}
-- 
2.43.0


From ee7bb73a3b4c889ecc86e05abcb31013b84f5694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 02/18] fix: a rejected re-mock must not take effect

The re-mock check ran after the target had been patched, so the rejected
mock replaced the first one and was in no context that could release it.
---
 convey.go   | 9 +++++++--
 mock.go     | 1 +
 mock_var.go | 1 +
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/convey.go b/convey.go
index 7e7bd3e..70f34e4 100644
--- a/convey.go
+++ b/convey.go
@@ -48,12 +48,17 @@ func PatchConvey(items ...interface{}) {
 	convey.Convey(items...)
 }
 
-func addToGlobal(mocker mockerInstance) {
-	tool.DebugPrintf("%v added\n", mocker.key())
+// checkReMock rejects a mocker whose target is already mocked in current 'PatchConvey' context, it must be called before
+// the target is changed.
+func checkReMock(mocker mockerInstance) {
 	last, ok := gMocker[len(gMocker)-1][mocker.key()]
 	if ok {
 		tool.Assert(!ok, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
 	}
+}
+
+func addToGlobal(mocker mockerInstance) {
+	tool.DebugPrintf("%v added\n", mocker.key())
 	gMocker[len(gMocker)-1][mocker.key()] = mocker
 }
 
diff --git a/mock.go b/mock.go
index 4d897eb..8705679 100644
--- a/mock.go
+++ b/mock.go
@@ -327,6 +327,7 @@ func (mocker *Mocker) Patch() *Mocker {
 	if mocker.isPatched {
 		return mocker
 	}
+	checkReMock(mocker)
 	mocker.patch = monkey.PatchValue(mocker.target, mocker.hook, reflect.ValueOf(mocker.proxy), mocker.builder.unsafe, mocker.builder.generic)
 	mocker.isPatched = true
 	addToGlobal(mocker)
diff --git a/mock_var.go b/mock_var.go
index 910816c..3d89fcb 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -73,6 +73,7 @@ func (mocker *MockerVar) Patch() *MockerVar {
 	defer mocker.lock.Unlock()
 
 	if !mocker.isPatched {
+		checkReMock(mocker)
 		mocker.target.Set(mocker.hook)
 		mocker.isPatched = true
 		addToGlobal(mocker)
-- 
2.43.0


From 95f3efc6265a4ee2213b96586257547e81707ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:54 +0000
Subject: [PATCH 03/18] fix: release the mocks of a context in reverse order,
 from the context that holds them

Mocks of one context may build upon each other (generic functions sharing
one body, a struct variable and its field), so releasing them in the random
order of a map left some of them in effect forever. A mocker released in an
inner context stayed registered in the outer one, and took a mock of the
inner context with the same target off the books.
---
 convey.go | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/convey.go b/convey.go
index 70f34e4..60bc25c 100644
--- a/convey.go
+++ b/convey.go
@@ -23,21 +23,17 @@ import (
 	"github.com/smartystreets/goconvey/convey"
 )
 
-var gMocker = make([]map[uintptr]mockerInstance, 0)
-
-func init() {
-	gMocker = append(gMocker, make(map[uintptr]mockerInstance))
-}
+// gMocker holds the mockers in effect of every 'PatchConvey' context, in the order they took effect. The first element is
+// the context out of any 'PatchConvey'
+var gMocker = make([][]mockerInstance, 1)
 
 func PatchConvey(items ...interface{}) {
 	for i, item := range items {
 		if reflect.TypeOf(item).Kind() == reflect.Func {
 			items[i] = reflect.MakeFunc(reflect.TypeOf(item), func(args []reflect.Value) []reflect.Value {
-				gMocker = append(gMocker, make(map[uintptr]mockerInstance))
+				gMocker = append(gMocker, nil)
 				defer func() {
-					for _, mocker := range gMocker[len(gMocker)-1] {
-						mocker.unPatch()
-					}
+					UnPatchAll()
 					gMocker = gMocker[:len(gMocker)-1]
 				}()
 				return tool.ReflectCall(reflect.ValueOf(item), args)
@@ -51,20 +47,29 @@ func PatchConvey(items ...interface{}) {
 // checkReMock rejects a mocker whose target is already mocked in current 'PatchConvey' context, it must be called before
 // the target is changed.
 func checkReMock(mocker mockerInstance) {
-	last, ok := gMocker[len(gMocker)-1][mocker.key()]
-	if ok {
-		tool.Assert(!ok, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
+	for _, last := range gMocker[len(gMocker)-1] {
+		if last.key() == mocker.key() {
+			tool.Assert(false, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
+		}
 	}
 }
 
 func addToGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v added\n", mocker.key())
-	gMocker[len(gMocker)-1][mocker.key()] = mocker
+	gMocker[len(gMocker)-1] = append(gMocker[len(gMocker)-1], mocker)
 }
 
 func removeFromGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v removed\n", mocker.key())
-	delete(gMocker[len(gMocker)-1], mocker.key())
+	// the mocker may belong to an outer context
+	for level := len(gMocker) - 1; level >= 0; level-- {
+		for i, m := range gMocker[level] {
+			if m == mocker {
+				gMocker[level] = append(gMocker[level][:i:i], gMocker[level][i+1:]...)
+				return
+			}
+		}
+	}
 }
 
 // Unpatch all mocks in current 'PatchConvey' context
@@ -92,7 +97,9 @@ func removeFromGlobal(mocker mockerInstance) {
 //		}
 //	})
 func UnPatchAll() {
-	for _, mocker := range gMocker[len(gMocker)-1] {
-		mocker.unPatch()
+	// a mock may be built upon former ones, so release the latest first
+	mockers := gMocker[len(gMocker)-1]
+	for i := len(mockers) - 1; i >= 0; i-- {
+		mockers[i].unPatch()
 	}
 }
-- 
2.43.0


From 43f9d2ade08d567c854de7119bdc7c748b7826ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:26 +0000
Subject: [PATCH 04/18] fix: removing a mock below another one of the same
 function

Unpatch wrote the code it had saved over the hook of a later patch, and that
patch then restored the jump to the removed hook, which stayed in effect (or
crashed) for the rest of the process. The later patch now takes over what the
removed one had to restore.
---
 internal/monkey/patch.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index 8f4ee24..9acb9f2 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -33,9 +33,31 @@ type Patch struct {
 	base uintptr
 }
 
+// applied holds the patches in effect of every patched function, in the order they were applied.
+var applied = map[uintptr][]*Patch{}
+
 // Unpatch restores the patched function to the original function.
 func (p *Patch) Unpatch() {
-	mem.WriteWithSTW(p.base, p.code[:p.size])
+	patches := applied[p.base]
+	last := len(patches) - 1
+	for i := range patches {
+		if patches[i] != p {
+			continue
+		}
+		if i == last {
+			mem.WriteWithSTW(p.base, p.code[:p.size])
+		} else {
+			// the next patch was applied upon this one, let it take over what it should restore
+			next := patches[i+1]
+			mem.WriteWithSTW(common.PtrOf(next.code), p.code)
+			next.size = p.size
+		}
+		applied[p.base] = append(patches[:i:i], patches[i+1:]...)
+		break
+	}
+	if len(applied[p.base]) == 0 {
+		delete(applied, p.base)
+	}
 	common.ReleasePage(p.code)
 }
 
@@ -72,7 +94,9 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	// replace target function codes before the cutting point
 	mem.WriteWithSTW(targetAddr, hookCode)
 
-	return &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx}
+	patch := &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx}
+	applied[targetAddr] = append(applied[targetAddr], patch)
+	return patch
 }
 
 func PatchFunc(fn, hook, proxy interface{}, unsafe bool) *Patch {
-- 
2.43.0


From 25df5d1357bd011bceefdbc78504ee9b5aa42b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:29 +0000
Subject: [PATCH 05/18] fix: MockerVar.To on a mocked variable must set the new
 value

To was ignored while the variable was mocked, and a rejected value replaced
the accepted one for the next Patch.
---
 mock_var.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mock_var.go b/mock_var.go
index 3d89fcb..3a03200 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -54,16 +54,19 @@ func MockValue(targetPtr interface{}) *MockerVar {
 
 func (mocker *MockerVar) To(value interface{}) *MockerVar {
 	var v reflect.Type
+	var hook reflect.Value
 
 	if value == nil {
-		mocker.hook = reflect.Zero(mocker.targetType)
+		hook = reflect.Zero(mocker.targetType)
 		v = mocker.targetType
 	} else {
-		mocker.hook = reflect.ValueOf(value)
+		hook = reflect.ValueOf(value)
 		v = reflect.TypeOf(value)
 	}
 
 	tool.Assert(v.AssignableTo(mocker.targetType), "value type:%s not match target type:%s", v.Name(), mocker.targetType.Name())
+	mocker.UnPatch()
+	mocker.hook = hook
 	mocker.Patch()
 	return mocker
 }
-- 
2.43.0


From f16f35d33123de5a2619a71430222d966148a2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 06/18] fix: removing a mock below another one of the same
 variable

UnPatch overwrote the value of a later mock of the variable, which then
restored the value of the removed mock.
---
 convey.go   | 14 ++++++++++++++
 mock_var.go |  5 ++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index 60bc25c..19e5667 100644
--- a/convey.go
+++ b/convey.go
@@ -72,6 +72,20 @@ func removeFromGlobal(mocker mockerInstance) {
 	}
 }
 
+// nextMock gets the mocker which mocked the same target again after given mocker, nil if there is none
+func nextMock(mocker mockerInstance) mockerInstance {
+	found := false
+	for _, mockers := range gMocker {
+		for _, m := range mockers {
+			if found && m.key() == mocker.key() {
+				return m
+			}
+			found = found || m == mocker
+		}
+	}
+	return nil
+}
+
 // Unpatch all mocks in current 'PatchConvey' context
 //
 // If the caller is out of 'PatchConvey', it will unpatch all mocks
diff --git a/mock_var.go b/mock_var.go
index 3a03200..0f4a478 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -92,7 +92,10 @@ func (mocker *MockerVar) UnPatch() *MockerVar {
 	defer mocker.lock.Unlock()
 	if mocker.isPatched {
 		mocker.isPatched = false
-		if mocker.origin == nil {
+		if next, ok := nextMock(mocker).(*MockerVar); ok && next.targetType == mocker.targetType {
+			// the variable holds the value of the next mock, let it restore the origin value
+			next.origin = mocker.origin
+		} else if mocker.origin == nil {
 			mocker.target.Set(reflect.Zero(mocker.targetType))
 		} else {
 			mocker.target.Set(reflect.ValueOf(mocker.origin))
-- 
2.43.0


From 389d5cc05900cd7c066d825667a90e052dcbecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:47 +0000
Subject: [PATCH 07/18] fix: reject GenericInfo in the When of a non-generic
 target

To already rejects it; a When accepted it and panicked in every call of the
target instead.
---
 mock_condition.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock_condition.go b/mock_condition.go
index 4105790..428e2a5 100644
--- a/mock_condition.go
+++ b/mock_condition.go
@@ -51,6 +51,7 @@ func (m *mockCondition) SetWhenForce(when interface{}) {
 	}
 
 	hasGeneric, hasReceiver := m.checkGenericAndReceiver(wVal.Type())
+	tool.Assert(m.builder.generic || !hasGeneric, "non-generic function should not have 'GenericInfo' as first argument")
 	whenType := reflect.FuncOf(inTypes, []reflect.Type{out1}, hookType.IsVariadic())
 	m.when = reflect.MakeFunc(whenType, func(args []reflect.Value) (results []reflect.Value) {
 		results = tool.ReflectCall(wVal, m.adaptArgsForReflectCall(args, hasGeneric, hasReceiver))
-- 
2.43.0


From 0d01692295b5db4cebb59308edcc0dd4d4e9b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 08/18] fix: a rejected reconfiguration must leave the mock in
 effect

---
 convey.go   |  6 +++---
 mock.go     | 19 ++++++++++++++-----
 mock_var.go |  1 +
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/convey.go b/convey.go
index 19e5667..e22eb47 100644
--- a/convey.go
+++ b/convey.go
@@ -44,11 +44,11 @@ func PatchConvey(items ...interface{}) {
 	convey.Convey(items...)
 }
 
-// checkReMock rejects a mocker whose target is already mocked in current 'PatchConvey' context, it must be called before
-// the target is changed.
+// checkReMock rejects a mocker whose target is already mocked by another one in current 'PatchConvey' context, it must be
+// called before the target is changed.
 func checkReMock(mocker mockerInstance) {
 	for _, last := range gMocker[len(gMocker)-1] {
-		if last.key() == mocker.key() {
+		if last != mocker && last.key() == mocker.key() {
 			tool.Assert(false, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
 		}
 	}
diff --git a/mock.go b/mock.go
index 8705679..f46956f 100644
--- a/mock.go
+++ b/mock.go
@@ -294,21 +294,26 @@ func (mocker *Mocker) buildHook() {
 	mocker.hook = mockerHook
 }
 
+// checkOrigin checks an origin function pointer and reports whether the function misses the receiver
+func (mocker *Mocker) checkOrigin(funcPtr interface{}) bool {
+	pVal := reflect.ValueOf(funcPtr)
+	tool.Assert(pVal.Kind() == reflect.Ptr && pVal.Elem().Kind() == reflect.Func, "origin receiver must be a function pointer")
+	return mocker.missReceiver(mocker.target.Type(), pVal.Elem().Interface())
+}
+
 // buildProx create a proxyCaller which could call origin directly
 func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 	proxy := reflect.New(mocker.builder.hookType())
 
 	proxyCallerSetter := func(args []reflect.Value) {}
 	if mocker.builder.proxyCaller != nil {
-		pVal := reflect.ValueOf(mocker.builder.proxyCaller)
-		tool.Assert(pVal.Kind() == reflect.Ptr && pVal.Elem().Kind() == reflect.Func, "origin receiver must be a function pointer")
-		pElem := pVal.Elem()
+		pElem := reflect.ValueOf(mocker.builder.proxyCaller).Elem()
 
 		shift := 0
 		if mocker.builder.generic {
 			shift += 1
 		}
-		if mocker.missReceiver(mocker.target.Type(), pElem.Interface()) {
+		if mocker.checkOrigin(mocker.builder.proxyCaller) {
 			shift += 1
 		}
 		proxyCallerSetter = func(args []reflect.Value) {
@@ -400,14 +405,18 @@ func (mocker *Mocker) Return(results ...interface{}) *Mocker {
 }
 
 func (mocker *Mocker) Origin(funcPtr interface{}) *Mocker {
+	tool.AssertPtr(funcPtr)
+	mocker.checkOrigin(funcPtr)
 	return mocker.rePatch(func() {
 		mocker.builder.origin(funcPtr)
 	})
 }
 
 func (mocker *Mocker) rePatch(do func()) *Mocker {
-	mocker.UnPatch()
+	// a rejected change must leave the mock as it is
+	checkReMock(mocker)
 	do()
+	mocker.UnPatch()
 	mocker.buildHook()
 	mocker.Patch()
 	return mocker
diff --git a/mock_var.go b/mock_var.go
index 0f4a478..db01ded 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -65,6 +65,7 @@ func (mocker *MockerVar) To(value interface{}) *MockerVar {
 	}
 
 	tool.Assert(v.AssignableTo(mocker.targetType), "value type:%s not match target type:%s", v.Name(), mocker.targetType.Name())
+	checkReMock(mocker)
 	mocker.UnPatch()
 	mocker.hook = hook
 	mocker.Patch()
-- 
2.43.0


From d58b028d0c8c8e75dbb5eceb8c79031eb99b1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 09/18] fix: pass receiver and GenericInfo of a generic method
 in the right order

Since go1.20 the shared code of a method of a generic type takes its receiver
before its dictionary: hooks and conditions with a receiver or a GenericInfo
got the one for the other.
---
 mock.go                     | 53 ++++++++++++++++++++++++++++---------
 mock_generics.go            | 11 ++++++++
 mock_generics_above_1_20.go | 23 ++++++++++++++++
 mock_generics_below_1_20.go | 22 +++++++++++++++
 4 files changed, 96 insertions(+), 13 deletions(-)
 create mode 100644 mock_generics_above_1_20.go
 create mode 100644 mock_generics_below_1_20.go

diff --git a/mock.go b/mock.go
index f46956f..90ef754 100644
--- a/mock.go
+++ b/mock.go
@@ -34,15 +34,16 @@ const (
 )
 
 type Mocker struct {
-	target    reflect.Value // mock target value
-	hook      reflect.Value // mock hook
-	proxy     interface{}   // proxy function to origin
-	times     int64
-	mockTimes int64
-	patch     *monkey.Patch
-	lock      sync.Mutex
-	isPatched bool
-	builder   *MockBuilder
+	target        reflect.Value // mock target value
+	hook          reflect.Value // mock hook
+	proxy         interface{}   // proxy function to origin
+	times         int64
+	mockTimes     int64
+	patch         *monkey.Patch
+	lock          sync.Mutex
+	isPatched     bool
+	receiverFirst bool // the target takes its receiver before the GenericInfo
+	builder       *MockBuilder
 
 	outerCaller tool.CallerInfo
 }
@@ -233,11 +234,36 @@ func (mocker *Mocker) missReceiver(target reflect.Type, hook interface{}) bool {
 	return false
 }
 
+// swapReceiver converts arguments from the order of hookType to the order in which the target takes them, and back
+func (mocker *Mocker) swapReceiver(args []reflect.Value) []reflect.Value {
+	if !mocker.receiverFirst {
+		return args
+	}
+	return append([]reflect.Value{args[1], args[0]}, args[2:]...)
+}
+
+// codeType is hookType in the order in which the target takes its arguments
+func (mocker *Mocker) codeType() reflect.Type {
+	hookType := mocker.builder.hookType()
+	if !mocker.receiverFirst {
+		return hookType
+	}
+	in, out := []reflect.Type{hookType.In(1), hookType.In(0)}, []reflect.Type{}
+	for i := 2; i < hookType.NumIn(); i++ {
+		in = append(in, hookType.In(i))
+	}
+	for i := 0; i < hookType.NumOut(); i++ {
+		out = append(out, hookType.Out(i))
+	}
+	return reflect.FuncOf(in, out, hookType.IsVariadic())
+}
+
 func (mocker *Mocker) buildHook() {
+	mocker.receiverFirst = mocker.builder.generic && genericReceiverFirst && isGenericMethod(mocker.target)
 	proxySetter := mocker.buildProxy()
 
 	originExec := func(args []reflect.Value) []reflect.Value {
-		return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), args)
+		return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), mocker.swapReceiver(args))
 	}
 
 	match := []func(args []reflect.Value) bool{}
@@ -265,7 +291,8 @@ func (mocker *Mocker) buildHook() {
 		}
 	}
 
-	mockerHook := reflect.MakeFunc(mocker.builder.hookType(), func(args []reflect.Value) []reflect.Value {
+	mockerHook := reflect.MakeFunc(mocker.codeType(), func(args []reflect.Value) []reflect.Value {
+		args = mocker.swapReceiver(args)
 		proxySetter(args) // 设置origin调用proxy
 
 		mocker.access()
@@ -303,7 +330,7 @@ func (mocker *Mocker) checkOrigin(funcPtr interface{}) bool {
 
 // buildProx create a proxyCaller which could call origin directly
 func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
-	proxy := reflect.New(mocker.builder.hookType())
+	proxy := reflect.New(mocker.codeType())
 
 	proxyCallerSetter := func(args []reflect.Value) {}
 	if mocker.builder.proxyCaller != nil {
@@ -318,7 +345,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		}
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				return tool.ReflectCall(proxy.Elem(), append(args[0:shift:shift], innerArgs...))
+				return tool.ReflectCall(proxy.Elem(), mocker.swapReceiver(append(args[0:shift:shift], innerArgs...)))
 			}))
 		}
 	}
diff --git a/mock_generics.go b/mock_generics.go
index e0c9a21..2f23087 100644
--- a/mock_generics.go
+++ b/mock_generics.go
@@ -18,7 +18,11 @@ package mockey
 
 import (
 	"reflect"
+	"runtime"
+	"strings"
 	"unsafe"
+
+	"github.com/bytedance/mockey/internal/monkey/inst"
 )
 
 // MockGeneric mocks generic function
@@ -52,3 +56,10 @@ func (g GenericInfo) UsedParamType(n uintptr) reflect.Type {
 	*(*uintptr)(unsafe.Pointer(&vt)) = *(*uintptr)(unsafe.Pointer(uintptr(g) + 8*n))
 	return reflect.TypeOf(vt)
 }
+
+// isGenericMethod tells whether target is a method of a generic type (and not a generic function)
+func isGenericMethod(target reflect.Value) bool {
+	// the shared code of a method is called pkg.T[...].M or pkg.(*T[...]).M, that of a function pkg.F[...]
+	name := runtime.FuncForPC(inst.GetGenericJumpAddr(target.Pointer(), 10000)).Name()
+	return strings.Contains(name, "[...]") && !strings.HasSuffix(name, "[...]")
+}
diff --git a/mock_generics_above_1_20.go b/mock_generics_above_1_20.go
new file mode 100644
index 0000000..54cecb9
--- /dev/null
+++ b/mock_generics_above_1_20.go
@@ -0,0 +1,23 @@
+//go:build go1.20
+// +build go1.20
+
+/*
+ * Copyright 2022 ByteDance Inc.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package mockey
+
+// Since go1.20 the code of a method of a generic type takes its receiver before its dictionary.
+const genericReceiverFirst = true
diff --git a/mock_generics_below_1_20.go b/mock_generics_below_1_20.go
new file mode 100644
index 0000000..ddbcf42
--- /dev/null
+++ b/mock_generics_below_1_20.go
@@ -0,0 +1,22 @@
+//go:build !go1.20
+// +build !go1.20
+
+/*
+ * Copyright 2022 ByteDance Inc.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package mockey
+
+const genericReceiverFirst = false
-- 
2.43.0


From e147ff4fc8f3ab00a6d58198f428bdcd5bbf1810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 10/18] fix: pass the variadic slice of a mocked call on
 unchanged

---
 internal/tool/call.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/internal/tool/call.go b/internal/tool/call.go
index 40dd333..59ee52f 100644
--- a/internal/tool/call.go
+++ b/internal/tool/call.go
@@ -22,17 +22,8 @@ import (
 
 func ReflectCall(f reflect.Value, args []reflect.Value) []reflect.Value {
 	if f.Type().IsVariadic() {
-		newArgs := make([]reflect.Value, 0)
-		lastArg := args[len(args)-1]
-		for i := 0; i < len(args)-1; i++ {
-			newArgs = append(newArgs, args[i])
-		}
-
-		for i := 0; i < lastArg.Len(); i++ {
-			newArgs = append(newArgs, lastArg.Index(i))
-		}
-		return f.Call(newArgs)
-	} else {
-		return f.Call(args)
+		// pass the variadic slice on as it is, it may be nil or shared with the caller
+		return f.CallSlice(args)
 	}
+	return f.Call(args)
 }
-- 
2.43.0


From 7dec92880eccca38dd29f211efc4e45711c053d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 11/18] fix: no debug output while the world is stopped

---
 internal/monkey/mem/write.go        | 3 +++
 internal/monkey/mem/write_darwin.go | 5 -----
 internal/monkey/mem/write_linux.go  | 5 -----
 3 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/internal/monkey/mem/write.go b/internal/monkey/mem/write.go
index 5d71863..6d3f35d 100644
--- a/internal/monkey/mem/write.go
+++ b/internal/monkey/mem/write.go
@@ -25,6 +25,8 @@ import (
 // WriteWithSTW copies data bytes to the target address and replaces the original bytes, during which it will stop the
 // world (only the current goroutine's P is running).
 func WriteWithSTW(target uintptr, data []byte) {
+	// no output while the world is stopped: a write that blocks would lose its P and never get one again
+	tool.DebugPrintf("Write: target(0x%x), page(0x%x), len(%v)\n", target, common.PageOf(target), len(data))
 	ctx := stw.NewSTWCtx()
 	ctx.StopTheWorld()
 
@@ -46,4 +48,5 @@ func WriteWithSTW(target uintptr, data []byte) {
 	}
 
 	ctx.StartTheWorld()
+	tool.DebugPrintf("Write end\n")
 }
diff --git a/internal/monkey/mem/write_darwin.go b/internal/monkey/mem/write_darwin.go
index 529a300..2f23723 100644
--- a/internal/monkey/mem/write_darwin.go
+++ b/internal/monkey/mem/write_darwin.go
@@ -18,22 +18,17 @@ package mem
 
 import (
 	"fmt"
-	"reflect"
 	"syscall"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
-	"github.com/bytedance/mockey/internal/tool"
 )
 
 func Write(target uintptr, data []byte) error {
 	targetPage := common.PageOf(target)
-	fnPage := common.PageOf(reflect.ValueOf(write).Pointer())
-	tool.DebugPrintf("Write: target page(0x%x), fn page(0x%x), len(%v)\n", targetPage, fnPage, len(data))
 	res := write(target, common.PtrOf(data), len(data), targetPage, common.PageSize(), syscall.PROT_READ|syscall.PROT_EXEC)
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-	tool.DebugPrintf("Write end(darwin)")
 	return nil
 }
 
diff --git a/internal/monkey/mem/write_linux.go b/internal/monkey/mem/write_linux.go
index cab438c..85cb171 100644
--- a/internal/monkey/mem/write_linux.go
+++ b/internal/monkey/mem/write_linux.go
@@ -18,22 +18,17 @@ package mem
 
 import (
 	"fmt"
-	"reflect"
 	"syscall"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
-	"github.com/bytedance/mockey/internal/tool"
 )
 
 func Write(target uintptr, data []byte) error {
 	targetPage := common.PageOf(target)
-	fnPage := common.PageOf(reflect.ValueOf(write).Pointer())
-	tool.DebugPrintf("Write: target page(0x%x), fn page(0x%x), len(%v)\n", targetPage, fnPage, len(data))
 	res := write(target, common.PtrOf(data), len(data), targetPage, common.PageSize(), syscall.PROT_READ|syscall.PROT_EXEC)
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-	tool.DebugPrintf("Write end(linux)")
 	return nil
 }
 
-- 
2.43.0


From 6800c14c8a191826e682ba10b367053ba3289cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 12/18] fix: reject MockGeneric of a wrapper of a generic
 method

(*T[int]).M of a value method and promoted methods take another receiver than
the code that is patched, which made calls through the mock corrupt memory.
---
 mock_generics.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mock_generics.go b/mock_generics.go
index 2f23087..abb6972 100644
--- a/mock_generics.go
+++ b/mock_generics.go
@@ -17,12 +17,14 @@
 package mockey
 
 import (
+	"fmt"
 	"reflect"
 	"runtime"
 	"strings"
 	"unsafe"
 
 	"github.com/bytedance/mockey/internal/monkey/inst"
+	"github.com/bytedance/mockey/internal/tool"
 )
 
 // MockGeneric mocks generic function
@@ -61,5 +63,15 @@ func (g GenericInfo) UsedParamType(n uintptr) reflect.Type {
 func isGenericMethod(target reflect.Value) bool {
 	// the shared code of a method is called pkg.T[...].M or pkg.(*T[...]).M, that of a function pkg.F[...]
 	name := runtime.FuncForPC(inst.GetGenericJumpAddr(target.Pointer(), 10000)).Name()
-	return strings.Contains(name, "[...]") && !strings.HasSuffix(name, "[...]")
+	if !strings.Contains(name, "[...]") || strings.HasSuffix(name, "[...]") {
+		return false
+	}
+	// target may be a wrapper that takes another receiver than the method, (*T).M of a value method for example
+	recv, format := target.Type().In(0), ".%s[...]."
+	if recv.Kind() == reflect.Ptr && recv.Name() == "" {
+		recv, format = recv.Elem(), ".(*%s[...])."
+	}
+	want := fmt.Sprintf(format, strings.Split(recv.Name(), "[")[0])
+	tool.Assert(strings.Contains(name, want), "%v is not a method of %v, use the type that declares it", name, target.Type().In(0))
+	return true
 }
-- 
2.43.0


From cf2178b864d1b5b8f9bacbebfafcea9fc1afb63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:33 +0000
Subject: [PATCH 13/18] fix: GetMethod of a nil function field panics

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 4f6bcac..7f71660 100644
--- a/utils.go
+++ b/utils.go
@@ -65,7 +65,7 @@ func getFieldMethod(instance interface{}, fieldName string) (interface{}, bool)
 	}
 
 	field := v.FieldByName(fieldName)
-	if !field.IsValid() || field.Kind() != reflect.Func {
+	if !field.IsValid() || field.Kind() != reflect.Func || field.IsNil() {
 		return nil, false
 	}
 
-- 
2.43.0


From 1f8bc2820788eccd55d500dfd482c1ed8e3254d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:35 +0000
Subject: [PATCH 14/18] fix: GetMethod of a pointer finds the unexported method
 with struct receiver

---
 utils.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils.go b/utils.go
index 7f71660..26e3daf 100644
--- a/utils.go
+++ b/utils.go
@@ -38,6 +38,12 @@ func GetMethod(instance interface{}, methodName string) interface{} {
 		}
 		ch0 := methodName[0]
 		if !(ch0 >= 'A' && ch0 <= 'Z') {
+			// a struct receiver is prior to the corresponding pointer receiver
+			if typ.Kind() == reflect.Ptr && typ.Elem().Kind() == reflect.Struct {
+				if elem := reflect.Zero(typ.Elem()).Interface(); hasMethod(elem, methodName) {
+					return unsafeMethodByName(elem, methodName)
+				}
+			}
 			return unsafeMethodByName(instance, methodName)
 		}
 	}
@@ -170,6 +176,11 @@ func unsafeMethodByName(instance interface{}, methodName string) interface{} {
 	return vt
 }
 
+func hasMethod(instance interface{}, methodName string) bool {
+	_, _, ok := unsafereflect.MethodByName(instance, methodName)
+	return ok
+}
+
 // GetGoroutineId gets the current goroutine ID
 func GetGoroutineId() int64 {
 	return tool.GetGoroutineID()
-- 
2.43.0


From 5ebe9f15eb8ce25337047cfada3ac3eb93575167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:39 +0000
Subject: [PATCH 15/18] fix: GetMethod of a cyclic instance ends

---
 utils.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 26e3daf..23b70f0 100644
--- a/utils.go
+++ b/utils.go
@@ -109,8 +109,25 @@ func GetNestedMethod(instance interface{}, methodName string) interface{} {
 }
 
 func getNestedMethod(val reflect.Value, methodName string) (reflect.Method, bool) {
+	return findNestedMethod(val, methodName, map[visit]bool{})
+}
+
+// visit is a pointer that has been followed, instances may be cyclic
+type visit struct {
+	typ reflect.Type
+	ptr uintptr
+}
+
+func findNestedMethod(val reflect.Value, methodName string, visited map[visit]bool) (reflect.Method, bool) {
 	typ := val.Type()
 	kind := typ.Kind()
+	if kind == reflect.Ptr {
+		v := visit{typ, val.Pointer()}
+		if visited[v] {
+			return reflect.Method{}, false
+		}
+		visited[v] = true
+	}
 	if kind == reflect.Ptr || kind == reflect.Interface {
 		val = val.Elem()
 	}
@@ -126,7 +143,7 @@ func getNestedMethod(val reflect.Value, methodName string) (reflect.Method, bool
 				// there is no need to acquire non-anonymous method
 				continue
 			}
-			if m, ok := getNestedMethod(val.Field(i), methodName); ok {
+			if m, ok := findNestedMethod(val.Field(i), methodName, visited); ok {
 				return m, true
 			}
 		}
-- 
2.43.0


From c1194692d159828dc9bc4f5a2e83bbcce51b9375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:23 +0000
Subject: [PATCH 16/18] fix: PatchConvey without an action panicked instead of
 being pending as in goconvey

---
 convey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index e22eb47..dd49d6a 100644
--- a/convey.go
+++ b/convey.go
@@ -29,7 +29,7 @@ var gMocker = make([][]mockerInstance, 1)
 
 func PatchConvey(items ...interface{}) {
 	for i, item := range items {
-		if reflect.TypeOf(item).Kind() == reflect.Func {
+		if item != nil && reflect.TypeOf(item).Kind() == reflect.Func {
 			items[i] = reflect.MakeFunc(reflect.TypeOf(item), func(args []reflect.Value) []reflect.Value {
 				gMocker = append(gMocker, nil)
 				defer func() {
-- 
2.43.0


From dc50812651184f5820d9d84012168907f2f7d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:03 +0000
Subject: [PATCH 17/18] fix: calling the origin of a mock that was removed or
 reconfigured meanwhile crashed

---
 internal/monkey/fn/inject.go |  9 +++++++--
 internal/monkey/patch.go     | 24 +++++++++++++++++++++++-
 mock.go                      |  7 +++++--
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/internal/monkey/fn/inject.go b/internal/monkey/fn/inject.go
index 46a78ab..b18989e 100644
--- a/internal/monkey/fn/inject.go
+++ b/internal/monkey/fn/inject.go
@@ -35,13 +35,18 @@ func InjectInto(target reflect.Value, fnCode []byte) {
 	err := prot.MProtectRX(fnCode)
 	tool.Assert(err == nil, "protect page failed")
 
+	PointTo(target, common.PtrOf(fnCode))
+}
+
+// PointTo makes the target function pointer point to the executable code at addr.
+func PointTo(target reflect.Value, addr uintptr) {
 	// make a new function to receive the code
-	carrier := reflect.MakeFunc(vt.Elem(), nil)
+	carrier := reflect.MakeFunc(target.Type().Elem(), nil)
 	type function struct {
 		_      uintptr
 		fnAddr *uintptr
 	}
-	*(*function)(unsafe.Pointer(&carrier)).fnAddr = common.PtrOf(fnCode)
+	*(*function)(unsafe.Pointer(&carrier)).fnAddr = addr
 
 	// set the target with the new made function
 	target.Elem().Set(carrier)
diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index 9acb9f2..a50b90c 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -31,6 +31,8 @@ type Patch struct {
 	size int
 	code []byte
 	base uintptr
+	// proxies are the functions that run the code: the proxy of the patch and those of removed patches
+	proxies []reflect.Value
 }
 
 // applied holds the patches in effect of every patched function, in the order they were applied.
@@ -44,13 +46,21 @@ func (p *Patch) Unpatch() {
 		if patches[i] != p {
 			continue
 		}
+		// the proxies may still be called, by a hook that is running for example
 		if i == last {
 			mem.WriteWithSTW(p.base, p.code[:p.size])
+			for _, proxy := range p.proxies {
+				fn.PointTo(proxy, p.base)
+			}
 		} else {
 			// the next patch was applied upon this one, let it take over what it should restore
 			next := patches[i+1]
 			mem.WriteWithSTW(common.PtrOf(next.code), p.code)
 			next.size = p.size
+			for _, proxy := range p.proxies {
+				fn.PointTo(proxy, common.PtrOf(next.code))
+			}
+			next.proxies = append(next.proxies, p.proxies...)
 		}
 		applied[p.base] = append(patches[:i:i], patches[i+1:]...)
 		break
@@ -61,6 +71,15 @@ func (p *Patch) Unpatch() {
 	common.ReleasePage(p.code)
 }
 
+func (p *Patch) dropProxy(proxy reflect.Value) {
+	for i := range p.proxies {
+		if p.proxies[i].Pointer() == proxy.Pointer() {
+			p.proxies = append(p.proxies[:i:i], p.proxies[i+1:]...)
+			return
+		}
+	}
+}
+
 // PatchValue replace the target function with a hook function, and stores the target function in the proxy function
 // for future restore. Target and hook are values of function. Proxy is a value of proxy function pointer.
 func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch {
@@ -94,7 +113,10 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	// replace target function codes before the cutting point
 	mem.WriteWithSTW(targetAddr, hookCode)
 
-	patch := &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx}
+	for _, p := range applied[targetAddr] {
+		p.dropProxy(proxy)
+	}
+	patch := &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx, proxies: []reflect.Value{proxy}}
 	applied[targetAddr] = append(applied[targetAddr], patch)
 	return patch
 }
diff --git a/mock.go b/mock.go
index 90ef754..8f0ccdf 100644
--- a/mock.go
+++ b/mock.go
@@ -330,7 +330,11 @@ func (mocker *Mocker) checkOrigin(funcPtr interface{}) bool {
 
 // buildProx create a proxyCaller which could call origin directly
 func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
-	proxy := reflect.New(mocker.codeType())
+	// a running hook keeps the proxy, so it must stay the same when the hook is built again
+	if mocker.proxy == nil {
+		mocker.proxy = reflect.New(mocker.codeType()).Interface()
+	}
+	proxy := reflect.ValueOf(mocker.proxy)
 
 	proxyCallerSetter := func(args []reflect.Value) {}
 	if mocker.builder.proxyCaller != nil {
@@ -349,7 +353,6 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 			}))
 		}
 	}
-	mocker.proxy = proxy.Interface()
 	return proxyCallerSetter
 }
 
-- 
2.43.0


From 1594fe63dc303c4a2ef63278f19d808ce05a2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:18 +0000
Subject: [PATCH 18/18] fix: a mock returned other values after the caller
 changed the slice that it had passed to Return or Sequence

---
 mock_condition.go | 2 ++
 mock_sequence.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mock_condition.go b/mock_condition.go
index 428e2a5..a672b90 100644
--- a/mock_condition.go
+++ b/mock_condition.go
@@ -65,6 +65,8 @@ func (m *mockCondition) SetReturn(results ...interface{}) {
 }
 
 func (m *mockCondition) SetReturnForce(results ...interface{}) {
+	// the caller may use its slice for something else
+	results = append([]interface{}{}, results...)
 	getResult := func() []interface{} { return results }
 	if len(results) == 1 {
 		seq, ok := results[0].(SequenceOpt)
diff --git a/mock_sequence.go b/mock_sequence.go
index 76a256d..d58d217 100644
--- a/mock_sequence.go
+++ b/mock_sequence.go
@@ -64,6 +64,8 @@ func (s *sequence) GetNext() []interface{} {
 }
 
 func (s *sequence) Then(value ...interface{}) sequenceOpt {
+	// the caller may use its slice for something else
+	value = append([]interface{}{}, value...)
 	s.values = append(s.values, &sequenceValue{
 		v: value,
 		t: 1,
-- 
2.43.0

