From 500ff9a4da41f0a20bc599bbce1d84bda362857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 01/72] fix: after-steps of several recorders ran the last
 one's closure

The post closures captured the loop variable, which the runtime module
(go 1.14) shares between iterations: with two recorders or interceptors
on one call the last one's post ran for each of them, or nil was called.
---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 2 ++
 cmd/xgo/asset/runtime_gen/internal/trap/var.go  | 2 ++
 runtime/internal/trap/trap.go                   | 2 ++
 runtime/internal/trap/var.go                    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 879b509..06d840d 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -155,6 +155,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var postRecordersAndInterceptors []func()
 	var mocked bool
 	for _, h := range recordHandlers {
+		h := h // captured by the closure below, module is go1.14
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
@@ -176,6 +177,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	if !mocked {
 		for _, h := range interceptors {
+			h := h // captured by the closure below, module is go1.14
 			var data interface{}
 			var stop bool
 			if h.pre != nil {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/var.go b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
index 391589a..1c2aea0 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/var.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
@@ -109,6 +109,7 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
 	for _, recorder := range recorders {
+		recorder := recorder // captured by the closure below, module is go1.14
 		var data interface{}
 		if recorder.pre != nil {
 			data, _ = recorder.pre(funcInfo, res)
@@ -122,6 +123,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		interceptor := interceptor // captured by the closure below, module is go1.14
 		var data interface{}
 		if interceptor.pre != nil {
 			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 879b509..06d840d 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -155,6 +155,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var postRecordersAndInterceptors []func()
 	var mocked bool
 	for _, h := range recordHandlers {
+		h := h // captured by the closure below, module is go1.14
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
@@ -176,6 +177,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	if !mocked {
 		for _, h := range interceptors {
+			h := h // captured by the closure below, module is go1.14
 			var data interface{}
 			var stop bool
 			if h.pre != nil {
diff --git a/runtime/internal/trap/var.go b/runtime/internal/trap/var.go
index 391589a..1c2aea0 100644
--- a/runtime/internal/trap/var.go
+++ b/runtime/internal/trap/var.go
@@ -109,6 +109,7 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
 	for _, recorder := range recorders {
+		recorder := recorder // captured by the closure below, module is go1.14
 		var data interface{}
 		if recorder.pre != nil {
 			data, _ = recorder.pre(funcInfo, res)
@@ -122,6 +123,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		interceptor := interceptor // captured by the closure below, module is go1.14
 		var data interface{}
 		if interceptor.pre != nil {
 			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
-- 
2.43.0


From 2201ea6cbe8ef748f371f28ff81a848a403d5540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 02/72] fix: inherited recorders keep their instance

A goroutine started while a recorder bound to one receiver was active ran
it for every receiver: the copy dropped wantRecvPtr.
---
 cmd/xgo/asset/runtime_gen/internal/trap/init.go | 5 +++--
 runtime/internal/trap/init.go                   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/init.go b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
index ec2d5e8..509e16c 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/init.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
@@ -113,8 +113,9 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		newRecorders[pc] = make([]*recorderHolder, len(recorders))
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
-				pre:  recorder.pre,
-				post: recorder.post,
+				wantRecvPtr: recorder.wantRecvPtr,
+				pre:         recorder.pre,
+				post:        recorder.post,
 			}
 		}
 	}
diff --git a/runtime/internal/trap/init.go b/runtime/internal/trap/init.go
index ec2d5e8..509e16c 100644
--- a/runtime/internal/trap/init.go
+++ b/runtime/internal/trap/init.go
@@ -113,8 +113,9 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		newRecorders[pc] = make([]*recorderHolder, len(recorders))
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
-				pre:  recorder.pre,
-				post: recorder.post,
+				wantRecvPtr: recorder.wantRecvPtr,
+				pre:         recorder.pre,
+				post:        recorder.post,
 			}
 		}
 	}
-- 
2.43.0


From ade393408ac2f4ab41322b581d337aa684351137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 03/72] fix: receivers of uncomparable types no longer panic

A mock or recorder bound to an instance made every call of the method
panic when the receiver's type has slices, maps or functions in it.
---
 cmd/xgo/asset/runtime_gen/internal/trap/mock.go | 4 ++++
 runtime/internal/trap/mock.go                   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index e6b4a9b..e7df23f 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -364,6 +364,10 @@ func sameReceiver(recvPtr interface{}, actRecvPtr interface{}) bool {
 	// assume both are non-nil
 	recvPtrVal := reflect.ValueOf(recvPtr)
 	actRecvPtrVal := reflect.ValueOf(actRecvPtr)
+	if !recvPtrVal.Elem().Type().Comparable() {
+		// comparing them with == panics
+		return reflect.DeepEqual(recvPtrVal.Elem().Interface(), actRecvPtrVal.Elem().Interface())
+	}
 	return recvPtrVal.Elem().Interface() == actRecvPtrVal.Elem().Interface()
 }
 
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index e6b4a9b..e7df23f 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -364,6 +364,10 @@ func sameReceiver(recvPtr interface{}, actRecvPtr interface{}) bool {
 	// assume both are non-nil
 	recvPtrVal := reflect.ValueOf(recvPtr)
 	actRecvPtrVal := reflect.ValueOf(actRecvPtr)
+	if !recvPtrVal.Elem().Type().Comparable() {
+		// comparing them with == panics
+		return reflect.DeepEqual(recvPtrVal.Elem().Interface(), actRecvPtrVal.Elem().Interface())
+	}
 	return recvPtrVal.Elem().Interface() == actRecvPtrVal.Elem().Interface()
 }
 
-- 
2.43.0


From 96aa7f681c93835a36b897bc3d5a5600005ffd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 04/72] fix: trace.Record on a variable

The check that both recorders take the variable in the same way was
inverted, so that recording a variable always panicked; and a lone
post-recorder taking a pointer was registered for reads of the value.
---
 cmd/xgo/asset/runtime_gen/internal/trap/record.go | 4 ++--
 runtime/internal/trap/record.go                   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/record.go b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
index fcea21d..8ab8ad6 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/record.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
@@ -56,11 +56,11 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 				postV.Call([]reflect.Value{arg})
 			}
 		}
-		if pre != nil && post != nil && preIsPtr == postIsPtr {
+		if pre != nil && post != nil && preIsPtr != postIsPtr {
 			panic(fmt.Errorf("pre-recorder and post-recorder should have the same type, actual: pre has %T, post has %T", pre, post))
 		}
 
-		if !preIsPtr {
+		if !preIsPtr && !postIsPtr {
 			return PushVarRecordHandler(varPtr, preHandler, postHandler)
 		}
 		return PushVarPtrRecordHandler(varPtr, preHandler, postHandler)
diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index fcea21d..8ab8ad6 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -56,11 +56,11 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 				postV.Call([]reflect.Value{arg})
 			}
 		}
-		if pre != nil && post != nil && preIsPtr == postIsPtr {
+		if pre != nil && post != nil && preIsPtr != postIsPtr {
 			panic(fmt.Errorf("pre-recorder and post-recorder should have the same type, actual: pre has %T, post has %T", pre, post))
 		}
 
-		if !preIsPtr {
+		if !preIsPtr && !postIsPtr {
 			return PushVarRecordHandler(varPtr, preHandler, postHandler)
 		}
 		return PushVarPtrRecordHandler(varPtr, preHandler, postHandler)
-- 
2.43.0


From 753b4e5b9435363d2c78613f19754986068d17b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 05/72] fix: mock.PatchMethodByName with a replacer of the
 right type

The comparison of the parameters ran past the end of the method's and
panicked with index out of range for every replacer it should accept.
---
 cmd/xgo/asset/runtime_gen/internal/trap/object.go | 2 +-
 runtime/internal/trap/object.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/object.go b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
index 831bf43..29ed304 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/object.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
@@ -168,7 +168,7 @@ func checkFuncTypeMatch(a reflect.Type, b reflect.Type, skipAFirst bool) (atype
 		return formatFuncType(a, skipAFirst), formatFuncType(b, false), false
 	}
 
-	for i := 0; i < na; i++ {
+	for i := 0; i < nb; i++ {
 		ta := a.In(i + base)
 		tb := b.In(i)
 		if ta != tb {
diff --git a/runtime/internal/trap/object.go b/runtime/internal/trap/object.go
index 831bf43..29ed304 100644
--- a/runtime/internal/trap/object.go
+++ b/runtime/internal/trap/object.go
@@ -168,7 +168,7 @@ func checkFuncTypeMatch(a reflect.Type, b reflect.Type, skipAFirst bool) (atype
 		return formatFuncType(a, skipAFirst), formatFuncType(b, false), false
 	}
 
-	for i := 0; i < na; i++ {
+	for i := 0; i < nb; i++ {
 		ta := a.In(i + base)
 		tb := b.In(i)
 		if ta != tb {
-- 
2.43.0


From 0e90a89ea0b274fb6da55d79f7fecd8e7492b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 06/72] fix: mocking an unknown *name reports it

The lookup of a variable's address by name dereferenced nil instead of
panicking with the name that was not found.
---
 cmd/xgo/asset/runtime_gen/internal/trap/mock.go | 2 +-
 runtime/internal/trap/mock.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index e7df23f..b545919 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -329,7 +329,7 @@ func pushMockReplacerMethodByName(instance interface{}, method string, replacer
 func getFuncByName(pkgPath string, funcName string) (recvPtr interface{}, fn *core.FuncInfo, funcPC uintptr, trappingPC uintptr) {
 	if strings.HasPrefix(funcName, "*") {
 		ptrFn := functab.GetFuncByPkg(pkgPath, funcName[1:])
-		if ptrFn.Kind == core.Kind_Var {
+		if ptrFn != nil && ptrFn.Kind == core.Kind_Var {
 			return ptrFn.Var, ptrFn, ptrFn.PC, ptrFn.PC
 		}
 	}
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index e7df23f..b545919 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -329,7 +329,7 @@ func pushMockReplacerMethodByName(instance interface{}, method string, replacer
 func getFuncByName(pkgPath string, funcName string) (recvPtr interface{}, fn *core.FuncInfo, funcPC uintptr, trappingPC uintptr) {
 	if strings.HasPrefix(funcName, "*") {
 		ptrFn := functab.GetFuncByPkg(pkgPath, funcName[1:])
-		if ptrFn.Kind == core.Kind_Var {
+		if ptrFn != nil && ptrFn.Kind == core.Kind_Var {
 			return ptrFn.Var, ptrFn, ptrFn.PC, ptrFn.PC
 		}
 	}
-- 
2.43.0


From 68aa4d7350a5470aac24635cd96262e441443041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 07/72] fix: MockByName("*name") reports the interceptor's
 error

It was dropped, where MockByName("name") and Mock(&name) panic with it.
---
 cmd/xgo/asset/runtime_gen/internal/trap/mock.go | 8 +++++++-
 runtime/internal/trap/mock.go                   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index b545919..219aa16 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -68,7 +68,13 @@ func PushMockByName(pkgPath string, funcName string, interceptor Interceptor) fu
 						valPtr: res,
 					},
 				}
-				interceptor(context.Background(), fnInfo, argObj, resObject)
+				err := interceptor(context.Background(), fnInfo, argObj, resObject)
+				if err != nil {
+					if err == ErrMocked {
+						return
+					}
+					panic(err)
+				}
 			}
 			return pushVarPtrMockHandler(reflect.ValueOf(funcInfo.Var).Pointer(), handler)
 		}
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index b545919..219aa16 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -68,7 +68,13 @@ func PushMockByName(pkgPath string, funcName string, interceptor Interceptor) fu
 						valPtr: res,
 					},
 				}
-				interceptor(context.Background(), fnInfo, argObj, resObject)
+				err := interceptor(context.Background(), fnInfo, argObj, resObject)
+				if err != nil {
+					if err == ErrMocked {
+						return
+					}
+					panic(err)
+				}
 			}
 			return pushVarPtrMockHandler(reflect.ValueOf(funcInfo.Var).Pointer(), handler)
 		}
-- 
2.43.0


From de836437c47f2ffe758bf1384f576459a2d5611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 08/72] fix: a mock of one instance no longer disables those of
 others

Only the last mock of a method was considered: patching b.M made a call
of a.M run the original although a.M was patched as well, and a mock
bound to an instance hid global ones from every other receiver.
---
 .../runtime_gen/internal/trap/stack_data.go   | 25 ++++++++++++-------
 .../asset/runtime_gen/internal/trap/trap.go   |  7 +-----
 runtime/internal/trap/stack_data.go           | 25 ++++++++++++-------
 runtime/internal/trap/trap.go                 |  7 +-----
 4 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index 146281c..e96d737 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -78,19 +78,26 @@ type varRecordHolder struct {
 	post func(fnInfo *core.FuncInfo, res interface{}, data interface{})
 }
 
-func (c *StackData) getLastMock(pc uintptr) (recvPtr interface{}, mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
-	var mockList []*mockHolder
+// getLastMock returns the latest mock that applies to the receiver, mocks of
+// the goroutine take precedence over global ones.
+func (c *StackData) getLastMock(pc uintptr, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
 	if c != nil {
-		mockList = c.interceptors.mock[pc]
+		mock := lastMatchingMock(c.interceptors.mock[pc], recvPtr)
+		if mock != nil {
+			return mock
+		}
 	}
-	if len(mockList) == 0 {
-		mockList = globalInterceptorHolder.mock[pc]
-		if len(mockList) == 0 {
-			return nil, nil
+	return lastMatchingMock(globalInterceptorHolder.mock[pc], recvPtr)
+}
+
+func lastMatchingMock(list []*mockHolder, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+	for i := len(list) - 1; i >= 0; i-- {
+		m := list[i]
+		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+			return m.mock
 		}
 	}
-	m := mockList[len(mockList)-1]
-	return m.wantRecvPtr, m.mock
+	return nil
 }
 
 func (c *StackData) getLastVarMock(varAddr uintptr) (mock func(fnInfo *core.FuncInfo, res interface{})) {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 06d840d..a056737 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -48,8 +48,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	pkg := funcInfo.Pkg
 	name := funcInfo.IdentityName
 
-	var mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
-
 	var isTesting bool
 	var testName string
 
@@ -135,7 +133,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	wantPtr, mockFn := stackData.getLastMock(fnPC)
+	mock := stackData.getLastMock(fnPC, recvPtr)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -148,9 +146,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		// targeted function
 		interceptors = stackData.getGeneralInterceptors()
 	}
-	if mockFn != nil && (wantPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, wantPtr))) {
-		mock = mockFn
-	}
 
 	var postRecordersAndInterceptors []func()
 	var mocked bool
diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index 146281c..e96d737 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -78,19 +78,26 @@ type varRecordHolder struct {
 	post func(fnInfo *core.FuncInfo, res interface{}, data interface{})
 }
 
-func (c *StackData) getLastMock(pc uintptr) (recvPtr interface{}, mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
-	var mockList []*mockHolder
+// getLastMock returns the latest mock that applies to the receiver, mocks of
+// the goroutine take precedence over global ones.
+func (c *StackData) getLastMock(pc uintptr, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
 	if c != nil {
-		mockList = c.interceptors.mock[pc]
+		mock := lastMatchingMock(c.interceptors.mock[pc], recvPtr)
+		if mock != nil {
+			return mock
+		}
 	}
-	if len(mockList) == 0 {
-		mockList = globalInterceptorHolder.mock[pc]
-		if len(mockList) == 0 {
-			return nil, nil
+	return lastMatchingMock(globalInterceptorHolder.mock[pc], recvPtr)
+}
+
+func lastMatchingMock(list []*mockHolder, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
+	for i := len(list) - 1; i >= 0; i-- {
+		m := list[i]
+		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+			return m.mock
 		}
 	}
-	m := mockList[len(mockList)-1]
-	return m.wantRecvPtr, m.mock
+	return nil
 }
 
 func (c *StackData) getLastVarMock(varAddr uintptr) (mock func(fnInfo *core.FuncInfo, res interface{})) {
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 06d840d..a056737 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -48,8 +48,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	pkg := funcInfo.Pkg
 	name := funcInfo.IdentityName
 
-	var mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool
-
 	var isTesting bool
 	var testName string
 
@@ -135,7 +133,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	wantPtr, mockFn := stackData.getLastMock(fnPC)
+	mock := stackData.getLastMock(fnPC, recvPtr)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -148,9 +146,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		// targeted function
 		interceptors = stackData.getGeneralInterceptors()
 	}
-	if mockFn != nil && (wantPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, wantPtr))) {
-		mock = mockFn
-	}
 
 	var postRecordersAndInterceptors []func()
 	var mocked bool
-- 
2.43.0


From 8c1532aadb637c8c4743c144e4fc5bdebe994bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 09/72] fix: goroutines started outside any traced call appear
 in the trace

A goroutine of a traced goroutine was dropped from the trace, with all of
its calls, unless an instrumented call was open where it was started.
---
 cmd/xgo/asset/runtime_gen/internal/stack/stack.go | 12 ++++++++----
 runtime/internal/stack/stack.go                   | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/stack/stack.go b/cmd/xgo/asset/runtime_gen/internal/stack/stack.go
index d4e1888..b837eda 100755
--- a/cmd/xgo/asset/runtime_gen/internal/stack/stack.go
+++ b/cmd/xgo/asset/runtime_gen/internal/stack/stack.go
@@ -152,22 +152,26 @@ func (c *Stack) Finish(cur *Entry, oldTop *Entry, end time.Time, setStackEnd boo
 	c.Depth--
 }
 
-// AppendGoChild attaches a synthetic "go" node under the current Top under lock.
+// AppendGoChild attaches a synthetic "go" node under the current Top, or to
+// the roots without one, under lock.
 func (c *Stack) AppendGoChild(beginNs int64, getStack func() *Stack) {
 	if c == nil {
 		return
 	}
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	if c.Top == nil {
-		return
-	}
 	child := &Entry{
 		BeginNs:  beginNs,
 		Go:       true,
 		FuncName: "go",
 		GetStack: getStack,
 	}
+	if c.Top == nil {
+		// the goroutine has no open call, a traced goroutine itself
+		// started by another one for example
+		c.Roots = append(c.Roots, child)
+		return
+	}
 	c.Top.Children = append(c.Top.Children, child)
 }
 
diff --git a/runtime/internal/stack/stack.go b/runtime/internal/stack/stack.go
index d4e1888..b837eda 100644
--- a/runtime/internal/stack/stack.go
+++ b/runtime/internal/stack/stack.go
@@ -152,22 +152,26 @@ func (c *Stack) Finish(cur *Entry, oldTop *Entry, end time.Time, setStackEnd boo
 	c.Depth--
 }
 
-// AppendGoChild attaches a synthetic "go" node under the current Top under lock.
+// AppendGoChild attaches a synthetic "go" node under the current Top, or to
+// the roots without one, under lock.
 func (c *Stack) AppendGoChild(beginNs int64, getStack func() *Stack) {
 	if c == nil {
 		return
 	}
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	if c.Top == nil {
-		return
-	}
 	child := &Entry{
 		BeginNs:  beginNs,
 		Go:       true,
 		FuncName: "go",
 		GetStack: getStack,
 	}
+	if c.Top == nil {
+		// the goroutine has no open call, a traced goroutine itself
+		// started by another one for example
+		c.Roots = append(c.Roots, child)
+		return
+	}
 	c.Top.Children = append(c.Top.Children, child)
 }
 
-- 
2.43.0


From c1e027128418f35c6546baf11cce4e49682e3f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 10/72] fix: handlers that add or cancel handlers no longer
 disturb the call

The list of handlers of a call was iterated while a handler could remove
from it in place, so that others were skipped, or ran twice.
---
 .../runtime_gen/internal/trap/stack_data.go   | 64 ++++++++-----------
 runtime/internal/trap/stack_data.go           | 64 ++++++++-----------
 2 files changed, 56 insertions(+), 72 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index e96d737..32b6ed2 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -136,16 +136,14 @@ func (c *StackData) getRecordHandlers(pc uintptr) []*recorderHolder {
 	if c != nil {
 		localRecorders = c.interceptors.recorder[pc]
 	}
-	if len(globalRecorders) > 0 && len(localRecorders) > 0 {
-		list := make([]*recorderHolder, len(localRecorders)+len(globalRecorders))
-		copy(list, localRecorders)
-		copy(list[len(localRecorders):], globalRecorders)
-		return list
-	}
-	if len(localRecorders) > 0 {
-		return localRecorders
+	if len(globalRecorders) == 0 && len(localRecorders) == 0 {
+		return nil
 	}
-	return globalRecorders
+	// a copy: the lists change when a handler adds or cancels others
+	list := make([]*recorderHolder, len(localRecorders)+len(globalRecorders))
+	copy(list, localRecorders)
+	copy(list[len(localRecorders):], globalRecorders)
+	return list
 }
 
 func (c *StackData) getVarRecordHandlers(varAddr uintptr) []*varRecordHolder {
@@ -154,16 +152,14 @@ func (c *StackData) getVarRecordHandlers(varAddr uintptr) []*varRecordHolder {
 	if c != nil {
 		localVarRecorders = c.interceptors.varRecorder[varAddr]
 	}
-	if len(globalVarRecorders) > 0 && len(localVarRecorders) > 0 {
-		list := make([]*varRecordHolder, len(localVarRecorders)+len(globalVarRecorders))
-		copy(list, localVarRecorders)
-		copy(list[len(localVarRecorders):], globalVarRecorders)
-		return list
-	}
-	if len(localVarRecorders) > 0 {
-		return localVarRecorders
+	if len(globalVarRecorders) == 0 && len(localVarRecorders) == 0 {
+		return nil
 	}
-	return globalVarRecorders
+	// a copy: the lists change when a handler adds or cancels others
+	list := make([]*varRecordHolder, len(localVarRecorders)+len(globalVarRecorders))
+	copy(list, localVarRecorders)
+	copy(list[len(localVarRecorders):], globalVarRecorders)
+	return list
 }
 
 func (c *StackData) getVarPtrRecordHandlers(varAddr uintptr) []*varRecordHolder {
@@ -172,16 +168,14 @@ func (c *StackData) getVarPtrRecordHandlers(varAddr uintptr) []*varRecordHolder
 	if c != nil {
 		localVarPtrRecorders = c.interceptors.varPtrRecorder[varAddr]
 	}
-	if len(globalVarPtrRecorders) > 0 && len(localVarPtrRecorders) > 0 {
-		list := make([]*varRecordHolder, len(localVarPtrRecorders)+len(globalVarPtrRecorders))
-		copy(list, localVarPtrRecorders)
-		copy(list[len(localVarPtrRecorders):], globalVarPtrRecorders)
-		return list
-	}
-	if len(localVarPtrRecorders) > 0 {
-		return localVarPtrRecorders
+	if len(globalVarPtrRecorders) == 0 && len(localVarPtrRecorders) == 0 {
+		return nil
 	}
-	return globalVarPtrRecorders
+	// a copy: the lists change when a handler adds or cancels others
+	list := make([]*varRecordHolder, len(localVarPtrRecorders)+len(globalVarPtrRecorders))
+	copy(list, localVarPtrRecorders)
+	copy(list[len(localVarPtrRecorders):], globalVarPtrRecorders)
+	return list
 }
 
 func (c *StackData) getGeneralInterceptors() []*recorderHolder {
@@ -190,14 +184,12 @@ func (c *StackData) getGeneralInterceptors() []*recorderHolder {
 	if c != nil {
 		localInterceptors = c.interceptors.interceptors
 	}
-	if len(globalInterceptors) > 0 && len(localInterceptors) > 0 {
-		list := make([]*recorderHolder, len(localInterceptors)+len(globalInterceptors))
-		copy(list, localInterceptors)
-		copy(list[len(localInterceptors):], globalInterceptors)
-		return list
-	}
-	if len(localInterceptors) > 0 {
-		return localInterceptors
+	if len(globalInterceptors) == 0 && len(localInterceptors) == 0 {
+		return nil
 	}
-	return globalInterceptors
+	// a copy: the lists change when a handler adds or cancels others
+	list := make([]*recorderHolder, len(localInterceptors)+len(globalInterceptors))
+	copy(list, localInterceptors)
+	copy(list[len(localInterceptors):], globalInterceptors)
+	return list
 }
diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index e96d737..32b6ed2 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -136,16 +136,14 @@ func (c *StackData) getRecordHandlers(pc uintptr) []*recorderHolder {
 	if c != nil {
 		localRecorders = c.interceptors.recorder[pc]
 	}
-	if len(globalRecorders) > 0 && len(localRecorders) > 0 {
-		list := make([]*recorderHolder, len(localRecorders)+len(globalRecorders))
-		copy(list, localRecorders)
-		copy(list[len(localRecorders):], globalRecorders)
-		return list
-	}
-	if len(localRecorders) > 0 {
-		return localRecorders
+	if len(globalRecorders) == 0 && len(localRecorders) == 0 {
+		return nil
 	}
-	return globalRecorders
+	// a copy: the lists change when a handler adds or cancels others
+	list := make([]*recorderHolder, len(localRecorders)+len(globalRecorders))
+	copy(list, localRecorders)
+	copy(list[len(localRecorders):], globalRecorders)
+	return list
 }
 
 func (c *StackData) getVarRecordHandlers(varAddr uintptr) []*varRecordHolder {
@@ -154,16 +152,14 @@ func (c *StackData) getVarRecordHandlers(varAddr uintptr) []*varRecordHolder {
 	if c != nil {
 		localVarRecorders = c.interceptors.varRecorder[varAddr]
 	}
-	if len(globalVarRecorders) > 0 && len(localVarRecorders) > 0 {
-		list := make([]*varRecordHolder, len(localVarRecorders)+len(globalVarRecorders))
-		copy(list, localVarRecorders)
-		copy(list[len(localVarRecorders):], globalVarRecorders)
-		return list
-	}
-	if len(localVarRecorders) > 0 {
-		return localVarRecorders
+	if len(globalVarRecorders) == 0 && len(localVarRecorders) == 0 {
+		return nil
 	}
-	return globalVarRecorders
+	// a copy: the lists change when a handler adds or cancels others
+	list := make([]*varRecordHolder, len(localVarRecorders)+len(globalVarRecorders))
+	copy(list, localVarRecorders)
+	copy(list[len(localVarRecorders):], globalVarRecorders)
+	return list
 }
 
 func (c *StackData) getVarPtrRecordHandlers(varAddr uintptr) []*varRecordHolder {
@@ -172,16 +168,14 @@ func (c *StackData) getVarPtrRecordHandlers(varAddr uintptr) []*varRecordHolder
 	if c != nil {
 		localVarPtrRecorders = c.interceptors.varPtrRecorder[varAddr]
 	}
-	if len(globalVarPtrRecorders) > 0 && len(localVarPtrRecorders) > 0 {
-		list := make([]*varRecordHolder, len(localVarPtrRecorders)+len(globalVarPtrRecorders))
-		copy(list, localVarPtrRecorders)
-		copy(list[len(localVarPtrRecorders):], globalVarPtrRecorders)
-		return list
-	}
-	if len(localVarPtrRecorders) > 0 {
-		return localVarPtrRecorders
+	if len(globalVarPtrRecorders) == 0 && len(localVarPtrRecorders) == 0 {
+		return nil
 	}
-	return globalVarPtrRecorders
+	// a copy: the lists change when a handler adds or cancels others
+	list := make([]*varRecordHolder, len(localVarPtrRecorders)+len(globalVarPtrRecorders))
+	copy(list, localVarPtrRecorders)
+	copy(list[len(localVarPtrRecorders):], globalVarPtrRecorders)
+	return list
 }
 
 func (c *StackData) getGeneralInterceptors() []*recorderHolder {
@@ -190,14 +184,12 @@ func (c *StackData) getGeneralInterceptors() []*recorderHolder {
 	if c != nil {
 		localInterceptors = c.interceptors.interceptors
 	}
-	if len(globalInterceptors) > 0 && len(localInterceptors) > 0 {
-		list := make([]*recorderHolder, len(localInterceptors)+len(globalInterceptors))
-		copy(list, localInterceptors)
-		copy(list[len(localInterceptors):], globalInterceptors)
-		return list
-	}
-	if len(localInterceptors) > 0 {
-		return localInterceptors
+	if len(globalInterceptors) == 0 && len(localInterceptors) == 0 {
+		return nil
 	}
-	return globalInterceptors
+	// a copy: the lists change when a handler adds or cancels others
+	list := make([]*recorderHolder, len(localInterceptors)+len(globalInterceptors))
+	copy(list, localInterceptors)
+	copy(list[len(localInterceptors):], globalInterceptors)
+	return list
 }
-- 
2.43.0


From d6087e06150968f30d58a413013f84104bf4a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 11/72] fix: a panicking after-step no longer drops the others

The remaining after-steps of the call did not run, and the call stayed
open in the trace, so that everything later was nested in it.
---
 .../asset/runtime_gen/internal/trap/trap.go   | 42 ++++++++++---------
 runtime/internal/trap/trap.go                 | 42 ++++++++++---------
 2 files changed, 44 insertions(+), 40 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index a056737..8a267be 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -192,16 +192,8 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		}
 	}
 	if len(postRecordersAndInterceptors) > 0 {
-		if len(postRecordersAndInterceptors) == 1 {
-			postRecorder = postRecordersAndInterceptors[0]
-		} else {
-			postRecorder = func() {
-				// reversed
-				n := len(postRecordersAndInterceptors)
-				for i := n - 1; i >= 0; i-- {
-					postRecordersAndInterceptors[i]()
-				}
-			}
+		postRecorder = func() {
+			runReversed(postRecordersAndInterceptors)
 		}
 	}
 
@@ -327,15 +319,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	})
 
 	var hitMock bool
-	post := func() {
-		xgo_runtime.GetG().IncTrappingDepth()
-		defer xgo_runtime.GetG().DecTrappingDepth()
-
-		// NOTE: this defer might be executed on system stack
-		// so cannot defer
-		if postRecorder != nil {
-			postRecorder()
-		}
+	finish := func() {
 		// on Windows, short stack might resolve to same
 		// nanosecond
 		// see https://github.com/xhd2015/xgo/issues/307
@@ -379,7 +363,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			//      doThingsPanic()  <-- this reported
 			//    }
 			callerPCs := make([]uintptr, 10)
-			npc := runtime.Callers(2, callerPCs)
+			npc := runtime.Callers(3, callerPCs)
 			callerPCs = callerPCs[:npc]
 			// check which pc matches
 			for _, pc := range callerPCs {
@@ -443,6 +427,16 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			stack.Detach()
 		}
 	}
+	post := func() {
+		xgo_runtime.GetG().IncTrappingDepth()
+		defer xgo_runtime.GetG().DecTrappingDepth()
+
+		// deferred, to close the entry even if the recorder panics
+		defer finish()
+		if postRecorder != nil {
+			postRecorder()
+		}
+	}
 	if mocked {
 		hitMock = true
 		return post, true
@@ -453,6 +447,14 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	return post, false
 }
 
+// runReversed calls the last function first. The others still
+// run if one of them panics.
+func runReversed(fns []func()) {
+	for _, fn := range fns {
+		defer fn()
+	}
+}
+
 type StackDataExportImpl struct {
 	data *stack_model.Stack
 
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index a056737..8a267be 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -192,16 +192,8 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		}
 	}
 	if len(postRecordersAndInterceptors) > 0 {
-		if len(postRecordersAndInterceptors) == 1 {
-			postRecorder = postRecordersAndInterceptors[0]
-		} else {
-			postRecorder = func() {
-				// reversed
-				n := len(postRecordersAndInterceptors)
-				for i := n - 1; i >= 0; i-- {
-					postRecordersAndInterceptors[i]()
-				}
-			}
+		postRecorder = func() {
+			runReversed(postRecordersAndInterceptors)
 		}
 	}
 
@@ -327,15 +319,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	})
 
 	var hitMock bool
-	post := func() {
-		xgo_runtime.GetG().IncTrappingDepth()
-		defer xgo_runtime.GetG().DecTrappingDepth()
-
-		// NOTE: this defer might be executed on system stack
-		// so cannot defer
-		if postRecorder != nil {
-			postRecorder()
-		}
+	finish := func() {
 		// on Windows, short stack might resolve to same
 		// nanosecond
 		// see https://github.com/xhd2015/xgo/issues/307
@@ -379,7 +363,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			//      doThingsPanic()  <-- this reported
 			//    }
 			callerPCs := make([]uintptr, 10)
-			npc := runtime.Callers(2, callerPCs)
+			npc := runtime.Callers(3, callerPCs)
 			callerPCs = callerPCs[:npc]
 			// check which pc matches
 			for _, pc := range callerPCs {
@@ -443,6 +427,16 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			stack.Detach()
 		}
 	}
+	post := func() {
+		xgo_runtime.GetG().IncTrappingDepth()
+		defer xgo_runtime.GetG().DecTrappingDepth()
+
+		// deferred, to close the entry even if the recorder panics
+		defer finish()
+		if postRecorder != nil {
+			postRecorder()
+		}
+	}
 	if mocked {
 		hitMock = true
 		return post, true
@@ -453,6 +447,14 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	return post, false
 }
 
+// runReversed calls the last function first. The others still
+// run if one of them panics.
+func runReversed(fns []func()) {
+	for _, fn := range fns {
+		defer fn()
+	}
+}
+
 type StackDataExportImpl struct {
 	data *stack_model.Stack
 
-- 
2.43.0


From 42e79f08918f95efda915f0c6efcf0cfb9135229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 12/72] fix: after-steps run when a mock or before-step panics

They were skipped, and a call in a trace stayed open: every later call of
the goroutine was nested in it.
---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 17 +++++++++++++++++
 runtime/internal/trap/trap.go                   | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 8a267be..f95583e 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -148,6 +148,16 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	}
 
 	var postRecordersAndInterceptors []func()
+	// what to do if a handler panics: the function then does not
+	// get to the point where it defers the after-steps
+	due := func() {
+		runReversed(postRecordersAndInterceptors)
+	}
+	defer func() {
+		if due != nil {
+			due()
+		}
+	}()
 	var mocked bool
 	for _, h := range recordHandlers {
 		h := h // captured by the closure below, module is go1.14
@@ -211,6 +221,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			postRecorder()
 		}
 	}
+	due = nil
 	// === end check mock and interceptors ===
 	if !mocked {
 		if depth > 1 {
@@ -218,7 +229,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			// mock and recorders to run
 			// no tracing and general interceptors can run
 			if mock != nil {
+				due = callRecorderWithDepth
 				ok := mock(funcInfo, recvPtr, args, results)
+				due = nil
 				// ok=true indicates not call old function
 				return callRecorderWithDepth, ok
 			}
@@ -228,7 +241,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		if !allowTracingThisEntry {
 			// without tracing, mock becomes simpler
 			if mock != nil {
+				due = callRecorderWithDepth
 				ok := mock(funcInfo, recvPtr, args, results)
+				due = nil
 				// ok=true indicates not call old function
 				return callRecorderWithDepth, ok
 			}
@@ -441,7 +456,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		hitMock = true
 		return post, true
 	} else if mock != nil {
+		due = post
 		hitMock = mock(funcInfo, recvPtr, args, results)
+		due = nil
 		return post, hitMock
 	}
 	return post, false
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 8a267be..f95583e 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -148,6 +148,16 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	}
 
 	var postRecordersAndInterceptors []func()
+	// what to do if a handler panics: the function then does not
+	// get to the point where it defers the after-steps
+	due := func() {
+		runReversed(postRecordersAndInterceptors)
+	}
+	defer func() {
+		if due != nil {
+			due()
+		}
+	}()
 	var mocked bool
 	for _, h := range recordHandlers {
 		h := h // captured by the closure below, module is go1.14
@@ -211,6 +221,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			postRecorder()
 		}
 	}
+	due = nil
 	// === end check mock and interceptors ===
 	if !mocked {
 		if depth > 1 {
@@ -218,7 +229,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			// mock and recorders to run
 			// no tracing and general interceptors can run
 			if mock != nil {
+				due = callRecorderWithDepth
 				ok := mock(funcInfo, recvPtr, args, results)
+				due = nil
 				// ok=true indicates not call old function
 				return callRecorderWithDepth, ok
 			}
@@ -228,7 +241,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		if !allowTracingThisEntry {
 			// without tracing, mock becomes simpler
 			if mock != nil {
+				due = callRecorderWithDepth
 				ok := mock(funcInfo, recvPtr, args, results)
+				due = nil
 				// ok=true indicates not call old function
 				return callRecorderWithDepth, ok
 			}
@@ -441,7 +456,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		hitMock = true
 		return post, true
 	} else if mock != nil {
+		due = post
 		hitMock = mock(funcInfo, recvPtr, args, results)
+		due = nil
 		return post, hitMock
 	}
 	return post, false
-- 
2.43.0


From 51cae2a7ce785cf07b73b9a9c87b94be5e8b918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 13/72] fix: the end of a trace no longer drops the mocks of
 the goroutine

---
 .../asset/runtime_gen/internal/trap/trap.go   | 37 ++++++++++++++++---
 runtime/internal/trap/trap.go                 | 37 ++++++++++++++++---
 2 files changed, 62 insertions(+), 12 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index f95583e..d48eb3e 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -76,7 +76,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		isTracing = stackData.hasStartedTracing
 	}
 
-	var stackAttached bool
 	if depth <= 1 && !isTracing {
 		// detect if we need to start tracing
 		if pkg == constants.TRACE_PKG && name == constants.TRACE_FUNC {
@@ -123,7 +122,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					},
 				}
 				stack.Attach(stk)
-				stackAttached = true
 			} else {
 				stackData.hasStartedTracing = true
 			}
@@ -151,6 +149,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	// what to do if a handler panics: the function then does not
 	// get to the point where it defers the after-steps
 	due := func() {
+		if isStartTracing {
+			defer endTracing(stk, stackData)
+		}
 		runReversed(postRecordersAndInterceptors)
 	}
 	defer func() {
@@ -302,10 +303,14 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		}
 		stackData.filterTrace = filterTrace
 		if outputFile == "" && onFinish == nil {
-			if stackAttached {
-				stack.Detach()
+			endTracing(stk, stackData)
+			if mocked || mock == nil {
+				return callRecorderWithDepth, mocked
 			}
-			return postRecorder, false
+			due = callRecorderWithDepth
+			ok := mock(funcInfo, recvPtr, args, results)
+			due = nil
+			return callRecorderWithDepth, ok
 		}
 		stackData.stackOutputFile = outputFile
 		stackData.onFinish = onFinish
@@ -415,6 +420,8 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			}
 		})
 		if isStartTracing {
+			// deferred, to end the session even if the callback panics
+			defer endTracing(stk, stackData)
 			exportedStack := stack.Export(stk, 0)
 			if isTesting {
 				outputFile := filepath.Join(flags.COLLECT_TEST_TRACE_DIR, testName+".json")
@@ -439,7 +446,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					}
 				}
 			}
-			stack.Detach()
 		}
 	}
 	post := func() {
@@ -464,6 +470,25 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	return post, false
 }
 
+// endTracing ends the tracing session, the mocks and recorders of the
+// goroutine stay in effect until they are cancelled.
+func endTracing(stk *stack.Stack, stackData *StackData) {
+	stackData.hasStartedTracing = false
+	stackData.filterTrace = nil
+	stackData.onFinish = nil
+	stackData.stackOutputFile = ""
+	if stk == stack.InitGStack {
+		return
+	}
+	stack.Detach()
+	stack.Attach(&stack.Stack{
+		Begin: xgo_runtime.XgoRealTimeNow(),
+		Data: map[interface{}]interface{}{
+			dataKey: stackData,
+		},
+	})
+}
+
 // runReversed calls the last function first. The others still
 // run if one of them panics.
 func runReversed(fns []func()) {
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index f95583e..d48eb3e 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -76,7 +76,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		isTracing = stackData.hasStartedTracing
 	}
 
-	var stackAttached bool
 	if depth <= 1 && !isTracing {
 		// detect if we need to start tracing
 		if pkg == constants.TRACE_PKG && name == constants.TRACE_FUNC {
@@ -123,7 +122,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					},
 				}
 				stack.Attach(stk)
-				stackAttached = true
 			} else {
 				stackData.hasStartedTracing = true
 			}
@@ -151,6 +149,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	// what to do if a handler panics: the function then does not
 	// get to the point where it defers the after-steps
 	due := func() {
+		if isStartTracing {
+			defer endTracing(stk, stackData)
+		}
 		runReversed(postRecordersAndInterceptors)
 	}
 	defer func() {
@@ -302,10 +303,14 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		}
 		stackData.filterTrace = filterTrace
 		if outputFile == "" && onFinish == nil {
-			if stackAttached {
-				stack.Detach()
+			endTracing(stk, stackData)
+			if mocked || mock == nil {
+				return callRecorderWithDepth, mocked
 			}
-			return postRecorder, false
+			due = callRecorderWithDepth
+			ok := mock(funcInfo, recvPtr, args, results)
+			due = nil
+			return callRecorderWithDepth, ok
 		}
 		stackData.stackOutputFile = outputFile
 		stackData.onFinish = onFinish
@@ -415,6 +420,8 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			}
 		})
 		if isStartTracing {
+			// deferred, to end the session even if the callback panics
+			defer endTracing(stk, stackData)
 			exportedStack := stack.Export(stk, 0)
 			if isTesting {
 				outputFile := filepath.Join(flags.COLLECT_TEST_TRACE_DIR, testName+".json")
@@ -439,7 +446,6 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					}
 				}
 			}
-			stack.Detach()
 		}
 	}
 	post := func() {
@@ -464,6 +470,25 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	return post, false
 }
 
+// endTracing ends the tracing session, the mocks and recorders of the
+// goroutine stay in effect until they are cancelled.
+func endTracing(stk *stack.Stack, stackData *StackData) {
+	stackData.hasStartedTracing = false
+	stackData.filterTrace = nil
+	stackData.onFinish = nil
+	stackData.stackOutputFile = ""
+	if stk == stack.InitGStack {
+		return
+	}
+	stack.Detach()
+	stack.Attach(&stack.Stack{
+		Begin: xgo_runtime.XgoRealTimeNow(),
+		Data: map[interface{}]interface{}{
+			dataKey: stackData,
+		},
+	})
+}
+
 // runReversed calls the last function first. The others still
 // run if one of them panics.
 func runReversed(fns []func()) {
-- 
2.43.0


From 62ac2454b93c3ad2ca7f1c4dbc92422b15025555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 14/72] fix: functions called while another one panics are not
 marked as panicking

---
 .../asset/runtime_gen/internal/trap/trap.go   | 29 ++++++++++++++++++-
 runtime/internal/trap/trap.go                 | 29 ++++++++++++++++++-
 2 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index d48eb3e..125f662 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"runtime"
+	"strings"
 	"sync/atomic"
 	"testing"
 	"time"
@@ -23,6 +24,8 @@ import (
 // skip 2: <user func> -> runtime.XgoTrap -> trap
 const SKIP = 2
 
+const trapPkgPrefix = "github.com/xhd2015/xgo/runtime/internal/trap."
+
 // trap is the function called upon every go function call,
 // it implements mock, recording and tracing functionality
 // the trap discarded the interceptor design in xgo v1.0,
@@ -352,7 +355,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		var hasPanic bool
 		var panicLine int
 		var errStr string
-		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil {
+		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil && isPanicking() {
 			hasPanic = true
 			// frame:
 			//   0: trap.trap
@@ -489,6 +492,30 @@ func endTracing(stk *stack.Stack, stackData *StackData) {
 	})
 }
 
+// isPanicking tells whether the trapped function, whose after-steps are
+// running, is left by a panic. It is not if the function has just returned
+// to a deferred function of another one that panics.
+func isPanicking() bool {
+	var pcs [16]uintptr
+	n := runtime.Callers(2, pcs[:])
+	frames := runtime.CallersFrames(pcs[:n])
+	for {
+		frame, more := frames.Next()
+		switch {
+		case frame.Function == "runtime.gopanic":
+			return true
+		case frame.Function == "runtime.deferreturn", frame.Function == "runtime.Goexit":
+			return false
+		case strings.HasPrefix(frame.Function, "runtime."), strings.HasPrefix(frame.Function, trapPkgPrefix):
+		default:
+			return false
+		}
+		if !more {
+			return false
+		}
+	}
+}
+
 // runReversed calls the last function first. The others still
 // run if one of them panics.
 func runReversed(fns []func()) {
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index d48eb3e..125f662 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"runtime"
+	"strings"
 	"sync/atomic"
 	"testing"
 	"time"
@@ -23,6 +24,8 @@ import (
 // skip 2: <user func> -> runtime.XgoTrap -> trap
 const SKIP = 2
 
+const trapPkgPrefix = "github.com/xhd2015/xgo/runtime/internal/trap."
+
 // trap is the function called upon every go function call,
 // it implements mock, recording and tracing functionality
 // the trap discarded the interceptor design in xgo v1.0,
@@ -352,7 +355,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		var hasPanic bool
 		var panicLine int
 		var errStr string
-		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil {
+		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil && isPanicking() {
 			hasPanic = true
 			// frame:
 			//   0: trap.trap
@@ -489,6 +492,30 @@ func endTracing(stk *stack.Stack, stackData *StackData) {
 	})
 }
 
+// isPanicking tells whether the trapped function, whose after-steps are
+// running, is left by a panic. It is not if the function has just returned
+// to a deferred function of another one that panics.
+func isPanicking() bool {
+	var pcs [16]uintptr
+	n := runtime.Callers(2, pcs[:])
+	frames := runtime.CallersFrames(pcs[:n])
+	for {
+		frame, more := frames.Next()
+		switch {
+		case frame.Function == "runtime.gopanic":
+			return true
+		case frame.Function == "runtime.deferreturn", frame.Function == "runtime.Goexit":
+			return false
+		case strings.HasPrefix(frame.Function, "runtime."), strings.HasPrefix(frame.Function, trapPkgPrefix):
+		default:
+			return false
+		}
+		if !more {
+			return false
+		}
+	}
+}
+
 // runReversed calls the last function first. The others still
 // run if one of them panics.
 func runReversed(fns []func()) {
-- 
2.43.0


From c0a48d39bbd8bcb55b736ad0123f2aa9afd8c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 15/72] fix: a server that has stopped is not announced

---
 support/netutil/netutil.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/support/netutil/netutil.go b/support/netutil/netutil.go
index 83a6a92..0b5337e 100644
--- a/support/netutil/netutil.go
+++ b/support/netutil/netutil.go
@@ -45,16 +45,17 @@ func ServePort(host string, port int, autoIncrPort bool, watchTimeout time.Durat
 		// open url after 500ms, waiting for port opening to check if error
 		portErr := make(chan struct{})
 		if watchTimeout > 0 && watch != nil {
+			servePort := port // port may be incremented before the action runs
 			go watchSignalWithinTimeout(watchTimeout, portErr, func() {
-				watch(port)
+				watch(servePort)
 			})
 		}
 
 		err = doWithPort(port)
+		close(portErr)
 		if err == nil {
 			return nil
 		}
-		close(portErr)
 		var syscallErr syscall.Errno
 		if autoIncrPort && errors.As(err, &syscallErr) && syscallErr == syscall.EADDRINUSE {
 			port++
@@ -87,6 +88,12 @@ func watchSignalWithinTimeout(timeout time.Duration, errSignal chan struct{}, ac
 	case <-errSignal:
 		return
 	}
+	// both may be ready
+	select {
+	case <-errSignal:
+		return
+	default:
+	}
 	action()
 }
 
-- 
2.43.0


From d22fedcdeffa56ee7c19124ba074034e81ca25b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 16/72] fix: a handler that panics with an error is reported as
 failed

---
 support/netutil/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/netutil/http.go b/support/netutil/http.go
index a7ebe63..b5a2ae6 100644
--- a/support/netutil/http.go
+++ b/support/netutil/http.go
@@ -42,7 +42,7 @@ func HandleJSON(w http.ResponseWriter, r *http.Request, h func(ctx context.Conte
 			stack := debug.Stack()
 			log.Printf("panic: %s", stack)
 			if pe, ok := e.(error); ok {
-				e = pe
+				err = pe
 			} else {
 				err = fmt.Errorf("panic: %v", e)
 			}
-- 
2.43.0


From 886b3172d2d40b0faa16117d6689c0ba58aafbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 17/72] fix: cmd.Output without options reports failures

---
 support/cmd/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/cmd/cmd.go b/support/cmd/cmd.go
index 7b8ea9d..a0cff75 100644
--- a/support/cmd/cmd.go
+++ b/support/cmd/cmd.go
@@ -175,7 +175,7 @@ func cmdExecEnv(cmd string, args []string, env []string, dir string, useStdout b
 	outStr = strings.TrimSuffix(outStr, "\r")
 	outStr = strings.TrimSuffix(outStr, "\n")
 	if err != nil {
-		if c != nil && !c.ignoreError {
+		if c == nil || !c.ignoreError {
 			return outStr, err
 		}
 		err = nil
-- 
2.43.0


From 4197b7ff4bb2f0d36780e91dff8830b60dbaa446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 18/72] fix: an interrupted update no longer destroys the file

---
 support/fileutil/patch.go  |  2 +-
 support/fileutil/update.go | 43 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/support/fileutil/patch.go b/support/fileutil/patch.go
index c7008b4..5e3ee20 100644
--- a/support/fileutil/patch.go
+++ b/support/fileutil/patch.go
@@ -21,5 +21,5 @@ func Patch(file string, patch func(data []byte) ([]byte, error)) error {
 	if bytes.Equal(newData, data) {
 		return nil
 	}
-	return ioutil.WriteFile(file, []byte(newData), 0755)
+	return replaceFile(file, newData, 0755)
 }
diff --git a/support/fileutil/update.go b/support/fileutil/update.go
index b9e060b..55331dc 100644
--- a/support/fileutil/update.go
+++ b/support/fileutil/update.go
@@ -1,6 +1,10 @@
 package fileutil
 
-import "os"
+import (
+	"io/ioutil"
+	"os"
+	"path/filepath"
+)
 
 func UpdateFile(path string, updateFunc func(content []byte) (bool, []byte, error)) error {
 	content, readErr := os.ReadFile(path)
@@ -17,5 +21,40 @@ func UpdateFile(path string, updateFunc func(content []byte) (bool, []byte, erro
 		return nil
 	}
 
-	return os.WriteFile(path, updated, 0644)
+	return replaceFile(path, updated, 0644)
+}
+
+// replaceFile writes data to file such that, if it is interrupted or fails,
+// the file still has its old content.
+func replaceFile(file string, data []byte, perm os.FileMode) (err error) {
+	if target, evalErr := filepath.EvalSymlinks(file); evalErr == nil {
+		file = target
+	}
+	stat, err := os.Stat(file)
+	if err == nil {
+		perm = stat.Mode().Perm()
+	} else if !os.IsNotExist(err) {
+		return err
+	}
+	tmp, err := ioutil.TempFile(filepath.Dir(file), filepath.Base(file)+".tmp-*")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			os.Remove(tmp.Name())
+		}
+	}()
+	_, err = tmp.Write(data)
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+	err = os.Chmod(tmp.Name(), perm)
+	if err != nil {
+		return err
+	}
+	return os.Rename(tmp.Name(), file)
 }
-- 
2.43.0


From 40c6df7889a1de2ecffc6cf8f7ff8f17ada1ec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 19/72] fix: copying a directory reports errors of the last
 files and of closing

---
 support/filecopy/copy.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/support/filecopy/copy.go b/support/filecopy/copy.go
index 366faac..dab3a77 100644
--- a/support/filecopy/copy.go
+++ b/support/filecopy/copy.go
@@ -220,6 +220,13 @@ func copyReplaceDir(srcDir string, targetDir string, opts *Options) error {
 	close(ch)
 	// NOTE: must wait all goroutines to finish
 	wg.Wait()
+	if err == nil {
+		// a worker may have failed after the last file was sent
+		select {
+		case err = <-errCh:
+		default:
+		}
+	}
 
 	// fmt.Printf("copied: %d\n", atomic.LoadInt64(&added))
 	return err
@@ -318,7 +325,7 @@ func CopyFileAll(src string, dst string) error {
 	return copyFile(src, dst, true, nil)
 }
 
-func copyFile(src string, dst string, mkdirs bool, buf []byte) error {
+func copyFile(src string, dst string, mkdirs bool, buf []byte) (err error) {
 	reader, err := os.Open(src)
 	if err != nil {
 		return err
@@ -336,7 +343,12 @@ func copyFile(src string, dst string, mkdirs bool, buf []byte) error {
 	if err != nil {
 		return err
 	}
-	defer writer.Close()
+	defer func() {
+		// data may only fail to be written on close
+		if closeErr := writer.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
 	// NOTE: go has optimization when copy file on linux
 	// but that omits the buffer we pass to it,
-- 
2.43.0


From 3c0db65e0dde9a23aa7650b7e5092c6883941c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 20/72] fix: unpacking an archive stays in the target and
 detects damage

---
 cmd/xgo/upgrade/extract.go        | 33 +++++++++++++++++++++++++++----
 script/install/upgrade/extract.go | 33 +++++++++++++++++++++++++++----
 2 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/cmd/xgo/upgrade/extract.go b/cmd/xgo/upgrade/extract.go
index f8a96d2..8ff4b58 100644
--- a/cmd/xgo/upgrade/extract.go
+++ b/cmd/xgo/upgrade/extract.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"strings"
 )
 
 func UntargzCmd(file string, binDir string) error {
@@ -39,6 +40,18 @@ func ExtractTarGz(gz io.Reader, targetDir string) error {
 
 	tarReader := tar.NewReader(uncompressedStream)
 
+	targetPath := func(name string) (string, error) {
+		path := filepath.Join(targetDir, name)
+		rel, err := filepath.Rel(targetDir, path)
+		if err != nil {
+			return "", err
+		}
+		if rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return "", fmt.Errorf("tar entry escapes target dir: %s", name)
+		}
+		return path, nil
+	}
+
 	for {
 		header, err := tarReader.Next()
 
@@ -50,23 +63,35 @@ func ExtractTarGz(gz io.Reader, targetDir string) error {
 			return fmt.Errorf("tar read: %w", err)
 		}
 
+		path, err := targetPath(header.Name)
+		if err != nil {
+			return err
+		}
+
 		switch header.Typeflag {
 		case tar.TypeDir:
-			if err := os.MkdirAll(filepath.Join(targetDir, header.Name), 0755); err != nil {
+			if err := os.MkdirAll(path, 0755); err != nil {
 				return fmt.Errorf("tar mkdir %s: %w", header.Name, err)
 			}
 		case tar.TypeReg:
-			outFile, err := os.Create(filepath.Join(targetDir, header.Name))
+			outFile, err := os.Create(path)
 			if err != nil {
 				return fmt.Errorf("tar create file %s: %w", header.Name, err)
 			}
-			defer outFile.Close()
-			if _, err := io.Copy(outFile, tarReader); err != nil {
+			_, err = io.Copy(outFile, tarReader)
+			if closeErr := outFile.Close(); err == nil {
+				err = closeErr
+			}
+			if err != nil {
 				return fmt.Errorf("tar write file %s: %w", header.Name, err)
 			}
 		default:
 			return fmt.Errorf("tar unrecognized type %v: %s", header.Typeflag, header.Name)
 		}
 	}
+	// the checksum is verified at the end of the stream
+	if _, err := io.Copy(io.Discard, uncompressedStream); err != nil {
+		return fmt.Errorf("gzip: %w", err)
+	}
 	return nil
 }
diff --git a/script/install/upgrade/extract.go b/script/install/upgrade/extract.go
index 59a3a66..ccf83f6 100755
--- a/script/install/upgrade/extract.go
+++ b/script/install/upgrade/extract.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"strings"
 )
 
 func UntargzCmd(file string, binDir string) error {
@@ -41,6 +42,18 @@ func ExtractTarGz(gz io.Reader, targetDir string) error {
 
 	tarReader := tar.NewReader(uncompressedStream)
 
+	targetPath := func(name string) (string, error) {
+		path := filepath.Join(targetDir, name)
+		rel, err := filepath.Rel(targetDir, path)
+		if err != nil {
+			return "", err
+		}
+		if rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return "", fmt.Errorf("tar entry escapes target dir: %s", name)
+		}
+		return path, nil
+	}
+
 	for {
 		header, err := tarReader.Next()
 
@@ -52,23 +65,35 @@ func ExtractTarGz(gz io.Reader, targetDir string) error {
 			return fmt.Errorf("tar read: %w", err)
 		}
 
+		path, err := targetPath(header.Name)
+		if err != nil {
+			return err
+		}
+
 		switch header.Typeflag {
 		case tar.TypeDir:
-			if err := os.MkdirAll(filepath.Join(targetDir, header.Name), 0755); err != nil {
+			if err := os.MkdirAll(path, 0755); err != nil {
 				return fmt.Errorf("tar mkdir %s: %w", header.Name, err)
 			}
 		case tar.TypeReg:
-			outFile, err := os.Create(filepath.Join(targetDir, header.Name))
+			outFile, err := os.Create(path)
 			if err != nil {
 				return fmt.Errorf("tar create file %s: %w", header.Name, err)
 			}
-			defer outFile.Close()
-			if _, err := io.Copy(outFile, tarReader); err != nil {
+			_, err = io.Copy(outFile, tarReader)
+			if closeErr := outFile.Close(); err == nil {
+				err = closeErr
+			}
+			if err != nil {
 				return fmt.Errorf("tar write file %s: %w", header.Name, err)
 			}
 		default:
 			return fmt.Errorf("tar unrecognized type %v: %s", header.Typeflag, header.Name)
 		}
 	}
+	// the checksum is verified at the end of the stream
+	if _, err := io.Copy(io.Discard, uncompressedStream); err != nil {
+		return fmt.Errorf("gzip: %w", err)
+	}
 	return nil
 }
-- 
2.43.0


From f62585e1ae4b705f996a83d3c225b0d93a8792c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 21/72] fix: a download reports the error of closing the file

---
 support/httputil/download.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/support/httputil/download.go b/support/httputil/download.go
index 98427ee..b03151c 100644
--- a/support/httputil/download.go
+++ b/support/httputil/download.go
@@ -29,11 +29,9 @@ func DownloadFile(ctx context.Context, downloadURL string, targetFile string) er
 	if err != nil {
 		return err
 	}
-	defer file.Close()
-
 	_, err = io.Copy(file, resp.Body)
-	if err != nil {
-		return err
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From 3ecd073cb30aba68262b204fe733078c1aed5d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 22/72] fix: the marker of unfinished checkouts is not
 committed to them

---
 support/gitgoroot/gitgoroot.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/support/gitgoroot/gitgoroot.go b/support/gitgoroot/gitgoroot.go
index 595b2e3..dedc179 100644
--- a/support/gitgoroot/gitgoroot.go
+++ b/support/gitgoroot/gitgoroot.go
@@ -221,7 +221,8 @@ func initGitGoroot(goroot, versionName, bootstrapGoroot string) error {
 		return err
 	}
 
-	if err := runGit(goroot, "add", "."); err != nil {
+	// the marker is removed afterwards, it is not part of the checkout
+	if err := runGit(goroot, "add", ".", ":(exclude)"+incompleteMarker); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 01e394a4d876fd02ac1415b477a81d613ae364d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 23/72] fix: an interrupted attempt no longer leaves an
 unusable or half removed checkout

---
 support/gitgoroot/gitgoroot.go | 42 ++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/support/gitgoroot/gitgoroot.go b/support/gitgoroot/gitgoroot.go
index dedc179..f1c9a45 100644
--- a/support/gitgoroot/gitgoroot.go
+++ b/support/gitgoroot/gitgoroot.go
@@ -158,7 +158,7 @@ func EnsureGitGoroot(baseDir, version string, bootstrapGoroot string) (string, e
 	goroot := filepath.Join(baseDir, versionName)
 	if _, err := os.Stat(goroot); err == nil {
 		if _, err := os.Stat(filepath.Join(goroot, incompleteMarker)); err == nil {
-			if err := os.RemoveAll(goroot); err != nil {
+			if err := removeIncomplete(goroot); err != nil {
 				return "", fmt.Errorf("remove incomplete goroot %s: %w", goroot, err)
 			}
 		} else if !os.IsNotExist(err) {
@@ -181,16 +181,11 @@ func EnsureGitGoroot(baseDir, version string, bootstrapGoroot string) (string, e
 		return "", err
 	}
 
-	if err := os.WriteFile(filepath.Join(goroot, incompleteMarker), nil, 0644); err != nil {
-		if err := os.MkdirAll(goroot, 0755); err != nil {
-			return "", err
-		}
-		if err := os.WriteFile(filepath.Join(goroot, incompleteMarker), nil, 0644); err != nil {
-			return "", err
-		}
+	if err := createIncomplete(goroot); err != nil {
+		return "", err
 	}
 
-	cleanup := func() { os.RemoveAll(goroot) }
+	cleanup := func() { removeIncomplete(goroot) }
 
 	if err := initGitGoroot(goroot, versionName, bootstrapGoroot); err != nil {
 		cleanup()
@@ -204,6 +199,35 @@ func EnsureGitGoroot(baseDir, version string, bootstrapGoroot string) (string, e
 	return goroot, nil
 }
 
+// createIncomplete creates goroot with the incomplete marker in it. The
+// directory never exists without the marker.
+func createIncomplete(goroot string) error {
+	tmp := goroot + incompleteMarker
+	if err := os.RemoveAll(tmp); err != nil {
+		return err
+	}
+	if err := os.Mkdir(tmp, 0755); err != nil {
+		return err
+	}
+	if err := os.WriteFile(filepath.Join(tmp, incompleteMarker), nil, 0644); err != nil {
+		return err
+	}
+	return os.Rename(tmp, goroot)
+}
+
+// removeIncomplete removes goroot. It is moved away first, so that what an
+// interrupted removal leaves is not taken for a complete goroot.
+func removeIncomplete(goroot string) error {
+	tmp := goroot + incompleteMarker
+	if err := os.RemoveAll(tmp); err != nil {
+		return err
+	}
+	if err := os.Rename(goroot, tmp); err != nil {
+		return err
+	}
+	return os.RemoveAll(tmp)
+}
+
 func initGitGoroot(goroot, versionName, bootstrapGoroot string) error {
 	if err := downloadAndExtract(goroot, versionName); err != nil {
 		return err
-- 
2.43.0


From 20f0b7a643626fff96b183a86a3a85baad771739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 24/72] fix: an interrupted reset, removal or update of the
 instrumented GOROOT is not taken for complete

---
 cmd/xgo/main.go  | 32 ++++++++++++++++++++++++++++----
 cmd/xgo/patch.go | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 2eace03..9ae32a4 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -411,10 +411,13 @@ func handleBuild(cmd string, args []string) error {
 	// for cache: /tmp/xgo/go-instrument/go1.21.0
 	instrumentCacheDir = filepath.Join(globalXgoTmpDir, "go-instrument"+instrumentSuffix, mappedInstrumentName)
 
+	revisionFile := filepath.Join(instrumentDir, INSTRUMENT_XGO_REVISION_FILE)
+	fullSyncRecord := filepath.Join(instrumentDir, "full-sync-record.txt")
+
 	logDebug("instrument dir: %s", instrumentDir)
 	if cmdSetup && deleteFlag {
 		logDebug("delete instrument dir: %s", instrumentDir)
-		err := os.RemoveAll(instrumentDir)
+		err := removeInstrumentDir(instrumentDir, revisionFile, fullSyncRecord)
 		if err != nil {
 			return err
 		}
@@ -464,8 +467,6 @@ func handleBuild(cmd string, args []string) error {
 	// we no longer need separate build cache
 	// but we need to separate it from normal GOCACHE
 	buildCacheDir := filepath.Join(instrumentCacheDir, "build-cache")
-	revisionFile := filepath.Join(instrumentDir, INSTRUMENT_XGO_REVISION_FILE)
-	fullSyncRecord := filepath.Join(instrumentDir, "full-sync-record.txt")
 
 	err = os.MkdirAll(buildCacheDir, 0755)
 	if err != nil {
@@ -515,7 +516,7 @@ func handleBuild(cmd string, args []string) error {
 		if resetInstrument {
 			if !instrumented {
 				logDebug("reset instrument %s", instrumentDir)
-				err := os.RemoveAll(instrumentDir)
+				err := removeInstrumentDir(instrumentDir, revisionFile, fullSyncRecord)
 				if err != nil {
 					return err
 				}
@@ -545,6 +546,13 @@ func handleBuild(cmd string, args []string) error {
 
 		resetOrRevisionChanged := resetInstrument || buildCompiler || coreRevisionChanged || instrumentedGorootNeedRecreate
 		if opts.patchGorootInPlace || isDevelopment || resetOrRevisionChanged {
+			if resetOrRevisionChanged || opts.patchGorootInPlace {
+				// written again when everything is done
+				err = invalidateRevision(revisionFile)
+				if err != nil {
+					return err
+				}
+			}
 			if !opts.patchGorootInPlace && (instrumentedGorootNeedRecreate || !instrumented) {
 				if cmdSetup && flagV {
 					fmt.Fprintf(os.Stderr, "sync GOROOT %s -> %s\n", goroot, instrumentGoroot)
@@ -560,11 +568,27 @@ func handleBuild(cmd string, args []string) error {
 				fmt.Fprintf(os.Stderr, "patch GOROOT\n")
 			}
 
+			// binaries are replaced: if that does not complete, copying
+			// $GOROOT/src is not enough
+			fullSynced := !opts.patchGorootInPlace && statNoErr(fullSyncRecord)
+			if fullSynced {
+				err = os.Remove(fullSyncRecord)
+				if err != nil {
+					return err
+				}
+			}
+
 			logDebug("patch runtime at: %s", instrumentGoroot)
 			err = patchRuntime(goroot, instrumentGoroot, realXgoSrc, goVersion, isDevelopment || syncWithLink || setupDev || buildCompiler, resetOrRevisionChanged || opts.patchGorootInPlace, isDevelopment, *opts.useFilePatches, opts.skipRebuildCompilerAndGo)
 			if err != nil {
 				return err
 			}
+			if fullSynced {
+				err = writeFullSyncRecord(fullSyncRecord)
+				if err != nil {
+					return err
+				}
+			}
 		}
 
 		if resetOrRevisionChanged || opts.patchGorootInPlace {
diff --git a/cmd/xgo/patch.go b/cmd/xgo/patch.go
index d477740..5044b26 100644
--- a/cmd/xgo/patch.go
+++ b/cmd/xgo/patch.go
@@ -247,8 +247,7 @@ func syncGoroot(goroot string, instrumentGoroot string, fullSyncRecordFile strin
 		}
 
 		// record this full sync
-		copyTime := time.Now().Format("2006-01-02T15:04:05Z07:00")
-		err = os.WriteFile(fullSyncRecordFile, []byte(copyTime), 0755)
+		err = writeFullSyncRecord(fullSyncRecordFile)
 		if err != nil {
 			return err
 		}
@@ -257,6 +256,35 @@ func syncGoroot(goroot string, instrumentGoroot string, fullSyncRecordFile strin
 	return nil
 }
 
+func writeFullSyncRecord(fullSyncRecordFile string) error {
+	copyTime := time.Now().Format("2006-01-02T15:04:05Z07:00")
+	return os.WriteFile(fullSyncRecordFile, []byte(copyTime), 0755)
+}
+
+// invalidateRevision marks an instrumented GOROOT as incomplete, so that an
+// interrupted change of it is made again.
+func invalidateRevision(revisionFile string) error {
+	err := os.Truncate(revisionFile, 0)
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	return nil
+}
+
+// removeInstrumentDir removes the instrument dir. If that is interrupted, the
+// rest is not taken for a complete one.
+func removeInstrumentDir(instrumentDir string, revisionFile string, fullSyncRecordFile string) error {
+	err := invalidateRevision(revisionFile)
+	if err != nil {
+		return err
+	}
+	err = os.Remove(fullSyncRecordFile)
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	return os.RemoveAll(instrumentDir)
+}
+
 func copyGorootSrc(goroot string, instrumentGoroot string) error {
 	return filecopy.CopyReplaceDir(filepath.Join(goroot, "src"), filepath.Join(instrumentGoroot, "src"), false)
 }
-- 
2.43.0


From 71978a65767c8d51ca894886ec02c9d4d6b44c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 25/72] fix: copying from a relative link, a chain of links or
 a link with a trailing separator

---
 support/filecopy/copy.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/support/filecopy/copy.go b/support/filecopy/copy.go
index dab3a77..b40b8b9 100644
--- a/support/filecopy/copy.go
+++ b/support/filecopy/copy.go
@@ -253,20 +253,31 @@ type copyOptions struct {
 func copyDirHandle(srcDir string, targetAbsDir string, opts *copyOptions, handler func(srcFile string, dstFile string) error) error {
 	// special case, when srcDir is a symbolic, it fails to
 	// walk, so we make a workaround here
-	stat, err := os.Lstat(srcDir)
+	// a trailing separator would make Lstat follow the link, but not WalkDir
+	actualDir := filepath.Clean(srcDir)
+	stat, err := os.Lstat(actualDir)
 	if err != nil {
 		return err
 	}
-	actualDir := srcDir
-	if !stat.IsDir() {
+	for i := 0; !stat.IsDir(); i++ {
+		if i >= 40 {
+			return fmt.Errorf("too many links: %s", srcDir)
+		}
 		// example:
 		//   - link: C:\hostedtoolcache\windows\go\1.24.2\x64
 		//   - resolved: D:\hostedtoolcache\windows\go\1.24.2\x64\
-		linkDir, err := os.Readlink(srcDir)
+		linkDir, err := os.Readlink(actualDir)
+		if err != nil {
+			return err
+		}
+		if !filepath.IsAbs(linkDir) {
+			linkDir = filepath.Join(filepath.Dir(actualDir), linkDir)
+		}
+		actualDir = filepath.Clean(linkDir)
+		stat, err = os.Lstat(actualDir)
 		if err != nil {
 			return err
 		}
-		actualDir = linkDir
 	}
 	// clean example:
 	//   - before: D:\hostedtoolcache\windows\go\1.24.2\x64\
-- 
2.43.0


From 2d7c1241cceaf272ae1ba7017d40c49d76da7ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 26/72] fix: an instrumented GOROOT does not write to where a
 linked src points

---
 cmd/xgo/patch.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/xgo/patch.go b/cmd/xgo/patch.go
index 5044b26..f29fcb7 100644
--- a/cmd/xgo/patch.go
+++ b/cmd/xgo/patch.go
@@ -246,6 +246,18 @@ func syncGoroot(goroot string, instrumentGoroot string, fullSyncRecordFile strin
 			return err
 		}
 
+		// if $GOROOT/src is a link, patching must not write to where it points
+		srcDir, err := os.Lstat(filepath.Join(instrumentGoroot, "src"))
+		if err != nil {
+			return err
+		}
+		if !srcDir.IsDir() {
+			err := copyGorootSrc(goroot, instrumentGoroot)
+			if err != nil {
+				return err
+			}
+		}
+
 		// record this full sync
 		err = writeFullSyncRecord(fullSyncRecordFile)
 		if err != nil {
-- 
2.43.0


From 136b3acc7786b8a4cb8a88ccb8fd2ef40b43900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 27/72] fix: preparing the file patches reports its errors

---
 cmd/xgo/patch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/xgo/patch.go b/cmd/xgo/patch.go
index f29fcb7..0ea558a 100644
--- a/cmd/xgo/patch.go
+++ b/cmd/xgo/patch.go
@@ -67,7 +67,7 @@ func patchRuntime(origGoroot string, goroot string, xgoSrc string, goVersion *go
 				return fmt.Errorf("extract patches: %w", err)
 			}
 			patchDir = filepath.Join(patchDir, fmt.Sprintf("go%d.%d", goVersion.Major, goVersion.Minor))
-			filepath.WalkDir(patchDir, func(path string, d os.DirEntry, err error) error {
+			err = filepath.WalkDir(patchDir, func(path string, d os.DirEntry, err error) error {
 				if err != nil {
 					return err
 				}
@@ -76,6 +76,10 @@ func patchRuntime(origGoroot string, goroot string, xgoSrc string, goVersion *go
 				}
 				return nil
 			})
+			// a missing patchDir is reported below
+			if err != nil && !errors.Is(err, os.ErrNotExist) {
+				return fmt.Errorf("extract patches: %w", err)
+			}
 			xgoSrc, err = os.MkdirTemp("", "xgo-src-*")
 			if err != nil {
 				return err
-- 
2.43.0


From fc1d52f010aadecac14a419b58f66a49ea1d7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 28/72] fix: names of init statements, range and select clauses
 end with their statement

---
 instrument/resolve/stmt.go | 53 ++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/instrument/resolve/stmt.go b/instrument/resolve/stmt.go
index ba73aa8..4f283cb 100644
--- a/instrument/resolve/stmt.go
+++ b/instrument/resolve/stmt.go
@@ -15,16 +15,17 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 	case *ast.EmptyStmt:
 		// nothing
 	case *ast.RangeStmt:
+		c.traverseExpr(node.X)
+		scope := c.newScope()
 		if node.Tok == token.DEFINE {
 			if key, ok := node.Key.(*ast.Ident); ok && !isBlankName(key.Name) {
-				c.Add(key.Name)
+				scope.Add(key.Name)
 			}
 			if value, ok := node.Value.(*ast.Ident); ok && !isBlankName(value.Name) {
-				c.Add(value.Name)
+				scope.Add(value.Name)
 			}
 		}
-		c.traverseExpr(node.X)
-		c.traverseBlockStmt(node.Body)
+		scope.traverseBlockStmt(node.Body)
 	case *ast.DeferStmt:
 		c.traverseCallExpr(node.Call)
 	case *ast.GoStmt:
@@ -104,26 +105,36 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 			}
 		}
 	case *ast.TypeSwitchStmt:
-		c.traverseStmt(node.Init)
-		c.traverseStmt(node.Assign)
-		c.traverseBlockStmt(node.Body)
+		scope := c.newScope()
+		scope.traverseStmt(node.Init)
+		scope.traverseStmt(node.Assign)
+		scope.traverseBlockStmt(node.Body)
 	case *ast.BadStmt:
 		// nothing
 	case *ast.IfStmt:
-		c.traverseStmt(node.Init)
-		c.traverseExpr(node.Cond)
+		// names of the init statement end with the if
+		scope := c.newScope()
+		scope.traverseStmt(node.Init)
+		scope.traverseExpr(node.Cond)
 		// node.Then =
-		c.traverseBlockStmt(node.Body)
-		c.traverseStmt(node.Else)
+		scope.traverseBlockStmt(node.Body)
+		scope.traverseStmt(node.Else)
 	case *ast.ForStmt:
-		c.traverseStmt(node.Init)
-		c.traverseExpr(node.Cond)
-		c.traverseStmt(node.Post)
-		c.traverseBlockStmt(node.Body)
+		scope := c.newScope()
+		scope.traverseStmt(node.Init)
+		scope.traverseExpr(node.Cond)
+		scope.traverseStmt(node.Post)
+		scope.traverseBlockStmt(node.Body)
 	case *ast.SwitchStmt:
-		c.traverseStmt(node.Init)
-		c.traverseExpr(node.Tag)
-		c.traverseBlockStmt(node.Body)
+		scope := c.newScope()
+		scope.traverseStmt(node.Init)
+		scope.traverseExpr(node.Tag)
+		for _, stmt := range node.Body.List {
+			if clause, ok := stmt.(*ast.CaseClause); ok {
+				scope.traverseExprs(clause.List)
+			}
+		}
+		scope.traverseBlockStmt(node.Body)
 	case *ast.SelectStmt:
 		c.traverseBlockStmt(node.Body)
 	case *ast.DeclStmt:
@@ -142,8 +153,10 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.CommClause:
 		// select {...}
-		// TODO: handle name introduced in case
-		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
+		// names introduced in case are visible in the body only
+		scope := c.newScope()
+		scope.traverseStmt(node.Comm)
+		scope.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.SendStmt:
 		// ignore
 		c.traverseExpr(node.Chan)
-- 
2.43.0


From 25e1939b0d615db557623563721e06d966e9202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 29/72] fix: initialisers of local constants are not rewritten

---
 instrument/resolve/decl.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/instrument/resolve/decl.go b/instrument/resolve/decl.go
index 65dff9d..341904b 100644
--- a/instrument/resolve/decl.go
+++ b/instrument/resolve/decl.go
@@ -1,6 +1,9 @@
 package resolve
 
-import "go/ast"
+import (
+	"go/ast"
+	"go/token"
+)
 
 func (ctx *Scope) traverseDecl(node ast.Decl) {
 	if node == nil {
@@ -15,8 +18,11 @@ func (ctx *Scope) traverseDecl(node ast.Decl) {
 					ctx.Add(spec.Name.Name)
 				}
 			case *ast.ValueSpec:
-				for _, value := range spec.Values {
-					ctx.traverseExpr(value)
+				// a constant must remain constant
+				if node.Tok != token.CONST {
+					for _, value := range spec.Values {
+						ctx.traverseExpr(value)
+					}
 				}
 				// name after values
 				for _, name := range spec.Names {
-- 
2.43.0


From c79690aa3e21d8f6f2a323756f85f51d7409726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 30/72] fix: variables assigned from one multi-value call,
 results sharing a type

---
 instrument/resolve/resolve.go  | 11 ++++++++---
 instrument/resolve/traverse.go |  4 +++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index c876c92..bc29c05 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -364,9 +364,14 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 		// }
 		var results []types.Type
 		if expr.Results != nil {
-			results = make([]types.Type, len(expr.Results.List))
-			for i, result := range expr.Results.List {
-				results[i] = c.lazyResolveType(result.Type)
+			results = make([]types.Type, 0, len(expr.Results.List))
+			for _, result := range expr.Results.List {
+				typ := c.lazyResolveType(result.Type)
+				results = append(results, typ)
+				// (a, b int)
+				for i := 1; i < len(result.Names); i++ {
+					results = append(results, typ)
+				}
 			}
 		}
 		return types.Signature{
diff --git a/instrument/resolve/traverse.go b/instrument/resolve/traverse.go
index 1f27f17..18cf381 100644
--- a/instrument/resolve/traverse.go
+++ b/instrument/resolve/traverse.go
@@ -39,7 +39,9 @@ func CollectDecls(pkg *edit.Package) {
 									continue
 								}
 								var value ast.Expr
-								if i < len(spec.Values) {
+								// var a, b = f(): the values are
+								// not those of single names
+								if len(spec.Values) == len(spec.Names) {
 									value = spec.Values[i]
 								}
 								kind := edit.DeclKindVar
-- 
2.43.0


From d05f8bae215f5148b4b4f92f98183042ce7cb23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 31/72] fix: types of constant expressions

---
 instrument/resolve/resolve.go | 36 +++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index bc29c05..c1fe1ce 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -127,6 +127,9 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 						varType = c.resolveType(decl.Type)
 					} else if decl.Value != nil {
 						valInfo := c.resolveInfo(decl.Value)
+						if lit, ok := valInfo.(types.UntypedLiteral); ok && decl.Kind == edit.DeclKindConst {
+							return lit
+						}
 						if obj, ok := valInfo.(types.Object); ok {
 							varType = obj.Type()
 						}
@@ -223,8 +226,15 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			// first op type
 			opValue := c.resolveObject(expr.X)
 			// if untyped literal, resolve the second op
-			if _, ok := opValue.(types.UntypedLiteral); ok {
+			if x, ok := opValue.(types.UntypedLiteral); ok {
 				opValue = c.resolveObject(expr.Y)
+				// the result of untyped operands is untyped
+				if y, ok := opValue.(types.UntypedLiteral); ok {
+					if untypedRank(x) > untypedRank(y) {
+						return x
+					}
+					return y
+				}
 			}
 			if types.IsUnknown(opValue) {
 				return types.Unknown{}
@@ -239,6 +249,16 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			if types.IsUnknown(opValue) {
 				return types.Unknown{}
 			}
+			if x, ok := opValue.(types.UntypedLiteral); ok {
+				if _, ok := c.resolveObject(expr.Y).(types.UntypedLiteral); !ok {
+					// takes the type of its context
+					return types.Unknown{}
+				}
+				if untypedRank(x) == 2 {
+					return types.UntypedLiteral{Type_: types.Basic("int")}
+				}
+				return x
+			}
 			return types.Value{
 				Type_: opValue.Type(),
 			}
@@ -549,7 +569,7 @@ func getBasicLitConstType(kind token.Token) types.Type {
 	case token.STRING:
 		return types.Basic("string")
 	case token.CHAR:
-		return types.Basic("byte")
+		return types.Basic("int32")
 	case token.FLOAT:
 		return types.Basic("float64")
 	}
@@ -561,6 +581,18 @@ func (c *Scope) newFileScope(pkg *edit.Package, file *edit.File) *Scope {
 	return newFileScope(c.Global, pkg, file, c.PkgDepth+1)
 }
 
+// untypedRank orders the kinds of untyped constants,
+// the larger one is the kind of an operation on both
+func untypedRank(lit types.UntypedLiteral) int {
+	switch lit.Type_ {
+	case types.Basic("int32"):
+		return 1
+	case types.Basic("float64"):
+		return 2
+	}
+	return 0
+}
+
 func getEmbedFieldName(typ ast.Expr) string {
 	starExpr, ok := typ.(*ast.StarExpr)
 	if ok {
-- 
2.43.0


From 33e7fae327719c554496dd13a6ea1203c212ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 32/72] fix: methods promoted from embedded fields, elements
 and defined types

---
 instrument/resolve/expr.go       |   8 ++
 instrument/resolve/resolve.go    | 213 ++++++++++++++++++++-----------
 instrument/resolve/types/type.go |  22 +---
 3 files changed, 148 insertions(+), 95 deletions(-)

diff --git a/instrument/resolve/expr.go b/instrument/resolve/expr.go
index addf4b5..fe315c1 100644
--- a/instrument/resolve/expr.go
+++ b/instrument/resolve/expr.go
@@ -181,3 +181,11 @@ func deparen(expr ast.Expr) ast.Expr {
 		expr = p.X
 	}
 }
+
+func (c *Scope) underlyingOf(expr ast.Expr) types.Type {
+	typ := c.resolveObject(expr).Type()
+	if typ == nil {
+		return types.Unknown{}
+	}
+	return typ.Underlying()
+}
diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index c1fe1ce..df82c26 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -317,10 +317,26 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			return info
 		}
 
-		// otherwise this yields an element type
-		// from a slice or array
-		// TODO: support array
-		return types.Unknown{}
+		// otherwise this yields an element
+		obj, ok := info.(types.Object)
+		if !ok {
+			return types.Unknown{}
+		}
+		var elem types.Type
+		switch typ := elemContainer(obj.Type()).(type) {
+		case types.Array:
+			elem = typ.Elem
+		case types.Slice:
+			elem = typ.Elem
+		case types.Map:
+			elem = typ.Value
+		}
+		if elem == nil || types.IsUnknown(elem) {
+			return types.Unknown{}
+		}
+		return types.Value{
+			Type_: elem,
+		}
 	case *ast.BasicLit:
 		typ := getBasicLitConstType(expr.Kind)
 		if types.IsUnknown(typ) {
@@ -330,21 +346,22 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			Type_: typ,
 		}
 	case *ast.StructType:
-		fields := make([]types.StructField, len(expr.Fields.List))
-		for i, field := range expr.Fields.List {
+		fields := make([]types.StructField, 0, len(expr.Fields.List))
+		for _, field := range expr.Fields.List {
 			typ := c.lazyResolveType(field.Type)
 			if len(field.Names) > 0 {
 				for _, name := range field.Names {
-					fields[i] = types.StructField{
+					fields = append(fields, types.StructField{
 						Name: name.Name,
 						Type: typ,
-					}
+					})
 				}
 			} else {
-				fields[i] = types.StructField{
-					Name: getEmbedFieldName(field.Type),
-					Type: typ,
-				}
+				fields = append(fields, types.StructField{
+					Name:     getEmbedFieldName(field.Type),
+					Type:     typ,
+					Embedded: true,
+				})
 			}
 		}
 		return types.Struct{
@@ -665,7 +682,7 @@ func (c *Scope) resolveSelectorSubInfo(expr *ast.SelectorExpr) types.Info {
 			// update the nested expr type to be pointer
 			// A.B -> A to pointer
 			// A.B.C -> A, A.B all to be pointer
-			forAllNestedExpr(expr.X, func(expr ast.Expr) {
+			c.forAllNestedExpr(expr.X, func(expr ast.Expr) {
 				info := c.resolveInfo(expr)
 				if obj, ok := info.(types.Object); ok {
 					c.Global.ExprInfo[expr] = types.Pointer{
@@ -683,89 +700,133 @@ func (c *Scope) resolveSelectorSubInfo(expr *ast.SelectorExpr) types.Info {
 	return types.Unknown{}
 }
 
-func forAllNestedExpr(expr ast.Expr, fn func(expr ast.Expr)) {
+func (c *Scope) forAllNestedExpr(expr ast.Expr, fn func(expr ast.Expr)) {
 	fn(expr)
 	switch expr := expr.(type) {
 	case *ast.SelectorExpr:
-		forAllNestedExpr(expr.X, fn)
+		c.forAllNestedExpr(expr.X, fn)
 		fn(expr.Sel)
 	case *ast.ParenExpr:
-		forAllNestedExpr(expr.X, fn)
+		c.forAllNestedExpr(expr.X, fn)
+	case *ast.IndexExpr:
+		// only an element of an array is part of it
+		if _, ok := c.underlyingOf(expr.X).(types.Array); ok {
+			c.forAllNestedExpr(expr.X, fn)
+		}
 	}
 }
 
+// elemContainer is the underlying type of typ, or of
+// the array it points to.
+func elemContainer(typ types.Type) types.Type {
+	if typ == nil {
+		return types.Unknown{}
+	}
+	underlying := typ.Underlying()
+	if ptr, ok := underlying.(types.RawPtr); ok {
+		if arr, ok := ptr.Elem.(types.Array); ok {
+			return arr
+		}
+		return types.Unknown{}
+	}
+	return underlying
+}
+
 // valType can be: LazyType, ptr to LazyType
 // LazyType usually comes from struct field
 // deferred resolving
 func (c *Scope) resolveFieldToObject(valType types.Type, fieldName string, onDetectedPointer func()) types.Object {
-	valType = types.ResolveLazy(valType)
-	var isPtr bool
-	resolveType := valType
-	if ptrType, ok := valType.(types.PtrType); ok {
-		// *T
-		isPtr = true
-		resolveType = types.ResolveLazy(ptrType.Elem)
-	}
-	if genInstanceType, ok := resolveType.(types.GenericInstanceType); ok {
-		resolveType = genInstanceType.Type
-	}
-	// in go, a named type cannot be pointer
-	if namedType, ok := resolveType.(types.NamedType); ok {
-		// see issue https://github.com/xhd2015/xgo/issues/314
-		resolvedNamedType := types.ResolveAlias(namedType)
-		decl := c.getPkgNameDecl(resolvedNamedType.PkgPath, resolvedNamedType.Name)
-		var method *edit.FuncDecl
-		if decl != nil {
-			method = decl.Methods[fieldName]
-		}
-		if method != nil {
-			if !isPtr && method.RecvPtr {
-				// update expr.X's type to be ptr
-				// TODO: if is paren, deparen all
-				if onDetectedPointer != nil {
-					onDetectedPointer()
-				}
-			}
-			return types.PkgTypeMethod{
-				Name: fieldName,
-				Recv: resolvedNamedType,
-				// TODO params
-			}
-		} else {
-			// check fields
-			var isPtr bool
-			valType := valType.Underlying()
-			if rawPtr, ok := valType.(types.RawPtr); ok {
+	level := []embedding{{typ: valType}}
+	seen := make(map[PkgName]bool)
+	// a name at a shallower depth hides those promoted from a deeper one
+	for len(level) > 0 {
+		var next []embedding
+		for _, e := range level {
+			typ := types.ResolveLazy(e.typ)
+			isPtr := e.isPtr
+			if ptrType, ok := typ.(types.PtrType); ok {
+				// *T
 				isPtr = true
-				valType = rawPtr.Elem
+				typ = types.ResolveLazy(ptrType.Elem)
 			}
-			ud, ok := valType.(types.Struct)
-			if ok {
-				var fieldType types.Type
-				for _, field := range ud.Fields {
-					if field.Name == fieldName {
-						fieldType = field.Type
-						break
+			if genInstanceType, ok := typ.(types.GenericInstanceType); ok {
+				typ = genInstanceType.Type
+			}
+			// in go, a named type cannot be pointer
+			if namedType, ok := typ.(types.NamedType); ok {
+				name := PkgName{PkgPath: namedType.PkgPath, Name: namedType.Name}
+				if seen[name] {
+					continue
+				}
+				seen[name] = true
+				recv, method := c.lookupMethod(namedType, fieldName)
+				if method != nil {
+					if !isPtr && method.RecvPtr {
+						// update expr.X's type to be ptr
+						// TODO: if is paren, deparen all
+						if onDetectedPointer != nil {
+							onDetectedPointer()
+						}
+					}
+					return types.PkgTypeMethod{
+						Name: fieldName,
+						Recv: recv,
+						// TODO params
 					}
 				}
-				// struct X{ *Reader }
-				// x:=&X{}
-				// x.Reader -> *Reader
-				if fieldType != nil && !types.IsUnknown(fieldType) {
-					v := types.Value{
-						Type_: fieldType,
+			}
+			structType, ok := typ.Underlying().(types.Struct)
+			if !ok {
+				continue
+			}
+			for _, field := range structType.Fields {
+				if field.Name == fieldName {
+					// struct X{ *Reader }
+					// x:=&X{}
+					// x.Reader -> *Reader
+					if types.IsUnknown(field.Type) {
+						return types.Unknown{}
+					}
+					// NOTE: always a value, see https://github.com/xhd2015/xgo/issues/361
+					return types.Value{
+						Type_: field.Type,
 					}
-					// comment the following code due to: https://github.com/xhd2015/xgo/issues/361
-					_ = isPtr
-					// if isPtr && !types.IsPointer(fieldType) {
-					// 	return types.Pointer{
-					// 		Value: v,
-					// 	}
-					// }
-					return v
+				}
+				if field.Embedded {
+					next = append(next, embedding{typ: field.Type, isPtr: isPtr})
 				}
 			}
 		}
+		level = next
 	}
 	return types.Unknown{}
 }
+
+// embedding is a type whose fields and methods are
+// looked up, isPtr tells if it is reached through
+// a pointer.
+type embedding struct {
+	typ   types.Type
+	isPtr bool
+}
+
+func (c *Scope) lookupMethod(namedType types.NamedType, name string) (types.NamedType, *edit.FuncDecl) {
+	for {
+		decl := c.getPkgNameDecl(namedType.PkgPath, namedType.Name)
+		if decl != nil {
+			if method := decl.Methods[name]; method != nil {
+				return namedType, method
+			}
+		}
+		// see issue https://github.com/xhd2015/xgo/issues/314
+		typ := namedType.Type
+		if g, ok := typ.(types.GenericInstanceType); ok {
+			typ = g.Type
+		}
+		next, ok := typ.(types.NamedType)
+		if !ok {
+			return namedType, nil
+		}
+		namedType = next
+	}
+}
diff --git a/instrument/resolve/types/type.go b/instrument/resolve/types/type.go
index 022c98d..6358801 100644
--- a/instrument/resolve/types/type.go
+++ b/instrument/resolve/types/type.go
@@ -125,8 +125,9 @@ type Struct struct {
 }
 
 type StructField struct {
-	Name string
-	Type Type
+	Name     string
+	Type     Type
+	Embedded bool
 }
 
 type Interface struct {
@@ -446,20 +447,3 @@ func ResolveLazy(typ Type) Type {
 	}
 	return lzy()
 }
-
-func ResolveAlias(typ NamedType) NamedType {
-	for {
-		if g, ok := typ.Type.(GenericInstanceType); ok {
-			t, ok := g.Type.(NamedType)
-			if ok {
-				typ = t
-				continue
-			}
-		}
-		t, ok := typ.Type.(NamedType)
-		if !ok {
-			return typ
-		}
-		typ = t
-	}
-}
-- 
2.43.0


From 2cc2c0654c5a034f6581a77964f955c9d726cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 33/72] fix: taking the address of a part of a variable

---
 instrument/resolve/collect_var_ref.go |  4 ++
 instrument/resolve/expr.go            | 70 ++++++++++++++++++++++-----
 2 files changed, 63 insertions(+), 11 deletions(-)

diff --git a/instrument/resolve/collect_var_ref.go b/instrument/resolve/collect_var_ref.go
index 507bc06..26786f4 100644
--- a/instrument/resolve/collect_var_ref.go
+++ b/instrument/resolve/collect_var_ref.go
@@ -50,6 +50,10 @@ func (c *Scope) collectSelector(addr *ast.UnaryExpr, sel *ast.SelectorExpr) bool
 
 func (c *Scope) collectVarRef(addr *ast.UnaryExpr, expr ast.Expr, originalSel *ast.SelectorExpr) bool {
 	expr = deparen(expr)
+	if !isIdent(expr) && !isSelectorExpr(expr) {
+		// e.g. (&a).Method()
+		return false
+	}
 	exprInfo := c.resolveInfo(expr)
 	obj, ok := exprInfo.(types.Object)
 	if !ok {
diff --git a/instrument/resolve/expr.go b/instrument/resolve/expr.go
index fe315c1..9262670 100644
--- a/instrument/resolve/expr.go
+++ b/instrument/resolve/expr.go
@@ -74,7 +74,7 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 	case *ast.UnaryExpr:
 		// take addr
 		if node.Op == token.AND {
-			switch x := node.X.(type) {
+			switch x := deparen(node.X).(type) {
 			case *ast.Ident:
 				if c.collectIdent(node, x) {
 					return
@@ -99,6 +99,11 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 						return
 					}
 				}
+				c.traverseOperandOfAddr(x)
+				return
+			case *ast.IndexExpr:
+				c.traverseOperandOfAddr(x)
+				return
 			}
 		}
 		c.traverseExpr(node.X)
@@ -129,8 +134,13 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 		c.traverseExpr(node.X)
 		c.traverseExpr(node.Index)
 	case *ast.SliceExpr:
-		// something[...:...], only traverse the index
-		c.traverseExpr(node.X)
+		// something[...:...]
+		if _, ok := c.underlyingOf(node.X).(types.Array); ok {
+			// slicing an array takes its address
+			c.traverseOperandOfAddr(node.X)
+		} else {
+			c.traverseExpr(node.X)
+		}
 		c.traverseExpr(node.Low)
 		c.traverseExpr(node.High)
 	case *ast.ChanType:
@@ -169,6 +179,52 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 	}
 }
 
+// traverseOperandOfAddr traverses the operand of an expression
+// that takes an address. The result of variable_xgo_get() is not
+// addressable, so a variable whose own memory is addressed is left
+// as is. What lies behind a pointer or a slice does not belong to
+// the variable.
+func (c *Scope) traverseOperandOfAddr(expr ast.Expr) {
+	switch node := expr.(type) {
+	case *ast.Ident:
+		// the variable itself
+	case *ast.ParenExpr:
+		c.traverseOperandOfAddr(node.X)
+	case *ast.SelectorExpr:
+		switch info := c.resolveInfo(node).(type) {
+		case types.PkgVariable:
+			return
+		case types.Pointer:
+			if _, ok := info.Value.(types.PkgVariable); ok {
+				return
+			}
+		}
+		if _, ok := c.underlyingOf(node.X).(types.RawPtr); ok {
+			c.traverseExpr(node.X)
+			return
+		}
+		c.traverseOperandOfAddr(node.X)
+	case *ast.IndexExpr:
+		switch c.underlyingOf(node.X).(type) {
+		case types.RawPtr, types.Slice, types.Map:
+			c.traverseExpr(node.X)
+		default:
+			c.traverseOperandOfAddr(node.X)
+		}
+		c.traverseExpr(node.Index)
+	default:
+		c.traverseExpr(expr)
+	}
+}
+
+func (c *Scope) underlyingOf(expr ast.Expr) types.Type {
+	typ := c.resolveObject(expr).Type()
+	if typ == nil {
+		return types.Unknown{}
+	}
+	return typ.Underlying()
+}
+
 func deparen(expr ast.Expr) ast.Expr {
 	if expr == nil {
 		return nil
@@ -181,11 +237,3 @@ func deparen(expr ast.Expr) ast.Expr {
 		expr = p.X
 	}
 }
-
-func (c *Scope) underlyingOf(expr ast.Expr) types.Type {
-	typ := c.resolveObject(expr).Type()
-	if typ == nil {
-		return types.Unknown{}
-	}
-	return typ.Underlying()
-}
-- 
2.43.0


From fd839f5c57abf8fbaf27d4aced61bb11acb6c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 34/72] fix: names in package declarations are not those local
 to their use

The type of a package variable without declared type was resolved in the
scope of its first use. A local variable named like one its initial value
refers to gave it a wrong type, and the instrumented package did not build.
---
 instrument/resolve/resolve.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index df82c26..ed221bb 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -108,8 +108,11 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				if config.DEBUG {
 					config_debug.OnResolvePackageDeclareInfo(c.Package.PkgPath(), c.File.File.File.Name, expr)
 				}
+				// names in the declaration are those of its file,
+				// not the ones local to where it is used
+				declScope := c.newFileScope(c.Package.Package, decl.File)
 				if decl.Kind == edit.DeclKindType {
-					typ := c.resolveType(decl.Type)
+					typ := declScope.resolveType(decl.Type)
 					if types.IsUnknown(typ) {
 						return types.Unknown{}
 					}
@@ -124,9 +127,9 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				} else if decl.Kind == edit.DeclKindVar || decl.Kind == edit.DeclKindConst {
 					var varType types.Type
 					if decl.Type != nil {
-						varType = c.resolveType(decl.Type)
+						varType = declScope.resolveType(decl.Type)
 					} else if decl.Value != nil {
-						valInfo := c.resolveInfo(decl.Value)
+						valInfo := declScope.resolveInfo(decl.Value)
 						if lit, ok := valInfo.(types.UntypedLiteral); ok && decl.Kind == edit.DeclKindConst {
 							return lit
 						}
@@ -150,7 +153,7 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				} else if decl.Kind == edit.DeclKindFunc {
 					var signature types.Signature
 					if decl.FuncDecl != nil && decl.FuncDecl.Syntax != nil && decl.FuncDecl.Syntax.Type != nil {
-						typ := c.resolveType(decl.FuncDecl.Syntax.Type)
+						typ := declScope.resolveType(decl.FuncDecl.Syntax.Type)
 						if typ, ok := typ.(types.Signature); ok {
 							signature = typ
 						}
-- 
2.43.0


From 1d7f79587b1f6e853b7f9fd65b809fbf6713371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 35/72] fix: type parameters in resolving types

---
 instrument/ast/index_list_go1.18.go      | 11 ++++
 instrument/ast/index_list_non_go1.18.go  |  9 +++
 instrument/resolve/block.go              |  2 +-
 instrument/resolve/generic_go1.18.go     | 48 ++++++++++++++++
 instrument/resolve/generic_non_go1.18.go |  9 +++
 instrument/resolve/resolve.go            | 16 ++++--
 instrument/resolve/scope.go              | 36 ++++++++++++
 instrument/resolve/types/type.go         | 70 +++++++++++++++++++++++-
 8 files changed, 195 insertions(+), 6 deletions(-)

diff --git a/instrument/ast/index_list_go1.18.go b/instrument/ast/index_list_go1.18.go
index c1431ec..013d3a5 100644
--- a/instrument/ast/index_list_go1.18.go
+++ b/instrument/ast/index_list_go1.18.go
@@ -12,3 +12,14 @@ func extractIndexListExpr(typeExpr ast.Expr) (ast.Expr, bool) {
 	}
 	return indexListExpr.X, true
 }
+
+// SplitIndexExpr splits X[A, B] into X and its indices
+func SplitIndexExpr(expr ast.Expr) (ast.Expr, []ast.Expr) {
+	switch expr := expr.(type) {
+	case *ast.IndexExpr:
+		return expr.X, []ast.Expr{expr.Index}
+	case *ast.IndexListExpr:
+		return expr.X, expr.Indices
+	}
+	return expr, nil
+}
diff --git a/instrument/ast/index_list_non_go1.18.go b/instrument/ast/index_list_non_go1.18.go
index d82e2cc..e06ce49 100644
--- a/instrument/ast/index_list_non_go1.18.go
+++ b/instrument/ast/index_list_non_go1.18.go
@@ -8,3 +8,12 @@ import "go/ast"
 func extractIndexListExpr(typeExpr ast.Expr) (ast.Expr, bool) {
 	return typeExpr, false
 }
+
+// SplitIndexExpr splits X[A, B] into X and its indices
+func SplitIndexExpr(expr ast.Expr) (ast.Expr, []ast.Expr) {
+	switch expr := expr.(type) {
+	case *ast.IndexExpr:
+		return expr.X, []ast.Expr{expr.Index}
+	}
+	return expr, nil
+}
diff --git a/instrument/resolve/block.go b/instrument/resolve/block.go
index 69bbc58..a49bfac 100644
--- a/instrument/resolve/block.go
+++ b/instrument/resolve/block.go
@@ -24,7 +24,7 @@ func (c *Scope) traverseFunc(recv *ast.FieldList, debugFuncName string, funcType
 	for _, argName := range argNames {
 		names[argName] = true
 	}
-	scope := c.newScope()
+	scope := c.withTypeParams(getFuncTypeParamNames(recv, funcType), false).newScope()
 	scope.Names = names
 	scope.traverseBlockStmt(body)
 }
diff --git a/instrument/resolve/generic_go1.18.go b/instrument/resolve/generic_go1.18.go
index a1ec6c0..9c342b0 100644
--- a/instrument/resolve/generic_go1.18.go
+++ b/instrument/resolve/generic_go1.18.go
@@ -6,9 +6,57 @@ package resolve
 import (
 	"go/ast"
 
+	astutil "github.com/xhd2015/xgo/instrument/ast"
+	"github.com/xhd2015/xgo/instrument/edit"
 	"github.com/xhd2015/xgo/instrument/resolve/types"
 )
 
+// getTypeParamNames returns the type parameters of a type
+func getTypeParamNames(decl *edit.Decl) []string {
+	if decl.Decl == nil {
+		return nil
+	}
+	for _, spec := range decl.Decl.Specs {
+		if spec, ok := spec.(*ast.TypeSpec); ok && spec.Name == decl.Ident {
+			return getParamNames(spec.TypeParams)
+		}
+	}
+	return nil
+}
+
+// getFuncTypeParamNames returns the type parameters of a function,
+// or the names a method has for those of its receiver
+func getFuncTypeParamNames(recv *ast.FieldList, funcType *ast.FuncType) []string {
+	names := getParamNames(funcType.TypeParams)
+	if recv != nil && len(recv.List) > 0 {
+		typ := recv.List[0].Type
+		if starExpr, ok := typ.(*ast.StarExpr); ok {
+			typ = starExpr.X
+		}
+		_, indices := astutil.SplitIndexExpr(typ)
+		for _, index := range indices {
+			if idt, ok := index.(*ast.Ident); ok {
+				names = append(names, idt.Name)
+			}
+		}
+	}
+	return names
+}
+
+// getParamNames returns all the names, including blank ones
+func getParamNames(fields *ast.FieldList) []string {
+	if fields == nil {
+		return nil
+	}
+	var names []string
+	for _, field := range fields.List {
+		for _, name := range field.Names {
+			names = append(names, name.Name)
+		}
+	}
+	return names
+}
+
 // something[A,B]
 func (c *Scope) traverseIndexListExpr(expr ast.Expr) bool {
 	list, ok := expr.(*ast.IndexListExpr)
diff --git a/instrument/resolve/generic_non_go1.18.go b/instrument/resolve/generic_non_go1.18.go
index 1a3a8e5..2ee3505 100644
--- a/instrument/resolve/generic_non_go1.18.go
+++ b/instrument/resolve/generic_non_go1.18.go
@@ -6,9 +6,18 @@ package resolve
 import (
 	"go/ast"
 
+	"github.com/xhd2015/xgo/instrument/edit"
 	"github.com/xhd2015/xgo/instrument/resolve/types"
 )
 
+func getTypeParamNames(decl *edit.Decl) []string {
+	return nil
+}
+
+func getFuncTypeParamNames(recv *ast.FieldList, funcType *ast.FuncType) []string {
+	return nil
+}
+
 // something[A,B]
 func (c *Scope) traverseIndexListExpr(expr ast.Expr) bool {
 	return false
diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index ed221bb..00f51b4 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -6,6 +6,7 @@ import (
 	"go/token"
 	"os"
 
+	astutil "github.com/xhd2015/xgo/instrument/ast"
 	"github.com/xhd2015/xgo/instrument/config"
 	"github.com/xhd2015/xgo/instrument/config/config_debug"
 	"github.com/xhd2015/xgo/instrument/edit"
@@ -101,6 +102,9 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 		if def != nil {
 			return c.resolveDef(def)
 		}
+		if typ, ok := c.getTypeParam(name); ok {
+			return typ
+		}
 		if !c.Has(expr.Name) {
 			// check decl before imports
 			decl := c.Package.Decls[name]
@@ -112,7 +116,7 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				// not the ones local to where it is used
 				declScope := c.newFileScope(c.Package.Package, decl.File)
 				if decl.Kind == edit.DeclKindType {
-					typ := declScope.resolveType(decl.Type)
+					typ := declScope.withTypeParams(getTypeParamNames(decl), true).resolveType(decl.Type)
 					if types.IsUnknown(typ) {
 						return types.Unknown{}
 					}
@@ -153,7 +157,8 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 				} else if decl.Kind == edit.DeclKindFunc {
 					var signature types.Signature
 					if decl.FuncDecl != nil && decl.FuncDecl.Syntax != nil && decl.FuncDecl.Syntax.Type != nil {
-						typ := declScope.resolveType(decl.FuncDecl.Syntax.Type)
+						funcType := decl.FuncDecl.Syntax.Type
+						typ := declScope.withTypeParams(getFuncTypeParamNames(nil, funcType), false).resolveType(funcType)
 						if typ, ok := typ.(types.Signature); ok {
 							signature = typ
 						}
@@ -618,6 +623,8 @@ func getEmbedFieldName(typ ast.Expr) string {
 	if ok {
 		typ = starExpr.X
 	}
+	// generic
+	typ, _ = astutil.SplitIndexExpr(typ)
 	sel, ok := typ.(*ast.SelectorExpr)
 	if ok {
 		return sel.Sel.Name
@@ -752,11 +759,12 @@ func (c *Scope) resolveFieldToObject(valType types.Type, fieldName string, onDet
 				isPtr = true
 				typ = types.ResolveLazy(ptrType.Elem)
 			}
+			declType := typ
 			if genInstanceType, ok := typ.(types.GenericInstanceType); ok {
-				typ = genInstanceType.Type
+				declType = genInstanceType.Type
 			}
 			// in go, a named type cannot be pointer
-			if namedType, ok := typ.(types.NamedType); ok {
+			if namedType, ok := declType.(types.NamedType); ok {
 				name := PkgName{PkgPath: namedType.PkgPath, Name: namedType.Name}
 				if seen[name] {
 					continue
diff --git a/instrument/resolve/scope.go b/instrument/resolve/scope.go
index 52ebdb8..5a2de9f 100644
--- a/instrument/resolve/scope.go
+++ b/instrument/resolve/scope.go
@@ -122,6 +122,8 @@ type Scope struct {
 	Parent *Scope
 	Defs   map[string]*Define
 	Names  map[string]bool
+	// parameters of the generic declaration
+	TypeParams map[string]types.TypeParam
 
 	PkgDepth int
 }
@@ -203,6 +205,10 @@ func (c *Scope) Has(name string) bool {
 	if ok {
 		return true
 	}
+	_, ok = c.TypeParams[name]
+	if ok {
+		return true
+	}
 	return c.Parent != nil && c.Parent.Has(name)
 }
 
@@ -217,6 +223,36 @@ func (c *Scope) GetDef(name string) *Define {
 	return nil
 }
 
+// withTypeParams is the scope inside a generic declaration,
+// ofType tells if it is that of a type
+func (c *Scope) withTypeParams(names []string, ofType bool) *Scope {
+	if len(names) == 0 {
+		return c
+	}
+	scope := c.newScope()
+	scope.TypeParams = make(map[string]types.TypeParam, len(names))
+	for i, name := range names {
+		index := -1
+		if ofType {
+			index = i
+		}
+		scope.TypeParams[name] = types.TypeParam{Name: name, Index: index}
+	}
+	return scope
+}
+
+func (c *Scope) getTypeParam(name string) (types.TypeParam, bool) {
+	for ; c != nil; c = c.Parent {
+		if typ, ok := c.TypeParams[name]; ok {
+			return typ, true
+		}
+		if c.Names[name] || c.Defs[name] != nil {
+			break
+		}
+	}
+	return types.TypeParam{}, false
+}
+
 func (c *Scope) needDetectVarTrap() bool {
 	return c.Global.detectVarTrap
 }
diff --git a/instrument/resolve/types/type.go b/instrument/resolve/types/type.go
index 6358801..b0208c1 100644
--- a/instrument/resolve/types/type.go
+++ b/instrument/resolve/types/type.go
@@ -105,6 +105,15 @@ type GenericInstanceType struct {
 	InstanceParams []Type
 }
 
+// TypeParam is the parameter of a generic type or function
+// inside its declaration
+type TypeParam struct {
+	Name string
+	// among those of the generic type,
+	// -1 for a function
+	Index int
+}
+
 type Lazy func() Info
 
 // LazyType will be resolved when UseContext.doUseTypeInFile is called
@@ -214,12 +223,21 @@ func (c PtrType) String() string {
 func (c GenericInstanceType) infoMark() {}
 func (c GenericInstanceType) typeMark() {}
 func (c GenericInstanceType) Underlying() UnderlyingType {
-	return c.Type.Underlying()
+	return substitute(c.Type.Underlying(), c.InstanceParams).(UnderlyingType)
 }
 func (c GenericInstanceType) String() string {
 	return fmt.Sprintf("%s[...]", c.Type.String())
 }
 
+func (c TypeParam) infoMark() {}
+func (c TypeParam) typeMark() {}
+func (c TypeParam) Underlying() UnderlyingType {
+	return Unknown{}
+}
+func (c TypeParam) String() string {
+	return c.Name
+}
+
 func (c Lazy) infoMark() {}
 func (c Lazy) String() string {
 	return "lazy"
@@ -440,6 +458,56 @@ func IsPointer(typ Type) bool {
 	return ok
 }
 
+// substitute replaces the type parameters in typ, which is
+// part of the declaration of a generic type
+func substitute(typ Type, params []Type) Type {
+	switch typ := typ.(type) {
+	case TypeParam:
+		if typ.Index >= 0 && typ.Index < len(params) {
+			return params[typ.Index]
+		}
+		return Unknown{}
+	case LazyType:
+		return LazyType(func() Type {
+			return substitute(ResolveLazy(typ), params)
+		})
+	case PtrType:
+		return PtrType{Elem: substitute(typ.Elem, params)}
+	case RawPtr:
+		elem, ok := substitute(typ.Elem, params).(UnderlyingType)
+		if !ok {
+			return Unknown{}
+		}
+		return RawPtr{Elem: elem}
+	case GenericInstanceType:
+		instanceParams := make([]Type, len(typ.InstanceParams))
+		for i, param := range typ.InstanceParams {
+			instanceParams[i] = substitute(param, params)
+		}
+		return GenericInstanceType{Type: typ.Type, InstanceParams: instanceParams}
+	case Struct:
+		fields := make([]StructField, len(typ.Fields))
+		for i, field := range typ.Fields {
+			fields[i] = field
+			fields[i].Type = substitute(field.Type, params)
+		}
+		return Struct{Fields: fields}
+	case Signature:
+		results := make([]Type, len(typ.Results))
+		for i, result := range typ.Results {
+			results[i] = substitute(result, params)
+		}
+		return Signature{Results: results}
+	case Slice:
+		return Slice{Elem: substitute(typ.Elem, params)}
+	case Array:
+		return Array{Elem: substitute(typ.Elem, params)}
+	case Map:
+		return Map{Key: substitute(typ.Key, params), Value: substitute(typ.Value, params)}
+	}
+	return typ
+}
+
 func ResolveLazy(typ Type) Type {
 	lzy, ok := typ.(LazyType)
 	if !ok {
-- 
2.43.0


From 27eed0ca91774b6ca40591b99e05ecf92fd8f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 36/72] fix: variable types of several lines

---
 instrument/instrument_var/trap_var.go | 32 +++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/instrument/instrument_var/trap_var.go b/instrument/instrument_var/trap_var.go
index f780f1c..5aad6ed 100644
--- a/instrument/instrument_var/trap_var.go
+++ b/instrument/instrument_var/trap_var.go
@@ -3,6 +3,7 @@ package instrument_var
 import (
 	"fmt"
 	"go/ast"
+	"go/scanner"
 	"go/token"
 	"os"
 	"strings"
@@ -91,6 +92,7 @@ func rewriteVarDefAndRefs(fset *token.FileSet, pkgPath string, file *edit.File,
 	if typeCode == "" {
 		return false
 	}
+	typeCode = singleLine(typeCode)
 
 	varName := decl.Ident.Name
 
@@ -118,6 +120,36 @@ func rewriteVarDefAndRefs(fset *token.FileSet, pkgPath string, file *edit.File,
 	return true
 }
 
+// singleLine puts the code on one line, so that the lines after
+// where it is inserted keep their numbers
+func singleLine(code string) string {
+	if !strings.Contains(code, "\n") {
+		return code
+	}
+	fset := token.NewFileSet()
+	var scan scanner.Scanner
+	scan.Init(fset.AddFile("", fset.Base(), len(code)), []byte(code), nil, 0)
+	var tokens []string
+	for {
+		_, tok, lit := scan.Scan()
+		if tok == token.EOF {
+			break
+		}
+		if tok == token.SEMICOLON {
+			// might be a line break
+			lit = ";"
+		} else if !tok.IsLiteral() {
+			lit = tok.String()
+		}
+		tokens = append(tokens, lit)
+	}
+	// the one inserted at the end
+	if n := len(tokens); n > 0 && tokens[n-1] == ";" {
+		tokens = tokens[:n-1]
+	}
+	return strings.Join(tokens, " ")
+}
+
 func applyRewrite(prefix string, varRef *edit.VarRef) {
 	fileEdit := varRef.File.Edit
 	if varRef.Addr != nil && !varRef.FieldAccess {
-- 
2.43.0


From 32c084194b33f1ed58288ee5b324a30d49d1e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 37/72] fix: types of internal packages other packages cannot
 import

---
 instrument/instrument_var/trap_var.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/instrument/instrument_var/trap_var.go b/instrument/instrument_var/trap_var.go
index 5aad6ed..66697e0 100644
--- a/instrument/instrument_var/trap_var.go
+++ b/instrument/instrument_var/trap_var.go
@@ -220,6 +220,9 @@ func (c *UseContext) doUseTypeInFile(typ types.Type) (res string) {
 		if !token.IsExported(typ.Name) {
 			panic(fmt.Sprintf("unexported type: %s", typ.Name))
 		}
+		if !canImport(c.pkgPath, typ.PkgPath) {
+			panic(fmt.Sprintf("internal package: %s", typ.PkgPath))
+		}
 		pos := c.fset.Position(c.pos)
 		pkgRef, isNew := c.impRecorder.RecordImport(typ.PkgPath, fmt.Sprintf("__xgo_var_ref_%d_%d", pos.Line, pos.Column))
 		if isNew {
@@ -263,6 +266,19 @@ func (c *UseContext) doUseTypeInFile(typ types.Type) (res string) {
 	}
 }
 
+// canImport tells if package from may import pkgPath: what is below
+// the directory internal is for packages below its parent only
+func canImport(from string, pkgPath string) bool {
+	elems := strings.Split(pkgPath, "/")
+	for i := len(elems) - 1; i >= 0; i-- {
+		if elems[i] == "internal" {
+			parent := strings.Join(elems[:i], "/")
+			return parent != "" && (from == parent || strings.HasPrefix(from, parent+"/"))
+		}
+	}
+	return true
+}
+
 type importRecorder struct {
 	// pkg -> pkgRef, pkgRef
 	// is guaranteed to have no conflicts with
-- 
2.43.0


From 844e650ba0383c74745f33dc0cc7ca3213495d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 38/72] fix: test-explorer: -run selects exactly the chosen
 tests

^A|B$ also matches names that start with A or end with B, and in
^TestX/sub$ neither element is anchored at both ends. Names were also
escaped only in part.
---
 cmd/xgo/test-explorer/run.go | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/cmd/xgo/test-explorer/run.go b/cmd/xgo/test-explorer/run.go
index 81df4dc..4e29357 100644
--- a/cmd/xgo/test-explorer/run.go
+++ b/cmd/xgo/test-explorer/run.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"net/http"
 	"path/filepath"
+	"regexp"
 	"strings"
 	"time"
 
@@ -87,32 +88,27 @@ func formatPathArgs(paths []string) []string {
 	}
 	return args
 }
+
+// formatRunNames makes the argument of -run that
+// selects exactly the given tests
 func formatRunNames(names []string) string {
 	if names == nil {
 		return ""
 	}
-	return fmt.Sprintf("^%s$", strings.Join(escapeRegexNames(names), "|"))
-}
-
-func escapeRegexNames(names []string) []string {
-	replacedNames := make([]string, 0, len(names))
+	if len(names) == 1 {
+		// go test matches the elements of a name
+		// separated by slash one by one
+		elems := strings.Split(names[0], "/")
+		for i, elem := range elems {
+			elems[i] = "^" + regexp.QuoteMeta(elem) + "$"
+		}
+		return strings.Join(elems, "/")
+	}
+	quoted := make([]string, 0, len(names))
 	for _, name := range names {
-		replacedNames = append(replacedNames, escapeRegexName(name))
+		quoted = append(quoted, regexp.QuoteMeta(name))
 	}
-	return replacedNames
-}
-
-var replacer = strings.NewReplacer(
-	// ".", "\\.",
-	"{", "\\{",
-	"}", "\\}",
-	"[", "\\[",
-	"]", "\\]",
-	"|", "\\|",
-)
-
-func escapeRegexName(name string) string {
-	return replacer.Replace(name)
+	return fmt.Sprintf("^(%s)$", strings.Join(quoted, "|"))
 }
 
 func joinTestArgs(pathArgs []string, runNames string) []string {
-- 
2.43.0


From 119c295366b4799f0569200d6fb6928fe53ee97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 39/72] fix: test-explorer: read the output of go test to its
 end

A line of more than 64 KB, or one that looks like json and is not, ended
the reader. With nobody reading, go test blocked on its output and the
session never ended. A line that is not json crashed the explorer with a
nil dereference.
---
 cmd/xgo/test-explorer/run_session.go | 57 +++++++++++++++++-----------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/cmd/xgo/test-explorer/run_session.go b/cmd/xgo/test-explorer/run_session.go
index 1e8b878..4bf4e82 100644
--- a/cmd/xgo/test-explorer/run_session.go
+++ b/cmd/xgo/test-explorer/run_session.go
@@ -288,6 +288,8 @@ func (c *runSession) Start() error {
 			dirPkgPath:   dirPkgPath,
 			testResolver: tResolver,
 			pm:           pm,
+
+			plainMsgBuilder: plainMsgBuilder,
 		}
 		eventBuilder = jsonTestEventBuilder.build
 	}
@@ -583,21 +585,30 @@ func runTest(goCmd string, dir string, customFlags []string, testArgs []string,
 }
 
 func consumeTestEvent(r io.Reader, rootItemPath []string, builder func(line []byte) ([]*TestingItemEvent, error), callback func(*TestingItemEvent)) {
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		data := scanner.Bytes()
-
-		events, err := builder(data)
-		if err != nil {
-			callback(&TestingItemEvent{
-				Event: Event_ErrorMsg,
-				Path:  rootItemPath,
-				Msg:   err.Error(),
-			})
-			return
+	// read until the end whatever comes: the writer
+	// blocks when nobody reads.
+	// NOTE: a line can be of any length, which rules
+	// out bufio.Scanner
+	reader := bufio.NewReader(r)
+	for {
+		data, readErr := reader.ReadBytes('\n')
+		if len(data) > 0 {
+			data = bytes.TrimSuffix(data, []byte{'\n'})
+			data = bytes.TrimSuffix(data, []byte{'\r'})
+			events, err := builder(data)
+			if err != nil {
+				callback(&TestingItemEvent{
+					Event: Event_ErrorMsg,
+					Path:  rootItemPath,
+					Msg:   err.Error(),
+				})
+			}
+			for _, event := range events {
+				callback(event)
+			}
 		}
-		for _, event := range events {
-			callback(event)
+		if readErr != nil {
+			return
 		}
 	}
 }
@@ -610,8 +621,8 @@ type jsonTestEventBuilder struct {
 
 	pm *pathMapping
 
-	// parser
-	prefix []string
+	// build events from lines that are not json
+	plainMsgBuilder func(line []byte) ([]*TestingItemEvent, error)
 }
 
 func (c *jsonTestEventBuilder) build(line []byte) ([]*TestingItemEvent, error) {
@@ -619,6 +630,9 @@ func (c *jsonTestEventBuilder) build(line []byte) ([]*TestingItemEvent, error) {
 	if err != nil {
 		return nil, err
 	}
+	if event == nil {
+		return c.plainMsgBuilder(line)
+	}
 	return buildEvent(event, c.pathPrefix, c.dirPkgPath, c.pm, c.testResolver)
 }
 
@@ -630,6 +644,8 @@ var failRegex = regexp.MustCompile(`^FAIL\s+([^\s]+)\s+.*$`)
 // stderr: # github.com/xhd2015/xgo/script/build-release [github.com/xhd2015/xgo/script/build-release.test]
 // stderr: script/build-release/fixup_test.go:10:17: undefined: getGitDir
 // stdout: FAIL    github.com/xhd2015/xgo/script/build-release [build failed]
+//
+// the event is nil if line is neither an event nor a failure
 func (c *jsonTestEventBuilder) parse(line []byte) (*TestEvent, error) {
 	// fmt.Printf("line: %s\n", string(data))
 	if bytes.HasPrefix(line, []byte{'{'}) {
@@ -643,17 +659,12 @@ func (c *jsonTestEventBuilder) parse(line []byte) (*TestEvent, error) {
 	s := string(line)
 	m := failRegex.FindStringSubmatch(s)
 	if m == nil {
-		c.prefix = append(c.prefix, s)
 		return nil, nil
 	}
-	pkg := m[1]
-	c.prefix = nil
-
-	output := strings.Join(c.prefix, "\n") + "\n" + s
 	return &TestEvent{
-		Package: pkg,
+		Package: m[1],
 		Action:  TestEventAction_Fail,
-		Output:  output,
+		Output:  s + "\n",
 	}, nil
 }
 
-- 
2.43.0


From f3acc2dde75171d3221f51242c5601c73d82d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 40/72] fix: test-explorer: deliver standard error before the
 end of a run

The pipe was never closed by its writer, so the reader stayed blocked for
ever and the last line was lost if it had no newline. Lines could also be
reported after the end of the run.
---
 cmd/xgo/test-explorer/run_session.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/xgo/test-explorer/run_session.go b/cmd/xgo/test-explorer/run_session.go
index 4bf4e82..0262a29 100644
--- a/cmd/xgo/test-explorer/run_session.go
+++ b/cmd/xgo/test-explorer/run_session.go
@@ -336,6 +336,9 @@ func (c *runSession) Start() error {
 		var err error
 		defer func() {
 			w.Close()
+			if defStdErr != nil {
+				defStdErr.Close()
+			}
 			errCh <- err
 		}()
 		var stderr io.Writer
@@ -370,9 +373,11 @@ func (c *runSession) Start() error {
 	}()
 
 	// consume stderr
+	var stderrDone sync.WaitGroup
 	if defStdErrReader != nil {
+		stderrDone.Add(1)
 		go func() {
-			defer defStdErr.Close()
+			defer stderrDone.Done()
 			consumeTestEvent(defStdErrReader, rootPath, plainMsgBuilder, func(event *TestingItemEvent) {
 				// this loop will never write pm
 				// so access to pm is single threaded
@@ -386,6 +391,7 @@ func (c *runSession) Start() error {
 		// wait all finish
 		defer func() {
 			err := <-errCh
+			stderrDone.Wait()
 			if err != nil {
 				sendEvent(&TestingItemEvent{Event: Event_ItemStatus, Path: rootPath, Msg: err.Error(), Status: RunStatus_Fail})
 			}
-- 
2.43.0


From dc21866117557f8da05c70f09d8e92e7d285ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:34 +0000
Subject: [PATCH 41/72] fix: test-explorer: do not report tests as passed that
 did not pass

When a run failed, everything without a result was reported as success:
tests that were never run because go test could not start or the package
did not build, tests cut off in the middle, and files with failed tests.
A finished subtest a was also set back to running by a subtest named a/b.
---
 cmd/xgo/test-explorer/run_event.go   |  8 +++
 cmd/xgo/test-explorer/run_session.go | 74 +++++++++++++++++++++++-----
 2 files changed, 71 insertions(+), 11 deletions(-)

diff --git a/cmd/xgo/test-explorer/run_event.go b/cmd/xgo/test-explorer/run_event.go
index ddddb73..9a8a04f 100644
--- a/cmd/xgo/test-explorer/run_event.go
+++ b/cmd/xgo/test-explorer/run_event.go
@@ -69,6 +69,10 @@ func buildEvent(testEvent *TestEvent, pathPrefix []string, modPath string, pm *p
 
 						// set initial status
 						for i := 0; i < len(suffix); i++ {
+							if ok, _ := pm.Get(appendCopy(basePath, suffix[:i+1]...)); ok {
+								// it may be finished
+								continue
+							}
 							events = append(events, &TestingItemEvent{
 								Event:  Event_ItemStatus,
 								Path:   append(basePath, suffix[:i+1]...),
@@ -87,6 +91,10 @@ func buildEvent(testEvent *TestEvent, pathPrefix []string, modPath string, pm *p
 		}
 	}
 
+	if testEvent.Action == TestEventAction_Run && len(path) > 0 {
+		pm.SetStarted(path)
+	}
+
 	events = append(events, &TestingItemEvent{
 		Event:  Event_ItemStatus,
 		Item:   item,
diff --git a/cmd/xgo/test-explorer/run_session.go b/cmd/xgo/test-explorer/run_session.go
index 0262a29..a390a13 100644
--- a/cmd/xgo/test-explorer/run_session.go
+++ b/cmd/xgo/test-explorer/run_session.go
@@ -396,15 +396,15 @@ func (c *runSession) Start() error {
 				sendEvent(&TestingItemEvent{Event: Event_ItemStatus, Path: rootPath, Msg: err.Error(), Status: RunStatus_Fail})
 			}
 
-			// set all sub cases as success
+			// give the items that have no result a final status
+			pm.Settle(err == nil, func(path []string, status RunStatus) {
+				sendEvent(&TestingItemEvent{
+					Event:  Event_ItemStatus,
+					Path:   path,
+					Status: status,
+				})
+			})
 			pm.Range(func(path []string, status RunStatus) bool {
-				if status == "" || status == RunStatus_Running || status == RunStatus_NotRun {
-					sendEvent(&TestingItemEvent{
-						Event:  Event_ItemStatus,
-						Path:   append([]string{}, path...), // copy, see https://github.com/xhd2015/xgo/issues/212
-						Status: RunStatus_Success,
-					})
-				}
 				// read trace
 				if traceDir != "" {
 					debugF("path: %v, baseTraceCase: %v, rootPath: %v", path, caseSubPath, rootPath)
@@ -510,6 +510,8 @@ type pathMapping struct {
 
 type record struct {
 	status RunStatus
+	// go test reported that the test started
+	started bool
 }
 
 func (c *pathMapping) Get(path []string) (bool, RunStatus) {
@@ -535,7 +537,11 @@ func (c *pathMapping) Set(path []string, status RunStatus) {
 		}
 		return
 	}
-	sub := c.m[path[0]]
+	c.getOrCreate(path[0]).Set(path[1:], status)
+}
+
+func (c *pathMapping) getOrCreate(name string) *pathMapping {
+	sub := c.m[name]
 	if sub == nil {
 		sub = &pathMapping{
 			m: make(map[string]*pathMapping),
@@ -543,9 +549,55 @@ func (c *pathMapping) Set(path []string, status RunStatus) {
 		if c.m == nil {
 			c.m = make(map[string]*pathMapping, 1)
 		}
-		c.m[path[0]] = sub
+		c.m[name] = sub
+	}
+	return sub
+}
+
+func (c *pathMapping) SetStarted(path []string) {
+	if len(path) == 0 {
+		if c.record == nil {
+			c.record = &record{status: RunStatus_Running}
+		}
+		c.record.started = true
+		return
+	}
+	c.getOrCreate(path[0]).SetStarted(path[1:])
+}
+
+// Settle decides the status of items that have no result when
+// the run is over. If the run succeeded they did so as well.
+// Otherwise tests that did not finish have failed, tests that
+// did not start are not run, and anything else gets its status
+// from the items below.
+func (c *pathMapping) Settle(success bool, f func(path []string, status RunStatus)) {
+	c.settle(nil, success, f)
+}
+
+func (c *pathMapping) settle(prefix []string, success bool, f func(path []string, status RunStatus)) RunStatus {
+	status := RunStatus_NotRun
+	if success || len(c.m) > 0 {
+		status = RunStatus_Success
+	}
+	for k, v := range c.m {
+		// copy, see https://github.com/xhd2015/xgo/issues/212
+		sub := v.settle(appendCopy(prefix, k), success, f)
+		if sub == RunStatus_Fail || (sub == RunStatus_NotRun && status != RunStatus_Fail) {
+			status = sub
+		}
+	}
+	if c.record == nil {
+		return status
+	}
+	switch c.record.status {
+	case "", RunStatus_Running, RunStatus_NotRun:
+		if c.record.started && !success {
+			status = RunStatus_Fail
+		}
+		f(prefix, status)
+		return status
 	}
-	sub.Set(path[1:], status)
+	return c.record.status
 }
 
 func (c *pathMapping) Range(f func(path []string, status RunStatus) bool) {
-- 
2.43.0


From 80550c3c67c75e45a6d14cea1352de606f040534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 42/72] fix: test-explorer: deliver the output of /run and
 /debug before the end

The end was reported while output was still being read, the pipe was never
closed, and a line of more than 64 KB blocked the command for ever.
---
 cmd/xgo/test-explorer/poll.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/cmd/xgo/test-explorer/poll.go b/cmd/xgo/test-explorer/poll.go
index 26a55c5..edb503d 100644
--- a/cmd/xgo/test-explorer/poll.go
+++ b/cmd/xgo/test-explorer/poll.go
@@ -1,7 +1,6 @@
 package test_explorer
 
 import (
-	"bufio"
 	"context"
 	"fmt"
 	"io"
@@ -122,11 +121,8 @@ func startRun(sess session.Session, projectDir string, absDir string, file strin
 	// - build with gcflags="all=-N -l"
 	// - start dlv
 	// - output prompt
+	outputDone := make(chan struct{})
 	go func() {
-		defer sess.SendEvents(&TestingItemEvent{
-			Event: Event_TestEnd,
-		})
-
 		ctx := &RunContext{
 			ProjectDir:    projectDir,
 			AbsProjectDir: absDir,
@@ -142,23 +138,31 @@ func startRun(sess session.Session, projectDir string, absDir string, file strin
 			Args:       testArgs,
 		}
 		err := runner(ctx)
+
+		// all output comes before the end
+		pw.Close()
+		<-outputDone
 		if err != nil {
 			sess.SendEvents(&TestingItemEvent{
 				Event: Event_Output,
 				Msg:   "err: " + err.Error(),
 			})
 		}
+		sess.SendEvents(&TestingItemEvent{
+			Event: Event_TestEnd,
+		})
 	}()
 
 	go func() {
-		scanner := bufio.NewScanner(pr)
-		for scanner.Scan() {
-			data := scanner.Bytes()
-			sess.SendEvents(&TestingItemEvent{
+		defer close(outputDone)
+		consumeTestEvent(pr, nil, func(line []byte) ([]*TestingItemEvent, error) {
+			return []*TestingItemEvent{{
 				Event: Event_Output,
-				Msg:   string(data),
-			})
-		}
+				Msg:   string(line),
+			}}, nil
+		}, func(event *TestingItemEvent) {
+			sess.SendEvents(event)
+		})
 	}()
 }
 
-- 
2.43.0


From a318bb42b54e4de599b779b5c5c96b4eb62b54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:49 +0000
Subject: [PATCH 43/72] fix: sub path of a directory more than one level below
 go.mod

FindGoModDirSubPath returned the elements in reverse order, so the test
explorer could not list the tests of such a project directory.
---
 support/goinfo/find.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/goinfo/find.go b/support/goinfo/find.go
index ada3523..a76fd3c 100644
--- a/support/goinfo/find.go
+++ b/support/goinfo/find.go
@@ -46,7 +46,7 @@ func FindGoModDirSubPath(dir string) ([]string, string, error) {
 		if stat.IsDir() {
 			continue
 		}
-		return subPath, absDir, nil
+		return reverse(subPath), absDir, nil
 	}
 }
 
-- 
2.43.0


From 7d72c54eb8a4ef86671cea5f930a92cb44fb5062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:49 +0000
Subject: [PATCH 44/72] fix: patterns match whole path elements

In prefix mode the last element matched any name it is a prefix of, so
excluding integration_test also hid integration_test_utils. In full mode
text before a star never matched.
---
 patch/legacy/match/pattern.go | 24 +++++++++---------------
 support/pattern/pattern.go    | 24 +++++++++---------------
 2 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/patch/legacy/match/pattern.go b/patch/legacy/match/pattern.go
index 3a2f27a..3eae257 100755
--- a/patch/legacy/match/pattern.go
+++ b/patch/legacy/match/pattern.go
@@ -161,48 +161,42 @@ func doMatch(exprs []expr, segments []string, prefix bool) bool {
 		return expr.matchEmpty()
 	}
 
-	if !expr.matchNoDoubleStar(segments[0], prefix) {
+	if !expr.matchNoDoubleStar(segments[0]) {
 		return false
 	}
 	return doMatch(exprs[1:], segments[1:], prefix)
 }
 
-func (c expr) matchNoDoubleStar(name string, prefix bool) bool {
-	return c.matchRunesFrom(0, prefix, []rune(name))
+func (c expr) matchNoDoubleStar(name string) bool {
+	return c.matchRunesFrom(0, []rune(name))
 }
 
 // f(L, i, runes,j ) -> if L[i]==="*", f(L,i+1, runes,j) or f(L,i,runes,j+1)
-func (c expr) matchRunesFrom(i int, prefix bool, runes []rune) bool {
+func (c expr) matchRunesFrom(i int, runes []rune) bool {
 	if i >= len(c.elements) {
 		return len(runes) == 0
 	}
 	part := c.elements[i]
 	switch part.kind {
 	case kind_star:
-		if c.matchRunesFrom(i+1, prefix, runes) {
+		if c.matchRunesFrom(i+1, runes) {
 			return true
 		}
 		if len(runes) > 0 {
-			return c.matchRunesFrom(i, prefix, runes[1:])
+			return c.matchRunesFrom(i, runes[1:])
 		}
 		return false
 	case kind_plain_str:
 		n := len(part.runes)
-		if !prefix {
-			if n != len(runes) {
-				return false
-			}
-		} else {
-			if n > len(runes) {
-				return false
-			}
+		if n > len(runes) {
+			return false
 		}
 		for j := 0; j < n; j++ {
 			if runes[j] != part.runes[j] {
 				return false
 			}
 		}
-		return true
+		return c.matchRunesFrom(i+1, runes[n:])
 	default:
 		panic(fmt.Errorf("unknown expr kind: %v", part.kind))
 	}
diff --git a/support/pattern/pattern.go b/support/pattern/pattern.go
index 1061813..c1b3f49 100644
--- a/support/pattern/pattern.go
+++ b/support/pattern/pattern.go
@@ -159,48 +159,42 @@ func doMatch(exprs []expr, segments []string, prefix bool) bool {
 		return expr.matchEmpty()
 	}
 
-	if !expr.matchNoDoubleStar(segments[0], prefix) {
+	if !expr.matchNoDoubleStar(segments[0]) {
 		return false
 	}
 	return doMatch(exprs[1:], segments[1:], prefix)
 }
 
-func (c expr) matchNoDoubleStar(name string, prefix bool) bool {
-	return c.matchRunesFrom(0, prefix, []rune(name))
+func (c expr) matchNoDoubleStar(name string) bool {
+	return c.matchRunesFrom(0, []rune(name))
 }
 
 // f(L, i, runes,j ) -> if L[i]==="*", f(L,i+1, runes,j) or f(L,i,runes,j+1)
-func (c expr) matchRunesFrom(i int, prefix bool, runes []rune) bool {
+func (c expr) matchRunesFrom(i int, runes []rune) bool {
 	if i >= len(c.elements) {
 		return len(runes) == 0
 	}
 	part := c.elements[i]
 	switch part.kind {
 	case kind_star:
-		if c.matchRunesFrom(i+1, prefix, runes) {
+		if c.matchRunesFrom(i+1, runes) {
 			return true
 		}
 		if len(runes) > 0 {
-			return c.matchRunesFrom(i, prefix, runes[1:])
+			return c.matchRunesFrom(i, runes[1:])
 		}
 		return false
 	case kind_plain_str:
 		n := len(part.runes)
-		if !prefix {
-			if n != len(runes) {
-				return false
-			}
-		} else {
-			if n > len(runes) {
-				return false
-			}
+		if n > len(runes) {
+			return false
 		}
 		for j := 0; j < n; j++ {
 			if runes[j] != part.runes[j] {
 				return false
 			}
 		}
-		return true
+		return c.matchRunesFrom(i+1, runes[n:])
 	default:
 		panic(fmt.Errorf("unknown expr kind: %v", part.kind))
 	}
-- 
2.43.0


From 4b38269c704dda29bd7949cdc66f866c8fadd3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 45/72] fix: arguments of the program are not packages when
 running xgo run

---
 cmd/xgo/main.go   |  2 +-
 cmd/xgo/option.go | 13 +++++++++++++
 cmd/xgo/trace.go  |  5 ++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 9ae32a4..3985191 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -753,7 +753,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		needLocalRuntime := goVersion.Minor >= 25
 		if enableStackTrace || needUpgrade || needLocalRuntime {
 			// check if xgo/runtime ready
-			impResult, impRuntimeErr := importRuntimeDepGenOverlay(cmdTest, instrumentGoroot, instrumentGo, goVersion, modfile, realXgoSrc, projectDir, projectRoot, localXgoGenDir, mainModule, mod, resetInstrument || flagA, needUpgrade || needLocalRuntime, remainArgs)
+			impResult, impRuntimeErr := importRuntimeDepGenOverlay(cmdTest, cmdRun, instrumentGoroot, instrumentGo, goVersion, modfile, realXgoSrc, projectDir, projectRoot, localXgoGenDir, mainModule, mod, resetInstrument || flagA, needUpgrade || needLocalRuntime, remainArgs)
 			if impRuntimeErr != nil {
 				// can be silently ignored
 				if enableStackTrace {
diff --git a/cmd/xgo/option.go b/cmd/xgo/option.go
index 538311d..ba49923 100644
--- a/cmd/xgo/option.go
+++ b/cmd/xgo/option.go
@@ -825,3 +825,16 @@ func getPkgArgs(args []string) []string {
 	}
 	return newArgs
 }
+
+// trimProgramArgs removes the arguments of the program from those of
+// `go run`: what follows the package, or the list of go files
+func trimProgramArgs(pkgArgs []string) []string {
+	n := 0
+	for n < len(pkgArgs) && strings.HasSuffix(pkgArgs[n], ".go") {
+		n++
+	}
+	if n == 0 && len(pkgArgs) > 0 {
+		n = 1
+	}
+	return pkgArgs[:n]
+}
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index d5ef4ef..0aab3c7 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -65,7 +65,7 @@ func getVendorDir(projectRoot string) (string, error) {
 // by employing this technique with -modfile=replacedModFile, we can instruct go
 // to build with different modules.
 // TODO: may apply tags
-func importRuntimeDepGenOverlay(test bool, goroot string, goBinary string, goVersion *goinfo.GoVersion, absModFile string, xgoSrc string, projectDir string, projectRoot string, localXgoGenDir string, mainModule string, mod string, forceCopyRuntime bool, forceLoad bool, args []string) (*importResult, error) {
+func importRuntimeDepGenOverlay(test bool, run bool, goroot string, goBinary string, goVersion *goinfo.GoVersion, absModFile string, xgoSrc string, projectDir string, projectRoot string, localXgoGenDir string, mainModule string, mod string, forceCopyRuntime bool, forceLoad bool, args []string) (*importResult, error) {
 	if mainModule == "" {
 		// only work with module
 		return nil, nil
@@ -139,6 +139,9 @@ func importRuntimeDepGenOverlay(test bool, goroot string, goBinary string, goVer
 	}
 
 	pkgArgs := getPkgArgs(args)
+	if run {
+		pkgArgs = trimProgramArgs(pkgArgs)
+	}
 	var fileReplace map[string]string
 	if mainModule != constants.RUNTIME_MODULE {
 		// When building xgo/runtime itself, skip blank import injection.
-- 
2.43.0


From 3bb9c429e2109cafcff41072d855ff6429ba904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:24 +0000
Subject: [PATCH 46/72] fix: project root when running in a sub directory of
 the module

---
 cmd/xgo/main.go  |  8 ++++----
 cmd/xgo/trace.go | 20 ++++++++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 3985191..7960784 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -284,9 +284,9 @@ func handleBuild(cmd string, args []string) error {
 			return err
 		}
 	}
-	projectRootDir := projectDir
-	for i, n := 0, len(subPaths); i < n; i++ {
-		projectRootDir = filepath.Dir(projectRootDir)
+	projectRootDir, err := getProjectRoot(projectDir, subPaths)
+	if err != nil {
+		return err
 	}
 
 	// generate at .xgo/gen
@@ -737,7 +737,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 `, VERSION, coreVersion, CORE_VERSION, constants.RUNTIME_MODULE)
 		}
 
-		projectRoot := getProjectRoot(projectDir, subPaths)
+		projectRoot := projectRootDir
 		var xgoRuntimeModuleDir string
 
 		// the most important result of `importRuntimeDepGenOverlay`
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 0aab3c7..8e89d94 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -33,13 +33,20 @@ type importResult struct {
 	fileReplace map[overlay.AbsFile]overlay.AbsFile
 }
 
-func getProjectRoot(projectDir string, modRootRel []string) string {
-	projectRoot := projectDir
+func getProjectRoot(projectDir string, modRootRel []string) (string, error) {
 	n := len(modRootRel)
+	if n == 0 {
+		return projectDir, nil
+	}
+	// projectDir may be empty or relative, which has no parent to go up to
+	projectRoot, err := filepath.Abs(projectDir)
+	if err != nil {
+		return "", err
+	}
 	for i := 0; i < n; i++ {
 		projectRoot = filepath.Dir(projectRoot)
 	}
-	return projectRoot
+	return projectRoot, nil
 }
 
 // projectRoot is the directory containing go.mod
@@ -76,7 +83,12 @@ func importRuntimeDepGenOverlay(test bool, run bool, goroot string, goBinary str
 	}
 	var vendorDir string
 	if mod == "vendor" || mod == "" {
-		vendorDir, err = getVendorDir(projectDir)
+		var absProjectRoot string
+		absProjectRoot, err = filepath.Abs(projectRoot)
+		if err != nil {
+			return nil, err
+		}
+		vendorDir, err = getVendorDir(absProjectRoot)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 1ca87501a02fab84f372ec85a33967fc9a40244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:17 +0000
Subject: [PATCH 47/72] fix: an incomplete or instrumented copy of the runtime
 is not kept for later runs

---
 cmd/xgo/trace.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 8e89d94..64a63e4 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -263,13 +263,22 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 		}
 
 		//  cache copy
+		versionFile := joinEmbedPath([]string{"core", "version.go"})
 		if !skipFullCopy {
 			logDebug("extracting runtime from xgo to %s", tmpRuntime)
-			err := os.RemoveAll(tmpRuntime)
+			// the version file tells that the copy is complete,
+			// so it is the first to be removed and the last to be written
+			err := os.RemoveAll(filepath.Join(tmpRuntime, "core", "version.go"))
 			if err != nil {
 				return nil, err
 			}
-			err = instrument_embed.CopyDir(asset.RuntimeGenFS, asset.RuntimeGen, tmpRuntime, instrument_embed.CopyOptions{})
+			err = os.RemoveAll(tmpRuntime)
+			if err != nil {
+				return nil, err
+			}
+			err = instrument_embed.CopyDir(asset.RuntimeGenFS, asset.RuntimeGen, tmpRuntime, instrument_embed.CopyOptions{
+				IgnorePaths: []string{versionFile},
+			})
 			if err != nil {
 				return nil, err
 			}
@@ -277,14 +286,21 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 			if err != nil {
 				return nil, err
 			}
-		} else {
-			// always copy trace.go because it will be instrumented
-			logDebug("extracting runtime/trace/trace.go from xgo to %s", tmpRuntime)
-			content, err := asset.RuntimeGenFS.ReadFile(asset.RuntimeGen + "/trace/trace.go")
+		}
+		// always copy the files that will be instrumented in place,
+		// depending on the flags of each run
+		for _, path := range [][]string{
+			{"trace", "trace.go"},
+			{"internal", "flags", "flags.go"},
+			{"internal", "runtime", "runtime_link.go"},
+			{"core", "version.go"},
+		} {
+			logDebug("extracting runtime/%s from xgo to %s", strings.Join(path, "/"), tmpRuntime)
+			content, err := asset.RuntimeGenFS.ReadFile(concatEmbedPath(asset.RuntimeGen, joinEmbedPath(path)))
 			if err != nil {
 				return nil, err
 			}
-			err = os.WriteFile(filepath.Join(tmpRuntime, "trace", "trace.go"), content, 0755)
+			err = os.WriteFile(filepath.Join(tmpRuntime, filepath.Join(path...)), content, 0755)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 365e88c92c7dedce9a786937a48b6f30d69e4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 48/72] Revert "fix: test-explorer: deliver the output of /run
 and /debug before the end"

This reverts commit 80550c3c67c75e45a6d14cea1352de606f040534.
---
 cmd/xgo/test-explorer/poll.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/cmd/xgo/test-explorer/poll.go b/cmd/xgo/test-explorer/poll.go
index edb503d..26a55c5 100644
--- a/cmd/xgo/test-explorer/poll.go
+++ b/cmd/xgo/test-explorer/poll.go
@@ -1,6 +1,7 @@
 package test_explorer
 
 import (
+	"bufio"
 	"context"
 	"fmt"
 	"io"
@@ -121,8 +122,11 @@ func startRun(sess session.Session, projectDir string, absDir string, file strin
 	// - build with gcflags="all=-N -l"
 	// - start dlv
 	// - output prompt
-	outputDone := make(chan struct{})
 	go func() {
+		defer sess.SendEvents(&TestingItemEvent{
+			Event: Event_TestEnd,
+		})
+
 		ctx := &RunContext{
 			ProjectDir:    projectDir,
 			AbsProjectDir: absDir,
@@ -138,31 +142,23 @@ func startRun(sess session.Session, projectDir string, absDir string, file strin
 			Args:       testArgs,
 		}
 		err := runner(ctx)
-
-		// all output comes before the end
-		pw.Close()
-		<-outputDone
 		if err != nil {
 			sess.SendEvents(&TestingItemEvent{
 				Event: Event_Output,
 				Msg:   "err: " + err.Error(),
 			})
 		}
-		sess.SendEvents(&TestingItemEvent{
-			Event: Event_TestEnd,
-		})
 	}()
 
 	go func() {
-		defer close(outputDone)
-		consumeTestEvent(pr, nil, func(line []byte) ([]*TestingItemEvent, error) {
-			return []*TestingItemEvent{{
+		scanner := bufio.NewScanner(pr)
+		for scanner.Scan() {
+			data := scanner.Bytes()
+			sess.SendEvents(&TestingItemEvent{
 				Event: Event_Output,
-				Msg:   string(line),
-			}}, nil
-		}, func(event *TestingItemEvent) {
-			sess.SendEvents(event)
-		})
+				Msg:   string(data),
+			})
+		}
 	}()
 }
 
-- 
2.43.0


From 8f2e6eeddab73eb03f3fa55b5f7e77e64daf2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 49/72] Revert "fix: test-explorer: do not report tests as
 passed that did not pass"

This reverts commit dc21866117557f8da05c70f09d8e92e7d285ad81.
---
 cmd/xgo/test-explorer/run_event.go   |  8 ---
 cmd/xgo/test-explorer/run_session.go | 74 +++++-----------------------
 2 files changed, 11 insertions(+), 71 deletions(-)

diff --git a/cmd/xgo/test-explorer/run_event.go b/cmd/xgo/test-explorer/run_event.go
index 9a8a04f..ddddb73 100644
--- a/cmd/xgo/test-explorer/run_event.go
+++ b/cmd/xgo/test-explorer/run_event.go
@@ -69,10 +69,6 @@ func buildEvent(testEvent *TestEvent, pathPrefix []string, modPath string, pm *p
 
 						// set initial status
 						for i := 0; i < len(suffix); i++ {
-							if ok, _ := pm.Get(appendCopy(basePath, suffix[:i+1]...)); ok {
-								// it may be finished
-								continue
-							}
 							events = append(events, &TestingItemEvent{
 								Event:  Event_ItemStatus,
 								Path:   append(basePath, suffix[:i+1]...),
@@ -91,10 +87,6 @@ func buildEvent(testEvent *TestEvent, pathPrefix []string, modPath string, pm *p
 		}
 	}
 
-	if testEvent.Action == TestEventAction_Run && len(path) > 0 {
-		pm.SetStarted(path)
-	}
-
 	events = append(events, &TestingItemEvent{
 		Event:  Event_ItemStatus,
 		Item:   item,
diff --git a/cmd/xgo/test-explorer/run_session.go b/cmd/xgo/test-explorer/run_session.go
index a390a13..0262a29 100644
--- a/cmd/xgo/test-explorer/run_session.go
+++ b/cmd/xgo/test-explorer/run_session.go
@@ -396,15 +396,15 @@ func (c *runSession) Start() error {
 				sendEvent(&TestingItemEvent{Event: Event_ItemStatus, Path: rootPath, Msg: err.Error(), Status: RunStatus_Fail})
 			}
 
-			// give the items that have no result a final status
-			pm.Settle(err == nil, func(path []string, status RunStatus) {
-				sendEvent(&TestingItemEvent{
-					Event:  Event_ItemStatus,
-					Path:   path,
-					Status: status,
-				})
-			})
+			// set all sub cases as success
 			pm.Range(func(path []string, status RunStatus) bool {
+				if status == "" || status == RunStatus_Running || status == RunStatus_NotRun {
+					sendEvent(&TestingItemEvent{
+						Event:  Event_ItemStatus,
+						Path:   append([]string{}, path...), // copy, see https://github.com/xhd2015/xgo/issues/212
+						Status: RunStatus_Success,
+					})
+				}
 				// read trace
 				if traceDir != "" {
 					debugF("path: %v, baseTraceCase: %v, rootPath: %v", path, caseSubPath, rootPath)
@@ -510,8 +510,6 @@ type pathMapping struct {
 
 type record struct {
 	status RunStatus
-	// go test reported that the test started
-	started bool
 }
 
 func (c *pathMapping) Get(path []string) (bool, RunStatus) {
@@ -537,11 +535,7 @@ func (c *pathMapping) Set(path []string, status RunStatus) {
 		}
 		return
 	}
-	c.getOrCreate(path[0]).Set(path[1:], status)
-}
-
-func (c *pathMapping) getOrCreate(name string) *pathMapping {
-	sub := c.m[name]
+	sub := c.m[path[0]]
 	if sub == nil {
 		sub = &pathMapping{
 			m: make(map[string]*pathMapping),
@@ -549,55 +543,9 @@ func (c *pathMapping) getOrCreate(name string) *pathMapping {
 		if c.m == nil {
 			c.m = make(map[string]*pathMapping, 1)
 		}
-		c.m[name] = sub
-	}
-	return sub
-}
-
-func (c *pathMapping) SetStarted(path []string) {
-	if len(path) == 0 {
-		if c.record == nil {
-			c.record = &record{status: RunStatus_Running}
-		}
-		c.record.started = true
-		return
-	}
-	c.getOrCreate(path[0]).SetStarted(path[1:])
-}
-
-// Settle decides the status of items that have no result when
-// the run is over. If the run succeeded they did so as well.
-// Otherwise tests that did not finish have failed, tests that
-// did not start are not run, and anything else gets its status
-// from the items below.
-func (c *pathMapping) Settle(success bool, f func(path []string, status RunStatus)) {
-	c.settle(nil, success, f)
-}
-
-func (c *pathMapping) settle(prefix []string, success bool, f func(path []string, status RunStatus)) RunStatus {
-	status := RunStatus_NotRun
-	if success || len(c.m) > 0 {
-		status = RunStatus_Success
-	}
-	for k, v := range c.m {
-		// copy, see https://github.com/xhd2015/xgo/issues/212
-		sub := v.settle(appendCopy(prefix, k), success, f)
-		if sub == RunStatus_Fail || (sub == RunStatus_NotRun && status != RunStatus_Fail) {
-			status = sub
-		}
-	}
-	if c.record == nil {
-		return status
-	}
-	switch c.record.status {
-	case "", RunStatus_Running, RunStatus_NotRun:
-		if c.record.started && !success {
-			status = RunStatus_Fail
-		}
-		f(prefix, status)
-		return status
+		c.m[path[0]] = sub
 	}
-	return c.record.status
+	sub.Set(path[1:], status)
 }
 
 func (c *pathMapping) Range(f func(path []string, status RunStatus) bool) {
-- 
2.43.0


From aecb21b0c485d9e2b5318125a537eca4f57886fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 50/72] Revert "fix: test-explorer: deliver standard error
 before the end of a run"

This reverts commit f3acc2dde75171d3221f51242c5601c73d82d769.
---
 cmd/xgo/test-explorer/run_session.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cmd/xgo/test-explorer/run_session.go b/cmd/xgo/test-explorer/run_session.go
index 0262a29..4bf4e82 100644
--- a/cmd/xgo/test-explorer/run_session.go
+++ b/cmd/xgo/test-explorer/run_session.go
@@ -336,9 +336,6 @@ func (c *runSession) Start() error {
 		var err error
 		defer func() {
 			w.Close()
-			if defStdErr != nil {
-				defStdErr.Close()
-			}
 			errCh <- err
 		}()
 		var stderr io.Writer
@@ -373,11 +370,9 @@ func (c *runSession) Start() error {
 	}()
 
 	// consume stderr
-	var stderrDone sync.WaitGroup
 	if defStdErrReader != nil {
-		stderrDone.Add(1)
 		go func() {
-			defer stderrDone.Done()
+			defer defStdErr.Close()
 			consumeTestEvent(defStdErrReader, rootPath, plainMsgBuilder, func(event *TestingItemEvent) {
 				// this loop will never write pm
 				// so access to pm is single threaded
@@ -391,7 +386,6 @@ func (c *runSession) Start() error {
 		// wait all finish
 		defer func() {
 			err := <-errCh
-			stderrDone.Wait()
 			if err != nil {
 				sendEvent(&TestingItemEvent{Event: Event_ItemStatus, Path: rootPath, Msg: err.Error(), Status: RunStatus_Fail})
 			}
-- 
2.43.0


From c020508882de8b09c6627be70074cfa255d3a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 51/72] Revert "fix: test-explorer: read the output of go test
 to its end"

This reverts commit 119c295366b4799f0569200d6fb6928fe53ee97d.
---
 cmd/xgo/test-explorer/run_session.go | 57 +++++++++++-----------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/cmd/xgo/test-explorer/run_session.go b/cmd/xgo/test-explorer/run_session.go
index 4bf4e82..1e8b878 100644
--- a/cmd/xgo/test-explorer/run_session.go
+++ b/cmd/xgo/test-explorer/run_session.go
@@ -288,8 +288,6 @@ func (c *runSession) Start() error {
 			dirPkgPath:   dirPkgPath,
 			testResolver: tResolver,
 			pm:           pm,
-
-			plainMsgBuilder: plainMsgBuilder,
 		}
 		eventBuilder = jsonTestEventBuilder.build
 	}
@@ -585,31 +583,22 @@ func runTest(goCmd string, dir string, customFlags []string, testArgs []string,
 }
 
 func consumeTestEvent(r io.Reader, rootItemPath []string, builder func(line []byte) ([]*TestingItemEvent, error), callback func(*TestingItemEvent)) {
-	// read until the end whatever comes: the writer
-	// blocks when nobody reads.
-	// NOTE: a line can be of any length, which rules
-	// out bufio.Scanner
-	reader := bufio.NewReader(r)
-	for {
-		data, readErr := reader.ReadBytes('\n')
-		if len(data) > 0 {
-			data = bytes.TrimSuffix(data, []byte{'\n'})
-			data = bytes.TrimSuffix(data, []byte{'\r'})
-			events, err := builder(data)
-			if err != nil {
-				callback(&TestingItemEvent{
-					Event: Event_ErrorMsg,
-					Path:  rootItemPath,
-					Msg:   err.Error(),
-				})
-			}
-			for _, event := range events {
-				callback(event)
-			}
-		}
-		if readErr != nil {
+	scanner := bufio.NewScanner(r)
+	for scanner.Scan() {
+		data := scanner.Bytes()
+
+		events, err := builder(data)
+		if err != nil {
+			callback(&TestingItemEvent{
+				Event: Event_ErrorMsg,
+				Path:  rootItemPath,
+				Msg:   err.Error(),
+			})
 			return
 		}
+		for _, event := range events {
+			callback(event)
+		}
 	}
 }
 
@@ -621,8 +610,8 @@ type jsonTestEventBuilder struct {
 
 	pm *pathMapping
 
-	// build events from lines that are not json
-	plainMsgBuilder func(line []byte) ([]*TestingItemEvent, error)
+	// parser
+	prefix []string
 }
 
 func (c *jsonTestEventBuilder) build(line []byte) ([]*TestingItemEvent, error) {
@@ -630,9 +619,6 @@ func (c *jsonTestEventBuilder) build(line []byte) ([]*TestingItemEvent, error) {
 	if err != nil {
 		return nil, err
 	}
-	if event == nil {
-		return c.plainMsgBuilder(line)
-	}
 	return buildEvent(event, c.pathPrefix, c.dirPkgPath, c.pm, c.testResolver)
 }
 
@@ -644,8 +630,6 @@ var failRegex = regexp.MustCompile(`^FAIL\s+([^\s]+)\s+.*$`)
 // stderr: # github.com/xhd2015/xgo/script/build-release [github.com/xhd2015/xgo/script/build-release.test]
 // stderr: script/build-release/fixup_test.go:10:17: undefined: getGitDir
 // stdout: FAIL    github.com/xhd2015/xgo/script/build-release [build failed]
-//
-// the event is nil if line is neither an event nor a failure
 func (c *jsonTestEventBuilder) parse(line []byte) (*TestEvent, error) {
 	// fmt.Printf("line: %s\n", string(data))
 	if bytes.HasPrefix(line, []byte{'{'}) {
@@ -659,12 +643,17 @@ func (c *jsonTestEventBuilder) parse(line []byte) (*TestEvent, error) {
 	s := string(line)
 	m := failRegex.FindStringSubmatch(s)
 	if m == nil {
+		c.prefix = append(c.prefix, s)
 		return nil, nil
 	}
+	pkg := m[1]
+	c.prefix = nil
+
+	output := strings.Join(c.prefix, "\n") + "\n" + s
 	return &TestEvent{
-		Package: m[1],
+		Package: pkg,
 		Action:  TestEventAction_Fail,
-		Output:  s + "\n",
+		Output:  output,
 	}, nil
 }
 
-- 
2.43.0


From 1b8d1ef5007f6c174a80e89d825d1f3387e79b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 52/72] Revert "fix: test-explorer: -run selects exactly the
 chosen tests"

This reverts commit 844e650ba0383c74745f33dc0cc7ca3213495d0e.
---
 cmd/xgo/test-explorer/run.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/cmd/xgo/test-explorer/run.go b/cmd/xgo/test-explorer/run.go
index 4e29357..81df4dc 100644
--- a/cmd/xgo/test-explorer/run.go
+++ b/cmd/xgo/test-explorer/run.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"net/http"
 	"path/filepath"
-	"regexp"
 	"strings"
 	"time"
 
@@ -88,27 +87,32 @@ func formatPathArgs(paths []string) []string {
 	}
 	return args
 }
-
-// formatRunNames makes the argument of -run that
-// selects exactly the given tests
 func formatRunNames(names []string) string {
 	if names == nil {
 		return ""
 	}
-	if len(names) == 1 {
-		// go test matches the elements of a name
-		// separated by slash one by one
-		elems := strings.Split(names[0], "/")
-		for i, elem := range elems {
-			elems[i] = "^" + regexp.QuoteMeta(elem) + "$"
-		}
-		return strings.Join(elems, "/")
-	}
-	quoted := make([]string, 0, len(names))
+	return fmt.Sprintf("^%s$", strings.Join(escapeRegexNames(names), "|"))
+}
+
+func escapeRegexNames(names []string) []string {
+	replacedNames := make([]string, 0, len(names))
 	for _, name := range names {
-		quoted = append(quoted, regexp.QuoteMeta(name))
+		replacedNames = append(replacedNames, escapeRegexName(name))
 	}
-	return fmt.Sprintf("^(%s)$", strings.Join(quoted, "|"))
+	return replacedNames
+}
+
+var replacer = strings.NewReplacer(
+	// ".", "\\.",
+	"{", "\\{",
+	"}", "\\}",
+	"[", "\\[",
+	"]", "\\]",
+	"|", "\\|",
+)
+
+func escapeRegexName(name string) string {
+	return replacer.Replace(name)
 }
 
 func joinTestArgs(pathArgs []string, runNames string) []string {
-- 
2.43.0


From 3125b52fc3209fb28153ab0ac06540591e7715fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:28 +0000
Subject: [PATCH 53/72] fix: an overlay may remove files

---
 cmd/xgo/trace.go              |  4 ++++
 instrument/overlay/io.go      | 11 +++++++++++
 instrument/overlay/overlay.go | 25 +++++++++++++++++++++++++
 3 files changed, 40 insertions(+)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 64a63e4..8d2173b 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -751,6 +751,10 @@ func applyBlankImportThroughOverlay(overlayFS overlay.Overlay, fileReplace map[o
 		return nil
 	}
 	for src, prepTarget := range fileReplace {
+		if f := overlayFS.Get(src); f != nil && f.Removed() {
+			// The caller's overlay removes the file.
+			continue
+		}
 		_, content, err := overlayFS.Read(src)
 		if err != nil {
 			if prepTarget == "" {
diff --git a/instrument/overlay/io.go b/instrument/overlay/io.go
index 7ae14bb..60b34b1 100644
--- a/instrument/overlay/io.go
+++ b/instrument/overlay/io.go
@@ -91,6 +91,10 @@ func (p *ParsedOverlay) ApplyFileRedirects(fs Overlay) {
 		return
 	}
 	for _, e := range p.Entries {
+		if e.TargetCanonical == "" {
+			fs.RemoveFile(e.SourceCanonical)
+			continue
+		}
 		// Canonical source/target; OverrideFile re-keys via absFileKey.
 		fs.OverrideFile(e.SourceCanonical, e.TargetCanonical)
 	}
@@ -131,6 +135,10 @@ func (p *ParsedOverlay) ProjectOntoCallerSources(composed *GoOverlay) {
 }
 
 func ResolveAbsFile(file AbsFile, opts PathOptions) AbsFile {
+	if file == "" {
+		// an empty replacement: the file is treated as if it did not exist
+		return ""
+	}
 	path := filepath.FromSlash(string(file))
 	if !filepath.IsAbs(path) && opts.BaseDir != "" {
 		path = filepath.Join(opts.BaseDir, path)
@@ -146,6 +154,9 @@ func CanonicalizeAbsFile(file AbsFile, opts PathOptions) AbsFile {
 }
 
 func evalSymlinksAbs(file AbsFile) AbsFile {
+	if file == "" {
+		return ""
+	}
 	path := filepath.FromSlash(string(file))
 	if resolved, err := filepath.EvalSymlinks(path); err == nil {
 		path = resolved
diff --git a/instrument/overlay/overlay.go b/instrument/overlay/overlay.go
index a10ff8e..24fff62 100644
--- a/instrument/overlay/overlay.go
+++ b/instrument/overlay/overlay.go
@@ -19,6 +19,12 @@ type FileOverlay struct {
 	Content string
 
 	hasOverriddenContent bool
+	removed              bool
+}
+
+// Removed reports whether the file is treated as if it did not exist.
+func (c *FileOverlay) Removed() bool {
+	return c.removed
 }
 
 func MakeOverlay() Overlay {
@@ -45,6 +51,12 @@ func (o Overlay) OverrideFile(absFile AbsFile, targetFile AbsFile) {
 	}
 }
 
+// RemoveFile makes the file appear not to exist, like an empty replacement
+// in a Go overlay does.
+func (o Overlay) RemoveFile(absFile AbsFile) {
+	o[absFileKey(absFile)] = &FileOverlay{removed: true}
+}
+
 func (o Overlay) OverrideContent(absFile AbsFile, content string) {
 	// Replaces any prior file redirect for the same identity, so a later
 	// instrumented content mapping cannot leave an uninstrumented alias behind.
@@ -66,6 +78,9 @@ func (o Overlay) Size(absFile AbsFile) (size int64, err error) {
 		if overlayFile.hasOverriddenContent {
 			return int64(len(overlayFile.Content)), nil
 		}
+		if overlayFile.removed {
+			return 0, &os.PathError{Op: "stat", Path: string(absFile), Err: os.ErrNotExist}
+		}
 		if overlayFile.AbsFile != "" {
 			readOSFile = overlayFile.AbsFile
 		}
@@ -85,6 +100,9 @@ func (o Overlay) Read(absFile AbsFile) (hitContent bool, content string, err err
 		if overlayFile.hasOverriddenContent {
 			return true, overlayFile.Content, nil
 		}
+		if overlayFile.removed {
+			return false, "", &os.PathError{Op: "open", Path: string(absFile), Err: os.ErrNotExist}
+		}
 		if overlayFile.AbsFile != "" {
 			readOSFile = overlayFile.AbsFile
 		}
@@ -104,6 +122,9 @@ func (o Overlay) ReadBytes(absFile AbsFile) (hitContent bool, content []byte, er
 		if overlayFile.hasOverriddenContent {
 			return true, []byte(overlayFile.Content), nil
 		}
+		if overlayFile.removed {
+			return false, nil, &os.PathError{Op: "open", Path: string(absFile), Err: os.ErrNotExist}
+		}
 		if overlayFile.AbsFile != "" {
 			readOSFile = overlayFile.AbsFile
 		}
@@ -175,6 +196,10 @@ func (o Overlay) MakeGoOverlay(overlayDir string, opts Options) (*GoOverlay, err
 			replace[AbsFile(filepath.ToSlash(string(absFile)))] = AbsFile(filepath.ToSlash(writeFile))
 			continue
 		}
+		if fileOverlay.removed {
+			replace[AbsFile(filepath.ToSlash(string(absFile)))] = ""
+			continue
+		}
 		if fileOverlay.AbsFile == "" {
 			continue
 		}
-- 
2.43.0


From 3125894cffa5271b1f11cacb6c72b93f5dd65e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:28 +0000
Subject: [PATCH 54/72] fix: a file that cannot be read is left out by
 LoadPackages

---
 instrument/load/load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrument/load/load.go b/instrument/load/load.go
index 0988579..f931372 100644
--- a/instrument/load/load.go
+++ b/instrument/load/load.go
@@ -110,9 +110,9 @@ func LoadPackages(args []string, opts LoadOptions) (*Packages, error) {
 				case f := <-readChan:
 					content, err := readFile(overlayFS, f.AbsPath, maxFileSize)
 					if err != nil {
+						f.Error = err
 						// mark the file done
 						wg.Done()
-						f.Error = err
 						continue
 					}
 					f.Content = content
-- 
2.43.0


From 75768bb8390a95a90370a9e12af0abeaf19d0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:14 +0000
Subject: [PATCH 55/72] fix: -a keeps the files of the running session and no
 part of the runtime

---
 cmd/xgo/instrument.go | 34 ++++++++++++++++++++++++++++++++++
 cmd/xgo/main.go       |  2 +-
 cmd/xgo/trace.go      | 15 ++++++++++-----
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index 71cd0ba..8b1265e 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -567,6 +567,40 @@ func setupLocalXgoGenDir(xgoGenDir string) error {
 	return nil
 }
 
+// resetLocalXgoGenDir removes what was generated before. The directory of the
+// running session is kept: it has files that are used later.
+func resetLocalXgoGenDir(xgoGenDir string, sessionTmpDir string) error {
+	// without its version file, what is left of the runtime when the removal
+	// is interrupted is not taken for a complete copy
+	err := os.RemoveAll(filepath.Join(getLocalRuntimeDir(xgoGenDir), "core", "version.go"))
+	if err != nil {
+		return err
+	}
+	tmpDir := filepath.Join(xgoGenDir, "tmp")
+	err = removeEntries(xgoGenDir, filepath.Base(tmpDir))
+	if err != nil {
+		return err
+	}
+	return removeEntries(tmpDir, filepath.Base(sessionTmpDir))
+}
+
+func removeEntries(dir string, except string) error {
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return err
+	}
+	for _, entry := range entries {
+		if entry.Name() == except {
+			continue
+		}
+		err := os.RemoveAll(filepath.Join(dir, entry.Name()))
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func getLocalXgoGenDir(projectRootDir string) (string, error) {
 	xgoDir, err := getLocalXgoDir(projectRootDir)
 	if err != nil {
diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 7960784..3bc24e4 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -533,7 +533,7 @@ func handleBuild(cmd string, args []string) error {
 
 		if !cmdSetup && (resetInstrument || flagA) {
 			logDebug("reset overlay %s", localXgoGenDir)
-			err := os.RemoveAll(localXgoGenDir)
+			err := resetLocalXgoGenDir(localXgoGenDir, sessionTmpDir)
 			if err != nil {
 				return err
 			}
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 8d2173b..e6f8177 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -123,14 +123,10 @@ func importRuntimeDepGenOverlay(test bool, run bool, goroot string, goBinary str
 	if err != nil {
 		return nil, err
 	}
-	suffix := ""
-	if isDevelopment {
-		suffix = "_dev"
-	}
 
 	res := &importResult{}
 	if needLoad {
-		runtimeModuleDir := filepath.Join(modulesDir, filepath.Join(strings.Split(constants.RUNTIME_MODULE, "/")...)+suffix)
+		runtimeModuleDir := getLocalRuntimeDir(absGenDir)
 		logDebug("loading dependency: %s into %s", constants.RUNTIME_MODULE, runtimeModuleDir)
 		err := os.MkdirAll(runtimeModuleDir, 0755)
 		if err != nil {
@@ -244,6 +240,15 @@ type dependencyInfo struct {
 	modfile string // alternative go.mod
 }
 
+// getLocalRuntimeDir is where the runtime module is extracted to.
+func getLocalRuntimeDir(xgoGenDir string) string {
+	suffix := ""
+	if isDevelopment {
+		suffix = "_dev"
+	}
+	return filepath.Join(xgoGenDir, "modules", filepath.Join(strings.Split(constants.RUNTIME_MODULE, "/")...)+suffix)
+}
+
 func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion, modfileOption string, xgoSrc string, projectRoot string, mainModule string, vendorDir string, tmpOverlayDir string, tmpRuntime string, forceCopyRuntime bool) (*dependencyInfo, error) {
 	if isDevelopment {
 		err := filecopy.NewOptions().Ignore(".xgo", "test").CopyReplaceDir(filepath.Join(xgoSrc, "runtime"), tmpRuntime)
-- 
2.43.0


From 5d4dc81000b2375dc0920a99c48507c23319a702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:42 +0000
Subject: [PATCH 56/72] fix: the import of runtime/trace is added to every form
 of package clause

---
 cmd/xgo/trace.go | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index e6f8177..55bb9bf 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -4,6 +4,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"go/parser"
+	"go/token"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -718,31 +720,37 @@ type GoListPkg struct {
 
 }
 
+// addBlankImport adds the import behind the package clause, and behind the
+// imports that follow on its line. Line numbers do not change.
 func addBlankImport(content string) (string, bool) {
-	var base int
-	idx := strings.Index(content, "package ")
-	if idx < 0 {
+	fset := token.NewFileSet()
+	file, err := parser.ParseFile(fset, "", content, parser.ImportsOnly)
+	if file == nil || file.Name == nil || file.Name.Name == "" || file.Name.Name == "_" {
 		return "", false
 	}
-	base += idx
-	subContent := content[idx:]
-	rIdx := strings.Index(subContent, "\r")
-	if rIdx > 0 {
-		base += rIdx
-		subContent = subContent[rIdx+1:]
-	}
-	nIdx := strings.Index(subContent, "\n")
-	if nIdx < 0 {
-		q := fmt.Sprintf(";import _ %q", constants.RUNTIME_TRACE_PKG)
-		return content + q, true
+	pos := func(p token.Pos) token.Position { return fset.PositionFor(p, false) }
+	end := file.Name.End()
+	if err == nil {
+		for _, decl := range file.Decls {
+			if pos(decl.Pos()).Line != pos(end).Line {
+				break
+			}
+			end = decl.End()
+		}
 	}
-	base += nIdx
+	head, tail := content[:pos(end).Offset], content[pos(end).Offset:]
 	sep := ";"
-	if base > 0 && content[base-1] == ';' {
+	if rest := strings.TrimLeft(tail, " \t"); strings.HasPrefix(rest, ";") {
+		n := len(tail) - len(rest) + 1
+		head, tail = head+tail[:n], tail[n:]
 		sep = ""
 	}
-	q := fmt.Sprintf("%simport _ %q", sep, constants.RUNTIME_TRACE_PKG)
-	return content[:base] + q + content[base:], true
+	stmt := fmt.Sprintf("%simport _ %q", sep, constants.RUNTIME_TRACE_PKG)
+	rest := strings.TrimLeft(tail, " \t\r")
+	if sep == "" && rest != "" && rest[0] != '\n' && !strings.HasPrefix(rest, "//") {
+		stmt += ";"
+	}
+	return head + stmt + tail, true
 }
 
 // applyBlankImportThroughOverlay injects import _ "…/runtime/trace" into the
-- 
2.43.0


From fff0946bac34c5dbf9ca74702fdc43036264543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:48 +0000
Subject: [PATCH 57/72] fix: the checksums of an alternative go.mod are found

---
 cmd/xgo/trace.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 55bb9bf..837e4db 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -325,8 +325,8 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 	}
 
 	// Copy go.sum alongside go.mod so -modfile can find it
-	goSum := strings.TrimSuffix(goMod, "go.mod") + "go.sum"
-	tmpGoSum := strings.TrimSuffix(tmpGoMod, "go.mod") + "go.sum"
+	goSum := strings.TrimSuffix(goMod, ".mod") + ".sum"
+	tmpGoSum := strings.TrimSuffix(tmpGoMod, ".mod") + ".sum"
 	_ = filecopy.CopyFileAll(goSum, tmpGoSum) // best-effort: go.sum may not exist
 
 	// use -modfile ?
-- 
2.43.0


From bbd5ad089acf53d0e92e8ead6b84044990d368c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:48 +0000
Subject: [PATCH 58/72] fix: a vendored module is found under its own path when
 it is replaced

---
 cmd/xgo/trace.go | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 837e4db..2d3e044 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -346,11 +346,9 @@ func loadDependency(goroot string, goBinary string, goVersion *goinfo.GoVersion,
 		for _, mod := range vendorInfo.VendorList {
 			// modInfo is completely optional
 			modInfo := vendorInfo.VendorMeta[mod]
+			// a replaced module is vendored under its own path,
+			// see https://github.com/xhd2015/xgo/issues/87#issuecomment-2074722912
 			modPath := mod.Path
-			if modInfo.Replacement.Path != "" &&
-				!isLocalReplace(modInfo.Replacement.Path) { // !isLocalReplace, see https://github.com/xhd2015/xgo/issues/87#issuecomment-2074722912
-				modPath = modInfo.Replacement.Path
-			}
 			vendorModPath := filepath.Join(vendorDir, modPath)
 			vendorModFile := filepath.Join(vendorModPath, "go.mod")
 			replaceModFile := fileutil.RebasePath(tmpOverlayDir, vendorModFile)
@@ -553,20 +551,6 @@ func splitArgsBatch(args []string, limit int) [][]string {
 	return groups
 }
 
-func isLocalReplace(modPath string) bool {
-	// ./ or ../
-	if modPath == "." || modPath == ".." {
-		return true
-	}
-	if strings.HasPrefix(modPath, "./") {
-		return true
-	}
-	if strings.HasPrefix(modPath, "../") {
-		return true
-	}
-	return false
-}
-
 func addBlankImports(goroot string, goBinary string, projectDir string, pkgArgs []string, test bool, tmpProjectDir string) (replace map[string]string, err error) {
 	// list files, add init
 	// NOTE: go build tag applies,
-- 
2.43.0


From bf9004ae9c8afa18a3d6ba5fdfca0032213432a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:08 +0000
Subject: [PATCH 59/72] fix: functions of files selected by -tags are
 instrumented

---
 cmd/xgo/instrument.go   | 3 ++-
 cmd/xgo/main.go         | 2 +-
 instrument/load/load.go | 2 ++
 support/goinfo/list.go  | 4 ++++
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index 8b1265e..3bd81b5 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -50,7 +50,7 @@ type instrumentResult struct {
 // goroot is critical for stdlib
 // includeAsMainModules: extra module paths treated as main for mock/trap (option B:
 // reclassify packages already on the load graph; do not bulk-load module/...).
-func instrumentUserCode(goroot string, projectDir string, projectRoot string, goVersion *goinfo.GoVersion, xgoSrc string, mod string, modfile string, mainModule string, includeAsMainModules []string, xgoRuntimeModuleDir string, mayHaveCover bool, overlayFS overlay.Overlay, includeTest bool, rules []Rule, trapPkgs []string, trapAll string, collectTestTrace bool, collectTestTraceDir string, xgoRaceSafe bool, goFlag bool, triedUpgrade bool) (*instrumentResult, error) {
+func instrumentUserCode(goroot string, projectDir string, projectRoot string, goVersion *goinfo.GoVersion, xgoSrc string, mod string, modfile string, tags string, mainModule string, includeAsMainModules []string, xgoRuntimeModuleDir string, mayHaveCover bool, overlayFS overlay.Overlay, includeTest bool, rules []Rule, trapPkgs []string, trapAll string, collectTestTrace bool, collectTestTraceDir string, xgoRaceSafe bool, goFlag bool, triedUpgrade bool) (*instrumentResult, error) {
 	logDebug("instrumentUserSpace: mod=%s, modfile=%s, xgoRuntimeModuleDir=%s, includeTest=%v, collectTestTrace=%v, includeAsMainModules=%v", mod, modfile, xgoRuntimeModuleDir, includeTest, collectTestTrace, includeAsMainModules)
 	if mod == "" {
 		// check vendor dir
@@ -141,6 +141,7 @@ func instrumentUserCode(goroot string, projectDir string, projectRoot string, go
 			Overlay:         overlayFS,
 			IncludeTest:     includeTest,
 			ModFile:         modfile,
+			Tags:            tags,
 			MaxFileSize:     MAX_FILE_SIZE,
 			FilterErrorFile: true,
 			Goroot:          goroot,
diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 3bc24e4..a18a3d1 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -824,7 +824,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		if len(instrumentIncludeAsMain) == 0 {
 			instrumentIncludeAsMain = opts.MockRuleIncludeAsMainModule
 		}
-		instrumentUserCodeResult, err = instrumentUserCode(instrumentGoroot, projectDir, projectRoot, goVersion, realXgoSrc, modForLoad, modfileForLoad, mainModule, instrumentIncludeAsMain, xgoRuntimeModuleDir, mayHaveCover, overlayFS, cmdTest, opts.FilterRules, trapPkgs, trapAll, collectTestTrace, collectTestTraceDir, xgoRaceSafe, goFlag, needUpgrade)
+		instrumentUserCodeResult, err = instrumentUserCode(instrumentGoroot, projectDir, projectRoot, goVersion, realXgoSrc, modForLoad, modfileForLoad, tags, mainModule, instrumentIncludeAsMain, xgoRuntimeModuleDir, mayHaveCover, overlayFS, cmdTest, opts.FilterRules, trapPkgs, trapAll, collectTestTrace, collectTestTraceDir, xgoRaceSafe, goFlag, needUpgrade)
 		if err != nil {
 			return err
 		}
diff --git a/instrument/load/load.go b/instrument/load/load.go
index f931372..94e1429 100644
--- a/instrument/load/load.go
+++ b/instrument/load/load.go
@@ -23,6 +23,7 @@ type LoadOptions struct {
 	Mod         string
 	IncludeTest bool
 	ModFile     string // -modfile flag
+	Tags        string // -tags flag
 	Deps        bool   // -deps flag
 
 	// max file size to parse
@@ -71,6 +72,7 @@ func LoadPackages(args []string, opts LoadOptions) (*Packages, error) {
 		Dir:     dir,
 		Mod:     mod,
 		ModFile: modFile,
+		Tags:    opts.Tags,
 		Goroot:  goroot,
 		Deps:    deps,
 		Test:    false, // NOTE: don't set it
diff --git a/support/goinfo/list.go b/support/goinfo/list.go
index 5f084ec..2bc3cb4 100644
--- a/support/goinfo/list.go
+++ b/support/goinfo/list.go
@@ -41,6 +41,7 @@ type LoadPackageOptions struct {
 	Dir     string
 	Mod     string
 	ModFile string // -modfile flag
+	Tags    string // -tags flag
 	Goroot  string // GOROOT env
 	Deps    bool   // -deps flag
 	Test    bool   // -test flag, if true, will have packages like "github.com/xhd2015/xgo/runtime/test/trap/inspect [github.com/xhd2015/xgo/runtime/test/trap/inspect.test]", so don't set it
@@ -55,6 +56,9 @@ func ListPackages(args []string, opts LoadPackageOptions) ([]*Package, error) {
 	if opts.ModFile != "" {
 		flags = append(flags, "-modfile="+opts.ModFile)
 	}
+	if opts.Tags != "" {
+		flags = append(flags, "-tags="+opts.Tags)
+	}
 	if opts.Deps {
 		flags = append(flags, "-deps")
 	}
-- 
2.43.0


From 2b722e95a68cc9c26dfafb32322fbb1bbf2b7ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 60/72] fix: functions of files added by -overlay are
 instrumented

---
 cmd/xgo/instrument.go   | 3 ++-
 cmd/xgo/main.go         | 2 +-
 instrument/load/load.go | 2 ++
 support/goinfo/list.go  | 4 ++++
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/instrument.go b/cmd/xgo/instrument.go
index 3bd81b5..6965c4a 100644
--- a/cmd/xgo/instrument.go
+++ b/cmd/xgo/instrument.go
@@ -50,7 +50,7 @@ type instrumentResult struct {
 // goroot is critical for stdlib
 // includeAsMainModules: extra module paths treated as main for mock/trap (option B:
 // reclassify packages already on the load graph; do not bulk-load module/...).
-func instrumentUserCode(goroot string, projectDir string, projectRoot string, goVersion *goinfo.GoVersion, xgoSrc string, mod string, modfile string, tags string, mainModule string, includeAsMainModules []string, xgoRuntimeModuleDir string, mayHaveCover bool, overlayFS overlay.Overlay, includeTest bool, rules []Rule, trapPkgs []string, trapAll string, collectTestTrace bool, collectTestTraceDir string, xgoRaceSafe bool, goFlag bool, triedUpgrade bool) (*instrumentResult, error) {
+func instrumentUserCode(goroot string, projectDir string, projectRoot string, goVersion *goinfo.GoVersion, xgoSrc string, mod string, modfile string, tags string, overlayFile string, mainModule string, includeAsMainModules []string, xgoRuntimeModuleDir string, mayHaveCover bool, overlayFS overlay.Overlay, includeTest bool, rules []Rule, trapPkgs []string, trapAll string, collectTestTrace bool, collectTestTraceDir string, xgoRaceSafe bool, goFlag bool, triedUpgrade bool) (*instrumentResult, error) {
 	logDebug("instrumentUserSpace: mod=%s, modfile=%s, xgoRuntimeModuleDir=%s, includeTest=%v, collectTestTrace=%v, includeAsMainModules=%v", mod, modfile, xgoRuntimeModuleDir, includeTest, collectTestTrace, includeAsMainModules)
 	if mod == "" {
 		// check vendor dir
@@ -142,6 +142,7 @@ func instrumentUserCode(goroot string, projectDir string, projectRoot string, go
 			IncludeTest:     includeTest,
 			ModFile:         modfile,
 			Tags:            tags,
+			OverlayFile:     overlayFile,
 			MaxFileSize:     MAX_FILE_SIZE,
 			FilterErrorFile: true,
 			Goroot:          goroot,
diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index a18a3d1..63801d1 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -824,7 +824,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		if len(instrumentIncludeAsMain) == 0 {
 			instrumentIncludeAsMain = opts.MockRuleIncludeAsMainModule
 		}
-		instrumentUserCodeResult, err = instrumentUserCode(instrumentGoroot, projectDir, projectRoot, goVersion, realXgoSrc, modForLoad, modfileForLoad, tags, mainModule, instrumentIncludeAsMain, xgoRuntimeModuleDir, mayHaveCover, overlayFS, cmdTest, opts.FilterRules, trapPkgs, trapAll, collectTestTrace, collectTestTraceDir, xgoRaceSafe, goFlag, needUpgrade)
+		instrumentUserCodeResult, err = instrumentUserCode(instrumentGoroot, projectDir, projectRoot, goVersion, realXgoSrc, modForLoad, modfileForLoad, tags, overlayFile, mainModule, instrumentIncludeAsMain, xgoRuntimeModuleDir, mayHaveCover, overlayFS, cmdTest, opts.FilterRules, trapPkgs, trapAll, collectTestTrace, collectTestTraceDir, xgoRaceSafe, goFlag, needUpgrade)
 		if err != nil {
 			return err
 		}
diff --git a/instrument/load/load.go b/instrument/load/load.go
index 94e1429..25abe1f 100644
--- a/instrument/load/load.go
+++ b/instrument/load/load.go
@@ -24,6 +24,7 @@ type LoadOptions struct {
 	IncludeTest bool
 	ModFile     string // -modfile flag
 	Tags        string // -tags flag
+	OverlayFile string // -overlay flag, used to list packages
 	Deps        bool   // -deps flag
 
 	// max file size to parse
@@ -73,6 +74,7 @@ func LoadPackages(args []string, opts LoadOptions) (*Packages, error) {
 		Mod:     mod,
 		ModFile: modFile,
 		Tags:    opts.Tags,
+		Overlay: opts.OverlayFile,
 		Goroot:  goroot,
 		Deps:    deps,
 		Test:    false, // NOTE: don't set it
diff --git a/support/goinfo/list.go b/support/goinfo/list.go
index 2bc3cb4..1288530 100644
--- a/support/goinfo/list.go
+++ b/support/goinfo/list.go
@@ -42,6 +42,7 @@ type LoadPackageOptions struct {
 	Mod     string
 	ModFile string // -modfile flag
 	Tags    string // -tags flag
+	Overlay string // -overlay flag
 	Goroot  string // GOROOT env
 	Deps    bool   // -deps flag
 	Test    bool   // -test flag, if true, will have packages like "github.com/xhd2015/xgo/runtime/test/trap/inspect [github.com/xhd2015/xgo/runtime/test/trap/inspect.test]", so don't set it
@@ -59,6 +60,9 @@ func ListPackages(args []string, opts LoadPackageOptions) ([]*Package, error) {
 	if opts.Tags != "" {
 		flags = append(flags, "-tags="+opts.Tags)
 	}
+	if opts.Overlay != "" {
+		flags = append(flags, "-overlay="+opts.Overlay)
+	}
 	if opts.Deps {
 		flags = append(flags, "-deps")
 	}
-- 
2.43.0


From 0d40a00bc34204e93c00ab84dfc1792b9e34af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 61/72] fix: --strace imports the trace package in the packages
 that are built

---
 cmd/xgo/main.go  |  2 +-
 cmd/xgo/trace.go | 41 +++++++++++++++++++++++++++++------------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 63801d1..b279656 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -753,7 +753,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		needLocalRuntime := goVersion.Minor >= 25
 		if enableStackTrace || needUpgrade || needLocalRuntime {
 			// check if xgo/runtime ready
-			impResult, impRuntimeErr := importRuntimeDepGenOverlay(cmdTest, cmdRun, instrumentGoroot, instrumentGo, goVersion, modfile, realXgoSrc, projectDir, projectRoot, localXgoGenDir, mainModule, mod, resetInstrument || flagA, needUpgrade || needLocalRuntime, remainArgs)
+			impResult, impRuntimeErr := importRuntimeDepGenOverlay(cmdTest, cmdRun, instrumentGoroot, instrumentGo, goVersion, modfile, realXgoSrc, projectDir, projectRoot, localXgoGenDir, mainModule, mod, tags, overlayFile, overlayFS, resetInstrument || flagA, needUpgrade || needLocalRuntime, remainArgs)
 			if impRuntimeErr != nil {
 				// can be silently ignored
 				if enableStackTrace {
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index 2d3e044..bdd06e0 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -73,8 +73,7 @@ func getVendorDir(projectRoot string) (string, error) {
 // even if the original build has -mod=vendor.
 // by employing this technique with -modfile=replacedModFile, we can instruct go
 // to build with different modules.
-// TODO: may apply tags
-func importRuntimeDepGenOverlay(test bool, run bool, goroot string, goBinary string, goVersion *goinfo.GoVersion, absModFile string, xgoSrc string, projectDir string, projectRoot string, localXgoGenDir string, mainModule string, mod string, forceCopyRuntime bool, forceLoad bool, args []string) (*importResult, error) {
+func importRuntimeDepGenOverlay(test bool, run bool, goroot string, goBinary string, goVersion *goinfo.GoVersion, absModFile string, xgoSrc string, projectDir string, projectRoot string, localXgoGenDir string, mainModule string, mod string, tags string, overlayFile string, overlayFS overlay.Overlay, forceCopyRuntime bool, forceLoad bool, args []string) (*importResult, error) {
 	if mainModule == "" {
 		// only work with module
 		return nil, nil
@@ -158,7 +157,7 @@ func importRuntimeDepGenOverlay(test bool, run bool, goroot string, goBinary str
 		// The runtime module already compiles all its packages; injecting
 		// import _ "runtime/trace" creates a cycle: core → trace → internal/trap → core.
 		// See patches/go1.25/issues/RUNTIME_LIB_SELF_REQUIRE.md
-		fileReplace, err = addBlankImports(goroot, goBinary, projectDir, pkgArgs, test, overlayDir)
+		fileReplace, err = addBlankImports(goroot, goBinary, projectDir, pkgArgs, mod, absModFile, tags, overlayFile, overlayFS, overlayDir)
 		if err != nil {
 			return nil, err
 		}
@@ -551,7 +550,7 @@ func splitArgsBatch(args []string, limit int) [][]string {
 	return groups
 }
 
-func addBlankImports(goroot string, goBinary string, projectDir string, pkgArgs []string, test bool, tmpProjectDir string) (replace map[string]string, err error) {
+func addBlankImports(goroot string, goBinary string, projectDir string, pkgArgs []string, mod string, modfile string, tags string, overlayFile string, overlayFS overlay.Overlay, tmpProjectDir string) (replace map[string]string, err error) {
 	// list files, add init
 	// NOTE: go build tag applies,
 	// ignored files will be placed to IgnoredGoFiles
@@ -561,6 +560,18 @@ func addBlankImports(goroot string, goBinary string, projectDir string, pkgArgs
 	//   XTestGoFiles      []string   // _test.go files outside package
 	// XTestGoFiles are files with another package name, such as api_test for api
 	listArgs := []string{"list", "-json"}
+	if mod != "" {
+		listArgs = append(listArgs, "-mod="+mod)
+	}
+	if modfile != "" {
+		listArgs = append(listArgs, "-modfile="+modfile)
+	}
+	if tags != "" {
+		listArgs = append(listArgs, "-tags="+tags)
+	}
+	if overlayFile != "" {
+		listArgs = append(listArgs, "-overlay="+overlayFile)
+	}
 	listArgs = append(listArgs, pkgArgs...)
 	output, err := cmd.Dir(projectDir).Env([]string{
 		"GOROOT=" + goroot,
@@ -610,7 +621,7 @@ func addBlankImports(goroot string, goBinary string, projectDir string, pkgArgs
 			pkgInfos = append(pkgInfos, pkgInfo{nil, pkg.XTestGoFiles, true})
 		}
 		for _, p := range pkgInfos {
-			mapping, err := addBlankImportForPackage(pkg.Dir, tmpProjectDir, p.imports, p.files, p.addForAllFiles)
+			mapping, err := addBlankImportForPackage(pkg.Dir, tmpProjectDir, overlayFS, p.imports, p.files, p.addForAllFiles)
 			if err != nil {
 				return nil, err
 			}
@@ -621,7 +632,7 @@ func addBlankImports(goroot string, goBinary string, projectDir string, pkgArgs
 	}
 	return replace, nil
 }
-func addBlankImportForPackage(srcDir string, dstDir string, imports []string, files []string, allFile bool) (map[string]string, error) {
+func addBlankImportForPackage(srcDir string, dstDir string, overlayFS overlay.Overlay, imports []string, files []string, allFile bool) (map[string]string, error) {
 	if len(files) == 0 {
 		// no files
 		return nil, nil
@@ -641,20 +652,26 @@ func addBlankImportForPackage(srcDir string, dstDir string, imports []string, fi
 	for _, file := range files {
 		srcFile := filepath.Join(srcDir, file)
 		dstFile := fileutil.RebasePath(dstDir, srcFile)
-		err := filecopy.CopyFileAll(srcFile, dstFile)
+		// the file may only exist in the overlay
+		_, content, err := overlayFS.Read(overlay.AbsFile(srcFile))
 		if err != nil {
-			return nil, err
+			var data []byte
+			data, err = os.ReadFile(srcFile)
+			content = string(data)
 		}
-		// add blank import
-		// NOTE: go allows duplicate blank imports
-		content, err := os.ReadFile(dstFile)
 		if err != nil {
 			return nil, err
 		}
-		newContent, ok := addBlankImport(string(content))
+		// add blank import
+		// NOTE: go allows duplicate blank imports
+		newContent, ok := addBlankImport(content)
 		if !ok {
 			return nil, nil
 		}
+		err = os.MkdirAll(filepath.Dir(dstFile), 0755)
+		if err != nil {
+			return nil, err
+		}
 		err = os.WriteFile(dstFile, []byte(newContent), 0755)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 236a1eec7b5802bbbc82478cf402353027db5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:56 +0000
Subject: [PATCH 62/72] fix: coverage merge reports that its output could not
 be written

---
 cmd/xgo/coverage/main.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cmd/xgo/coverage/main.go b/cmd/xgo/coverage/main.go
index 8c50477..27abd9f 100644
--- a/cmd/xgo/coverage/main.go
+++ b/cmd/xgo/coverage/main.go
@@ -141,16 +141,10 @@ func mergeCover(files []string, outFile string, excludePrefix []string) error {
 	// always set mode to count
 	mergedCov := coverage.Format("count", res)
 
-	var out io.Writer = os.Stdout
 	if outFile != "" {
-		file, err := os.Create(outFile)
-		if err != nil {
-			return err
-		}
-		defer file.Close()
-		out = file
+		return os.WriteFile(outFile, []byte(mergedCov), 0666)
 	}
-	_, err := io.WriteString(out, mergedCov)
+	_, err := io.WriteString(os.Stdout, mergedCov)
 	return err
 }
 
-- 
2.43.0


From d66189fc5be4deed46034703708115a7e38885bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:06 +0000
Subject: [PATCH 63/72] fix: packages are found behind boolean flags and in
 front of flags

---
 cmd/xgo/option.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/cmd/xgo/option.go b/cmd/xgo/option.go
index ba49923..5a5c411 100644
--- a/cmd/xgo/option.go
+++ b/cmd/xgo/option.go
@@ -797,8 +797,13 @@ func getPkgArgs(args []string) []string {
 	for i := 0; i < n; i++ {
 		arg := args[i]
 		if !strings.HasPrefix(arg, "-") {
-			// stop at first non-arg
-			newArgs = append(newArgs, args[i:]...)
+			// stop at first non-arg, flags of go test may follow
+			for _, arg := range args[i:] {
+				if strings.HasPrefix(arg, "-") {
+					break
+				}
+				newArgs = append(newArgs, arg)
+			}
 			break
 		}
 		if arg == "-args" {
@@ -810,15 +815,7 @@ func getPkgArgs(args []string) []string {
 			// self hosted arg
 			continue
 		}
-		// make --opt equivalent with -opt
-		if strings.HasPrefix(arg, "--") {
-			arg = arg[1:]
-		}
-		switch arg {
-		case "-a", "-n", "-race", "-masan", "-asan", "-cover", "-v", "-work", "-x", "-linkshared", "-buildvcs", // shared among build,test,run
-			"-args", "-c", "-json": // -json for test
-			// zero arg
-		default:
+		if !isGoBoolFlag(arg) {
 			// 1 arg
 			i++
 		}
@@ -826,6 +823,20 @@ func getPkgArgs(args []string) []string {
 	return newArgs
 }
 
+// isGoBoolFlag tells the flags of go that need no value
+func isGoBoolFlag(arg string) bool {
+	// make --opt equivalent with -opt
+	if strings.HasPrefix(arg, "--") {
+		arg = arg[1:]
+	}
+	switch arg {
+	case "-a", "-n", "-race", "-msan", "-asan", "-cover", "-v", "-work", "-x", "-linkshared", "-buildvcs", "-trimpath", "-modcacherw", // shared among build,test,run
+		"-args", "-c", "-i", "-json", "-short", "-failfast", "-benchmem", "-fullpath", "-artifacts": // for test
+		return true
+	}
+	return false
+}
+
 // trimProgramArgs removes the arguments of the program from those of
 // `go run`: what follows the package, or the list of go files
 func trimProgramArgs(pkgArgs []string) []string {
-- 
2.43.0


From 91f6573312f7511e2bfe8b30be3a394fa6eaaef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:06 +0000
Subject: [PATCH 64/72] fix: xgo run passes flags behind the package to the
 program

---
 cmd/xgo/option.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/xgo/option.go b/cmd/xgo/option.go
index 5a5c411..5bc7ee0 100644
--- a/cmd/xgo/option.go
+++ b/cmd/xgo/option.go
@@ -580,7 +580,7 @@ func parseOptions(cmd string, args []string) (*options, error) {
 				remainArgs = append(remainArgs, arg)
 				continue
 			}
-			if i+1 < nArg && !strings.HasPrefix(args[i+1], "-") {
+			if i+1 < nArg && !strings.HasPrefix(args[i+1], "-") && !isGoBoolFlag(arg) {
 				// -count 0
 				// check if next arg starts with "-" (i.e. an option)
 				remainArgs = append(remainArgs, arg, args[i+1])
-- 
2.43.0


From 7dba433499ae928a12db26b83cd235f6f939e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:06 +0000
Subject: [PATCH 65/72] fix: xgo test passes -o on without -c

---
 cmd/xgo/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index b279656..70afe31 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -949,7 +949,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 			execCmdEnv = append(execCmdEnv, exec_tool.XGO_UNIFIEDTEST+"=true")
 		}
 
-		if cmdBuild || (cmdTest && flagC) || debugMode {
+		if cmdBuild || (cmdTest && (flagC || output != "")) || debugMode {
 			// output
 			if !debugMode && noBuildOutput {
 				discardOut := filepath.Join(sessionTmpDir, "discard.out")
-- 
2.43.0


From 0fe73e9de13990fb4ec7ee52e4a41d6706bc1a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:05 +0000
Subject: [PATCH 66/72] fix: --xgo-race-safe=on and =1 are accepted as
 documented

---
 cmd/xgo/option.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/xgo/option.go b/cmd/xgo/option.go
index 5bc7ee0..00e088c 100644
--- a/cmd/xgo/option.go
+++ b/cmd/xgo/option.go
@@ -330,7 +330,7 @@ func parseOptions(cmd string, args []string) (*options, error) {
 			Flags:  []string{"--xgo-race-safe"},
 			Single: true,
 			Set: func(v string) {
-				xgoRaceSafe = v == "" || v == "true"
+				xgoRaceSafe = v == "" || v == "true" || v == "on" || v == "1"
 			},
 		},
 	}
-- 
2.43.0


From 0d3e7b2c396d58976d70305b388747874cda1b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:43 +0000
Subject: [PATCH 67/72] fix: vendor directories are not used by default before
 go1.14

---
 cmd/xgo/main.go  |  9 +++++++++
 cmd/xgo/trace.go | 31 +++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 70afe31..15edbfd 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -689,6 +689,15 @@ func handleBuild(cmd string, args []string) error {
 				return nil
 			}
 		}
+		if mod == "" {
+			ignored, err := isVendorIgnored(projectRootDir, modfile)
+			if err != nil {
+				return err
+			}
+			if ignored {
+				mod = "readonly"
+			}
+		}
 		instrumentGo := filepath.Join(instrumentGoroot, "bin", "go"+osinfo.EXE_SUFFIX)
 		if debugCompile != nil {
 			if *debugCompile != "" {
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index bdd06e0..f99ab15 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -65,6 +65,37 @@ func getVendorDir(projectRoot string) (string, error) {
 	return vendor, nil
 }
 
+// isVendorIgnored tells if there is a vendor directory that go does
+// not use by default, because go.mod declares a version before go1.14
+func isVendorIgnored(projectRoot string, modfile string) (bool, error) {
+	vendorDir, err := getVendorDir(projectRoot)
+	if err != nil || vendorDir == "" {
+		return false, err
+	}
+	if modfile == "" {
+		modfile = filepath.Join(projectRoot, "go.mod")
+	}
+	content, err := os.ReadFile(modfile)
+	if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
+			return false, nil
+		}
+		return false, err
+	}
+	for _, line := range strings.Split(string(content), "\n") {
+		fields := strings.Fields(line)
+		if len(fields) < 2 || fields[0] != "go" {
+			continue
+		}
+		version, err := goinfo.ParseGoVersionNumber(fields[1])
+		if err != nil {
+			return false, nil
+		}
+		return version.Major == 1 && version.Minor < 14, nil
+	}
+	return false, nil
+}
+
 // importRuntimeDepGenOverlay detect if the target package already
 // has github.com/xhd2015/xgo/runtime as dependency,
 // if not, dynamically modify the go.mod to include that,
-- 
2.43.0


From 17ab9d207c16f861c89e3901446da09f6c0719f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:43 +0000
Subject: [PATCH 68/72] fix: -mod, -modfile and -overlay of GOFLAGS are
 respected

---
 cmd/xgo/main.go  | 18 ++++++++++++++++++
 cmd/xgo/trace.go | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 15edbfd..4c7c77f 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -682,6 +682,24 @@ func handleBuild(cmd string, args []string) error {
 
 	var instrumentUserCodeResult *instrumentResult
 	if !cmdExec {
+		// go is told these flags explicitly, they must
+		// not affect listing packages of other modules
+		goMod, goModfile, goOverlay, err := takeGoFlags(filepath.Join(instrumentGoroot, "bin", "go"+osinfo.EXE_SUFFIX), instrumentGoroot, projectDir)
+		if err != nil {
+			return err
+		}
+		if mod == "" {
+			mod = goMod
+		}
+		if modfile == "" && goModfile != "" {
+			modfile = goModfile
+			if !filepath.IsAbs(modfile) {
+				modfile = filepath.Join(projectDir, modfile)
+			}
+		}
+		if overlayFile == "" && goOverlay != "" {
+			overlayFile = string(overlay.ResolveAbsFile(overlay.AbsFile(goOverlay), overlayPathOpts))
+		}
 		if modfile != "" {
 			// make modfile absolute
 			modfile, err = filepath.Abs(modfile)
diff --git a/cmd/xgo/trace.go b/cmd/xgo/trace.go
index f99ab15..e865c84 100644
--- a/cmd/xgo/trace.go
+++ b/cmd/xgo/trace.go
@@ -96,6 +96,39 @@ func isVendorIgnored(projectRoot string, modfile string) (bool, error) {
 	return false, nil
 }
 
+// takeGoFlags returns the -mod, -modfile and -overlay of GOFLAGS,
+// and clears them for the go commands that follow
+func takeGoFlags(goBinary string, goroot string, dir string) (mod string, modfile string, overlayFile string, err error) {
+	output, err := cmd.Dir(dir).Env([]string{"GOROOT=" + goroot}).Output(goBinary, "env", "GOFLAGS")
+	if err != nil {
+		return "", "", "", err
+	}
+	taken := false
+	var remain []string
+	for _, arg := range strings.Fields(output) {
+		flag := strings.TrimPrefix(strings.TrimPrefix(arg, "-"), "-")
+		if strings.HasPrefix(flag, "mod=") {
+			mod = flag[len("mod="):]
+		} else if strings.HasPrefix(flag, "modfile=") {
+			modfile = flag[len("modfile="):]
+		} else if strings.HasPrefix(flag, "overlay=") {
+			overlayFile = flag[len("overlay="):]
+		} else {
+			remain = append(remain, arg)
+			continue
+		}
+		taken = true
+	}
+	if taken {
+		// if empty, go would use the value set by go env -w
+		goFlags := " " + strings.Join(remain, " ")
+		if err := os.Setenv("GOFLAGS", goFlags); err != nil {
+			return "", "", "", err
+		}
+	}
+	return mod, modfile, overlayFile, nil
+}
+
 // importRuntimeDepGenOverlay detect if the target package already
 // has github.com/xhd2015/xgo/runtime as dependency,
 // if not, dynamically modify the go.mod to include that,
-- 
2.43.0


From 6929073e1ae6b9de7ae1451784e58c20dc355a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:20 +0000
Subject: [PATCH 69/72] fix: programs run by xgo get its standard input

---
 cmd/xgo/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index 4c7c77f..d9047ae 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -1130,6 +1130,7 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		execCmd.Dir = projectDir
 	}
 	execCmd.Env = execCmdEnv
+	execCmd.Stdin = os.Stdin
 	execCmd.Stdout = os.Stdout
 	execCmd.Stderr = os.Stderr
 	logDebug("command executable path: %v", execCmd.Path)
-- 
2.43.0


From 1eefe3fb5d8060e017f3fc1f7728c98623eb97e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:51 +0000
Subject: [PATCH 70/72] fix: functions that tests mock are instrumented in
 files with many functions

---
 instrument/instrument_func/trap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instrument/instrument_func/trap.go b/instrument/instrument_func/trap.go
index 8ff6713..0b367a5 100644
--- a/instrument/instrument_func/trap.go
+++ b/instrument/instrument_func/trap.go
@@ -106,8 +106,9 @@ func TrapFuncs(editor *goedit.Edit, pkgPath string, file *ast.File, fileIndex in
 			config_debug.OnTrapFunc(pkgPath, funcDecl, identityName)
 		}
 
+		// functions that are mocked explicitly
+		var hitRecorder bool
 		if instrumentMode != config.InstrumentMode_All {
-			var hitRecorder bool
 			if recorder != nil {
 				var hasFnRecord bool
 				var hasTypeMethodRecord bool
@@ -160,7 +161,7 @@ func TrapFuncs(editor *goedit.Edit, pkgPath string, file *ast.File, fileIndex in
 			// take the first 100, see
 			//  - https://github.com/xhd2015/xgo/issues/333#issuecomment-2830937257
 			var addExtra bool
-			if instrumentMode == config.InstrumentMode_All {
+			if instrumentMode == config.InstrumentMode_All || hitRecorder {
 				addExtra = true
 			} else if len(extraFuncs) < config.MAX_EXTRA_FUNCS_PER_FILE {
 				if pkgQuota != nil {
-- 
2.43.0


From 01f3cf18bee86ffedbba3340cf48710e86a2a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:23 +0000
Subject: [PATCH 71/72] fix: --cover is -cover

---
 cmd/xgo/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/xgo/main.go b/cmd/xgo/main.go
index d9047ae..34f5d82 100644
--- a/cmd/xgo/main.go
+++ b/cmd/xgo/main.go
@@ -834,7 +834,8 @@ xgo will try best to compile with newer xgo/runtime v%s, it's recommended to upg
 		// example:
 		//    -cover -coverpkg github.com/xhd2015/xgo/... -coverprofile cover.out
 		for _, arg := range args {
-			if strings.HasPrefix(arg, "-cover") {
+			// -cover is also spelled --cover
+			if strings.HasPrefix(arg, "-cover") || strings.HasPrefix(arg, "--cover") {
 				mayHaveCover = true
 				break
 			}
-- 
2.43.0


From e48fabc69b9d1820b96e77d0beea3808f06b8311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:41 +0000
Subject: [PATCH 72/72] fix: calls made by hooks are not traced when a
 before-step handles them

---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 2 +-
 runtime/internal/trap/trap.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 125f662..3c14a8a 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -254,7 +254,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			return callRecorderWithDepth, false
 		}
 	} else {
-		if !allowTracingThisEntry {
+		if depth > 1 || !allowTracingThisEntry {
 			return callRecorderWithDepth, true
 		}
 	}
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 125f662..3c14a8a 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -254,7 +254,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			return callRecorderWithDepth, false
 		}
 	} else {
-		if !allowTracingThisEntry {
+		if depth > 1 || !allowTracingThisEntry {
 			return callRecorderWithDepth, true
 		}
 	}
-- 
2.43.0

