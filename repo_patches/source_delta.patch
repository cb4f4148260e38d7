From baa03dff3f45e383c9fc5d54087d25c9a1d29dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 001/179] fix: Array.fill replaces elements rather than
 overwriting values shared with other arrays

---
 src/jsiArray.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index c650f8e..f3e0f63 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -860,9 +860,8 @@ static Jsi_RC jsi_ArrayFillCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     for (i = istart; i <= iend; i++)
     {
         if (obj->arr[i])
-            Jsi_ValueCopy(interp, obj->arr[i], value);
-        else
-            obj->arr[i] = Jsi_ValueDup(interp, value);
+            Jsi_DecrRefCount(interp, obj->arr[i]);
+        obj->arr[i] = Jsi_ValueDup(interp, value);
     }
 bail:
     if (_this != *ret)
-- 
2.43.0


From ded86e0ae7034bfd3408c78cf1f2709835b5ee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 002/179] fix: Array.sort unique leaves no stale references
 past the end of the array

---
 src/jsiArray.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index f3e0f63..5ea5d60 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -1102,8 +1102,10 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 #endif
             if (diff) {
                 n++;
-                if (n!=i)
+                if (n!=i) {
                     obj->arr[n] = obj->arr[i];
+                    obj->arr[i] = 0;
+                }
             } else {
                 dupCnt++;
                 if (obj->arr[i])
-- 
2.43.0


From 4eb89a18e341594ada0e1b098681d83f75bba49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 003/179] fix: Array.shift drops the first element also when it
 is a hole

---
 src/jsiArray.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 5ea5d60..1898a65 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -773,9 +773,10 @@ static Jsi_RC jsi_ArrayShiftCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
         v = obj->arr[0];
         memmove(obj->arr, obj->arr+1, n*sizeof(Jsi_Value*));
         obj->arr[n] = NULL;
-        if (!v) return JSI_OK;
-        Jsi_ValueDup2(interp, ret, v);
-        Jsi_DecrRefCount(interp, v);
+        if (v) {
+            Jsi_ValueDup2(interp, ret, v);
+            Jsi_DecrRefCount(interp, v);
+        }
         Jsi_ObjSetLength(interp, obj, n);
     }
     return JSI_OK;
-- 
2.43.0


From 27bbf6a56a9f0849af712590804dfc31691f0853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 004/179] fix: Array.reduce takes the first present element as
 initial value, not just index 0

---
 src/jsiArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 1898a65..100b02f 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -630,7 +630,7 @@ static Jsi_RC jsi_ArrayReduceSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
     Jsi_IncrRefCount(interp, _this);
     for (n = 0, i = (rev?end:start); (rev?i>=start:i<=end) && rc == JSI_OK; n++, i += (rev?-1:1)) {
         if (!obj->arr[i]) continue;
-        if (n==0 && !ini) {
+        if (!ini) {
             ini = obj->arr[i];
             continue;
         }
-- 
2.43.0


From a297d74dbf6c3b84cc4846127bf87b4cedc4344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 005/179] fix: Array.every is true when there is no element to
 test

---
 src/jsiArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 100b02f..e8fd047 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -562,7 +562,7 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     Jsi_IncrRefCount(interp, _this);
     obj = _this->d.obj;
     Jsi_ObjListifyArray(interp, obj);
-    int fval = 0;
+    int fval = (op == 3);
     Jsi_Value *nrPtr = Jsi_ValueNew1(interp);
     Jsi_Value *vobjs[3];
     Jsi_Func *fptr = func->d.obj->d.fobj->func;
-- 
2.43.0


From bc7e9fc9071793b1828770185a1a035c8b05528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 006/179] fix: Array.filter returns an array with values of its
 own

---
 src/jsiArray.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index e8fd047..cc19241 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -452,8 +452,7 @@ static Jsi_RC jsi_ArrayFilterCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         }
         if (fval) {
             if (Jsi_ValueIsArray(interp, _this) && _this->d.obj == obj && i<(int)obj->arrCnt && obj->arr[i]) {
-                nobj->arr[n] = obj->arr[i];
-                Jsi_IncrRefCount(interp, nobj->arr[n]);
+                nobj->arr[n] = Jsi_ValueDup(interp, obj->arr[i]);
             } else
                 nobj->arr[n] = Jsi_ValueDup(interp, nrPtr);
             n++;
-- 
2.43.0


From 71f37206d634570f996cecdc0593286373f4b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 007/179] fix: Array.flat returns an array with values of its
 own

---
 src/jsiArray.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index cc19241..f78df8a 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -254,8 +254,11 @@ static Jsi_RC jsi_ArrayFlatSub(Jsi_Interp *interp, Jsi_Obj* nobj, Jsi_Value *arr
         Jsi_Value *t = Jsi_ValueArrayIndex(interp, arr, i);
         if (t && depth>0 && Jsi_ValueIsArray(interp, t))
             rc = jsi_ArrayFlatSub(interp, nobj, t , depth-1);
-        else if (t && t->vt != JSI_VT_UNDEF)
-            Jsi_ObjArrayAdd(interp, nobj, t);
+        else if (t && t->vt != JSI_VT_UNDEF) {
+            Jsi_Value *nt = Jsi_ValueDup(interp, t);
+            Jsi_ObjArrayAdd(interp, nobj, nt);
+            Jsi_DecrRefCount(interp, nt);
+        }
         if ((uint)(++n + clen)>interp->maxArrayList)
             rc = Jsi_LogError("array size exceeded");
     }
-- 
2.43.0


From efbeea8867b141515760fc363699931d0ef4d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 008/179] fix: searching an array for undefined does not match
 objects

---
 src/jsiValue.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 5efe30f..3a6a067 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -901,6 +901,8 @@ int Jsi_ValueCmp(Jsi_Interp *interp, Jsi_Value *v1, Jsi_Value* v2, int flags)
     if (v1 == v2)
         return 1;
     if (v1->vt != v2->vt) {
+        if ((flags&JSI_CMP_EXACT) && (v1->vt == JSI_VT_UNDEF || v2->vt == JSI_VT_UNDEF))
+            return 1;
         jsi_ValueToPrimitiveRes(interp, v1, &res1);
         jsi_ValueToPrimitiveRes(interp, v2, &res2);
         v1 = &res1;
-- 
2.43.0


From 523ffdd657f84afedc10fd53a78611b62ac0e68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 009/179] fix: the message of an error raised in a catch or
 finally part reaches the enclosing catch

---
 src/jsiUtils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 704bb71..cc654bd 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -209,8 +209,11 @@ Jsi_RC Jsi_LogMsg(Jsi_Interp *interp, Jsi_PkgOpts* popts, uint code, const char
         if (interp->framePtr->level > 1 && !fp->tryDepth)
             jsi_DumpStackTrace(interp);
 
-        if ((fp->tryDepth - fp->withDepth)>0 && interp->inParse<=0 
-            && (!interp->tryList || !(interp->tryList->inCatch|interp->tryList->inFinal))) { 
+        int tdepth = fp->tryDepth - fp->withDepth;
+        jsi_TryList *tl = interp->tryList;
+        for (; tl; tl = tl->next) // In catch or finally: not caught by that one.
+            if (tl->inCatch|tl->inFinal) tdepth--;
+        if (tdepth>0 && interp->inParse<=0) { 
             /* Should only do the first or traceback? */
             if (!interp->errMsgBuf[0]) {
                 
-- 
2.43.0


From 5fb220fcda9ca25da24de4648e86f36edfb12d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 010/179] fix: an exception pending in finally survives it
 unchanged, and leaves nothing behind when replaced or caught

---
 src/jsiEval.c | 41 +++++++++++++++++++++++++++++++++--------
 src/jsiInt.h  |  2 ++
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 3ab20bb..74b41f8 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -312,6 +312,12 @@ static void jsiPopTry(Jsi_Interp* interp, jsi_TryList **head)
 {
     interp->framePtr->tryDepth--;
     jsi_TryList *t = (*head)->next;
+    if ((*head)->type == jsi_TL_TRY) {
+        if ((*head)->d.td.excpt)
+            Jsi_DecrRefCount(interp, (*head)->d.td.excpt);
+        if ((*head)->d.td.errMsg)
+            Jsi_Free((*head)->d.td.errMsg);
+    }
     Jsi_Free(*head);
     *head = t;
     interp->tryList = t;
@@ -354,7 +360,12 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
     const char *str;
     while (1) {
         if (trylist == NULL) {
-            str = (top?Jsi_ValueString(interp, top, NULL):"");
+            if (!Jsi_Strcmp(nam, "finally")) {
+                nam = "throw";
+                top = (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF ? ps->last_exception : NULL);
+                str = (top?Jsi_ValueString(interp, top, NULL):NULL);
+            } else
+                str = (top?Jsi_ValueString(interp, top, NULL):"");
             if (str) {
                 if (!Jsi_Strcmp(nam, "help"))
                     Jsi_LogInfo("...%s", str);
@@ -377,12 +388,6 @@ static Jsi_RC jsiDoThrow(Jsi_Interp *interp, jsi_Pstate *ps, jsi_OpCode **ipp, j
                 break;
             } else if (*ipp >= trylist->d.td.cstart && *ipp < trylist->d.td.cend) {
                 trylist->d.td.last_op = jsi_LOP_THROW; // in "catch"
-                if ((*ipp)->op == OP_THROW && interp->framePtr->tryDepth==1) {
-                    rc = JSI_ERROR; // TODO: fix nested exception error msg propagation
-                    if (ps->last_exception &&
-                        ((str = Jsi_ValueString(interp, ps->last_exception, NULL))))
-                        Jsi_LogError("%s near \"%s\"", nam, str);
-                }
                 *ipp = trylist->d.td.fstart - 1;
                 break;
             } else if (*ipp >= trylist->d.td.fstart && *ipp < trylist->d.td.fend) {
@@ -1981,8 +1986,8 @@ undef_eval:
                         Jsi_ValueReset(interp, &ps->last_exception);
                     } else {
                         Jsi_ValueMakeStringDup(interp, &excpt, interp->errMsgBuf);
-                        interp->errMsgBuf[0] = 0;
                     }
+                    interp->errMsgBuf[0] = 0;
                     Jsi_ValueInsert(interp, currentScope, (char*)ip->data, excpt, JSI_OM_DONTENUM);
                     Jsi_DecrRefCount(interp, excpt);
                     context_id = ps->_context_id++;
@@ -2001,6 +2006,16 @@ undef_eval:
                 if (trylist == NULL || trylist->type != jsi_TL_TRY)
                     Jsi_LogBug("Unexpected SFINAL opcode??");
 
+                if (trylist->d.td.last_op == jsi_LOP_THROW) {
+                    /* put aside what was thrown: code in finally may itself throw and catch. */
+                    interp->curIpLastError = NULL;
+                    if (ps->last_exception && ps->last_exception->vt != JSI_VT_UNDEF) {
+                        Jsi_ValueDup2(interp, &trylist->d.td.excpt, ps->last_exception);
+                        Jsi_ValueReset(interp, &ps->last_exception);
+                    } else
+                        trylist->d.td.errMsg = Jsi_Strdup(interp->errMsgBuf);
+                    interp->errMsgBuf[0] = 0;
+                }
                 /* restore scatch scope chain */
                 trylist->inFinal = 1;
                 JSI_RESTORE_SCOPE();
@@ -2014,6 +2029,16 @@ undef_eval:
                 int last_op = trylist->d.td.last_op;
                 jsi_OpCode *tojmp = (last_op == jsi_LOP_JMP ? trylist->d.td.ld.tojmp : 0);
                 
+                if (last_op == jsi_LOP_THROW) {
+                    if (trylist->d.td.excpt)
+                        Jsi_ValueDup2(interp, &ps->last_exception, trylist->d.td.excpt);
+                    else {
+                        if (ps->last_exception)
+                            Jsi_ValueReset(interp, &ps->last_exception);
+                        if (trylist->d.td.errMsg)
+                            Jsi_Strcpy(interp->errMsgBuf, trylist->d.td.errMsg);
+                    }
+                }
                 pop_try(trylist);
 
                 if (last_op == jsi_LOP_THROW) {
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 3598052..f21cefc 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1069,6 +1069,8 @@ typedef struct jsi_TryList {
             union {
                 jsi_OpCode *tojmp;
             } ld;                   /* jmp out of catch (target)*/
+            Jsi_Value *excpt;           /* exception pending while in finally (last_op is throw) */
+            char *errMsg;               /* ... or its message, for an error. */
         } td;
         struct {                    /* with data */
             jsi_OpCode *wstart;         /* with start */
-- 
2.43.0


From 4d8fc95281b33d94a41e40aa694cd82169ecef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 011/179] fix: a jump out of try pops its loop state only once
 finally has let it through

---
 src/jsiEval.c | 19 +++++++++++++++++--
 src/jsiInt.h  |  1 +
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 74b41f8..50837fb 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1782,8 +1782,8 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 break;
             }
             case OP_JMPPOP: 
-                jsiPop(interp, ((jsi_JmpPopInfo *)ip->data)->topop);
             case OP_JMP: {
+                int topop = (ip->op == OP_JMP ? 0 : ((jsi_JmpPopInfo *)ip->data)->topop);
                 int off = (ip->op == OP_JMP ? (uintptr_t)ip->data - 1
                             : (uintptr_t)((jsi_JmpPopInfo *)ip->data)->off - 1);
 
@@ -1798,6 +1798,13 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                         if (tojmp >= trylist->d.td.tstart && tojmp < trylist->d.td.fend) break;
                         
                         if (ip >= trylist->d.td.tstart && ip < trylist->d.td.cend) {
+                            /* finally may itself jump: pop only what was pushed since try, the rest when it is done. */
+                            int npop = fp->Sp - trylist->d.td.tsp;
+                            if (npop>topop)
+                                npop = topop;
+                            jsiPop(interp, npop);
+                            trylist->d.td.topop = topop - npop;
+                            topop = 0;
                             trylist->d.td.last_op = jsi_LOP_JMP;
                             trylist->d.td.ld.tojmp = tojmp;
                             
@@ -1816,7 +1823,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                         pop_try(trylist);
                     }
                 }
-                
+                jsiPop(interp, topop);
                 ip += off;
                 break;
             }
@@ -2028,6 +2035,7 @@ undef_eval:
                 trylist->inFinal = 0;
                 int last_op = trylist->d.td.last_op;
                 jsi_OpCode *tojmp = (last_op == jsi_LOP_JMP ? trylist->d.td.ld.tojmp : 0);
+                int topop = (last_op == jsi_LOP_JMP ? trylist->d.td.topop : 0);
                 
                 if (last_op == jsi_LOP_THROW) {
                     if (trylist->d.td.excpt)
@@ -2058,6 +2066,12 @@ undef_eval:
                             }
                             
                             if (ip >= trylist->d.td.tstart && ip < trylist->d.td.cend) {
+                                int npop = fp->Sp - trylist->d.td.tsp;
+                                if (npop>topop)
+                                    npop = topop;
+                                jsiPop(interp, npop);
+                                trylist->d.td.topop = topop - npop;
+                                topop = 0;
                                 trylist->d.td.last_op = jsi_LOP_JMP;
                                 trylist->d.td.ld.tojmp = tojmp;
                                 
@@ -2075,6 +2089,7 @@ undef_eval:
                             pop_try(trylist);
                         }
                     }
+                    jsiPop(interp, topop);
                 }
                 break;
             }
diff --git a/src/jsiInt.h b/src/jsiInt.h
index f21cefc..d68ded3 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1069,6 +1069,7 @@ typedef struct jsi_TryList {
             union {
                 jsi_OpCode *tojmp;
             } ld;                   /* jmp out of catch (target)*/
+            int topop;                  /* what that jmp has yet to pop from below tsp. */
             Jsi_Value *excpt;           /* exception pending while in finally (last_op is throw) */
             char *errMsg;               /* ... or its message, for an error. */
         } td;
-- 
2.43.0


From 9b967a6fb952e6f0be271703842911dcaf86e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 012/179] fix: ++ and -- of an accessor property call its own
 setter with the right this, and no stale setter afterwards

---
 src/jsiEval.c   | 12 +++++++++---
 src/jsiInt.h    |  1 +
 src/jsiInterp.c |  1 +
 src/jsiValue.c  |  5 +++--
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 50837fb..3c94147 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1137,8 +1137,11 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
     
     while(ip < end && rc == JSI_OK) {
         int plop = ip->op;
-        if (lop != OP_SUBSCRIPT)
+        if (lop != OP_SUBSCRIPT && hPtrGet) {
             hPtrGet = NULL;
+            if (interp->hPtrGetThis) Jsi_DecrRefCount(interp, interp->hPtrGetThis);
+            interp->hPtrGetThis = NULL;
+        }
 
         if (ip->logidx) { // Mask out LogDebug, etc if not enabled.
             uint oli = ip->logidx, logflag2 = jsi_GetLogFlag(interp, ip->logidx, NULL);
@@ -1290,6 +1293,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
             }
             case OP_SUBSCRIPT: {
                 jsiVarDeref(interp,2);
+                interp->hPtrGet = NULL;
                 rc = jsiEvalSubscript(interp, _jsi_TOQ, _jsi_TOP, ip, end, currentScope);
                 jsiPop(interp, 1);
                 hPtrGet = interp->hPtrGet;
@@ -1739,8 +1743,10 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 }
                 if (hPtrGet) {
                     // Re-update after modifying a primative from "get()".
-                    Jsi_Value *v2 = (fp->Sp>1?_jsi_TOQ:_jsi_TOP);
-                    jsi_SetterCall(interp, hPtrGet, v, v2, 0);
+                    Jsi_Value *v2 = interp->hPtrGetThis;
+                    interp->hPtrGetThis = NULL;
+                    rc = jsi_SetterCall(interp, hPtrGet, v, v2, 0);
+                    Jsi_DecrRefCount(interp, v2);
                     hPtrGet = NULL;
                 }
                 break;
diff --git a/src/jsiInt.h b/src/jsiInt.h
index d68ded3..9327251 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1273,6 +1273,7 @@ struct Jsi_Interp {
     Jsi_Obj* allObjs;
     Jsi_Value* allValues, *udata;
     Jsi_HashEntry *hPtrGet;
+    Jsi_Value *hPtrGetThis;
     Jsi_Value *busyCallback;
     const char *confFile;
     int busyInterval;
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 3ad7609..4f71292 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1887,6 +1887,7 @@ static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
     Jsi_HashDeleteIF(interp->genObjTbl);
     Jsi_HashDeleteIF(interp->aliasHash);
     Jsi_DecrRefCountIF(interp, interp->GetterValue);
+    Jsi_DecrRefCountIF(interp, interp->hPtrGetThis);
     Jsi_HashDeleteIF(interp->staticFuncsTbl);
     Jsi_HashDeleteIF(interp->breakpointHash);
     if (interp->preserveTbl->numEntries!=0)
diff --git a/src/jsiValue.c b/src/jsiValue.c
index 3a6a067..026095f 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1394,8 +1394,9 @@ Jsi_RC jsi_GetterCall(Jsi_Interp *interp, Jsi_HashEntry *hPtr, Jsi_Value **vres,
     v = (*vres);
     Jsi_Obj *obj = _this->d.obj;
     if (rc == JSI_OK && flags&JSI_ACCESSOR_TOOBJECT) {
-        if (obj->setters && v->vt != JSI_VT_OBJECT)
-            interp->hPtrGet = Jsi_HashEntryFind(obj->setters, key);
+        if (obj->setters && v->vt != JSI_VT_OBJECT
+            && (interp->hPtrGet = Jsi_HashEntryFind(obj->setters, key)))
+            Jsi_ValueDup2(interp, &interp->hPtrGetThis, _this);
     // NOTE following fails: trying to upgrade primatives to objects to avoid having to call setter after a ++/--.
        /* if (v->vt != JSI_VT_NULL && v->vt != JSI_VT_UNDEF)
             Jsi_ValueToObject(interp, v);
-- 
2.43.0


From e60079b253e11073acf1929de6ac787db0201326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 013/179] fix: Object.merge, assign and create copy the values
 of properties rather than share them

---
 src/jsiProto.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 1acb3aa..2732395 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -494,6 +494,15 @@ static Jsi_RC ObjectValueOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     return JSI_OK;
 }
 
+// Insert a copy, so that the objects do not share the value.
+static Jsi_RC jsi_ObjInsertCopy(Jsi_Interp *interp, Jsi_Obj *obj, const char *key, Jsi_Value *v)
+{
+    Jsi_Value *nv = Jsi_ValueDup(interp, v);
+    Jsi_RC rc = Jsi_ObjInsert(interp, obj, key, nv, 0);
+    Jsi_DecrRefCount(interp, nv);
+    return rc;
+}
+
 static Jsi_RC ObjectMergeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
@@ -510,14 +519,14 @@ static Jsi_RC ObjectMergeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
         if (v && v->f.bits.dontenum == 0)
-            rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+            rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v);
     }
     Jsi_TreeSearchDone(&search);
     for (tPtr = Jsi_TreeSearchFirst(v->d.obj->tree, &search, 0, NULL);
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
         if (v && v->f.bits.dontenum == 0)
-            rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+            rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v);
     }
     Jsi_TreeSearchDone(&search);
 
@@ -548,7 +557,7 @@ static Jsi_RC ObjectAssignCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v2 = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
             if (v2 && v2->f.bits.dontenum == 0)
-                rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v2, 0);
+                rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v2);
         }
         Jsi_TreeSearchDone(&search);
     }
@@ -655,7 +664,7 @@ static Jsi_RC ObjectCreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
             if (v && v->f.bits.dontenum == 0)
-                rc = Jsi_ObjInsert(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, 0);
+                rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v);
         }
         Jsi_TreeSearchDone(&search);
     }
-- 
2.43.0


From 8a68754f2000f0b3254ca8b866ba6a91a6c5667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 014/179] fix: Object.values copies the values of properties
 rather than share them

---
 src/jsiObj.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiObj.c b/src/jsiObj.c
index 63f8e52..045aa6e 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -128,9 +128,12 @@ static Jsi_RC ObjListifyValuesCallback(Jsi_Tree *tree, Jsi_TreeEntry *hPtr, void
     Jsi_Interp *interp = tree->opts.interp;
     Jsi_Obj *obj = (Jsi_Obj*)data;
     Jsi_Value *val = (Jsi_Value*)Jsi_TreeValueGet(hPtr);
-    if (!val || Jsi_ObjArrayAdd(interp, obj, val) != JSI_OK) 
+    if (!val)
         return JSI_ERROR;
-    return JSI_OK;
+    val = Jsi_ValueDup(interp, val);
+    Jsi_RC rc = Jsi_ObjArrayAdd(interp, obj, val);
+    Jsi_DecrRefCount(interp, val);
+    return rc;
 }
 
 Jsi_RC Jsi_ObjGetValues(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *outVal, Jsi_Value *_this)
-- 
2.43.0


From f5b33a867078b4d8d5597df19221986132cc63c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 015/179] fix: Object.setPrototypeOf takes an empty prototype,
 rejects cycles; isPrototypeOf looks for the object itself

---
 src/jsiProto.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 2732395..6545156 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -582,11 +582,16 @@ static Jsi_RC jsi_SetPrototypeOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
     Jsi_Value *a = Jsi_ValueArrayIndex(interp, args,1);
     if (!v || !a || v->vt != JSI_VT_OBJECT || a->vt != JSI_VT_OBJECT)
         return JSI_ERROR;
-    if (a->d.obj->tree->numEntries && a->d.obj != v->d.obj) {
-        v->d.obj->__proto__ = Jsi_ValueDup(interp, a);
-        v->d.obj->clearProto = 1;
-    } else
-        v->d.obj->__proto__ = a->d.obj->__proto__;
+    Jsi_Obj *obj = v->d.obj;
+    Jsi_Value *p;
+    for (p=a; p && p->vt == JSI_VT_OBJECT; p = p->d.obj->__proto__)
+        if (p->d.obj == obj)
+            return Jsi_LogError("cyclic prototype");
+    Jsi_Value *old = (obj->clearProto ? obj->__proto__ : NULL);
+    obj->__proto__ = Jsi_ValueDup(interp, a);
+    obj->clearProto = 1;
+    if (old)
+        Jsi_DecrRefCount(interp, old);
     return JSI_OK;
 }
 #endif
@@ -604,20 +609,17 @@ static Jsi_RC jsi_HasOwnPropertyCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
 static Jsi_RC ObjectIsPrototypeOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    Jsi_Value *proto, *sproto, *v = Jsi_ValueArrayIndex(interp, args,0);
+    Jsi_Value *sproto, *v = Jsi_ValueArrayIndex(interp, args,0);
     int bval = 0;
     if (v->vt != JSI_VT_OBJECT || _this->vt != JSI_VT_OBJECT) {
         goto retval;
     }
-    proto = _this->d.obj->__proto__;
     sproto = v->d.obj->__proto__;
-    if (!proto)
-        goto retval;
     while (sproto) {
-        if ((bval=(sproto == proto)))
-            break;
         if (sproto->vt != JSI_VT_OBJECT)
             break;
+        if ((bval=(sproto->d.obj == _this->d.obj)))
+            break;
         sproto = sproto->d.obj->__proto__;
     }
 retval:
-- 
2.43.0


From f138fa5e56a394faf45d3c088e13612acd52bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 016/179] fix: ++ and -- of an inherited property give the
 object its own and leave the prototype alone

---
 src/jsiEval.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 3c94147..c9ed3bf 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1015,6 +1015,18 @@ static Jsi_RC jsiEvalSubscript(Jsi_Interp *interp, Jsi_Value *src, Jsi_Value *id
         }
     }
     else {
+        if (!right_val && obj && vp != resPtr && !vp->f.bits.isgetter && ip+1<end && (ip[1].op == OP_INC || ip[1].op == OP_DEC)) {
+            // An inherited property is not changed in the prototype: the object gets its own.
+            const char *keyStr = Jsi_ValueToString(interp, idx, NULL);
+            if (keyStr && Jsi_ValueObjLookup(interp, src, keyStr, (idx->vt == JSI_VT_STRING)) != vp) {
+                Jsi_Value *nv = Jsi_ValueDup(interp, vp);
+                rc = Jsi_ValueInsert(interp, src, keyStr, nv, 0);
+                Jsi_DecrRefCount(interp, nv);
+                if (rc != JSI_OK)
+                    return rc;
+                vp = nv;
+            }
+        }
         Jsi_IncrRefCount(interp, vp);
         if (right_val || vp->f.bits.readonly) {
             if (vp == resPtr && (res.vt == JSI_VT_OBJECT || res.vt == JSI_VT_STRING))  // TODO:*** Undo using ValueCopy. ***
-- 
2.43.0


From 1f34850e6ad1208575c2d1d3325dde5c93355c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 017/179] fix: the JSON text of an object whose first property
 is undefined has no leading comma

---
 src/jsiUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index cc654bd..bceb1c4 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -686,9 +686,9 @@ static Jsi_RC jsi_ObjectGetFmt(Jsi_Interp *interp, const char *key, Jsi_Value *v
 {
     Jsi_DString *dStr = ow->dStr;
     int isfmt = ow->quote&JSI_JSON_FORMAT;
-    ow->subcnt++;
     if ((ow->quote&JSI_OUTPUT_JSON) && v && v->vt == JSI_VT_UNDEF)
         return JSI_OK;
+    ow->subcnt++;
     if (ow->subcnt>1)
         Jsi_DSAppend(dStr, ", ", NULL);
     if (isfmt)
-- 
2.43.0


From f520f497a745efe7d17fd49ee16bbf7e7045dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 018/179] fix: Object.assign to a property with a setter passes
 the object as this, so the value is not lost

---
 src/jsiProto.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 6545156..4e48f51 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -495,10 +495,10 @@ static Jsi_RC ObjectValueOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 }
 
 // Insert a copy, so that the objects do not share the value.
-static Jsi_RC jsi_ObjInsertCopy(Jsi_Interp *interp, Jsi_Obj *obj, const char *key, Jsi_Value *v)
+static Jsi_RC jsi_ObjInsertCopy(Jsi_Interp *interp, Jsi_Obj *obj, const char *key, Jsi_Value *v, Jsi_Value *_this)
 {
     Jsi_Value *nv = Jsi_ValueDup(interp, v);
-    Jsi_RC rc = Jsi_ObjInsert(interp, obj, key, nv, 0);
+    Jsi_RC rc = jsi_ObjValInsert(interp, obj, key, nv, _this, 0, 0);
     Jsi_DecrRefCount(interp, nv);
     return rc;
 }
@@ -519,14 +519,14 @@ static Jsi_RC ObjectMergeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
         if (v && v->f.bits.dontenum == 0)
-            rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v);
+            rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, NULL);
     }
     Jsi_TreeSearchDone(&search);
     for (tPtr = Jsi_TreeSearchFirst(v->d.obj->tree, &search, 0, NULL);
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
         if (v && v->f.bits.dontenum == 0)
-            rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v);
+            rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, NULL);
     }
     Jsi_TreeSearchDone(&search);
 
@@ -557,7 +557,7 @@ static Jsi_RC ObjectAssignCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v2 = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
             if (v2 && v2->f.bits.dontenum == 0)
-                rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v2);
+                rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v2, v);
         }
         Jsi_TreeSearchDone(&search);
     }
@@ -666,7 +666,7 @@ static Jsi_RC ObjectCreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
             if (v && v->f.bits.dontenum == 0)
-                rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v);
+                rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, NULL);
         }
         Jsi_TreeSearchDone(&search);
     }
-- 
2.43.0


From d1d503d21adc6c035792f6375d64ec1f41429df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 019/179] fix: an object frozen against modification does not
 make copies of its values refuse ++ and --

---
 src/jsiEval.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index c9ed3bf..1f325c1 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1025,7 +1025,8 @@ static Jsi_RC jsiEvalSubscript(Jsi_Interp *interp, Jsi_Value *src, Jsi_Value *id
                 if (rc != JSI_OK)
                     return rc;
                 vp = nv;
-            }
+            } else if (obj->freeze && obj->freezeNoModify)
+                return Jsi_LogError("object freeze: attempted modify");
         }
         Jsi_IncrRefCount(interp, vp);
         if (right_val || vp->f.bits.readonly) {
@@ -1737,10 +1738,6 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                     rc = Jsi_LogError("modify readonly variable");
                     break;
                 }
-                if (v->f.bits.frozen) {
-                    rc = Jsi_LogError("object freeze: attempted modify");
-                    break;
-                }
 
                 if (Jsi_ValueToNumber(interp, v) != JSI_OK)
                     rc = JSI_ERROR;
-- 
2.43.0


From 7e884ed8409570267b5b901bc5064c5b1b820d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 020/179] fix: whether a property is enumerable is decided by
 the property, not by where its value was copied from

---
 src/jsiProto.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 4e48f51..23769ad 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -518,14 +518,14 @@ static Jsi_RC ObjectMergeCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     for (tPtr = Jsi_TreeSearchFirst(_this->d.obj->tree, &search, 0, NULL);
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
-        if (v && v->f.bits.dontenum == 0)
+        if (v && tPtr->f.bits.dontenum == 0)
             rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, NULL);
     }
     Jsi_TreeSearchDone(&search);
     for (tPtr = Jsi_TreeSearchFirst(v->d.obj->tree, &search, 0, NULL);
         tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
         Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
-        if (v && v->f.bits.dontenum == 0)
+        if (v && tPtr->f.bits.dontenum == 0)
             rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, NULL);
     }
     Jsi_TreeSearchDone(&search);
@@ -556,7 +556,7 @@ static Jsi_RC ObjectAssignCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         for (tPtr = Jsi_TreeSearchFirst(vs->d.obj->tree, &search, 0, NULL);
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v2 = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
-            if (v2 && v2->f.bits.dontenum == 0)
+            if (v2 && tPtr->f.bits.dontenum == 0)
                 rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v2, v);
         }
         Jsi_TreeSearchDone(&search);
@@ -665,7 +665,7 @@ static Jsi_RC ObjectCreateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         for (tPtr = Jsi_TreeSearchFirst(pobj->tree, &search, 0, NULL);
             tPtr && rc == JSI_OK; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v = (Jsi_Value *)Jsi_TreeValueGet(tPtr);
-            if (v && v->f.bits.dontenum == 0)
+            if (v && tPtr->f.bits.dontenum == 0)
                 rc = jsi_ObjInsertCopy(interp, obj, (const char *)Jsi_TreeKeyGet(tPtr), v, NULL);
         }
         Jsi_TreeSearchDone(&search);
@@ -682,7 +682,10 @@ static Jsi_RC ObjectPropertyIsEnumerableCmd(Jsi_Interp *interp, Jsi_Value *args,
 
     char *key = Jsi_ValueArrayIndexToStr(interp, args,0, NULL);
     v = Jsi_ValueObjLookup(interp, _this, key, 0);
-    b = (v && (v->f.bits.dontenum==0));
+    if (v) { // The flag is that of the property: the one in the value may come from where it was copied.
+        Jsi_TreeEntry *hPtr = (_this->vt == JSI_VT_OBJECT && _this->d.obj->tree ? Jsi_TreeEntryFind(_this->d.obj->tree, key) : NULL);
+        b = (hPtr ? hPtr->f.bits.dontenum==0 : v->f.bits.dontenum==0);
+    }
 
     Jsi_ValueMakeBool(interp, ret, b);
     return JSI_OK;
-- 
2.43.0


From 7a670a7eead5ff3025dc743757034b7091095742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 021/179] fix: a copy of a constant is not itself constant

---
 src/jsiEval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 1f325c1..ea8624a 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -213,6 +213,8 @@ static void jsiVarDeref(Jsi_Interp* interp, int n) {
         if (vb->vt == JSI_VT_VARIABLE) {
             SIGASSERTV(vb->d.lval, VALUE);
             Jsi_ValueCopy(interp, vb, vb->d.lval);
+            if (vb->vt != JSI_VT_OBJECT)
+                vb->f.bits.readonly = 0; // A copy of a constant is not constant.
         }
     }
 }
-- 
2.43.0


From 57c3affbaebc8cbf69a343a74bbd3db2c833c5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 022/179] fix: callbacks of array methods get values of their
 own, so assigning to a parameter leaves the array alone

---
 src/jsiArray.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index f78df8a..17f9760 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -385,7 +385,7 @@ static Jsi_RC jsi_ArrayMapCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         vobjs[0] = obj->arr[i];
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
-        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
+        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 1));
         Jsi_IncrRefCount(interp, vpargs);
         Jsi_IncrRefCount(interp, vobjs[2]);
         nobj->arr[i] = Jsi_ValueNew1(interp);
@@ -444,7 +444,7 @@ static Jsi_RC jsi_ArrayFilterCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
         Jsi_IncrRefCount(interp, vobjs[2]);
-        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
+        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 1));
         Jsi_IncrRefCount(interp, vpargs);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, sthis);
         Jsi_DecrRefCount(interp, vpargs);
@@ -531,7 +531,7 @@ static Jsi_RC jsi_ArrayForeachCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         vobjs[0] = obj->arr[i];
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
-        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
+        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 1));
         Jsi_IncrRefCount(interp, vpargs);
         Jsi_IncrRefCount(interp, vobjs[2]);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, ret, sthis);
@@ -576,7 +576,7 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         vobjs[0] = obj->arr[i];
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
-        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
+        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 1));
         Jsi_IncrRefCount(interp, vobjs[2]);
         Jsi_IncrRefCount(interp, vpargs);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, sthis);
@@ -642,7 +642,7 @@ static Jsi_RC jsi_ArrayReduceSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
         vobjs[2] = (maa>2?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[3] = Jsi_ValueNewObj(interp, obj);
         Jsi_IncrRefCount(interp, vobjs[3]);
-        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 0));
+        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 1));
         Jsi_IncrRefCount(interp, vpargs);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, _this);
         Jsi_DecrRefCount(interp, vpargs);
@@ -980,7 +980,7 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
         else {
             Jsi_Value *vv[2] = {v1, v2};
             Jsi_Value *retP = Jsi_ValueNew1(interp);
-            Jsi_Value *vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vv, 2, 0));
+            Jsi_Value *vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vv, 2, 1));
             Jsi_IncrRefCount(interp, vpargs);
             rc = Jsi_FunctionInvoke(interp, si->compare, vpargs, &retP, NULL);
             Jsi_DecrRefCount(interp, vpargs);
-- 
2.43.0


From 5937318d336f7d72b24e7a0f3c635bdb44a0503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 023/179] fix: map, filter, find and reduce cope with callbacks
 that change the array under them

---
 src/jsiArray.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 17f9760..724a361 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -381,7 +381,7 @@ static Jsi_RC jsi_ArrayMapCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     if (maa>3 || fptr->type == FC_BUILDIN)
         maa = 3;
     for (i = 0; i < curlen && rc == JSI_OK; i++) {
-        if (!obj->arr[i]) continue;
+        if (i >= (int)obj->arrCnt || !obj->arr[i]) continue;
         vobjs[0] = obj->arr[i];
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
@@ -439,8 +439,9 @@ static Jsi_RC jsi_ArrayFilterCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     if (maa>3 || fptr->type == FC_BUILDIN)
         maa = 3;
     for (i = 0; i < curlen; i++) {
-        if (!obj->arr[i]) continue;
-        vobjs[0] = obj->arr[i];
+        if (i >= (int)obj->arrCnt || !obj->arr[i]) continue;
+        Jsi_Value *elem = Jsi_ValueDup(interp, obj->arr[i]);
+        vobjs[0] = elem;
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
         Jsi_IncrRefCount(interp, vobjs[2]);
@@ -451,15 +452,13 @@ static Jsi_RC jsi_ArrayFilterCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         Jsi_DecrRefCount(interp, vobjs[2]);
         fval = Jsi_ValueIsTrue(interp, nrPtr);
         if( JSI_OK!=rc ) {
+            Jsi_DecrRefCount(interp, elem);
             goto bail;
         }
-        if (fval) {
-            if (Jsi_ValueIsArray(interp, _this) && _this->d.obj == obj && i<(int)obj->arrCnt && obj->arr[i]) {
-                nobj->arr[n] = Jsi_ValueDup(interp, obj->arr[i]);
-            } else
-                nobj->arr[n] = Jsi_ValueDup(interp, nrPtr);
-            n++;
-        }
+        if (fval)
+            nobj->arr[n++] = elem;
+        else
+            Jsi_DecrRefCount(interp, elem);
         Jsi_ValueMakeUndef(interp, &nrPtr);
     }
     Jsi_ObjSetLength(interp, nobj, n);
@@ -565,7 +564,7 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     obj = _this->d.obj;
     Jsi_ObjListifyArray(interp, obj);
     int fval = (op == 3);
-    Jsi_Value *nrPtr = Jsi_ValueNew1(interp);
+    Jsi_Value *nrPtr = Jsi_ValueNew1(interp), *elem = Jsi_ValueNew1(interp);
     Jsi_Value *vobjs[3];
     Jsi_Func *fptr = func->d.obj->d.fobj->func;
     int maa = (fptr->argnames?fptr->argnames->argCnt:0);
@@ -573,6 +572,8 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         maa = 3;
     for (i = 0; i < obj->arrCnt && rc == JSI_OK; i++) {
         if (!obj->arr[i]) continue;
+        if (op == 1) // Find: the element as it was before the call.
+            Jsi_ValueCopy(interp, elem, obj->arr[i]);
         vobjs[0] = obj->arr[i];
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
@@ -593,7 +594,7 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     }
     if (rc == JSI_OK) {
         if (op == 1 && fval) // Find
-            Jsi_ValueCopy(interp, *ret, obj->arr[i]); 
+            Jsi_ValueCopy(interp, *ret, elem); 
         else if (op == 2 || op == 3) // Some/Every
             Jsi_ValueMakeBool(interp, ret, fval);
         else if (op == 4)
@@ -603,6 +604,7 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     if (nthis)
         Jsi_DecrRefCount(interp, nthis);
     Jsi_DecrRefCount(interp, nrPtr);
+    Jsi_DecrRefCount(interp, elem);
     return rc;
 
 }
@@ -631,9 +633,10 @@ static Jsi_RC jsi_ArrayReduceSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
 
     Jsi_IncrRefCount(interp, _this);
     for (n = 0, i = (rev?end:start); (rev?i>=start:i<=end) && rc == JSI_OK; n++, i += (rev?-1:1)) {
-        if (!obj->arr[i]) continue;
+        if (i >= (int)obj->arrCnt || !obj->arr[i]) continue;
         if (!ini) {
-            ini = obj->arr[i];
+            Jsi_ValueCopy(interp, nrPtr, obj->arr[i]);
+            ini = nrPtr;
             continue;
         }
             
-- 
2.43.0


From 5dd210f793f2533cde0c8a7abcdd012be7575115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 024/179] fix: an error in a sort comparison ends the sort with
 that error; comparison results are not cut to int

---
 src/jsiArray.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 724a361..a8d60b0 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -942,6 +942,7 @@ typedef struct {
     bool unique;
     Jsi_Value *compare;
     int errCnt;
+    Jsi_RC rc;
 } SortInfo;
 
 static const char *sortArrayStrs[] = {"default", "desc", "dict", "nocase", 0};
@@ -985,12 +986,13 @@ static int SortSubCmd(const void *p1, const void *p2, void *thunk)
             Jsi_Value *retP = Jsi_ValueNew1(interp);
             Jsi_Value *vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vv, 2, 1));
             Jsi_IncrRefCount(interp, vpargs);
-            rc = Jsi_FunctionInvoke(interp, si->compare, vpargs, &retP, NULL);
+            if (si->rc == JSI_OK)
+                si->rc = Jsi_FunctionInvoke(interp, si->compare, vpargs, &retP, NULL);
             Jsi_DecrRefCount(interp, vpargs);
-            if (rc == JSI_OK) {
+            if (si->rc == JSI_OK) {
                 Jsi_Number d = 0;
                 if (Jsi_ValueGetNumber(interp, retP, &d) == JSI_OK)
-                    rc = -(int)d;
+                    rc = (d > 0 ? -1 : (d < 0 ? 1 : 0));
                 else {
                     if (!si->errCnt)
                         Jsi_LogWarn("invalid function return");
@@ -1091,7 +1093,7 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 #endif
         return JSI_ERROR;
     }
-    if (si.unique) {
+    if (si.unique && si.rc == JSI_OK) {
         int n, diff = 1, dupCnt=0;
         for (n=0, i=1; i<(int)obj->arrCnt; i++) {
             if (obj->arr[n] == obj->arr[i])
@@ -1126,6 +1128,10 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
 #endif
     if (hasopt)
         Jsi_OptionsFree(interp, jsi_ArraySortOptions, &si, 0);
+    if (si.rc != JSI_OK) {
+        obj->modifying = 0;
+        return si.rc;
+    }
 done:
     v = Jsi_ValueMakeObject(interp, NULL, obj);
     Jsi_ValueReplace(interp, ret, v);
-- 
2.43.0


From 87b1f55851ad1df3a2acdd96f1762e285a67eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 025/179] fix: while an array is sorted its elements can
 neither be assigned nor reversed

---
 src/jsiArray.c | 5 +++++
 src/jsiEval.c  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index a8d60b0..0c686b5 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -484,6 +484,11 @@ static Jsi_RC jsi_ArrayReverseCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         Jsi_IncrRefCount(interp, sthis);
     }
     obj = _this->d.obj;
+    if (obj->modifying) {
+        if (nthis)
+            Jsi_DecrRefCount(interp, nthis);
+        return Jsi_LogError("already modifying");
+    }
     Jsi_ObjListifyArray(interp, obj);
     m = obj->arrCnt/2;
     for (i = 0, n=obj->arrCnt-1; i < m; i++, n--) {
diff --git a/src/jsiEval.c b/src/jsiEval.c
index ea8624a..8d7565f 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1065,6 +1065,8 @@ static Jsi_RC jsiValueAssignCheck(Jsi_Interp *interp, Jsi_Value *val, int lop) {
 // Copying version of above.
 static Jsi_RC jsi_ObjArraySetDup(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *value, int n)
 {
+    if (obj->modifying)
+        return Jsi_LogError("already modifying");
     if (Jsi_ObjArraySizer(interp, obj, n) <= 0)
         return JSI_ERROR;
     if (value->vt == JSI_VT_OBJECT)
-- 
2.43.0


From ccaf55a13aa64cc616710c2597be536c237ce69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 026/179] fix: arguments of array callbacks hold counted
 references

---
 src/jsiArray.c | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 0c686b5..980182c 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -345,6 +345,18 @@ bail:
     return rc;
 }
 
+/* Arguments for a callback: values of its own, so it can not modify those in the array. */
+static Jsi_Value *jsi_ArrayCallArgs(Jsi_Interp *interp, Jsi_Value **vals, int cnt, int argc) {
+    int i;
+    for (i = 0; i < cnt; i++)
+        Jsi_IncrRefCount(interp, vals[i]);
+    Jsi_Value *vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vals, argc, 1));
+    Jsi_IncrRefCount(interp, vpargs);
+    for (i = 0; i < cnt; i++)
+        Jsi_DecrRefCount(interp, vals[i]);
+    return vpargs;
+}
+
 static Jsi_RC jsi_ArrayMapCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,Jsi_Value **ret, Jsi_Func *funcPtr) {
     if (_this->vt != JSI_VT_OBJECT || !Jsi_ObjIsArray(interp, _this->d.obj))
         return Jsi_LogError("expected array object");
@@ -385,11 +397,8 @@ static Jsi_RC jsi_ArrayMapCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         vobjs[0] = obj->arr[i];
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
-        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 1));
-        Jsi_IncrRefCount(interp, vpargs);
-        Jsi_IncrRefCount(interp, vobjs[2]);
+        vpargs = jsi_ArrayCallArgs(interp, vobjs, 3, maa);
         nobj->arr[i] = Jsi_ValueNew1(interp);
-        Jsi_DecrRefCount(interp, vobjs[2]);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, nobj->arr+i, sthis);
         Jsi_DecrRefCount(interp, vpargs);
     }
@@ -444,12 +453,9 @@ static Jsi_RC jsi_ArrayFilterCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         vobjs[0] = elem;
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
-        Jsi_IncrRefCount(interp, vobjs[2]);
-        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 1));
-        Jsi_IncrRefCount(interp, vpargs);
+        vpargs = jsi_ArrayCallArgs(interp, vobjs, 3, maa);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, sthis);
         Jsi_DecrRefCount(interp, vpargs);
-        Jsi_DecrRefCount(interp, vobjs[2]);
         fval = Jsi_ValueIsTrue(interp, nrPtr);
         if( JSI_OK!=rc ) {
             Jsi_DecrRefCount(interp, elem);
@@ -535,11 +541,8 @@ static Jsi_RC jsi_ArrayForeachCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         vobjs[0] = obj->arr[i];
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
-        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 1));
-        Jsi_IncrRefCount(interp, vpargs);
-        Jsi_IncrRefCount(interp, vobjs[2]);
+        vpargs = jsi_ArrayCallArgs(interp, vobjs, 3, maa);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, ret, sthis);
-        Jsi_DecrRefCount(interp, vobjs[2]);
         Jsi_DecrRefCount(interp, vpargs);
     }
     Jsi_DecrRefCount(interp, _this);
@@ -582,12 +585,9 @@ static Jsi_RC jsi_ArrayFindSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         vobjs[0] = obj->arr[i];
         vobjs[1] = (maa>1?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[2] = Jsi_ValueNewObj(interp, obj);
-        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 1));
-        Jsi_IncrRefCount(interp, vobjs[2]);
-        Jsi_IncrRefCount(interp, vpargs);
+        vpargs = jsi_ArrayCallArgs(interp, vobjs, 3, maa);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, sthis);
         Jsi_DecrRefCount(interp, vpargs);
-        Jsi_DecrRefCount(interp, vobjs[2]);
         if (rc != JSI_OK)
             break;
         fval = Jsi_ValueIsTrue(interp, nrPtr);
@@ -649,12 +649,9 @@ static Jsi_RC jsi_ArrayReduceSubCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Val
         vobjs[1] = obj->arr[i];
         vobjs[2] = (maa>2?Jsi_ValueNewNumber(interp, i):interp->NullValue);
         vobjs[3] = Jsi_ValueNewObj(interp, obj);
-        Jsi_IncrRefCount(interp, vobjs[3]);
-        vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, vobjs, maa, 1));
-        Jsi_IncrRefCount(interp, vpargs);
+        vpargs = jsi_ArrayCallArgs(interp, vobjs, 4, maa);
         rc = Jsi_FunctionInvoke(interp, func, vpargs, &nrPtr, _this);
         Jsi_DecrRefCount(interp, vpargs);
-        Jsi_DecrRefCount(interp, vobjs[3]);
         if (rc != JSI_OK)
             break;
         ini = nrPtr;
-- 
2.43.0


From c406ac02dbb8fa0de5eaf38c9b8c6ad7fb30360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 027/179] fix: parseInt of a string with a sign is a number

---
 src/jsiValue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index 026095f..74165f2 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -614,7 +614,7 @@ donum:
                 }
             } else {
                 a = (Jsi_Number)strtol(sptr, &endPtr, 0);
-                if (!isdigit(*sptr))
+                if (endPtr == sptr)
                     a = interp->NaNValue->d.num;
             }
             break;
-- 
2.43.0


From 4a661137939e288b5d3e3c147cd1257bc70dde0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 028/179] fix: an error while sort removes duplicates does not
 drop the elements not compared yet

---
 src/jsiArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 980182c..df69034 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -1110,7 +1110,7 @@ static Jsi_RC jsi_ArraySortCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                 diff = SortSubCmd(&obj->arr[n], &obj->arr[i], &si);
 #endif
 #endif
-            if (diff) {
+            if (diff || si.rc != JSI_OK) {
                 n++;
                 if (n!=i) {
                     obj->arr[n] = obj->arr[i];
-- 
2.43.0


From 5485b5b637e03c84a262da31712de807a14d66c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 029/179] fix: an operand that is a variable is read before the
 operands to its right are evaluated

---
 src/jsiCode.c | 25 +++++++++++++++++++++++--
 src/parser.y  | 49 ++++++++++++++++++++++++++-----------------------
 2 files changed, 49 insertions(+), 25 deletions(-)

diff --git a/src/jsiCode.c b/src/jsiCode.c
index b20a9db..441e6fd 100644
--- a/src/jsiCode.c
+++ b/src/jsiCode.c
@@ -254,6 +254,27 @@ static Jsi_OpCodes *code_push_this(jsi_Pstate *p, jsi_Pline *line) { JSI_NEW_COD
 static Jsi_OpCodes *code_push_top() { JSI_NEW_CODES(0,OP_PUSHTOP, 0); }
 static Jsi_OpCodes *code_push_top2() { JSI_NEW_CODES(0,OP_PUSHTOP2, 0); }
 static Jsi_OpCodes *code_unref() { JSI_NEW_CODES(0,OP_UNREF, 0); }
+
+/* An operand that is a variable is read before the operands to its right are evaluated. */
+static Jsi_OpCodes *codes_operand(Jsi_OpCodes *a) {
+    int cnt = a->expr_counter, flag = a->lvalue_flag;
+    if (a->code_len == 1 && a->codes[0].op != OP_PUSHVAR)
+        return a;
+    a = codes_join(a, code_unref());
+    a->expr_counter = cnt;
+    a->lvalue_flag = flag;
+    return a;
+}
+static Jsi_OpCodes *codes_operands(Jsi_OpCodes *a, Jsi_OpCodes *b, Jsi_OpCodes *opr) {
+    int i;
+    for (i=0; i<b->code_len; i++)
+        switch (b->codes[i].op) {
+            case OP_ASSIGN: case OP_INC: case OP_DEC: case OP_FCALL: case OP_NEWFCALL: case OP_EVAL: case OP_SUBSCRIPT:
+                return codes_join3(codes_operand(a), b, opr);
+            default: break;
+        }
+    return codes_join3(a, b, opr);
+}
 static Jsi_OpCodes *code_push_args() { JSI_NEW_CODES(0,OP_PUSHARG, 0); }
 static Jsi_OpCodes *code_push_func_sub(jsi_Pstate *p, jsi_Pline *line, Jsi_Func *fun) { p->funcDefs++; JSI_NEW_CODESLN(0,OP_PUSHFUN, fun); }
 static Jsi_OpCodes *code_push_func(jsi_Pstate *p, jsi_Pline *line, Jsi_Func *fun) {
@@ -583,10 +604,10 @@ static Jsi_OpCodes *opassign(jsi_Pstate *pstate, jsi_Pline *line, Jsi_OpCodes *l
     Jsi_OpCodes *ret;
     if ((lval)->lvalue_flag&1) {
         ret = codes_join3(lval, 
-                             codes_join3(code_push_top(), oprand, op),
+                             codes_join4(code_push_top(), code_unref(), oprand, op),
                              code_assign(pstate, line, 1));
     } else {
-        ret = codes_join3(lval,
+        ret = codes_join3(codes_operand(lval),
                              codes_join4(code_push_top2(), code_subscript(pstate, line, 1), oprand, op),
                              code_assign(pstate, line, 2));
     }
diff --git a/src/parser.y b/src/parser.y
index 6afaba5..642213b 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -605,12 +605,12 @@ expr:
     | '~' expr              { $$ = codes_join($2, code_bnot()); }
     | '!' expr              { $$ = codes_join($2, code_not()); }
     | VOID expr             { $$ = codes_join3($2, code_pop(1), code_push_undef()); }
-    | expr '*' expr         { $$ = codes_join3($1, $3, code_mul()); }
-    | expr '/' expr         { $$ = codes_join3($1, $3, code_div()); }
-    | expr '%' expr         { $$ = codes_join3($1, $3, code_mod()); }
-    | expr '+' expr         { $$ = codes_join3($1, $3, code_add()); }
-    | expr '-' expr         { $$ = codes_join3($1, $3, code_sub()); }
-    | expr IN expr          { $$ = codes_join3($1, $3, code_in()); }
+    | expr '*' expr         { $$ = codes_operands($1, $3, code_mul()); }
+    | expr '/' expr         { $$ = codes_operands($1, $3, code_div()); }
+    | expr '%' expr         { $$ = codes_operands($1, $3, code_mod()); }
+    | expr '+' expr         { $$ = codes_operands($1, $3, code_add()); }
+    | expr '-' expr         { $$ = codes_operands($1, $3, code_sub()); }
+    | expr IN expr          { $$ = codes_operands($1, $3, code_in()); }
     | lvalue INC            {
         if (($1)->lvalue_flag&2) $$ = codes_join3($1, code_subscript(pstate, &@1, 0), code_inc(pstate, &@1, 1));
         else $$ = codes_join($1, code_inc(pstate, &@1, 1));
@@ -650,21 +650,24 @@ expr:
         Jsi_OpCodes *expr2 = codes_join(code_pop(1), $3);
         $$ = codes_join3($1, code_jtrue_np(expr2->code_len + 1), expr2);
     }
-    | expr '<' expr         { $$ = codes_join3($1, $3, code_less()); }
-    | expr '>' expr         { $$ = codes_join3($1, $3, code_greater()); }
-    | expr LEQ expr         { $$ = codes_join3($1, $3, code_lessequ()); }
-    | expr GEQ expr         { $$ = codes_join3($1, $3, code_greaterequ()); }
-    | expr EQU expr         { $$ = codes_join3($1, $3, code_equal()); }
-    | expr NEQ expr         { $$ = codes_join3($1, $3, code_notequal()); }
-    | expr EEQU expr        { $$ = codes_join3($1, $3, code_eequ());    }
-    | expr NNEQ expr        { $$ = codes_join3($1, $3, code_nneq()); }
-    | expr '&' expr         { $$ = codes_join3($1, $3, code_band()); }
-    | expr '|' expr         { $$ = codes_join3($1, $3, code_bor()); }
-    | expr '^' expr         { $$ = codes_join3($1, $3, code_bxor()); }
-    | expr LSHF expr        { $$ = codes_join3($1, $3, code_shf(0)); }
-    | expr RSHF expr        { $$ = codes_join3($1, $3, code_shf(1)); }
-    | expr URSHF expr       { $$ = codes_join3($1, $3, code_shf(2)); }
-    | lvalue '=' expr       { $$ = codes_join3($1, $3, code_assign(pstate, &@1, ($1)->lvalue_flag)); }
+    | expr '<' expr         { $$ = codes_operands($1, $3, code_less()); }
+    | expr '>' expr         { $$ = codes_operands($1, $3, code_greater()); }
+    | expr LEQ expr         { $$ = codes_operands($1, $3, code_lessequ()); }
+    | expr GEQ expr         { $$ = codes_operands($1, $3, code_greaterequ()); }
+    | expr EQU expr         { $$ = codes_operands($1, $3, code_equal()); }
+    | expr NEQ expr         { $$ = codes_operands($1, $3, code_notequal()); }
+    | expr EEQU expr        { $$ = codes_operands($1, $3, code_eequ());    }
+    | expr NNEQ expr        { $$ = codes_operands($1, $3, code_nneq()); }
+    | expr '&' expr         { $$ = codes_operands($1, $3, code_band()); }
+    | expr '|' expr         { $$ = codes_operands($1, $3, code_bor()); }
+    | expr '^' expr         { $$ = codes_operands($1, $3, code_bxor()); }
+    | expr LSHF expr        { $$ = codes_operands($1, $3, code_shf(0)); }
+    | expr RSHF expr        { $$ = codes_operands($1, $3, code_shf(1)); }
+    | expr URSHF expr       { $$ = codes_operands($1, $3, code_shf(2)); }
+    | lvalue '=' expr       {
+        Jsi_OpCodes *opr = code_assign(pstate, &@1, ($1)->lvalue_flag);
+        $$ = (($1)->lvalue_flag&2 ? codes_operands($1, $3, opr) : codes_join3($1, $3, opr));
+    }
     | lvalue ADDAS expr     { $$ = opassign(pstate, &@1, $1, $3, code_add()); }
     | lvalue MNSAS expr     { $$ = opassign(pstate, &@1, $1, $3, code_sub()); }
     | lvalue MULAS expr     { $$ = opassign(pstate, &@1, $1, $3, code_mul()); }
@@ -816,7 +819,7 @@ exprlist:
     expr %prec ARGCOMMA { $$ = $1; ($$)->expr_counter = 1; }
     | exprlist ',' expr %prec ARGCOMMA { 
         int exprcnt = ($1)->expr_counter + 1;
-        $$ = codes_join($1, $3);
+        $$ = codes_join(codes_operand($1), $3);
         ($$)->expr_counter = exprcnt;
     }
     | exprlist ',' ','  { 
@@ -875,7 +878,7 @@ items:
     | item  { $$ = $1; ($$)->expr_counter = 1; }
     | items ',' itemident {
         int cnt = ($1)->expr_counter + 1;
-        $$ = codes_join($1, $3);
+        $$ = codes_join(codes_operand($1), $3);
         ($$)->expr_counter = cnt;
     }
     | items ',' {
-- 
2.43.0


From 48aac86f993e156ba344cc89d14ecec0246e2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 030/179] fix: bitwise and, or and xor of negative numbers

---
 src/jsiEval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 8d7565f..441312c 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -229,7 +229,7 @@ static void jsiVarDeref(Jsi_Interp* interp, int n) {
 }
 
 #define common_bitwise_opr(opr) {                       \
-    Jsi_UWide a, b;                                       \
+    Jsi_Wide a, b;                                        \
     jsiVarDeref(interp,2);                                     \
     Jsi_ValueToNumber(interp, _jsi_TOP);     \
     Jsi_ValueToNumber(interp, _jsi_TOQ);     \
-- 
2.43.0


From 9493ea27f0f65b309411d69fedece81a3ee552ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 031/179] fix: != of booleans and == of numbers with strings
 compare values exactly

---
 src/jsiEval.c  | 2 +-
 src/jsiValue.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 441312c..5caeb4e 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1595,7 +1595,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
             case OP_NOTEQUAL: {
                 jsiVarDeref(interp,2);
                 int r = Jsi_ValueCmp(interp, _jsi_TOP, _jsi_TOQ, 0);
-                r = (ip->op == OP_EQUAL ? !r : r);
+                r = (ip->op == OP_EQUAL ? !r : !!r);
                 jsiClearStack(interp,2);
                 Jsi_ValueMakeBool(interp, &_jsi_TOQ, r);
                 jsiPop(interp,1);
diff --git a/src/jsiValue.c b/src/jsiValue.c
index 74165f2..e94a169 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -918,7 +918,7 @@ int Jsi_ValueCmp(Jsi_Interp *interp, Jsi_Value *v1, Jsi_Value* v2, int flags)
             Jsi_Number n1, n2;
             Jsi_ValueToNumberInt(interp, v1, 0, &n1);
             Jsi_ValueToNumberInt(interp, v2, 0, &n2);
-            r = (n2 - n1);
+            r = (n2 == n1 ? 0 : (n2 < n1 ? -1 : 1));
         }
     } else {
         switch (v1->vt) {
-- 
2.43.0


From b9f6eb8cecb7269147198e2faf58d0a5ac938bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:25 +0000
Subject: [PATCH 032/179] fix: apply and bind do not share the array or bound
 values with the callee's parameters

---
 src/jsiProto.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index 23769ad..f713eae 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -289,8 +289,14 @@ static Jsi_RC jsi_FuncBindCall(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
             _this = nthis;
         if (fargc>1) {
             nargs = Jsi_ValueNewArray(interp, NULL, 0);
-            for (i=1; i<fargc; i++)
-                Jsi_ValueArrayPush(interp, nargs, Jsi_ValueArrayIndex(interp, fargs, i));
+            for (i=1; i<fargc; i++) {
+                Jsi_Value *barg = Jsi_ValueArrayIndex(interp, fargs, i);
+                if (barg) { // Copy, as the callee may assign to its parameter.
+                    barg = Jsi_ValueDup(interp, barg);
+                    Jsi_ValueArrayPush(interp, nargs, barg);
+                    Jsi_DecrRefCount(interp, barg);
+                }
+            }
             for (i=0; i<argc; i++)
                 Jsi_ValueArrayPush(interp, nargs, Jsi_ValueArrayIndex(interp, args, i));
             Jsi_IncrRefCount(interp, nargs);
@@ -472,11 +478,15 @@ Jsi_RC Jsi_FunctionApply(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             Jsi_LogError("second argument to Function.prototype.apply must be an array");
             goto done;
         }
+        /* args becomes the scope of the call, so must not be the array of the caller. */
+        Jsi_Obj *obj = fargs->d.obj;
+        Jsi_ObjListifyArray(interp, obj);
+        fargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, obj->arr, obj->arrCnt, 1));
     } else {
-        isalloc = 1;
         fargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewType(interp, JSI_OT_ARRAY));
-        Jsi_IncrRefCount(interp, fargs);
     }
+    isalloc = 1;
+    Jsi_IncrRefCount(interp, fargs);
     rc = jsi_FuncCallSub(interp, fargs, _this, ret, funcPtr, fthis, 0);
     
 done:
-- 
2.43.0


From e9922e050624d0df67399839d7b67d8e27d16354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 033/179] fix: functions called without arguments do not share
 their local variables

---
 src/jsiFunc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jsiFunc.c b/src/jsiFunc.c
index 85c3faf..993c8fe 100644
--- a/src/jsiFunc.c
+++ b/src/jsiFunc.c
@@ -782,10 +782,15 @@ static Jsi_RC jsi_FunctionInvoke(Jsi_Interp *interp, Jsi_Value *tocall, Jsi_Valu
     /* prepare args */
     if (args->vt != JSI_VT_OBJECT || !Jsi_ObjIsArray(interp, args->d.obj)) 
         return Jsi_LogError("argument must be an array");
+    /* args becomes the scope of the call, so calls without arguments may not share one. */
+    if (args == interp->nullFuncArg)
+        args = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, NULL, 0, 0));
+    Jsi_IncrRefCount(interp, args);
     /* new this */
     Jsi_Value *fthis = Jsi_ValueDup(interp, _this ? _this : tocall);
     Jsi_RC rc = jsi_FuncCallSub(interp, args, tocall, ret, funcPtr, fthis, 0);
     Jsi_DecrRefCount(interp, fthis);
+    Jsi_DecrRefCount(interp, args);
     return rc;
 }
 
-- 
2.43.0


From ff5e4baa6f05bfb208b628da92f22d49a95afd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 034/179] fix: an arrow function has its own scope and leaves
 that of the enclosing function alone

---
 src/parser.y | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser.y b/src/parser.y
index 642213b..8d20a29 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -580,9 +580,9 @@ argsa:
     | argsa ',' IDENTIFIER  { $$ = jsi_argInsert(pstate, $1, $3, NULL, &@1, 0); }
 ;
 
-arrowargs:
-    IDENTIFIER                      { $$ = jsi_argInsert(pstate, NULL, $1, NULL, &@1, 0); }
-    | '(' IDENTIFIER ',' argsa ')'  { $$ = jsi_argInsert(pstate, $4, $2, NULL, &@1, 1); }
+arrowargs: /* Pushes the scope for the body. */
+    IDENTIFIER                      { $$ = jsi_ArgsOptAdd(pstate, jsi_argInsert(pstate, NULL, $1, NULL, &@1, 0)); }
+    | '(' IDENTIFIER ',' argsa ')'  { $$ = jsi_ArgsOptAdd(pstate, jsi_argInsert(pstate, $4, $2, NULL, &@1, 1)); }
     | '('  ')'            { $$ = jsi_ArgsOptAdd(pstate, jsi_ScopeStrsNew()); }
 ;
 
@@ -633,12 +633,10 @@ expr:
     }
     | '(' expr ')'          { $$ = $2; }
     | arrowargs ARROW expr %prec MIN_PRI {
-        jsi_PstatePush(pstate);
         $$ = code_push_func(pstate,  &@1, jsi_FuncMake(pstate, $1, codes_join($3, code_ret(pstate, &@3, 1)), &@1, NULL, 1)); 
         jsi_PstatePop(pstate);
     }
     | arrowargs ARROW func_statement_block {
-        jsi_PstatePush(pstate);
         $$ = code_push_func(pstate,  &@1, jsi_FuncMake(pstate, $1, $3, &@1, NULL, 1));
         jsi_PstatePop(pstate);
     }
-- 
2.43.0


From ab01c224630f395d959c4cfc4eb055bc83f775d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 035/179] fix: this of an arrow function call is not left to
 the next call

---
 src/jsiEval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 5caeb4e..f7bb03f 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -835,6 +835,7 @@ static Jsi_RC jsiEvalFunction(jsi_Pstate *ps, jsi_OpCode *ip, int discard) {
     if (isArrow) {
         _this = interp->framePtr->inthis;
         Jsi_IncrRefCount(interp, _this);
+        jsiClearThis(interp, tocall_index);
     } else if (_this->vt != JSI_VT_OBJECT) {
         _this = Jsi_ValueDup(interp, interp->Top_object);
     } else {
-- 
2.43.0


From b4624e43f27fd95da2fc16ef2ed8d3b35cbe6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 036/179] fix: a bound function can be called by apply or as a
 callback first

---
 src/jsiProto.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiProto.c b/src/jsiProto.c
index f713eae..2f5394f 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -324,6 +324,7 @@ static Jsi_RC jsi_FunctionBindCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     Jsi_ObjDecrRefCount(interp, obj);
     fo->bindArgs = Jsi_ValueDup(interp, args);
     fo->bindFunc = tocall;
+    fo->func->fobj = fo; // Backlink, as it may also be called by apply or as a callback.
     Jsi_IncrRefCount(interp, tocall);
     if (fstatic->callback == jsi_NoOpCmd)
         obj->isNoOp = 1;
-- 
2.43.0


From 4831f0b783873127bcc46578c9590fbcada01a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 037/179] fix: a plain call does not see the this of a call
 abandoned by an exception

---
 src/jsiEval.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index f7bb03f..6b9844a 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1405,7 +1405,8 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                         }
                         rc = Jsi_ValueToObject(interp, v);
                     }
-                }
+                } else if (fp->Sp>0) // Not the "this" left by a call whose arguments threw.
+                    jsiClearThis(interp, fp->Sp-1);
                 break;
             }
             case OP_LOCAL: {
-- 
2.43.0


From 635b6108a2624650cc984526a54bc63fd9a40b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 038/179] fix: update honours maxEvents and measures minTime
 across seconds

---
 src/jsiCmds.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 58061ec..d8ef8b9 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -385,7 +385,7 @@ A positive mintime will result in sleeps between event checks.")
 static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    int maxEvents = -1, hasopts = 0;
+    int hasopts = 0;
     int cnt = 0, lcnt = 0;
     Jsi_RC rc = JSI_OK;
     Jsi_Value *opts = Jsi_ValueArrayIndex(interp, args, 0);
@@ -394,6 +394,7 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     jsiGetTime(&start_sec, &start_ms);
     jsiUpdateData udata = {};
     udata.sleep = 1;
+    udata.maxEvents = -1;
        
     if (opts != NULL) {
         Jsi_Number dms = 0;
@@ -410,9 +411,11 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
   
     while (1) {
         long long diftime;
+        if (udata.maxEvents>=0 && cnt>=udata.maxEvents)
+            break;
         if (!interp->EventHdlId && (interp->interpStrEvents || Jsi_DSLength(&interp->interpEvalQ)))
             jsi_AddEventHandler(interp); 
-        int ne = Jsi_EventProcess(interp, maxEvents);
+        int ne = Jsi_EventProcess(interp, udata.maxEvents<0 ? -1 : udata.maxEvents-cnt);
         if (ne<0)
             break;
         cnt += ne;
@@ -424,7 +427,7 @@ static Jsi_RC SysUpdateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         if (cur_sec == start_sec)
             diftime = (long long)(cur_ms-start_ms);
         else
-            diftime = (cur_sec-start_sec)*1000LL + cur_ms + (1000-start_ms);
+            diftime = (cur_sec-start_sec)*1000LL + cur_ms - start_ms;
         if (udata.minTime>0 && diftime >= (long long)udata.minTime)
             break;
         if (udata.maxPasses && ++lcnt >= udata.maxPasses)
-- 
2.43.0


From 41c972ca670b8353b6dd014026f2df2150c8638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 039/179] fix: a timer due on a whole second does not fire
 early

---
 src/jsiCmds.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index d8ef8b9..178ba90 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -270,8 +270,7 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             break;
         case JSI_EVENT_TIMER:
             if (cur_sec <= evPtr->when_sec && (cur_sec != evPtr->when_sec || cur_ms < evPtr-> when_ms)) {
-                if (evPtr->when_sec && evPtr->when_ms)
-                    continue;
+                continue;
             }
             cnt++;
             evPtr->count++;
-- 
2.43.0


From 660155fd8b9e9c05b3084dceb13736d972864790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 040/179] fix: event callbacks may clear and add events or
 throw; busy events are not counted

---
 src/jsiCmds.c | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 178ba90..41471f6 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -242,9 +242,12 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
     Jsi_Event *evPtr;
     Jsi_HashEntry *hPtr;
     Jsi_HashSearch search;
-    Jsi_Value* nret = NULL;
+    Jsi_Value* nret = NULL, *funcVal;
     Jsi_RC rc;
     int cnt = 0, newIdx = interp->eventIdx;
+    int tryDepth = interp->framePtr->tryDepth;
+    uint i, num = 0, max = Jsi_HashSize(interp->eventTbl);
+    uintptr_t id, *ids; /* Callbacks can add and delete events, so iterate over ids. */
     long cur_sec, cur_ms;
     jsiGetTime(&cur_sec, &cur_ms);
     Jsi_Value *vpargs = NULL;
@@ -252,14 +255,20 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
     /*if (Jsi_MutexLock(interp, interp->Mutex) != JSI_OK)
         return JSI_ERROR;*/
 
+    ids = (uintptr_t*)Jsi_Malloc((max+1)*sizeof(*ids));
     for (hPtr = Jsi_HashSearchFirst(interp->eventTbl, &search);
-            hPtr != NULL; hPtr = Jsi_HashSearchNext(&search)) {
+            hPtr != NULL && num<max; hPtr = Jsi_HashSearchNext(&search))
+        ids[num++] = (uintptr_t)Jsi_HashKeyGet(hPtr);
 
-        if (!(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)))
+    for (i=0; i<num; i++) {
+        id = ids[i];
+        if (!(hPtr = Jsi_HashEntryFind(interp->eventTbl, (void*)id)) || !(evPtr = (Jsi_Event*)Jsi_HashValueGet(hPtr)))
             continue;
         SIGASSERT(evPtr,EVENT);
         if ((int)evPtr->id > newIdx) /* Avoid infinite loop of event creating events. */
             continue;
+        if (evPtr->busy)
+            continue;
         switch (evPtr->evType) {
         case JSI_EVENT_SIGNAL:
 #ifndef JSI_OMIT_SIGNAL   /* TODO: win signals? */
@@ -280,8 +289,6 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
         default:
             assert(0);
         }
-        if (evPtr->busy)
-            continue;
         evPtr->busy = 1;
         if (evPtr->handler) {
             rc = evPtr->handler(interp, evPtr->data);
@@ -292,9 +299,17 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             }
             if (!nret)
                 nret = Jsi_ValueNew1(interp);
-            rc = Jsi_FunctionInvoke(interp, evPtr->funcVal, vpargs, &nret, NULL);
+            funcVal = evPtr->funcVal;
+            interp->framePtr->tryDepth = 0; /* An enclosing try is not there to catch the errors of callbacks. */
+            Jsi_IncrRefCount(interp, funcVal);
+            rc = Jsi_FunctionInvoke(interp, funcVal, vpargs, &nret, NULL);
+            Jsi_DecrRefCount(interp, funcVal);
         }
-        evPtr->busy = 0;
+        hPtr = Jsi_HashEntryFind(interp->eventTbl, (void*)id);
+        if (!hPtr || Jsi_HashValueGet(hPtr) != evPtr) /* Deleted by the callback. */
+            evPtr = NULL;
+        else
+            evPtr->busy = 0;
         if (interp->deleting) {
             cnt = -1;
             goto bail;
@@ -305,8 +320,12 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
                 goto bail;
             }
             Jsi_LogError("event function call failure");
+            if (interp->ps && interp->ps->last_exception)
+                Jsi_ValueReset(interp, &interp->ps->last_exception);
         }
-        if (evPtr->once) {
+        interp->framePtr->tryDepth = tryDepth;
+        if (!evPtr) {
+        } else if (evPtr->once) {
             Jsi_EventFree(interp, evPtr);
         } else {
             evPtr->when_sec = cur_sec + evPtr->initialms / 1000;
@@ -320,6 +339,8 @@ int Jsi_EventProcess(Jsi_Interp *interp, int maxEvents)
             break;
     }
 bail:
+    interp->framePtr->tryDepth = tryDepth;
+    Jsi_Free(ids);
     if (vpargs)
         Jsi_DecrRefCount(interp, vpargs);
     if (nret)
-- 
2.43.0


From 085cd2f2d6abc6386567936ae269bb7463d361b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:20 +0000
Subject: [PATCH 041/179] fix: one-word tree keys that agree in their low 32
 bits are different keys

---
 src/jsiTree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index ba250f7..b40b2c0 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -270,7 +270,7 @@ static int StringCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
 
 static int OneWordCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
 {
-    return ((uintptr_t )key1 - (uintptr_t)key2);
+    return (key1 == key2 ? 0 : ((uintptr_t)key1 > (uintptr_t)key2 ? 1 : -1));
 }
 
 static int TreeArrayCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
-- 
2.43.0


From 55b10ebb7f1b6d476e0a1265bc8f8b0b228370b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:20 +0000
Subject: [PATCH 042/179] fix: deleting an inner node of a tree with struct
 keys removes that node, and entries of other keys stay valid

---
 src/jsiTree.c | 34 +++-------------------------------
 1 file changed, 3 insertions(+), 31 deletions(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index b40b2c0..261b153 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -592,39 +592,11 @@ int Jsi_TreeEntryDelete (Jsi_TreeEntry *entryPtr)
     /*dumpTree(treePtr);*/
     if (treePtr->opts.lockTreeProc && (*treePtr->opts.lockTreeProc)(treePtr, 1) != JSI_OK)
         return -1;
+    locked = 1;
     entryPtr->treePtr->epoch++;
     if (n->left != NULL && n->right != NULL) {
-        /* swap key/values delete pred instead */
-        Jsi_TreeEntry* pred = maximum_node(n->left);
-        switch (treePtr->keyType) {
-        case JSI_KEYS_STRINGKEY:
-        case JSI_KEYS_ONEWORD: {
-            void *nv = n->value;
-            n->value = pred->value;
-            pred->value = nv;
-            nv = n->key.oneWordValue;
-            n->key.oneWordValue = pred->key.oneWordValue;
-            pred->key.oneWordValue = nv;
-            n = pred;
-            break;
-        }
-        case JSI_KEYS_STRING:
-            SwapNodes(n,pred);
-            break;
-        default: { // Struct keys have the same length so we swap bytes.
-            uint i;
-            void *nv = n->value;
-            n->value = pred->value;
-            pred->value = nv;
-            char ct, *cs = (char*)(n->key.string), *cd = (char*)(pred->key.string);
-            for (i=0; i<treePtr->keyType; i++, cs++, cd++) {
-                ct = *cd;
-                *cd = *cs;
-                *cs = ct;
-            }
-        }
-                
-        }
+        /* swap places with pred, so that entries stay where they are. */
+        SwapNodes(n, maximum_node(n->left));
     }
     delete_one_child(n);
     cnt++;
-- 
2.43.0


From 0b9a0e3750351462e9b8964b935a7d9e134e25e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:20 +0000
Subject: [PATCH 043/179] fix: a tree search keeps its pending nodes when it
 outgrows its static space

---
 src/jsiTree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 261b153..a1c527e 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -617,8 +617,10 @@ static void searchSpace(Jsi_TreeSearch *searchPtr, int n)
     if ((searchPtr->top+n) >= searchPtr->max) {
         int i, cnt = (searchPtr->max *= 2);
         if (searchPtr->Ptrs == searchPtr->staticPtrs)
+        {
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Calloc(cnt, sizeof(Jsi_TreeEntry*));
-        else
+            memcpy(searchPtr->Ptrs, searchPtr->staticPtrs, searchPtr->top*sizeof(Jsi_TreeEntry*));
+        } else
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Realloc(searchPtr->Ptrs, cnt* sizeof(Jsi_TreeEntry*));
         for (i=0; i<cnt; i++)
             SIGINIT((searchPtr->Ptrs[i]),TREEENTRY);
-- 
2.43.0


From a07b84e6b200b6c1e7f93b5a28f91c0b7c204c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:20 +0000
Subject: [PATCH 044/179] fix: preorder tree search visits each node once

---
 src/jsi.h     | 2 +-
 src/jsiTree.c | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jsi.h b/src/jsi.h
index bfe25a0..ccc8419 100644
--- a/src/jsi.h
+++ b/src/jsi.h
@@ -181,7 +181,7 @@ typedef enum {
     
     JSI_TREE_ORDER_IN=0, JSI_TREE_ORDER_PRE=0x10, JSI_TREE_ORDER_POST=0x20, // Jsi_TreeSearchFirst()
     JSI_TREE_ORDER_LEVEL=0x30, JSI_TREE_ORDER_MASK=0x30,
-    JSI_TREE_SEARCH_KEY=0x10, // Use key even if NULL
+    JSI_TREE_SEARCH_KEY=0x40, // Use key even if NULL
     JSI_TREE_USERFLAG_MASK=0x7f,
     JSI_LIST_REVERSE=0x8, // Jsi_ListSearchFirst
     JSI_MUTEX_RECURSIVE=2,
diff --git a/src/jsiTree.c b/src/jsiTree.c
index a1c527e..defa863 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -682,10 +682,9 @@ static Jsi_TreeEntry *searchAdd(Jsi_TreeSearch *searchPtr,  Jsi_TreeEntry *hPtr)
                 if (searchPtr->top<=0) return NULL;
                 hPtr = searchPtr->Ptrs[--searchPtr->top];
             }
-            searchPtr->Ptrs[searchPtr->top++] = hPtr;
             if (hPtr->left) searchPtr->Ptrs[searchPtr->top++] = hPtr->left;
             if (hPtr->right) searchPtr->Ptrs[searchPtr->top++] = hPtr->right;
-            break;
+            return hPtr;
             
         case JSI_TREE_ORDER_IN:
             while (1) {
@@ -710,7 +709,7 @@ static Jsi_TreeEntry *searchAdd(Jsi_TreeSearch *searchPtr,  Jsi_TreeEntry *hPtr)
                 Jsi_LogError("Invalid order: %d", order);    
             }    
     }
-    return searchPtr->Ptrs[--searchPtr->top];
+    return NULL;
 }
 
 Jsi_TreeEntry *Jsi_TreeSearchFirst (Jsi_Tree *treePtr, Jsi_TreeSearch *searchPtr, int flags, const void *startKey)
-- 
2.43.0


From ff2c55a7c21dfc7f197b4b7f32831ebe2179b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 045/179] fix: clearing a tree releases every node without
 rebalancing

---
 src/jsiTree.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index defa863..0026b43 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -501,8 +501,12 @@ void Jsi_TreeClear (Jsi_Tree *treePtr)
     SIGASSERTV(treePtr, TREE);
     if (treePtr->opts.lockTreeProc && (*treePtr->opts.lockTreeProc)(treePtr, 1) != JSI_OK)
         return;
+    int destroyed = treePtr->flags.destroyed;
+    treePtr->flags.destroyed = 1; // No rebalancing while the nodes are released.
     destroy_node(treePtr->opts.interp, treePtr->root);
     treePtr->root = NULL;
+    treePtr->flags.destroyed = destroyed;
+    treePtr->epoch++;
     if (treePtr->opts.lockTreeProc)
         (*treePtr->opts.lockTreeProc)(treePtr, 0);
 }
@@ -585,6 +589,7 @@ int Jsi_TreeEntryDelete (Jsi_TreeEntry *entryPtr)
     Jsi_TreeEntry* n = entryPtr;
     Jsi_Tree* treePtr = n->treePtr;
 
+    bool locked = 0;
     if (treePtr->flags.destroyed  || treePtr->flags.nonredblack == 1 /* || entryPtr->f.bits.deletesub */) {
         goto dodel;
     }
@@ -607,7 +612,7 @@ dodel:
     if (treePtr->opts.freeTreeProc && n && n->value)
         (treePtr->opts.freeTreeProc)(treePtr->opts.interp, n, n->value);
     Jsi_Free(n);
-    if (treePtr->opts.lockTreeProc)
+    if (locked && treePtr->opts.lockTreeProc)
         (*treePtr->opts.lockTreeProc)(treePtr, 0);
     return cnt;
 }
-- 
2.43.0


From 30d389ee8cf0793fb15322bc909f8763f8cb403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 046/179] fix: hash tables of string keys find and delete
 entries after being rebuilt

---
 src/jsiHash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index 6f09d95..e3221d9 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -371,7 +371,7 @@ RebuildTable(Jsi_Hash *tablePtr)
     tablePtr->mask = tablePtr->numBuckets - 1;
 
  
-    if (tablePtr->keyType == JSI_KEYS_ONEWORD) {
+    if (tablePtr->keyType == JSI_KEYS_ONEWORD || tablePtr->keyType == JSI_KEYS_STRINGKEY) {
 
         for (oldChainPtr = oldBuckets; oldChainPtr < endPtr; oldChainPtr++) {
             for (hPtr = *oldChainPtr; hPtr != NULL; hPtr = nextPtr) {
@@ -459,7 +459,7 @@ Jsi_HashEntryDelete(Jsi_HashEntry *entryPtr)
 #endif
     if (tablePtr->opts.lockHashProc && (*tablePtr->opts.lockHashProc)(tablePtr, 1) != JSI_OK)
         return 0;
-    if (tablePtr->keyType == JSI_KEYS_ONEWORD) {
+    if (tablePtr->keyType == JSI_KEYS_ONEWORD || tablePtr->keyType == JSI_KEYS_STRINGKEY) {
         hindex = RANDOM_INDEX(tablePtr, (const void *)entryPtr->hval);
     } else {
         hindex = (entryPtr->hval & tablePtr->mask);
-- 
2.43.0


From 520fbc0d0296bea3159c70da079fc0dc70f7d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 047/179] fix: a cleared hash table is empty and usable

---
 src/jsiHash.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index e3221d9..5effbd2 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -514,6 +514,13 @@ Jsi_HashClear(Jsi_Hash *tablePtr)
     if (tablePtr->buckets != tablePtr->staticBuckets) {
         Jsi_Free(tablePtr->buckets);
     }
+    memset(tablePtr->staticBuckets, 0, sizeof(tablePtr->staticBuckets));
+    tablePtr->buckets = tablePtr->staticBuckets;
+    tablePtr->numBuckets = JSI_SMALL_HASH_TABLE;
+    tablePtr->rebuildSize = JSI_SMALL_HASH_TABLE * REBUILD_MULTIPLIER;
+    tablePtr->downShift = DOWNSHIFT_START;
+    tablePtr->mask = (jsi_Hash)(tablePtr->numBuckets - 1);
+    tablePtr->numEntries = 0;
     if (tablePtr->opts.lockHashProc)
         (*tablePtr->opts.lockHashProc)(tablePtr, 0);
 }
-- 
2.43.0


From cd8f604fb5673195c20ca31e648588e89b84a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 048/179] fix: popping, deleting and clearing list entries
 keeps the list linked

---
 src/jsiUtils.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index bceb1c4..fe1107a 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1510,8 +1510,7 @@ void Jsi_ListClear(Jsi_List *list) {
     Jsi_ListEntry *l;
     while (list->head) {
         l = list->head;
-        list->head = list->head->next;
-        l->next = l->prev = NULL;
+        Jsi_ListPop(list, l);
         if (list->opts.freeListProc && l->value)
             (list->opts.freeListProc)(list->opts.interp, l, l->value);
         Jsi_ListEntryDelete(l);
@@ -1565,8 +1564,10 @@ Jsi_ListEntry* Jsi_ListPop(Jsi_List *list, Jsi_ListEntry *item)
     if (item == list->head) {
         if (list->head == list->tail)
             list->head = list->tail = NULL;
-        else
+        else {
             list->head = list->head->next;
+            list->head->prev = NULL;
+        }
     }
     else if (item == list->tail) {
         list->tail = list->tail->prev;
@@ -1578,6 +1579,7 @@ Jsi_ListEntry* Jsi_ListPop(Jsi_List *list, Jsi_ListEntry *item)
     }
     list->numEntries--;
     item->next = item->prev = NULL;
+    item->list = NULL;
     return item;
 }
 
@@ -1594,7 +1596,7 @@ Jsi_ListEntry *Jsi_ListEntryNew(Jsi_List* list, const void *value, Jsi_ListEntry
 
 int Jsi_ListEntryDelete(Jsi_ListEntry *l) {
     SIGASSERT(l, LISTENTRY);
-    if (l->next || l->prev)
+    if (l->list && (l->next || l->prev || l->list->head == l))
         Jsi_ListPop(l->list, l);
     Jsi_Free(l);
     return 1;
-- 
2.43.0


From 85ba84e2ab6ca8f616ffb8c81d56fffabd7eef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 049/179] fix: Jsi_DSPrintf keeps length and text when output
 outgrows the buffer; long initial values are accounted for

---
 src/jsiDString.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index 7335fe7..4950846 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -38,8 +38,10 @@ static void jsi_DsDoInit(Jsi_DString *dsPtr) {
         if ((dsPtr->len = Jsi_Strlen(dsPtr->strA))<dsPtr->spaceAvl) {
             Jsi_Strcpy(dsPtr->Str, dsPtr->strA);
             dsPtr->strA = NULL;
-        } else
+        } else {
             dsPtr->strA = Jsi_Strdup(dsPtr->strA);
+            dsPtr->spaceAvl = dsPtr->len;
+        }
     } else 
         dsPtr->len = Jsi_Strlen(dsPtr->Str);
 }
@@ -72,7 +74,8 @@ void Jsi_DSInit(Jsi_DString *dsPtr)
 void
 Jsi_DSFree(Jsi_DString *dsPtr)
 {
-    if (dsPtr->spaceAvl == 0) return;
+    if (dsPtr->spaceAvl == 0)
+        dsPtr->strA = NULL;     // Not allocated yet.
     jsi_DsCheckInit(dsPtr);
     if (dsPtr->strA)
         Jsi_Free((char*)dsPtr->strA);
@@ -157,8 +160,11 @@ Jsi_DSPrintf(Jsi_DString *dsPtr, const char *fmt, ...)
         bsiz = avail;
         needAppend = 0;
     }
+    va_list argList2;
     va_start(argList, fmt);
-    n = vsnprintf(bPtr, bsiz, fmt, argList);
+    va_copy(argList2, argList);
+    n = vsnprintf(bPtr, bsiz, fmt, argList2);
+    va_end(argList2);
     if ((n+len)>JSI_MAX_ALLOC_BUF) {
         LogError("vsnprintf error: rc=%d, len=%d", n, len);
         va_end(argList);
@@ -171,15 +177,17 @@ Jsi_DSPrintf(Jsi_DString *dsPtr, const char *fmt, ...)
             return jsi_DSValue(dsPtr);
         }
         dstr = jsi_DSValue(dsPtr);
-        m = vsnprintf(dstr+len, len+1, fmt, argList);
+        m = vsnprintf(dstr+len, n+1, fmt, argList);
         if (m != n) {
             LogError("len mismatch: %d != %d",  m, n);
             va_end(argList);
             return dstr;
         }
+        dsPtr->len = len+n;
     } else if (needAppend) {
         Jsi_DSAppendLen(dsPtr, buf, n);
-    }
+    } else
+        dsPtr->len = len+n;
     va_end(argList);
     return jsi_DSValue(dsPtr);
 }
-- 
2.43.0


From 214fd1939ba735c2926f86ba9575e2ad4ed18355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 050/179] fix: growing the space of a tree search does not
 write through its unused entries

---
 src/jsiTree.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 0026b43..afd29ca 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -620,16 +620,13 @@ dodel:
 static void searchSpace(Jsi_TreeSearch *searchPtr, int n)
 {
     if ((searchPtr->top+n) >= searchPtr->max) {
-        int i, cnt = (searchPtr->max *= 2);
+        int cnt = (searchPtr->max *= 2);
         if (searchPtr->Ptrs == searchPtr->staticPtrs)
         {
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Calloc(cnt, sizeof(Jsi_TreeEntry*));
             memcpy(searchPtr->Ptrs, searchPtr->staticPtrs, searchPtr->top*sizeof(Jsi_TreeEntry*));
         } else
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Realloc(searchPtr->Ptrs, cnt* sizeof(Jsi_TreeEntry*));
-        for (i=0; i<cnt; i++)
-            SIGINIT((searchPtr->Ptrs[i]),TREEENTRY);
-
     }
 }
 
-- 
2.43.0


From 473f4d6e7550b49ccbc701f11b3a8945269b1b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 051/179] fix: enlarging an empty dynamic string keeps its
 terminator

---
 src/jsiDString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index 4950846..aa3a9f8 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -215,7 +215,7 @@ uint Jsi_DSSetLength(Jsi_DString *dsPtr, uint length)
                 LogError("malloc failed %d", dsPtr->spaceAvl+1);
                 return -1;
             }
-            if (isStatic && dsPtr->len>0)
+            if (isStatic)
                 memcpy(newString, dsPtr->Str, (size_t) (dsPtr->len+1));
             dsPtr->strA = newString;
         }
-- 
2.43.0


From e98ee40df1750bf3a0edd86ce847cc1d97106db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 052/179] fix: sqlite: a query repeated inside its own callback
 uses a statement of its own

---
 src/jsiSqlite.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 395ec53..d72dd58 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -164,6 +164,7 @@ struct SqlPreparedStmt {
     const char *zSql;        /* Text of the SQL statement */
     Jsi_HashEntry *entry;
     Jsi_ListEntry *elPtr;
+    int inUse;                /* Being stepped: not in the cache list. */
     //int nParm;               /* Size of apParm array */
     //Jsi_Value **apParm;      /* Array of referenced object pointers */
 };
@@ -619,7 +620,8 @@ static void dbReleaseStmt(
     }*/
     //pPreStmt->nParm = 0;
 
-    if( db->stmtCacheMax<=0 || discard ) {
+    pPreStmt->inUse = 0;
+    if( db->stmtCacheMax<=0 || discard || !pPreStmt->entry ) {
         /* If the cache is turned off, deallocated the statement */
         dbPrepStmtFree(db, pPreStmt);
     } else {
@@ -694,7 +696,9 @@ static Jsi_RC dbPrepareStmt(
     }
     //nSql = Jsi_Strlen(zSql);
     Jsi_HashEntry *entry = Jsi_HashEntryFind(db->stmtHash, zSql);
-    if (entry && ((pPreStmt = (SqlPreparedStmt*)Jsi_HashValueGet(entry)))) {
+    if (entry && ((pPreStmt = (SqlPreparedStmt*)Jsi_HashValueGet(entry))) && pPreStmt->inUse)
+        pPreStmt = NULL;    /* A callback repeats a running statement: use another one. */
+    if (pPreStmt) {
         
         if (db->debug & TMODE_PREPARE)
             JSI_DBQUERY_PRINTF( "DEBUG: prepare cache-hit: %s\n", zSql);
@@ -747,16 +751,18 @@ static Jsi_RC dbPrepareStmt(
         pPreStmt->nSql = (*pzOut - zSql);
         pPreStmt->zSql = sqlite3_sql(pStmt);
         bool isNew = 0;
-        pPreStmt->entry = Jsi_HashEntryNew(db->stmtHash, zSql, &isNew);
-        if (!isNew)
-            JSI_DBQUERY_PRINTF( "sqlite dup stmt entry");
-        Jsi_HashValueSet(pPreStmt->entry, pPreStmt);
+        Jsi_HashEntry *hPtr = Jsi_HashEntryNew(db->stmtHash, zSql, &isNew);
+        if (isNew || !Jsi_HashValueGet(hPtr)) {
+            pPreStmt->entry = hPtr;
+            Jsi_HashValueSet(hPtr, pPreStmt);
+        }
             
         //pPreStmt->apParm = (Jsi_Value **)&pPreStmt[1];
     }
     assert( pPreStmt );
     assert( Jsi_Strlen(pPreStmt->zSql)==pPreStmt->nSql );
     assert( 0==memcmp(pPreStmt->zSql, zSql, pPreStmt->nSql) );
+    pPreStmt->inUse = 1;
     *ppPreStmt = pPreStmt;
     //pPreStmt->nParm = iParm; 
     return rc;
-- 
2.43.0


From a3d29d705c7586d46da7dc7929dd0f24d5c6b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 053/179] fix: sqlite: transaction() takes the callback first,
 as declared, and accepts its type

---
 src/jsiSqlite.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index d72dd58..9e362bd 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3410,8 +3410,8 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
     Jsi_Value *pScript;
     const char *zBegin = "SAVEPOINT _jsi_transaction";
 
-    if( db->nTransaction==0 && argc==2 ) {
-        Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 0);
+    if( argc==2 ) {
+        Jsi_Value *arg = Jsi_ValueArrayIndex(interp, args, 1);
         static const char *TTYPE_strs[] = {
             "deferred",   "exclusive",  "immediate", 0
         };
@@ -3423,7 +3423,7 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
                               0, &ttype) ) {
             return JSI_ERROR;
         }
-        switch( (enum TTYPE_enum)ttype ) {
+        if( db->nTransaction==0 ) switch( (enum TTYPE_enum)ttype ) {
         case TTYPE_DEFERRED:    /* no-op */
             ;
             break;
@@ -3435,7 +3435,7 @@ static Jsi_RC SqliteTransactionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
             break;
         }
     }
-    pScript = Jsi_ValueArrayIndex(interp, args, argc-1);
+    pScript = Jsi_ValueArrayIndex(interp, args, 0);
     if(!Jsi_ValueIsFunction(interp, pScript)) 
         return Jsi_LogErrorExt("expected function");
 
-- 
2.43.0


From e04dbefaa7ea0987737d11f29b331587cbbb69c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 054/179] fix: sqlite: an error in a query callback fails the
 query, and limit applies to callbacks

---
 src/jsiSqlite.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 9e362bd..1c819fe 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -290,6 +290,7 @@ typedef struct DbEvalContext {
     Jsi_Value *pArray;              /* Name of array variable */
     Jsi_Value *pValVar;             /* Name of list for values. */
     int nocache;
+    int limit;                      /* Maximum number of rows passed to tocall, if > 0. */
 } DbEvalContext;
 
 #ifndef JSI_LITE_ONLY
@@ -1953,8 +1954,12 @@ static Jsi_RC dbEvalCallCmd( DbEvalContext *p, Jsi_Interp *interp, Jsi_RC result
         Jsi_DecrRefCount(interp, varg1);
         if (Jsi_InterpGone(interp))
             return JSI_ERROR;
+        if (rb == 2)    /* The callback failed, and so does the query. */
+            return JSI_ERROR;
         if (rb)
             break;
+        if (p->limit > 0 && cnt >= p->limit)
+            break;
     }
     //dbEvalFinalize(p);
 
@@ -2664,6 +2669,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     db->optPtr = &opts;
     if (callback) {
         sEval.tocall = callback;
+        sEval.limit = opts.limit;
         if (opts.mode != _JSI_EF_ROWS) {
             Jsi_LogErrorExt("'mode' must be 'rows' with 'callback'");
             rc = JSI_ERROR;
-- 
2.43.0


From fa7d7144f4fc76e05a6124d5416ba662105b5ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 055/179] fix: sqlite: insert mode takes each value's own type

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 1c819fe..3988d7a 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2892,7 +2892,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 
                 azArg = Jsi_DSValue(&vStr);
                 const char *zSep = i>0 ? ",": "";
-                if(apColType && apColType[i]==SQLITE_NULL) {
+                if(ptype==SQLITE_NULL) {
                   Jsi_DSAppend(dStr, zSep, "NULL", NULL);
                 }else if( ptype ==SQLITE_TEXT ) {
                   if( zSep[0] ) Jsi_DSAppend(dStr,zSep, NULL);
-- 
2.43.0


From 50cdd6e5c17fe04226b5bc6556f0bb220a0ef1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 056/179] fix: sqlite: csv output quotes values containing a
 longer separator

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 3988d7a..48f3779 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2476,7 +2476,7 @@ static void dbOutputCsv(QueryOpts *p, const char *z, Jsi_DString *dStr, int bSep
         int nSep = Jsi_Strlen(p->separator);
         for(i=0; z[i]; i++) {
             if( needCsvQuote[((unsigned char*)z)[i]] || 
-                (z[i]==p->separator[0] && (nSep==1 || memcmp(z, p->separator, nSep)==0)) ) {
+                (z[i]==p->separator[0] && (nSep==1 || Jsi_Strncmp(z+i, p->separator, nSep)==0)) ) {
                 i = 0;
                 break;
             }
-- 
2.43.0


From 957099b2e006a59d1507be2a2fb586ed1dae08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 057/179] fix: sqlite: a bind type applies to its own parameter
 only; query's mapundef option is honoured

---
 src/jsiSqlite.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 48f3779..de377d4 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -816,12 +816,13 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
     for(i=1; i<=nVar; i++) {
         tname[0] = 0;
         int isInt = 0, isBlob = 0;
+        btype = bindArr = 0;
         const char *zVar = sqlite3_bind_parameter_name(pStmt, i);
         if (zVar == NULL) {
             if (!db->optPtr || !(apv=db->optPtr->values)) 
                 return Jsi_LogErrorExt("? bind without values for param %d", i);
             if (!(pv =Jsi_ValueArrayIndex(interp, apv, i-1))) 
-                return Jsi_LogErrorExt("array element %d missing", nVar);
+                return Jsi_LogErrorExt("array element %d missing", i-1);
         }
         else if((zVar[0]=='$' || zVar[0]==':' || zVar[0]=='@') ) {
             int zvLen = Jsi_Strlen(zVar);
@@ -951,7 +952,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
                     sqlite3_bind_int64(pStmt, i,wv);
                 else
                     sqlite3_bind_double(pStmt, i,(double)r);
-            } else if (Jsi_ValueIsNull(interp, pv) || (Jsi_ValueIsUndef(interp, pv) && db->queryOpts.mapundef)) {
+            } else if (Jsi_ValueIsNull(interp, pv) || (Jsi_ValueIsUndef(interp, pv) && db->optPtr->mapundef)) {
                 sqlite3_bind_null(pStmt, i);
             } else if (Jsi_ValueIsString(interp, pv)) {
                 const char *sstr = Jsi_ValueGetStringLen(interp, pv, &n);
-- 
2.43.0


From cbafc781110d34df8149108d97e600a46790c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 058/179] fix: sqlite: a failing object bind fails the query

---
 src/jsiSqlite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index de377d4..fe7d714 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2639,8 +2639,10 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         goto bail;
     }
     if (opts.obj.name) {
-        if (Jsi_SqlObjBinds(interp, &eStr, &opts.obj) != JSI_OK)
+        if (Jsi_SqlObjBinds(interp, &eStr, &opts.obj) != JSI_OK) {
+            rc = JSI_ERROR;
             goto bail;
+        }
         zSql = Jsi_DSValue(&eStr);
     }
     if ((db->echo || opts.echo) && zSql)
-- 
2.43.0


From 5297d69199ab134066bb85d15787355b5c76857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 059/179] fix: sqlite: a locked database is reported with a
 message

---
 src/jsiSqlite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index fe7d714..85fca00 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -501,6 +501,7 @@ static Jsi_RC dbEvalStepSub(DbEvalContext *p, int release, int *erc) {
     rcs = sqlite3_step(pStmt);
     if( rcs==SQLITE_BUSY ) {
         if (erc) *erc = -2;
+        else Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
         return JSI_ERROR;
     }
     if( rcs==SQLITE_ROW ) {
-- 
2.43.0


From c2dde3acb05a202a1117db4c7b41f098f15f56d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 060/179] fix: sqlite: conf() keeps callbacks and timeout
 installed, and onBusy works

---
 src/jsiSqlite.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 85fca00..506d331 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1114,7 +1114,7 @@ static int dbBusyHandler(void *cd, int nTries) {
     rc = Jsi_FunctionInvoke(interp, db->onBusy, vpargs, &ret, NULL);
     if( JSI_OK!=rc ) {
         db->errCnt++;
-        rc = 1;
+        rc = 0; /* Give up. */
     } else
         rc = dbGetIntBool(interp, ret);
     Jsi_DecrRefCount(interp, vpargs);
@@ -3526,52 +3526,52 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 
 void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
 {
-    if (db->onAuth && (!ojdb || !ojdb->onAuth) )
+    if (db->onAuth)
         sqlite3_set_authorizer(db->db, dbAuthCallback, db);
     else
         sqlite3_set_authorizer(db->db, 0, 0);
 
-    if (db->onCommit && (!ojdb || !ojdb->onCommit) )
+    if (db->onCommit)
         sqlite3_commit_hook(db->db, dbCommitHandler, db);
     else
         sqlite3_commit_hook(db->db, 0, 0);
 
-    if (db->onBusy && (!ojdb || !ojdb->onBusy) )
+    if (db->onBusy)
         sqlite3_busy_handler(db->db, dbBusyHandler, db);
     else
-        sqlite3_busy_handler(db->db, 0, 0);
+        sqlite3_busy_timeout(db->db, db->timeout);
     
-    if (db->onTrace && (!ojdb || !ojdb->onTrace) )
+    if (db->onTrace)
         sqlite3_trace(db->db, dbTraceHandler, db);
     else
         sqlite3_trace(db->db, 0, 0);
 
-    if (db->onNeedCollate && (!ojdb || !ojdb->onNeedCollate) )
+    if (db->onNeedCollate)
         sqlite3_collation_needed(db->db, db, dbCollateNeeded);
     else
         sqlite3_collation_needed(db->db, 0, 0);
 
-    if (db->onUpdate && (!ojdb || !ojdb->onUpdate) )
+    if (db->onUpdate)
         sqlite3_update_hook(db->db, dbUpdateHandler, db);
     else
         sqlite3_update_hook(db->db, 0, 0);
 
-    if (db->onWalHook && (!ojdb || !ojdb->onWalHook) )
+    if (db->onWalHook)
         sqlite3_wal_hook(db->db, dbWalHandler, db);
     else
         sqlite3_wal_hook(db->db, 0, 0);
 
-    if (db->onRollback && (!ojdb || !ojdb->onRollback) )
+    if (db->onRollback)
         sqlite3_rollback_hook(db->db, dbRollbackHandler, db);
     else
         sqlite3_rollback_hook(db->db, 0, 0);
 
-    if (db->onProfile && (!ojdb || !ojdb->onProfile) )
+    if (db->onProfile)
         sqlite3_profile(db->db, dbProfileHandler, db);
     else
         sqlite3_profile(db->db, 0, 0);
 
-    if (db->onProgress && db->progressSteps && (!ojdb || !ojdb->onProgress || ojdb->progressSteps != db->progressSteps) )
+    if (db->onProgress && db->progressSteps)
         sqlite3_progress_handler(db->db, db->progressSteps, dbProgressHandler, db);
     else
         sqlite3_progress_handler(db->db, 0, 0, 0);
@@ -3579,9 +3579,6 @@ void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
     if (!ojdb || db->load != ojdb->load)
         sqlite3_enable_load_extension(db->db, db->load);
 
-    if (!ojdb || db->timeout != ojdb->timeout)
-        sqlite3_busy_timeout( db->db, db->timeout );
-
 /*    if (db->onUnlock && (!ojdb || !ojdb->onUnlock) )
         sqlite3_unlock_notify(db->db, dbUnlockNotify, (void*)db);
     else
-- 
2.43.0


From 6846ed189b573ad7bbfddf6c37cd1d820566fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 061/179] fix: sqlite: nullvalue is output for nulls in text
 modes

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 506d331..74b4088 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1841,6 +1841,8 @@ static void dbEvalSetColumn(DbEvalContext *p, int iCol, Jsi_DString *dStr) {
         return;
     }
     case SQLITE_NULL: {
+        if (p->db->optPtr->nullvalue)
+            Jsi_DSAppend(dStr, p->db->optPtr->nullvalue, NULL);
         return;
     }
     }
-- 
2.43.0


From d32ec9be12358b1f315efa76bc3d8797490bb18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 062/179] fix: sqlite: an error in a query callback is not
 taken for true

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 74b4088..8316908 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1954,7 +1954,7 @@ static Jsi_RC dbEvalCallCmd( DbEvalContext *p, Jsi_Interp *interp, Jsi_RC result
             Jsi_ObjInsert(interp, argso, apColName[i], nnv, 0);
         }
         Jsi_IncrRefCount(interp, varg1);
-        bool rb = Jsi_FunctionInvokeBool(interp, p->tocall, varg1, NULL);
+        int rb = Jsi_FunctionInvokeBool(interp, p->tocall, varg1, NULL);
         Jsi_DecrRefCount(interp, varg1);
         if (Jsi_InterpGone(interp))
             return JSI_ERROR;
-- 
2.43.0


From e3e4063434db41f306eb8368f0c97a3e25896416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 063/179] fix: sqlite: a failing import leaves its own rows out
 and the enclosing transaction in place

---
 src/jsiSqlite.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 8316908..fc20a7c 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2238,8 +2238,8 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         rc = JSI_ERROR;
         goto bail;
     }
-    (void)sqlite3_exec(db->db, "BEGIN", 0, 0, 0);
-    onCommit = "COMMIT";
+    (void)sqlite3_exec(db->db, "SAVEPOINT _jsi_import", 0, 0, 0);
+    onCommit = "RELEASE _jsi_import";
     while ((zLine = dbLocalGetline(interp, 0, in))!=0 ) {
         char *z;
         i = 0;
@@ -2276,9 +2276,10 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             }
             if (qcnt%2) {
                 Jsi_DSFree(&sStr);
-                Jsi_Free(zLine);
-                Jsi_Close(interp, in);
+                if (zLine)
+                    Jsi_Free(zLine);
                 Jsi_LogErrorExt("unterminated string at line: %d", lineno);
+                onCommit = "ROLLBACK TO _jsi_import; RELEASE _jsi_import";
                 break;
             }
             while (z) {
@@ -2337,7 +2338,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         if( i+1!=nCol ) {
             Jsi_LogErrorExt("%s line %d: expected %d columns of data but found %d",
                  zFile, lineno, nCol, i+1);
-            onCommit = "ROLLBACK";
+            onCommit = "ROLLBACK TO _jsi_import; RELEASE _jsi_import";
             break;
         }
         for(i=0; i<nCol; i++) {
@@ -2356,16 +2357,21 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             Jsi_Free(zLine);
         if( rc!=SQLITE_OK ) {
             Jsi_LogErrorExt("%s at line: %d", sqlite3_errmsg(db->db), lineno);
-            onCommit = "ROLLBACK";
+            onCommit = "ROLLBACK TO _jsi_import; RELEASE _jsi_import";
             break;
         }
     }
     Jsi_Free(azCol);
     Jsi_Close(interp, in);
     sqlite3_finalize(pStmt);
-    (void)sqlite3_exec(db->db, onCommit, 0, 0, 0);
+    if( sqlite3_exec(db->db, onCommit, 0, 0, 0) && onCommit[1] == 'E' ) {    /* Could not commit. */
+        rc = JSI_ERROR;
+        Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
+        onCommit = "ROLLBACK";
+        sqlite3_exec(db->db, "ROLLBACK TO _jsi_import; RELEASE _jsi_import", 0, 0, 0);
+    }
 
-    if( onCommit[0] == 'C' ) {
+    if( onCommit[1] == 'E' ) {
         /* success, set result as number of lines processed */
         Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)lineno);
         rv = JSI_OK;
-- 
2.43.0


From b3a81c16b1fe8cf7d22cb20959d4490f0044ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 064/179] fix: sqlite: insert mode ends with its own rows

---
 src/jsiSqlite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index fc20a7c..cc98c75 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2928,6 +2928,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             if (opts.limit && cnt>=opts.limit) break;
         }
         Jsi_DSFree(&vStr);
+        break;
     }
 
     case _JSI_EF_TABS:
-- 
2.43.0


From 832b2d57f4d07474453e591327c8262d69ebb5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 065/179] fix: sqlite: csv import of quoted last fields and of
 lines with too many fields

---
 src/jsiSqlite.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index cc98c75..87163be 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2285,7 +2285,8 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             while (z) {
                 if (*z != '\"') { /* Handle un-quoted value */
                     zn = Jsi_Strstr(z, zSep);
-                    azCol[++i] = z;
+                    if (++i < nCol)
+                        azCol[i] = z;
                     if (!zn)
                         break;
                     *zn = 0;
@@ -2296,8 +2297,10 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
                 zn = ++z;
                 Jsi_DString cStr = {};
                 while (1) {
-                    if (!zn)
+                    if (!*zn) {
+                        zn = NULL;
                         break;
+                    }
                     if (*zn != '"')
                         Jsi_DSAppendLen(&cStr, zn, 1);
                     else {
@@ -2305,6 +2308,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
                             zn++;
                             Jsi_DSAppendLen(&cStr, "\"", 1);
                         } else if (zn[1] == 0) {
+                            zn = NULL;
                             break;
                         } else if (Jsi_Strncmp(zn+1,zSep, nSep)==0) {
                             *zn = 0;
@@ -2319,7 +2323,8 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
                 }
                 Jsi_Strcpy(z, Jsi_DSValue(&cStr));
                 Jsi_DSFree(&cStr);
-                azCol[++i] = z;
+                if (++i < nCol)
+                    azCol[i] = z;
                 z = zn;
             }
         } else {
-- 
2.43.0


From 7587e5ac4a26cebcb5ec471a26622460d1c6dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 066/179] fix: sqlite: onCommit gets the database it is
 declared to take

---
 src/jsiSqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 87163be..5abf1b9 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1205,7 +1205,7 @@ static int dbCommitHandler(void *cd) {
     items[0] = Jsi_ValueNewObj(interp, db->fobj);
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 1, 0));
     Jsi_IncrRefCount(interp, vpargs);
-    if( JSI_OK!=Jsi_FunctionInvoke(interp, db->onCommit, NULL, &ret, NULL) ) {
+    if( JSI_OK!=Jsi_FunctionInvoke(interp, db->onCommit, vpargs, &ret, NULL) ) {
         db->errCnt++;
         rc = 1;
     } else
-- 
2.43.0


From fecb2022a207c7b6e1721ccaddad345963809ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 067/179] fix: sqlite: a failing import outside of a
 transaction leaves nothing locked

---
 src/jsiSqlite.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 5abf1b9..cee9f65 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -2107,6 +2107,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     char *zLine;                /* A single line of input from the file */
     char **azCol;               /* zLine[] broken up into columns */
     const char *onCommit;              /* How to commit changes */
+    int nested, failed = 0;            /* Inside a transaction; could not import */
     Jsi_Channel in;                   /* The input file */
     int lineno = 0;             /* Line number of input file */
     int created = 0;
@@ -2238,8 +2239,8 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         rc = JSI_ERROR;
         goto bail;
     }
-    (void)sqlite3_exec(db->db, "SAVEPOINT _jsi_import", 0, 0, 0);
-    onCommit = "RELEASE _jsi_import";
+    nested = !sqlite3_get_autocommit(db->db);
+    (void)sqlite3_exec(db->db, (nested?"SAVEPOINT _jsi_import":"BEGIN"), 0, 0, 0);
     while ((zLine = dbLocalGetline(interp, 0, in))!=0 ) {
         char *z;
         i = 0;
@@ -2279,7 +2280,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
                 if (zLine)
                     Jsi_Free(zLine);
                 Jsi_LogErrorExt("unterminated string at line: %d", lineno);
-                onCommit = "ROLLBACK TO _jsi_import; RELEASE _jsi_import";
+                failed = 1;
                 break;
             }
             while (z) {
@@ -2343,7 +2344,7 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         if( i+1!=nCol ) {
             Jsi_LogErrorExt("%s line %d: expected %d columns of data but found %d",
                  zFile, lineno, nCol, i+1);
-            onCommit = "ROLLBACK TO _jsi_import; RELEASE _jsi_import";
+            failed = 1;
             break;
         }
         for(i=0; i<nCol; i++) {
@@ -2362,21 +2363,25 @@ static Jsi_RC SqliteImportCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
             Jsi_Free(zLine);
         if( rc!=SQLITE_OK ) {
             Jsi_LogErrorExt("%s at line: %d", sqlite3_errmsg(db->db), lineno);
-            onCommit = "ROLLBACK TO _jsi_import; RELEASE _jsi_import";
+            failed = 1;
             break;
         }
     }
     Jsi_Free(azCol);
     Jsi_Close(interp, in);
     sqlite3_finalize(pStmt);
-    if( sqlite3_exec(db->db, onCommit, 0, 0, 0) && onCommit[1] == 'E' ) {    /* Could not commit. */
-        rc = JSI_ERROR;
+    onCommit = (nested?"RELEASE _jsi_import":"COMMIT");
+    if( !failed && sqlite3_exec(db->db, onCommit, 0, 0, 0) ) {
         Jsi_LogErrorExt("%s", sqlite3_errmsg(db->db));
-        onCommit = "ROLLBACK";
-        sqlite3_exec(db->db, "ROLLBACK TO _jsi_import; RELEASE _jsi_import", 0, 0, 0);
+        rc = JSI_ERROR;
+        failed = 1;
+    }
+    if( failed ) {
+        onCommit = (nested?"ROLLBACK TO _jsi_import; RELEASE _jsi_import":"ROLLBACK");
+        (void)sqlite3_exec(db->db, onCommit, 0, 0, 0);
     }
 
-    if( onCommit[1] == 'E' ) {
+    if( !failed ) {
         /* success, set result as number of lines processed */
         Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)lineno);
         rv = JSI_OK;
-- 
2.43.0


From c0fc66250754db8371e38180d55b67d6e26149af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 068/179] fix: sqlite: a collation keeps its function alive and
 passes it texts of the right length

---
 src/jsiSqlite.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index cee9f65..eba7070 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1072,6 +1072,7 @@ static void dbDeleteCmd(Jsi_Db *db)
     while( db->pCollate ) {
         SqlCollate *pCollate = db->pCollate;
         db->pCollate = pCollate->pNext;
+        Jsi_DecrRefCount(db->interp, pCollate->zScript);
         Jsi_Free((char*)pCollate);
     }
 
@@ -1325,9 +1326,10 @@ static int dbSqlCollate(
     Jsi_Value *vpargs, *items[3], *ret;
 
     items[0] = Jsi_ValueNewObj(interp, p->db->fobj);
-    items[1] = Jsi_ValueMakeStringDup(interp, NULL, (char*)zA);
-    items[2] = Jsi_ValueMakeStringDup(interp, NULL, (char*)zB);
+    items[1] = Jsi_ValueMakeString(interp, NULL, Jsi_StrdupLen((char*)zA, nA));
+    items[2] = Jsi_ValueMakeString(interp, NULL, Jsi_StrdupLen((char*)zB, nB));
     vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, 3, 0));
+    Jsi_IncrRefCount(interp, vpargs);
     ret = Jsi_ValueNew1(interp);
     rc = Jsi_FunctionInvoke(interp, p->zScript, vpargs, &ret, NULL);
     if( JSI_OK!=rc ) {
@@ -2044,6 +2046,7 @@ static Jsi_RC SqliteCollateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     pCollate->interp = interp;
     pCollate->pNext = db->pCollate;
     pCollate->zScript = func; /*(char*)&pCollate[1];*/
+    Jsi_IncrRefCount(interp, func);
     db->pCollate = pCollate;
 
     if( sqlite3_create_collation(db->db, zName, SQLITE_UTF8, pCollate, dbSqlCollate) )
-- 
2.43.0


From f3e909113f1cb02d599fb4349dc9267a63388b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 069/179] fix: sqlite: a null from a script function is an SQL
 null

---
 src/jsiSqlite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index eba7070..ac21ee2 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1483,6 +1483,8 @@ static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv)
         // sqlite3_result_int64(context, v);
         Jsi_GetNumberFromValue(interp, ret, &d);
         sqlite3_result_double(context, (double)d);
+    } else if (Jsi_ValueIsNull(interp, ret) || Jsi_ValueIsUndef(interp, ret)) {
+        sqlite3_result_null(context);
     } else {
         const char * data;
         if (!(data = Jsi_ValueGetStringLen(interp, ret, &i))) {
-- 
2.43.0


From 82cf5e33368fa27d0f028dd9a9c9b7a38f694d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 070/179] fix: sqlite: func() fails when the function can not
 be created

---
 src/jsiSqlite.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index ac21ee2..2eccd89 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -3323,10 +3323,8 @@ static Jsi_RC SqliteFunctionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     rc = sqlite3_create_function(db->db, zName, nArg, SQLITE_UTF8,
                                  pFunc, jsiSqlFunc, 0, 0);
                                  
-    if( rc!=SQLITE_OK ) {
-        rc = JSI_ERROR;
-        Jsi_LogErrorExt("function create error: %s", (char *)sqlite3_errmsg(db->db));
-    }
+    if( rc!=SQLITE_OK )
+        return Jsi_LogErrorExt("function create error: %s", (char *)sqlite3_errmsg(db->db));
     return JSI_OK;
 }
 
-- 
2.43.0


From fc787ee160122a1d9c9ca007f751ea9bec2451fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 071/179] fix: sqlite: binding with a type does not convert the
 variable itself

---
 src/jsiSqlite.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 2eccd89..2868aa1 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -809,7 +809,7 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
     Jsi_Number r;
     Jsi_Wide wv;
  
-    Jsi_Value *pv = NULL, *apv = NULL;
+    Jsi_Value *pv = NULL, *apv = NULL, *cv = NULL;
     int nVar = sqlite3_bind_parameter_count(pStmt);
     char tname[50];
     
@@ -894,6 +894,13 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
         } else {
             int match = 1, cast = (db->optPtr->typeCheck==dbTypeCheck_Cast);
             if (btype && !Jsi_ValueIsUndef(interp, pv)) {
+                if (cast) { /* The variable itself keeps its type. */
+                    if (cv)
+                        Jsi_DecrRefCount(interp, cv);
+                    cv = Jsi_ValueNew1(interp);
+                    Jsi_ValueCopy(interp, cv, pv);
+                    pv = cv;
+                }
                 switch (btype) {
                     case JSI_OPTION_STRBUF:
                         isBlob = 1;
@@ -985,6 +992,8 @@ static Jsi_RC dbBindStmt(Jsi_Db *db, SqlPreparedStmt *prep)
 
         }
     }
+    if (cv)
+        Jsi_DecrRefCount(interp, cv);
     return rc;
 }
 
-- 
2.43.0


From e5c53783c8ae075d8a2d9b0f80f3e5499a3bedb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 072/179] fix: sqlite: regexp() without modifiers, with null,
 and with more patterns than are cached

---
 src/jsiSqlite.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 2868aa1..331c39b 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1424,29 +1424,31 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
         return;
     }
     const char *str = (char *)sqlite3_value_text(argv[1]);
-    char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (char *)sqlite3_value_text(argv[2]);
+    char *spat = (char *)sqlite3_value_text(argv[0]), *mod = (argc>2 ? (char *)sqlite3_value_text(argv[2]) : NULL);
+    if (!str || !spat)
+        return;
     int rc = 0;
     bool isNew = 0;
     Jsi_Value *pat = NULL;
     Jsi_HashEntry *hPtr;
-    if (db->regexpHash && ((hPtr = Jsi_HashEntryFind(db->regexpHash, spat))))
+    Jsi_DString kStr = {};
+    const char *key = Jsi_DSAppend(&kStr, (mod?mod:""), "/", spat, NULL);
+    if (db->regexpHash && ((hPtr = Jsi_HashEntryFind(db->regexpHash, key))))
         pat = (Jsi_Value*)Jsi_HashValueGet(hPtr);
     if (!pat) {
-        if (db->regexpHash && db->maxRegexCache>0 && (int)Jsi_HashSize(db->regexpHash)>=db->maxRegexCache) {
-            Jsi_LogErrorExt("Regex hash reached max size: %d", db->maxRegexCache);
-            return;
-        }
+        if (db->regexpHash && db->maxRegexCache>0 && (int)Jsi_HashSize(db->regexpHash)>=db->maxRegexCache)
+            Jsi_HashClear(db->regexpHash);
         pat = Jsi_ValueNewRegExp(interp, spat, mod);
         if (!pat)
-            return;
+            goto done;
         Jsi_IncrRefCount(interp, pat);
         if (db->maxRegexCache) {
             if (!db->regexpHash)
                 db->regexpHash = Jsi_HashNew(interp, JSI_KEYS_STRING, jsiSqlfreeValueTbl);
-            hPtr = Jsi_HashEntryNew(db->regexpHash, spat, &isNew);
+            hPtr = Jsi_HashEntryNew(db->regexpHash, key, &isNew);
             if (!hPtr) {
                 Jsi_DecrRefCount(interp, pat);
-                return;
+                goto done;
             }
             Jsi_HashValueSet(hPtr, pat);
         }
@@ -1455,8 +1457,9 @@ static void jsiSqlFuncRegexp(sqlite3_context *context, int argc, sqlite3_value**
         sqlite3_result_int(context, rc);
     if (!db->maxRegexCache)
         Jsi_DecrRefCount(interp, pat);
+done:
+    Jsi_DSFree(&kStr);
 }
-
 static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv) {
     SqlFunc *p = (SqlFunc*)sqlite3_user_data(context);
     int i;
-- 
2.43.0


From 5cdbc6a41868f412476b361fd51c766cd6463f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 073/179] fix: JSON: strict parsing rejects misplaced or
 missing separators, several values and bad numbers

---
 src/jsmn.c | 60 +++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/jsmn.c b/src/jsmn.c
index 9ab6024..7971910 100644
--- a/src/jsmn.c
+++ b/src/jsmn.c
@@ -61,6 +61,29 @@ static void jsmn_fill_token(Jsi_JsonTok *token, Jsi_JsonTypeEnum type,
     token->size = 0;
 }
 
+/**
+ * Is str one of the primitives of JSON: a number, true, false or null?
+ */
+static int jsmn_is_primitive(const char *str, int len) {
+    const char *cp = str, *ep = str+len;
+    if (len == 4 && (!strncmp(str, "true", 4) || !strncmp(str, "null", 4))) return 1;
+    if (len == 5 && !strncmp(str, "false", 5)) return 1;
+    if (cp<ep && *cp == '-') cp++;
+    if (cp>=ep || !isdigit(*cp)) return 0;
+    if (*cp == '0') cp++;
+    else while (cp<ep && isdigit(*cp)) cp++;
+    if (cp<ep && *cp == '.') {
+        if (++cp>=ep || !isdigit(*cp)) return 0;
+        while (cp<ep && isdigit(*cp)) cp++;
+    }
+    if (cp<ep && (*cp == 'e' || *cp == 'E')) {
+        if (++cp<ep && (*cp == '+' || *cp == '-')) cp++;
+        if (cp>=ep || !isdigit(*cp)) return 0;
+        while (cp<ep && isdigit(*cp)) cp++;
+    }
+    return (cp==ep);
+}
+
 /**
  * Fills next available token with JSON primitive.
  */
@@ -84,13 +107,17 @@ static Jsi_JsonErrEnum Jsi_JsonParse_primitive(Jsi_JsonParser *parser, const cha
             return jsmn_error(parser,JSI_JSON_ERR_INVAL, "invalid char");
         }
     }
-    if (parser->strict) {
+    if (parser->strict && parser->toksuper != -1) {
         /* In strict mode primitive must be followed by a comma/object/array */
         parser->pos = start;
         return jsmn_error(parser,JSI_JSON_ERR_PART, "expected comma/object/array");
     }
 
 found:
+    if (parser->strict && !jsmn_is_primitive(js+start, parser->pos-start)) {
+        parser->pos = start;
+        return jsmn_error(parser,JSI_JSON_ERR_INVAL, "bad primitive");
+    }
     token = jsmn_alloc_token(parser, &index);
     if (token == NULL) {
         parser->pos = start;
@@ -155,12 +182,37 @@ static Jsi_JsonErrEnum Jsi_JsonParse_string(Jsi_JsonParser *parser, const char *
     return jsmn_error(parser,JSI_JSON_ERR_PART,"");
 }
 
+/**
+ * In strict mode check that something of the given kind can come next, where last is the kind of what came before.
+ * Kinds: 's' string, 'v' other value, '[' or '{', ']' or '}', 'k' key, ':' and ','.  Returns the new last, or 0.
+ */
+static char jsmn_next(Jsi_JsonParser *parser, char last, char kind) {
+    int top = (parser->toksuper == -1);
+    int isobj = (!top && parser->tokens[parser->toksuper].type == JSI_JTYPE_OBJECT);
+    switch (kind) {
+        case ':': return (last == 'k' ? ':' : 0);
+        case ',': return (last == 'v' && !top ? ',' : 0);
+        case ']': case '}': return (last == 'v' || last == '[' || last == '{' ? 'v' : 0);
+        default: break;
+    }
+    if (top) {
+        if (last) return 0;
+    } else if (isobj && last != ':')
+        return (kind == 's' && last != 'v' && last != 'k' ? 'k' : 0);
+    else if (last == 'v')
+        return 0;
+    return (kind == 's' ? 'v' : kind);
+}
+#define JSMN_NEXT(kind) if (parser->strict && !(last = jsmn_next(parser, last, kind))) \
+    return jsmn_error(parser,JSI_JSON_ERR_INVAL, "unexpected token in strict mode")
+
 /**
  * Parse JSON string and fill tokens.
  */
 Jsi_JsonErrEnum Jsi_JsonParse(Jsi_JsonParser *parser, const char *js) {
     Jsi_JsonErrEnum r;
     int i, index = -1;
+    char last = 0;
     Jsi_JsonTok *token = NULL;
 
     for (; js[parser->pos] != '\0'; parser->pos++) {
@@ -172,6 +224,7 @@ Jsi_JsonErrEnum Jsi_JsonParse(Jsi_JsonParser *parser, const char *js) {
         match = 0;
         switch (c) {
             case '{': case '[':
+                JSMN_NEXT(c);
                 token = jsmn_alloc_token(parser, &index);
                 if (token == NULL)
                     return jsmn_error(parser,JSI_JSON_ERR_NOMEM,"");
@@ -184,6 +237,8 @@ Jsi_JsonErrEnum Jsi_JsonParse(Jsi_JsonParser *parser, const char *js) {
                 parser->toksuper = parser->toknext - 1;
                 break;
             case '}': case ']':
+                if (parser->toksuper != -1)
+                    JSMN_NEXT(c);
                 type = (c == '}' ? JSI_JTYPE_OBJECT : JSI_JTYPE_ARRAY);
 #ifdef JSMN_PARENT_LINKS
                 if (parser->toknext < 1) {
@@ -229,6 +284,7 @@ Jsi_JsonErrEnum Jsi_JsonParse(Jsi_JsonParser *parser, const char *js) {
 #endif
                 break;
             case '\"':
+                JSMN_NEXT('s');
                 r = Jsi_JsonParse_string(parser, js);
                 if (r < 0) return r;
                 if (index>=0) token = &parser->tokens[index];
@@ -244,6 +300,7 @@ Jsi_JsonErrEnum Jsi_JsonParse(Jsi_JsonParser *parser, const char *js) {
                     if (parser->toksuper<0 || parser->tokens[parser->toksuper].type != JSI_JTYPE_OBJECT)
                         return jsmn_error(parser,JSI_JSON_ERR_INVAL,"got ':' in a non-object");
             case ',': 
+                JSMN_NEXT(c);
                 if (parser->strict == 0 || (token && token->type == JSI_JTYPE_ARRAY))
                     break;
                 if (!token || token->type != JSI_JTYPE_OBJECT)
@@ -260,6 +317,7 @@ Jsi_JsonErrEnum Jsi_JsonParse(Jsi_JsonParser *parser, const char *js) {
             default:
                 if (parser->strict && !match)   /* Unexpected char in strict mode */
                     return jsmn_error(parser,JSI_JSON_ERR_INVAL, "unexpected char in strict mode");
+                JSMN_NEXT('v');
                 r = Jsi_JsonParse_primitive(parser, js);
                 if (r < 0) return r;
                 if (index>=0) token = &parser->tokens[index];
-- 
2.43.0


From ff9cc28edbfcc5a998caa89052342754344b6768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 074/179] fix: JSON: property names are escaped and numbers
 keep their precision in JSON text

---
 src/jsiUtils.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index fe1107a..95c4c18 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -682,6 +682,32 @@ static void jsiJsonIndent(objwalker *ow) {
             Jsi_DSAppend(dStr, " ", NULL);
     }
 }
+static void jsi_QuoteKey(const char *key, Jsi_DString *dStr)
+{
+    char buf[10];
+    Jsi_DSAppend(dStr, "\"", NULL);
+    for (; *key; key++) {
+        switch (*key) {
+            case '\n': Jsi_DSAppend(dStr, "\\n", NULL); break;
+            case '\r': Jsi_DSAppend(dStr, "\\r", NULL); break;
+            case '\t': Jsi_DSAppend(dStr, "\\t", NULL); break;
+            case '\f': Jsi_DSAppend(dStr, "\\f", NULL); break;
+            case '\b': Jsi_DSAppend(dStr, "\\b", NULL); break;
+            case '"': case '\\': 
+                Jsi_DSAppendLen(dStr, "\\", 1);
+                Jsi_DSAppendLen(dStr, key, 1);
+                break;
+            default:
+                if (*key>0 && *key<' ') {
+                    Jsi_UtfEncode(key, buf);
+                    Jsi_DSAppend(dStr, buf, NULL);
+                } else
+                    Jsi_DSAppendLen(dStr, key, 1);
+        }
+    }
+    Jsi_DSAppend(dStr, "\"", NULL);
+}
+
 static Jsi_RC jsi_ObjectGetFmt(Jsi_Interp *interp, const char *key, Jsi_Value *v, objwalker *ow)
 {
     Jsi_DString *dStr = ow->dStr;
@@ -698,7 +724,7 @@ static Jsi_RC jsi_ObjectGetFmt(Jsi_Interp *interp, const char *key, Jsi_Value *v
         Jsi_DSAppend(dStr, key, NULL);
     else
         /* JSON/spaces, etc requires quoting the name. */
-        Jsi_DSAppend(dStr, "\"", key, "\"", NULL);
+        jsi_QuoteKey(key, dStr);
     Jsi_DSAppend(dStr, ":", NULL);
     Jsi_RC rc = jsiValueGetString(interp, v, dStr, ow);
     return rc;
@@ -764,6 +790,8 @@ outnum:
                 Jsi_DSAppend(dStr, buf, NULL);
             } else if (Jsi_NumberIsNormal(num) || Jsi_NumberIsSubnormal(num)) {
                 Jsi_NumberDtoA(interp, num, buf, sizeof(buf), 0);
+                if (isjson && strtod(buf, NULL) != num)
+                    Jsi_NumberDtoA(interp, num, buf, sizeof(buf), __DBL_DECIMAL_DIG__);
                 Jsi_DSAppend(dStr, buf, NULL);
             } else if (Jsi_NumberIsNaN(num)) {
                 Jsi_DSAppend(dStr, "NaN", NULL);
@@ -804,7 +832,7 @@ outstr:
                 } else if (isprint(*str) || !isjson)
                     Jsi_DSAppendLen(dStr,str, 1);
                 else {
-                    char ubuf[10];
+                    char ubuf[16];
                     int l = Jsi_UtfEncode(str, ubuf);
                     Jsi_DSAppend(dStr,ubuf, NULL);
                     str += l-1;
-- 
2.43.0


From d1113c7962d5de838e47e604696ec77d439b7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:44 +0000
Subject: [PATCH 075/179] fix: JSON: \/ and pairs of surrogates in strings

---
 src/jsiJSON.c | 29 +++++++++++++++++++++++++++--
 src/jsiUtf8.c |  9 +++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index ff6a0da..ce63656 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -4,6 +4,27 @@
 #include "jsiInt.h"
 #endif
 
+// Decode a pair of surrogates, \uD8NN\uDCNN, to the 4 bytes of a character above 0xFFFF.
+static bool jsonSurrogates(const char *cp, int len, char *dp)
+{
+    uint hi, lo;
+    char buf[10] = {};
+    if (len<12 || cp[6] != '\\' || cp[7] != 'u' || tolower(cp[2]) != 'd' || tolower(cp[8]) != 'd')
+        return 0;
+    memcpy(buf, cp+2, 4);
+    memcpy(buf+4, cp+8, 4);
+    if (strspn(buf, "0123456789abcdefABCDEF") != 8 || sscanf(buf, "%4x%4x", &hi, &lo) != 2)
+        return 0;
+    if (hi<0xD800 || hi>0xDBFF || lo<0xDC00)
+        return 0;
+    hi = 0x10000 + ((hi&0x3FF)<<10) + (lo&0x3FF);
+    dp[0] = 0xF0 | (hi>>18);
+    dp[1] = 0x80 | ((hi>>12)&0x3F);
+    dp[2] = 0x80 | ((hi>>6)&0x3F);
+    dp[3] = 0x80 | (hi&0x3F);
+    return 1;
+}
+
 static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* str, int len)
 {
     char buf[JSI_MAX_NUMBER_STRING], *dp = buf;
@@ -20,8 +41,12 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
                 case 't': *dp++ = '\t'; break;
                 case '\"': *dp++ = '\"'; break;
                 case '\\': *dp++ = '\\'; break;
+                case '/': *dp++ = '/'; break;
                 case 'u': 
-                    if ((ulen=Jsi_UtfDecode(cp+2, dp))) {
+                    if (jsonSurrogates(cp, len-(cp-str), dp)) {
+                        dp += 4;
+                        cp += 10;
+                    } else if ((ulen=Jsi_UtfDecode(cp+2, dp))) {
                         dp += ulen;
                         cp += 4;
                     } else {                    
@@ -406,7 +431,7 @@ Jsi_JSONQuote(Jsi_Interp *interp, const char *str, int len, Jsi_DString *dsPtr)
     int i = 0;
     if (len<0)
         len = Jsi_Strlen(str);
-    char cbuf[10];
+    char cbuf[16];
     Jsi_DSAppend(dsPtr,"\"",NULL);
     while (*cp && i++<len) {
         if (*cp == '\\' /* || *cp == '/' */ || *cp == '\"') {
diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index c7e3b05..54f8b9c 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -218,14 +218,19 @@ uint Jsi_UtfToUniChar(const char *utf, Jsi_UniChar *uc)
 #endif
 }
 
-// Encode UTF number to \uNNNN form.  Returns size.
+// Encode UTF number to \uNNNN form, or a pair of them when above 0xFFFF.  Returns size.
 uint Jsi_UtfEncode(const char *innum, char *outstr) {
     int32_t ival;
     int ilen;
+    ilen = Jsi_UtfToUniChar((char*)innum, &ival);
+    if (ival>0xFFFF) {
+        ival -= 0x10000;
+        snprintf(outstr, 13, "\\u%04x\\u%04x", 0xD800|((ival>>10)&0x3FF), 0xDC00|(ival&0x3FF));
+        return ilen;
+    }
     outstr[0] = '\\';
     outstr[1] = 'u';
     outstr[6] = 0;
-    ilen = Jsi_UtfToUniChar((char*)innum, &ival);
     outstr[2] = jsi_toHexChar((ival&0xF000)>>12);
     outstr[3] = jsi_toHexChar((ival&0xF00)>>8);
     outstr[4] = jsi_toHexChar((ival&0xF0)>>4);
-- 
2.43.0


From 90f7f55ede3278eac8e4fbb4eb564e42312845ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 076/179] fix: JSON: parse decodes escapes in property names

---
 src/jsiJSON.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index ce63656..0481573 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -157,7 +157,7 @@ jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, u
             nv = jsonGen1Value(interp, p, js, i, &i, 0);
         Jsi_DSInit(&dStr);
         if (t)
-            Jsi_DSAppendLen(&dStr, t, len);
+            jsonNewDString(interp, &dStr, t, len);
         Jsi_ObjInsert(interp, obj, Jsi_DSValue(&dStr), nv, 0);
         Jsi_DSFree(&dStr);
     }
-- 
2.43.0


From 95049d99d5460071ab436852e4067e81088e566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 077/179] fix: JSON: parse and check agree about texts that are
 a single number, true, false or null

---
 src/jsiJSON.c | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index 0481573..c0fe190 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -207,7 +207,7 @@ Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int fl
         js++;
     if (js[0] == 0)
         return JSI_OK;
-    switch (js[0]) {
+    if (!strict) switch (js[0]) {
         case 't': if (Jsi_Strcmp(js,"true")==0) { if (ret) Jsi_ValueMakeBool(interp, ret, 1); return JSI_OK; } break;
         case 'f': if (Jsi_Strcmp(js,"false")==0) { if (ret) Jsi_ValueMakeBool(interp, ret, 0); return JSI_OK; } break;
         case 'n': if (Jsi_Strcmp(js,"null")==0) { if (ret) Jsi_ValueMakeNull(interp, ret); return JSI_OK; } break;
@@ -236,7 +236,7 @@ Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int fl
     if (!ret)
         goto done;
     tok = p->tokens;
-    if (tok->size<=0) {
+    if (tok->size<=0 && tok->type != JSI_JTYPE_PRIMITIVE) {
         if (!*ret)
             *ret = Jsi_ValueNew(interp);
         if (tok->type == JSI_JTYPE_OBJECT)
@@ -405,22 +405,14 @@ static Jsi_RC JSONCheckCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
 
-    int r;
-    Jsi_RC result = JSI_OK;
     bool strict = 1;
-    const char *cp;
-    JSI_JSON_DECLARE(p, tokens, 0);
     Jsi_Value *jsv = Jsi_ValueArrayIndex(interp, args, 1);
     if (jsv && Jsi_ValueGetBoolean(interp, jsv, &strict) != JSI_OK) 
         return Jsi_LogError("Expected boolean");
-    p.strict = strict;
     jsv = Jsi_ValueArrayIndex(interp, args, 0);
-    cp = Jsi_ValueToString(interp, jsv, NULL);
-    
-    r = Jsi_JsonParse(&p, cp);
-    Jsi_ValueMakeBool(interp, ret, r == JSI_JSON_ERR_NONE);
-    Jsi_JsonFree(&p);
-    return result;
+    Jsi_RC rc = Jsi_JSONParse(NULL, Jsi_ValueToString(interp, jsv, NULL), NULL, strict);
+    Jsi_ValueMakeBool(interp, ret, rc == JSI_OK);
+    return JSI_OK;
 }
 
 // Apply JSON quoting to str and append result to dsPtr.
-- 
2.43.0


From 19fe806e273b512f9695f7d0519709b528ef9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:38 +0000
Subject: [PATCH 078/179] fix: JSON: subnormal numbers are not printed as null

---
 src/jsiUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 95c4c18..45e32c6 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -780,7 +780,7 @@ static Jsi_RC jsiValueGetString(Jsi_Interp *interp, Jsi_Value* v, Jsi_DString *d
         case JSI_VT_NUMBER:
             num = v->d.num;
 outnum:
-            if (isjson && !Jsi_NumberIsNormal(num)) {
+            if (isjson && !Jsi_NumberIsFinite(num)) {
                 Jsi_DSAppend(dStr, "null", NULL);
             } else if (Jsi_NumberIsInteger(num)) {
                 Jsi_NumberItoA10((Jsi_Wide)num, buf, sizeof(buf));
-- 
2.43.0


From e682127c1f8e35732e70d260931a85e5c8e600d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 079/179] fix: String: parts of a string that begin with a
 multi-byte character are not followed by stray bytes

---
 src/jsiUtf8.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index 54f8b9c..8518a86 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -103,7 +103,7 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
     ustart = n;
     ulen = len;
 #else
-    int m, e, l;
+    int m, e;
     ulen = ustart = 0;
     m = Jsi_UtfIndexToOffset(str, n);
     if (m>=0) {
@@ -112,11 +112,9 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
             ulen = Jsi_Strlen(str+m);
         } else {
             e = Jsi_UtfIndexToOffset(str+m, len);
-            l = Jsi_NumUtfBytes(str[m]);
-            if (l<0) l = 1;
-            if (e>=0 && l>0) {
+            if (e>=0) {
                 ustart = m;
-                ulen = e+l-1;
+                ulen = e;
             }
         }
     }
-- 
2.43.0


From 95784af0ffc1b48d97a316e2f4e573c82467e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 080/179] fix: String: case conversion keeps a multi-byte
 character at the end

---
 src/jsiString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index c8bd24d..bf50999 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -401,7 +401,7 @@ char *jsi_utf_tocase(const char *cp, int blen, int upper, Jsi_DString *dsPtr)
             int32_t c;
             Jsi_UtfToUniChar(cp, &c);
             int n = Jsi_UniCharToUtf(c, unibuf);
-            if ((m+n)>=blen)
+            if ((m+n)>blen)
                 break;
             unibuf[n] = 0;
             cp += n;
-- 
2.43.0


From 3513ab0bce107ee39e2767d937bc80c7cad71737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 081/179] fix: String: substr and substring of an empty string
 with a negative start do not hang

---
 src/jsiChar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiChar.c b/src/jsiChar.c
index 25457a0..c2cfc5b 100644
--- a/src/jsiChar.c
+++ b/src/jsiChar.c
@@ -86,6 +86,7 @@ empty:
     
     if (alen<0)
         alen = Jsi_Strlen(a);
+    if (alen <= 0) goto empty;
     while (start < 0) start += alen;
     if (start >= alen) goto empty;
     
-- 
2.43.0


From 331e7d2e6177fb5864ee67dfc0829a784bac7476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 082/179] fix: String: indexOf, lastIndexOf, search and replace
 count characters, not bytes

---
 src/jsiString.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index bf50999..e277c62 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -249,7 +249,9 @@ static Jsi_RC StringIndexOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         if (istart < 0) istart = 0;
     }
 
-    int r = Jsi_Strpos(v, istart, vseq, 0);
+    int r = (istart>sLen ? -1 : Jsi_Strpos(v, Jsi_UtfIndexToOffset(v, istart), vseq, 0));
+    if (r>0)
+        r = Jsi_NumUtfChars(v, r);
     Jsi_ValueMakeNumber(interp, ret, r);
 
     return JSI_OK;
@@ -509,7 +511,9 @@ static Jsi_RC StringLastIndexOfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
         if (istart < 0) istart = 0;
     }
 
-    int r = Jsi_Strrpos(v, istart, vseq, 0);
+    int r = (istart>sLen ? -1 : Jsi_Strrpos(v, Jsi_UtfIndexToOffset(v, istart), vseq, 0));
+    if (r>0)
+        r = Jsi_NumUtfChars(v, r);
     Jsi_ValueMakeNumber(interp, ret, r);
 
     return JSI_OK;;
@@ -831,7 +835,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                         items[i] = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
                     }
                 }
-                items[i++] = Jsi_ValueMakeNumber(interp, NULL, eoffset+pmatch[0].rm_so);
+                items[i++] = Jsi_ValueMakeNumber(interp, NULL, Jsi_NumUtfChars(source_str, eoffset+pmatch[0].rm_so));
                 items[i++] = strVal;
                 vpargs = Jsi_ValueMakeObject(interp, NULL, Jsi_ObjNewArray(interp, items, i, 0));
                 Jsi_IncrRefCount(interp, vpargs);
@@ -899,7 +903,7 @@ static Jsi_RC StringSearchCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         char *ce, *cp = Jsi_ValueString(interp, seq, NULL);
         int n = -1;
         if ((ce = Jsi_Strstr(source_str, cp))) {
-            n = (ce-source_str);
+            n = Jsi_NumUtfChars(source_str, ce-source_str);
         }
         Jsi_ValueMakeNumber(interp, ret, n);
         return JSI_OK;
@@ -927,7 +931,7 @@ static Jsi_RC StringSearchCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         }
 
     }
-    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos[0].rm_so);
+    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)Jsi_NumUtfChars(v, pos[0].rm_so));
     return JSI_OK;
 }
 
-- 
2.43.0


From f99692690c6ed11eaf19e2ed16d8d3ecb53ad2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 083/179] fix: String: slice counts characters and gives
 nothing from behind the end

---
 src/jsiString.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index e277c62..3d86b58 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -559,7 +559,7 @@ static Jsi_RC StringSliceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 
     Jsi_Value *start = Jsi_ValueArrayIndex(interp, args, skip);
     Jsi_Value *end = Jsi_ValueArrayIndex(interp, args, 1+skip);
-    int istart, iend, len = Jsi_Strlen(vstr);
+    int istart, iend, len = sLen;
 
     if (Jsi_GetIntFromValue(interp, start, &istart)) {
         return JSI_ERROR;
@@ -569,7 +569,7 @@ static Jsi_RC StringSliceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     if (istart < 0)
         istart = 0;
     if (istart>=len)
-        istart = len-1;
+        istart = len;
     iend = len;
     if (end) {
         if (Jsi_GetIntFromValue(interp, end, &iend)) {
-- 
2.43.0


From a3766a2cf42a4ab7fbe6632f8e61aa630a7d1908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 084/179] fix: String: repeat of an empty string

---
 src/jsiString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index 3d86b58..74213a3 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -209,7 +209,7 @@ static Jsi_RC StringRepeatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_Value *start = Jsi_ValueArrayIndex(interp, args, skip);
     
     Jsi_Number ncnt;
-    if (!start || Jsi_GetNumberFromValue(interp,start, &ncnt) != JSI_OK || ncnt>MAX_LOOP_COUNT || ncnt<0 || bLen<=0) {
+    if (!start || Jsi_GetNumberFromValue(interp,start, &ncnt) != JSI_OK || ncnt>MAX_LOOP_COUNT || ncnt<0) {
         return Jsi_LogError("count out of range");;
     }
     int cnt = (int)ncnt;
-- 
2.43.0


From 01fcfacf8c4b2e21311dc72f38ac3b46b4f0ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 085/179] fix: String: the function of replace with a string
 gets the match

---
 src/jsiString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index 74213a3..51ab23a 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -695,7 +695,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                 }
                 Jsi_DSAppendLen(&dStr, replace_str, replace_len);
             } else {
-                Jsi_Value *inStr = Jsi_ValueNewStringDup(interp, source_str);
+                Jsi_Value *inStr = Jsi_ValueNewStringDup(interp, cp);
                 Jsi_IncrRefCount(interp, inStr);
                 Jsi_RC rc = Jsi_FunctionInvokeString(interp, repVal, inStr, &dStr, _this);
                 if (Jsi_InterpGone(interp))
-- 
2.43.0


From 5c612928fad2b3260d5a453416dd2bae2e66a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 086/179] fix: String: trim compares characters, not bytes

---
 src/jsiString.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index 51ab23a..1d95665 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -337,11 +337,19 @@ static Jsi_RC StringCharCodeAtCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
 }
 
 
-static Jsi_RC _StringTrimCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this, // TODO: UTF
+// Bytes taken by the char at str.
+static int jsi_CharLen(const char *str, int bLen)
+{
+    int n = 1;
+    while (n<bLen && (str[n]&0xc0)==0x80) n++;
+    return n;
+}
+
+static Jsi_RC _StringTrimCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr, int ends)
 {
     const char *tstr = " \t\n\r", *vstr;
-    int vend,  n, tlen = Jsi_Strlen(tstr), clen, bLen;
+    int vend,  n, m, tlen = Jsi_Strlen(tstr), clen, bLen;
     ChkString(_this, funcPtr, vstr, &clen, &bLen);
     
     Jsi_Value *tchars = Jsi_ValueArrayIndex(interp, args, skip);
@@ -353,18 +361,20 @@ static Jsi_RC _StringTrimCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     
     if (ends&1) {
         while (*vstr) {
-            for (n=0; n<tlen; n++)
-                if (tstr[n] == *vstr) break;
+            m = jsi_CharLen(vstr, bLen);
+            for (n=0; n<tlen; n+=jsi_CharLen(tstr+n, tlen-n))
+                if ((n+m)<=tlen && !Jsi_Strncmp(tstr+n, vstr, m)) break;
             if (n>=tlen) break;
-            vstr++;
-            bLen--;
+            vstr += m;
+            bLen -= m;
         }
     }
     vend = bLen-1;
     if (ends&2) {
-        for (; vend>=0; vend--) {
-            for (n=0; n<tlen; n++)
-                if (tstr[n] == vstr[vend]) break;
+        for (; vend>=0; vend-=m) {
+            for (m=1; m<=vend && (vstr[vend+1-m]&0xc0)==0x80; m++);
+            for (n=0; n<tlen; n+=jsi_CharLen(tstr+n, tlen-n))
+                if ((n+m)<=tlen && !Jsi_Strncmp(tstr+n, vstr+vend+1-m, m)) break;
             if (n>=tlen) break;
         }
     }
-- 
2.43.0


From 86ad18524f68c4eab323bcb9ec566d730e03bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:05 +0000
Subject: [PATCH 087/179] fix: String: map does not convert the elements of the
 array it is given

---
 src/jsiString.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index 1d95665..354455d 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -618,23 +618,36 @@ static Jsi_RC StringMapCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         return Jsi_LogError("expected even length array");
     if (argc>(skip+1) && Jsi_ValueGetBoolean(interp, Jsi_ValueArrayIndex(interp, args, skip+1), &nocase) != JSI_OK) 
         return Jsi_LogError("expected boolean");
-    Jsi_DString dStr;
+    Jsi_DString dStr, kStr;
     Jsi_DSInit(&dStr);
+    Jsi_DSInit(&kStr);
     Jsi_Obj *obj = repVal->d.obj;
     p = source_str;
     for (j=0; j<(uint)bLen; j++, p++) {
         for (i=0; i<obj->arrCnt; i+=2) {
             if (!obj->arr[i]) continue;
             if (!obj->arr[i+1]) continue;
-            const char *cp = Jsi_ValueToString(interp, obj->arr[i], &slen);
+            Jsi_DSSetLength(&kStr, 0);
+            const char *cp = Jsi_ValueString(interp, obj->arr[i], &slen);
+            if (!cp) {
+                cp = Jsi_ValueGetDString(interp, obj->arr[i], &kStr, 0);
+                slen = Jsi_DSLength(&kStr);
+            }
             if (!cp || !slen) {
+                Jsi_DSFree(&kStr);
                 Jsi_DSFree(&dStr);
                 return Jsi_LogError("map src can not be empty");
             }
             int res = (nocase ? Jsi_Strncasecmp(cp, p, slen) : Jsi_Strncmp(cp, p, slen));
             if (!res) {
-                replace_str = Jsi_ValueToString(interp, obj->arr[i+1], &replace_len);
+                Jsi_DSSetLength(&kStr, 0);
+                replace_str = Jsi_ValueString(interp, obj->arr[i+1], &replace_len);
+                if (!replace_str) {
+                    replace_str = Jsi_ValueGetDString(interp, obj->arr[i+1], &kStr, 0);
+                    replace_len = Jsi_DSLength(&kStr);
+                }
                 if ((Jsi_DSLength(&dStr)+replace_len+1)>=JSI_MAX_ALLOC_BUF) {
+                    Jsi_DSFree(&kStr);
                     Jsi_DSFree(&dStr);
                     return Jsi_LogError("too long");
                 }
@@ -648,6 +661,7 @@ static Jsi_RC StringMapCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
             Jsi_DSAppendLen(&dStr, p, 1);
     }
 
+    Jsi_DSFree(&kStr);
     Jsi_ValueFromDS(interp, &dStr, ret);
     return JSI_OK;
 }
-- 
2.43.0


From 572d9c75986965b0c023ad034d29688a071c2873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 088/179] fix: RegExp: match and exec give every group, and
 only those of one match unless global

---
 src/jsiRegexp.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index 13db680..20815de 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -256,32 +256,34 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
         }
     
         int i;
-        for (i = 0; i < MAX_SUBREGEX; ++i) {
-            if (pos[i].rm_so <= 0 && pos[i].rm_eo <= 0)
-                break;
-            if (i && pos[i].rm_so == pos[i-1].rm_so && pos[i].rm_eo == pos[i-1].rm_eo)
-                continue;
-    
-            int olen = -1;
-            char *ostr = jsi_SubstrDup(str, -1, pos[i].rm_so, pos[i].rm_eo - pos[i].rm_so, &olen);
-            Jsi_Value *val = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
-            if (ofs)
-                *ofs = pos[i].rm_eo;
+        for (i = 0; i <= (int)reg->re_nsub && i < MAX_SUBREGEX; ++i) {
+            Jsi_Value *val;
+            if (pos[i].rm_so < 0)
+                val = Jsi_ValueMakeNull(interp, NULL);
+            else {
+                int olen = -1;
+                char *ostr = jsi_SubstrDup(str, -1, pos[i].rm_so, pos[i].rm_eo - pos[i].rm_so, &olen);
+                val = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
+            }
             Jsi_ValueInsertArray(interp, ret, num_matches, val, 0);
             num_matches++;
             if ( match && isglob)
                 break;
         }
-        if (num_matches && match && !isglob)
-            return JSI_OK;
-        if (num_matches == 1 && (ofs || !isglob))
+        if (ofs)
+            *ofs = pos[0].rm_eo;
+        if (ofs || !isglob)
             break;
         
         str += pos[0].rm_eo;
-        n -= pos[0].rm_eo;
+        if (pos[0].rm_eo == pos[0].rm_so) { // Step over the char after an empty match.
+            if (!*str)
+                break;
+            for (str++; (*str&0xc0)==0x80; str++);
+        }
 
         regexec_flags |= REG_NOTBOL;
-    } while (n && pos[0].rm_eo>0);
+    } while (1);
     
     return JSI_OK;
 }
-- 
2.43.0


From 7086dca1808cdede795ef74520a6187fdca122ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 089/179] fix: RegExp: exec keeps lastIndex in the expression
 it belongs to, checks its range, and does not match ^ in the middle

---
 src/jsiRegexp.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index 20815de..054aea2 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -216,7 +216,7 @@ Jsi_RC Jsi_RegExpMatch(Jsi_Interp *interp, Jsi_Value *pattern, const char *v, in
 Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str, int n, Jsi_Value *ret, int *ofs, bool match)
 {
     Jsi_Regex *re;
-    int regexec_flags = 0;
+    int regexec_flags = (ofs && n>0 ? REG_NOTBOL : 0); // With ofs, n is how far str is into the string.
     Jsi_Value *seq = pattern;
 
     if (seq == NULL || seq->vt != JSI_VT_OBJECT || seq->d.obj->ot != JSI_OT_REGEXP) {
@@ -311,7 +311,7 @@ static Jsi_RC RegexpExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     if (v == NULL || v->vt != JSI_VT_OBJECT || v->d.obj->ot != JSI_OT_REGEXP) 
         return Jsi_LogError("expected pattern");
     Jsi_Regex *re = v->d.obj->d.robj;
-    int isglob = (re->eflags&JSI_REG_GLOB);
+    int isglob = (re->eflags&JSI_REG_GLOB), lastIndex = 0;
     Jsi_Value *l = NULL;
     Jsi_Number lv = 0;
     if (isglob) {
@@ -319,17 +319,18 @@ static Jsi_RC RegexpExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         if (l && (Jsi_ValueGetNumber(interp, l, &lv) != JSI_OK || !Jsi_NumberIsNormal(lv))) 
             return Jsi_LogError("lastIndex not a number");
         if (l)
-            re->lastIndex = (int)lv;
+            lastIndex = (lv<0 ? 0 : lv>slen ? slen+1 : (int)lv);
     }
     int ofs = 0;
-    Jsi_RC rc = jsi_RegExpMatches(interp, v, re->lastIndex<slen?str+re->lastIndex:"", -1, *ret, isglob?&ofs:NULL, 0);
+    Jsi_RC rc = (lastIndex>slen ? (Jsi_ValueMakeNull(interp, ret), JSI_OK) :
+        jsi_RegExpMatches(interp, v, str+lastIndex, lastIndex, *ret, isglob?&ofs:NULL, 0));
     if (isglob) {
         if (rc != JSI_OK)
             return rc;
-        re->lastIndex += ofs;
+        lastIndex += ofs;
         if (Jsi_ValueIsNull(interp, *ret))
-            re->lastIndex = 0;
-        lv = (Jsi_Number)re->lastIndex;
+            lastIndex = 0;
+        lv = (Jsi_Number)lastIndex;
         if (!l)
             Jsi_ValueInsert(interp, v, "lastIndex", Jsi_ValueNewNumber(interp, lv), JSI_OM_DONTDEL);
         else if (l->vt == JSI_VT_NUMBER)
-- 
2.43.0


From 3e5b384da389e32508bc9e86e30f016a53975bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 090/179] fix: String: replace with a $ at the end of the
 replacement, and $` of later matches

---
 src/jsiString.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index 354455d..54e1359 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -796,7 +796,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                 int idx;
                 int c = replace_str[j];
      
-                if (c == '$' && j < replace_len) {
+                if (c == '$' && (j+1) < replace_len) {
                     c = replace_str[++j];
                     if ((c >= '0') && (c <= '9')) {
                         idx = c - '0';
@@ -807,11 +807,11 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
                         continue;
                     }
                     else if (c == '\'') {
-                        Jsi_DSAppendLen(&dStr, p + pmatch[0].rm_eo, pmatch[0].rm_eo-Jsi_Strlen(p));
+                        Jsi_DSAppend(&dStr, p + pmatch[0].rm_eo, NULL);
                         continue;
                     }
                     else if (c == '`') {
-                        Jsi_DSAppendLen(&dStr, p, pmatch[0].rm_so);
+                        Jsi_DSAppendLen(&dStr, source_str, (p-source_str)+pmatch[0].rm_so);
                         continue;
                     }
                     else {
-- 
2.43.0


From 049c5564b0676e5f509281a90f93b32c14e6d642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 091/179] fix: String: replace finds empty matches also with a
 function or the global flag

---
 src/jsiString.c | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index 54e1359..21078c6 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -685,7 +685,7 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     const char *p;
     int maxArgs = 1;
 
-    int offset = 0, n, j, isglob = 0, num_matches = 0;
+    int offset = 0, j, isglob = 0, num_matches = 0;
     /* Is a generic  String.replace if _this->d.obj is a function */
     ChkString(_this, funcPtr, source_str, &source_len, &bLen);
     source_len = bLen;
@@ -764,7 +764,6 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     }
 
     Jsi_DSAppendLen(&dStr, source_str, offset);
-    n = source_len - offset;
     p = source_str + offset;
     Jsi_RC rc = JSI_OK;
     do {
@@ -831,8 +830,6 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         } else {
             Jsi_DString sStr;
             Jsi_DSInit(&sStr); 
-            if (pmatch[0].rm_so <= 0 && pmatch[0].rm_eo <= 0)
-                break;
             int olen = -1;
             char *ostr = jsi_SubstrDup(p, -1, pmatch[0].rm_so, pmatch[0].rm_eo - pmatch[0].rm_so, &olen);
             Jsi_Value *inStr = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
@@ -881,26 +878,25 @@ static Jsi_RC StringReplaceCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         }
         eoffset += pmatch[0].rm_eo;
         p += pmatch[0].rm_eo;
-        n -= pmatch[0].rm_eo;
-        /* If -all is not specified, or there is no source left, we are done */
-        if (!isglob || n == 0 || pmatch[0].rm_eo == 0) {
-            break;
-        }
-        /* An anchored pattern without -line must be done */
-        if ((re->eflags & JSI_REG_NEWLINE) == 0 && re->pattern[0] == '^') {
+        /* If -all is not specified, we are done */
+        if (!isglob) {
             break;
         }
         
-        /* If the pattern is empty, need to step forwards */
-        if (re->pattern[0] == '\0' && n) {
+        /* If the match is empty, need to step forwards */
+        if (pmatch[0].rm_eo == pmatch[0].rm_so) {
+            if (!*p)
+                break;
             /* Need to copy the char we are moving over */
-            Jsi_DSAppendLen(&dStr, p, 1);
-            p++;
-            n--;
+            do {
+                Jsi_DSAppendLen(&dStr, p, 1);
+                p++;
+                eoffset++;
+            } while ((*p&0xc0)==0x80);
         }
 
         regexec_flags |= REG_NOTBOL;
-    } while (n);
+    } while (1);
 
     /*
      * Copy the portion of the string after the last match to the
-- 
2.43.0


From f7796963f7a37d9bf3ca4a6d776d312650932582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:30 +0000
Subject: [PATCH 092/179] fix: RegExp: lastIndex counts characters, as the
 indexes of String do

---
 src/jsiRegexp.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index 054aea2..da87d8a 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -312,6 +312,7 @@ static Jsi_RC RegexpExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         return Jsi_LogError("expected pattern");
     Jsi_Regex *re = v->d.obj->d.robj;
     int isglob = (re->eflags&JSI_REG_GLOB), lastIndex = 0;
+    int clen = Jsi_NumUtfChars(str, slen), skipLen = 0;
     Jsi_Value *l = NULL;
     Jsi_Number lv = 0;
     if (isglob) {
@@ -319,15 +320,17 @@ static Jsi_RC RegexpExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         if (l && (Jsi_ValueGetNumber(interp, l, &lv) != JSI_OK || !Jsi_NumberIsNormal(lv))) 
             return Jsi_LogError("lastIndex not a number");
         if (l)
-            lastIndex = (lv<0 ? 0 : lv>slen ? slen+1 : (int)lv);
+            lastIndex = (lv<0 ? 0 : lv>clen ? clen+1 : (int)lv);
+        if (lastIndex <= clen)
+            skipLen = Jsi_UtfIndexToOffset(str, lastIndex);
     }
     int ofs = 0;
-    Jsi_RC rc = (lastIndex>slen ? (Jsi_ValueMakeNull(interp, ret), JSI_OK) :
-        jsi_RegExpMatches(interp, v, str+lastIndex, lastIndex, *ret, isglob?&ofs:NULL, 0));
+    Jsi_RC rc = (lastIndex>clen ? (Jsi_ValueMakeNull(interp, ret), JSI_OK) :
+        jsi_RegExpMatches(interp, v, str+skipLen, skipLen, *ret, isglob?&ofs:NULL, 0));
     if (isglob) {
         if (rc != JSI_OK)
             return rc;
-        lastIndex += ofs;
+        lastIndex = Jsi_NumUtfChars(str, skipLen+ofs);
         if (Jsi_ValueIsNull(interp, *ret))
             lastIndex = 0;
         lv = (Jsi_Number)lastIndex;
-- 
2.43.0


From c440b7d744077c6b5488c834bfe71e392b3f1eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 093/179] fix: Channel: changing between reading and writing
 lost data, truncate ignored buffered data

---
 src/jsi.h        |  2 +-
 src/jsiFilesys.c | 24 +++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/jsi.h b/src/jsi.h
index ccc8419..7775a08 100644
--- a/src/jsi.h
+++ b/src/jsi.h
@@ -187,7 +187,7 @@ typedef enum {
     JSI_MUTEX_RECURSIVE=2,
     
     JSI_FS_NOCLOSE=0x1, JSI_FS_READONLY=0x2, JSI_FS_WRITEONLY=0x4, JSI_FS_APPEND=0x8,
-    JSI_FS_COMPRESS=0x100,
+    JSI_FS_ISREADING=0x10, JSI_FS_ISWRITING=0x20, JSI_FS_COMPRESS=0x100,
     JSI_FSMODESIZE=15,
     JSI_FILE_TYPE_FILES=0x1, JSI_FILE_TYPE_DIRS=0x2,    JSI_FILE_TYPE_MOUNT=0x4,
     JSI_FILE_TYPE_LINK=0x8,  JSI_FILE_TYPE_PIPE=0x10,   JSI_FILE_TYPE_BLOCK=0x20,
diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3d38a24..8b5d566 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -166,16 +166,35 @@ static int jsi_FSLstatProc(Jsi_Interp *interp, Jsi_Value* path, Jsi_StatBuf *buf
 static int jsi_FSFlushProc(Jsi_Channel chan) { return fflush(_JSI_GETFP(chan,0));}
 static int jsi_FSTellProc(Jsi_Channel chan) { return ftell(_JSI_GETFP(chan,1));}
 static int jsi_FSEofProc(Jsi_Channel chan) { return feof(_JSI_GETFP(chan,1));}
-static int jsi_FSTruncateProc(Jsi_Channel chan, unsigned int len) { return ftruncate(fileno(_JSI_GETFP(chan,1)), len);}
+static int jsi_FSTruncateProc(Jsi_Channel chan, unsigned int len) {
+    FILE *fp = _JSI_GETFP(chan,1);
+    if (fflush(fp)) return -1;
+    return ftruncate(fileno(fp), len);
+}
 static int jsi_FSRewindProc(Jsi_Channel chan) { rewind(_JSI_GETFP(chan,1)); return 0;}
 static int jsi_FSCloseProc(Jsi_Channel chan) { return fclose(_JSI_GETFP(chan,1));}
 static int jsi_FSSeekProc(Jsi_Channel chan, Jsi_Wide offset, int mode) { return fseek(_JSI_GETFP(chan,1), offset, mode);}
 
+/* The C library wants a flush or seek whenever a stream changes between reading and writing. */
+static bool jsi_FSDirection(Jsi_Channel chan, bool write) {
+    if (!chan || !chan->fp)
+        return 1;
+    if (chan->flags & (write?JSI_FS_READONLY:JSI_FS_WRITEONLY))
+        return 0;
+    if (chan->flags & (write?JSI_FS_ISREADING:JSI_FS_ISWRITING))
+        fseek(chan->fp, 0, SEEK_CUR);
+    chan->flags &= ~(JSI_FS_ISREADING|JSI_FS_ISWRITING);
+    chan->flags |= (write?JSI_FS_ISWRITING:JSI_FS_ISREADING);
+    return 1;
+}
+
 static int jsi_FSWriteProc(Jsi_Channel chan, const char *buf, int size) {
+    if (!jsi_FSDirection(chan, 1)) return -1;
     return fwrite(buf, 1, size, _JSI_GETFP(chan,0));
 }
 
 static int jsi_FSReadProc(Jsi_Channel chan, char *buf, int size) {
+    if (!jsi_FSDirection(chan, 0)) return -1;
     return fread(buf, 1, size, _JSI_GETFP(chan,0));
 }
 
@@ -213,6 +232,7 @@ static int jsi_FSReadlinkProc(Jsi_Interp *interp, Jsi_Value *path, char *buf, in
 #endif // __WIN32
 
 static int jsi_FSGetcProc(Jsi_Channel chan) {
+    if (!jsi_FSDirection(chan, 0)) return -1;
     return fgetc(_JSI_GETFP(chan,1));
 }
 
@@ -221,10 +241,12 @@ static int jsi_FSUngetcProc(Jsi_Channel chan, int ch) {
 }
 
 static char * jsi_FSGetsProc(Jsi_Channel chan, char *s, int size) {
+    if (!jsi_FSDirection(chan, 0)) return NULL;
     return fgets(s, size, _JSI_GETFP(chan,1));
 }
 
 static int jsi_FSPutsProc(Jsi_Channel chan, const char *s) {
+    if (!jsi_FSDirection(chan, 1)) return -1;
     return fputs(s, _JSI_GETFP(chan,0));
 }
 
-- 
2.43.0


From 819ef6f1a8fc35ee402f499b6f375da342a70778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 094/179] fix: Channel.read(0) read everything

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 8b5d566..35f9b35 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -869,7 +869,7 @@ static Jsi_RC FilesysReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
     }
     if (argc>0 && Jsi_GetIntFromValue(interp, Jsi_ValueArrayIndex(interp, args, 0), &nsiz) != JSI_OK)
         goto bail;
-    while (cnt++ < MAX_LOOP_COUNT) {
+    while (nsiz != 0 && cnt++ < MAX_LOOP_COUNT) {
         rsiz = sizeof(buf);
         if (nsiz>0 && ((sum+rsiz)>nsiz))
             rsiz = (nsiz-sum);
-- 
2.43.0


From 765710c68c2a0e8f17420068f3de3dd33a08be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 095/179] fix: Channel: functions of a closed channel used
 freed memory, a failing open returned true, gets cut long lines, truncate of
 a negative length

---
 src/jsiFilesys.c | 70 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 35f9b35..679396b 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -729,7 +729,9 @@ static void fileObjErase(FileObj *fo)
         Jsi_DecrRefCount(fo->interp, fo->fname);
         Jsi_Free(fo->mode);
     }
-    fo->filename = NULL;
+    fo->filename = fo->mode = NULL;
+    fo->chan = NULL;
+    fo->fname = NULL;
 }
 
 static Jsi_RC fileObjFree(Jsi_Interp *interp, void *data)
@@ -792,13 +794,17 @@ static int try_open_file(Jsi_Interp *interp, FileObj *udf, Jsi_Value *args)
     if (!udf) \
         return Jsi_LogError("Channel.%s called with non-file object", funcPtr->cmdSpec->name);
 
+#define UdfGetOpen(udf, _this, funcPtr) \
+    UdfGet(udf, _this, funcPtr); \
+    if (!udf->filename) \
+        return Jsi_LogError("Channel.%s called with closed channel", funcPtr->cmdSpec->name);
+
 static Jsi_RC FilesysOpenCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     UdfGet(udf, _this, funcPtr);
-    if (try_open_file(interp, udf, args) != JSI_OK) {
-        Jsi_ValueMakeBool(interp, ret, 0);
-    }
+    if (try_open_file(interp, udf, args) != JSI_OK)
+        return JSI_ERROR;
     Jsi_ValueMakeBool(interp, ret, 1);
     return JSI_OK;
 }
@@ -815,22 +821,42 @@ static Jsi_RC FilesysCloseCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 static Jsi_RC FilesysGetsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    int len;
     UdfGet(udf, _this, funcPtr);
     if (!udf->filename) {
         Jsi_ValueMakeUndef(interp, ret);
         return JSI_OK;
     }
-    char buf[JSI_BUFSIZ];
-    if (!Jsi_Gets(interp, udf->chan, buf, sizeof(buf))) {
-        Jsi_ValueMakeUndef(interp, ret);
-        return JSI_OK;
+    Jsi_DString dStr = {};
+    bool got = 0, nl = 0;
+    if (udf->chan->fsPtr && udf->chan->fsPtr->getcProc) {
+        int ch;
+        char c;
+        while (!nl && (ch = Jsi_Getc(interp, udf->chan)) >= 0) {
+            got = 1;
+            c = (char)ch;
+            if (c == '\n')
+                nl = 1;
+            else
+                Jsi_DSAppendLen(&dStr, &c, 1);
+        }
+    } else {
+        char buf[JSI_BUFSIZ];
+        while (!nl && Jsi_Gets(interp, udf->chan, buf, sizeof(buf))) {
+            got = 1;
+            buf[sizeof(buf)-1] = 0;
+            int len = Jsi_Strlen(buf);
+            if (len > 0 && buf[len-1] == '\n') {
+                nl = 1;
+                len--;
+            }
+            Jsi_DSAppendLen(&dStr, buf, len);
+        }
     }
-    buf[sizeof(buf)-1] = 0;
-    len = Jsi_Strlen(buf);
-    if (len > 0 && buf[len-1] == '\n')
-        buf[len-1] = 0;
-    Jsi_ValueMakeStringDup(interp, ret, buf);
+    if (got)
+        Jsi_ValueFromDS(interp, &dStr, ret);
+    else
+        Jsi_ValueMakeUndef(interp, ret);
+    Jsi_DSFree(&dStr);
     return JSI_OK;
 }
 
@@ -896,7 +922,7 @@ static Jsi_RC FilesysSeekCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 {
     static const char *posStr[] = { "set", "cur", "end", NULL };
     enum { W_SET, W_CUR, W_END };
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Value *vPos = Jsi_ValueArrayIndex(interp, args, 0);
     Jsi_Value *vWhence = Jsi_ValueArrayIndex(interp, args, 1);
     int mode = 0, p;
@@ -920,11 +946,13 @@ static Jsi_RC FilesysSeekCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Value *vPos = Jsi_ValueArrayIndex(interp, args, 0);
     Jsi_Number num;
     if (Jsi_ValueGetNumber(interp, vPos, &num) != JSI_OK)
         return JSI_ERROR;
+    if (!(num >= 0))
+        return Jsi_LogError("invalid length");
     num = (Jsi_Number)Jsi_Truncate(interp, udf->chan, (unsigned int)num);
     Jsi_ValueMakeNumber(interp, ret, num);
     return JSI_OK;
@@ -933,7 +961,7 @@ static Jsi_RC FilesysTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
 static Jsi_RC FilesysStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
 #if JSI__FILESYS==1
     return jsi_FileStatCmd(interp, udf->fname, ret, 0);
 #else
@@ -944,7 +972,7 @@ static Jsi_RC FilesysStatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysLstatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
 #if JSI__FILESYS==1
     return jsi_FileStatCmd(interp, udf->fname, ret, 1);
 #else
@@ -955,7 +983,7 @@ static Jsi_RC FilesysLstatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 static Jsi_RC FilesysTellCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_Wide pos = Jsi_Tell(interp, udf->chan);
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos);
     return JSI_OK;
@@ -964,7 +992,7 @@ static Jsi_RC FilesysTellCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysFlushCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     int pos = Jsi_Flush(interp, udf->chan);
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)pos);
     return JSI_OK;
@@ -1017,7 +1045,7 @@ static Jsi_RC FilesysPutsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
 static Jsi_RC FilesysEofCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    UdfGet(udf, _this, funcPtr);
+    UdfGetOpen(udf, _this, funcPtr);
     Jsi_ValueMakeBool(interp, ret, Jsi_Eof(interp, udf->chan));
     return JSI_OK;
 }
-- 
2.43.0


From a13fc0042fecdb9702400d0af513b84353099a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 096/179] fix: Channel.puts wrote to stdout for compressed
 channels and stopped at NULs

---
 src/jsiFilesys.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 679396b..2e136a3 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1032,9 +1032,10 @@ static Jsi_RC FilesysPutsCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         Jsi_ValueMakeBool(interp, ret, 0);
         return JSI_OK;
     }
-    const char * cp = Jsi_ValueToString(interp, toput, NULL);
+    int len = 0;
+    const char * cp = Jsi_ValueToString(interp, toput, &len);
 
-    if (Jsi_Printf(interp, udf->chan, "%s\n", cp?cp:"") < 0) {
+    if ((len > 0 && Jsi_Write(interp, udf->chan, cp, len) != len) || Jsi_Write(interp, udf->chan, "\n", 1) != 1) {
         Jsi_ValueMakeBool(interp, ret, 0);
         return JSI_OK;
     }
-- 
2.43.0


From 1ffce1721df9143e6634a6a6c4da94a0e8943ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:23 +0000
Subject: [PATCH 097/179] fix: File.glob cut names longer than the current
 directory

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 17a5332..633bd9a 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1132,7 +1132,7 @@ dumpit:
             Jsi_DSAppend(&tStr, z, NULL);
             z = Jsi_DSValue(&tStr);
             uint dlen = (uint)opts->dirLen;
-            if (!opts->tails && dlen && Jsi_Strlen(z)>=dlen) {
+            if (!opts->tails && dlen && opts->dir && !Jsi_Strncmp(z, Jsi_ValueString(interp, opts->dir, NULL), dlen)) {
                 z += dlen;
                 if (z[0] == '/' && !opts->prefix) z++;
             }
-- 
2.43.0


From 51e1a9cbf1dc25575765f3a8678a5a53ecdc9493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:23 +0000
Subject: [PATCH 098/179] fix: File.glob with a pattern in its first directory
 looked in /

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 633bd9a..239183c 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1019,7 +1019,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                 if (zPattern != NULL && Jsi_GlobMatch(zPattern, z, 0) == 0)
                     continue;
                 Jsi_DString sStr = {};
-                Jsi_DSAppend(&sStr, spath, "/", z, mid, NULL);
+                Jsi_DSAppend(&sStr, spath, (spath[0]?"/":""), z, mid, NULL);
                 rc = SubGlobsDirectory(interp, obj, NULL, NULL, Jsi_DSValue(&sStr), opts, deep, cnt+1, _this);
                 Jsi_DSFree(&sStr);
                 continue;
-- 
2.43.0


From fd3df0a12acde2c7b3e9e2fc11d01ea47c4ef2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:23 +0000
Subject: [PATCH 099/179] fix: File.glob with a regexp listed a second time or
 crashed

---
 src/jsiFileCmds.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 239183c..3a5064d 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1200,6 +1200,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     GlobData Data = {};
     Jsi_Obj *obj = NULL;
     bool iso1 = 0;
+    Jsi_Value *reg = NULL;
     //int len;
     //char *zPattern = NULL;
     const char *dcp, *zPattern = NULL;
@@ -1280,7 +1281,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (pat == NULL || Jsi_ValueIsNull(interp, pat))
         dcp = "*";
     else if (Jsi_ValueIsObjType(interp, pat, JSI_OT_REGEXP))
-        rc = SubGlobsDirectory(interp, obj, pat, NULL, dcp, &Data, 0, 0, _this);
+        reg = pat;
     else {
         dcp = Jsi_ValueString(interp, pat, NULL);
         if (!dcp) {
@@ -1290,7 +1291,9 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     }
     if (!*dcp)
         dcp = "*";
-    if (Data.recurse) {
+    if (reg)
+        dcp = Jsi_ValueString(interp, Data.dir, NULL);
+    else if (Data.recurse) {
         if (Jsi_Strchr(dcp, '/')) {
             rc = Jsi_LogError("patern may can not contain '/' with recurse");
             goto done;
@@ -1302,7 +1305,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     } else
         dcp = Jsi_DSAppend(&dStr, dcp, NULL);
         
-    rc = SubGlobsDirectory(interp, obj, NULL, zPattern, dcp, &Data, 0, 0, _this);
+    rc = SubGlobsDirectory(interp, obj, reg, zPattern, dcp, &Data, 0, 0, _this);
     if (rc != JSI_OK)
         Jsi_ValueMakeUndef(interp, ret);   
     else if (Data.retCount)
-- 
2.43.0


From 60cd882e1784b89e0f3ab96b72f3678e9a561407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 100/179] fix: File.glob with a function freed the function

---
 src/jsiFileCmds.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 3a5064d..eb8fbe8 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1223,6 +1223,7 @@ static Jsi_RC FileGlobCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 switch (sobj->ot) {
                     case JSI_OT_FUNCTION:
                         Data.filter = arg;
+                        Jsi_IncrRefCount(interp, arg);
                         break;
                     case JSI_OT_OBJECT:
                         if (!sobj->isarrlist) {
-- 
2.43.0


From b7d7e42a0476e5b2dedde73ec83e0c3eacced7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 101/179] fix: File.copy of a file to itself changed its
 permissions, failed writes were not noticed

---
 src/jsiFileCmds.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index eb8fbe8..44edc90 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -523,12 +523,18 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
     Jsi_Channel ich = Jsi_Open(interp, src, "rb");
     if (!ich)
         return -1;
+#ifndef __WIN32
+    Jsi_StatBuf sb;
+    int sbRc = Jsi_Stat(interp, src, &sb);
+#endif
     if (force && Jsi_Access(interp, dest, F_OK) == 0) {
         Jsi_Remove(interp, dest, 0);
     }
     Jsi_Channel och = Jsi_Open(interp, dest, "wb+");
-    if (!och)
+    if (!och) {
+        Jsi_Close(interp, ich);
         return -1;
+    }
     while (1) {
         char buf[JSI_BUFSIZ];
         int n;
@@ -543,13 +549,11 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
     }
     /* TODO: set perms. */
 #ifndef __WIN32
-    Jsi_StatBuf sb;
-    Jsi_Stat(interp, src, &sb);
-    Jsi_Chmod(interp, dest, sb.st_mode);
+    if (sbRc == 0)
+        Jsi_Chmod(interp, dest, sb.st_mode);
 #endif
     Jsi_Close(interp, ich);
-    Jsi_Close(interp, och);
-    return 0;
+    return (Jsi_Close(interp, och) == 0 ? 0 : -1);
 }
 
 #define FN_copy JSI_INFO("\
-- 
2.43.0


From 1284da3f3a9618bb49b0aab9e7c119fc1fd71e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 102/179] fix: File.write did not notice failed writes

---
 src/jsiFileCmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 44edc90..3bed5b3 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -486,7 +486,8 @@ static Jsi_RC FileWriteCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         sum += n;
         cnt++;
     }
-    Jsi_Close(interp, chan);
+    if (Jsi_Close(interp, chan) != 0 || len > 0)
+        return Jsi_LogError("failed write: %s: %s", GSVal(fname), strerror(errno));
     /* TODO: handle nulls. */
     Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)sum);
     return JSI_OK;
-- 
2.43.0


From 6f033b348aae3d67ef7dc2290865aac86ed9caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 103/179] fix: File.remove did not find symbolic links to
 missing files

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 3bed5b3..af66d1f 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -668,7 +668,7 @@ static Jsi_RC FileRemoveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         return Jsi_LogError("expected boolean");
     if (vf)
         force = vf->d.val;
-    rc = Jsi_Stat(interp, source, &st);
+    rc = Jsi_Lstat(interp, source, &st);
     if (Jsi_Strcmp(spath,"/")==0)
         return JSI_ERROR;
     if (rc != 0) {
-- 
2.43.0


From fe0753916e12f9a37095bffc7543a5f019933c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 104/179] fix: File.truncate to a negative size made a huge
 file

---
 src/jsiFileCmds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index af66d1f..6de6337 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -377,6 +377,8 @@ static Jsi_RC FileTruncateCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     Jsi_Number siz;
     if (Jsi_GetNumberFromValue(interp, sizv, &siz) != JSI_OK)
         return JSI_ERROR;
+    if (!(siz >= 0))
+        return Jsi_LogError("invalid size");
     SAFEACCESS(fname, 1, 0)
     Jsi_Channel ch = Jsi_Open(interp, fname, "rb+");
     if (!ch)
-- 
2.43.0


From 67ef430c33d270cde74808ef66dbaa50bd09a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 105/179] fix: File.mknod used the mode as device

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 6de6337..cd100ee 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -404,7 +404,7 @@ static Jsi_RC FileMknodCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         return Jsi_LogError("expected numbers for arg 2 & 3");
     SAFEACCESS(fname, 1, 1)
     mode_t mode = (mode_t)m;
-    dev_t dev = (dev_t)m;
+    dev_t dev = (dev_t)d;
     if (mknod(nam, mode, dev))
         return Jsi_LogError("mknod failed: %s", strerror(errno));
     return JSI_OK;
-- 
2.43.0


From 04839acf2bb760c4725b988bfe09a5c68c57ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 106/179] fix: File.glob did not notice errors of its filter
 functions

---
 src/jsiFileCmds.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index cd100ee..c761245 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -930,7 +930,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
     char pbuf[PATH_MAX];
     Jsi_RC rc = JSI_OK;
     int i, n, flags = opts->flags, slen;
-    bool bres = 0;
+    int bres = 0;
     Jsi_DString tStr = {}, pStr = {}, eStr = {}, zStr = {};
     Jsi_Value *rpPath = Jsi_ValueNew1(interp);
     const char *mid = NULL;
@@ -1046,8 +1046,10 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                     }
                     if (!bres)
                         continue;
-                    else if (bres!=0 && bres!=1)
+                    else if (bres!=0 && bres!=1) {
                         rc = JSI_ERROR;
+                        goto done;
+                    }
                 }
                 if (opts->types && Jsi_Strchr(opts->types, 'd'))
                     goto dumpit;
@@ -1127,8 +1129,10 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
             if (!bres) {
                 opts->discardCnt++;
                 continue;
-            } else if (bres!=0 && bres!=1)
+            } else if (bres!=0 && bres!=1) {
                 rc = JSI_ERROR;
+                goto done;
+            }
         }
 dumpit:
         opts->cnt++;
-- 
2.43.0


From abe76fb1922387a8ca067353fc5419c6089f291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 107/179] fix: File.glob failed where a pattern named a
 directory that some directories lack

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index c761245..7c7ab87 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -983,7 +983,7 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
         Jsi_ValueMakeString(interp, &rpPath, dcp);
     }*/
     if ((n=Jsi_Scandir(interp, rpPath, &namelist, 0, alphasort)) < 0) {
-        if (opts->recurse && deep) goto done;
+        if (cnt) goto done;
         Jsi_LogError("bad directory");
         Jsi_DecrRefCount(interp, rpPath);
         return JSI_ERROR;
-- 
2.43.0


From 7484720f8d09824c3c40694db7e1358facaba271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 108/179] fix: File.glob with noTypes left out all directories
 and links

---
 src/jsiFileCmds.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 7c7ab87..15b547d 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1006,8 +1006,6 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
         ftyp = namelist[i]->d_type;
 #endif
         if (ftyp == DT_LNK) {
-            if (opts->noTypes && (!(flags&JSI_FILE_TYPE_LINK)))
-                continue;
             snprintf(pbuf, sizeof(pbuf), "%s%s%s", spath, (spath[0]?"/":""),  z);
             Jsi_StatBuf stat;
             Jsi_Value *vpath = Jsi_ValueNewStringConst(interp, pbuf, -1);
@@ -1063,8 +1061,6 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                 if (rc != JSI_OK)
                     goto done;
             }
-            if (opts->types==0 && opts->noTypes && (!(flags&JSI_FILE_TYPE_DIRS)))
-                continue;
         }
         // TODO: sanity check types/noTypes.
         if (opts->types) {
-- 
2.43.0


From f0a98a34821ccf58bc6231fb792f658c03a2fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:00 +0000
Subject: [PATCH 109/179] fix: File.glob exceeded its limit when directories
 were matched too

---
 src/jsiFileCmds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 15b547d..ee9c099 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -1027,6 +1027,8 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
                 Jsi_DSAppend(&sStr, spath, (spath[0]?"/":""), z, mid, NULL);
                 rc = SubGlobsDirectory(interp, obj, NULL, NULL, Jsi_DSValue(&sStr), opts, deep, cnt+1, _this);
                 Jsi_DSFree(&sStr);
+                if (opts->limit>0 && opts->cnt >= opts->limit)
+                    goto done;
                 continue;
             }
             int maxd = opts->maxDepth;
-- 
2.43.0


From 43eca777d8cd1d52f79a3a26de43851594fd014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:12 +0000
Subject: [PATCH 110/179] fix: File.copy without force overwrote files

---
 src/jsiFileCmds.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index ee9c099..605e16c 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -576,7 +576,16 @@ static Jsi_RC FileCopyCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         return Jsi_LogError("expected boolean");
     if (vf)
         force = vf->d.val;
-    if (force==0 && Jsi_Access(interp, dest, F_OK) == 0) 
+    /* Jsi_Open simplifies a path it does not find, so that is checked as well. */
+    int exists = (Jsi_Access(interp, dest, F_OK) == 0);
+    char *rpath = Jsi_FileRealpath(interp, dest, NULL);
+    if (rpath) {
+        Jsi_Value *rdest = Jsi_ValueNewString(interp, rpath, -1);
+        Jsi_IncrRefCount(interp, rdest);
+        exists = (exists || Jsi_Access(interp, rdest, F_OK) == 0);
+        Jsi_DecrRefCount(interp, rdest);
+    }
+    if (force==0 && exists)
         return Jsi_LogError("error copying \"%s\" to \"%s\": target exists", GSVal(source), GSVal(dest));
 
     if (FileCopy(interp, source, dest, force) != 0) 
-- 
2.43.0


From 4c35530318d93169c22a081751c5a133f910c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 111/179] fix: safe interps reached files outside their
 directories through links

---
 src/jsiInterp.c | 151 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 135 insertions(+), 16 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 4f71292..ffd6627 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2953,6 +2953,122 @@ bool Jsi_InterpSafe(Jsi_Interp *interp)
     return interp->isSafe;
 }
 
+#ifndef __WIN32
+/* Where a path leads: links are followed in all of it that exists.  NULL if that can not be told. */
+static char *SafeResolve(const char *path, char *out)
+{
+    char buf[PATH_MAX], npath[PATH_MAX], link[PATH_MAX];
+    Jsi_StatBuf sb;
+    int n = Jsi_Strlen(path), len, nlinks = 0;
+    if (n>=PATH_MAX)
+        return NULL;
+    Jsi_Strcpy(npath, path);
+    Jsi_Strcpy(buf, path);
+    while (!realpath(n?buf:"/", out)) {
+        if (n==0)
+            return NULL;
+        if (lstat(buf, &sb) == 0) { /* A link to what does not exist. */
+            if (!S_ISLNK(sb.st_mode) || ++nlinks>40 || (len=readlink(buf, link, sizeof(link)-1))<=0)
+                return NULL;
+            link[len] = 0;
+            Jsi_DString dStr = {};
+            int dlen = n;
+            while (dlen>0 && buf[dlen-1]!='/')
+                dlen--;
+            if (*link != '/')
+                Jsi_DSAppendLen(&dStr, buf, dlen);
+            Jsi_DSAppend(&dStr, link, npath+n, NULL);
+            n = Jsi_DSLength(&dStr);
+            if (n<PATH_MAX) {
+                Jsi_Strcpy(npath, Jsi_DSValue(&dStr));
+                Jsi_Strcpy(buf, npath);
+            }
+            Jsi_DSFree(&dStr);
+            if (n>=PATH_MAX)
+                return NULL;
+            continue;
+        }
+        while (n>0 && buf[n-1]!='/')
+            n--;
+        while (n>0 && buf[n-1]=='/')
+            n--;
+        buf[n] = 0;
+    }
+    const char *cp = npath+n;
+    n = Jsi_Strlen(out);
+    if (n==1)
+        n = 0;
+    while (*cp) {
+        while (*cp == '/')
+            cp++;
+        for (len=0; cp[len] && cp[len]!='/'; len++);
+        if (len==2 && cp[0]=='.' && cp[1]=='.') {
+            while (n>0 && out[--n]!='/');
+        } else if (len && (len!=1 || cp[0]!='.')) {
+            if (n+len+2>PATH_MAX)
+                return NULL;
+            out[n++] = '/';
+            memcpy(out+n, cp, len);
+            n += len;
+        }
+        cp += len;
+    }
+    if (n==0)
+        out[n++] = '/';
+    out[n] = 0;
+    return out;
+}
+#endif
+
+static bool SafeInDirs(Jsi_Interp *interp, Jsi_Value *dirs, const char *dstr)
+{
+    int i, m, argc = Jsi_ValueGetLength(interp, dirs);
+    for (i=0; i<argc; i++) {
+        Jsi_Value *v = Jsi_ValueArrayIndex(interp, dirs, i);
+        if (!v) continue;
+        char *str = Jsi_ValueString(interp, v, &m);
+        if (!str || m<=0) continue;
+        if (!Jsi_Strcmp(str, dstr)) // Exact match.
+            return 1;
+        if (Jsi_Strncmp(str, dstr, m))
+            continue;
+        if (m>1 && str[m-1]=='/')
+            return 1;
+        if (dstr[m] == '/')
+            return 1;
+    }
+    return 0;
+}
+
+#ifndef __WIN32
+/* What a path leads to must be granted and, where it names a link, the place of that link too. */
+static bool SafePathInDirs(Jsi_Interp *interp, Jsi_Value *dirs, const char *path)
+{
+    char pbuf[PATH_MAX], nbuf[PATH_MAX];
+    Jsi_StatBuf sb;
+    int n = Jsi_Strlen(path), m;
+    if (!SafeResolve(path, pbuf) || !SafeInDirs(interp, dirs, pbuf))
+        return 0;
+    Jsi_Strcpy(nbuf, path);
+    while (n>1 && nbuf[n-1]=='/')
+        nbuf[--n] = 0;
+    if (lstat(nbuf, &sb) || !S_ISLNK(sb.st_mode))
+        return 1;
+    m = n;
+    while (m>0 && nbuf[m-1]!='/')
+        m--;
+    nbuf[m] = 0;
+    if (!SafeResolve(nbuf, pbuf) || Jsi_Strlen(pbuf)+(n-m)+2>PATH_MAX)
+        return 0;
+    if (pbuf[1])
+        strcat(pbuf, "/");
+    strcat(pbuf, path+m);
+    while ((n=Jsi_Strlen(pbuf))>1 && pbuf[n-1]=='/')
+        pbuf[n-1] = 0;
+    return SafeInDirs(interp, dirs, pbuf);
+}
+#endif
+
 Jsi_RC Jsi_InterpAccess(Jsi_Interp *interp, Jsi_Value* resource, int aflag)
 {
     switch (aflag) {
@@ -2973,31 +3089,34 @@ Jsi_RC Jsi_InterpAccess(Jsi_Interp *interp, Jsi_Value* resource, int aflag)
     }
     if (!resource)
         return JSI_ERROR;
-    Jsi_Value *v, *dirs = ((aflag==JSI_INTACCESS_WRITE) ? interp->safeWriteDirs : interp->safeReadDirs);
+    Jsi_Value *dirs = ((aflag==JSI_INTACCESS_WRITE) ? interp->safeWriteDirs : interp->safeReadDirs);
     if (!interp->isSafe)
         return JSI_OK;
     if (!dirs)
         return JSI_ERROR;
     char pbuf[PATH_MAX];
-    int i, m, argc = Jsi_ValueGetLength(interp, dirs);
-    char *str, *dstr = Jsi_Realpath(interp, resource, pbuf);
+    char *dstr = Jsi_Realpath(interp, resource, pbuf);
     if (!dstr)
         return JSI_ERROR;
-    for (i=0; i<argc; i++) {
-        v = Jsi_ValueArrayIndex(interp, dirs, i);
-        if (!v) continue;
-        str = Jsi_ValueString(interp, v, &m);
-        if (!str || m<=0) continue;
-        if (!Jsi_Strcmp(str, dstr)) // Exact match.
-            return JSI_OK;
-        if (Jsi_Strncmp(str, dstr, m))
-            continue;
-        if (m>1 && str[m-1]=='/')
-            return JSI_OK;
-        if (dstr[m] == '/')
+#ifndef __WIN32
+    if (Jsi_FSNative(interp, resource)) {
+        /* Files are opened by the simplified path where the given one does not exist: check both. */
+        if (!SafePathInDirs(interp, dirs, dstr))
+            return JSI_ERROR;
+        const char *path = Jsi_ValueToString(interp, resource, NULL);
+        if (*path == '~')
             return JSI_OK;
+        Jsi_DString dStr = {};
+        char cdbuf[PATH_MAX];
+        if (*path != '/')
+            Jsi_DSAppend(&dStr, (getcwd(cdbuf, sizeof(cdbuf))?cdbuf:""), "/", NULL);
+        Jsi_DSAppend(&dStr, path, NULL);
+        bool ok = (Jsi_DSLength(&dStr)<PATH_MAX && SafePathInDirs(interp, dirs, Jsi_DSValue(&dStr)));
+        Jsi_DSFree(&dStr);
+        return (ok ? JSI_OK : JSI_ERROR);
     }
-    return JSI_ERROR;
+#endif
+    return (SafeInDirs(interp, dirs, dstr) ? JSI_OK : JSI_ERROR);
 }
 
 Jsi_Value *Jsi_InterpResult(Jsi_Interp *interp)
-- 
2.43.0


From cb04847301a69fb68d61ea8e4789ae9ad1f08b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 112/179] fix: safe interps could list directories outside
 their read directories

---
 src/jsiFileCmds.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 605e16c..66f8c90 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -991,9 +991,13 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
     if (dcp) {
         Jsi_ValueMakeString(interp, &rpPath, dcp);
     }*/
-    if ((n=Jsi_Scandir(interp, rpPath, &namelist, 0, alphasort)) < 0) {
+    bool denied = (interp->isSafe && Jsi_FSNative(interp, rpPath) && Jsi_InterpAccess(interp, rpPath, JSI_INTACCESS_READ) != JSI_OK);
+    if (denied || (n=Jsi_Scandir(interp, rpPath, &namelist, 0, alphasort)) < 0) {
         if (cnt) goto done;
-        Jsi_LogError("bad directory");
+        if (denied)
+            Jsi_LogError("read access denied by safe interp: %s", GSVal(rpPath));
+        else
+            Jsi_LogError("bad directory");
         Jsi_DecrRefCount(interp, rpPath);
         return JSI_ERROR;
     }
-- 
2.43.0


From 7a11b90ca098b9496039be5c424cf1d5cfd47dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 113/179] fix: safe interps could reach any file by backup,
 restore, ATTACH or VACUUM INTO

---
 src/jsiSqlite.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 331c39b..762605e 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1509,6 +1509,21 @@ static void jsiSqlFunc(sqlite3_context *context, int argc, sqlite3_value**argv)
     Jsi_DecrRefCount(interp, ret);
 }
 
+/* Is access to a database file allowed in a safe interp? */
+static Jsi_RC dbSafeAccess(Jsi_Interp *interp, const char *zFile, bool write)
+{
+    if (!Jsi_InterpSafe(interp))
+        return JSI_OK;
+    Jsi_StatBuf st;
+    Jsi_Value *vFile = Jsi_ValueNewStringDup(interp, zFile);
+    Jsi_IncrRefCount(interp, vFile);
+    Jsi_RC rc = Jsi_InterpAccess(interp, vFile, (write ? JSI_INTACCESS_WRITE : JSI_INTACCESS_READ));
+    if (rc == JSI_OK && write && Jsi_Lstat(interp, vFile, &st) != 0)
+        rc = Jsi_InterpAccess(interp, vFile, JSI_INTACCESS_CREATE);
+    Jsi_DecrRefCount(interp, vFile);
+    return rc;
+}
+
 /*
 ** This is the authentication function.  It appends the authentication
 ** type code and the two arguments to zCmd[] then invokes the result
@@ -1528,7 +1543,11 @@ static int dbAuthCallback(
     const char *zReply;
     Jsi_Db *db = (Jsi_Db*)pArg;
     Jsi_Interp *interp = db->interp;
-    if( db->disableAuth ) return SQLITE_OK;
+    if (code == SQLITE_ATTACH && Jsi_InterpSafe(interp)
+        && (!zArg1 || (zArg1[0] && Jsi_Strcmp(zArg1, ":memory:")))
+        && (!zArg1 || dbSafeAccess(interp, zArg1, 1) != JSI_OK))
+        return SQLITE_DENY;
+    if( db->disableAuth || !db->onAuth ) return SQLITE_OK;
 
     switch( code ) {
     case SQLITE_COPY              :
@@ -3397,6 +3416,10 @@ static Jsi_RC SqliteRestoreCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         zSrcFile = Jsi_ValueNormalPath(interp, vFile, &dStr);
         if (zSrcFile == NULL) 
             return Jsi_LogErrorExt("bad or missing file name");
+        if (dbSafeAccess(interp, zSrcFile, 0) != JSI_OK) {
+            Jsi_DSFree(&dStr);
+            return Jsi_LogErrorExt("Safe access denied");
+        }
     }
     rc = sqlite3_open_v2(zSrcFile, &pSrc, SQLITE_OPEN_READONLY, 0);
 
@@ -3530,6 +3553,10 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
         zDestFile = Jsi_ValueNormalPath(interp, vFile, &dStr);
         if (zDestFile == NULL) 
             return Jsi_LogErrorExt("bad or missing file name");
+        if (dbSafeAccess(interp, zDestFile, 1) != JSI_OK) {
+            Jsi_DSFree(&dStr);
+            return Jsi_LogErrorExt("Safe access denied");
+        }
     }
     rc = sqlite3_open(zDestFile, &pDest);
     if( rc!=SQLITE_OK ) {
@@ -3560,7 +3587,7 @@ static Jsi_RC SqliteBackupCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
 
 void dbSetupCallbacks(Jsi_Db *db, Jsi_Db *ojdb)
 {
-    if (db->onAuth)
+    if (db->onAuth || Jsi_InterpSafe(db->interp))
         sqlite3_set_authorizer(db->db, dbAuthCallback, db);
     else
         sqlite3_set_authorizer(db->db, 0, 0);
@@ -3740,6 +3767,7 @@ static Jsi_RC SqliteConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     db->popts = Jsi_CommandPkgOpts(interp, funcPtr);
     Jsi_LogDebugExt("Starting DB");
     db->sig = SQLITE_SIG_DB;
+    db->interp = interp;
     db->_ = &db_PkgStatus;
     db->_->newCnt++;
     db->_->activeCnt++;
@@ -3825,7 +3853,6 @@ static Jsi_RC SqliteConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     db->stmtHash = Jsi_HashNew(interp, JSI_KEYS_STRING, NULL);
     db->fobj = fobj;
     //dbSys->cnt = Jsi_UserObjCreate(interp, sqliteobject.name /*dbSys*/, fobj, db);
-    db->interp = interp;
     db->optPtr = &db->queryOpts;
     db->stmtCache = Jsi_ListNew((Jsi_Interp*)db, 0, dbStmtFreeProc);
     rc = JSI_OK;
-- 
2.43.0


From d7e2655d34d65d3d9155e8beaebe4fcc62fd972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 114/179] fix: safe interps opened files for appending where
 they may only read

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 2e136a3..3d8ec5b 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -769,7 +769,7 @@ static int try_open_file(Jsi_Interp *interp, FileObj *udf, Jsi_Value *args)
         if (vmode && Jsi_ValueIsString(interp,vmode)) {
             mode = Jsi_ValueString(interp, vmode, NULL);
         }
-        int writ = (mode && (Jsi_Strchr(mode,'w')||Jsi_Strchr(mode,'+')));
+        int writ = (mode && (Jsi_Strchr(mode,'w')||Jsi_Strchr(mode,'a')||Jsi_Strchr(mode,'+')));
         int aflag = (writ ? JSI_INTACCESS_WRITE : JSI_INTACCESS_READ);
         if (interp->isSafe && Jsi_InterpAccess(interp, fname, aflag) != JSI_OK)
             return Jsi_LogError("Safe open failed");
-- 
2.43.0


From 1743a8b23433ee1be93a68f3f09979dd2dedb74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 115/179] fix: safe main scripts could load libraries

---
 src/jsiLoad.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsiLoad.c b/src/jsiLoad.c
index faf5d39..a136bee 100644
--- a/src/jsiLoad.c
+++ b/src/jsiLoad.c
@@ -210,6 +210,8 @@ Jsi_RC jsi_LoadLoadCmd(Jsi_Interp *interp, Jsi_Value *args,
     Jsi_Value *_this, Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     Jsi_Value *fval = Jsi_ValueArrayIndex(interp, args, 0);
+    if (Jsi_InterpSafe(interp))
+        return Jsi_LogError("load disabled by safe interp");
     char *v = Jsi_Realpath(interp, fval, NULL);
     Jsi_StatBuf fbuf;
     Jsi_RC rc;
-- 
2.43.0


From ffac74938fd93276eb8c97fbb073b99229877900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 116/179] fix: File.copy of a file onto itself could truncate
 it

---
 src/jsiFileCmds.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 66f8c90..4b3ae6c 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -578,20 +578,21 @@ static Jsi_RC FileCopyCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         force = vf->d.val;
     /* Jsi_Open simplifies a path it does not find, so that is checked as well. */
     int exists = (Jsi_Access(interp, dest, F_OK) == 0);
-    char *rpath = Jsi_FileRealpath(interp, dest, NULL);
-    if (rpath) {
-        Jsi_Value *rdest = Jsi_ValueNewString(interp, rpath, -1);
-        Jsi_IncrRefCount(interp, rdest);
-        exists = (exists || Jsi_Access(interp, rdest, F_OK) == 0);
-        Jsi_DecrRefCount(interp, rdest);
-    }
+    Jsi_Value *rdest = dest;
+    char *rpath = (exists ? NULL : Jsi_FileRealpath(interp, dest, NULL));
+    if (rpath)
+        rdest = Jsi_ValueNewString(interp, rpath, -1);
+    Jsi_IncrRefCount(interp, rdest);
+    if (rdest != dest)
+        exists = (Jsi_Access(interp, rdest, F_OK) == 0);
+    Jsi_RC rc = JSI_OK;
     if (force==0 && exists)
-        return Jsi_LogError("error copying \"%s\" to \"%s\": target exists", GSVal(source), GSVal(dest));
-
-    if (FileCopy(interp, source, dest, force) != 0) 
-        return Jsi_LogError( "error copying \"%s\" to \"%s\": %s", GSVal(source),
+        rc = Jsi_LogError("error copying \"%s\" to \"%s\": target exists", GSVal(source), GSVal(dest));
+    else if (FileCopy(interp, source, (exists ? rdest : dest), force) != 0) 
+        rc = Jsi_LogError( "error copying \"%s\" to \"%s\": %s", GSVal(source),
             GSVal(dest), strerror(errno));
-    return JSI_OK;
+    Jsi_DecrRefCount(interp, rdest);
+    return rc;
 }
 
 #define FN_link JSI_INFO("\
-- 
2.43.0


From 1e65cc6d324ee0094a783845dcbbec5bb3a0de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 117/179] fix: safe interps overwrote files they may not read
 without force

---
 src/jsiFileCmds.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 4b3ae6c..bdddc3e 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -511,7 +511,8 @@ static Jsi_RC FileRenameCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         return Jsi_LogError("expected boolean");
     if (vf)
         force = vf->d.val;
-    if (force==0 && Jsi_Access(interp, dest, F_OK) == 0) 
+    Jsi_StatBuf st;
+    if (force==0 && Jsi_Stat(interp, dest, &st) == 0)
         return Jsi_LogError("error renaming \"%s\" to \"%s\": target exists", GSVal(source), GSVal(dest));
 
     if (Jsi_Rename(interp, source, dest) != 0) 
@@ -530,7 +531,8 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
     Jsi_StatBuf sb;
     int sbRc = Jsi_Stat(interp, src, &sb);
 #endif
-    if (force && Jsi_Access(interp, dest, F_OK) == 0) {
+    Jsi_StatBuf dst;
+    if (force && Jsi_Stat(interp, dest, &dst) == 0) {
         Jsi_Remove(interp, dest, 0);
     }
     Jsi_Channel och = Jsi_Open(interp, dest, "wb+");
@@ -577,14 +579,15 @@ static Jsi_RC FileCopyCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     if (vf)
         force = vf->d.val;
     /* Jsi_Open simplifies a path it does not find, so that is checked as well. */
-    int exists = (Jsi_Access(interp, dest, F_OK) == 0);
+    Jsi_StatBuf st;
+    int exists = (Jsi_Stat(interp, dest, &st) == 0);
     Jsi_Value *rdest = dest;
     char *rpath = (exists ? NULL : Jsi_FileRealpath(interp, dest, NULL));
     if (rpath)
         rdest = Jsi_ValueNewString(interp, rpath, -1);
     Jsi_IncrRefCount(interp, rdest);
     if (rdest != dest)
-        exists = (Jsi_Access(interp, rdest, F_OK) == 0);
+        exists = (Jsi_Stat(interp, rdest, &st) == 0);
     Jsi_RC rc = JSI_OK;
     if (force==0 && exists)
         rc = Jsi_LogError("error copying \"%s\" to \"%s\": target exists", GSVal(source), GSVal(dest));
-- 
2.43.0


From 803599b7462b572f83bcc2c3bc578886d85b4c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 118/179] fix: safe interps could see the attributes of files
 outside their read directories

---
 src/jsiFileCmds.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index bdddc3e..4d66d27 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -167,7 +167,10 @@ static Jsi_RC _FileSubstat(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     Jsi_StatBuf st = {}, lst = {};
     char smode[30];
     st.st_uid = -1;
-    rc = Jsi_Stat(interp, fnam, &st) | Jsi_Lstat(interp, fnam, &lst);
+    if (interp->isSafe && Jsi_FSNative(interp, fnam) && Jsi_InterpAccess(interp, fnam, JSI_INTACCESS_READ) != JSI_OK)
+        rc = -1; /* As if it was not there. */
+    else
+        rc = Jsi_Stat(interp, fnam, &st) | Jsi_Lstat(interp, fnam, &lst);
     switch (sub) {
         case FSS_Exists: Jsi_ValueMakeBool(interp, ret, (rc == 0)); break;
         case FSS_Atime: Jsi_ValueMakeNumber(interp, ret, st.st_atime); break;
-- 
2.43.0


From b02329e4298a2e8f16a5032da534b84fcb97b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 119/179] fix: lockDown did not let the main script be read

---
 src/jsiInterp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index ffd6627..ac2ab7e 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1583,6 +1583,7 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
             return NULL;
         }
         interp->isSafe = true;
+        interp->startSafe = 1;
         interp->safeMode = jsi_safe_Lockdown;
         if (interp->safeWriteDirs) {
             Jsi_LogWarn("Overriding safeWriteDirs");
-- 
2.43.0


From ff8734752ff7f755a8362d2479dea53c2515cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 120/179] fix: opening a file that may not be read crashed safe
 sub-interps

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3d8ec5b..3cc22ea 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -544,7 +544,7 @@ Jsi_Channel Jsi_Open(Jsi_Interp *interp, Jsi_Value *file, const char *modeString
         if (interp->isSafe) {
             if ((rc && Jsi_InterpAccess(interp, file, JSI_INTACCESS_CREATE) != JSI_OK)
             || (Jsi_InterpAccess(interp, file, aflag) != JSI_OK
-                && (aflag || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
+                && (aflag || !interp->opts.argv || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
             ) {
                 if (writ || Jsi_Strcmp(fileName, jsiIntData.execName)) {
                     Jsi_LogError("%s access denied: %s", writ?"write":"read", fileName);
-- 
2.43.0


From 492db8fa7dabd955c291a7fa8ed4e8fab9d95a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 121/179] fix: strings obtained from a sub-interpreter were
 freed with it

---
 src/jsiInterp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index ac2ab7e..9f11f63 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -241,7 +241,7 @@ Jsi_RC Jsi_CleanValue(Jsi_Interp *interp, Jsi_Interp *tointerp, Jsi_Value *val,
             len = val->d.s.len;
 makestr:
             if (iskey) {
-                Jsi_ValueMakeStringKey(interp, ret, cp);
+                Jsi_ValueMakeStringKey(tointerp, ret, cp);
                 return rc;
             }
             jsi_ValueMakeBlobDup(tointerp, ret, (uchar*)cp, len);
-- 
2.43.0


From b218044399f6bea9436245d223078e166c8c9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 122/179] fix: crash when a held function of a deleted alias is
 called

---
 src/jsiInterp.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 9f11f63..7c91c0b 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -278,14 +278,12 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     AliasCmd *ac = (AliasCmd *)funcPtr->cmdSpec->reserved[2];
+    if (!ac)
+        return Jsi_LogError("alias was deleted");
+    SIGASSERT(ac,ALIASCMD);
     Jsi_Interp *dinterp = ac->dinterp;
     Jsi_Value *nargs = NULL;
     int inc=0, argc = Jsi_ValueGetLength(interp, args);
-    if (!ac) {
-        Jsi_LogBug("BAD ALIAS INVOKE OF DELETED");
-        return JSI_ERROR;
-    }
-    SIGASSERT(ac,ALIASCMD);
     bool isthrd = (interp != dinterp && interp->threadId != dinterp->threadId);
     Jsi_Value *nrPtr = Jsi_ValueNew1(dinterp);
 
-- 
2.43.0


From c40823d53fd3dd1fc245690d0b558c2bf2e0cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 123/179] fix: calls of an alias without arguments changed its
 bound arguments

---
 src/jsiInterp.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 7c91c0b..3525996 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -287,13 +287,15 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     bool isthrd = (interp != dinterp && interp->threadId != dinterp->threadId);
     Jsi_Value *nrPtr = Jsi_ValueNew1(dinterp);
 
-     if (argc == 0 && ac->args)
-        nargs = ac->args;
-     else if (argc) {
-        if (dinterp == interp)
+    if (argc || ac->args) {
+        if (argc == 0)
+            Jsi_ValueMakeArrayObject(dinterp, &nrPtr, Jsi_ObjNewArray(dinterp, NULL, 0, 0));
+        else if (dinterp == interp)
             Jsi_ValueCopy(interp, nrPtr, args);
-        else if (Jsi_CleanValue(interp, dinterp, args, &nrPtr) != JSI_OK)
+        else if (Jsi_CleanValue(interp, dinterp, args, &nrPtr) != JSI_OK) {
+            Jsi_DecrRefCount(dinterp, nrPtr);
             return JSI_ERROR;
+        }
         if (ac->args && Jsi_ValueGetLength(dinterp, ac->args)) {
             nargs = Jsi_ValueArrayConcat(dinterp, ac->args, nrPtr);
             Jsi_IncrRefCount(dinterp, nargs);
-- 
2.43.0


From 46a308a6985f7e1aeb0c3a20b46af3512edc0065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 124/179] fix: an alias deleted or redefined by the function it
 calls was used after being freed

---
 src/jsiInterp.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 3525996..a655503 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -343,14 +343,15 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             return JSI_ERROR;
         }
     }
-    ac->refCount++;
+    Jsi_Value *afunc = ac->func; // The call may delete or redefine the alias.
+    Jsi_IncrRefCount(dinterp, afunc);
     Jsi_Value *srPtr, **srpPtr = ret;
     if (dinterp != interp) {
         srPtr = Jsi_ValueNew1(dinterp);
         srpPtr = &srPtr;
     }
-    Jsi_RC rc = Jsi_FunctionInvoke(dinterp, ac->func, nargs, srpPtr, NULL);
-    ac->refCount--;
+    Jsi_RC rc = Jsi_FunctionInvoke(dinterp, afunc, nargs, srpPtr, NULL);
+    Jsi_DecrRefCount(dinterp, afunc);
     if (inc)
         Jsi_DecrRefCount(dinterp, nargs);
     Jsi_DecrRefCount(dinterp, nrPtr);
-- 
2.43.0


From 93e391391e92225df7aa89859d94e98730f37352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 125/179] fix: a refused alias was listed and could not be used
 after

---
 src/jsiInterp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index a655503..99a4aa1 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -479,13 +479,13 @@ static Jsi_RC InterpAliasCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         Jsi_HashEntryDelete(hPtr);
         return JSI_OK;
     }
-    hPtr = Jsi_HashEntryNew(aliases, (void*)key, &isNew);
-    if (!hPtr)
-        return Jsi_LogError("create failed: %s", key);
     if (!Jsi_ValueIsFunction(interp, afunc))
         return Jsi_LogError("arg 2: expected function");
     if (Jsi_ValueIsNull(interp, aargs) == 0 && Jsi_ValueIsArray(interp, aargs) == 0)
         return Jsi_LogError("arg 3: expected array or null");
+    hPtr = Jsi_HashEntryNew(aliases, (void*)key, &isNew);
+    if (!hPtr)
+        return Jsi_LogError("create failed: %s", key);
     if (!isNew) {
         jsi_AliasFree(interp, NULL, Jsi_HashValueGet(hPtr));
     }
-- 
2.43.0


From 3a6d39b71ffd259c276b180c03d538506a6b741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 126/179] fix: deleting a command released a local variable of
 its name

---
 src/jsiCmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 41471f6..1d705b1 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -3762,10 +3762,10 @@ static void ValueObjDeleteStr(Jsi_Interp *interp, Jsi_Value *target, const char
 
 Jsi_RC Jsi_CommandDelete(Jsi_Interp *interp, const char *name) {
     int ofs;
-    Jsi_Value *fv = Jsi_NameLookup(interp, name);
-    Jsi_Value *cs = Jsi_LookupCS(interp, name, &ofs);
+    Jsi_Value *fv = NULL, *cs = Jsi_LookupCS(interp, name, &ofs);
     if (cs) {
         const char *key = name + ofs;
+        fv = Jsi_ValueObjLookup(interp, cs, key, 0);
         ValueObjDeleteStr(interp, cs, key, 1);
     }
     if (fv)
-- 
2.43.0


From 87a7720265ea2d130c0965cb5109f7c0b5f97b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 127/179] fix: deleting an alias of the own interpreter left
 its command

---
 src/jsiInterp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 99a4aa1..6c4a280 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -389,8 +389,8 @@ static Jsi_RC jsi_AliasFree(Jsi_Interp *interp, Jsi_HashEntry *hPtr, void *data)
     Jsi_Func *fobj = ac->cmdVal->d.obj->d.fobj->func;
     fobj->cmdSpec->reserved[2] = NULL;
     fobj->cmdSpec->proc = NULL;
-    if (ac->intobj && ac->intobj->subinterp) {
-        Jsi_CommandDelete(ac->intobj->subinterp, ac->cmdName);
+    if (ac->intobj ? ac->intobj->subinterp != NULL : !Jsi_InterpGone(ac->subinterp)) {
+        Jsi_CommandDelete(ac->subinterp, ac->cmdName);
         //if (Jsi_Strchr(ac->cmdName, '.'))
         //    Jsi_LogBug("alias free with X.Y dot name leaks memory: %s", ac->cmdName);
     } else
-- 
2.43.0


From 05422bb14272da938a8c62e54c3162deb436308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 128/179] fix: calls without waiting from within such calls
 were run twice and freed twice

---
 src/jsiInterp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 6c4a280..d7551d1 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2386,6 +2386,8 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
 
     /* Process subevents. */
     InterpStrEvent *oldse, *se = interp->interpStrEvents;
+    if (se) // Unlinked before it is run, as that may come back here.
+        interp->interpStrEvents = se->next;
     Jsi_MutexUnlock(interp, interp->QMutex);
     while (se) {
         oldse = se;
@@ -2429,9 +2431,10 @@ static Jsi_RC SubInterpEvalCallback(Jsi_Interp *interp, void* data)
         }
         if (Jsi_MutexLock(interp, interp->QMutex) != JSI_OK)
             return JSI_ERROR;
-        interp->interpStrEvents = se->next;
         if (!isExec) Jsi_Free(se);
         se = interp->interpStrEvents;
+        if (se)
+            interp->interpStrEvents = se->next;
         Jsi_MutexUnlock(interp, interp->QMutex);
         if (isExec)
             oldse->isExec = 0;
-- 
2.43.0


From 081f3b86662a444ede80c7a8bc1794884c41bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:23 +0000
Subject: [PATCH 129/179] fix: push beyond the array limit dropped the elements
 without an error

---
 src/jsiArray.c | 3 ++-
 src/jsiValue.c | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index df69034..ac474ba 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -32,7 +32,8 @@ static Jsi_RC jsi_ArrayPushCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     for (i = 0; i < argc; ++i) {
         Jsi_Value *ov = Jsi_ValueArrayIndex(interp, args, i);
         if (!ov) { Jsi_LogBug("Arguments Error"); ov = Jsi_ValueNew(interp); }
-        Jsi_ValueInsertArray(interp, _this, curlen + i, ov, 0);
+        if (Jsi_ValueInsertArray(interp, _this, curlen + i, ov, 0) != JSI_OK)
+            return Jsi_LogError("array size exceeded");
     }
     
     Jsi_ValueMakeNumber(interp, ret, jsi_SizeOfArray(interp, obj));
diff --git a/src/jsiValue.c b/src/jsiValue.c
index e94a169..4e50251 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1306,8 +1306,7 @@ Jsi_RC Jsi_ValueInsertArray(Jsi_Interp *interp, Jsi_Value *target, int key, Jsi_
     
     if (obj->isarrlist) {
         if (key >= 0 && (uint)key < interp->maxArrayList) {
-            Jsi_ValueArraySet(interp, target, val, key);
-            return JSI_OK;
+            return Jsi_ValueArraySet(interp, target, val, key);
         }
         return JSI_ERROR;
     }
-- 
2.43.0


From 930cc1152f22bb1ef684de9343ee7e9786fb924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:23 +0000
Subject: [PATCH 130/179] fix: repeated concat ran into the array limit because
 spare space was counted and grew

---
 src/jsiArray.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index ac474ba..1ee8a59 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -301,10 +301,11 @@ static Jsi_RC jsi_ArrayConcatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     Jsi_ObjListifyArray(interp, obj);
    
     nobj = Jsi_ObjNewType(interp, JSI_OT_ARRAY);
-    nsiz = obj->arrMaxSize;
-    if (nsiz<=0) nsiz = 100;
-    if (Jsi_ObjArraySizer(interp, nobj, nsiz+1) <= 0)
-        return Jsi_LogError("index too large: %d", nsiz+1);;
+    nsiz = curlen;
+    if (Jsi_ObjArraySizer(interp, nobj, nsiz) <= 0) {
+        Jsi_ObjFree(interp, nobj);
+        return Jsi_LogError("index too large: %d", nsiz);
+    }
 
     int i, j, m;
     for (i = 0; i<curlen; i++)
-- 
2.43.0


From c9ca33854aec19ddb2e2351e2c6398005630cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:23 +0000
Subject: [PATCH 131/179] fix: bound and alias arguments beyond the array limit
 were written outside the array

---
 src/jsiArray.c  |  8 ++++++--
 src/jsiInterp.c |  4 ++++
 src/jsiProto.c  | 15 ++++++++++-----
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 1ee8a59..89f55e9 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -121,7 +121,10 @@ Jsi_Value* Jsi_ValueArrayConcat(Jsi_Interp *interp, Jsi_Value *arg1, Jsi_Value *
     int len1 = arg1->d.obj->arrCnt;
     int len2 = arg2->d.obj->arrCnt;
     Jsi_Obj *nobj = Jsi_ObjNewType(interp, JSI_OT_ARRAY);
-    Jsi_ObjArraySizer(interp, nobj, len1+len2);
+    if (Jsi_ObjArraySizer(interp, nobj, len1+len2) <= 0) {
+        Jsi_ObjFree(interp, nobj);
+        return NULL;
+    }
 
     int i, j = 0;
     obj = arg1->d.obj;
@@ -150,7 +153,8 @@ Jsi_RC Jsi_ValueArrayPush(Jsi_Interp *interp, Jsi_Value *arg1, Jsi_Value *arg2)
         return JSI_ERROR;
     int len1 = arg1->d.obj->arrCnt;
     obj = arg1->d.obj;
-    Jsi_ObjArraySizer(interp, obj, len1);
+    if (Jsi_ObjArraySizer(interp, obj, len1) <= 0)
+        return JSI_ERROR;
     obj->arr[len1] = arg2;
     Jsi_IncrRefCount(interp, arg2);
     obj->arrCnt++;
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index d7551d1..b59a939 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -298,6 +298,10 @@ Jsi_RC jsi_AliasInvoke(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         }
         if (ac->args && Jsi_ValueGetLength(dinterp, ac->args)) {
             nargs = Jsi_ValueArrayConcat(dinterp, ac->args, nrPtr);
+            if (!nargs) {
+                Jsi_DecrRefCount(dinterp, nrPtr);
+                return Jsi_LogError("too many arguments");
+            }
             Jsi_IncrRefCount(dinterp, nargs);
             inc=1;
         } else {
diff --git a/src/jsiProto.c b/src/jsiProto.c
index 2f5394f..aec7495 100644
--- a/src/jsiProto.c
+++ b/src/jsiProto.c
@@ -288,18 +288,23 @@ static Jsi_RC jsi_FuncBindCall(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         if (nthis && !Jsi_ValueIsNull(interp, nthis))
             _this = nthis;
         if (fargc>1) {
+            Jsi_RC rc = JSI_OK;
             nargs = Jsi_ValueNewArray(interp, NULL, 0);
-            for (i=1; i<fargc; i++) {
+            Jsi_IncrRefCount(interp, nargs);
+            for (i=1; i<fargc && rc == JSI_OK; i++) {
                 Jsi_Value *barg = Jsi_ValueArrayIndex(interp, fargs, i);
                 if (barg) { // Copy, as the callee may assign to its parameter.
                     barg = Jsi_ValueDup(interp, barg);
-                    Jsi_ValueArrayPush(interp, nargs, barg);
+                    rc = Jsi_ValueArrayPush(interp, nargs, barg);
                     Jsi_DecrRefCount(interp, barg);
                 }
             }
-            for (i=0; i<argc; i++)
-                Jsi_ValueArrayPush(interp, nargs, Jsi_ValueArrayIndex(interp, args, i));
-            Jsi_IncrRefCount(interp, nargs);
+            for (i=0; i<argc && rc == JSI_OK; i++)
+                rc = Jsi_ValueArrayPush(interp, nargs, Jsi_ValueArrayIndex(interp, args, i));
+            if (rc != JSI_OK) {
+                Jsi_DecrRefCount(interp, nargs);
+                return Jsi_LogError("too many arguments");
+            }
         }
     }
     Jsi_RC rc = Jsi_FunctionInvoke(interp, fo->bindFunc, nargs, ret, _this);
-- 
2.43.0


From 5c077e7ae027067b3bd8d4cb1facd84b24064b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:16 +0000
Subject: [PATCH 132/179] fix: query results beyond the array limit were cut
 off without an error

---
 src/jsiSqlite.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/jsiSqlite.c b/src/jsiSqlite.c
index 762605e..128eea3 100644
--- a/src/jsiSqlite.c
+++ b/src/jsiSqlite.c
@@ -1887,6 +1887,13 @@ static void dbEvalSetColumn(DbEvalContext *p, int iCol, Jsi_DString *dStr) {
     Jsi_DSAppend(dStr, str?str:"", NULL);
 }
 
+/* Append to a result: a value that does not fit is released, and the query fails. */
+static Jsi_RC dbArrayAdd(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *v) {
+    Jsi_IncrRefCount(interp, v);
+    Jsi_RC rc = Jsi_ObjArrayAdd(interp, obj, v);
+    Jsi_DecrRefCount(interp, v);
+    return rc;
+}
 
 static Jsi_Value* dbEvalSetColumnValue(DbEvalContext *p, int iCol, Jsi_Value **val) {
     Jsi_Interp *interp = p->db->interp;
@@ -3091,7 +3098,7 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 vcur = dbEvalSetColumnValue(&sEval, i, NULL);
                 Jsi_ObjInsert(interp, ocur, apColName[i], vcur, 0);
             }
-            Jsi_ObjArrayAdd(interp, oall, vrow);
+            if ((rc = dbArrayAdd(interp, oall, vrow)) != JSI_OK) break;
             cnt++;
             if (opts.limit && cnt>=opts.limit) break;
         }
@@ -3118,14 +3125,14 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                     vcur = Jsi_ValueNewStringDup(interp, apColName[i]);
                     Jsi_ObjArrayAdd(interp, ocur, vcur);
                 }
-                Jsi_ObjArrayAdd(interp, oall, vrow);
+                if ((rc = dbArrayAdd(interp, oall, vrow)) != JSI_OK) break;
             }
             vrow = Jsi_ValueMakeArrayObject(interp, NULL, ocur = Jsi_ObjNewType(interp, JSI_OT_ARRAY));
             for(i=0; i<nCol; i++) {
                 vcur = dbEvalSetColumnValue(&sEval, i, NULL);
                 Jsi_ObjArrayAdd(interp, ocur, vcur);
             }
-            Jsi_ObjArrayAdd(interp, oall, vrow);
+            if ((rc = dbArrayAdd(interp, oall, vrow)) != JSI_OK) break;
             cnt++;
             if (opts.limit && cnt>=opts.limit) break;
         }
@@ -3147,15 +3154,16 @@ static Jsi_RC SqliteQueryCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
             int nCol;
             dbEvalRowInfo(&sEval, &nCol, &apColName, &apColType);
             if (cnt == 0 && opts.headers) {
-                for(i=0; i<nCol; i++) {
+                for(i=0; i<nCol && rc == JSI_OK; i++) {
                     vcur = Jsi_ValueNewStringDup(interp, apColName[i]);
-                    Jsi_ObjArrayAdd(interp, oall, vcur);
+                    rc = dbArrayAdd(interp, oall, vcur);
                 }
             }
-            for(i=0; i<nCol; i++) {
+            for(i=0; i<nCol && rc == JSI_OK; i++) {
                 vcur = dbEvalSetColumnValue(&sEval, i, NULL);
-                Jsi_ObjArrayAdd(interp, oall, vcur);
+                rc = dbArrayAdd(interp, oall, vcur);
             }
+            if (rc != JSI_OK) break;
             cnt++;
             if (opts.limit && cnt>=opts.limit) break;
         }
-- 
2.43.0


From 718a3798d3eb956de9e1b46f1106d0f9d3c9f939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:16 +0000
Subject: [PATCH 133/179] fix: flat, match and values beyond the array limit
 were cut off without an error

---
 src/jsiArray.c  | 4 ++--
 src/jsiObj.c    | 3 +--
 src/jsiRegexp.c | 3 ++-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jsiArray.c b/src/jsiArray.c
index 89f55e9..2c4cd63 100644
--- a/src/jsiArray.c
+++ b/src/jsiArray.c
@@ -261,10 +261,10 @@ static Jsi_RC jsi_ArrayFlatSub(Jsi_Interp *interp, Jsi_Obj* nobj, Jsi_Value *arr
             rc = jsi_ArrayFlatSub(interp, nobj, t , depth-1);
         else if (t && t->vt != JSI_VT_UNDEF) {
             Jsi_Value *nt = Jsi_ValueDup(interp, t);
-            Jsi_ObjArrayAdd(interp, nobj, nt);
+            rc = Jsi_ObjArrayAdd(interp, nobj, nt);
             Jsi_DecrRefCount(interp, nt);
         }
-        if ((uint)(++n + clen)>interp->maxArrayList)
+        if (rc == JSI_OK && (uint)(++n + clen)>interp->maxArrayList)
             rc = Jsi_LogError("array size exceeded");
     }
     return rc;
diff --git a/src/jsiObj.c b/src/jsiObj.c
index 045aa6e..e940aa3 100644
--- a/src/jsiObj.c
+++ b/src/jsiObj.c
@@ -154,8 +154,7 @@ Jsi_RC Jsi_ObjGetValues(Jsi_Interp *interp, Jsi_Obj *obj, Jsi_Value *outVal, Jsi
         }
         return JSI_OK;
     }
-    Jsi_TreeWalk(obj->tree, ObjListifyValuesCallback, Jsi_ValueGetObj(interp, outVal), 0);
-    return JSI_OK;
+    return Jsi_TreeWalk(obj->tree, ObjListifyValuesCallback, Jsi_ValueGetObj(interp, outVal), 0);
 }
 
 void Jsi_IterObjFree(Jsi_IterObj *iobj)
diff --git a/src/jsiRegexp.c b/src/jsiRegexp.c
index da87d8a..b4b923c 100644
--- a/src/jsiRegexp.c
+++ b/src/jsiRegexp.c
@@ -265,7 +265,8 @@ Jsi_RC jsi_RegExpMatches(Jsi_Interp *interp, Jsi_Value *pattern, const char *str
                 char *ostr = jsi_SubstrDup(str, -1, pos[i].rm_so, pos[i].rm_eo - pos[i].rm_so, &olen);
                 val = Jsi_ValueMakeBlob(interp, NULL, (uchar*)ostr, olen);
             }
-            Jsi_ValueInsertArray(interp, ret, num_matches, val, 0);
+            if (Jsi_ValueInsertArray(interp, ret, num_matches, val, 0) != JSI_OK)
+                return Jsi_LogError("too many matches");
             num_matches++;
             if ( match && isglob)
                 break;
-- 
2.43.0


From 4b4bfa55785a3a337d06f18005074fd0ba002107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:22 +0000
Subject: [PATCH 134/179] fix: an error thrown by a getter was lost when the
 value was not used

---
 src/jsiEval.c  | 6 ++++++
 src/jsiInt.h   | 1 +
 src/jsiValue.c | 2 +-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 6b9844a..e04e496 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1000,9 +1000,15 @@ static Jsi_RC jsiEvalSubscript(Jsi_Interp *interp, Jsi_Value *src, Jsi_Value *id
     rc = Jsi_ValueToObject(interp, src);
     if (rc != JSI_OK)
         return rc;
+    interp->getterFailed = 0;
     Jsi_Value res = VALINIT, 
         *resPtr = &res,
         *vp = jsi_ValueSubscript(interp, src, idx, &resPtr, right_val);
+    if (!vp && interp->getterFailed) {
+        interp->getterFailed = 0;
+        Jsi_ValueMakeUndef(interp, &src);
+        return JSI_ERROR;
+    }
     if (!vp && bsc == 0) {
         /* eg. so we can list available commands for  "db.xx()" */
         if (idx->vt == JSI_VT_STRING)
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 9327251..69b23b7 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1286,6 +1286,7 @@ struct Jsi_Interp {
     uint maxArrayList;
     uint maxDumpStack, maxDumpArgs;
     int delRBCnt;
+    bool getterFailed;              /* The getter of the last property looked up failed. */
     Jsi_Func *activeFunc;  // Currently active function call.
     Jsi_Func *prevActiveFunc;  // Prev active function call.
     jsi_OpCode *curIp,  /* Used for debug Log msgs. */
diff --git a/src/jsiValue.c b/src/jsiValue.c
index 4e50251..f93088f 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -1004,7 +1004,7 @@ static Jsi_Value *jsi_ValueLookupBase(Jsi_Interp *interp, Jsi_Value *target, Jsi
                 v->f.bits.isgetter = 1;
                 return v;
             }
-            //else Jsi_DecrRefCount(interp, vres);
+            interp->getterFailed = 1;
             return NULL;
         }
         
-- 
2.43.0


From 61a69b257d4cef32d823319b621009b54228b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:32 +0000
Subject: [PATCH 135/179] fix: array literals and argument lists beyond the
 array limit became empty objects silently

---
 src/jsiEval.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index e04e496..6a6c5f1 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -823,11 +823,17 @@ static Jsi_RC jsiEvalFunction(jsi_Pstate *ps, jsi_OpCode *ip, int discard) {
     int stackargc = (int)(uintptr_t)ip->data;
     jsiVarDeref(interp, stackargc + 1);
     int tocall_index = interp->framePtr->Sp - stackargc - 1;
+    Jsi_Value **spargs = _jsi_STACK+(interp->framePtr->Sp - stackargc);
+    Jsi_Obj *argobj = Jsi_ObjNewArray(interp, spargs, stackargc, 1);
+    if (!argobj) {  /* More arguments than an array can have elements. */
+        jsiPop(interp, stackargc);
+        jsiClearStack(interp,1);
+        return JSI_ERROR;
+    }
     Jsi_Value *_this = _jsi_THISIDX(tocall_index),
         *tocall = _jsi_STACKIDX(tocall_index),
-        **spargs = _jsi_STACK+(interp->framePtr->Sp - stackargc),   
         *spretPtr = Jsi_ValueNew1(interp), *spretPtrOld = spretPtr,
-        *args = Jsi_ValueNewArrayObj(interp, spargs, stackargc, 1);
+        *args = Jsi_ValueNewObj(interp, argobj);
     Jsi_IncrRefCount(interp, args);
     bool isArrow = 0;
     if (tocall && tocall->vt == JSI_VT_OBJECT && tocall->d.obj->ot == JSI_OT_FUNCTION)
@@ -1968,6 +1974,11 @@ undef_eval:
                 Jsi_Obj *obj = Jsi_ObjNewArray(interp, _jsi_STACK+(fp->Sp-itemcount), itemcount, 1);
                 jsiPop(interp, itemcount - 1);
                 jsiClearStack(interp,1);
+                if (!obj) {
+                    rc = JSI_ERROR;
+                    throwStr = "array";
+                    break;
+                }
                 Jsi_ValueMakeObject(interp, &_jsi_TOP, obj);
                 break;
             }
-- 
2.43.0


From 8402b7d9db39ba4e7817fa8376e2b260b9aa9b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:32 +0000
Subject: [PATCH 136/179] fix: JSON.parse of an array beyond the array limit
 lost elements and misread what follows

---
 src/jsiJSON.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index c0fe190..c3bab94 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -181,6 +181,7 @@ jsonGenArray(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, ui
     for (i=pos+1, n=0; i<p->toknext && n<tok->size; i++, n++) {
         if (n >= nobj->arrMaxSize) {
             if (Jsi_ObjArraySizer(interp, nobj, n+1)<=0) {
+                p->errStr = "array size too big";
                 break;
             }
         }
@@ -248,6 +249,13 @@ Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int fl
         goto done;
     }
     v = jsonGen1Value(interp, p, js, i, &i, (*ret!=NULL));
+    if (p->errStr) {
+        if (!*ret)
+            Jsi_IncrRefCount(interp, v);
+        Jsi_DecrRefCount(interp, v);
+        result = JSI_ERROR;
+        goto done;
+    }
     if (!*ret)
         *ret = v;
     else {
-- 
2.43.0


From e8733334eba9623b86fba8a1a24a40ce1d752991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:29 +0000
Subject: [PATCH 137/179] fix: getters and setters shared the scope of the code
 around them: their variables leaked, globals were hidden, and later variables
 of the enclosing function became global

---
 src/parser.y | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/parser.y b/src/parser.y
index 8d20a29..e4b9e81 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -44,7 +44,7 @@
 %type <opcodes> array commonstatement delete_statement do_statement expr expr_opt exprlist exprlist_opt itemident itemfunc itemres
 %type <opcodes> fcall_exprs for_cond for_init for_statement func_expr func_statement func_statement_block if_statement item items iterstatement lvalue
 %type <opcodes> object objexport statement statements statement_or_empty switch_statement try_statement value vardec vardecs while_statement with_statement
-%type <scopes> args args_opt argsa arrowargs
+%type <scopes> args args_opt argsa arrowargs setarg getarg
 %type <inum> typeid inof rettype argtype localvar
 %type <sstr> identifier_opt label_opt func_prefix
 %type <vstr> strlit
@@ -928,19 +928,23 @@ item:
     | _FALSE ':' expr { $$ = codes_join_item(code_push_bool(0), $3);  }
     | UNDEF ':' expr { $$ = codes_join_item(code_push_undef(), $3);  }
     | TYPENULL ':' expr { $$ = codes_join_item(code_push_null(), $3);  }
-    | OBJSET IDENTIFIER '(' IDENTIFIER ')' func_statement_block {
-        Jsi_ScopeStrs *args = jsi_argInsert(pstate, NULL, $4, NULL, &@4, 0 );
+    | OBJSET IDENTIFIER '(' setarg ')' func_statement_block {
         $$ = codes_join_item(code_push_string(pstate,&@2, $2), 
-            code_push_func(pstate,  &@3, jsi_FuncMake(pstate, args, $6, &@1, $2, 2)));
+            code_push_func(pstate,  &@3, jsi_FuncMake(pstate, $4, $6, &@1, $2, 2)));
+        jsi_PstatePop(pstate);
     }
-    | OBJGET IDENTIFIER '(' ')' func_statement_block {
-        Jsi_ScopeStrs *args = jsi_ArgsOptAdd(pstate, jsi_ScopeStrsNew());
+    | OBJGET IDENTIFIER '(' getarg ')' func_statement_block {
         $$ = codes_join_item(code_push_string(pstate,&@2, $2), 
-            code_push_func(pstate,  &@3, jsi_FuncMake(pstate, args, $5, &@1, $2, 4)));
+            code_push_func(pstate,  &@3, jsi_FuncMake(pstate, $4, $6, &@1, $2, 4)));
         $$->codes[0].setget = 1;
+        jsi_PstatePop(pstate);
     }
 ;
 
+/* Push the scope for the body. */
+setarg: IDENTIFIER { $$ = jsi_ArgsOptAdd(pstate, jsi_argInsert(pstate, NULL, $1, NULL, &@1, 0)); } ;
+getarg: { $$ = jsi_ArgsOptAdd(pstate, jsi_ScopeStrsNew()); } ;
+
 array:
     '[' exprlist ']' { $$ = codes_join($2, code_array(pstate, &@2, ($2)->expr_counter)); }
     | '[' exprlist ',' ']' { $$ = codes_join($2, code_array(pstate, &@2, ($2)->expr_counter)); }
-- 
2.43.0


From 3fc32fd45ae6d9c2b7f0251a864508a74e70d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:22 +0000
Subject: [PATCH 138/179] fix: paths with .. or . were normalized wrongly, and
 realpath of a missing ../x was not absolute

---
 src/jsiFilesys.c | 129 ++++++++++++-----------------------------------
 1 file changed, 32 insertions(+), 97 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3cc22ea..7a14582 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1251,7 +1251,31 @@ const char *jsi_GetHomeDir(Jsi_Interp *interp) {
 #endif
 }
 
-/* TODO: reconcile with NormalizeUnixPath */
+/* Remove empty, "." and ".." parts from an absolute path, in place. */
+static void jsiCleanPath(char *path) {
+    char *ip = path, *op = path, *sp;
+    while (*ip) {
+        while (*ip == '/')
+            ip++;
+        sp = ip;
+        while (*ip && *ip != '/')
+            ip++;
+        int len = ip-sp;
+        if (len == 0 || (len == 1 && sp[0] == '.'))
+            continue;
+        if (len == 2 && sp[0] == '.' && sp[1] == '.') {
+            while (op>path && *--op != '/') {}
+            continue;
+        }
+        *op++ = '/';
+        memmove(op, sp, len);
+        op += len;
+    }
+    if (op == path)
+        *op++ = '/';
+    *op = 0;
+}
+
 char* Jsi_NormalPath(Jsi_Interp *interp, const char *path, Jsi_DString *dStr) {
     char cdbuf[PATH_MAX];
     Jsi_DSInit(dStr);
@@ -1288,62 +1312,10 @@ char* Jsi_NormalPath(Jsi_Interp *interp, const char *path, Jsi_DString *dStr) {
         cp += 2;
     }
 #endif
-    int i=0, n=0, m, nmax, unclean=0, slens[PATH_MAX];
-    char *ss;
-    char *sptrs[PATH_MAX];
-    while (*cp && n<PATH_MAX) {
-        while (*cp && *cp == '/') {
-            cp++;
-            if (*cp == '/')
-                unclean = 1;
-        }
-        sptrs[n] = cp;
-        if (cp[0] == '.' && (cp[1] == '.' || cp[1] == '/'))
-            unclean = 1;
-        ss = cp++;
-        while (*ss && *ss != '/')
-            ss++;
-        slens[n++] = (ss-cp) + 1;
-        cp = ss;
-    }
-    if (!unclean)
-        goto done;
-    /* Need to remove //, /./, /../ */
-    nmax = n--;
-    while (n>0) {
-        if (slens[n]<=0) {
-            n--;
-            continue;
-        }
-        if (Jsi_Strncmp(sptrs[n],".",slens[n])==0)
-            slens[n] = 0;
-        else if (Jsi_Strncmp(ss,"..",slens[n])==0) {
-            int cnt = 0;
-            m = n-1;
-            while (m>=0 && cnt<1) {
-                if (slens[m])
-                    cnt++;
-                slens[m] = 0;
-                m--;
-            }
-            if (cnt<1)
-                goto done;  /* Can't fix it */
-        }
-        n--;
-    }
-    for (i=0; i<nmax; i++) {
-        if (slens[i]) {
-#ifdef __WIN32
-            Jsi_DSAppend(&sStr, "/" /*"\\"*/, NULL);
-#else
-            Jsi_DSAppend(&sStr, "/", NULL);
-#endif
-            Jsi_DSAppendLen(&sStr, sptrs[i], slens[i]);
-        }
-    }
+    jsiCleanPath(cp);
+    Jsi_DSAppend(&sStr, cp, NULL);
     Jsi_DSSetLength(dStr, 0);
     Jsi_DSAppend(dStr, Jsi_DSValue(&sStr), NULL);
-done:
     Jsi_DSFree(&sStr);
     return Jsi_DSValue(dStr);
 }
@@ -1365,47 +1337,6 @@ static void DeBackSlashify(char *cp) {
 }
 
 #else
-
-static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
-    char **argv; int argc, i;
-    if (!Jsi_Strstr(path, "./")) return;
-    Jsi_DString dStr = {}, eStr = {};
-    if (path[0] != '/' && Jsi_Strstr(path, "..")) {
-        char *npath = Jsi_GetCwd(interp, &eStr);
-        if (npath && Jsi_Strcmp(npath,"/")) {
-            Jsi_DSAppend(&eStr, "/", path, NULL);
-            path = Jsi_DSValue(&eStr);
-        }
-    }
-    Jsi_DString sStr;
-    Jsi_DSInit(&sStr);
-    Jsi_SplitStr(path, &argc, &argv, "/", &sStr);
-    char *cp = path;
-    *cp = 0;
-    for (i=0; i<argc; i++) {
-        if (i == 0 && argv[0][0] == 0) {
-            continue;
-        } else if (argv[i][0] == 0) {
-            continue;
-        } else if (i && !Jsi_Strcmp(argv[i],".")) {
-            continue;
-        } else if (!Jsi_Strcmp(argv[i],"..")) {
-            char *pcp = Jsi_DSValue(&dStr), *lcp = pcp;
-            pcp = Jsi_Strrchr(pcp, '/');
-            if (pcp && pcp != Jsi_DSValue(&dStr)) {
-                *pcp = 0;
-                Jsi_DSSetLength(&dStr, Jsi_Strlen(lcp));
-            }
-            continue;
-        } else {
-            Jsi_DSAppend(&dStr, (i>0?"/":""), argv[i], NULL);
-        }
-    }
-    Jsi_DSFree(&sStr);
-    Jsi_Strcpy(path, Jsi_DSValue(&dStr));
-    Jsi_DSFree(&dStr);
-    Jsi_DSFree(&eStr);
-}
 #endif
 
 char * Jsi_GetCwd(Jsi_Interp *interp, Jsi_DString *cwdPtr) {
@@ -1450,8 +1381,12 @@ char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
 #endif
     apath = realpath(npath, newname);
     if (!apath && path[0] != '~') {
+#ifdef __WIN32
         if ((path[0] == '.' && path[1] == '/') || (path[0] != '/' && 
         !(path[0] == '.' && path[1] == '.') && path[1] != ':')) {
+#else
+        if (path[0] != '/') {
+#endif
             Jsi_GetCwd(interp, &eStr);
             Jsi_DSAppend(&eStr, "/", path, NULL);
             npath = Jsi_DSValue(&eStr);
@@ -1466,7 +1401,7 @@ char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
             apath = Jsi_Strdup(npath);
 #ifndef __WIN32
         /* If path not exists on unix we try to eliminate ../ and /./ etc.*/
-        NormalizeUnixPath(interp, apath);
+        jsiCleanPath(apath);
 #endif
     }
 #ifdef __WIN32
-- 
2.43.0


From ad7d6d5a8d8652cd210f3ad24e73040e941a585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:04 +0000
Subject: [PATCH 139/179] fix: a package whose load failed after its provide()
 counted as loaded

---
 src/jsiCmds.c | 44 ++++++++++++++++++++++++++++++++++----------
 src/jsiInt.h  |  1 +
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 1d705b1..30df7ab 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -644,7 +644,8 @@ Jsi_Value * jsi_AccessFile(Jsi_Interp *interp, const char *name, int mode)
 
 static jsi_PkgInfo* jsi_PkgGet(Jsi_Interp *interp, const char *name)
 {
-     return (jsi_PkgInfo*)Jsi_HashGet(interp->packageHash, name, 0);
+     jsi_PkgInfo *ptr = (jsi_PkgInfo*)Jsi_HashGet(interp->packageHash, name, 0);
+     return (ptr && ptr->failed ? NULL : ptr);
 }
 
 Jsi_Number Jsi_PkgVersion(Jsi_Interp *interp, const char *name, const char **filePtr)
@@ -854,6 +855,9 @@ Jsi_Number Jsi_PkgRequireEx(Jsi_Interp *interp, const char *name, Jsi_Number ver
     interp->pkgReqDepth++;
     version = jsi_VersionNormalize(version, NULL, 0);
     if (jsi_PkgLoad(interp, name, version) != JSI_OK) {
+        // Undo a provide() from the failed load, so that require() can be retried.
+        if ((ptr = jsi_PkgGet(interp, name)) && !ptr->initProc)
+            ptr->failed = 1;
         Jsi_LogError("failed require('%s')", name);
         interp->pkgReqDepth--;
         return -1;
@@ -919,8 +923,7 @@ static Jsi_OptionSpec jsiModuleOptions[] = {
 
 Jsi_RC jsi_PkgDumpInfo(Jsi_Interp *interp, const char *name, Jsi_Value **ret, Jsi_Number lastReq) {
     jsi_PkgInfo *ptr;
-    Jsi_HashEntry *hPtr = Jsi_HashEntryFind(interp->packageHash, name);
-    if (hPtr && ((ptr = (jsi_PkgInfo*)Jsi_HashValueGet(hPtr)))) {
+    if ((ptr = jsi_PkgGet(interp, name))) {
         Jsi_Obj *nobj = Jsi_ObjNew(interp);
         Jsi_ValueMakeObject(interp, ret, nobj);
         if (lastReq)
@@ -976,8 +979,19 @@ static Jsi_RC SysRequireCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
 {
     Jsi_Number n = 0;
     int argc = Jsi_ValueGetLength(interp, args);
-    if (argc == 0)
-        return Jsi_HashKeysDump(interp, interp->packageHash, ret, 0);
+    if (argc == 0) {
+        Jsi_HashSearch search;
+        Jsi_HashEntry *hPtr;
+        Jsi_Obj *nobj = Jsi_ObjNew(interp);
+        Jsi_ValueMakeArrayObject(interp, ret, nobj);
+        for (hPtr = Jsi_HashSearchFirst(interp->packageHash, &search);
+            hPtr != NULL; hPtr = Jsi_HashSearchNext(&search)) {
+            const char *key = (const char*)Jsi_HashKeyGet(hPtr);
+            if (jsi_PkgGet(interp, key))
+                Jsi_ObjArrayAdd(interp, nobj, Jsi_ValueNewStringDup(interp, key));
+        }
+        return JSI_OK;
+    }
         
     Jsi_Value *vname = Jsi_ValueArrayIndex(interp, args, 0);
     const char *name = NULL;
@@ -1040,9 +1054,8 @@ Jsi_RC Jsi_PkgProvideEx(Jsi_Interp *interp, const char *name, Jsi_Number version
     if (version == 0) 
         return Jsi_LogError("Version must be > 0");
     else {
-        if (hPtr) {
-            ptr = (jsi_PkgInfo*)Jsi_HashValueGet(hPtr);
-            if (ptr && ptr->needInit==0 && fp->filePtr->fileName != ptr->loadFile) 
+        if (hPtr && (ptr = jsi_PkgGet(interp, name))) {
+            if (ptr->needInit==0 && fp->filePtr->fileName != ptr->loadFile) 
                 return Jsi_LogError("package %s already provided from: %s", name, ptr->loadFile?ptr->loadFile:"");
             return JSI_OK;
         }
@@ -1050,7 +1063,17 @@ Jsi_RC Jsi_PkgProvideEx(Jsi_Interp *interp, const char *name, Jsi_Number version
             return Jsi_LogError("invalid package name");
         if (opts && !Jsi_ValueIsObjType(interp, opts, JSI_OT_OBJECT) && !Jsi_ValueIsObjType(interp, opts, JSI_OT_FUNCTION))
             return Jsi_LogError("opts must be function or object");
-        ptr = (jsi_PkgInfo*)Jsi_Calloc(1, sizeof(*ptr));
+        if (hPtr) { // Retry after a failed load.
+            ptr = (jsi_PkgInfo*)Jsi_HashValueGet(hPtr);
+            if (ptr->popts.conf.info)
+                Jsi_DecrRefCount(interp, ptr->popts.conf.info);
+            if (ptr->popts.conf.udata)
+                Jsi_DecrRefCount(interp, ptr->popts.conf.udata);
+            if (ptr->filePtr && ptr->filePtr->pkg == ptr)
+                ptr->filePtr->pkg = NULL;
+            memset(ptr, 0, sizeof(*ptr));
+        } else
+            ptr = (jsi_PkgInfo*)Jsi_Calloc(1, sizeof(*ptr));
         ptr->version = version;
         ptr->initProc = initProc;
         if (popts) {
@@ -1068,7 +1091,8 @@ Jsi_RC Jsi_PkgProvideEx(Jsi_Interp *interp, const char *name, Jsi_Number version
             else
                 Jsi_LogWarn("multiple packages in file: %s", ptr->loadFile);
         }
-        Jsi_HashSet(interp->packageHash, (void*)name, ptr);
+        if (!hPtr)
+            Jsi_HashSet(interp->packageHash, (void*)name, ptr);
         if (initProc && interp->parent) { // Provide C extensions to topInterp.
             ptr = jsi_PkgGet(interp->topInterp, name);
             if (ptr == NULL) {
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 69b23b7..4b0284d 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -919,6 +919,7 @@ typedef struct jsi_PkgInfo {
     jsi_FileInfo* filePtr;
     int log, logmask; // Runtime values set by moduleOps.
     int loadLine; // set by moduleRun
+    bool failed; // Provided during a load that failed.
 } jsi_PkgInfo;
 
 typedef struct {
-- 
2.43.0


From 97499a91ec5277ce711562761516f5d5d6c7f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:04 +0000
Subject: [PATCH 140/179] fix: require with options ignored a version greater
 than the package's

---
 src/jsiCmds.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 30df7ab..d1a1200 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1015,13 +1015,13 @@ static Jsi_RC SysRequireCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     if (ver < 0)
         return JSI_ERROR;
     Jsi_RC rc = JSI_OK;
-    if (argc==2) {
-        if (ver < n)
-            rc = Jsi_LogType("package '%s' downlevel: %." JSI_VERFMT_LEN JSI_NUMGFMT " < %." JSI_VERFMT_LEN JSI_NUMGFMT, name, ver, n);
+    if (argc>=2 && ver < n) {
+        rc = Jsi_LogType("package '%s' downlevel: %." JSI_VERFMT_LEN JSI_NUMGFMT " < %." JSI_VERFMT_LEN JSI_NUMGFMT, name, ver, n);
         if (rc != JSI_OK)
             return rc;
-        return jsi_PkgDumpInfo(interp, name, ret, n);
     }
+    if (argc==2)
+        return jsi_PkgDumpInfo(interp, name, ret, n);
     Jsi_Value *opts = Jsi_ValueArrayIndex(interp, args, 2);
        
     if (opts != NULL) {
-- 
2.43.0


From 39fc9fc5420d74d9ab4c39de72506ca357875d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:17 +0000
Subject: [PATCH 141/179] fix: eval of a text also evaluated elsewhere declared
 its variables there, and uplevel to level 1 used the current frame

---
 src/jsiEval.c   | 4 ++--
 src/jsiInt.h    | 1 +
 src/jsiInterp.c | 4 +++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 6a6c5f1..b88db18 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -24,7 +24,7 @@ static jsi_Pstate* jsiNewParser(Jsi_Interp* interp, const char *codeStr, Jsi_Cha
 {
     bool isNew;
     Jsi_HashEntry *hPtr = NULL;
-    hPtr = Jsi_HashEntryNew(interp->codeTbl, (void*)codeStr, &isNew);
+    hPtr = Jsi_HashEntryNew(iseval?interp->evalTbl:interp->codeTbl, (void*)codeStr, &isNew);
     if (!hPtr) return NULL;
     jsi_Pstate *ps, *topPs;
 
@@ -52,7 +52,7 @@ static jsi_Pstate* jsiNewParser(Jsi_Interp* interp, const char *codeStr, Jsi_Cha
         jsi_PstateFree(ps);
         return NULL;
     }
-    if (isNew) {
+    if (!Jsi_HashValueGet(hPtr)) {
         Jsi_HashValueSet(hPtr, ps);
         ps->hPtr = hPtr;
     }
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 4b0284d..2015a82 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -1224,6 +1224,7 @@ struct Jsi_Interp {
     Jsi_Hash *onDeleteTbl;  /* Cleanup funcs to call on interp delete. */
     Jsi_Hash *assocTbl;
     Jsi_Hash *codeTbl; /* Scripts compiled table. */
+    Jsi_Hash *evalTbl; /* Same, for scripts that declare variables locally, ie. eval(). */
     Jsi_Hash *eventTbl;
     Jsi_Hash *genValueTbl;
     Jsi_Hash *genObjTbl;
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index b59a939..af32d82 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1446,6 +1446,7 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
     interp->userdataTbl = Jsi_HashNew(interp, JSI_KEYS_STRING, freeUserdataTbl);
     interp->varTbl = Jsi_HashNew(interp, JSI_KEYS_STRING, NULL);
     interp->codeTbl = Jsi_HashNew(interp, JSI_KEYS_STRING, freeCodeTbl);
+    interp->evalTbl = Jsi_HashNew(interp, JSI_KEYS_STRING, freeCodeTbl);
     interp->genValueTbl = Jsi_HashNew(interp, JSI_KEYS_ONEWORD,jsi_freeValueEntry);
     interp->genObjTbl = Jsi_HashNew(interp, JSI_KEYS_ONEWORD, freeGenObjTbl);
 #ifdef JSI_MEM_DEBUG
@@ -1856,6 +1857,7 @@ static Jsi_RC jsiInterpDelete(Jsi_Interp* interp, void *unused)
     Jsi_DecrRefCountIF(interp, interp->console);
     Jsi_DecrRefCountIF(interp, interp->lastSubscriptFail);
     Jsi_DecrRefCountIF(interp, interp->nullFuncRet);
+    Jsi_HashDeleteIF(interp->evalTbl);
     Jsi_HashDeleteIF(interp->codeTbl);
     if (interp->cmdSpecTbl) Jsi_MapDelete(interp->cmdSpecTbl);
     Jsi_HashDeleteIF(interp->funcObjTbl);
@@ -2154,7 +2156,7 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                 sinterp->autoFiles = Jsi_ValueDup(sinterp, interp->autoFiles);
             sinterp->includeCnt++;
             rc = Jsi_EvalFile(sinterp, Jsi_ValueArrayIndex(interp, args, 0), sflags);
-        } else if (isUplevel == 0 || lev <= 1)
+        } else if (isUplevel == 0 || lev <= 0)
             rc = (Jsi_EvalString(sinterp, cp, 0) == 0 ? JSI_OK : JSI_ERROR);
         else {
             rc = (jsi_evalStrFile(sinterp, NULL, cp, 0, lev) == 0 ? JSI_OK : JSI_ERROR);
-- 
2.43.0


From bda06bc9f47c649c89351a48faad2c606f20c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:00 +0000
Subject: [PATCH 142/179] fix: uplevel declared variables globally instead of
 in the frame named

---
 src/jsiEval.c   | 2 +-
 src/jsiInt.h    | 2 ++
 src/jsiInterp.c | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index b88db18..82a1ec2 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -2744,7 +2744,7 @@ cont:
             goto bail;
         str = Jsi_DSValue(&tStr);
     }
-    ps = jsiNewParser(interp, str, input, 0, fi);
+    ps = jsiNewParser(interp, str, input, (flags&JSI_EVAL_LOCALVARS)!=0, fi);
     interp->evalFlags = flags;
     if (!ps) {
         rc = JSI_ERROR;
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 2015a82..a71acb7 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -910,6 +910,8 @@ typedef struct {
     bool temp;
 } jsi_BreakPoint;
 
+#define JSI_EVAL_LOCALVARS 0x10000 // Declare variables in the frame given by level.
+
 typedef struct jsi_PkgInfo {
     Jsi_Number version, lastReq;
     const char *loadFile;  // Full path of file name loaded.
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index af32d82..39b0fe4 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2159,7 +2159,7 @@ static Jsi_RC InterpEvalCmd_(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
         } else if (isUplevel == 0 || lev <= 0)
             rc = (Jsi_EvalString(sinterp, cp, 0) == 0 ? JSI_OK : JSI_ERROR);
         else {
-            rc = (jsi_evalStrFile(sinterp, NULL, cp, 0, lev) == 0 ? JSI_OK : JSI_ERROR);
+            rc = (jsi_evalStrFile(sinterp, NULL, cp, (lev>1?JSI_EVAL_LOCALVARS:0), lev) == 0 ? JSI_OK : JSI_ERROR);
         }
         sinterp->noCheck = onoerror;
         if (interp->framePtr->tryDepth) {
-- 
2.43.0


From 0b9848e5d39862f1cb5a6966802cf45e47c99591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:45 +0000
Subject: [PATCH 143/179] fix: conf() with a failing option left the earlier
 options changed

---
 src/jsiOptions.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 1a2f903..ee53e67 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -927,8 +927,29 @@ Jsi_OptionsDump(Jsi_Interp *interp, Jsi_OptionSpec *specs, void *rec, Jsi_Value
     return JSI_OK;
 }
 
+static int jsi_OptionsApply(Jsi_Interp *interp, Jsi_OptionSpec *specs,  void *rec, Jsi_Value *args, Jsi_Wide flags);
+
 int
 Jsi_OptionsProcess(Jsi_Interp *interp, Jsi_OptionSpec *specs,  void *rec, Jsi_Value *args, Jsi_Wide flags)
+{
+    if ((JSI_OPTS_IS_UPDATE&flags) && !(JSI_OPTS_INCR&flags) && Jsi_OptionsValid(interp, specs)
+        && args && Jsi_ValueIsObjType(interp, args, JSI_OT_OBJECT)) {
+        /* An update sets all of the options or none: try it on a blank record first. */
+        Jsi_OptionSpec *endSpec = jsi_OptionsEnd(specs);
+        if (endSpec && endSpec->size>0) {
+            void *blank = Jsi_Calloc(1, endSpec->size);
+            int count = jsi_OptionsApply(interp, specs, blank, args, flags);
+            Jsi_OptionsFree(interp, specs, blank, flags);
+            Jsi_Free(blank);
+            if (count<0)
+                return count;
+        }
+    }
+    return jsi_OptionsApply(interp, specs, rec, args, flags);
+}
+
+static int
+jsi_OptionsApply(Jsi_Interp *interp, Jsi_OptionSpec *specs,  void *rec, Jsi_Value *args, Jsi_Wide flags)
 {
     Jsi_OptionSpec *specPtr;
     int count = 0;
-- 
2.43.0


From 1829cdb5e8524ad774c23946c28fb3ed5ecb6b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:45 +0000
Subject: [PATCH 144/179] fix: resetting sub-options with null reset read-only
 and init-only options

---
 src/jsiOptions.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index ee53e67..d5878e3 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -967,6 +967,9 @@ jsi_OptionsApply(Jsi_Interp *interp, Jsi_OptionSpec *specs,  void *rec, Jsi_Valu
     
     if (args == NULL || args->vt == JSI_VT_NULL) {
         for (specPtr = specs; specPtr->id>=JSI_OPTION_BOOL && specPtr->id < JSI_OPTION_END && specPtr->name; specPtr++) {
+            if ((JSI_OPTS_IS_UPDATE&flags) && ((specPtr->flags&(JSI_OPT_READ_ONLY|JSI_OPT_INIT_ONLY))
+                || (isSafe && (specPtr->flags&JSI_OPT_LOCKSAFE))))
+                continue;
             specPtr->flags &= ~JSI_OPT_IS_SPECIFIED;
             if (jsi_SetOption(interp, specPtr, (char*)specPtr->name, record, NULL, flags, isSafe) != JSI_OK)
                 return -1;
-- 
2.43.0


From ff0824cbf28b0b5abbd8d7cdfac8d2cbcd6aad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:45 +0000
Subject: [PATCH 145/179] fix: resetting a BOOL option stored an uninitialised
 value

---
 src/jsiOptions.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index d5878e3..1bf3c11 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -268,11 +268,12 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
         break;
 
     case JSI_OPTION_BOOL: {
-        if (!argValue)
-            *(char*)ptr = 0;
-        else if (!Jsi_ValueIsBoolean(interp, argValue))
-            goto bail;
-        Jsi_GetBoolFromValue(interp, argValue, &bn);
+        bn = 0;
+        if (argValue) {
+            if (!Jsi_ValueIsBoolean(interp, argValue))
+                goto bail;
+            Jsi_GetBoolFromValue(interp, argValue, &bn);
+        }
         *(char*)ptr = bn;
         break;
     }
-- 
2.43.0


From 5e2bb7057ded605ed00f4716ad2004109a89e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:45 +0000
Subject: [PATCH 146/179] fix: bitset options beyond bit 7 were lost in object
 form and reset

---
 src/jsiOptions.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index 1bf3c11..a377df2 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -1640,12 +1640,12 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
                 }
                 if (JSI_OK != Jsi_GetIndex(interp, cp, list, "enum", fflags, &n))
                     rc = JSI_ERROR;
-                if (n >= (int)(spec->size*8)) 
+                else if (n >= (int)(spec->size*8)) 
                     rc = Jsi_LogError("list larger than field size: %s", spec->name);
-                if (isnot)
-                    m &= ~(1<<n);
+                else if (isnot)
+                    m &= ~(1ULL<<n);
                 else
-                    m |= (1<<n);
+                    m |= (1ULL<<n);
             }
             Jsi_DSFree(&sStr);
             if (rc != JSI_OK)
@@ -1654,10 +1654,8 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
     } else {
 #ifndef JSI_LITE_ONLY
         // Supports object for update, or array for replace (or update when first string is just a '=')
-        if (!inValue) {
-            *s = 0;
-            return JSI_OK;
-        }
+        if (!inValue)
+            goto store;
         if (Jsi_ValueIsObjType(interp, inValue, JSI_OT_OBJECT) && !Jsi_ValueIsArray(interp, inValue)) {
             Jsi_TreeEntry *tPtr;
             Jsi_TreeSearch search;
@@ -1680,14 +1678,13 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
                 bool vb;
                 Jsi_ValueGetBoolean(interp, optval, &vb);
                 if (!vb)
-                    m &= ~(1<<n);
+                    m &= ~(1ULL<<n);
                 else
-                    m |= (1<<n);
+                    m |= (1ULL<<n);
             }
             if (tp)
                 Jsi_TreeSearchDone(&search);
-            *s = m;
-            return JSI_OK;
+            goto store;
         }
         
         if (!Jsi_ValueIsArray(interp, inValue)) 
@@ -1709,11 +1706,11 @@ static Jsi_RC jsi_ValueToBitset(Jsi_Interp *interp, Jsi_OptionSpec* spec, Jsi_Va
             if (JSI_OK != Jsi_GetIndex(interp, cp, list, "bitset", fflags, &n))
                 return JSI_ERROR;
             if (isnot)
-                m &= ~(1<<n);
+                m &= ~(1ULL<<n);
             else
-                m |= (1<<n);
+                m |= (1ULL<<n);
         }
-        *s = m;
+store:
 #endif
     }
     switch (spec->size) {
-- 
2.43.0


From d36f4777110e9eddc8b0efae0b13b3d964dce285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:45 +0000
Subject: [PATCH 147/179] fix: conf(asserts) of a child compared with the
 parent's setting

---
 src/jsiInterp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 39b0fe4..ba606ec 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2927,7 +2927,7 @@ static Jsi_RC InterpConfCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
         rc = Jsi_OptionsConf(interp, InterpOptions, interp, opts, ret, 0);
     } else {
         sinterp = udf->subinterp;
-        oasserts = interp->asserts;
+        oasserts = sinterp->asserts;
         Jsi_Value *popts = opts;
         if (opts && opts->vt != JSI_VT_NULL && !Jsi_ValueString(interp, opts, NULL) && opts->vt == JSI_VT_OBJECT) {
             popts = Jsi_ValueNew1(sinterp);
-- 
2.43.0


From 9f865ff7ab0ae1219cabce59acc22d1b7cb3201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:45 +0000
Subject: [PATCH 148/179] fix: conf(asserts) changed the log flag of bug
 instead of assert

---
 src/jsiInterp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index ba606ec..e83711a 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -1099,12 +1099,10 @@ static void jsi_UnitTestSetup(Jsi_Interp *interp)  {
 
 static void jsi_interpAssertsUpdate(Jsi_Interp *interp) {
     if (interp->asserts) {
-        interp->log |= JSI_LOG_ASSERT;
+        interp->log |= (1<<JSI_LOG_ASSERT);
         interp->assertMode = jsi_AssertModeThrow;
-    } else {
-        interp->log &= ~JSI_LOG_ASSERT;
+    } else
         interp->assertMode = jsi_AssertModePuts;
-    }
 }
 
 static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_InterpOpts *iopts)
@@ -1245,6 +1243,7 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
     interp->packageHash = Jsi_HashNew(interp, JSI_KEYS_STRING, packageHashFree);
     interp->aliasHash = Jsi_HashNew(interp, JSI_KEYS_STRING, jsi_AliasFree);
 
+    interp->assertMode = jsi_AssertModePuts;
     interp->lockTimeout = -1;
 #ifdef JSI_LOCK_TIMEOUT
     interp->lockTimeout JSI_LOCK_TIMEOUT;
@@ -1480,7 +1479,8 @@ static Jsi_Interp* jsi_InterpNew(Jsi_Interp *parent, Jsi_Value *opts, Jsi_Interp
     interp->framePtr->ingsc = interp->gsc = jsi_ScopeChainNew(interp, 0);
 
     interp->ps = jsi_PstateNew(interp); /* Default parser. */
-    jsi_interpAssertsUpdate(interp);
+    if (interp->asserts)
+        jsi_interpAssertsUpdate(interp);
     jsi_UnitTestSetup(interp);
     if (interp->args && argc) {
         Jsi_LogBug("args may not be specified both as options and parameter");
-- 
2.43.0


From 7f82094b26d106bbb0e5fcf6161a32223806f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:45 +0000
Subject: [PATCH 149/179] fix: object options refused values of the wrong type
 only within one interp

---
 src/jsiOptions.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiOptions.c b/src/jsiOptions.c
index a377df2..8f0adcc 100644
--- a/src/jsiOptions.c
+++ b/src/jsiOptions.c
@@ -527,7 +527,8 @@ jsi_SetOption_(Jsi_Interp *interp, Jsi_OptionSpec *specPtr, const char *string /
 
     case JSI_OPTION_OBJ:
         _JSI_OPT_CHECKNULL(argValue);
-        if (argValue->vt != JSI_VT_OBJECT)
+        if (argValue->vt != JSI_VT_OBJECT || argValue->d.obj->ot == JSI_OT_STRING
+            || argValue->d.obj->ot == JSI_OT_NUMBER || argValue->d.obj->ot == JSI_OT_BOOL)
             goto bail;
 
     case JSI_OPTION_VALUE:
-- 
2.43.0


From b4dab3231a2a5ca2855a72e42472a66729860b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 150/179] fix: toString(16) and toString(8) of negative numbers
 printed two's complement

---
 src/jsiNumber.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jsiNumber.c b/src/jsiNumber.c
index bbf9dac..0ba9368 100644
--- a/src/jsiNumber.c
+++ b/src/jsiNumber.c
@@ -197,13 +197,13 @@ static Jsi_RC NumberToStringCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
     ChkStringN(_this, funcPtr, v);
     Jsi_GetDoubleFromValue(interp, v, &num);
     if (argc>skip && (Jsi_GetIntFromValue(interp, Jsi_ValueArrayIndex(interp, args, skip), &radix) != JSI_OK
-        || radix<2))
-        return JSI_ERROR;
+        || radix<2 || radix>36))
+        return Jsi_LogError("radix must be between 2 and 36");
     if (argc==skip)
         return jsi_ObjectToStringCmd(interp, args, _this, ret, funcPtr);
     switch (radix) {
-        case 16: snprintf(buf, sizeof(buf), "%" PRIx64, (Jsi_Wide)num); break;
-        case 8: snprintf(buf, sizeof(buf), "%" PRIo64, (Jsi_Wide)num); break;
+        case 16: snprintf(buf, sizeof(buf), "%s%" PRIx64, num<=-1?"-":"", (Jsi_Wide)(num<0?-num:num)); break;
+        case 8: snprintf(buf, sizeof(buf), "%s%" PRIo64, num<=-1?"-":"", (Jsi_Wide)(num<0?-num:num)); break;
         case 10: snprintf(buf, sizeof(buf), "%" PRId64, (Jsi_Wide)num); break;
         default: return jsi_ObjectToStringCmd(interp, args, _this, ret, funcPtr);
     }
-- 
2.43.0


From cf91be565d8d85d8b89b05cf29a87c2a9b894fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 151/179] fix: toFixed and toExponential cut long results

---
 src/jsiNumber.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jsiNumber.c b/src/jsiNumber.c
index 0ba9368..c784b5f 100644
--- a/src/jsiNumber.c
+++ b/src/jsiNumber.c
@@ -122,7 +122,7 @@ static Jsi_RC NumberConstructor(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *
 static Jsi_RC NumberToFixedCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    char buf[JSI_MAX_NUMBER_STRING+1];
+    char buf[JSI_MAX_NUMBER_STRING+320];
     int prec = 0, skip = 0;
     Jsi_Number num;
     Jsi_Value *v;
@@ -131,6 +131,7 @@ static Jsi_RC NumberToFixedCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
     if (pa && Jsi_GetIntFromValue(interp, pa, &prec) != JSI_OK)
         return JSI_ERROR;
     if (prec<0) prec = 0;
+    if (prec>JSI_MAX_NUMBER_STRING) return Jsi_LogError("digits must be between 0 and %d", JSI_MAX_NUMBER_STRING);
     Jsi_GetDoubleFromValue(interp, v, &num);
     snprintf(buf, sizeof(buf), "%.*" JSI_NUMFFMT, prec, num);
     Jsi_ValueMakeStringDup(interp, ret, buf);
@@ -162,7 +163,7 @@ static Jsi_RC NumberToPrecisionCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Valu
 static Jsi_RC NumberToExponentialCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr)
 {
-    char buf[JSI_MAX_NUMBER_STRING+1];
+    char buf[JSI_MAX_NUMBER_STRING+20];
     int prec = 0, skip = 0;
     Jsi_Number num;
     Jsi_Value *v;
@@ -170,6 +171,7 @@ static Jsi_RC NumberToExponentialCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Va
     if (Jsi_GetIntFromValue(interp, Jsi_ValueArrayIndex(interp, args, skip), &prec) != JSI_OK)
         return JSI_ERROR;
     if (prec<0) prec = 0;
+    if (prec>JSI_MAX_NUMBER_STRING) return Jsi_LogError("digits must be between 0 and %d", JSI_MAX_NUMBER_STRING);
     Jsi_GetDoubleFromValue(interp, v, &num);
     snprintf(buf, sizeof(buf), "%.*" JSI_NUMEFMT, prec, num);
 #ifdef __WIN32
-- 
2.43.0


From 4216bb58177327d9d941f77580658e7b47233bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 152/179] fix: parseInt ignored the radix for 0x texts, gave 0
 for texts without digits, and overflowed on Infinity

---
 src/jsiCmds.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index d1a1200..56aefc1 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -588,19 +588,14 @@ static Jsi_RC parseIntCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
         else
             goto nanval;
     }
-    else if (str[0] == '0' && str[1] == 'x')
-        d = (Jsi_Number)strtoll(str, &eptr, 16);
-    else if (str[0] == '0' && !bv)
-        d = (Jsi_Number)strtoll(str, &eptr, 8);
-    else if (base == 0 && !bv) {
-        if (Jsi_ValueToNumberInt(interp, v, 1, &d) != JSI_OK)
-          return JSI_ERROR;
-    } else {
-        if (str == NULL || JSI_OK != Jsi_GetIntFromValue(interp, bv, &base) || base<2 || base>36)
-            return JSI_ERROR;
+    else {
+        if (bv && (JSI_OK != Jsi_GetIntFromValue(interp, bv, &base) || base<2 || base>36))
+            return Jsi_LogError("radix must be between 2 and 36");
         d = (Jsi_Number)strtoll(str, &eptr, base);
+        if (eptr == str)
+            goto nanval;
     }
-    if (Jsi_NumberIsNaN(d) || (Jsi_NumberIsFinite(d)==0 && Jsi_GetDoubleFromValue(interp, v, &d) != JSI_OK))
+    if (!Jsi_NumberIsFinite(d))
 nanval:
         Jsi_ValueDup2(interp, ret, interp->NaNValue);
     else {
-- 
2.43.0


From cffc8e00f1bc16ac0f0ea7d11cfae88c267b8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 153/179] fix: parseFloat gave NaN for a number followed by
 other characters

---
 src/jsiCmds.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 56aefc1..3aa847a 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -610,6 +610,21 @@ static Jsi_RC parseFloatCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
 {
     Jsi_Number n;
     Jsi_Value *v = Jsi_ValueArrayIndex(interp, args, 0);
+    char *cp, *eptr, *str = Jsi_ValueString(interp, v, NULL);
+    if (str) {
+        // Use the longest prefix that is a number.
+        for (cp = str; isspace((uchar)*cp); cp++);
+        if (*cp == '-' || *cp == '+') cp++;
+        if (*cp && !isdigit(*cp) && *cp != '.' && Jsi_Strncmp(cp, "Infinity", 8))
+            n = Jsi_NumberNaN();
+        else {
+            n = strtod(str, &eptr);
+            if (eptr == str && *str)
+                n = Jsi_NumberNaN();
+        }
+        Jsi_ValueMakeNumber(interp, ret, n);
+        return JSI_OK;
+    }
     Jsi_ValueToNumber(interp, v);
     if (Jsi_GetDoubleFromValue(interp, v, &n) != JSI_OK)
         Jsi_ValueDup2(interp, ret, interp->NaNValue);
-- 
2.43.0


From 13320d254dcbf8ee1742ae763559ac867c57843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 154/179] fix: format padded on the right with zeros for %-05s

---
 src/jsiFormat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index 7dc4747..941a9e6 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -412,7 +412,7 @@ doprec:
         Jsi_DSAppendLen(dStr, formatted_buf, formatted_bytes);
 
         while (formatted_chars < width) {
-            Jsi_DSAppendLen(dStr, &pad, 1);
+            Jsi_DSAppendLen(dStr, " ", 1);
             formatted_chars++;
         }
 
-- 
2.43.0


From d35016a3225d405c1fd3e7e46439c1333e3e0177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 155/179] fix: format took a second * as a precision without a
 point

---
 src/jsiFormat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index 941a9e6..f4b9e9f 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -197,11 +197,11 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
             format += step;
             step = Jsi_UtfToUniChar(format, &ch);
         }
-        if (isdigit(ch)) {
+        if (gotPrecision && isdigit(ch)) {
             precision = strtoul(format, &end, 10);
             format = end;
             step = Jsi_UtfToUniChar(format, &ch);
-        } else if (ch == '*') {
+        } else if (gotPrecision && ch == '*') {
             if (argIndex >= argCnt - 1) {
                 msg = badIndex;
                 goto error;
-- 
2.43.0


From 159dcdd6d102d5679db19911704c330f6f02ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 156/179] fix: format counted bytes instead of characters in
 width and precision of strings

---
 src/jsiFormat.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index f4b9e9f..f82f8df 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -289,12 +289,10 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
             }
 doprec:
             formatted_bytes = formatted_chars;
+            formatted_chars = Jsi_NumUtfChars(formatted_buf, formatted_bytes);
             if (gotPrecision && (precision < formatted_chars)) {
-                /* Need to build a (null terminated) truncated string */
-                Jsi_DSSetLength(&pStr, 0);
-                formatted_bytes = formatted_chars = precision;
-                formatted_buf = Jsi_DSAppendLen(&pStr, formatted_buf, precision);
-                //formatted_bytes = Jsi_UtfIndexToOffset(formatted_buf, precision);
+                formatted_chars = precision;
+                formatted_bytes = Jsi_UtfAtIndex(formatted_buf, precision) - formatted_buf;
             }
             break;
         case 'c':
-- 
2.43.0


From 51df3376e44063e3ea9235d7799bc992d689e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 157/179] fix: format took a negative precision for 0

---
 src/jsiFormat.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiFormat.c b/src/jsiFormat.c
index f82f8df..a8b3f88 100644
--- a/src/jsiFormat.c
+++ b/src/jsiFormat.c
@@ -214,8 +214,9 @@ Jsi_RC Jsi_FormatString(Jsi_Interp *interp, Jsi_Value *args, Jsi_DString *dStr)
              * TODO: Check this truncation logic.
              */
 
-            if (precision < 0) {
+            if (precision < 0) { // As in C: as if there was none.
                 precision = 0;
+                gotPrecision = 0;
             }
             argIndex++;
             format += step;
-- 
2.43.0


From 6a82e1a93c8d646561758d3234e7aab7821b1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 158/179] fix: String() of NaN objects and subnormal numbers
 gave undefined

---
 src/jsiValue.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiValue.c b/src/jsiValue.c
index f93088f..dac9e82 100644
--- a/src/jsiValue.c
+++ b/src/jsiValue.c
@@ -467,7 +467,7 @@ char* Jsi_NumberToString(Jsi_Interp *interp, Jsi_Number d, char *buf, int bsiz)
 {
      if (Jsi_NumberIsInteger(d)) {
         Jsi_NumberItoA10((Jsi_Wide)d, buf, bsiz);
-    } else if (Jsi_NumberIsNormal(d)) {
+    } else if (Jsi_NumberIsNormal(d) || Jsi_NumberIsSubnormal(d)) {
         Jsi_NumberDtoA(interp, d, buf, bsiz, 0);
     } else if (Jsi_NumberIsNaN(d)) {
         Jsi_Strcpy(buf, "NaN");
@@ -513,11 +513,11 @@ fmtnum:
                 Jsi_NumberItoA10((Jsi_Wide)d, unibuf, sizeof(unibuf));
                 kflag = 0;
                 ntxt = unibuf;
-            } else if (Jsi_NumberIsNormal(d)) {
+            } else if (Jsi_NumberIsNormal(d) || Jsi_NumberIsSubnormal(d)) {
                 Jsi_NumberDtoA(interp, d, unibuf, sizeof(unibuf), 0);
                 kflag = 0;
                 ntxt = unibuf;
-            } else if (Jsi_NumberIsNaN(v->d.num)) {
+            } else if (Jsi_NumberIsNaN(d)) {
                 ntxt = "NaN";
             } else {
                 int s = Jsi_NumberIsInfinity(d);
-- 
2.43.0


From 4b4d881216e5dafe34a5d29655a6e846a44ce023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:40 +0000
Subject: [PATCH 159/179] fix: arguments was empty when there were more
 arguments than an array may hold

---
 src/jsiEval.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 82a1ec2..98ebc82 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1368,8 +1368,12 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 //Jsi_ValueCopy(interp,_jsi_STACKIDX(fp->Sp), currentScope);
                 
                 if (!fp->arguments) {
-                    fp->arguments = Jsi_ValueNewObj(interp,
-                        Jsi_ObjNewArray(interp, currentScope->d.obj->arr, currentScope->d.obj->arrCnt, 0));
+                    Jsi_Obj *aobj = Jsi_ObjNewArray(interp, currentScope->d.obj->arr, currentScope->d.obj->arrCnt, 0);
+                    if (!aobj) {  /* More arguments than an array can have elements. */
+                        rc = JSI_ERROR;
+                        break;
+                    }
+                    fp->arguments = Jsi_ValueNewObj(interp, aobj);
                     Jsi_IncrRefCount(interp, fp->arguments);
                     // fp->arguments->d.obj->__proto__ = interp->Object_prototype; // ecma
                 }
-- 
2.43.0


From e97cd5ecf77a3705e5b3c10c2ecb717133d2756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:05 +0000
Subject: [PATCH 160/179] fix: a refused getOpts, parseOpts or moduleOpts
 changed the given self

---
 src/jsiCmds.c | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 3aa847a..8f8e6f0 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4887,7 +4887,7 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     }
     Jsi_Value *vopts = Jsi_ValueArrayIndex(interp, args, vi[VO_OPTS]),
         *vself = Jsi_ValueArrayIndex(interp, args, vi[VO_SELF]),
-        *vconf = Jsi_ValueArrayIndex(interp, args, vi[VO_CONF]);
+        *vconf = Jsi_ValueArrayIndex(interp, args, vi[VO_CONF]), *vnew = NULL;
     if (!vself)
         vself = Jsi_ValueMakeObject(interp, ret,  Jsi_ObjNewType(interp, JSI_OT_OBJECT));
     else if (!Jsi_ValueIsObjType(interp, vself, JSI_OT_OBJECT))
@@ -4898,16 +4898,6 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
     if (vopts && !Jsi_ValueIsObjType(interp, vopts, JSI_OT_OBJECT))
         return Jsi_LogError("arg 2: expected object 'options'");
 
-    for (tPtr = (vopts?Jsi_TreeSearchFirst(vopts->d.obj->tree, &search, 0, NULL):NULL);
-        tPtr; tPtr = Jsi_TreeSearchNext(&search)) {
-        Jsi_Value *v = (Jsi_Value*)Jsi_TreeValueGet(tPtr);
-        if (v==NULL) continue;
-        const char *key = (char*)Jsi_TreeKeyGet(tPtr);
-        if (!Jsi_ValueObjLookup(interp, vself, key, 1))
-            Jsi_ValueInsert(interp, vself, key, v, 0);
-    }
-    if (vopts)
-        Jsi_TreeSearchDone(&search);
     if (!parse && !vconf && pf && pf->funcName && !Jsi_Strcmp(pf->funcName, "moduleRun") && ((vconf=pf->arguments))) {
         if (Jsi_ValueIsObjType(interp, vconf, JSI_OT_ARRAY))
             vconf = Jsi_ValueArrayIndex(interp, vconf, 1);
@@ -4927,6 +4917,8 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         if (!Jsi_ValueIsObjType(interp, vconf, JSI_OT_OBJECT))
             return Jsi_LogError("arg 3: expected object|null|undefined");
     
+        vnew = Jsi_ValueNewObj(interp, Jsi_ObjNewType(interp, JSI_OT_OBJECT));
+        Jsi_IncrRefCount(interp, vnew);
         Jsi_Value *oVal;
         int cnt = 0;
         for (tPtr = Jsi_TreeSearchFirst(vconf->d.obj->tree, &search, 0, NULL);
@@ -5040,10 +5032,34 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
                     }
             }
             if (rc == JSI_OK)
-                Jsi_ValueInsert(interp, vself, key, val, 0);
+                Jsi_ValueInsert(interp, vnew, key, val, 0);
+        }
+        Jsi_TreeSearchDone(&search);
+    }
+
+    /* All values are good: only now put the defaults and the values into self. */
+    if (rc == JSI_OK && vopts) {
+        for (tPtr = Jsi_TreeSearchFirst(vopts->d.obj->tree, &search, 0, NULL);
+            tPtr; tPtr = Jsi_TreeSearchNext(&search)) {
+            Jsi_Value *v = (Jsi_Value*)Jsi_TreeValueGet(tPtr);
+            if (v==NULL) continue;
+            const char *key = (char*)Jsi_TreeKeyGet(tPtr);
+            if (!Jsi_ValueObjLookup(interp, vself, key, 1))
+                Jsi_ValueInsert(interp, vself, key, v, 0);
+        }
+        Jsi_TreeSearchDone(&search);
+    }
+    if (rc == JSI_OK && vnew) {
+        for (tPtr = Jsi_TreeSearchFirst(vnew->d.obj->tree, &search, 0, NULL);
+            tPtr; tPtr = Jsi_TreeSearchNext(&search)) {
+            Jsi_Value *v = (Jsi_Value*)Jsi_TreeValueGet(tPtr);
+            if (v)
+                Jsi_ValueInsert(interp, vself, (char*)Jsi_TreeKeyGet(tPtr), v, 0);
         }
         Jsi_TreeSearchDone(&search);
     }
+    if (vnew)
+        Jsi_DecrRefCount(interp, vnew);
 
     if (!parse && rc == JSI_OK && fp->filePtr && evfunc) {
         //jsi_FileInfo *cptr = fp->filePtr;
-- 
2.43.0


From b64c6639a238c9cf8a703e48b5ed4770f31ef3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:11 +0000
Subject: [PATCH 161/179] fix: getOpts and the like silently dropped options
 when self was frozen without them

---
 src/jsiCmds.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 8f8e6f0..9229508 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -5044,8 +5044,9 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
             Jsi_Value *v = (Jsi_Value*)Jsi_TreeValueGet(tPtr);
             if (v==NULL) continue;
             const char *key = (char*)Jsi_TreeKeyGet(tPtr);
-            if (!Jsi_ValueObjLookup(interp, vself, key, 1))
-                Jsi_ValueInsert(interp, vself, key, v, 0);
+            if (!Jsi_ValueObjLookup(interp, vself, key, 1)
+                && (rc = Jsi_ValueInsert(interp, vself, key, v, 0)) != JSI_OK)
+                break;
         }
         Jsi_TreeSearchDone(&search);
     }
@@ -5053,8 +5054,8 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         for (tPtr = Jsi_TreeSearchFirst(vnew->d.obj->tree, &search, 0, NULL);
             tPtr; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v = (Jsi_Value*)Jsi_TreeValueGet(tPtr);
-            if (v)
-                Jsi_ValueInsert(interp, vself, (char*)Jsi_TreeKeyGet(tPtr), v, 0);
+            if (v && (rc = Jsi_ValueInsert(interp, vself, (char*)Jsi_TreeKeyGet(tPtr), v, 0)) != JSI_OK)
+                break;
         }
         Jsi_TreeSearchDone(&search);
     }
-- 
2.43.0


From 68745e0609a0d7a54538e201302ff4b38b01af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 162/179] fix: self and the table of defaults (or the settings)
 shared their values after getOpts and the like

---
 src/jsiCmds.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 9229508..3698cce 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4864,6 +4864,14 @@ bool jsi_isDebugKey(const char *key) {
         ||  (*key=='D' && !Jsi_Strcmp(key, "Debug")));
 }
 
+// Put a copy of the value in self, as "self.x++" modifies the value in place.
+static Jsi_RC jsi_OptsInsert(Jsi_Interp *interp, Jsi_Value *vself, const char *key, Jsi_Value *v) {
+    Jsi_Value *nv = Jsi_ValueDup(interp, v);
+    Jsi_RC rc = Jsi_ValueInsert(interp, vself, key, nv, 0);
+    Jsi_DecrRefCount(interp, nv);
+    return rc;
+}
+
 static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_Value **ret, Jsi_Func *funcPtr, int parse)
 {
@@ -5045,7 +5053,7 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
             if (v==NULL) continue;
             const char *key = (char*)Jsi_TreeKeyGet(tPtr);
             if (!Jsi_ValueObjLookup(interp, vself, key, 1)
-                && (rc = Jsi_ValueInsert(interp, vself, key, v, 0)) != JSI_OK)
+                && (rc = jsi_OptsInsert(interp, vself, key, v)) != JSI_OK)
                 break;
         }
         Jsi_TreeSearchDone(&search);
@@ -5054,7 +5062,7 @@ static Jsi_RC SysModuleOptsCmdEx(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value
         for (tPtr = Jsi_TreeSearchFirst(vnew->d.obj->tree, &search, 0, NULL);
             tPtr; tPtr = Jsi_TreeSearchNext(&search)) {
             Jsi_Value *v = (Jsi_Value*)Jsi_TreeValueGet(tPtr);
-            if (v && (rc = Jsi_ValueInsert(interp, vself, (char*)Jsi_TreeKeyGet(tPtr), v, 0)) != JSI_OK)
+            if (v && (rc = jsi_OptsInsert(interp, vself, (char*)Jsi_TreeKeyGet(tPtr), v)) != JSI_OK)
                 break;
         }
         Jsi_TreeSearchDone(&search);
-- 
2.43.0


From 7d084979427f8ea6ace932600aa57b45d2519001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:19 +0000
Subject: [PATCH 163/179] fix: exec was killed when a command did not read all
 of its input

---
 src/jsiCmds.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 3698cce..96c132f 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1627,6 +1627,7 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
 #ifdef __WIN32
         native = 1;
 #else
+        void (*sigpipe)(int) = SIG_DFL;
         if (native)
             native = (access("/bin/sh", X_OK)==0);
 #endif
@@ -1648,7 +1649,13 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 edata.retCode = 1;
                 edata.retval = 0;
                 cp2 = Jsi_ValueString(interp, edata.inputStr, &sLen2);
+#ifndef __WIN32
+                // The command may end before reading all its input.
+                sigpipe = signal(SIGPIPE, SIG_IGN);
+                setvbuf(fp, NULL, _IONBF, 0); // Nothing must be left for pclose to fail on.
+#endif
                 while ((n=fwrite(cp2, 1, sLen2, fp))>0) {
+                    cp2 += n;
                     sLen2 -= n;
                 }
             } else {
@@ -1660,6 +1667,10 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
                 exitCode = ((ec=pclose(fp))>>8);
             else
                 exitCode = ((ec=jsi_pclose(fp, cpid))>>8);
+#ifndef __WIN32
+            if (edata.inputStr)
+                signal(SIGPIPE, sigpipe);
+#endif
         }
     }
     if (exitCode && edata.noError==0 && edata.retCode==0 && edata.retAll==0) {
-- 
2.43.0


From 633101d02adfd2f4ee68fa8edb1111665d1e25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:19 +0000
Subject: [PATCH 164/179] fix: exec silently ignored that the command was ended
 by a signal

---
 src/jsiCmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 96c132f..1a69260 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1673,6 +1673,10 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
 #endif
         }
     }
+#ifndef __WIN32
+    if (!exitCode && ec != -1 && WIFSIGNALED(ec))
+        exitCode = 128 + WTERMSIG(ec); // As the shell does.
+#endif
     if (exitCode && edata.noError==0 && edata.retCode==0 && edata.retAll==0) {
         if (exitCode==ENOENT)
             Jsi_LogError("command not found: %s", cp);
-- 
2.43.0


From 086ff61446a9513aa49cf2cc1323e7e2f9e62a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:19 +0000
Subject: [PATCH 165/179] fix: exec with bg waited for all but the last of
 several commands

---
 src/jsiCmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 1a69260..3eae87f 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1613,7 +1613,8 @@ Jsi_RC jsi_SysExecCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
             goto done;
         }
         if (!isbg) {
-            Jsi_DSAppend(&dStr, cp, " &", NULL);
+            // Group it, as otherwise only the last of several commands runs in the background.
+            Jsi_DSAppend(&dStr, "(", cp, "\n) &", NULL);
             cp = Jsi_DSValue(&dStr);
         }
         edata.bg = 1;
-- 
2.43.0


From 760cc94d579ba40b80b00a84e1b2d1716d284a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:31 +0000
Subject: [PATCH 166/179] fix: the arguments given in one test file were passed
 to the following test files too

---
 lib/Testing.jsi | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Testing.jsi b/lib/Testing.jsi
index e34a4c8..882de99 100644
--- a/lib/Testing.jsi
+++ b/lib/Testing.jsi
@@ -78,8 +78,9 @@ function Testing(fileargs:array, conf:object=void):number {
         var apat = "=!ARGSTART!=\n(.*)\n=!ARGEND!=";
         var asm = scr.match(apat);
 
-        if (self.args === '' && asm)
-            self.args = asm[1];
+        var args = self.args;
+        if (args === '' && asm)
+            args = asm[1];
         var tcmd = Info.executable() + ' --L assert';
         var ut = 1;
         var sint = null;
@@ -95,7 +96,7 @@ function Testing(fileargs:array, conf:object=void):number {
             tcmd += ' -ItestMode ' + ut;
             siargs.testMode = ut;
         }
-        tcmd += ' '+fn+' '+self.args;
+        tcmd += ' '+fn+' '+args;
 
         if (expect === null && self.expectFile)
             expect = File.read(self.expectFile);
@@ -126,7 +127,7 @@ function Testing(fileargs:array, conf:object=void):number {
             if (!self.exec) {
                 siargs.stdoutStr = '';
                 //siargs.scriptFile = fn;
-                siargs.args = self.args.split(' ');
+                siargs.args = args.split(' ');
                 if (self.noproto)
                     siargs.subOpts = {noproto:true};
                 sint = new Interp(siargs);
-- 
2.43.0


From 2a69e17f5f5f33907502c368040e8beecee3e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:31 +0000
Subject: [PATCH 167/179] fix: tests run with -exec always failed: the command
 used options that no longer exist

---
 lib/Testing.jsi | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Testing.jsi b/lib/Testing.jsi
index 882de99..eb7c792 100644
--- a/lib/Testing.jsi
+++ b/lib/Testing.jsi
@@ -81,7 +81,7 @@ function Testing(fileargs:array, conf:object=void):number {
         var args = self.args;
         if (args === '' && asm)
             args = asm[1];
-        var tcmd = Info.executable() + ' --L assert';
+        var tcmd = Info.executable() + ' --I log=assert';
         var ut = 1;
         var sint = null;
         var siargs = {log:{assert:true}};
@@ -93,7 +93,7 @@ function Testing(fileargs:array, conf:object=void):number {
         if (self.echo)
             ut += 2;
         if (ut) {
-            tcmd += ' -ItestMode ' + ut;
+            tcmd += ' --I testMode=' + ut;
             siargs.testMode = ut;
         }
         tcmd += ' '+fn+' '+args;
@@ -118,7 +118,7 @@ function Testing(fileargs:array, conf:object=void):number {
             puts("");
          var eopts = {};
         if (input!=='')
-            eopts.input = input;
+            eopts.inputStr = input;
         var res = null;
         fail = false;
         var emsg = "ERROR: ";
@@ -139,6 +139,8 @@ function Testing(fileargs:array, conf:object=void):number {
             } else {
                 emsg = "EXEC ERROR: ";
                 res = exec(tcmd, eopts);
+                if (input !== '' && res !== 0)
+                    throw 'exit code '+res;
             }
         } catch(e) {
             puts(emsg+(e?e:'failed'));
-- 
2.43.0


From ba5102a2921038806a944d0a364a8320e71e6c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:52 +0000
Subject: [PATCH 168/179] fix: a test whose output was longer than expected
 ended the whole test run

---
 lib/Testing.jsi | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Testing.jsi b/lib/Testing.jsi
index eb7c792..d56bde7 100644
--- a/lib/Testing.jsi
+++ b/lib/Testing.jsi
@@ -258,7 +258,8 @@ function Testing(fileargs:array, conf:object=void):number {
                     for (var j = i-self.context; j<i+self.context; j++) {
                         if (j<0 || j>=rlst.length) continue;
                         if (j!==i) { puts('',rlst[j]); continue; }
-                        puts('-'+elst[i]);
+                        if (i<elen)
+                            puts('-'+elst[i]);
                         puts('+'+rlst[i]);
                     }
                     puts('====================DIFFEND');
-- 
2.43.0


From 012372df51fd241b30a17396401ab902f3c0515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:02 +0000
Subject: [PATCH 169/179] fix: shifts and ~ of numbers from 2147483648 on used
 INT_MIN instead of their low 32 bits

Converting a double out of the range of an int is undefined; (x>>>0)>>>1 gave
1073741824 for every x with the top bit set.
---
 src/jsiEval.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 98ebc82..5e85e82 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -1469,7 +1469,7 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 jsiVarDeref(interp,1);
                 jsi_ValueToOInt32(interp, _jsi_TOP);
                 rc = _jsi_StrictChk(_jsi_TOP);
-                _jsi_TOP->d.num = (Jsi_Number)(~((int)_jsi_TOP->d.num));
+                _jsi_TOP->d.num = (Jsi_Number)(~((int)(Jsi_Wide)_jsi_TOP->d.num));
                 break;
             }
             case OP_ADD: {
@@ -1641,8 +1641,8 @@ Jsi_RC jsiEvalCodeSub(jsi_Pstate *ps, Jsi_OpCodes *opcodes,
                 jsiVarDeref(interp,2);
                 jsi_ValueToOInt32(interp, _jsi_TOQ);
                 jsi_ValueToOInt32(interp, _jsi_TOP);
-                int t1 = (int)_jsi_TOQ->d.num;
-                int t2 = ((unsigned int)_jsi_TOP->d.num) & 0x1f;
+                int t1 = (int)(Jsi_Wide)_jsi_TOQ->d.num; // The low 32 bits.
+                int t2 = ((unsigned int)(Jsi_Wide)_jsi_TOP->d.num) & 0x1f;
                 if (ip->data) {                 /* shift right */
                     if ((uintptr_t)ip->data == 2) {   /* unsigned shift */
                         unsigned int t3 = (unsigned int)t1;
-- 
2.43.0


From e7fc0ca9bb23f2c298f025f49ffd65022e206d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:48 +0000
Subject: [PATCH 170/179] fix: after leaving a with by break, continue or an
 exception a try lost error messages

The depth of with statements was only counted down at the regular end of one, so errors in a later try statement of the
same function were printed instead of given to its catch.
---
 src/jsiEval.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiEval.c b/src/jsiEval.c
index 5e85e82..7c5ba33 100644
--- a/src/jsiEval.c
+++ b/src/jsiEval.c
@@ -319,7 +319,8 @@ static void jsiPopTry(Jsi_Interp* interp, jsi_TryList **head)
             Jsi_DecrRefCount(interp, (*head)->d.td.excpt);
         if ((*head)->d.td.errMsg)
             Jsi_Free((*head)->d.td.errMsg);
-    }
+    } else
+        interp->framePtr->withDepth--;
     Jsi_Free(*head);
     *head = t;
     interp->tryList = t;
@@ -2179,7 +2180,6 @@ undef_eval:
                 JSI_RESTORE_SCOPE();
                 
                 pop_try(trylist);
-                fp->withDepth--;
                 break;
             }
             case OP_DEBUG: {
-- 
2.43.0


From 7ff3fce8b950675ceb5a7ccb6cae750dfa8f3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:48 +0000
Subject: [PATCH 171/179] fix: Signal.alarm dropped the fraction of times above
 one second

It used alarm() from 1 second on and ualarm() below, so 1.6 seconds became 1, and the returned time left was in seconds
or in microseconds depending on the new time.
---
 src/jsiSignal.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/jsiSignal.c b/src/jsiSignal.c
index 5396908..281dfba 100644
--- a/src/jsiSignal.c
+++ b/src/jsiSignal.c
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <unistd.h>
+#include <sys/time.h>
 #ifndef JSI_AMALGAMATION
 /* Adapted to update so "signal.handle(func) gets called back like setInterval/setTimeout */
 #include "jsiInt.h"
@@ -263,16 +264,16 @@ static Jsi_RC SignalAlarmCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_th
                         Jsi_Value **ret, Jsi_Func *funcPtr)
 {
     Jsi_Value *sv = Jsi_ValueArrayIndex(interp, args, 0);
-    uint rc;
+    struct itimerval it = {}, old = {};
     Jsi_Number dtim;
     
     if (Jsi_GetNumberFromValue(interp, sv, &dtim) != JSI_OK) 
         return Jsi_LogError("bad time");
-    if (dtim<1)
-        rc = ualarm(dtim * 1e6, 0);
-    else
-        rc = alarm((uint)dtim);
-    Jsi_ValueMakeNumber(interp, ret, (Jsi_Number)rc);
+    it.it_value.tv_sec = (time_t)dtim;
+    it.it_value.tv_usec = (dtim - (Jsi_Number)it.it_value.tv_sec) * 1e6;
+    if (setitimer(ITIMER_REAL, &it, &old) != 0)
+        return Jsi_LogError("bad time");
+    Jsi_ValueMakeNumber(interp, ret, old.it_value.tv_sec + old.it_value.tv_usec / 1e6);
     return JSI_OK;
 }
 
-- 
2.43.0


From 95fcf2788a3c9ae73df202a54084d5c446c1c2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:42 +0000
Subject: [PATCH 172/179] fix: Util.hexStr encodes and decodes instead of the
 reverse, and decoding accepts hex digits

---
 src/jsiUtils.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 45e32c6..2387e13 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -2559,7 +2559,7 @@ void jsi_ToHexStr(const uchar *indata, int dlen, char *out) {
 static int jsi_FromHexStr(const char *in, uchar *outdata) {
     int n = 0;
     while (in[0] && in[1]) {
-        if (!isxdigit(in[0]) || isxdigit(in[0]))
+        if (!isxdigit(in[0]) || !isxdigit(in[1]))
             return -1;
         outdata[n++] = jsi_fromHexChar(in[0]) << 4 | jsi_fromHexChar(in[1]);
         in+=2;
@@ -2569,12 +2569,16 @@ static int jsi_FromHexStr(const char *in, uchar *outdata) {
 
 
 int Jsi_HexStr(const uchar *data, int len, Jsi_DString *dStr, bool decode) {
-    int olen = (decode?(len/2+1):(len*2+1));
-    Jsi_DSSetLength(dStr, olen);
+    int olen = (decode?(len/2):(len*2));
+    char *out = (char*)Jsi_Malloc(olen+1);
     if (!decode)
-        return jsi_FromHexStr((const char*)data, (uchar*)Jsi_DSValue(dStr));
-    jsi_ToHexStr((const uchar*)data, len, Jsi_DSValue(dStr));
-    return olen-1;
+        jsi_ToHexStr((const uchar*)data, len, out);
+    else if (len%2 || jsi_FromHexStr((const char*)data, (uchar*)out) != olen)
+        olen = -1;
+    if (olen>0)
+        Jsi_DSAppendLen(dStr, out, olen);
+    Jsi_Free(out);
+    return olen;
 }
 #ifndef JSI_LITE_ONLY
 
-- 
2.43.0


From 847f630145a8722b37e885471eed79c0be1a7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:42 +0000
Subject: [PATCH 173/179] fix: sha3 digests are those of the type asked for,
 with its size

---
 src/jsiCrypto.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index 37c3807..9bd7a8d 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -757,12 +757,15 @@ static int jsi_Sha256Digest(unsigned char *digest, const char *str, int len)
 static int jsi_Sha3Digest(unsigned char *digest, const char *str, int len, int type)
 {
     SHA3_CTX ctx;
-    SHA3_Init(&ctx, type);
+    /* By offset from Jsi_CHash_SHA3_224. */
+    static const int types[] = { SHA3_224, SHA3_384, SHA3_512, SHA3_256 };
+    static const int sizes[] = { SHA3_224_DIGEST_LENGTH, SHA3_384_DIGEST_LENGTH, SHA3_512_DIGEST_LENGTH, SHA3_256_DIGEST_LENGTH };
+    SHA3_Init(&ctx, types[type]);
     if (len<0)
         len = Jsi_Strlen(str);
     SHA3_Update(&ctx, (unsigned char*)str, len);
     SHA3_Final(digest, &ctx);
-    return 64;
+    return sizes[type];
 }
 #endif
 
-- 
2.43.0


From d216c339001cbdaf5c81b590863e26a6cbb1ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:42 +0000
Subject: [PATCH 174/179] fix: URI encoding can be reversed: escape % and keep
 the + that encodeURI leaves alone

---
 src/jsiCmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 3eae87f..8346d67 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1237,7 +1237,7 @@ static char *url_encode(char *str, bool comp) {
 
   char *pstr = str, *buf = (char*)Jsi_Malloc(Jsi_Strlen(str) * 3 + 1), *pbuf = buf;
   while (*pstr) {
-    if (isalnum(*pstr) || (!Jsi_Strchr(ncomps, *pstr) && (!comp || !Jsi_Strchr(comps, *pstr))))
+    if (isalnum(*pstr) || (*pstr != '%' && !Jsi_Strchr(ncomps, *pstr) && (!comp || !Jsi_Strchr(comps, *pstr))))
       *pbuf++ = *pstr;
     else if (*pstr == ' ') 
       *pbuf++ = '+';
@@ -1265,7 +1265,7 @@ static char *url_decode(char *str, int *len, bool comp) {
             *pbuf++ = cc;
         }
       }
-    } else if (*pstr == '+') { 
+    } else if (comp && *pstr == '+') { 
       *pbuf++ = ' ';
     } else {
       *pbuf++ = *pstr;
-- 
2.43.0


From 375ca82fe45b19d2338626163885894f4bcca7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:42 +0000
Subject: [PATCH 175/179] fix: encrypt texts of up to four bytes, which were
 refused or left as they are

---
 src/jsiCrypto.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index 9bd7a8d..e2c245f 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -898,13 +898,13 @@ Jsi_RC Jsi_Encrypt(Jsi_Interp *interp, Jsi_DString *inout, const char *key, uint
     uchar digest[32];
     char *buf = Jsi_DSValue(inout);
     uint pad = 0, nlen = Jsi_DSLength(inout);
-    if (nlen<2)
+    if (nlen<1)
         goto badlen;
     if (decrypt) {
         pad = (uint)buf[--nlen];
         Jsi_DSSetLength(inout, nlen);
     } else {
-        while (nlen%4) {
+        while (nlen%4 || nlen<8) {
             Jsi_DSAppendLen(inout, "\0", 1);
             nlen++;
             pad++;
-- 
2.43.0


From d5726a975ee601c7d8cd6919157ef2df45f3f10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:42 +0000
Subject: [PATCH 176/179] fix: verConvert trims only trailing zeros

---
 src/jsiCmds.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 8346d67..e39b9a1 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4064,8 +4064,9 @@ static Jsi_RC SysVerConvertCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_
         if (trunc) {
             int len = Jsi_Strlen(buf)-1;
             while (trunc>0 && len>1) {
-                if (buf[len] == '0' && buf[len-1] == '.')
-                    buf[len-1] = 0;
+                if (buf[len] != '0' || buf[len-1] != '.')
+                    break;
+                buf[len-1] = 0;
                 len -= 2;
                 trunc--;
             }
-- 
2.43.0


From 13f83b59706a4d50da73541ac1e82a96dbd808d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:42 +0000
Subject: [PATCH 177/179] fix: sha3 of texts longer than a block used bytes of
 the previous block as padding

---
 src/jsiCrypto.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index e2c245f..70f1cdb 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -731,6 +731,7 @@ static void SHA3_Final (void* dgst, SHA3_CTX* ctx)
   // add 3 bits, Keccak uses 1
   // a lot of online implementations are using 1 instead of 6
   // since the NIST specifications haven't been finalized.
+  memset(ctx->blk + ctx->index, 0, ctx->blklen - ctx->index);
   ctx->blk[ctx->index] = 6;
   // or the end bit
   ctx->blk[ctx->blklen-1] |= 0x80;
-- 
2.43.0


From df98cddcaba574da5e7569a6799465d64b86f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:30 +0000
Subject: [PATCH 178/179] fix: times before 1970, UTC times in daylight-saving
 gaps, fractions, offsets and %f in strftime/strptime

---
 src/jsiCmds.c | 78 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index e39b9a1..7ea6f7e 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -2040,6 +2040,29 @@ static const char *timeFmts[] = {
     NULL
 };
 
+/* Find the milliseconds, ie. %f, in a time format. */
+static const char *jsi_DateFindMs(const char *fmt)
+{
+    for (; *fmt; fmt++)
+        if (*fmt == '%') {
+            if (fmt[1] == 'f')
+                return fmt;
+            if (!*++fmt)
+                break;
+        }
+    return NULL;
+}
+
+/* Parse the digits of a fraction of a second into milliseconds. */
+static const char *jsi_DateParseMs(const char *cp, Jsi_Number *msPtr)
+{
+    int ms = 0, mul = 100;
+    for (; isdigit(UCHAR(*cp)); cp++, mul /= 10)
+        ms += (*cp-'0')*mul;
+    *msPtr = ms;
+    return cp;
+}
+
 Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, int isUtc, Jsi_Number *datePtr, bool noMsg)
 {
     char fmt1[JSI_BUFSIZ];
@@ -2076,14 +2099,19 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
         return rc;
     }
     if (fmt && fmt[0]) {
-        const char *efp = Jsi_Strstr(fmt, "%f");
-        if (efp && efp > fmt && efp[-1] != '%' && (Jsi_Strlen(fmt)+10)<(int)sizeof(fmt1)) {
-            snprintf(fmt1, sizeof(fmt1), "%.*s:%%S.", (int)(efp-fmt), fmt);
-            fmt = fmt1;
-        }
-        rv = strptime(str, fmt, &tm);
+        const char *efp = jsi_DateFindMs(fmt);
+        if (efp && (efp-fmt)<(int)sizeof(fmt1)) {
+            snprintf(fmt1, sizeof(fmt1), "%.*s", (int)(efp-fmt), fmt);
+            rv = strptime(str, fmt1, &tm);
+            if (rv && !isdigit(UCHAR(*rv)))
+                rv = NULL;
+            if (rv) {
+                rv = jsi_DateParseMs(rv, &ms);
+                rv = strptime(rv, efp+2, &tm);
+            }
+        } else
+            rv = strptime(str, fmt, &tm);
     } else {
-        if (fmt) j++;
         while (timeFmts[j]) {
             rv = strptime(str, timeFmts[j], &tm);
             if (rv != NULL)
@@ -2096,29 +2124,29 @@ Jsi_RC Jsi_DatetimeParse(Jsi_Interp *interp, const char *str, const char *fmt, i
         if (!noMsg)
             Jsi_LogError("datetime parse failed");
     } else {
-        if (*rv == '.' && isdigit(rv[1]) && isdigit(rv[2]) && isdigit(rv[3])) {
-            ms = atof(rv+1);
-            rv += 4;
-        }
+        if (*rv == '.' && isdigit(UCHAR(rv[1])))
+            rv = jsi_DateParseMs(rv+1, &ms);
         {
             int th, ts;
             char ss[3];
-            t = mktime(&tm);
             if (rv[0] == ' ') rv++;
-            if (rv[0] && sscanf(rv, "%[+-]%2d:%2d", ss, &th, &ts) == 3) {
+            if (rv[0] && sscanf(rv, "%1[+-]%2d:%2d", ss, &th, &ts) == 3) {
                 int sign = (rv[0] == '-' ? 1 : -1);
                 tofs = (3600*th+60*ts)*sign;
+                isUtc = 1; // The time zone is given.
             }
-            if (isUtc) {
+            tm.tm_wday = -1;
 #ifdef __WIN32
+            t = mktime(&tm);
+            if (isUtc) {
                 time_t tt = 0;
                 tofs += (int)time(&tt);
+            }
 #else
-                tofs += tm.tm_gmtoff;
+            t = (isUtc ? timegm(&tm) : mktime(&tm));
 #endif
-            }
         }
-        if (t==-1) {
+        if (t==-1 && tm.tm_wday==-1) { // The second before 1970 is also -1.
             rc = JSI_ERROR;
             if (!noMsg)
                 Jsi_LogError("mktime failed");
@@ -2137,7 +2165,7 @@ Jsi_RC Jsi_DatetimeFormat(Jsi_Interp *interp, Jsi_Number num, const char *fmt, i
     Jsi_RC rc = JSI_OK;
     fmt2[0] = 0;
     
-    tt = (time_t)(num/1000);
+    tt = (time_t)floor(num/1000);
     if (fmt==NULL)
         fmt = timeFmts[0];
     else if (*fmt == 0) {
@@ -2147,11 +2175,9 @@ Jsi_RC Jsi_DatetimeFormat(Jsi_Interp *interp, Jsi_Number num, const char *fmt, i
             fmt = timeFmts[2];
     }
     
-    const char *efp = Jsi_Strstr(fmt, "%f");
-    if (efp && efp > fmt && efp[-1] != '%' && ((efp-fmt)+10)<(int)sizeof(fmt1)) {
-        int elen = (efp-fmt)+1;
-        Jsi_Strncpy(fmt1, fmt, elen);
-        Jsi_Strcpy(fmt1+elen, "%S.");
+    const char *efp = jsi_DateFindMs(fmt);
+    if (efp && (efp-fmt)<(int)sizeof(fmt1) && strlen(efp)<sizeof(fmt2)) {
+        snprintf(fmt1, sizeof(fmt1), "%.*s", (int)(efp-fmt), fmt);
         Jsi_Strcpy(fmt2, efp+2);
         fmt = fmt1;
     } else
@@ -2172,13 +2198,13 @@ Jsi_RC Jsi_DatetimeFormat(Jsi_Interp *interp, Jsi_Number num, const char *fmt, i
     buf[0] = 0;
     int rr = strftime(buf, sizeof(buf), fmt, tmp);
        
-    if (rr<=0)
+    if (rr<=0 && fmt[0])
         rc = Jsi_LogError("time format error: %d", (int)tt);
     else {
         Jsi_DSAppendLen(dStr, buf, -1);
         if (efp) {
-            snprintf(buf, sizeof(buf), "%3.3d", (int)(((Jsi_Wide)num)%1000));
-            Jsi_DSAppendLen(dStr, buf[1]=='.'?buf+2:buf, -1);
+            snprintf(buf, sizeof(buf), "%3.3d", (int)(floor(num)-1000.0*tt));
+            Jsi_DSAppendLen(dStr, buf, -1);
         }
     }
     if (rc == JSI_OK && fmt2[0]) {
-- 
2.43.0


From 09113c44f002a53e3799cbd49129f1f1c1e35813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:16 +0000
Subject: [PATCH 179/179] fix: File.copy of a file onto itself where it cannot
 be removed lost its contents

---
 src/jsiFileCmds.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 4d66d27..a5df598 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -536,7 +536,16 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
 #endif
     Jsi_StatBuf dst;
     if (force && Jsi_Stat(interp, dest, &dst) == 0) {
-        Jsi_Remove(interp, dest, 0);
+        int rmRc = Jsi_Remove(interp, dest, 0);
+#ifndef __WIN32
+        if (rmRc != 0 && sbRc == 0 && dst.st_ino == sb.st_ino && dst.st_dev == sb.st_dev) {
+            /* Opening it to be written would lose what is to be copied. */
+            Jsi_Close(interp, ich);
+            errno = EINVAL;
+            return -1;
+        }
+#endif
+        JSI_NOTUSED(rmRc);
     }
     Jsi_Channel och = Jsi_Open(interp, dest, "wb+");
     if (!och) {
-- 
2.43.0

