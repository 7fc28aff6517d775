From e4f15d89815c2f2e8799b8ae3fc4cef411efd272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 01/59] storage-gc: add SCM_SIM_HOOKS simulation seam for the
 GC schedule (off by default)

---
 src/storage-gc.c | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/storage-gc.c b/src/storage-gc.c
index 04bbf9d..30abcac 100644
--- a/src/storage-gc.c
+++ b/src/storage-gc.c
@@ -127,6 +127,18 @@ SCM_GLOBAL_VARS_END(static_gc);
 #endif /* SCM_DEBUG */
 SCM_DEFINE_STATIC_VARS(static_gc);
 
+#if SCM_SIM_HOOKS
+/*
+ * Hooks for deterministic simulation (never compiled in by default). A
+ * simulator owns the GC schedule: it is asked before each cell allocation
+ * whether a full GC shall happen there, in addition to those which an
+ * exhausted freelist causes.
+ */
+int (*scm_sim_gc_decider)(void);
+void scm_sim_gc(void);
+void scm_sim_heap_stats(size_t *n_heaps, size_t *n_cells, size_t *n_free);
+#endif
+
 /*=======================================
   File Local Function Declarations
 =======================================*/
@@ -218,6 +230,10 @@ scm_alloc_cell(void)
     l_allocating = scm_true;
 #endif
 
+#if SCM_SIM_HOOKS
+    if (scm_sim_gc_decider && (*scm_sim_gc_decider)())
+        scm_sim_gc();
+#endif
     if (NULLP(l_freelist))
         gc_mark_and_sweep();
     SCM_ASSERT(SCM_FREECELLP(l_freelist));
@@ -232,6 +248,27 @@ scm_alloc_cell(void)
     return ret;
 }
 
+#if SCM_SIM_HOOKS
+void
+scm_sim_gc(void)
+{
+    gc_mark();
+    gc_sweep();
+}
+
+void
+scm_sim_heap_stats(size_t *n_heaps, size_t *n_cells, size_t *n_free)
+{
+    ScmObj cell;
+
+    *n_heaps = l_n_heaps;
+    *n_cells = l_n_heaps * l_heap_size;
+    *n_free = 0;
+    for (cell = l_freelist; !NULLP(cell); cell = SCM_FREECELL_NEXT(cell))
+        ++*n_free;
+}
+#endif /* SCM_SIM_HOOKS */
+
 SCM_EXPORT void
 scm_prealloc_heaps(size_t n)
 {
-- 
2.43.0


From 5a9fb70459f41a5c1f7e56018163ec82dd819ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 02/59] fix: keep strings alive while C code uses their
 contents across allocation

Several primitives pass SCM_STRING_STR(x) to code that allocates cells and
do not refer to x any more, so that optimizing compilers drop the only
reference and a GC frees the C string in use (error message composition,
string->list, format variants, load).
---
 src/error.c             | 12 +++++++-----
 src/format.c            |  1 +
 src/load.c              |  1 +
 src/module-srfi28.c     |  6 +++++-
 src/module-srfi48.c     |  7 +++++--
 src/sigschemeinternal.h | 11 +++++++++++
 src/string-procedure.c  |  1 +
 src/write.c             |  1 +
 8 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/error.c b/src/error.c
index 229561b..45c4af8 100644
--- a/src/error.c
+++ b/src/error.c
@@ -353,7 +353,7 @@ static void
 scm_error_internal(const char *func_name, ScmObj obj,
                    const char *msg, va_list args)
 {
-    ScmObj reason, err_obj;
+    ScmObj reason, func_reason, err_obj;
 
     if (l_error_looped)
         scm_fatal_error("bug: double error on preparing error object");
@@ -364,10 +364,12 @@ scm_error_internal(const char *func_name, ScmObj obj,
 #if (SCM_USE_FORMAT && SCM_USE_SRFI6)
     reason = scm_vformat(SCM_FALSE, SCM_FMT_INTERNAL, msg, args);
     if (func_name) {
-        reason = scm_format(SCM_FALSE, SCM_FMT_RAW_C,
-                            "in ~S: ~S~S",
-                            func_name, SCM_STRING_STR(reason),
-                            (EQ(obj, NO_ERR_OBJ) ? "" : ":"));
+        func_reason = scm_format(SCM_FALSE, SCM_FMT_RAW_C,
+                                 "in ~S: ~S~S",
+                                 func_name, SCM_STRING_STR(reason),
+                                 (EQ(obj, NO_ERR_OBJ) ? "" : ":"));
+        SCM_GC_KEEP_ALIVE(reason);
+        reason = func_reason;
     }
 #else
     reason = CONST_STRING(msg);
diff --git a/src/format.c b/src/format.c
index 2b069ef..53a2956 100644
--- a/src/format.c
+++ b/src/format.c
@@ -602,6 +602,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
             scm_lformat(port,
                         fcap & ~SCM_FMT_RAW_C,
                         SCM_STRING_STR(indirect_fmt), indirect_args);
+            SCM_GC_KEEP_ALIVE(indirect_fmt);
             goto fin;
 
 #if SCM_USE_CHAR
diff --git a/src/load.c b/src/load.c
index 7cd6c65..ebde50e 100644
--- a/src/load.c
+++ b/src/load.c
@@ -311,6 +311,7 @@ scm_p_load(ScmObj filename)
     ENSURE_STRING(filename);
 
     scm_load_internal(SCM_STRING_STR(filename));
+    SCM_GC_KEEP_ALIVE(filename);
 
     return SCM_UNDEF;
 }
diff --git a/src/module-srfi28.c b/src/module-srfi28.c
index 7d9f537..ab577b9 100644
--- a/src/module-srfi28.c
+++ b/src/module-srfi28.c
@@ -69,9 +69,13 @@ scm_initialize_srfi28(void)
 SCM_EXPORT ScmObj
 scm_p_srfi28_format(ScmObj fmt, ScmObj objs)
 {
+    ScmObj ret;
     DECLARE_FUNCTION("format", procedure_variadic_1);
 
     ENSURE_STRING(fmt);
 
-    return scm_lformat(SCM_FALSE, SCM_FMT_SRFI28, SCM_STRING_STR(fmt), objs);
+    ret = scm_lformat(SCM_FALSE, SCM_FMT_SRFI28, SCM_STRING_STR(fmt), objs);
+    SCM_GC_KEEP_ALIVE(fmt);
+
+    return ret;
 }
diff --git a/src/module-srfi48.c b/src/module-srfi48.c
index 8a89572..85c4984 100644
--- a/src/module-srfi48.c
+++ b/src/module-srfi48.c
@@ -81,7 +81,7 @@ static ScmObj
 srfi48_format_internal(enum ScmFormatCapability fcap,
                        ScmObj fmt_or_port, ScmObj rest)
 {
-    ScmObj port, fmt, objs;
+    ScmObj port, fmt, objs, ret;
     DECLARE_INTERNAL_FUNCTION("format");
 
     if (STRINGP(fmt_or_port)) {
@@ -94,7 +94,10 @@ srfi48_format_internal(enum ScmFormatCapability fcap,
     }
     objs = rest;
 
-    return scm_lformat(port, fcap, SCM_STRING_STR(fmt), objs);
+    ret = scm_lformat(port, fcap, SCM_STRING_STR(fmt), objs);
+    SCM_GC_KEEP_ALIVE(fmt);
+
+    return ret;
 }
 
 /* format [port] format-string [obj ...] */
diff --git a/src/sigschemeinternal.h b/src/sigschemeinternal.h
index 2ff6a64..d7f0e9d 100644
--- a/src/sigschemeinternal.h
+++ b/src/sigschemeinternal.h
@@ -270,6 +270,17 @@ extern "C" {
 
 #define VALIDP(obj)   (!EQ((obj), SCM_INVALID))
 
+/* Keeps OBJ visible to the conservative stack scanning until this point. Needed
+ * where only a pointer into the storage owned by OBJ (C string, vector body) is
+ * used after the last reference to OBJ itself, or where an object is referred
+ * only from a malloc'ed buffer not yet owned by any object, while a cell
+ * allocation (hence a GC) may occur. */
+#define SCM_GC_KEEP_ALIVE(obj)                                               \
+    do {                                                                     \
+        volatile ScmObj keep_alive_ = (obj);                                 \
+        (void)keep_alive_;                                                   \
+    } while (/* CONSTCOND */ 0)
+
 /* Declares the current function name as seen by Scheme codes.  TYPE
  * is ignored, but we use it to implement a stub generator.  This
  * macro can be invoked only at the beginning of a function body,
diff --git a/src/string-procedure.c b/src/string-procedure.c
index e33b9a1..a3a111d 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -487,6 +487,7 @@ scm_p_string2list(ScmObj str)
         ret = CONS(MAKE_CHAR(ch), ret);
     }
 #endif /* SCM_USE_MULTIBYTE_CHAR */
+    SCM_GC_KEEP_ALIVE(str);
 
     return ret;
 }
diff --git a/src/write.c b/src/write.c
index f34c9a1..8e16da5 100644
--- a/src/write.c
+++ b/src/write.c
@@ -441,6 +441,7 @@ write_string(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     default:
         SCM_NOTREACHED;
     }
+    SCM_GC_KEEP_ALIVE(obj);
 }
 #endif /* SCM_USE_STRING */
 
-- 
2.43.0


From d6d4145f4990091dc912e9feff115718966d5eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 03/59] fix: keep vector elements alive while the vector is
 being created

Elements stored only in the malloc'ed buffer of a vector under construction
are invisible to the GC which allocation of the vector cell may cause.
---
 src/qquote.c |  2 ++
 src/vector.c | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/qquote.c b/src/qquote.c
index c56c0b2..779553a 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -394,6 +394,8 @@ scm_vectran(sequence_translator *t, tr_msg msg, ScmObj obj)
                     change_index = SCM_INT_VALUE(CAAR(diff));
             }
             ret = MAKE_VECTOR(copy_buf, src_len + t->u.vec.growth);
+            SCM_GC_KEEP_ALIVE(t->u.vec.src);
+            SCM_GC_KEEP_ALIVE(t->u.vec.diff);
             RETURN_OBJECT(ret);
         }
         RETURN_OBJECT(t->u.vec.src);
diff --git a/src/vector.c b/src/vector.c
index f8a75cd..2cf94ac 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -73,7 +73,7 @@ scm_p_vectorp(ScmObj obj)
 SCM_EXPORT ScmObj
 scm_p_make_vector(ScmObj scm_len, ScmObj args)
 {
-    ScmObj *vec, filler;
+    ScmObj *vec, filler, ret;
     scm_int_t len, i;
     DECLARE_FUNCTION("make-vector", procedure_variadic_1);
 
@@ -93,7 +93,10 @@ scm_p_make_vector(ScmObj scm_len, ScmObj args)
     for (i = 0; i < len; i++)
         vec[i] = filler;
 
-    return MAKE_VECTOR(vec, len);
+    ret = MAKE_VECTOR(vec, len);
+    SCM_GC_KEEP_ALIVE(filler);
+
+    return ret;
 }
 
 SCM_EXPORT ScmObj
@@ -177,7 +180,7 @@ scm_p_vector2list(ScmObj vec)
 SCM_EXPORT ScmObj
 scm_p_list2vector(ScmObj lst)
 {
-    ScmObj *vec;
+    ScmObj *vec, rest, ret;
     scm_int_t len, i;
     DECLARE_FUNCTION("list->vector", procedure_fixed_1);
 
@@ -186,10 +189,14 @@ scm_p_list2vector(ScmObj lst)
         ERR_OBJ("proper list required but got", lst);
 
     vec = scm_malloc(sizeof(ScmObj) * len);
+    rest = lst;
     for (i = 0; i < len; i++)
-        vec[i] = POP(lst);
+        vec[i] = POP(rest);
 
-    return MAKE_VECTOR(vec, len);
+    ret = MAKE_VECTOR(vec, len);
+    SCM_GC_KEEP_ALIVE(lst);
+
+    return ret;
 }
 
 SCM_EXPORT ScmObj
-- 
2.43.0


From 5655955118f6225f194ae81029341fe353d1b22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 04/59] fix: keep vectors alive while traversing their bodies
 across allocation

---
 src/macro.c  | 5 +++++
 src/vector.c | 1 +
 src/write.c  | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 9a0f88c..0932246 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -531,6 +531,7 @@ compile_rec(compilation_context *ctx, ScmObj form, scm_int_t level)
         }
         SCM_ASSERT(i == len);
         outvec[j] = compile_rec(ctx, invec[i - 1], level);
+        SCM_GC_KEEP_ALIVE(form);
         return out;
     } else if (IDENTIFIERP(form)) {
         /* ctx->pvars.vals initially contains a list of levels.  Then
@@ -705,6 +706,8 @@ match_rec(match_context *ctx, ScmObj pat, ScmObj form)
 
         for (i = 0; i < len; i++)
             MATCH_REC(ctx, pvec[i], fvec[i]);
+        SCM_GC_KEEP_ALIVE(pat);
+        SCM_GC_KEEP_ALIVE(form);
         if (plen != len)
             return match_reppat(ctx, pat, form);
         return scm_true;
@@ -791,6 +794,7 @@ match_reppat(match_context *ctx, ScmObj arg, ScmObj form)
             MATCH_REC(ctx, pat, vec[i]);
             merge_subs(accum, ctx->sub, sub_save);
         }
+        SCM_GC_KEEP_ALIVE(form);
     }
 
     for (ctx->sub = accum; !EQ(accum, sub_save); accum = CDR(accum))
@@ -944,6 +948,7 @@ transcribe_rec(transcription_context *ctx, ScmObj template, ScmObj sub,
         len = SCM_VECTOR_LEN(template);
         for (i = 0; i < len; i++)
             RECURSE(q, vec[i]);
+        SCM_GC_KEEP_ALIVE(template);
         ret.u.obj = scm_p_list2vector(ret.u.obj);
         return ret;
     } else if (SUBPATP(template)) {
diff --git a/src/vector.c b/src/vector.c
index 2cf94ac..f3d4e65 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -173,6 +173,7 @@ scm_p_vector2list(ScmObj vec)
     SCM_QUEUE_POINT_TO(q, ret);
     for (i = 0; i < len; i++)
         SCM_QUEUE_ADD(q, v[i]);
+    SCM_GC_KEEP_ALIVE(vec);
 
     return ret;
 }
diff --git a/src/write.c b/src/write.c
index 8e16da5..9ba1816 100644
--- a/src/write.c
+++ b/src/write.c
@@ -519,6 +519,7 @@ write_vector(ScmObj port, ScmObj vec, enum ScmOutputType otype)
             scm_port_put_char(port, ' ');
         write_obj(port, v[i], otype);
     }
+    SCM_GC_KEEP_ALIVE(vec);
 
     scm_port_put_char(port, ')');
 }
-- 
2.43.0


From ef2d984dba717ed673ebacdccb300e640dc210b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 05/59] fix: don't leave stale shared-structure context when
 writing fails

If an error escapes from write/ss (e.g. I/O error on the port), l_write_ss_ctx
kept pointing to the dead stack frame and was referred by subsequent writes,
and the table of seen objects leaked.
---
 src/write.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/write.c b/src/write.c
index 9ba1816..c6a35fd 100644
--- a/src/write.c
+++ b/src/write.c
@@ -97,6 +97,9 @@ typedef struct {
     size_t size;  /* capacity; MUST be a power of 2 */
     size_t used;  /* population */
     scm_hash_entry *ents;
+    /* A string object which holds ents as its body. Lets GC free ents even if
+     * an error escapes from the writer. */
+    ScmObj ents_owner;
 } scm_hash_table;
 
 typedef struct {
@@ -177,12 +180,19 @@ scm_init_writer(void)
 SCM_EXPORT void
 scm_write(ScmObj port, ScmObj obj)
 {
+#if SCM_USE_SRFI38
+    /* may be left by an error escaped from write_ss_internal() */
+    l_write_ss_ctx = NULL;
+#endif
     write_internal(port, obj, AS_WRITE);
 }
 
 SCM_EXPORT void
 scm_display(ScmObj port, ScmObj obj)
 {
+#if SCM_USE_SRFI38
+    l_write_ss_ctx = NULL;
+#endif
     write_internal(port, obj, AS_DISPLAY);
 }
 
@@ -249,7 +259,7 @@ write_obj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
         scm_port_puts(port, (SCM_SYNTAXP(obj)) ? "#<syntax " : "#<subr ");
         sym = scm_symbol_bound_to(obj);
         if (TRUEP(sym))
-            scm_display(port, sym);
+            write_obj(port, sym, AS_DISPLAY);
         else
             scm_format(port, SCM_FMT_RAW_C, "~P", (void *)obj);
         scm_port_put_char(port, '>');
@@ -589,11 +599,11 @@ write_errobj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     switch (otype) {
     case AS_WRITE:
         scm_port_puts(port, "#<error ");
-        scm_write(port, reason);
+        write_obj(port, reason, AS_WRITE);
         break;
 
     case AS_DISPLAY:
-        scm_display(port, reason);
+        write_obj(port, reason, AS_DISPLAY);
         break;
 
     default:
@@ -602,7 +612,7 @@ write_errobj(ScmObj port, ScmObj obj, enum ScmOutputType otype)
 
     FOR_EACH (elm, objs) {
         scm_port_put_char(port, ' ');
-        scm_write(port, elm);
+        write_obj(port, elm, AS_WRITE);
     }
 
     if (otype == AS_WRITE)
@@ -617,7 +627,7 @@ write_farsymbol(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     scm_port_puts(port, "#<farsym");
     for (; SCM_FARSYMBOLP(obj); obj = SCM_FARSYMBOL_SYM(obj))
         scm_format(port, SCM_FMT_RAW_C, " ~MD ", SCM_FARSYMBOL_ENV(obj));
-    scm_display(port, obj); /* Name. */
+    write_obj(port, obj, AS_DISPLAY); /* Name. */
     scm_port_puts(port, ">");
 }
 #endif /* SCM_USE_HYGIENIC_MACRO */
@@ -642,6 +652,7 @@ hash_grow(scm_hash_table *tab)
     for (i = 0; i < old_size; i++)
         hash_lookup(tab, old_ents[i].key, old_ents[i].datum, HASH_INSERT);
 
+    SCM_STRING_SET_STR(tab->ents_owner, (char *)tab->ents);
     free(old_ents);
 }
 
@@ -809,6 +820,8 @@ write_ss_internal(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     ctx.seen.ents = scm_malloc(ctx.seen.size * sizeof(scm_hash_entry));
     for (i = 0; i < ctx.seen.size; i++)
         ctx.seen.ents[i].key = SCM_INVALID;
+    ctx.seen.ents_owner = MAKE_STRING((char *)ctx.seen.ents, 0);
+    l_write_ss_ctx = NULL;
 
     write_ss_scan(obj, &ctx);
 
@@ -819,6 +832,7 @@ write_ss_internal(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     write_internal(port, obj, otype);
 
     l_write_ss_ctx = NULL;
+    SCM_STRING_SET_STR(ctx.seen.ents_owner, NULL);
     free(ctx.seen.ents);
 }
 
-- 
2.43.0


From bac7a87d5d19b72f214aaf6568980594b62544d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:16 +0000
Subject: [PATCH 06/59] fix: detach a port before closing its backend, and
 never raise from GC sweep

When fclose(3) fails, the error escaped from fileport_close() leaving the
port object referring freed backend (double close/free on GC or a retry).
If the port was being closed by GC, the error escaped from a half-swept
heap.
---
 src/port.c             |  7 ++++++-
 src/scmport-basechar.c |  6 +++++-
 src/scmport-config.h   |  7 +++++++
 src/scmport-file.c     |  2 +-
 src/sigscheme.h        |  1 +
 src/storage-gc.c       | 15 +++++++++++++++
 6 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/port.c b/src/port.c
index a8464c6..5eb99b2 100644
--- a/src/port.c
+++ b/src/port.c
@@ -187,11 +187,16 @@ scm_port_newline(ScmObj port)
 SCM_EXPORT void
 scm_port_close(ScmObj port)
 {
+    ScmCharPort *impl;
+
     SCM_ASSERT(SCM_PORTP(port));
     SCM_ASSERT(SCM_PORT_IMPL(port));
 
-    SCM_CHARPORT_CLOSE(SCM_PORT_IMPL(port));
+    /* The impl is released even if SCM_CHARPORT_CLOSE() raised an error. So it
+     * must be detached first. */
+    impl = SCM_PORT_IMPL(port);
     SCM_PORT_SET_IMPL(port, NULL);
+    SCM_CHARPORT_CLOSE(impl);
 }
 
 SCM_EXPORT ScmCharCodec *
diff --git a/src/scmport-basechar.c b/src/scmport-basechar.c
index f178ad0..f3048d5 100644
--- a/src/scmport-basechar.c
+++ b/src/scmport-basechar.c
@@ -139,8 +139,12 @@ basecport_dyn_cast(ScmCharPort *cport, const ScmCharPortVTbl *dst_vptr)
 static void
 basecport_close(ScmBaseCharPort *port)
 {
-    SCM_BYTEPORT_CLOSE(port->bport);
+    ScmBytePort *bport;
+
+    /* SCM_BYTEPORT_CLOSE() may not return */
+    bport = port->bport;
     free(port);
+    SCM_BYTEPORT_CLOSE(bport);
 }
 
 static ScmCharCodec *
diff --git a/src/scmport-config.h b/src/scmport-config.h
index e50e6a8..04f9c50 100644
--- a/src/scmport-config.h
+++ b/src/scmport-config.h
@@ -57,6 +57,12 @@ extern "C" {
 #define SCM_PORT_STRDUP(str)           (scm_strdup(str))
 #define SCM_CHARPORT_ERROR(cport, msg) (scm_plain_error(msg))
 #define SCM_BYTEPORT_ERROR(bport, msg) (scm_plain_error(msg))
+/* Ports are also closed by GC, from which no error can be raised. */
+#define SCM_BYTEPORT_CLOSE_ERROR(bport, msg)                                 \
+    do {                                                                     \
+        if (!scm_gc_sweepingp())                                             \
+            SCM_BYTEPORT_ERROR((bport), (msg));                              \
+    } while (/* CONSTCOND */ 0)
 #else /* SCM_SCMPORT_USE_WITH_SIGSCHEME */
 /* Allocation error handling in the macros is strongly recommended. */
 #define SCM_PORT_MALLOC(size)          (malloc(size))
@@ -72,6 +78,7 @@ extern "C" {
  */
 #define SCM_CHARPORT_ERROR(cport, msg) (exit(EXIT_FAILURE))
 #define SCM_BYTEPORT_ERROR(bport, msg) (exit(EXIT_FAILURE))
+#define SCM_BYTEPORT_CLOSE_ERROR(bport, msg) SCM_BYTEPORT_ERROR((bport), (msg))
 #endif /* SCM_SCMPORT_USE_WITH_SIGSCHEME */
 
 /*=======================================
diff --git a/src/scmport-file.c b/src/scmport-file.c
index 50489bb..f405cf9 100644
--- a/src/scmport-file.c
+++ b/src/scmport-file.c
@@ -191,7 +191,7 @@ fileport_close(ScmFilePort *port)
     free(port->aux_info);
     free(port);
     if (ret == EOF)
-        SCM_BYTEPORT_ERROR(NULL, SCM_ERRMSG_CLOSE_PORT);
+        SCM_BYTEPORT_CLOSE_ERROR(NULL, SCM_ERRMSG_CLOSE_PORT);
 }
 
 static char *
diff --git a/src/sigscheme.h b/src/sigscheme.h
index a4acc26..621ec3a 100644
--- a/src/sigscheme.h
+++ b/src/sigscheme.h
@@ -1305,6 +1305,7 @@ SCM_EXPORT void scm_gc_protect(ScmObj *var);
 SCM_EXPORT void scm_gc_protect_with_init(ScmObj *var, ScmObj init_val);
 SCM_EXPORT void scm_gc_unprotect(ScmObj *var);
 SCM_EXPORT scm_bool scm_gc_protectedp(ScmObj obj);
+SCM_EXPORT scm_bool scm_gc_sweepingp(void);
 SCM_EXPORT void *scm_call_with_gc_ready_stack(ScmGCGateFunc func, void *arg);
 SCM_EXPORT scm_bool scm_gc_protected_contextp(void);
 /* for semantic assertions */
diff --git a/src/storage-gc.c b/src/storage-gc.c
index 30abcac..3cb3b5d 100644
--- a/src/storage-gc.c
+++ b/src/storage-gc.c
@@ -102,6 +102,7 @@ static ScmObj l_freelist;
 static ScmObj **l_protected_vars;
 static size_t l_protected_vars_size, l_n_empty_protected_vars;
 static GCROOTS_context *l_gcroots_ctx;
+static scm_bool l_sweeping;
 #if SCM_DEBUG
 static size_t l_gcing;
 static scm_bool l_allocating;
@@ -121,6 +122,7 @@ SCM_GLOBAL_VARS_END(static_gc);
 #define l_n_empty_protected_vars                                             \
     SCM_GLOBAL_VAR(static_gc, l_n_empty_protected_vars)
 #define l_gcroots_ctx          SCM_GLOBAL_VAR(static_gc, l_gcroots_ctx)
+#define l_sweeping             SCM_GLOBAL_VAR(static_gc, l_sweeping)
 #if SCM_DEBUG
 #define l_gcing                SCM_GLOBAL_VAR(static_gc, l_gcing)
 #define l_allocating           SCM_GLOBAL_VAR(static_gc, l_allocating)
@@ -195,6 +197,7 @@ scm_init_gc(const ScmStorageConf *conf)
 {
     SCM_GLOBAL_VARS_INIT(static_gc);
 
+    l_sweeping = scm_false;
 #if SCM_DEBUG
     l_gcing = 0;
     l_allocating = scm_false;
@@ -347,6 +350,14 @@ scm_gc_unprotect(ScmObj *var)
     }
 }
 
+/* Returns true while cells are being finalized by GC, where neither cell
+ * allocation nor error raising is allowed. */
+SCM_EXPORT scm_bool
+scm_gc_sweepingp(void)
+{
+    return l_sweeping;
+}
+
 /* Usage:
  *
  *   assert(scm_gc_protectedp(obj));
@@ -481,6 +492,7 @@ finalize_heap(void)
     ScmCell *cell;
     ScmObjHeap heap;
 
+    l_sweeping = scm_true;
     for (i = 0; i < l_n_heaps; i++) {
         heap = l_heaps[i];
         for (cell = &heap[0]; cell < &heap[l_heap_size]; cell++)
@@ -488,6 +500,7 @@ finalize_heap(void)
         free(heap);
     }
     free(l_heaps);
+    l_sweeping = scm_false;
 }
 
 static void
@@ -930,6 +943,7 @@ gc_sweep(void)
     ScmObj new_freelist;
 
     SCM_BEGIN_GC_SUBCONTEXT();
+    l_sweeping = scm_true;
 
     /* Because l_freelist may not be exhausted on an user-instructed GC, do not
      * assume that l_freelist is null here. -- YamaKen */
@@ -957,6 +971,7 @@ gc_sweep(void)
     }
     l_freelist = new_freelist;
 
+    l_sweeping = scm_false;
     SCM_END_GC_SUBCONTEXT();
 
     return sum_collected;
-- 
2.43.0


From 6536819106450857ebd43d710208f287d41de966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 07/59] fix: make closed ports writable

Writing a closed port object raised an error. Since the error reporter writes
the irritants, any uncaught error about a closed port ended up with 'looped
fatal error' and terminated the interpreter.
---
 src/write.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/write.c b/src/write.c
index c6a35fd..410bc47 100644
--- a/src/write.c
+++ b/src/write.c
@@ -550,13 +550,17 @@ write_port(ScmObj port, ScmObj obj, enum ScmOutputType otype)
         scm_port_put_char(port, 'o');
     scm_port_puts(port, "port");
 
-    /* file or string */
-    info = scm_port_inspect(obj);
-    if (*info) {
-        scm_port_put_char(port, ' ');
-        scm_port_puts(port, info);
+    /* file or string. A closed port has no impl to be inspected. */
+    if (SCM_PORT_IMPL(obj)) {
+        info = scm_port_inspect(obj);
+        if (*info) {
+            scm_port_put_char(port, ' ');
+            scm_port_puts(port, info);
+        }
+        free(info);
+    } else {
+        scm_port_puts(port, " closed");
     }
-    free(info);
 
     scm_port_put_char(port, '>');
 }
-- 
2.43.0


From 1a0e7c8e48a486352b5ee14551ac58f0ed47e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:57 +0000
Subject: [PATCH 08/59] fix: don't let string input ports refer the body of
 mutable strings

The body may be freed or reallocated by string-set! and string-fill! while
the port is still reading it.
---
 src/module-srfi6.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/module-srfi6.c b/src/module-srfi6.c
index cf1cb8b..79ba952 100644
--- a/src/module-srfi6.c
+++ b/src/module-srfi6.c
@@ -93,10 +93,15 @@ scm_p_srfi6_open_input_string(ScmObj str)
 
     ENSURE_STRING(str);
 
-    bport = ScmInputStrPort_new_const(SCM_STRING_STR(str),
-                                      srfi6_istrport_finalize);
-    hold_str = (ScmObj *)ScmInputStrPort_ref_opaque(bport);
-    scm_gc_protect_with_init(hold_str, str);
+    if (SCM_STRING_MUTABLEP(str)) {
+        /* The string body may be reallocated by a mutation. */
+        bport = ScmInputStrPort_new_copying(SCM_STRING_STR(str), NULL);
+    } else {
+        bport = ScmInputStrPort_new_const(SCM_STRING_STR(str),
+                                          srfi6_istrport_finalize);
+        hold_str = (ScmObj *)ScmInputStrPort_ref_opaque(bport);
+        scm_gc_protect_with_init(hold_str, str);
+    }
     cport = scm_make_char_port(bport);
     return MAKE_PORT(cport, SCM_PORTFLAG_INPUT);
 }
-- 
2.43.0


From 82eae7530223ae0b73e1dfa35424b1b57362d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 09/59] fix: restore current char codec when an error escapes
 from require

---
 lib/sigscheme-init.scm | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/sigscheme-init.scm b/lib/sigscheme-init.scm
index c8d42b4..f614ea8 100644
--- a/lib/sigscheme-init.scm
+++ b/lib/sigscheme-init.scm
@@ -62,6 +62,17 @@
            (%%load file))))
       %%load))
 
+;; Ditto for 'require'.
+(define %%require require)
+
+(define require
+  (if (provided? "multibyte-char")
+      (lambda (file)
+        (%with-guarded-char-codec
+         (lambda ()
+           (%%require file))))
+      %%require))
+
 ;; R5RS
 (define call-with-input-file
   (lambda (filename proc)
-- 
2.43.0


From da5a6393c513a997493cf79849a3a60a682d7961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 10/59] fix: reset library path on finalization

After re-initialization, load searched files with the freed path.
---
 src/load.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/load.c b/src/load.c
index ebde50e..1ff2a65 100644
--- a/src/load.c
+++ b/src/load.c
@@ -109,6 +109,8 @@ scm_fin_load(void)
     free(l_scm_lib_path);
     free(l_scm_system_load_path);
 
+    /* required to be able to re-initialize */
+    l_scm_lib_path = NULL;
     l_scm_system_load_path = NULL;
 
     SCM_GLOBAL_VARS_FIN(static_load);
-- 
2.43.0


From ce2c3d10b7760d50434fff743606a363eb65d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 11/59] fix: don't crash on load-path if library path is not
 set

---
 src/load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 1ff2a65..7b4ce67 100644
--- a/src/load.c
+++ b/src/load.c
@@ -151,7 +151,7 @@ scm_p_load_path(void)
 {
     DECLARE_FUNCTION("load-path", procedure_fixed_0);
 
-    return CONST_STRING(l_scm_lib_path);
+    return CONST_STRING((l_scm_lib_path) ? l_scm_lib_path : "");
 }
 
 SCM_EXPORT void
-- 
2.43.0


From 5db79930eeda204de115f4898e80c10927c0dd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:39 +0000
Subject: [PATCH 12/59] fix: don't modify the spliced list in quasiquote

The list given to unquote-splicing was linked into the result
destructively, so that the rest of the template was appended to the
list itself. Since a list constant gets modified, evaluating the same
expression twice results in a circular list.
---
 src/qquote.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qquote.c b/src/qquote.c
index 779553a..6f0b555 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -264,6 +264,7 @@ static tr_param qquote_internal(ScmObj input, ScmObj env, scm_int_t nest);
 static translator_ret
 scm_listran(sequence_translator *t, tr_msg msg, ScmObj obj)
 {
+    ScmObj elm, rest;
     DECLARE_INTERNAL_FUNCTION("(list translator)");
 
     switch (msg) {
@@ -293,9 +294,13 @@ scm_listran(sequence_translator *t, tr_msg msg, ScmObj obj)
         }
 
         if (msg != TRL_MSG_SET_SUBLS) {
-            SCM_QUEUE_APPEND(t->u.lst.q, obj);
+            /* obj may be shared with others, and the rest of the output will
+             * be linked to its end. So copy it. */
+            rest = obj;
+            FOR_EACH (elm, rest)
+                SCM_QUEUE_ADD(t->u.lst.q, elm);
 #if SCM_STRICT_ARGCHECK
-            if (!NULLP(SCM_QUEUE_TERMINATOR(t->u.lst.q)))
+            if (!NULLP(rest))
                 ERR_OBJ(ERRMSG_BAD_SPLICE_LIST, obj);
 #endif
             t->u.lst.src = obj = CDR(t->u.lst.cur);
-- 
2.43.0


From b40327fd4e5c3be1b1b7bf2b257bbccc705e4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 13/59] fix: copy the list spliced into a vector quasiquotation

The list length was recorded on unquote-splicing but the list was
traversed again on extraction, so that the buffer overflowed if an
expression evaluated between them extended the list.
---
 src/qquote.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qquote.c b/src/qquote.c
index 6f0b555..182bb4f 100644
--- a/src/qquote.c
+++ b/src/qquote.c
@@ -326,6 +326,8 @@ static translator_ret
 scm_vectran(sequence_translator *t, tr_msg msg, ScmObj obj)
 {
     ScmObj subst_rec, subst_index;
+    ScmQueue spliceq;
+    ScmObj elm, rest, spliced;
     scm_int_t splice_len;
     scm_int_t change_index;
     DECLARE_INTERNAL_FUNCTION("(vector translator)");
@@ -351,6 +353,14 @@ scm_vectran(sequence_translator *t, tr_msg msg, ScmObj obj)
          *   -- YamaKen 2006-06-25 */
         if (!SCM_LISTLEN_PROPERP(splice_len))
             ERR_OBJ(ERRMSG_BAD_SPLICE_LIST, obj);
+        /* The list can be modified by the expressions evaluated until
+         * TR_MSG_EXTRACT. So copy it to keep splice_len valid. */
+        rest = obj;
+        spliced = SCM_NULL;
+        SCM_QUEUE_POINT_TO(spliceq, spliced);
+        FOR_EACH (elm, rest)
+            SCM_QUEUE_ADD(spliceq, elm);
+        obj = spliced;
         t->u.vec.growth += splice_len - 1;
         change_index = SPLICED_INDEX(t->u.vec.index);
         goto record_change;
-- 
2.43.0


From dd192fb80217a0c1b28bcdaca2158a69e0b03adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 14/59] fix: don't trap on overflowing integer divisions and on
 (lcm 0 0)

The quotient, remainder and modulo of the least fixnum and -1 raised SIGFPE on
storages with full-width fixnums (and quotient silently overflowed on the
others). gcd did the same, and lcm of zeros divided by zero.
---
 src/number.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/number.c b/src/number.c
index 722cd90..466c232 100644
--- a/src/number.c
+++ b/src/number.c
@@ -378,6 +378,8 @@ scm_p_quotient(ScmObj _n1, ScmObj _n2)
      *   value is truncated toward zero). If the value of the integral part
      *   cannot be represented by the integer type, the behavior is undefined.
      */    
+    if (n2 == -1 && n1 == SCM_INT_MIN)
+        ERR(ERRMSG_FIXNUM_OVERFLOW);
     return MAKE_INT((scm_int_t)(n1 / n2));
 }
 
@@ -395,7 +397,8 @@ scm_p_modulo(ScmObj _n1, ScmObj _n2)
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
 
-    rem = n1 % n2;
+    /* SCM_INT_MIN % -1 may trap */
+    rem = (n2 == -1) ? 0 : n1 % n2;
     if (rem && ((n1 < 0 && 0 < n2) || (n2 < 0 && 0 < n1)))
         rem += n2;
 
@@ -416,7 +419,8 @@ scm_p_remainder(ScmObj _n1, ScmObj _n2)
     if (n2 == 0)
         ERR(ERRMSG_DIV_BY_ZERO);
 
-    return MAKE_INT(n1 % n2);
+    /* SCM_INT_MIN % -1 may trap */
+    return MAKE_INT((n2 == -1) ? 0 : n1 % n2);
 }
 
 SCM_EXPORT ScmObj
@@ -455,7 +459,8 @@ static scm_int_t gcd(scm_int_t x, scm_int_t y)
     scm_int_t tmp;
     while (x != 0) {
         tmp = x;
-        x = y % x;
+        /* SCM_INT_MIN % -1 may trap */
+        x = (x == -1) ? 0 : y % x;
         y = tmp;
     }
     return (y >= 0) ? y : -y;
@@ -501,7 +506,11 @@ scm_p_lcm(ScmObj left, ScmObj right, enum ScmReductionState *state)
         /* Fall through. */
     case SCM_REDUCE_1:
         ENSURE_INT(right);
-        result *= SCM_INT_VALUE(right) / gcd(result, SCM_INT_VALUE(right));
+        /* (lcm 0 0) is 0 although gcd is 0 */
+        if (SCM_INT_VALUE(right) == 0)
+            result = 0;
+        else
+            result *= SCM_INT_VALUE(right) / gcd(result, SCM_INT_VALUE(right));
         /* Fall through. */
     case SCM_REDUCE_0:
         break;
-- 
2.43.0


From 1fe912240f976ef70f8fdf7b6ab2967126d10546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 15/59] fix: reject improper rest arguments of let-optionals*

The rest of an improper list was taken as a pair.
---
 src/module-sscm-ext.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module-sscm-ext.c b/src/module-sscm-ext.c
index 0c5984e..5a5a910 100644
--- a/src/module-sscm-ext.c
+++ b/src/module-sscm-ext.c
@@ -425,6 +425,9 @@ scm_s_let_optionalsstar(ScmObj args, ScmObj bindings, ScmObj body,
             val = EVAL(exp, env);
             CHECK_VALID_EVALED_VALUE(val);
         } else {
+            /* ENSURE_LIST() above does not reject improper lists */
+            if (!CONSP(args))
+                ERR_OBJ("proper list required but got", args);
             val = POP(args);
         }
 
-- 
2.43.0


From 2956f60424c267579461a4942689c1e47b572d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 16/59] fix: reject a cond clause with an improper body

---
 src/syntax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index b66e756..e2f48d2 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -341,7 +341,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
              * of the <test> and the value returned by this procedure is
              * returned by the cond expression.
              */
-            if (EQ(l_sym_yields, CAR(exps)) && LIST_2_P(exps)) {
+            if (LIST_2_P(exps) && EQ(l_sym_yields, CAR(exps))) {
                 proc = EVAL(CADR(exps), env);
                 if (!PROCEDUREP(proc))
                     ERR_OBJ("exp after => must be a procedure but got", proc);
-- 
2.43.0


From b7df52f9494cdde3b4a2c22013ff7be3bd071f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 17/59] fix: don't leak the storage of make-vector given too
 many arguments

---
 src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index f3d4e65..6320f86 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -83,13 +83,13 @@ scm_p_make_vector(ScmObj scm_len, ScmObj args)
     if (len < 0)
         ERR_OBJ("length must be a non-negative integer", scm_len);
 
-    vec = scm_malloc(sizeof(ScmObj) * len);
     if (NULLP(args)) {
         filler = SCM_UNDEF;
     } else {
         filler = POP(args);
         ASSERT_NO_MORE_ARG(args);
     }
+    vec = scm_malloc(sizeof(ScmObj) * len);
     for (i = 0; i < len; i++)
         vec[i] = filler;
 
-- 
2.43.0


From 9c63311f3baf32d63765c2eee9058d976bed165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 18/59] fix: don't leak the buffer of a string or symbol whose
 reading fails

---
 src/read.c | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/read.c b/src/read.c
index 4548494..87043f4 100644
--- a/src/read.c
+++ b/src/read.c
@@ -192,6 +192,26 @@
 
 #define DISCARD_LOOKAHEAD(port) (scm_port_get_char(port))
 
+/*
+ * The extended buffer is owned by a string object, to be reclaimed by GC even
+ * if an error escapes from the reader. The init buffer is not.
+ */
+#define LBUF_EXTEND_OWNED(lbuf, f, least_size, owner)                        \
+    do {                                                                     \
+        if (LBUF_SIZE(lbuf) < (least_size)) {                                \
+            if (FALSEP(owner))                                               \
+                (owner) = MAKE_STRING(NULL, 0);                              \
+            LBUF_EXTEND((lbuf), (f), (least_size));                          \
+            SCM_STRING_SET_STR((owner), LBUF_BUF(lbuf));                     \
+        }                                                                    \
+    } while (/* CONSTCOND */ 0)
+#define LBUF_FREE_OWNED(lbuf, owner)                                         \
+    do {                                                                     \
+        if (!FALSEP(owner))                                                  \
+            SCM_STRING_SET_STR((owner), NULL);                               \
+        LBUF_FREE(lbuf);                                                     \
+    } while (/* CONSTCOND */ 0)
+
 /* accepts SCM_ICHAR_EOF */
 #define ICHAR_ASCII_CLASS(c)                                                 \
     (ICHAR_ASCIIP(c) ? scm_char_class_table[c] : SCM_CH_INVALID)
@@ -813,7 +833,7 @@ read_char(ScmObj port)
 static ScmObj
 read_string(ScmObj port)
 {
-    ScmObj obj;
+    ScmObj obj, owner;
     const ScmSpecialCharInfo *info;
     ScmCharCodec *codec;
     scm_int_t len;
@@ -826,6 +846,7 @@ read_string(ScmObj port)
 
     CDBG((SCM_DBG_PARSER, "read_string"));
 
+    owner = SCM_FALSE;
     LBUF_INIT(lbuf, init_buf, sizeof(init_buf));
     codec = scm_port_codec(port);
 
@@ -839,15 +860,15 @@ read_string(ScmObj port)
 
         switch (c) {
         case SCM_ICHAR_EOF:
-            LBUF_FREE(lbuf);
+            LBUF_FREE_OWNED(lbuf, owner);
             ERR("EOF in string");
             /* NOTREACHED */
 
         case '\"':
-            LBUF_EXTEND(lbuf, SCM_LBUF_F_STRING, offset + 1);
+            LBUF_EXTEND_OWNED(lbuf, SCM_LBUF_F_STRING, offset + 1, owner);
             LBUF_BUF(lbuf)[offset] = '\0';
             obj = MAKE_IMMUTABLE_STRING_COPYING(LBUF_BUF(lbuf), len);
-            LBUF_FREE(lbuf);
+            LBUF_FREE_OWNED(lbuf, owner);
             return obj;
 
         case '\\':
@@ -855,8 +876,8 @@ read_string(ScmObj port)
 #if SCM_USE_R6RS_CHARS
             if (c == 'x') {
                 c = read_unicode_sequence(port);
-                LBUF_EXTEND(lbuf, SCM_LBUF_F_STRING,
-                            offset + SCM_MB_CHAR_BUF_SIZE);
+                LBUF_EXTEND_OWNED(lbuf, SCM_LBUF_F_STRING,
+                                  offset + SCM_MB_CHAR_BUF_SIZE, owner);
                 p = &LBUF_BUF(lbuf)[offset];
                 p = SCM_CHARCODEC_INT2STR(codec, p, c, SCM_MB_STATELESS);
                 if (!p)
@@ -872,7 +893,7 @@ read_string(ScmObj port)
                 /* escape sequences */
                 for (info = scm_special_char_table; info->esc_seq; info++) {
                     if (strlen(info->esc_seq) == 2 && c == info->esc_seq[1]) {
-                        LBUF_EXTEND(lbuf, SCM_LBUF_F_STRING, offset + 1);
+                        LBUF_EXTEND_OWNED(lbuf, SCM_LBUF_F_STRING, offset + 1, owner);
                         p = &LBUF_BUF(lbuf)[offset];
                         *p++ = info->code;
                         goto found;
@@ -884,8 +905,8 @@ read_string(ScmObj port)
             break;
 
         default:
-            LBUF_EXTEND(lbuf, SCM_LBUF_F_STRING,
-                        offset + SCM_MB_CHAR_BUF_SIZE);
+            LBUF_EXTEND_OWNED(lbuf, SCM_LBUF_F_STRING,
+                              offset + SCM_MB_CHAR_BUF_SIZE, owner);
             p = &LBUF_BUF(lbuf)[offset];
 #if SCM_USE_R6RS_CHARS
             /* FIXME: support stateful encoding */
@@ -913,7 +934,7 @@ read_string(ScmObj port)
 static ScmObj
 read_symbol(ScmObj port)
 {
-    ScmObj sym;
+    ScmObj sym, owner;
     size_t offset, tail_len;
     int err;
     ScmLBuf(char) lbuf;
@@ -921,6 +942,7 @@ read_symbol(ScmObj port)
 
     CDBG((SCM_DBG_PARSER, "read_symbol"));
 
+    owner = SCM_FALSE;
     LBUF_INIT(lbuf, init_buf, sizeof(init_buf));
 
     for (offset = 0;;) {
@@ -931,12 +953,12 @@ read_symbol(ScmObj port)
         if (err != TOKEN_BUF_EXCEEDED)
             break;
         offset += tail_len;
-        LBUF_EXTEND(lbuf, SCM_LBUF_F_SYMBOL,
-                    LBUF_SIZE(lbuf) + SCM_MB_CHAR_BUF_SIZE);
+        LBUF_EXTEND_OWNED(lbuf, SCM_LBUF_F_SYMBOL,
+                          LBUF_SIZE(lbuf) + SCM_MB_CHAR_BUF_SIZE, owner);
     }
 
     sym = scm_intern(LBUF_BUF(lbuf));
-    LBUF_FREE(lbuf);
+    LBUF_FREE_OWNED(lbuf, owner);
 
     return sym;
 }
-- 
2.43.0


From a3f255683d8742f79a441dbf787715beecfe3433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:47 +0000
Subject: [PATCH 19/59] fix: create the owner of the reader's extended buffer
 with the buffer

---
 src/read.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/read.c b/src/read.c
index 87043f4..5ab44e9 100644
--- a/src/read.c
+++ b/src/read.c
@@ -199,10 +199,11 @@
 #define LBUF_EXTEND_OWNED(lbuf, f, least_size, owner)                        \
     do {                                                                     \
         if (LBUF_SIZE(lbuf) < (least_size)) {                                \
-            if (FALSEP(owner))                                               \
-                (owner) = MAKE_STRING(NULL, 0);                              \
             LBUF_EXTEND((lbuf), (f), (least_size));                          \
-            SCM_STRING_SET_STR((owner), LBUF_BUF(lbuf));                     \
+            if (FALSEP(owner))                                               \
+                (owner) = MAKE_STRING(LBUF_BUF(lbuf), 0);                    \
+            else                                                             \
+                SCM_STRING_SET_STR((owner), LBUF_BUF(lbuf));                 \
         }                                                                    \
     } while (/* CONSTCOND */ 0)
 #define LBUF_FREE_OWNED(lbuf, owner)                                         \
-- 
2.43.0


From aadcd250686c68546feff779e9dae8cf84fc619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:47 +0000
Subject: [PATCH 20/59] fix: report a backslash or control character outside of
 tokens as a read error

---
 src/read.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/read.c b/src/read.c
index 5ab44e9..01aa3f3 100644
--- a/src/read.c
+++ b/src/read.c
@@ -554,7 +554,8 @@ read_sexpression(ScmObj port)
             return read_number_or_peculiar(port);
 
         /* case labels are ordered by appearance rate and penalty cost */
-        SCM_ASSERT(ch_class == SCM_CH_TOKEN_INITIAL || c == SCM_ICHAR_EOF);
+        SCM_ASSERT(ch_class & (SCM_CH_TOKEN_INITIAL | SCM_CH_CONTROL)
+                   || c == SCM_ICHAR_EOF);
         SCM_ASSERT(c != ';');
         DISCARD_LOOKAHEAD(port);
         switch (c) {
@@ -637,7 +638,9 @@ read_sexpression(ScmObj port)
             /* NOTREACHED */
 
         default:
-            SCM_NOTREACHED;
+            /* backslash and control characters */
+            ERR("unexpected character: 0x~MX", (scm_int_t)c);
+            /* NOTREACHED */
         }
     }
 }
-- 
2.43.0


From e6ab96afcf50f7360512923c5e00718c335dcad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 21/59] fix: don't consume a NUL byte by peek-char

---
 src/scmport-mbchar.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/scmport-mbchar.c b/src/scmport-mbchar.c
index 2bbca59..96098f5 100644
--- a/src/scmport-mbchar.c
+++ b/src/scmport-mbchar.c
@@ -74,6 +74,7 @@ struct ScmMultiByteCharPort_ {  /* inherits ScmBaseCharPort */
     ScmCharCodec *codec;
     ScmMultibyteState rstate, wstate;
     scm_byte_t rbuf[SCM_MB_CHAR_BUF_SIZE];
+    size_t rlen;         /* number of bytes in rbuf, which may be NULs */
 };
 
 /*=======================================
@@ -136,7 +137,7 @@ ScmMultiByteCharPort_construct(ScmMultiByteCharPort *port,
     ScmBaseCharPort_construct((ScmBaseCharPort *)port, vptr, bport);
 
     port->codec = codec;
-    port->rbuf[0] = '\0';
+    port->rlen = 0;
     SCM_MBCPORT_CLEAR_STATE(port);
 }
 
@@ -161,8 +162,8 @@ ScmMultiByteCharPort_set_codec(ScmCharPort *cport, ScmCharCodec *codec)
     mbcport->codec = codec;
     SCM_MBCPORT_CLEAR_STATE(mbcport);
     /* only one byte can be preserved for new codec. otherwise cleared */
-    if (1 < strlen((char *)mbcport->rbuf))
-        mbcport->rbuf[0] = '\0';
+    if (1 < mbcport->rlen)
+        mbcport->rlen = 0;
 }
 
 static ScmCharPort *
@@ -197,7 +198,7 @@ mbcport_get_char(ScmMultiByteCharPort *port)
 #endif
 
     ch = mbcport_peek_char(port);
-    port->rbuf[0] = '\0';
+    port->rlen = 0;
 #if SCM_USE_STATEFUL_ENCODING
     SCM_MBCPORT_SET_STATE(port, next_state)
 #endif
@@ -254,16 +255,15 @@ mbcport_put_char(ScmMultiByteCharPort *port, scm_ichar_t ch)
 static ScmMultibyteCharInfo
 mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
 {
-    scm_byte_t *end;
     scm_ichar_t byte;
     ScmMultibyteString mbs;
     ScmMultibyteCharInfo mbc;
 
-    end = (scm_byte_t *)strchr((char *)port->rbuf, '\0');
+    port->rbuf[port->rlen] = '\0';
     SCM_MBS_SET_STATE(mbs, port->rstate);
     do {
         SCM_MBS_SET_STR(mbs, (char *)port->rbuf);
-        SCM_MBS_SET_SIZE(mbs, end - port->rbuf);
+        SCM_MBS_SET_SIZE(mbs, port->rlen);
 
         mbc = SCM_CHARCODEC_SCAN_CHAR(port->codec, mbs);
         SCM_MBCINFO_SET_STATE(mbc, SCM_MBS_GET_STATE(mbs));
@@ -278,14 +278,14 @@ mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
         byte = SCM_BYTEPORT_GET_BYTE(port->bport);
         if (byte == SCM_ICHAR_EOF) {
             SCM_MBCINFO_INIT(mbc);
-            port->rbuf[0] = '\0';
+            port->rlen = 0;
 #if HANDLE_MBC_START
             mbc->start = (char *)port->rbuf;
 #endif
             break;
         }
-        *end++ = byte;
-        *end = '\0';
+        port->rbuf[port->rlen++] = byte;
+        port->rbuf[port->rlen] = '\0';
     } while (blockp || SCM_BYTEPORT_BYTE_READYP(port->bport));
 
     return mbc;
-- 
2.43.0


From 6aeb7317f89cfa1d4c6ad16079610a8df90e8347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:18 +0000
Subject: [PATCH 22/59] fix: don't die on an error message about a char of
 another encoding

---
 src/format.c | 15 +++++++++++++++
 src/read.c   |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/src/format.c b/src/format.c
index 53a2956..7c8b99c 100644
--- a/src/format.c
+++ b/src/format.c
@@ -323,6 +323,9 @@ format_raw_c_directive(ScmObj port, format_string_t *fmt, va_list *args)
     int radix;
     scm_bool modifiedp;
     ScmValueFormat vfmt;
+#if SCM_USE_MULTIBYTE_CHAR
+    char mbcbuf[SCM_MB_CHAR_BUF_SIZE];
+#endif
     DECLARE_INTERNAL_FUNCTION("internal format");
 
     orig_fmt = *fmt;
@@ -333,6 +336,18 @@ format_raw_c_directive(ScmObj port, format_string_t *fmt, va_list *args)
     case 'C': /* Character */
         FORMAT_STR_SKIP_CHAR(*fmt);
         c = va_arg(*args, scm_ichar_t);
+#if SCM_USE_MULTIBYTE_CHAR
+        /* The char may come from a port of another encoding. Don't raise an
+         * error since this is used to make error messages. */
+        if (!SCM_CHARCODEC_INT2STR(scm_port_codec(port), mbcbuf, c,
+                                   SCM_MB_STATELESS))
+        {
+            scm_port_puts(port, "0x");
+            SCM_VALUE_FORMAT_INIT(vfmt);
+            format_int(port, vfmt, (uintmax_t)c, 16);
+            return 'x';
+        }
+#endif
         scm_port_put_char(port, c);
         return (c == '\0') ? ' ' : c;
 
diff --git a/src/read.c b/src/read.c
index 01aa3f3..293ff9c 100644
--- a/src/read.c
+++ b/src/read.c
@@ -904,6 +904,8 @@ read_string(ScmObj port)
                     }
                 }
             }
+            if (c == SCM_ICHAR_EOF)
+                ERR("EOF in string");
             ERR("invalid escape sequence in string: \\~C", c);
         found:
             break;
-- 
2.43.0


From e83f88842c5d132c98ada9d16951b01d8d8982f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:51 +0000
Subject: [PATCH 23/59] fix: reject a script prelude that names no interpreter

scm_interpret_argv() passed the NULL argv[0] to strcmp().
---
 src/load.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/load.c b/src/load.c
index 7b4ce67..5ad4833 100644
--- a/src/load.c
+++ b/src/load.c
@@ -382,6 +382,10 @@ parse_script_prelude(ScmObj port)
         argv = scm_realloc(argv, sizeof(char *) * (++argc + 1));
         argv[argc] = NULL;
     }
+    if (!argc) {
+        free(argv);
+        PLAIN_ERR("invalid UNIX script prelude: no interpreter specified");
+    }
 
     return argv;
 }
-- 
2.43.0


From fee317cbcde9c9aa797c02533191ea3f41d45fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:42 +0000
Subject: [PATCH 24/59] fix: check the system load path where the other options
 are checked

A relative path in a script prelude leaked the parsed argument list.
---
 src/sigscheme.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sigscheme.c b/src/sigscheme.c
index ec032ac..cf7c375 100644
--- a/src/sigscheme.c
+++ b/src/sigscheme.c
@@ -506,6 +506,8 @@ scm_interpret_argv(char **argv)
             sys_load_path = *++argp;
             if (!sys_load_path)
                 argv_err(argv, "no system load path specified");
+            if (sys_load_path[0] != '/')
+                argv_err(argv, "system load path must be absolute");
         } else {
             argv_err(argv, "invalid option");
         }
-- 
2.43.0


From cecb957c6f862e0f9adc177c9e7837b3be65954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:27 +0000
Subject: [PATCH 25/59] fix: register a required file under a feature name of
 the right length

The string object claimed one character more than it holds, so that
(provided? "*file-loaded*") was false for a file that had been required.
---
 src/module-sscm-ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module-sscm-ext.c b/src/module-sscm-ext.c
index 5a5a910..a6a486b 100644
--- a/src/module-sscm-ext.c
+++ b/src/module-sscm-ext.c
@@ -261,7 +261,7 @@ make_loaded_str(const char *filename)
     char *loaded_str;
     size_t size;
 
-    size = strlen(filename) + sizeof("*-loaded*") + 1 /* '\0' */;
+    size = strlen(filename) + sizeof("*-loaded*");
     loaded_str = scm_malloc(size);
     sprintf(loaded_str, "*%s-loaded*", filename);
 
-- 
2.43.0


From ef76c6cc2946a84995f07693659eb6bb15836039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:27 +0000
Subject: [PATCH 26/59] fix: let srfi-9 be loaded again after a load that
 failed midway

The second load took the already redefined vector? for the original one,
which made it call itself endlessly.
---
 lib/srfi-9.scm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/srfi-9.scm b/lib/srfi-9.scm
index 31570b5..3cd4d26 100644
--- a/lib/srfi-9.scm
+++ b/lib/srfi-9.scm
@@ -102,7 +102,8 @@
 
 (define record-marker (list 'record-marker))
 
-(define real-vector? vector?)
+; 'r5rs:vector?' is the original one even if this file is loaded again.
+(define real-vector? r5rs:vector?)
 
 (define (vector? x)
   (and (real-vector? x)
-- 
2.43.0


From 42549337232e599315df019b2653378451fe49d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 27/59] fix: load srfi-95 where array? or identity is already
 defined

symbol-value is a SIOD procedure, and array is no name of a predicate.
Loading again after a load that failed midway did not work for this reason.
---
 lib/srfi-95.scm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/srfi-95.scm b/lib/srfi-95.scm
index bfef58c..7cc04d6 100644
--- a/lib/srfi-95.scm
+++ b/lib/srfi-95.scm
@@ -29,11 +29,11 @@
 ;; For SigScheme
 (define array?
   (if (symbol-bound? 'array?)
-      (symbol-value 'array)
+      array?
       (lambda (x) #f)))
 (define identity
   (if (symbol-bound? 'identity)
-      (symbol-value 'identity)
+      identity
       (lambda (x) x)))
 
 ;;; (sorted? sequence less?)
-- 
2.43.0


From 784c38902d2767827b476e46d9335978526d68bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:58 +0000
Subject: [PATCH 28/59] fix: write ESC and DEL in strings as the reader
 requires

---
 src/port.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/port.c b/src/port.c
index 5eb99b2..36c8c22 100644
--- a/src/port.c
+++ b/src/port.c
@@ -82,7 +82,7 @@ SCM_EXPORT const ScmSpecialCharInfo scm_special_char_table[] = {
     /* control characters */
     {'\n',   "\\n",   "newline"},    /*  10, R5RS */
 #if SCM_USE_R6RS_NAMED_CHARS
-    {'\0',   "\\x00", "nul"},        /*   0 */
+    {'\0',   "\\x00;", "nul"},       /*   0 */
     {'\a',   "\\a",   "alarm"},      /*   7 */
     {'\b',   "\\b",   "backspace"},  /*   8 */
     {'\t',   "\\t",   "tab"},        /*   9 */
@@ -90,8 +90,8 @@ SCM_EXPORT const ScmSpecialCharInfo scm_special_char_table[] = {
     {'\v',   "\\v",   "vtab"},       /*  11 */
     {'\f',   "\\f",   "page"},       /*  12 */
     {'\r',   "\\r",   "return"},     /*  13 */
-    {0x1b,   "\\x1b", "esc"},        /*  27 */
-    {0x7f,   "\\x7f", "delete"},     /* 127 */
+    {0x1b,   "\\x1b;", "esc"},       /*  27 */
+    {0x7f,   "\\x7f;", "delete"},    /* 127 */
 #endif /* SCM_USE_R6RS_NAMED_CHARS */
     {0, NULL, NULL}
 };
-- 
2.43.0


From 7995acc6e2c7e49f32e10524dd08696d6d13cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 29/59] fix: go on behind a broken multibyte character of an
 input port

---
 src/scmport-mbchar.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scmport-mbchar.c b/src/scmport-mbchar.c
index 96098f5..611fd56 100644
--- a/src/scmport-mbchar.c
+++ b/src/scmport-mbchar.c
@@ -268,8 +268,10 @@ mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
         mbc = SCM_CHARCODEC_SCAN_CHAR(port->codec, mbs);
         SCM_MBCINFO_SET_STATE(mbc, SCM_MBS_GET_STATE(mbs));
 
-        if (SCM_MBCINFO_ERRORP(mbc))
+        if (SCM_MBCINFO_ERRORP(mbc)) {
+            port->rlen = 0; /* allow to go on behind the broken character */
             SCM_CHARPORT_ERROR(port, "ScmMultibyteCharPort: broken character");
+        }
         if (!SCM_MBCINFO_INCOMPLETEP(mbc) && SCM_MBCINFO_GET_SIZE(mbc))
             break;
         if (SCM_MBS_GET_SIZE(mbs) == SCM_MB_MAX_LEN)
-- 
2.43.0


From 8aff50f64d65e34b896302348ef5abcaad721a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 30/59] fix: go on with the next line after a parse error in
 the REPL

---
 src/main.c | 55 +++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/main.c b/src/main.c
index d510b9e..57aac0f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -107,6 +107,9 @@ static struct g_sscm sscm;
 =======================================*/
 static void *repl(void *dummy);
 static void repl_loop(void);
+#if SCM_USE_SRFI34
+static void discard_line(ScmObj proc_read_char);
+#endif
 static scm_bool show_promptp(void);
 
 /*=======================================
@@ -125,11 +128,11 @@ repl_loop(void)
     ScmObj sexp, result;
 #if SCM_USE_SRFI34
     ScmEvalState eval_state;
-    ScmBaseCharPort *cport;
-    ScmBytePort *bport;
-    ScmObj cond_catch, proc_read, proc_eval, err;
+    ScmObj cond_catch, proc_read, proc_read_char, proc_eval, err;
 
     proc_read = scm_symbol_value(scm_intern("read"), SCM_INTERACTION_ENV);
+    proc_read_char = scm_symbol_value(scm_intern("read-char"),
+                                      SCM_INTERACTION_ENV);
     proc_eval = scm_symbol_value(scm_intern("eval"), SCM_INTERACTION_ENV);
     err = CONS(SCM_UNDEF, SCM_UNDEF); /* unique ID */
 
@@ -158,16 +161,8 @@ repl_loop(void)
 
         /* parse error */
         if (EQ(sexp, err)) {
-            cport = SCM_CHARPORT_DYNAMIC_CAST(ScmBaseCharPort,
-                                              SCM_PORT_IMPL(scm_in));
-            if (cport) {
-                bport = cport->bport;
-                /* discard all available input */
-                while (SCM_BYTEPORT_BYTE_READYP(bport))
-                    SCM_BYTEPORT_GET_BYTE(bport);
-                continue;
-            }
-            PLAIN_ERR("unrecoverable parse error");
+            discard_line(proc_read_char);
+            continue;
         }
 
         /*
@@ -206,6 +201,40 @@ repl_loop(void)
     }
 }
 
+#if SCM_USE_SRFI34
+/* Discards the rest of the current input line. An error of the port itself
+ * (not of a character read from it) is not recoverable. */
+static void
+discard_line(ScmObj proc_read_char)
+{
+    ScmObj c, err, cond_catch;
+    ScmEvalState eval_state;
+    ScmBaseCharPort *cport;
+
+    err = CONS(SCM_UNDEF, SCM_UNDEF); /* unique ID */
+    /* (err (else '#<err>)) */
+    cond_catch = LIST_2(scm_intern("err"),
+                        LIST_2(scm_intern("else"),
+                               LIST_2(SCM_SYM_QUOTE, err)));
+    do {
+        SCM_EVAL_STATE_INIT1(eval_state, SCM_INTERACTION_ENV);
+        c = scm_s_srfi34_guard(cond_catch,
+                               LIST_1(LIST_2(proc_read_char, scm_in)),
+                               &eval_state);
+        c = SCM_FINISH_TAILREC_CALL(c, &eval_state);
+        if (EQ(c, err)) {
+            cport = (SCM_PORT_IMPL(scm_in))
+                ? SCM_CHARPORT_DYNAMIC_CAST(ScmBaseCharPort,
+                                            SCM_PORT_IMPL(scm_in))
+                : NULL;
+            if (!cport)
+                PLAIN_ERR("unrecoverable parse error");
+            SCM_BYTEPORT_PEEK_BYTE(cport->bport);
+        }
+    } while (!EOFP(c) && !(CHARP(c) && SCM_CHAR_VALUE(c) == '\n'));
+}
+#endif /* SCM_USE_SRFI34 */
+
 static scm_bool
 show_promptp(void)
 {
-- 
2.43.0


From 21a043918521804da9a8feaa445f2a64285cfec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 31/59] fix: don't consume a broken multibyte character by
 peek-char

---
 src/scmport-mbchar.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/scmport-mbchar.c b/src/scmport-mbchar.c
index 611fd56..2a483f4 100644
--- a/src/scmport-mbchar.c
+++ b/src/scmport-mbchar.c
@@ -90,7 +90,10 @@ static scm_bool mbcport_char_readyp(ScmMultiByteCharPort *port);
 static void mbcport_put_char(ScmMultiByteCharPort *port, scm_ichar_t ch);
 
 static ScmMultibyteCharInfo mbcport_fill_rbuf(ScmMultiByteCharPort *port,
-                                              scm_bool blockp);
+                                              scm_bool blockp,
+                                              scm_bool consumep);
+static scm_ichar_t mbcport_scan_char(ScmMultiByteCharPort *port,
+                                     scm_bool consumep);
 
 /*=======================================
   Variable Definitions
@@ -193,11 +196,11 @@ mbcport_get_char(ScmMultiByteCharPort *port)
     ScmMultibyteCharInfo mbc;
     ScmMultibyteState next_state;
 
-    mbc = mbcport_fill_rbuf(port, scm_true);
+    mbc = mbcport_fill_rbuf(port, scm_true, scm_true);
     next_state = SCM_MBCINFO_GET_STATE(mbc);
 #endif
 
-    ch = mbcport_peek_char(port);
+    ch = mbcport_scan_char(port, scm_true);
     port->rlen = 0;
 #if SCM_USE_STATEFUL_ENCODING
     SCM_MBCPORT_SET_STATE(port, next_state)
@@ -212,12 +215,18 @@ mbcport_get_char(ScmMultiByteCharPort *port)
 
 static scm_ichar_t
 mbcport_peek_char(ScmMultiByteCharPort *port)
+{
+    return mbcport_scan_char(port, scm_false);
+}
+
+static scm_ichar_t
+mbcport_scan_char(ScmMultiByteCharPort *port, scm_bool consumep)
 {
     ScmMultibyteCharInfo mbc;
     size_t size;
     scm_ichar_t ch;
 
-    mbc = mbcport_fill_rbuf(port, scm_true);
+    mbc = mbcport_fill_rbuf(port, scm_true, consumep);
     size = SCM_MBCINFO_GET_SIZE(mbc);
     if (size)
         ch = SCM_CHARCODEC_STR2INT(port->codec, (char *)port->rbuf, size,
@@ -233,7 +242,7 @@ mbcport_char_readyp(ScmMultiByteCharPort *port)
 {
     ScmMultibyteCharInfo mbc;
 
-    mbc = mbcport_fill_rbuf(port, scm_false);
+    mbc = mbcport_fill_rbuf(port, scm_false, scm_false);
     return !SCM_MBCINFO_INCOMPLETEP(mbc);
 }
 
@@ -253,7 +262,8 @@ mbcport_put_char(ScmMultiByteCharPort *port, scm_ichar_t ch)
 }
 
 static ScmMultibyteCharInfo
-mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
+mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp,
+                  scm_bool consumep)
 {
     scm_ichar_t byte;
     ScmMultibyteString mbs;
@@ -269,7 +279,8 @@ mbcport_fill_rbuf(ScmMultiByteCharPort *port, scm_bool blockp)
         SCM_MBCINFO_SET_STATE(mbc, SCM_MBS_GET_STATE(mbs));
 
         if (SCM_MBCINFO_ERRORP(mbc)) {
-            port->rlen = 0; /* allow to go on behind the broken character */
+            if (consumep)
+                port->rlen = 0; /* go on behind the broken character */
             SCM_CHARPORT_ERROR(port, "ScmMultibyteCharPort: broken character");
         }
         if (!SCM_MBCINFO_INCOMPLETEP(mbc) && SCM_MBCINFO_GET_SIZE(mbc))
-- 
2.43.0


From f5dcd9e9a72c09a8cafd596442b0043a51ca1bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 32/59] fix: don't end the REPL when its result cannot be
 printed

---
 src/main.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 57aac0f..41b9d82 100644
--- a/src/main.c
+++ b/src/main.c
@@ -108,6 +108,7 @@ static struct g_sscm sscm;
 static void *repl(void *dummy);
 static void repl_loop(void);
 #if SCM_USE_SRFI34
+static ScmObj print_result(ScmObj args, ScmObj env);
 static void discard_line(ScmObj proc_read_char);
 #endif
 static scm_bool show_promptp(void);
@@ -128,12 +129,14 @@ repl_loop(void)
     ScmObj sexp, result;
 #if SCM_USE_SRFI34
     ScmEvalState eval_state;
-    ScmObj cond_catch, proc_read, proc_read_char, proc_eval, err;
+    ScmObj cond_catch, proc_read, proc_read_char, proc_eval, syn_print, err;
 
     proc_read = scm_symbol_value(scm_intern("read"), SCM_INTERACTION_ENV);
     proc_read_char = scm_symbol_value(scm_intern("read-char"),
                                       SCM_INTERACTION_ENV);
     proc_eval = scm_symbol_value(scm_intern("eval"), SCM_INTERACTION_ENV);
+    /* a syntax, since the result may be multiple values */
+    syn_print = MAKE_FUNC(SCM_SYNTAX_VARIADIC_0, (ScmFuncType)&print_result);
     err = CONS(SCM_UNDEF, SCM_UNDEF); /* unique ID */
 
     /* prepare the constant part of the form to get the loop fast */
@@ -186,8 +189,13 @@ repl_loop(void)
         result = SCM_FINISH_TAILREC_CALL(result, &eval_state);
 
         if (!EQ(result, err)) {
-            SCM_WRITE_SS(scm_out, result);
-            scm_port_newline(scm_out);
+            /* error-proof print: the result may have a character that cannot
+             * be represented in the encoding of the port */
+            SCM_EVAL_STATE_INIT1(eval_state, SCM_INTERACTION_ENV);
+            result = scm_s_srfi34_guard(cond_catch,
+                                        LIST_1(LIST_2(syn_print, result)),
+                                        &eval_state);
+            result = SCM_FINISH_TAILREC_CALL(result, &eval_state);
         }
 #else /* SCM_USE_SRFI34 */
         sexp = scm_read(scm_in);
@@ -202,6 +210,15 @@ repl_loop(void)
 }
 
 #if SCM_USE_SRFI34
+static ScmObj
+print_result(ScmObj args, ScmObj env)
+{
+    SCM_WRITE_SS(scm_out, CAR(args));
+    scm_port_newline(scm_out);
+
+    return SCM_UNDEF;
+}
+
 /* Discards the rest of the current input line. An error of the port itself
  * (not of a character read from it) is not recoverable. */
 static void
-- 
2.43.0


From 4b2354c95e543e01cb93b92a0c979907664149ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 33/59] fix: keep the tail behind an ellipsis in macro
 templates

---
 src/macro.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 0932246..51be9f2 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -458,6 +458,8 @@ compile_rec(compilation_context *ctx, ScmObj form, scm_int_t level)
                     ERR_OBJ("constant repeatable subtemplate", form);
                 if (CONSP(rest))
                     goto restart;
+                if (!NULLP(rest))
+                    SCM_QUEUE_SLOPPY_APPEND(q, compile_rec(ctx, rest, level));
                 return out;
             } else {
                 SCM_QUEUE_ADD(q, compile_rec(ctx, obj, level));
-- 
2.43.0


From fcac7be9b441d46c257d69cee08f9edb1a5d4dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 34/59] fix: don't crash on ellipses of different nested
 lengths

---
 src/macro.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 51be9f2..96b7bab 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -963,8 +963,9 @@ transcribe_rec(transcription_context *ctx, ScmObj template, ScmObj sub,
                 DBG_PRINT((DBG_TRANSCRIPTOR, "ref (~MD) ; ~s\n",
                            ctx->indices[i], sub));
                 sub = scm_list_tail(sub, ctx->indices[i]);
-                SCM_ASSERT(VALIDP(sub));
-                if (NULLP(sub)) {
+                /* already passed the end if another pvar of this subtemplate
+                 * was exhausted at a deeper level before this one is seen */
+                if (!VALIDP(sub) || NULLP(sub)) {
                     ret.msg = MSG_PVAR_EXHAUSTED;
                     ret.u.exhausted_level = i;
                     return ret;
-- 
2.43.0


From 2a7da1db0b7968ce30697af3dbbdc2e73b4a558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 35/59] fix: assign variables that a macro template names

---
 src/syntax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index e2f48d2..1696824 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -249,7 +249,7 @@ scm_s_setx(ScmObj sym, ScmObj exp, ScmObj env)
     ScmRef locally_bound;
     DECLARE_FUNCTION("set!", syntax_fixed_2);
 
-    ENSURE_SYMBOL(sym);
+    ENSURE_IDENTIFIER(sym);
 
     evaled = EVAL(exp, env);
     CHECK_VALID_EVALED_VALUE(evaled);
@@ -257,6 +257,7 @@ scm_s_setx(ScmObj sym, ScmObj exp, ScmObj env)
     if (locally_bound != SCM_INVALID_REF) {
         SET(locally_bound, evaled);
     } else {
+        sym = SCM_UNWRAP_KEYWORD(sym);
         if (!SCM_SYMBOL_BOUNDP(sym))
             ERR_OBJ("unbound variable", sym);
 
-- 
2.43.0


From ed849d12ff1da09b6491862f1668deb561691b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 36/59] fix: let macro templates bind the variables of do

---
 src/syntax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index 1696824..7cbc337 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -869,7 +869,7 @@ scm_s_do(ScmObj bindings, ScmObj test_exps, ScmObj commands,
         if (!CONSP(binding))
             goto err;
         var  = POP(binding);
-        ENSURE_SYMBOL(var);
+        ENSURE_IDENTIFIER(var);
 #if SCM_STRICT_ARGCHECK
         /* Optional check. Keeping variable name unique is user's
          * responsibility. R5RS: "It is an error for a <variable> to appear
-- 
2.43.0


From 435e72964a7816dc9a6110ec3e1a925ad0c2a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 37/59] fix: compare macro literals with identifiers from local
 scopes

---
 src/env.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/env.c b/src/env.c
index 62f9780..988b9b6 100644
--- a/src/env.c
+++ b/src/env.c
@@ -169,23 +169,19 @@ SCM_EXPORT scm_bool
 scm_identifierequalp(ScmObj x, ScmPackedEnv xpenv,
                      ScmObj y, ScmPackedEnv penv, ScmObj env)
 {
-    ScmRef yloc;
+    ScmRef xloc, yloc;
 
     SCM_ASSERT(xpenv <= penv);
     SCM_ASSERT(SCM_PENV_EQ(scm_pack_env(env), penv));
 
-    while (penv-- > xpenv) {
-        if (scm_lookup_frame(y, CAR(env)) != SCM_INVALID_REF)
-            return scm_false;
-        env = CDR(env);
-    }
-    if (EQ(x, y))
-        return scm_true;
+    /* Y may have been captured in a frame newer than XPENV. */
     yloc = scm_lookup_environment(y, env);
-    if (yloc != SCM_INVALID_REF)
-        return (scm_lookup_environment(x, env) == yloc);
-    if (scm_lookup_environment(x, env) != SCM_INVALID_REF)
-        return scm_false;
+    while (penv-- > xpenv)
+        env = CDR(env);
+    xloc = scm_lookup_environment(x, env);
+
+    if (xloc != SCM_INVALID_REF || yloc != SCM_INVALID_REF)
+        return (xloc == yloc);
     return EQ(SCM_UNWRAP_KEYWORD(x), SCM_UNWRAP_KEYWORD(y));
 }
 
-- 
2.43.0


From 5525500e7fb8b6512bc3985e3c91487fa7928831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 38/59] fix: recognize else and => in the expansion of macros

---
 src/syntax.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index 7cbc337..b81c7e0 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -314,10 +314,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
         test = CAR(clause);
         exps = CDR(clause);
 
-#if 0
-        test = SCM_UNWRAP_SYNTAX(test);  /* FIXME: needed? */
-#endif
-        if (EQ(test, l_sym_else)) {
+        if (EQ(SCM_UNWRAP_KEYWORD(test), l_sym_else)) {
             ASSERT_NO_MORE_ARG(clauses);
             return scm_s_begin(exps, eval_state);
         }
@@ -342,7 +339,9 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
              * of the <test> and the value returned by this procedure is
              * returned by the cond expression.
              */
-            if (LIST_2_P(exps) && EQ(l_sym_yields, CAR(exps))) {
+            if (LIST_2_P(exps)
+                && EQ(l_sym_yields, SCM_UNWRAP_KEYWORD(CAR(exps))))
+            {
                 proc = EVAL(CADR(exps), env);
                 if (!PROCEDUREP(proc))
                     ERR_OBJ("exp after => must be a procedure but got", proc);
-- 
2.43.0


From c1ab3b9807c0f7b5b7cec9d01d4403c1b3aa833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 39/59] fix: recognize internal definitions in the expansion of
 macros

---
 src/syntax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/syntax.c b/src/syntax.c
index b81c7e0..8517b9b 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -722,6 +722,7 @@ filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
         if (!CONSP(exp))
             break;
         sym = POP(exp);
+        sym = SCM_UNWRAP_KEYWORD(sym);
         if (EQ(sym, l_sym_begin)) {
             begin_rest = filter_definitions(exp, formals, actuals, def_expq);
             if (!NULLP(begin_rest)) {
@@ -745,7 +746,7 @@ filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
                 lambda_formals = CDR(var);
                 lambda_body    = exp;
 
-                ENSURE_SYMBOL(sym);
+                ENSURE_IDENTIFIER(sym);
                 var = sym;
                 exp = CONS(l_syn_lambda, CONS(lambda_formals, lambda_body));
             } else {
-- 
2.43.0


From e5dbfdbdc9a961aee9178c99255f5f199fa67d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 40/59] fix: allow hygienic macros to expand to toplevel
 definitions

---
 src/eval.c   | 14 +++++++++++++-
 src/syntax.c |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index e437abb..32ac60b 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -285,9 +285,21 @@ call(ScmObj proc, ScmObj args, ScmEvalState *eval_state,
         }
 #if SCM_USE_HYGIENIC_MACRO
         if (HMACROP(proc)) {
+#if SCM_STRICT_TOPLEVEL_DEFINITIONS
+            scm_bool toplevelp;
+
+            toplevelp = SCM_DEFINABLE_TOPLEVELP(eval_state);
+#endif
             if (!need_eval)
                 ERR_OBJ("can't apply/map a macro", proc);
-            return scm_expand_macro(proc, args, eval_state);
+            args = scm_expand_macro(proc, args, eval_state);
+#if SCM_STRICT_TOPLEVEL_DEFINITIONS
+            /* Workaround to allow toplevel definitions by the returned
+             * form. See scm_eval(). */
+            if (toplevelp)
+                eval_state->nest = SCM_NEST_RETTYPE_BEGIN;
+#endif
+            return args;
         }
 #endif
         /* Since scm_values_applier is a continuation, this block must precedes
diff --git a/src/syntax.c b/src/syntax.c
index 8517b9b..cdf629d 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -1012,7 +1012,7 @@ scm_s_define(ScmObj var, ScmObj rest, ScmEvalState *eval_state)
         formals  = CDR(var);
         body     = rest;
 
-        ENSURE_SYMBOL(procname);
+        ENSURE_IDENTIFIER(procname);
         proc = scm_s_lambda(formals, body, env);
         scm_s_define_internal(ScmFirstClassObj, procname, proc, env);
     } else {
-- 
2.43.0


From a15ee2c7ebef92589d56af54f9340b4b37dccf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 41/59] fix: give applied procedures their own argument list

apply passed its last argument itself as the actual argument list. Since
variables are bound to the cells of that list, assigning a parameter altered
the caller's list or a quoted constant of the program.
---
 src/eval.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 32ac60b..360a61a 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -786,20 +786,27 @@ scm_p_apply(ScmObj proc, ScmObj arg0, ScmObj rest, ScmEvalState *eval_state)
     ScmObj args, arg, last;
     DECLARE_FUNCTION("apply", procedure_variadic_tailrec_2);
 
+    args = SCM_NULL;
+    SCM_QUEUE_POINT_TO(q, args);
     if (NULLP(rest)) {
-        args = last = arg0;
+        last = arg0;
     } else {
         /* More than one argument given. */
-        args = LIST_1(arg0);
-        q = REF_CDR(args);
+        SCM_QUEUE_ADD(q, arg0);
         FOR_EACH_BUTLAST (arg, rest)
             SCM_QUEUE_ADD(q, arg);
-        /* The last one is spliced. */
-        SCM_QUEUE_SLOPPY_APPEND(q, arg);
         last = arg;
     }
 
     ENSURE_LIST(last);
+    if (!PROPER_LISTP(last))
+        ERR_OBJ("proper list required but got", last);
+
+    /* The last one is spliced. It is copied since the actual arguments belong
+     * to the callee: its variables are bound to the cells of the list, and
+     * its rest argument must be newly allocated. */
+    FOR_EACH (arg, last)
+        SCM_QUEUE_ADD(q, arg);
 
     /* Since any tail recursive procedures called here return a tail expression
      * with SCM_VALTYPE_NEED_EVAL, evaluate such proc with call() does not
-- 
2.43.0


From 138d0215590b5726cce0cb01eb9d847a6d04e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 42/59] fix: keep the source form unaltered by legacy macros

The variables of a define-macro transformer were bound to the cells of the
macro use itself, so that assigning a parameter altered the program.
---
 src/eval.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 360a61a..dac197f 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -261,6 +261,12 @@ call(ScmObj proc, ScmObj args, ScmEvalState *eval_state,
 
                 toplevelp = SCM_DEFINABLE_TOPLEVELP(eval_state);
 
+                /* The variables of the transformer are bound to the cells of
+                 * args. Copy it to keep the source form unaltered. Improper
+                 * args is rejected by call_closure(). */
+                if (PROPER_LISTP(args))
+                    args = scm_p_append(LIST_2(args, SCM_NULL));
+
                 ret = call_closure(proc, args, eval_state, SCM_VALTYPE_AS_IS);
                 /* eval the result into an as-is object */
                 ret = SCM_FINISH_TAILREC_CALL(ret, eval_state);
-- 
2.43.0


From 979552afa89018e796ab4c2614a8819c4f1e72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 43/59] fix: accept the trail byte 0x7E of Shift_JIS and reject
 what it cannot represent

---
 src/encoding.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/encoding.c b/src/encoding.c
index d797963..7bbf81b 100644
--- a/src/encoding.c
+++ b/src/encoding.c
@@ -918,7 +918,7 @@ utf8_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
     && !IS_KANA(c)        \
     && (uchar)(c) <= 0xFC \
     && (uchar)(c) != 0xA0)
-#define IS_TRAIL(c) (0x40 <= (uchar)(c) && (uchar)(c) <= 0xFC && (c) != 0x7E)
+#define IS_TRAIL(c) (0x40 <= (uchar)(c) && (uchar)(c) <= 0xFC && (uchar)(c) != 0x7F)
 
 static const char *
 sjis_encoding(void)
@@ -980,11 +980,15 @@ sjis_int2str(uchar *dst, scm_ichar_t ch, ScmMultibyteState state)
 
     if (IS_LEAD(high)) {
 #if SCM_STRICT_ENCODING_CHECK
-        if (!IS_TRAIL(high))
+        if (!IS_TRAIL(low))
             return NULL;
 #endif
         *dst++ = high;
     }
+#if SCM_STRICT_ENCODING_CHECK
+    else if (high)
+        return NULL;
+#endif
     *dst++ = low;
     *dst = '\0';
 
-- 
2.43.0


From c8d050171e888cc62b226f0d8154b681e2740d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 44/59] fix: keep what is provided independent of the string
 that named it

---
 src/module.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module.c b/src/module.c
index 040e22f..52ec7bf 100644
--- a/src/module.c
+++ b/src/module.c
@@ -173,6 +173,9 @@ scm_provide(ScmObj feature)
 {
     SCM_ASSERT(STRINGP(feature));
 
+    /* feature may be altered by its owner afterwards */
+    feature = scm_p_string_copy(feature);
+
     l_features = CONS(feature, l_features);
     l_provided_modules = CONS(feature, l_provided_modules);
 }
-- 
2.43.0


From c131753181553d333394403df6f8d6aeb8aea57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 45/59] fix: reject characters a string cannot hold instead of
 corrupting it

list->string wrote through NULL for a character that the current encoding
cannot represent, and list->string, string-set! and string-fill! accepted
a null character, which left the string shorter than its length.
---
 src/string-procedure.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/string-procedure.c b/src/string-procedure.c
index a3a111d..d468ca7 100644
--- a/src/string-procedure.c
+++ b/src/string-procedure.c
@@ -213,6 +213,10 @@ scm_p_string_setx(ScmObj str, ScmObj k, ScmObj ch)
     c_str = SCM_STRING_STR(str);
     if (idx < 0 || SCM_STRING_LEN(str) <= idx)
         ERR_OBJ("index out of range", k);
+#if !SCM_USE_NULL_CAPABLE_STRING
+    if (SCM_CHAR_VALUE(ch) == '\0')
+        ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 
 #if SCM_USE_MULTIBYTE_CHAR
     /* point at the char that to be replaced */
@@ -501,6 +505,8 @@ scm_p_list2string(ScmObj lst)
     char *str, *dst;
 #if SCM_USE_MULTIBYTE_CHAR
     scm_ichar_t ch_val;
+    const char *ch_end;
+    char ch_buf[SCM_MB_CHAR_BUF_SIZE];
 #endif
     DECLARE_FUNCTION("list->string", procedure_fixed_1);
 
@@ -523,9 +529,20 @@ scm_p_list2string(ScmObj lst)
     len = 0;
     FOR_EACH (ch, rest) {
         ENSURE_CHAR(ch);
+        /* raise all errors here, before the string is allocated */
+#if !SCM_USE_NULL_CAPABLE_STRING
+        if (SCM_CHAR_VALUE(ch) == '\0')
+            ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 #if SCM_USE_MULTIBYTE_CHAR
         ch_val = SCM_CHAR_VALUE(ch);
-        str_size += SCM_CHARCODEC_CHAR_LEN(scm_current_char_codec, ch_val);
+        ch_end = SCM_CHARCODEC_INT2STR(scm_current_char_codec, ch_buf, ch_val,
+                                       SCM_MB_STATELESS);
+        if (!ch_end)
+            ERR("invalid char 0x~MX for encoding ~S",
+                (scm_int_t)ch_val,
+                SCM_CHARCODEC_ENCODING(scm_current_char_codec));
+        str_size += ch_end - ch_buf;
 #else
         str_size++;
 #endif
@@ -535,10 +552,6 @@ scm_p_list2string(ScmObj lst)
 
     dst = str = scm_malloc(str_size);
     FOR_EACH (ch, lst) {
-#if !SCM_USE_NULL_CAPABLE_STRING
-        if (ch == '\0')
-            ERR(SCM_ERRMSG_NULL_IN_STRING);
-#endif
 #if SCM_USE_MULTIBYTE_CHAR
         dst = SCM_CHARCODEC_INT2STR(scm_current_char_codec, dst,
                                     SCM_CHAR_VALUE(ch), SCM_MB_STATELESS);
@@ -575,6 +588,10 @@ scm_p_string_fillx(ScmObj str, ScmObj ch)
     ENSURE_STRING(str);
     ENSURE_MUTABLE_STRING(str);
     ENSURE_CHAR(ch);
+#if !SCM_USE_NULL_CAPABLE_STRING
+    if (SCM_CHAR_VALUE(ch) == '\0')
+        ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
 
     str_len = SCM_STRING_LEN(str);
     if (str_len == 0)
-- 
2.43.0


From 4e8ba3f7859b1d952505a4759d863a7731f3140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 46/59] fix: reject character literals that are cut off or
 begin with a wide character

#\ at the end of the input gave a character object of the code -1, and of
the first character of a longer literal only the low byte was looked at, so
that #\<U+3078>41 was read as #\A.
---
 src/read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read.c b/src/read.c
index 293ff9c..8a8bd99 100644
--- a/src/read.c
+++ b/src/read.c
@@ -799,6 +799,8 @@ read_char(ScmObj port)
 
     /* raw char (multibyte-ready) */
     c = scm_port_get_char(port);
+    if (c == SCM_ICHAR_EOF)
+        ERR("EOF in character literal");
     next = scm_port_peek_char(port);
     if (ICHAR_ASCII_CLASS(next) & SCM_CH_DELIMITER || next == SCM_ICHAR_EOF) {
 #if !SCM_USE_R6RS_CHARS
@@ -808,6 +810,8 @@ read_char(ScmObj port)
         return MAKE_CHAR(c);
     }
 
+    if (!ICHAR_ASCIIP(c))
+        ERR("invalid character literal");
     buf[0] = c;
     len = read_token(port, &err, &buf[1], sizeof(buf) - 1, SCM_CH_DELIMITER);
     if (err == TOKEN_BUF_EXCEEDED)
-- 
2.43.0


From c300e086743e44f50cd02bd155f6511976c86340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 47/59] fix: reject the null character written as a hex escape
 in a string literal

---
 src/read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read.c b/src/read.c
index 8a8bd99..325d3e3 100644
--- a/src/read.c
+++ b/src/read.c
@@ -894,6 +894,10 @@ read_string(ScmObj port)
                 c = scm_port_get_char(port);
                 if (c != ';')
                     ERR("inline hex escape must be followed by ';'");
+#if !SCM_USE_NULL_CAPABLE_STRING
+                if (!LBUF_BUF(lbuf)[offset])
+                    ERR(SCM_ERRMSG_NULL_IN_STRING);
+#endif
                 goto found;
             } else
 #endif
-- 
2.43.0


From fe0a2d7b44c2eabf3918c391a8de7ff742fb8c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 48/59] fix: keep a continuation callable by the after thunks
 of the escape to it

The destination of an escape was invalidated before the after thunks on the
way were called, although it is still their ancestor (see doc/spec.txt). So
what they raise was not caught by the guard being escaped to, but ended in
an "expired continuation" error outside of it.
---
 src/continuation.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/continuation.c b/src/continuation.c
index a6dd146..683b47b 100644
--- a/src/continuation.c
+++ b/src/continuation.c
@@ -110,6 +110,7 @@ static void initialize_continuation_env(void);
 static void finalize_continuation_env(void);
 static void continuation_stack_push(ScmObj cont);
 static ScmObj continuation_stack_pop(void);
+static ScmObj continuation_stack_unwind_descendants(ScmObj dest_cont);
 static ScmObj continuation_stack_unwind(ScmObj dest_cont);
 
 /*=======================================
@@ -248,6 +249,22 @@ continuation_stack_pop(void)
     return NULLP(l_continuation_stack) ? SCM_FALSE : POP(l_continuation_stack);
 }
 
+/* expire all descendant continuations of dest_cont */
+static ScmObj
+continuation_stack_unwind_descendants(ScmObj dest_cont)
+{
+    ScmObj cont;
+
+    while (!NULLP(l_continuation_stack)) {
+        if (EQ(CAR(l_continuation_stack), dest_cont))
+            return dest_cont;
+        cont = continuation_stack_pop();
+        CONTINUATION_SET_FRAME(cont, INVALID_CONTINUATION_OPAQUE);
+    }
+
+    return SCM_FALSE;
+}
+
 /* expire all descendant continuations and dest_cont */
 static ScmObj
 continuation_stack_unwind(ScmObj dest_cont)
@@ -333,13 +350,18 @@ scm_call_continuation(ScmObj cont, ScmObj ret)
 
     if (frame != INVALID_CONTINUATION_OPAQUE
 #if SCM_NESTED_CONTINUATION_ONLY
-        && (dst = continuation_stack_unwind(cont), CONTINUATIONP(dst))
+        && (dst = continuation_stack_unwind_descendants(cont),
+            CONTINUATIONP(dst))
 #endif
         )
     {
-        /* Don't refer cont because it may already be invalidated by
-         * continuation_stack_unwind(). */
+        /* The 'after' thunks are called inside the extent of cont: they may
+         * call it again, and so does a 'guard' that catches what they raise.
+         */
         exit_dynamic_extent(frame->dyn_ext);
+#if SCM_NESTED_CONTINUATION_ONLY
+        continuation_stack_unwind(cont);
+#endif
 
         frame->ret_val = ret;
         LONGJMP(frame->c_env, scm_true);
-- 
2.43.0


From d7770c24c5e4e6e1af583abeedf6e78140854d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 49/59] fix: free the port description when writing a port
 fails

---
 src/write.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/write.c b/src/write.c
index 410bc47..a242000 100644
--- a/src/write.c
+++ b/src/write.c
@@ -539,6 +539,7 @@ static void
 write_port(ScmObj port, ScmObj obj, enum ScmOutputType otype)
 {
     char *info;
+    ScmObj owner;
 
     scm_port_puts(port, "#<");
 
@@ -553,11 +554,13 @@ write_port(ScmObj port, ScmObj obj, enum ScmOutputType otype)
     /* file or string. A closed port has no impl to be inspected. */
     if (SCM_PORT_IMPL(obj)) {
         info = scm_port_inspect(obj);
+        /* the string owns info, to be freed also if the output fails */
+        owner = MAKE_STRING(info, 0);
         if (*info) {
             scm_port_put_char(port, ' ');
             scm_port_puts(port, info);
         }
-        free(info);
+        SCM_GC_KEEP_ALIVE(owner);
     } else {
         scm_port_puts(port, " closed");
     }
-- 
2.43.0


From fe28042f4819fb1a600ba9670a38b415f61d2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 50/59] fix: free the formatted number when writing it fails

---
 src/format.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/format.c b/src/format.c
index 7c8b99c..59193ad 100644
--- a/src/format.c
+++ b/src/format.c
@@ -61,6 +61,7 @@
 
 #include <config.h>
 
+#include <limits.h>
 #include <stddef.h>
 #include <stdlib.h>
 #include <stdarg.h>
@@ -300,11 +301,13 @@ read_number_prefix(enum ScmFormatCapability fcap, format_string_t *fmt)
 static void
 format_int(ScmObj port, ScmValueFormat vfmt, uintmax_t n, int radix)
 {
-    char *str;
+    char *str, buf[SCHAR_MAX + sizeof("-") + sizeof(uintmax_t) * CHAR_BIT];
 
+    /* An output error must not leak str. */
     str = scm_int2string(vfmt, n, radix);
-    scm_port_puts(port, str);
+    strcpy(buf, str);
     free(str);
+    scm_port_puts(port, buf);
 }
 
 #if SCM_USE_RAW_C_FORMAT
-- 
2.43.0


From 4fdc3c0699d64b781d54ab1f5f0bcf3a8e069a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 51/59] fix: do not pass evaluated objects through the quote
 syntax

---
 src/module-srfi34.c     |  5 +++--
 src/module-srfi43.c     |  3 ++-
 src/module-srfi9.c      |  2 +-
 src/sigschemeinternal.h |  1 +
 src/syntax.c            | 25 ++++++++++++++++++++++++-
 5 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/module-srfi34.c b/src/module-srfi34.c
index e773f70..4e1b452 100644
--- a/src/module-srfi34.c
+++ b/src/module-srfi34.c
@@ -310,7 +310,7 @@ scm_p_srfi34_raise(ScmObj obj)
 
     handler = CAR(l_current_exception_handlers);
     rest_handlers = CDR(l_current_exception_handlers);
-    obj = LIST_2(SYM_QUOTE, obj);
+    obj = LIST_2(l_syn_raw_quote, obj);
     thunk = scm_s_lambda(SCM_NULL,
                          LIST_2(LIST_2(handler, obj),
                                 LIST_4(l_sym_error,
@@ -421,7 +421,8 @@ guard_handler_body(ScmObj q_handler_k, ScmObj env)
             caught = EVAL(caught, cond_env);
         scm_call_continuation(guard_k, delay(caught, cond_env));
     } else {
-        reraise = enclose(LIST_2(l_sym_raise, LIST_2(SYM_QUOTE, condition)),
+        reraise = enclose(LIST_2(l_sym_raise,
+                                 LIST_2(l_syn_raw_quote, condition)),
                           cond_env);
         scm_call_continuation(handler_k, reraise);
     }
diff --git a/src/module-srfi43.c b/src/module-srfi43.c
index dae8c87..527c2bb 100644
--- a/src/module-srfi43.c
+++ b/src/module-srfi43.c
@@ -121,6 +121,7 @@ scm_s_let_vector_start_plus_end(ScmObj callee, ScmObj vec,
     start_name = QUOTE(CAR(start_plus_end));
     end_name   = QUOTE(CADR(start_plus_end));
     receive_expr = CONS(l_sym_vector_parse_start_plus_end,
-                        LIST_5(QUOTE(vec), args, start_name, end_name, callee));
+                        LIST_5(scm_make_raw_quoted(vec), args, start_name,
+                               end_name, callee));
     return scm_s_srfi8_receive(start_plus_end, receive_expr, body, eval_state);
 }
diff --git a/src/module-srfi9.c b/src/module-srfi9.c
index 39c6526..1fadedf 100644
--- a/src/module-srfi9.c
+++ b/src/module-srfi9.c
@@ -130,7 +130,7 @@ scm_s_srfi9_define_record_type(ScmObj type_name, ScmObj ctor_spec,
     ctor = scm_call(l_proc_record_constructor, LIST_2(type_obj, ctor_tags));
     pred = scm_call(l_proc_record_predicate, LIST_1(type_obj));
     scm_s_define_internal(ScmFirstClassObj,
-                          type_name, LIST_2(SYM_QUOTE, type_obj), env);
+                          type_name, scm_make_raw_quoted(type_obj), env);
     scm_s_define_internal(ScmFirstClassObj, ctor_name, ctor, env);
     scm_s_define_internal(ScmFirstClassObj, pred_name, pred, env);
 
diff --git a/src/sigschemeinternal.h b/src/sigschemeinternal.h
index d7f0e9d..de36deb 100644
--- a/src/sigschemeinternal.h
+++ b/src/sigschemeinternal.h
@@ -713,6 +713,7 @@ SCM_EXPORT ScmObj scm_s_body(ScmObj body, ScmEvalState *eval_state);
 #else
 #define scm_s_body scm_s_begin
 #endif
+SCM_EXPORT ScmObj scm_make_raw_quoted(ScmObj obj);
 SCM_EXPORT ScmObj scm_s_cond_internal(ScmObj clauses,
                                       ScmEvalState *eval_state);
 SCM_EXPORT ScmObj scm_s_let_internal(enum ScmObjType permitted,
diff --git a/src/syntax.c b/src/syntax.c
index cdf629d..b3b5708 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -100,6 +100,7 @@ SCM_DEFINE_EXPORTED_VARS(syntax);
 SCM_GLOBAL_VARS_BEGIN(static_syntax);
 #define static
 static ScmObj l_sym_else, l_sym_yields, l_sym_define;
+static ScmObj l_syn_raw_quote;
 #if SCM_USE_INTERNAL_DEFINITIONS
 static ScmObj l_sym_begin, l_syn_lambda;
 #endif /* SCM_USE_INTERNAL_DEFINITIONS */
@@ -108,6 +109,7 @@ SCM_GLOBAL_VARS_END(static_syntax);
 #define l_sym_else   SCM_GLOBAL_VAR(static_syntax, l_sym_else)
 #define l_sym_yields SCM_GLOBAL_VAR(static_syntax, l_sym_yields)
 #define l_sym_define SCM_GLOBAL_VAR(static_syntax, l_sym_define)
+#define l_syn_raw_quote SCM_GLOBAL_VAR(static_syntax, l_syn_raw_quote)
 #define l_sym_begin  SCM_GLOBAL_VAR(static_syntax, l_sym_begin)
 #define l_syn_lambda SCM_GLOBAL_VAR(static_syntax, l_syn_lambda)
 SCM_DEFINE_STATIC_VARS(static_syntax);
@@ -115,6 +117,7 @@ SCM_DEFINE_STATIC_VARS(static_syntax);
 /*=======================================
   File Local Function Declarations
 =======================================*/
+static ScmObj raw_quote(ScmObj datum, ScmObj env);
 #if SCM_USE_INTERNAL_DEFINITIONS
 static ScmObj filter_definitions(ScmObj body, ScmObj *formals, ScmObj *actuals,
                                  ScmQueue *def_expq);
@@ -140,6 +143,8 @@ scm_init_syntax(void)
     l_sym_else   = scm_intern("else");
     l_sym_yields = scm_intern("=>");
     l_sym_define = scm_intern("define");
+    scm_gc_protect_with_init(&l_syn_raw_quote,
+                             MAKE_FUNC(SCM_SYNTAX_FIXED_1, &raw_quote));
 #if SCM_USE_INTERNAL_DEFINITIONS
     l_sym_begin  = scm_intern("begin");
     scm_gc_protect_with_init(&l_syn_lambda,
@@ -171,6 +176,24 @@ scm_s_quote(ScmObj datum, ScmObj env)
     return SCM_UNWRAP_SYNTAX(datum);
 }
 
+static ScmObj
+raw_quote(ScmObj datum, ScmObj env)
+{
+    DECLARE_INTERNAL_FUNCTION("raw_quote");
+
+    return datum;
+}
+
+/* Makes an expression that is evaluated into the evaluated object obj.
+ * Unlike (quote obj), it is independent of the user's binding of 'quote', and
+ * never modifies obj nor falls into an infinite loop on a circular one by
+ * SCM_UNWRAP_SYNTAX(). */
+SCM_EXPORT ScmObj
+scm_make_raw_quoted(ScmObj obj)
+{
+    return LIST_2(l_syn_raw_quote, obj);
+}
+
 /*===========================================================================
   R5RS : 4.1 Primitive expression types : 4.1.4 Procedures
 ===========================================================================*/
@@ -355,7 +378,7 @@ scm_s_cond_internal(ScmObj clauses, ScmEvalState *eval_state)
                  * evaluation of <expression2> is in a tail
                  * context. <expression2> itself is not in a tail context.
                  */
-                return LIST_2(proc, LIST_2(SYM_QUOTE, test));
+                return LIST_2(proc, scm_make_raw_quoted(test));
             }
 
             return scm_s_begin(exps, eval_state);
-- 
2.43.0


From b2ea168d5ed6e8720c19162a226f97031baf37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 52/59] fix: keep guard's re-raise out of the scope of the
 user's variables

---
 src/module-srfi34.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/module-srfi34.c b/src/module-srfi34.c
index 4e1b452..9cb7140 100644
--- a/src/module-srfi34.c
+++ b/src/module-srfi34.c
@@ -421,9 +421,11 @@ guard_handler_body(ScmObj q_handler_k, ScmObj env)
             caught = EVAL(caught, cond_env);
         scm_call_continuation(guard_k, delay(caught, cond_env));
     } else {
+        /* Neither 'raise' nor 'quote' may be captured by the user's local
+         * variables including sym_var. */
         reraise = enclose(LIST_2(l_sym_raise,
                                  LIST_2(l_syn_raw_quote, condition)),
-                          cond_env);
+                          SCM_INTERACTION_ENV);
         scm_call_continuation(handler_k, reraise);
     }
     /* NOTREACHED */
-- 
2.43.0


From 89f345ecbf04d2c0925d61839e115a2c2ee4e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 53/59] fix: report a non-syntax value bound by the macro
 definitions as an error

---
 src/syntax.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index b3b5708..05f58f3 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -71,9 +71,10 @@
     do {                                                                     \
         if (permitted_type == ScmFirstClassObj)                              \
             CHECK_VALID_EVALED_VALUE(bindee);                                \
-        else if (permitted_type == ScmMacro)                                 \
-            SCM_ASSERT(HMACROP(bindee));                                     \
-        else                                                                 \
+        else if (permitted_type == ScmMacro) {                               \
+            if (!SYNTACTIC_OBJECTP(bindee))                                  \
+                ERR_OBJ("syntax required but got", bindee);                  \
+        } else                                                               \
             SCM_NOTREACHED;                                                  \
     } while (/* CONSTCOND */ 0)
 #else
-- 
2.43.0


From 9c5d5b1df984ac1a30248c2bc4c06c607f216068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 54/59] fix: check the macro argument of expand-macro

---
 src/macro.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 96b7bab..74f27ce 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -271,7 +271,11 @@ scm_s_expand_macro(ScmObj macro, ScmObj args, ScmEvalState *eval_state)
     ScmObj ret;
     DECLARE_FUNCTION("expand-macro", syntax_variadic_tailrec_1);
 
-    ret = scm_expand_macro(EVAL(macro, eval_state->env), args, eval_state);
+    macro = EVAL(macro, eval_state->env);
+    if (!HMACROP(macro))
+        ERR_OBJ("hygienic macro required but got", macro);
+
+    ret = scm_expand_macro(macro, args, eval_state);
     eval_state->ret_type = SCM_VALTYPE_AS_IS;
     return ret;
 }
-- 
2.43.0


From 6ba795628a36c08f22bc83042d4a87c97d06a0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 55/59] fix: keep the format string alive while pretty-print
 mutates it

---
 src/format.c        | 3 +++
 src/module-srfi48.c | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/format.c b/src/format.c
index 59193ad..f75e6bc 100644
--- a/src/format.c
+++ b/src/format.c
@@ -617,6 +617,9 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
             ENSURE_STRING(indirect_fmt);
             indirect_args = POP_FORMAT_ARG(args);
             ENSURE_LIST(indirect_args);
+            /* pretty-print may mutate the format string */
+            if (SCM_STRING_MUTABLEP(indirect_fmt))
+                indirect_fmt = scm_p_string_copy(indirect_fmt);
             scm_lformat(port,
                         fcap & ~SCM_FMT_RAW_C,
                         SCM_STRING_STR(indirect_fmt), indirect_args);
diff --git a/src/module-srfi48.c b/src/module-srfi48.c
index 85c4984..f376503 100644
--- a/src/module-srfi48.c
+++ b/src/module-srfi48.c
@@ -94,6 +94,10 @@ srfi48_format_internal(enum ScmFormatCapability fcap,
     }
     objs = rest;
 
+    /* The string body may be reallocated by a mutation in pretty-print. */
+    if (SCM_STRING_MUTABLEP(fmt))
+        fmt = scm_p_string_copy(fmt);
+
     ret = scm_lformat(port, fcap, SCM_STRING_STR(fmt), objs);
     SCM_GC_KEEP_ALIVE(fmt);
 
-- 
2.43.0


From 1e256bc3b1beae712e86dbb1b80179630a9d6f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 56/59] fix: do not truncate a non-ASCII character after ~ in a
 format string

---
 src/format.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/format.c b/src/format.c
index f75e6bc..3b2ff79 100644
--- a/src/format.c
+++ b/src/format.c
@@ -490,7 +490,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
                  format_string_t *fmt, struct scm_format_args args)
 {
     const void *orig_pos;
-    char directive;
+    scm_ichar_t directive;
     scm_bool eolp;
 #if SCM_USE_SRFI48
     ScmObj obj, indirect_fmt, indirect_args, proc_pretty_print;
@@ -564,7 +564,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
 #endif /* SCM_USE_SRFI48 */
 
     if (prefixedp)
-        ERR("invalid prefix for directive ~~~C", (scm_ichar_t)directive);
+        ERR("invalid prefix for directive ~~~C", directive);
 
     if (fcap & SCM_FMT_SRFI28) {
         switch (directive) {
@@ -665,7 +665,7 @@ format_directive(ScmObj port, scm_ichar_t last_ch,
 
     /* Although SRFI-48 does not specified about unknown directives, the
      * reference implementation treats it as error. */
-    ERR(ERRMSG_INVALID_ESCSEQ ": ~~~C", (scm_ichar_t)directive);
+    ERR(ERRMSG_INVALID_ESCSEQ ": ~~~C", directive);
 
  fin:
     FORMAT_STR_SKIP_CHAR(*fmt);
-- 
2.43.0


From c2a8c3992c5ded31762b3b8ec01a06f5a82e62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 57/59] fix: bind the name of a named let outside of its
 variables

---
 src/syntax.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/syntax.c b/src/syntax.c
index 05f58f3..cf37394 100644
--- a/src/syntax.c
+++ b/src/syntax.c
@@ -588,15 +588,16 @@ scm_s_let_internal(enum ScmObjType permitted, ScmObj bindings, ScmObj body,
     if (!NULLP(bindings))
         ERR_OBJ(ERRMSG_INVALID_BINDINGS, bindings);
 
-    env = scm_extend_environment(formals, actuals, env);
-
-    /* named let */
+    /* named let: the <variable> is bound outside of the <binding spec>s */
     if (IDENTIFIERP(named_let_sym)) {
+        env = scm_extend_environment(SCM_NULL, SCM_NULL, env);
         proc = MAKE_CLOSURE(CONS(formals, body), env);
         env = scm_add_environment(named_let_sym, proc, env);
         SCM_CLOSURE_SET_ENV(proc, env);
     }
 
+    env = scm_extend_environment(formals, actuals, env);
+
     eval_state->env = env;
     return scm_s_body(body, eval_state);
 }
-- 
2.43.0


From 3b9d576d1e0ea188f4c907cd21233a1760c0d7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 58/59] fix: check the length of dotted actuals of an
 environment given to eval

---
 src/env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/env.c b/src/env.c
index 988b9b6..4203fe4 100644
--- a/src/env.c
+++ b/src/env.c
@@ -466,7 +466,8 @@ scm_valid_environment_extensionp(ScmObj formals, ScmObj actuals)
     scm_int_t formals_len, actuals_len;
 
     formals_len = scm_validate_formals(formals);
-    actuals_len = scm_validate_actuals(actuals);
+    /* scm_validate_actuals() does not tell a dotted list from a circular */
+    actuals_len = scm_length(actuals);
     return scm_valid_environment_extension_lengthp(formals_len, actuals_len);
 }
 
-- 
2.43.0


From 5a6f00f62eccd152e39bd7da80e874b2ce9a829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 59/59] fix: keep the values of a promise apart from those it
 delivers

---
 src/promise.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/promise.c b/src/promise.c
index 3d10538..b797013 100644
--- a/src/promise.c
+++ b/src/promise.c
@@ -63,6 +63,7 @@ SCM_DEFINE_STATIC_VARS(static_promise);
 /*=======================================
   File Local Function Declarations
 =======================================*/
+static ScmObj promised_value(ScmObj promise);
 
 /*=======================================
   Function Definitions
@@ -95,6 +96,23 @@ scm_s_delay(ScmObj exp, ScmObj env)
     return CONS(l_tag_unforced, proc);
 }
 
+/* The receiver of multiple values may modify both the packet and the list of
+ * the values. So keep another one for subsequent forces. */
+static ScmObj
+promised_value(ScmObj promise)
+{
+    ScmObj result, kept;
+
+    result = CAR(promise);
+    if (VALUEPACKETP(result)) {
+        result = SCM_VALUEPACKET_VALUES(result);
+        kept = scm_p_append(LIST_2(result, SCM_NULL));
+        SET_CAR(promise, SCM_MAKE_VALUEPACKET(kept));
+        result = SCM_MAKE_VALUEPACKET(result);
+    }
+    return result;
+}
+
 /*===========================================================================
   R5RS : 6.4 Control features
 ===========================================================================*/
@@ -110,7 +128,7 @@ scm_p_force(ScmObj promise)
     ENSURE_PROCEDURE(proc);
 
     if (PROMISE_FORCEDP(promise))
-        return CAR(promise);
+        return promised_value(promise);
 
     /* R5RS:
      *   Rationale: A promise may refer to its own value, as in the last
@@ -118,8 +136,7 @@ scm_p_force(ScmObj promise)
      *   forced a second time before the value of the first force has been
      *   computed. This complicates the definition of `make-promise'. */
     result = scm_call(proc, SCM_NULL);
-    if (PROMISE_FORCEDP(promise))
-        return CAR(promise);
-    SET_CAR(promise, result);
-    return result;
+    if (!PROMISE_FORCEDP(promise))
+        SET_CAR(promise, result);
+    return promised_value(promise);
 }
-- 
2.43.0

