From 3b1184cf50b6a1870c296a34caa79ffe4b11ae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 01/54] fix: report an error if a failed dl*() call provides no
 message

---
 src/templates/c.c     | 6 +++++-
 src/templates/cxx.cpp | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index e9f57ca..38c86cd 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -141,8 +141,12 @@ GDO_INLINE void _gdo_clear_error(void)
 /* save the last message provided by dlerror() */
 GDO_INLINE void _gdo_save_error(const gdo_char_t *msg)
 {
+    const char *err = dlerror();
+
     GDO_UNUSED_REF(msg);
-    _gdo_save_to_errbuf(dlerror());
+
+    /* never report "no error" only because there's no message available */
+    _gdo_save_to_errbuf((err && *err) ? err : "unknown error");
 }
 
 /* sets the "no library was loaded" error message */
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 73b87e2..5956475 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -339,7 +339,9 @@ void gdo::dl::clear_error()
 void gdo::dl::save_error(const std::string&)
 {
     const char *ptr = ::dlerror();
-    m_errmsg = ptr ? ptr : "";
+
+    /* never report "no error" only because there's no message available */
+    m_errmsg = (ptr && *ptr) ? ptr : "unknown error";
 }
 
 
-- 
2.43.0


From 392722580291afaeb39e61aebb240fd3cb0af361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 02/54] fix: set an error message if the library path is too
 long (C API)

---
 src/templates/c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/c.c b/src/templates/c.c
index 38c86cd..f383dee 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -823,6 +823,7 @@ GDO_INLINE bool _gdo_libpath_dlinfo(void)
     size_t len = strlen(lm->l_name) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
@@ -862,6 +863,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
     size_t len = strlen(path) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
-- 
2.43.0


From 1bc1905bec27839057ea6e64fc449ba94ebe1831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 03/54] fix: clear dlinfo() error if dladdr() succeeded (C++
 API)

---
 src/templates/cxx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 5956475..5556c67 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -489,6 +489,7 @@ bool gdo::dl::get_library_path_dladdr(void)
         || _gdo_call_dladdr(reinterpret_cast<void *>(GDO_RAWPTR_%%symbol%%), &info)
     ) {
         m_libpath = info.dli_fname;
+        clear_error(); /* discard error from dlinfo() */
         return true;
     }
 
-- 
2.43.0


From d04055403524988570d0972a00da63c1435cd25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 04/54] fix: don't return the path of a previously loaded
 library (C++ API)

---
 src/templates/cxx.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 5556c67..40dc6e4 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -256,10 +256,9 @@ void gdo::dl::get_library_path(std::basic_string<T> &path)
 {
     clear_error();
 
-    /* was the library path already saved? */
-    if (!path.empty()) {
-        return;
-    }
+    /* another object may have loaded a different library since
+     * the path was saved, so don't use an old path */
+    path.clear();
 
     if (!lib_loaded()) {
         set_error_invalid_handle();
@@ -956,10 +955,9 @@ std::string gdo::dl::library_path()
         return {};
     }
 
-    /* was the library path already saved? */
-    if (!m_libpath.empty()) {
-        return m_libpath;
-    }
+    /* another object may have loaded a different library since
+     * the path was saved, so don't use an old path */
+    m_libpath.clear();
 
 #if defined(GDO_DLFCN_WIN32) || defined(_AIX)
     if (get_library_path()) {
-- 
2.43.0


From 363de7dd610a173b79a05fc15cb7bfe751bf2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 05/54] fix: offset and device numbers in /proc/self/maps are
 hexadecimal

---
 src/templates/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/common.c b/src/templates/common.c
index 90fa721..183b56d 100644
--- a/src/templates/common.c
+++ b/src/templates/common.c
@@ -157,7 +157,7 @@ GDO_INLINE bool _gdo_fullpath_procmap(struct link_map *lm, char *buf, size_t buf
     while (getline(&line, &n, fp) != -1) {
         /* address start-end         mode offset   device inode      pathname */
         /* 7de29d200000-7de29d228000 r--p 00000000 103:01 2758110    /usr/lib/x86_64-linux-gnu/libc.so.6\n */
-        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*u %*u:%*u %*u %m[^\n]",
+        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*x %*x:%*x %*u %m[^\n]",
                         &start, &end, mode, &path);
 
         if (rv == 4 && lm->l_addr >= start && lm->l_addr < end) {
-- 
2.43.0


From 0edbdadb3ffc77003b85c325c4acffea86580155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 06/54] fix: C API: don't alias functions if
 GDO_WRAP_VISIBILITY is defined

The macro that was checked doesn't exist. With visible wrapper functions in
a single header file the function names were redirected to GDO_WRAP_*
functions which are never declared in that case.
---
 src/templates/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index f383dee..cacdbe0 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -981,7 +981,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     !defined(GDO_DISABLE_ALIASING)
 
 /* aliases to raw function pointers */
-#if !defined(GDO_WRAP_IS_VISIBLE)
+#if !defined(GDO_WRAP_VISIBILITY)
 # define %%func_symbol_pad%% GDO_FUNC_ALIAS(%%func_symbol%%)
 #endif
 
-- 
2.43.0


From 56a322075f7db7816b38417d851141b2e08dc906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 07/54] fix: auto-loading: report why the library could not be
 loaded

Loading symbols was attempted even if loading the library had failed, so its
error message was always replaced with "no library was loaded".
---
 src/templates/c.c     | 28 +++++++++++++---------------
 src/templates/cxx.cpp | 24 +++++++++++-------------
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index cacdbe0..d81352e 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -923,24 +923,22 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     /* set auto-release, ignore errors */
     gdo_enable_autorelease();
 
-    /* load library */
-    if (!gdo_lib_is_loaded()) {
-        gdo_load_lib();
-    }
-
+    /* load library; keep its error message if that fails */
+    if (gdo_lib_is_loaded() || gdo_load_lib()) {
 # ifdef GDO_ENABLE_AUTOLOAD_LAZY
-    /* load a specific symbol */
-    if (gdo_load_symbol(load)) {
-        return;
-    }
+        /* load a specific symbol */
+        if (gdo_load_symbol(load)) {
+            return;
+        }
 # else
-    GDO_UNUSED_REF(load);
-
-    /* load all symbols */
-    if (gdo_load_all_symbols()) {
-        return;
-    }
+        /* load all symbols */
+        if (gdo_load_all_symbols()) {
+            return;
+        }
 # endif
+    }
+
+    GDO_UNUSED_REF(load);
 
     msg = gdo_last_error();
 
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 40dc6e4..13ff8e4 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1018,24 +1018,22 @@ namespace gdo
 
 #ifdef GDO_ENABLE_AUTOLOAD
 
-            /* load library */
-            if (!_loader.lib_loaded()) {
-                _loader.load();
-            }
-
+            /* load library; keep its error message if that fails */
+            if (_loader.lib_loaded() || _loader.load()) {
 # ifdef GDO_ENABLE_AUTOLOAD_LAZY
-            /* load a specific symbol */
-            if (_loader.load_symbol(load)) {
-                return;
-            }
+                /* load a specific symbol */
+                if (_loader.load_symbol(load)) {
+                    return;
+                }
 # else
-            /* load all symbols */
-            if (_loader.load_all_symbols()) {
-                return;
+                /* load all symbols */
+                if (_loader.load_all_symbols()) {
+                    return;
+                }
+# endif
             }
 
             UNUSED_REF(load);
-# endif
 
             std::string msg = _loader.error();
 
-- 
2.43.0


From 0c6895ee7f467b2b447e78664a5a70d9aad1e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 08/54] fix: auto-loading: don't use the default library name
 as part of a format string

---
 src/templates/c.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index d81352e..151526a 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -887,24 +887,22 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
 void _gdo_noop(void) {}
 #endif
 
-GDO_INLINE void _gdo_print_error(const gdo_char_t *fmt, const gdo_char_t *sym, const gdo_char_t *msg)
+GDO_INLINE void _gdo_print_error(const gdo_char_t *pfx, const gdo_char_t *sym, const gdo_char_t *msg)
 {
 #ifdef _WIN32
 
 # ifdef GDO_USE_MESSAGE_BOX
     /* we can safely use gdo_hndl.errbuf, the last error message
      * was saved in gdo_hndl.formatted */
-    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, fmt, sym, msg);
+    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, _T("%s: %s: %s"), pfx, sym, msg);
     MessageBox(NULL, gdo_hndl.errbuf, _T("Error"), MB_OK | MB_ICONERROR);
 # else
-    _ftprintf_s(stderr, fmt, sym, msg);
-    _fputtc(_T('\n'), stderr);
+    _ftprintf_s(stderr, _T("%s: %s: %s\n"), pfx, sym, msg);
 # endif //GDO_USE_MESSAGE_BOX
 
 #else //!_WIN32
 
-    fprintf(stderr, fmt, sym, msg);
-    fputc('\n', stderr);
+    fprintf(stderr, "%s: %s: %s\n", pfx, sym, msg);
 
 #endif //!_WIN32
 }
@@ -944,9 +942,9 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 
     if (_gdo_tcsstr(msg, GDO_DEFAULT_LIB)) {
         /* library name is already part of error message */
-        _gdo_print_error(_T("error: %s: %s"), sym, msg);
+        _gdo_print_error(_T("error"), sym, msg);
     } else {
-        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB _T(": %s: %s"), sym, msg);
+        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB, sym, msg);
     }
 
     gdo_force_free_lib();
@@ -963,7 +961,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     }
 
     GDO_UNUSED_REF(load);
-    _gdo_print_error(_T("fatal error: %s: %s"), sym, msg);
+    _gdo_print_error(_T("fatal error"), sym, msg);
 
     abort();
 
-- 
2.43.0


From 03ba7591b1630636f24b20645e93428303ccbece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 09/54] fix: minimal loaders: release a previously loaded
 library on another load

The old handle was lost and if the new library could not be opened
the symbol pointers still pointed into the old one.
---
 src/templates/minimal.h         | 4 ++++
 src/templates/minimal_cxxeh.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index ab29a3d..ebd9ee3 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -57,11 +57,15 @@ GDO_LINKAGE void gdo_free_library(void)
  * filename:
  *   Library filename or path to load. Must not be empty or NULL.
  *
+ * A previously loaded library is freed first.
  * Returns NULL on success and an error message if loading has failed.
  * Do NOT free the returned pointer. Library handle is always freed on an error.
  */
 GDO_LINKAGE const char *gdo_load_library_and_symbols(const char *filename)
 {
+    /* release a previously loaded library */
+    gdo_free_library();
+
     if (!filename) {
         return "filename is <NULL>";
     } else if (!*filename) {
diff --git a/src/templates/minimal_cxxeh.hpp b/src/templates/minimal_cxxeh.hpp
index de7df4d..7d0f077 100644
--- a/src/templates/minimal_cxxeh.hpp
+++ b/src/templates/minimal_cxxeh.hpp
@@ -97,10 +97,14 @@ namespace gdo
      * filename:
      *   Library filename or path to load. Must not be empty or NULL.
      *
+     * A previously loaded library is freed first.
      * If an error occurs the library handle is freed and an exception is thrown.
      */
     void load_library_and_symbols(const char *filename) noexcept(false)
     {
+        /* release a previously loaded library */
+        free_library();
+
         if (filename == NULL) {
             throw LibraryError("<NULL>");
         } else if (*filename == 0) {
-- 
2.43.0


From 5342ebde502875955cb7f791c6b84cad39621416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 10/54] fix: minimal loader: don't declare the handle as inline
 with GDO_STATIC

---
 src/templates/minimal.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index ebd9ee3..cfd6c77 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -6,9 +6,11 @@
 #endif
 
 #ifdef GDO_STATIC
-# define GDO_LINKAGE  static inline
+# define GDO_LINKAGE      static inline
+# define GDO_OBJ_LINKAGE  static
 #else
-# define GDO_LINKAGE  /**/
+# define GDO_LINKAGE      /**/
+# define GDO_OBJ_LINKAGE  /**/
 #endif
 
 
@@ -29,7 +31,7 @@ typedef struct gdo_handle
 
 } gdo_handle_t;
 
-GDO_LINKAGE gdo_handle_t gdo_hndl;
+GDO_OBJ_LINKAGE gdo_handle_t gdo_hndl;
 
 
 /**
-- 
2.43.0


From e28794d593caba13681b45c4afaeb16fa7697f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 11/54] fix: a line split must not swallow the empty lines that
 follow

---
 src/lex.l    |   2 +-
 src/lex.yy.c | 224 +++++++++++++++++++++++++--------------------------
 2 files changed, 111 insertions(+), 115 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 351f667..6f08c22 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -43,7 +43,7 @@ void set_illegal_char();
 
 bom                 "\xEF\xBB\xBF"
 col                 [\x1B][\[][0-9;]*[m]
-split               "\\"[[:space:]]*?"\n"
+split               "\\"[ \t\r\v\f]*"\n"
 ast_begin           ^({bom})?({col})?"TranslationUnitDecl"({col})?({col})?" 0x".*
 funcvar             ^({col})?[|`]"-"({col})?({col})?("Function"|"Var")"Decl"({col})?({col})?" 0x".*
 parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?({col})?" 0x".*
diff --git a/src/lex.yy.c b/src/lex.yy.c
index f09ddf6..e41a98d 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -456,36 +456,36 @@ static const YY_CHAR yy_meta[50] =
 
 static const flex_int16_t yy_base[273] =
     {   0,
-        0,   48,  479,   53,   57,   61,   58,   62,   64,   65,
-       68,   69,   67,   75,  481,  483,  483,  483,  483,  469,
-       76,    0,  483,  483,   54,  439,  435,  442,  483,  483,
-      429,   97,  102,  451,  483,  438,  435,  425,  483,  483,
-      447,  465,  459,   85,    0,  483,  483,  107,  483,  483,
-      111,  483,  483,   94,  483,  483,  106,  118,  483,  483,
-       99,  457,  483,  483,  123,    0,  426,  426,  427,  427,
-      431,  414,  127,  483,  121,  424,  433,  411,  124,   96,
-      123,    0,  142,  146,  151,  157,  483,  161,  483,  483,
-      165,  169,  173,  483,  177,  483,  181,  185,  424,  427,
-
-      415,  425,  418,  483,  178,  432,  412,  416,  196,  191,
-      184,  440,  425,  407,  420,  206,  211,  216,  225,  230,
-      236,  483,  483,    0,  408,  417,  415,  408,  404,  409,
-      401,  415,  402,  432,  426,  147,   71,  229,  400,  396,
-      483,  483,  483,  483,  398,  392,  401,    0,  403,  393,
-      395,  403,  399,  232,  146,  397,  406,    0,    0,  392,
-      387,  386,  393,  236,  381,  394,  377,  386,    0,  376,
-      250,  374,  243,  157,  379,  246,  380,  383,  377,  483,
-      377,  384,  384,  254,  162,  370,  372,  377,  367,  258,
-      375,  366,  191,  359,  360,  261,  371,  349,  362,  346,
-
-      326,  334,  337,  268,  312,  317,  317,  321,  271,  260,
-        0,  315,  317,  320,  323,    0,  324,  304,  310,  276,
-      299,  315,  274,  283,  326,  298,  279,  263,  249,  214,
-      212,  286,  194,  213,  193,  293,  289,    0,  194,  299,
-      198,    0,  192,  191,  194,  298,  140,  301,  101,  308,
-      135,  314,  311,  324,    0,   93,    0,  323,  326,   87,
-      483,  360,  364,  368,  372,  376,  380,   73,  384,  388,
-      392,  396
+        0,   48,  458,   53,   57,   61,   58,   62,   64,   65,
+       68,   69,   67,   75,  460,  462,  462,  462,  462,  448,
+       76,    0,  462,  462,   54,  418,  414,  421,  462,  462,
+      408,   97,  102,  430,  462,  417,  414,  404,  462,  462,
+      426,  444,  438,   85,    0,  462,  462,  107,  462,  462,
+      111,  462,  462,   94,  462,  462,  106,  118,  462,  462,
+       99,  436,  462,  462,  123,    0,  405,  405,  406,  406,
+      410,  393,  127,  462,  121,  403,  412,  390,  124,   96,
+      123,    0,  142,  462,  146,  462,  462,  151,  462,  462,
+      157,  161,  462,  462,  165,  462,  169,  131,  403,  406,
+
+      394,  404,  397,  462,  162,  411,  391,  395,  176,  171,
+      147,  419,  404,  386,  399,  185,  413,  196,  182,  201,
+      412,  462,  462,    0,  385,  394,  392,  385,  381,  386,
+      378,  392,  379,  409,  403,  190,   71,  194,  377,  373,
+      462,  462,  462,  462,  375,  369,  378,    0,  380,  370,
+      372,  380,  376,  197,  146,  374,  383,    0,    0,  369,
+      364,  363,  370,  200,  358,  371,  354,  363,    0,  353,
+      214,  351,  207,  198,  356,  210,  357,  360,  354,  462,
+      354,  361,  361,  222,  138,  347,  349,  354,  344,  225,
+      352,  343,  222,  337,  341,  232,  355,  335,  345,  352,
+
+      329,  338,  315,  235,  290,  295,  295,  299,  238,  225,
+        0,  293,  295,  298,  301,    0,  302,  283,  288,  247,
+      285,  300,  228,  250,  312,  284,  281,  286,  295,  267,
+      277,  260,  262,  278,  262,  263,  238,    0,  253,  250,
+      258,    0,  252,  255,  258,  272,  237,  275,  151,  278,
+      184,  253,  285,  263,    0,   93,    0,  288,  300,   87,
+      462,  334,  338,  342,  346,  350,  354,   73,  358,  362,
+      366,  370
     } ;
 
 static const flex_int16_t yy_def[273] =
@@ -522,7 +522,7 @@ static const flex_int16_t yy_def[273] =
       261,  261
     } ;
 
-static const flex_int16_t yy_nxt[533] =
+static const flex_int16_t yy_nxt[512] =
     {   0,
        16,   17,   18,   16,   17,   16,   16,   19,   19,   16,
        20,   21,   22,   22,   23,   24,   22,   22,   22,   22,
@@ -538,54 +538,52 @@ static const flex_int16_t yy_nxt[533] =
        65,   73,   74,   73,   73,   87,   73,   74,   83,   84,
        94,   83,   85,   86,   89,   85,  258,   90,   88,   92,
        93,  112,   92,   95,   97,   98,  113,   97,   73,   73,
-       91,   73,   74,  105,  105,  105,  110,  110,  110,  229,
-      112,  114,  255,   83,   84,  115,   83,   83,   84,  166,
-       83,   80,   85,   86,  106,   85,   81,  111,   85,   86,
-      182,   85,  116,  117,  114,  116,  118,  119,  115,  118,
-       92,   93,  252,   92,   92,   93,  153,   92,  120,  121,
-      114,  120,   97,   98,  115,   97,   97,   98,  134,   97,
-      105,  105,  105,  122,  199,  200,  123,   73,   73,  132,
-
-       73,   74,  133,  110,  110,  110,  249,  116,  117,  135,
-      116,  106,  116,  117,  248,  116,  129,  118,  119,  247,
-      118,  246,  141,  243,  111,  240,  118,  119,  136,  118,
-      239,  120,  121,  142,  120,  238,  143,  120,  121,  235,
-      120,  154,  154,  154,  154,  154,  154,  144,  173,  173,
-      173,  180,  180,  234,  180,  173,  173,  173,  184,  184,
-      184,  233,  155,  215,  200,  155,  184,  184,  184,  174,
-      196,  196,  196,  196,  196,  196,  174,  228,  229,  185,
-      209,  209,  209,  209,  209,  209,  232,  185,  224,  224,
-      224,  197,  241,  229,  197,  224,  224,  224,  236,  236,
-
-      236,  210,  244,  245,  210,  236,  236,  236,  231,  225,
-      250,  250,  250,  253,  253,  253,  225,  244,  245,  237,
-      250,  250,  250,  253,  253,  253,  237,  256,  245,  230,
-      200,  251,  227,  226,  254,  259,  259,  259,  259,  259,
-      259,  251,  223,  222,  254,  221,  220,  219,  218,  217,
-      214,  213,  212,  211,  208,  207,  260,  206,  205,  260,
-       39,   39,   39,   39,   45,   45,   45,   45,   49,   49,
-       49,   49,   52,   52,   52,   52,   55,   55,   55,   55,
-       59,   59,   59,   59,   82,  204,  203,   82,  216,  216,
-      153,  216,  242,  242,  202,  242,  257,  257,  201,  257,
-
-      157,  198,  195,  194,  193,  192,  191,  190,  189,  188,
-      187,  186,  183,  181,  179,  178,  177,  176,  175,  172,
-      171,  170,  169,  168,  167,  165,  164,  163,  162,  161,
-      160,  159,  158,  157,  156,   81,   80,   76,   75,  151,
-      150,  149,  148,  147,  146,  145,  140,  139,  138,  137,
-      131,  130,  129,  128,  127,  126,  125,  124,  109,  108,
-      107,  104,  103,  102,  101,  100,   99,   96,   81,   80,
-       79,   78,   77,   76,   75,   72,   71,   70,   69,   62,
-      261,   40,   15,  261,  261,  261,  261,  261,  261,  261,
+       91,   73,   74,  105,  105,  105,  110,  110,  110,  122,
+      112,  114,  123,   83,   84,  115,   83,   85,   86,  166,
+       85,  134,  116,  117,  106,  116,  114,  111,  118,  119,
+      115,  118,   92,   93,  114,   92,  120,  121,  115,  120,
+       97,   98,  135,   97,  105,  105,  105,   73,   73,  132,
+       73,   74,  133,  110,  110,  110,  116,  117,  229,  116,
+      142,  136,  255,  143,   80,  106,  129,  118,  119,   81,
+
+      118,  182,  120,  121,  111,  120,  154,  154,  154,  154,
+      154,  154,  173,  173,  173,  180,  180,  153,  180,  173,
+      173,  173,  184,  184,  184,  199,  200,  155,  215,  200,
+      155,  228,  229,  174,  184,  184,  184,  196,  196,  196,
+      174,  241,  229,  185,  196,  196,  196,  209,  209,  209,
+      209,  209,  209,  244,  245,  185,  244,  245,  197,  224,
+      224,  224,  224,  224,  224,  197,  256,  245,  210,  252,
+      249,  210,  236,  236,  236,  236,  236,  236,  248,  247,
+      225,  246,  243,  225,  250,  250,  250,  253,  253,  253,
+      250,  250,  250,  237,  240,  239,  237,  253,  253,  253,
+
+      259,  259,  259,  238,  235,  251,  234,  233,  254,  232,
+      231,  251,  259,  259,  259,  230,  200,  227,  254,  226,
+      223,  260,  222,  221,  220,  219,  218,  217,  214,  213,
+      212,  211,  208,  260,   39,   39,   39,   39,   45,   45,
+       45,   45,   49,   49,   49,   49,   52,   52,   52,   52,
+       55,   55,   55,   55,   59,   59,   59,   59,   82,  207,
+      206,   82,  216,  216,  205,  216,  242,  242,  204,  242,
+      257,  257,  203,  257,  153,  202,  201,  157,  198,  195,
+      194,  193,  192,  191,  190,  189,  188,  187,  186,  183,
+      181,  179,  178,  177,  176,  175,  172,  171,  170,  169,
+
+      168,  167,  165,  164,  163,  162,  161,  160,  159,  158,
+      157,  156,   81,   80,   76,   75,  151,  150,  149,  148,
+      147,  146,  145,  144,  141,  140,  139,  138,  137,  131,
+      130,  129,  128,  127,  126,  125,  124,  109,  108,  107,
+      104,  103,  102,  101,  100,   99,   96,   81,   80,   79,
+       78,   77,   76,   75,   72,   71,   70,   69,   62,  261,
+       40,   15,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
+
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      261
     } ;
 
-static const flex_int16_t yy_chk[533] =
+static const flex_int16_t yy_chk[512] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -601,51 +599,49 @@ static const flex_int16_t yy_chk[533] =
        21,   32,   32,   33,   33,   54,   33,   33,   48,   48,
        61,   48,   51,   51,   57,   51,  256,   57,   54,   58,
        58,   80,   58,   61,   65,   65,   81,   65,   73,   73,
-       57,   73,   73,   75,   75,   75,   79,   79,   79,  251,
-       80,   81,  249,   83,   83,   81,   83,   84,   84,  155,
-       84,  136,   85,   85,   75,   85,  136,   79,   86,   86,
-      174,   86,   88,   88,  155,   88,   91,   91,  155,   91,
-       92,   92,  247,   92,   93,   93,  174,   93,   95,   95,
-      185,   95,   97,   97,  185,   97,   98,   98,  111,   98,
-      105,  105,  105,   98,  193,  193,   98,  109,  109,  109,
-
-      109,  109,  109,  110,  110,  110,  245,  116,  116,  111,
-      116,  105,  117,  117,  244,  117,  109,  118,  118,  243,
-      118,  241,  117,  239,  110,  235,  119,  119,  111,  119,
-      234,  120,  120,  119,  120,  233,  119,  121,  121,  231,
-      121,  138,  138,  138,  154,  154,  154,  121,  164,  164,
-      164,  171,  171,  230,  171,  173,  173,  173,  176,  176,
-      176,  229,  138,  210,  210,  154,  184,  184,  184,  164,
-      190,  190,  190,  196,  196,  196,  173,  223,  223,  176,
-      204,  204,  204,  209,  209,  209,  228,  184,  220,  220,
-      220,  190,  237,  237,  196,  224,  224,  224,  232,  232,
-
-      232,  204,  240,  240,  209,  236,  236,  236,  227,  220,
-      246,  246,  246,  248,  248,  248,  224,  252,  252,  232,
-      250,  250,  250,  253,  253,  253,  236,  254,  254,  226,
-      225,  246,  222,  221,  248,  258,  258,  258,  259,  259,
-      259,  250,  219,  218,  253,  217,  215,  214,  213,  212,
-      208,  207,  206,  205,  203,  202,  258,  201,  200,  259,
-      262,  262,  262,  262,  263,  263,  263,  263,  264,  264,
-      264,  264,  265,  265,  265,  265,  266,  266,  266,  266,
-      267,  267,  267,  267,  269,  199,  198,  269,  270,  270,
-      197,  270,  271,  271,  195,  271,  272,  272,  194,  272,
-
-      192,  191,  189,  188,  187,  186,  183,  182,  181,  179,
-      178,  177,  175,  172,  170,  168,  167,  166,  165,  163,
-      162,  161,  160,  157,  156,  153,  152,  151,  150,  149,
-      147,  146,  145,  140,  139,  135,  134,  133,  132,  131,
-      130,  129,  128,  127,  126,  125,  115,  114,  113,  112,
-      108,  107,  106,  103,  102,  101,  100,   99,   78,   77,
-       76,   72,   71,   70,   69,   68,   67,   62,   43,   42,
-       41,   38,   37,   36,   34,   31,   28,   27,   26,   20,
-       15,    3,  261,  261,  261,  261,  261,  261,  261,  261,
+       57,   73,   73,   75,   75,   75,   79,   79,   79,   98,
+       80,   81,   98,   83,   83,   81,   83,   85,   85,  155,
+       85,  111,   88,   88,   75,   88,  185,   79,   91,   91,
+      185,   91,   92,   92,  155,   92,   95,   95,  155,   95,
+       97,   97,  111,   97,  105,  105,  105,  109,  109,  109,
+      109,  109,  109,  110,  110,  110,  116,  116,  251,  116,
+      119,  111,  249,  119,  136,  105,  109,  118,  118,  136,
+
+      118,  174,  120,  120,  110,  120,  138,  138,  138,  154,
+      154,  154,  164,  164,  164,  171,  171,  174,  171,  173,
+      173,  173,  176,  176,  176,  193,  193,  138,  210,  210,
+      154,  223,  223,  164,  184,  184,  184,  190,  190,  190,
+      173,  237,  237,  176,  196,  196,  196,  204,  204,  204,
+      209,  209,  209,  240,  240,  184,  252,  252,  190,  220,
+      220,  220,  224,  224,  224,  196,  254,  254,  204,  247,
+      245,  209,  232,  232,  232,  236,  236,  236,  244,  243,
+      220,  241,  239,  224,  246,  246,  246,  248,  248,  248,
+      250,  250,  250,  232,  235,  234,  236,  253,  253,  253,
+
+      258,  258,  258,  233,  231,  246,  230,  229,  248,  228,
+      227,  250,  259,  259,  259,  226,  225,  222,  253,  221,
+      219,  258,  218,  217,  215,  214,  213,  212,  208,  207,
+      206,  205,  203,  259,  262,  262,  262,  262,  263,  263,
+      263,  263,  264,  264,  264,  264,  265,  265,  265,  265,
+      266,  266,  266,  266,  267,  267,  267,  267,  269,  202,
+      201,  269,  270,  270,  200,  270,  271,  271,  199,  271,
+      272,  272,  198,  272,  197,  195,  194,  192,  191,  189,
+      188,  187,  186,  183,  182,  181,  179,  178,  177,  175,
+      172,  170,  168,  167,  166,  165,  163,  162,  161,  160,
+
+      157,  156,  153,  152,  151,  150,  149,  147,  146,  145,
+      140,  139,  135,  134,  133,  132,  131,  130,  129,  128,
+      127,  126,  125,  121,  117,  115,  114,  113,  112,  108,
+      107,  106,  103,  102,  101,  100,   99,   78,   77,   76,
+       72,   71,   70,   69,   68,   67,   62,   43,   42,   41,
+       38,   37,   36,   34,   31,   28,   27,   26,   20,   15,
+        3,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
+
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      261
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-- 
2.43.0


From 5fbfc7b91fb7bc53b625c67ba92f8704c306b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 12/54] fix: comments and literals within preprocessor lines

---
 src/lex.l    |  10 +-
 src/lex.yy.c | 522 ++++++++++++++++++++++++++-------------------------
 2 files changed, 275 insertions(+), 257 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 6f08c22..e55232c 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -44,6 +44,7 @@ void set_illegal_char();
 bom                 "\xEF\xBB\xBF"
 col                 [\x1B][\[][0-9;]*[m]
 split               "\\"[ \t\r\v\f]*"\n"
+literal             (\"([^"\\\n]|\\[^\n]|{split})*\")|(\'([^'\\\n]|\\[^\n]|{split})*\')
 ast_begin           ^({bom})?({col})?"TranslationUnitDecl"({col})?({col})?" 0x".*
 funcvar             ^({col})?[|`]"-"({col})?({col})?("Function"|"Var")"Decl"({col})?({col})?" 0x".*
 parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?({col})?" 0x".*
@@ -94,16 +95,17 @@ other               [*,()\[\]]
 
 {preproc}                   { BEGIN(PRE); }
 <PRE>"/*"                   { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
-<PRE>"/"{split}"*"          { BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+<PRE>"/"{split}+"*"         { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 <PRE>"//"                   { BEGIN(COMMENT); /* simple comment */ }
-<PRE>"/"{split}"/"          { BEGIN(COMMENT); /* simple comment */ }
+<PRE>"/"{split}+"/"         { BEGIN(COMMENT); /* simple comment */ }
+<PRE>{literal}              { /* may contain comment characters */ }
 <PRE>{split}                { /* line split */ }
 <PRE>\n                     { BEGIN(INITIAL); /* end */ }
 <PRE>.                      { }
 
 <PRE_COMMENT>"*/"           { BEGIN(PRE); /* continue PRE line */ }
-<PRE_COMMENT>"*"{split}"/"  { BEGIN(INITIAL); /* end */ }
-<PRE_COMMENT>\n             { BEGIN(C_COMMENT); /* C comment */ }
+<PRE_COMMENT>"*"{split}+"/" { BEGIN(PRE); /* continue PRE line */ }
+<PRE_COMMENT>\n             { /* PRE line continues after the comment */ }
 <PRE_COMMENT>.              { }
 
 {bom}                       { /* UTF-8 byte order mark */ }
diff --git a/src/lex.yy.c b/src/lex.yy.c
index e41a98d..a98d001 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 49
-#define YY_END_OF_BUFFER 50
+#define YY_NUM_RULES 50
+#define YY_END_OF_BUFFER 51
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,37 +380,37 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[262] =
+static const flex_int16_t yy_accept[271] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   50,   48,   35,   35,   42,   48,
-       48,   41,   47,   46,   41,   41,   41,   41,   44,   45,
-       48,   35,   35,   48,   22,   48,   41,   48,    5,    4,
+        0,    0,    0,    0,   51,   49,   36,   36,   43,   49,
+       49,   42,   48,   47,   42,   42,   42,   42,   45,   46,
+       49,   36,   36,   49,   22,   49,   42,   49,    5,    4,
         5,    5,    5,    5,    8,   10,    9,    8,   15,   14,
-       15,   21,   20,   21,   29,   28,   29,   29,   33,   32,
-       33,    0,   16,   11,    0,   41,   41,   41,   41,   41,
-       41,    0,    0,   22,    0,    0,   41,    0,    0,    0,
-        0,    8,    0,    7,    0,   13,   18,    0,   23,   25,
-        0,    0,   27,   30,    0,   43,    0,    0,   41,   41,
-
-       41,   41,   41,   34,    0,    0,    0,   41,   34,    0,
+       15,   21,   20,   21,   30,   29,   30,   30,   30,   30,
+       34,   33,   34,    0,   16,   11,    0,   42,   42,   42,
+       42,   42,   42,    0,    0,   22,    0,    0,   42,    0,
+        0,    0,    0,    8,    0,    7,    0,   13,   18,    0,
+        0,   27,    0,    0,    0,   23,   25,    0,    0,   28,
+
+       31,    0,   44,    0,    0,   42,   42,   42,   42,   42,
+       35,    0,    0,    0,   42,   35,    0,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,   17,   12,   39,   41,   41,   41,   41,    0,    0,
-       41,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       19,   24,   26,   31,   41,   41,   41,   38,    0,    0,
-       41,    0,    0,    0,    0,    0,    0,   36,   37,   41,
-        0,    0,   41,    0,    0,    0,    0,    0,   40,    0,
-        0,   41,    0,    0,    0,    0,    0,    0,    0,    6,
-       41,    0,    0,    0,    0,    0,    0,    0,   41,    0,
-        0,    0,    0,    0,   41,    0,    0,    0,    0,    0,
-
-        0,   41,    0,    0,    0,    0,   41,    0,    0,    0,
-        2,    0,   41,    0,    0,    2,    0,   41,    0,    0,
-        0,   41,    0,    0,    0,    0,   41,    0,    0,    0,
-       41,    0,    0,    0,   41,    0,    0,    3,    0,   41,
-        0,    3,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    1,    0,    1,    0,    0,    0,
-        0
+       17,   12,   40,   42,   42,   42,   42,    0,    0,   42,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,   19,
+       24,   26,   32,   42,   42,   42,   39,    0,    0,   42,
+        0,    0,    0,    0,    0,    0,   37,   38,   42,    0,
+        0,   42,    0,    0,    0,    0,    0,   41,    0,    0,
+       42,    0,    0,    0,    0,    0,    0,    0,    6,   42,
+        0,    0,    0,    0,    0,    0,    0,   42,    0,    0,
+
+        0,    0,    0,   42,    0,    0,    0,    0,    0,    0,
+       42,    0,    0,    0,    0,   42,    0,    0,    0,    2,
+        0,   42,    0,    0,    2,    0,   42,    0,    0,    0,
+       42,    0,    0,    0,    0,   42,    0,    0,    0,   42,
+        0,    0,    0,   42,    0,    0,    3,    0,   42,    0,
+        3,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    1,    0,    1,    0,    0,    0,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -418,238 +418,249 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1,    1,    1,    1,    2,    3,
         2,    2,    2,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    4,    1,    1,    1,
-        1,    5,    1,    1,    6,    1,    7,    1,    1,    8,
-        8,    9,    1,    8,   10,   11,   12,   13,   14,   14,
-       14,   14,   14,   14,   14,   14,   14,    1,   15,    1,
-       16,    1,    1,    1,   17,   17,   17,   18,   17,   19,
-       17,   17,   17,   17,   17,   17,   17,   17,   17,   20,
-       17,   17,   17,   21,   22,   23,   17,   17,   17,   17,
-       24,   25,    8,    1,   17,   26,   27,   17,   28,   29,
-
-       30,   31,   17,   17,   32,   17,   17,   33,   34,   35,
-       36,   37,   17,   38,   39,   40,   41,   17,   17,   42,
-       43,   17,   44,   45,   46,    1,    1,    1,    1,    1,
+        1,    5,    1,    6,    7,    1,    8,    1,    9,   10,
+       10,   11,    1,   10,   12,   13,   14,   15,   16,   16,
+       16,   16,   16,   16,   16,   16,   16,    1,   17,    1,
+       18,    1,    1,    1,   19,   19,   19,   20,   19,   21,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   22,
+       19,   19,   19,   23,   24,   25,   19,   19,   19,   19,
+       26,   27,   10,    1,   19,   28,   29,   19,   30,   31,
+
+       32,   33,   19,   19,   34,   19,   19,   35,   36,   37,
+       38,   39,   19,   40,   41,   42,   43,   19,   19,   44,
+       45,   19,   46,   47,   48,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,   47,    1,    1,    1,
-       48,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    1,    1,    1,    1,    1,   49,    1,    1,    1,
+       50,    1,    1,    1,    1,    1,    1,    1,    1,    1,
 
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,   49,    1,
+        1,    1,    1,    1,    1,    1,    1,    1,   51,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1
     } ;
 
-static const YY_CHAR yy_meta[50] =
+static const YY_CHAR yy_meta[52] =
     {   0,
         1,    2,    3,    1,    2,    1,    1,    1,    1,    1,
-        1,    1,    4,    4,    1,    1,    4,    4,    4,    4,
-        4,    4,    4,    1,    1,    1,    4,    4,    4,    4,
+        1,    1,    1,    1,    4,    4,    1,    1,    4,    4,
+        4,    4,    4,    4,    4,    1,    1,    1,    4,    4,
         4,    4,    4,    4,    4,    4,    4,    4,    4,    4,
-        4,    4,    4,    1,    1,    1,    1,    1,    1
+        4,    4,    4,    4,    4,    1,    1,    1,    1,    1,
+        1
     } ;
 
-static const flex_int16_t yy_base[273] =
+static const flex_int16_t yy_base[284] =
     {   0,
-        0,   48,  458,   53,   57,   61,   58,   62,   64,   65,
-       68,   69,   67,   75,  460,  462,  462,  462,  462,  448,
-       76,    0,  462,  462,   54,  418,  414,  421,  462,  462,
-      408,   97,  102,  430,  462,  417,  414,  404,  462,  462,
-      426,  444,  438,   85,    0,  462,  462,  107,  462,  462,
-      111,  462,  462,   94,  462,  462,  106,  118,  462,  462,
-       99,  436,  462,  462,  123,    0,  405,  405,  406,  406,
-      410,  393,  127,  462,  121,  403,  412,  390,  124,   96,
-      123,    0,  142,  462,  146,  462,  462,  151,  462,  462,
-      157,  161,  462,  462,  165,  462,  169,  131,  403,  406,
-
-      394,  404,  397,  462,  162,  411,  391,  395,  176,  171,
-      147,  419,  404,  386,  399,  185,  413,  196,  182,  201,
-      412,  462,  462,    0,  385,  394,  392,  385,  381,  386,
-      378,  392,  379,  409,  403,  190,   71,  194,  377,  373,
-      462,  462,  462,  462,  375,  369,  378,    0,  380,  370,
-      372,  380,  376,  197,  146,  374,  383,    0,    0,  369,
-      364,  363,  370,  200,  358,  371,  354,  363,    0,  353,
-      214,  351,  207,  198,  356,  210,  357,  360,  354,  462,
-      354,  361,  361,  222,  138,  347,  349,  354,  344,  225,
-      352,  343,  222,  337,  341,  232,  355,  335,  345,  352,
-
-      329,  338,  315,  235,  290,  295,  295,  299,  238,  225,
-        0,  293,  295,  298,  301,    0,  302,  283,  288,  247,
-      285,  300,  228,  250,  312,  284,  281,  286,  295,  267,
-      277,  260,  262,  278,  262,  263,  238,    0,  253,  250,
-      258,    0,  252,  255,  258,  272,  237,  275,  151,  278,
-      184,  253,  285,  263,    0,   93,    0,  288,  300,   87,
-      462,  334,  338,  342,  346,  350,  354,   73,  358,  362,
-      366,  370
+        0,   50,  496,   56,   60,   64,   53,   61,   65,   67,
+       68,   80,   82,   87,  498,  500,  500,  500,  500,  484,
+       85,    0,  500,  500,   35,  454,  450,  457,  500,  500,
+      444,  103,  111,  466,  500,  453,  450,  440,  500,  500,
+      462,  482,  474,   92,    0,  500,  500,  117,  500,  500,
+      121,  500,  500,   88,  500,  500,   94,  100,  114,  127,
+      500,  500,  117,  472,  500,  500,  131,    0,  441,  441,
+      442,  442,  446,  429,  135,  500,  130,  439,  448,  426,
+      133,   64,  131,    0,  152,  500,  156,  500,  500,  160,
+      133,  500,  165,  144,  170,  500,  500,  174,  178,  500,
+
+      500,  182,  500,  186,  179,  439,  442,  430,  440,  433,
+      500,  179,  447,  427,  431,  195,  189,  173,  455,  440,
+      422,  435,  205,  449,  211,  219,  224,  220,  230,  137,
+      500,  500,    0,  422,  431,  429,  422,  418,  423,  415,
+      429,  416,  448,  440,  207,  170,  224,  414,  410,  500,
+      500,  500,  500,  412,  406,  415,    0,  417,  407,  409,
+      417,  413,  227,  232,  411,  420,    0,    0,  406,  401,
+      400,  407,  233,  395,  408,  391,  400,    0,  390,  249,
+      388,  249,  233,  393,  255,  394,  397,  391,  500,  391,
+      398,  398,  258,  161,  384,  386,  390,  377,  261,  382,
+
+      370,  254,  361,  362,  264,  376,  331,  344,  353,  333,
+      342,  345,  267,  320,  324,  324,  328,  271,  257,    0,
+      322,  324,  327,  330,    0,  331,  312,  311,  289,  308,
+      320,  263,  293,  334,  303,  304,  308,  318,  289,  300,
+      296,  280,  303,  267,  299,  285,    0,  269,  288,  230,
+        0,  215,  204,  208,  302,  176,  305,  165,  311,  138,
+      291,  327,  294,    0,   91,    0,  333,  336,   76,  500,
+      372,  376,  380,  384,  388,  392,   71,  396,  400,  404,
+      408,  412,  416
     } ;
 
-static const flex_int16_t yy_def[273] =
+static const flex_int16_t yy_def[284] =
     {   0,
-      261,    1,  262,  262,  263,  263,  264,  264,  265,  265,
-      266,  266,  267,  267,  261,  261,  261,  261,  261,  261,
-      261,  268,  261,  261,  268,  268,  268,  268,  261,  261,
-      261,  261,  261,  261,  261,  261,  268,  261,  261,  261,
-      261,  261,  261,  261,  269,  261,  261,  269,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  268,  268,  268,  268,  268,
-      268,  261,  261,  261,  261,  261,  268,  261,  261,  261,
-      261,  269,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  268,  268,
-
-      268,  268,  268,  261,  261,  261,  261,  268,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  268,  268,  268,  268,  268,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  268,  268,  268,  268,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  268,  268,  268,
-      261,  261,  268,  261,  261,  261,  261,  261,  268,  261,
-      261,  268,  261,  261,  261,  261,  261,  261,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  261,  268,  261,
-      261,  261,  261,  261,  268,  261,  261,  261,  261,  261,
-
-      261,  268,  261,  261,  261,  261,  268,  261,  261,  261,
-      270,  261,  268,  261,  261,  270,  261,  268,  261,  261,
-      261,  268,  261,  261,  261,  261,  268,  261,  261,  261,
-      268,  261,  261,  261,  268,  261,  261,  271,  261,  268,
-      261,  271,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  272,  261,  272,  261,  261,  261,
-        0,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      270,    1,  271,  271,  272,  272,  273,  273,  274,  274,
+      275,  275,  276,  276,  270,  270,  270,  270,  270,  270,
+      270,  277,  270,  270,  277,  277,  277,  277,  270,  270,
+      270,  270,  270,  270,  270,  270,  277,  270,  270,  270,
+      270,  270,  270,  270,  278,  270,  270,  278,  270,  270,
+      270,  270,  270,  270,  270,  270,  279,  280,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  277,  277,  277,
+      277,  277,  277,  270,  270,  270,  270,  270,  277,  270,
+      270,  270,  270,  278,  270,  270,  270,  270,  270,  270,
+      279,  270,  279,  280,  280,  270,  270,  270,  270,  270,
+
+      270,  270,  270,  270,  270,  277,  277,  277,  277,  277,
+      270,  270,  270,  270,  277,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  279,  280,  270,  270,  270,  270,
+      270,  270,  277,  277,  277,  277,  277,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  277,  277,  277,  277,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  277,  277,  277,  270,
+      270,  277,  270,  270,  270,  270,  270,  277,  270,  270,
+      277,  270,  270,  270,  270,  270,  270,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  270,  277,  270,  270,
+
+      270,  270,  270,  277,  270,  270,  270,  270,  270,  270,
+      277,  270,  270,  270,  270,  277,  270,  270,  270,  281,
+      270,  277,  270,  270,  281,  270,  277,  270,  270,  270,
+      277,  270,  270,  270,  270,  277,  270,  270,  270,  277,
+      270,  270,  270,  277,  270,  270,  282,  270,  277,  270,
+      282,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  283,  270,  283,  270,  270,  270,    0,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270
     } ;
 
-static const flex_int16_t yy_nxt[512] =
+static const flex_int16_t yy_nxt[552] =
     {   0,
-       16,   17,   18,   16,   17,   16,   16,   19,   19,   16,
-       20,   21,   22,   22,   23,   24,   22,   22,   22,   22,
-       22,   22,   22,   19,   16,   16,   22,   22,   22,   25,
-       22,   22,   22,   22,   22,   22,   22,   22,   26,   27,
-       28,   22,   22,   29,   16,   30,   16,   16,   31,   32,
-       33,   34,   32,   35,   36,   40,   41,   42,   46,   47,
-       50,   46,   46,   47,   50,   46,   53,   53,   37,   60,
-       56,   56,   54,   54,  152,   61,   66,   60,   43,   57,
-       57,   48,   51,   61,   63,   48,   51,   64,   67,   80,
-      153,  245,   58,   58,   81,   68,   38,   44,   73,   73,
-
-       65,   73,   74,   73,   73,   87,   73,   74,   83,   84,
-       94,   83,   85,   86,   89,   85,  258,   90,   88,   92,
-       93,  112,   92,   95,   97,   98,  113,   97,   73,   73,
-       91,   73,   74,  105,  105,  105,  110,  110,  110,  122,
-      112,  114,  123,   83,   84,  115,   83,   85,   86,  166,
-       85,  134,  116,  117,  106,  116,  114,  111,  118,  119,
-      115,  118,   92,   93,  114,   92,  120,  121,  115,  120,
-       97,   98,  135,   97,  105,  105,  105,   73,   73,  132,
-       73,   74,  133,  110,  110,  110,  116,  117,  229,  116,
-      142,  136,  255,  143,   80,  106,  129,  118,  119,   81,
-
-      118,  182,  120,  121,  111,  120,  154,  154,  154,  154,
-      154,  154,  173,  173,  173,  180,  180,  153,  180,  173,
-      173,  173,  184,  184,  184,  199,  200,  155,  215,  200,
-      155,  228,  229,  174,  184,  184,  184,  196,  196,  196,
-      174,  241,  229,  185,  196,  196,  196,  209,  209,  209,
-      209,  209,  209,  244,  245,  185,  244,  245,  197,  224,
-      224,  224,  224,  224,  224,  197,  256,  245,  210,  252,
-      249,  210,  236,  236,  236,  236,  236,  236,  248,  247,
-      225,  246,  243,  225,  250,  250,  250,  253,  253,  253,
-      250,  250,  250,  237,  240,  239,  237,  253,  253,  253,
-
-      259,  259,  259,  238,  235,  251,  234,  233,  254,  232,
-      231,  251,  259,  259,  259,  230,  200,  227,  254,  226,
-      223,  260,  222,  221,  220,  219,  218,  217,  214,  213,
-      212,  211,  208,  260,   39,   39,   39,   39,   45,   45,
-       45,   45,   49,   49,   49,   49,   52,   52,   52,   52,
-       55,   55,   55,   55,   59,   59,   59,   59,   82,  207,
-      206,   82,  216,  216,  205,  216,  242,  242,  204,  242,
-      257,  257,  203,  257,  153,  202,  201,  157,  198,  195,
-      194,  193,  192,  191,  190,  189,  188,  187,  186,  183,
-      181,  179,  178,  177,  176,  175,  172,  171,  170,  169,
-
-      168,  167,  165,  164,  163,  162,  161,  160,  159,  158,
-      157,  156,   81,   80,   76,   75,  151,  150,  149,  148,
-      147,  146,  145,  144,  141,  140,  139,  138,  137,  131,
-      130,  129,  128,  127,  126,  125,  124,  109,  108,  107,
-      104,  103,  102,  101,  100,   99,   96,   81,   80,   79,
-       78,   77,   76,   75,   72,   71,   70,   69,   62,  261,
-       40,   15,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261
+       16,   17,   18,   16,   17,   16,   16,   16,   16,   19,
+       19,   16,   20,   21,   22,   22,   23,   24,   22,   22,
+       22,   22,   22,   22,   22,   19,   16,   16,   22,   22,
+       22,   25,   22,   22,   22,   22,   22,   22,   22,   22,
+       26,   27,   28,   22,   22,   29,   16,   30,   16,   16,
+       31,   32,   33,   34,   32,   50,   35,   36,   40,   41,
+       42,   46,   47,   50,   46,   46,   47,   53,   46,   53,
+       56,   69,   37,   57,   68,   54,   58,   54,   70,   51,
+      254,   59,   56,   43,   62,   57,   48,   51,   58,   62,
+       48,  119,   63,   59,   60,   65,   82,   63,   66,   92,
+
+       38,   89,   44,   83,   75,   75,   60,   75,   92,   76,
+      119,   67,   75,   75,   90,   75,  267,   76,   85,   86,
+       93,   85,   87,   88,   96,   87,   95,   97,   99,  100,
+      101,   99,  104,  105,  120,  104,   75,   75,   92,   75,
+       98,   76,  238,  102,  112,  112,  112,  117,  117,  117,
+      153,  121,   92,   85,   86,  122,   85,   87,   88,   93,
+       87,  123,  124,  102,  123,  113,  125,   91,  118,  125,
+       95,  126,   94,  161,  126,  127,  128,  143,  127,   99,
+      100,  121,   99,  129,  130,  122,  129,  104,  105,  131,
+      104,  162,  132,  112,  112,  112,   75,   75,  141,   75,
+
+      144,   76,  142,  117,  117,  117,  123,  124,  264,  123,
+      261,   82,  125,   91,  113,  125,   92,  138,   83,  145,
+      126,   94,  258,  126,  118,  127,  128,   92,  127,  257,
+      151,  129,  130,  152,  129,  175,  191,   93,  163,  163,
+      163,  163,  163,  163,  256,   95,   98,  182,  182,  182,
+      189,  189,  121,  189,  162,  255,  122,  208,  209,  164,
+      224,  209,  164,  182,  182,  182,  237,  238,  183,  193,
+      193,  193,  193,  193,  193,  205,  205,  205,  205,  205,
+      205,  218,  218,  218,  183,  218,  218,  218,  250,  238,
+      194,  253,  254,  194,  253,  254,  206,  265,  254,  206,
+
+      252,  249,  219,  233,  233,  233,  219,  233,  233,  233,
+      245,  245,  245,  245,  245,  245,  259,  259,  259,  262,
+      262,  262,  248,  247,  234,  259,  259,  259,  234,  244,
+      243,  246,  242,  241,  246,  240,  239,  260,  209,  236,
+      263,  262,  262,  262,  235,  232,  260,  268,  268,  268,
+      268,  268,  268,  231,  230,  229,  228,  227,  226,  223,
+      222,  221,  263,  220,  217,  216,  215,  214,  269,  213,
+      212,  269,   39,   39,   39,   39,   45,   45,   45,   45,
+       49,   49,   49,   49,   52,   52,   52,   52,   55,   55,
+       55,   55,   61,   61,   61,   61,   84,  162,  211,   84,
+
+       91,   91,  210,   91,   94,   94,  166,   94,  225,  225,
+      207,  225,  251,  251,  204,  251,  266,  266,  203,  266,
+      202,  201,  200,  199,  198,  197,  196,  195,  192,  190,
+      188,  187,  186,  185,  184,  181,  180,  179,  178,  177,
+      176,  174,  173,  172,  171,  170,  169,  168,  167,  166,
+      165,   83,   82,   78,   77,  160,  159,  158,  157,  156,
+      155,  154,  150,  149,  148,  147,  146,  140,  139,  138,
+      137,  136,  135,  134,  133,  116,  115,  114,  111,  110,
+      109,  108,  107,  106,  103,   83,   82,   81,   80,   79,
+       78,   77,   74,   73,   72,   71,   64,  270,   40,   15,
+
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270
     } ;
 
-static const flex_int16_t yy_chk[512] =
+static const flex_int16_t yy_chk[552] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    2,
-        2,    2,    2,    2,    2,    4,    4,    4,    5,    5,
-        7,    5,    6,    6,    8,    6,    9,   10,    2,   13,
-       11,   12,    9,   10,  137,   13,  268,   14,    4,   11,
-       12,    5,    7,   14,   21,    6,    8,   21,   25,   44,
-      137,  260,   11,   12,   44,   25,    2,    4,   32,   32,
-
-       21,   32,   32,   33,   33,   54,   33,   33,   48,   48,
-       61,   48,   51,   51,   57,   51,  256,   57,   54,   58,
-       58,   80,   58,   61,   65,   65,   81,   65,   73,   73,
-       57,   73,   73,   75,   75,   75,   79,   79,   79,   98,
-       80,   81,   98,   83,   83,   81,   83,   85,   85,  155,
-       85,  111,   88,   88,   75,   88,  185,   79,   91,   91,
-      185,   91,   92,   92,  155,   92,   95,   95,  155,   95,
-       97,   97,  111,   97,  105,  105,  105,  109,  109,  109,
-      109,  109,  109,  110,  110,  110,  116,  116,  251,  116,
-      119,  111,  249,  119,  136,  105,  109,  118,  118,  136,
-
-      118,  174,  120,  120,  110,  120,  138,  138,  138,  154,
-      154,  154,  164,  164,  164,  171,  171,  174,  171,  173,
-      173,  173,  176,  176,  176,  193,  193,  138,  210,  210,
-      154,  223,  223,  164,  184,  184,  184,  190,  190,  190,
-      173,  237,  237,  176,  196,  196,  196,  204,  204,  204,
-      209,  209,  209,  240,  240,  184,  252,  252,  190,  220,
-      220,  220,  224,  224,  224,  196,  254,  254,  204,  247,
-      245,  209,  232,  232,  232,  236,  236,  236,  244,  243,
-      220,  241,  239,  224,  246,  246,  246,  248,  248,  248,
-      250,  250,  250,  232,  235,  234,  236,  253,  253,  253,
-
-      258,  258,  258,  233,  231,  246,  230,  229,  248,  228,
-      227,  250,  259,  259,  259,  226,  225,  222,  253,  221,
-      219,  258,  218,  217,  215,  214,  213,  212,  208,  207,
-      206,  205,  203,  259,  262,  262,  262,  262,  263,  263,
-      263,  263,  264,  264,  264,  264,  265,  265,  265,  265,
-      266,  266,  266,  266,  267,  267,  267,  267,  269,  202,
-      201,  269,  270,  270,  200,  270,  271,  271,  199,  271,
-      272,  272,  198,  272,  197,  195,  194,  192,  191,  189,
-      188,  187,  186,  183,  182,  181,  179,  178,  177,  175,
-      172,  170,  168,  167,  166,  165,  163,  162,  161,  160,
-
-      157,  156,  153,  152,  151,  150,  149,  147,  146,  145,
-      140,  139,  135,  134,  133,  132,  131,  130,  129,  128,
-      127,  126,  125,  121,  117,  115,  114,  113,  112,  108,
-      107,  106,  103,  102,  101,  100,   99,   78,   77,   76,
-       72,   71,   70,   69,   68,   67,   62,   43,   42,   41,
-       38,   37,   36,   34,   31,   28,   27,   26,   20,   15,
-        3,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261
+        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
+        4,    5,    5,    8,    5,    6,    6,    9,    6,   10,
+       11,   25,    2,   11,  277,    9,   11,   10,   25,    7,
+      269,   11,   12,    4,   13,   12,    5,    8,   12,   14,
+        6,   82,   13,   12,   11,   21,   44,   14,   21,   57,
+
+        2,   54,    4,   44,   32,   32,   12,   32,   58,   32,
+       82,   21,   33,   33,   54,   33,  265,   33,   48,   48,
+       57,   48,   51,   51,   59,   51,   58,   59,   60,   60,
+       63,   60,   67,   67,   83,   67,   75,   75,   91,   75,
+       59,   75,  260,   63,   77,   77,   77,   81,   81,   81,
+      130,   83,   94,   85,   85,   83,   85,   87,   87,   91,
+       87,   90,   90,  130,   90,   77,   93,   93,   81,   93,
+       94,   95,   95,  146,   95,   98,   98,  118,   98,   99,
+       99,  194,   99,  102,  102,  194,  102,  104,  104,  105,
+      104,  146,  105,  112,  112,  112,  116,  116,  116,  116,
+
+      118,  116,  116,  117,  117,  117,  123,  123,  258,  123,
+      256,  145,  125,  125,  112,  125,  125,  116,  145,  118,
+      126,  126,  254,  126,  117,  127,  127,  126,  127,  253,
+      128,  129,  129,  128,  129,  164,  183,  125,  147,  147,
+      147,  163,  163,  163,  252,  126,  128,  173,  173,  173,
+      180,  180,  164,  180,  183,  250,  164,  202,  202,  147,
+      219,  219,  163,  182,  182,  182,  232,  232,  173,  185,
+      185,  185,  193,  193,  193,  199,  199,  199,  205,  205,
+      205,  213,  213,  213,  182,  218,  218,  218,  246,  246,
+      185,  249,  249,  193,  261,  261,  199,  263,  263,  205,
+
+      248,  244,  213,  229,  229,  229,  218,  233,  233,  233,
+      241,  241,  241,  245,  245,  245,  255,  255,  255,  257,
+      257,  257,  243,  242,  229,  259,  259,  259,  233,  240,
+      239,  241,  238,  237,  245,  236,  235,  255,  234,  231,
+      257,  262,  262,  262,  230,  228,  259,  267,  267,  267,
+      268,  268,  268,  227,  226,  224,  223,  222,  221,  217,
+      216,  215,  262,  214,  212,  211,  210,  209,  267,  208,
+      207,  268,  271,  271,  271,  271,  272,  272,  272,  272,
+      273,  273,  273,  273,  274,  274,  274,  274,  275,  275,
+      275,  275,  276,  276,  276,  276,  278,  206,  204,  278,
+
+      279,  279,  203,  279,  280,  280,  201,  280,  281,  281,
+      200,  281,  282,  282,  198,  282,  283,  283,  197,  283,
+      196,  195,  192,  191,  190,  188,  187,  186,  184,  181,
+      179,  177,  176,  175,  174,  172,  171,  170,  169,  166,
+      165,  162,  161,  160,  159,  158,  156,  155,  154,  149,
+      148,  144,  143,  142,  141,  140,  139,  138,  137,  136,
+      135,  134,  124,  122,  121,  120,  119,  115,  114,  113,
+      110,  109,  108,  107,  106,   80,   79,   78,   74,   73,
+       72,   71,   70,   69,   64,   43,   42,   41,   38,   37,
+       36,   34,   31,   28,   27,   26,   20,   15,    3,  270,
+
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[50] =
+static const flex_int32_t yy_rule_can_match_eol[51] =
     {   0,
 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 
-    1, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
+    1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -957,13 +968,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 262 )
+				if ( yy_current_state >= 271 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 261 );
+		while ( yy_current_state != 270 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1099,7 +1110,7 @@ YY_RULE_SETUP
 case 24:
 /* rule 24 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
@@ -1113,71 +1124,72 @@ YY_RULE_SETUP
 case 27:
 /* rule 27 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ /* may contain comment characters */ }
 	YY_BREAK
 case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* line split */ }
 	YY_BREAK
 case 29:
+/* rule 29 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-{ BEGIN(PRE); /* continue PRE line */ }
+{ }
 	YY_BREAK
 case 31:
-/* rule 31 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 33:
+/* rule 33 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* PRE line continues after the comment */ }
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-{ /* UTF-8 byte order mark */ }
+{ }
 	YY_BREAK
 case 35:
-/* rule 35 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* UTF-8 byte order mark */ }
 	YY_BREAK
 case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
-{ /* ignore "extern" keyword */ }
+{ }
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-{ return LEX_STRUCT; }
+{ /* ignore "extern" keyword */ }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return LEX_UNION; }
+{ return LEX_STRUCT; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return LEX_ENUM; }
+{ return LEX_UNION; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-{ return LEX_TYPEDEF; }
+{ return LEX_ENUM; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-{ return LEX_ID; }
+{ return LEX_TYPEDEF; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-{ return LEX_OTHER; }
+{ return LEX_ID; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
@@ -1185,26 +1197,30 @@ YY_RULE_SETUP
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-{ return LEX_CURLY_OPEN; }
+{ return LEX_OTHER; }
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-{ return LEX_CURLY_CLOSE; }
+{ return LEX_CURLY_OPEN; }
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-{ return LEX_EQUAL; }
+{ return LEX_CURLY_CLOSE; }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-{ return LEX_SEMICOLON; }
+{ return LEX_EQUAL; }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ERROR; }
+{ return LEX_SEMICOLON; }
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
+{ set_illegal_char(); return LEX_ERROR; }
+	YY_BREAK
+case 50:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1511,7 +1527,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 262 )
+			if ( yy_current_state >= 271 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1539,11 +1555,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 262 )
+		if ( yy_current_state >= 271 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 261);
+	yy_is_jam = (yy_current_state == 270);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
-- 
2.43.0


From 557709f7ebae1d53d92a7239516407c7250a3faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 13/54] fix: line splits between tokens and more than one
 within comment characters

---
 src/lex.l    |   7 +-
 src/lex.yy.c | 466 ++++++++++++++++++++++++++-------------------------
 2 files changed, 240 insertions(+), 233 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index e55232c..03d07be 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -81,15 +81,15 @@ other               [*,()\[\]]
 <OPTION>.                   { }
 
 "//"                        { BEGIN(COMMENT); /* simple comment */ }
-"/"{split}"/"               { BEGIN(COMMENT); /* simple comment */ }
+"/"{split}+"/"              { BEGIN(COMMENT); /* simple comment */ }
 <COMMENT>{split}            { /* line split */ }
 <COMMENT>\n                 { BEGIN(INITIAL); /* end */ }
 <COMMENT>.                  { }
 
 "/*"                        { BEGIN(C_COMMENT); /* C comment */ }
-"/"{split}"*"               { BEGIN(C_COMMENT); /* C comment */ }
+"/"{split}+"*"              { BEGIN(C_COMMENT); /* C comment */ }
 <C_COMMENT>"*/"             { BEGIN(INITIAL); /* end */ }
-<C_COMMENT>"*"{split}"/"    { BEGIN(INITIAL); /* end */ }
+<C_COMMENT>"*"{split}+"/"   { BEGIN(INITIAL); /* end */ }
 <C_COMMENT>\n               { }
 <C_COMMENT>.                { }
 
@@ -109,6 +109,7 @@ other               [*,()\[\]]
 <PRE_COMMENT>.              { }
 
 {bom}                       { /* UTF-8 byte order mark */ }
+{split}                     { /* line split */ }
 [[:space:]]                 { }
 
 "extern"                    { /* ignore "extern" keyword */ }
diff --git a/src/lex.yy.c b/src/lex.yy.c
index a98d001..cfbf1cb 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 50
-#define YY_END_OF_BUFFER 51
+#define YY_NUM_RULES 51
+#define YY_END_OF_BUFFER 52
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,37 +380,38 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[271] =
+static const flex_int16_t yy_accept[274] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   51,   49,   36,   36,   43,   49,
-       49,   42,   48,   47,   42,   42,   42,   42,   45,   46,
-       49,   36,   36,   49,   22,   49,   42,   49,    5,    4,
-        5,    5,    5,    5,    8,   10,    9,    8,   15,   14,
-       15,   21,   20,   21,   30,   29,   30,   30,   30,   30,
-       34,   33,   34,    0,   16,   11,    0,   42,   42,   42,
-       42,   42,   42,    0,    0,   22,    0,    0,   42,    0,
-        0,    0,    0,    8,    0,    7,    0,   13,   18,    0,
-        0,   27,    0,    0,    0,   23,   25,    0,    0,   28,
-
-       31,    0,   44,    0,    0,   42,   42,   42,   42,   42,
-       35,    0,    0,    0,   42,   35,    0,    0,    0,    0,
+        0,    0,    0,    0,   52,   50,   37,   37,   44,   50,
+       50,   43,   49,   48,   50,   43,   43,   43,   43,   46,
+       47,   50,   37,   37,   50,   22,   50,   43,   50,    5,
+        4,    5,    5,    5,    5,    8,   10,    9,    8,   15,
+       14,   15,   21,   20,   21,   30,   29,   30,   30,   30,
+       30,   34,   33,   34,    0,   16,   11,    0,   43,    0,
+       36,   43,   43,   43,   43,   43,    0,    0,   22,    0,
+        0,   43,    0,    0,    0,    0,    8,    0,    7,    0,
+       13,   18,    0,    0,   27,    0,    0,    0,   23,   25,
+
+        0,    0,   28,   31,    0,   45,    0,    0,   43,   43,
+       43,   43,   43,   35,    0,    0,    0,   43,   35,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       17,   12,   40,   42,   42,   42,   42,    0,    0,   42,
-        0,    0,    0,    0,    0,    0,    0,    0,    0,   19,
-       24,   26,   32,   42,   42,   42,   39,    0,    0,   42,
-        0,    0,    0,    0,    0,    0,   37,   38,   42,    0,
-        0,   42,    0,    0,    0,    0,    0,   41,    0,    0,
-       42,    0,    0,    0,    0,    0,    0,    0,    6,   42,
-        0,    0,    0,    0,    0,    0,    0,   42,    0,    0,
-
-        0,    0,    0,   42,    0,    0,    0,    0,    0,    0,
-       42,    0,    0,    0,    0,   42,    0,    0,    0,    2,
-        0,   42,    0,    0,    2,    0,   42,    0,    0,    0,
-       42,    0,    0,    0,    0,   42,    0,    0,    0,   42,
-        0,    0,    0,   42,    0,    0,    3,    0,   42,    0,
-        3,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    1,    0,    1,    0,    0,    0,    0
+        0,    0,    0,   17,   12,   41,   43,   43,   43,   43,
+        0,    0,   43,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,   19,   24,   26,   32,   43,   43,   43,   40,
+        0,    0,   43,    0,    0,    0,    0,    0,    0,   38,
+       39,   43,    0,    0,   43,    0,    0,    0,    0,    0,
+       42,    0,    0,   43,    0,    0,    0,    0,    0,    0,
+        0,    6,   43,    0,    0,    0,    0,    0,    0,    0,
+
+       43,    0,    0,    0,    0,    0,   43,    0,    0,    0,
+        0,    0,    0,   43,    0,    0,    0,    0,   43,    0,
+        0,    0,    2,    0,   43,    0,    0,    2,    0,   43,
+        0,    0,    0,   43,    0,    0,    0,    0,   43,    0,
+        0,    0,   43,    0,    0,    0,   43,    0,    0,    3,
+        0,   43,    0,    3,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    1,    0,    1,    0,
+        0,    0,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -455,142 +456,142 @@ static const YY_CHAR yy_meta[52] =
         1
     } ;
 
-static const flex_int16_t yy_base[284] =
+static const flex_int16_t yy_base[287] =
     {   0,
-        0,   50,  496,   56,   60,   64,   53,   61,   65,   67,
-       68,   80,   82,   87,  498,  500,  500,  500,  500,  484,
-       85,    0,  500,  500,   35,  454,  450,  457,  500,  500,
-      444,  103,  111,  466,  500,  453,  450,  440,  500,  500,
-      462,  482,  474,   92,    0,  500,  500,  117,  500,  500,
-      121,  500,  500,   88,  500,  500,   94,  100,  114,  127,
-      500,  500,  117,  472,  500,  500,  131,    0,  441,  441,
-      442,  442,  446,  429,  135,  500,  130,  439,  448,  426,
-      133,   64,  131,    0,  152,  500,  156,  500,  500,  160,
-      133,  500,  165,  144,  170,  500,  500,  174,  178,  500,
-
-      500,  182,  500,  186,  179,  439,  442,  430,  440,  433,
-      500,  179,  447,  427,  431,  195,  189,  173,  455,  440,
-      422,  435,  205,  449,  211,  219,  224,  220,  230,  137,
-      500,  500,    0,  422,  431,  429,  422,  418,  423,  415,
-      429,  416,  448,  440,  207,  170,  224,  414,  410,  500,
-      500,  500,  500,  412,  406,  415,    0,  417,  407,  409,
-      417,  413,  227,  232,  411,  420,    0,    0,  406,  401,
-      400,  407,  233,  395,  408,  391,  400,    0,  390,  249,
-      388,  249,  233,  393,  255,  394,  397,  391,  500,  391,
-      398,  398,  258,  161,  384,  386,  390,  377,  261,  382,
-
-      370,  254,  361,  362,  264,  376,  331,  344,  353,  333,
-      342,  345,  267,  320,  324,  324,  328,  271,  257,    0,
-      322,  324,  327,  330,    0,  331,  312,  311,  289,  308,
-      320,  263,  293,  334,  303,  304,  308,  318,  289,  300,
-      296,  280,  303,  267,  299,  285,    0,  269,  288,  230,
-        0,  215,  204,  208,  302,  176,  305,  165,  311,  138,
-      291,  327,  294,    0,   91,    0,  333,  336,   76,  500,
-      372,  376,  380,  384,  388,  392,   71,  396,  400,  404,
-      408,  412,  416
+        0,   50,  504,   56,   60,   64,   53,   61,   65,   67,
+       68,   80,   82,   87,  506,  508,  508,  508,  508,  492,
+       85,    0,  508,  508,  103,   35,  462,  458,  465,  508,
+      508,  452,  108,  114,  474,  508,  461,  458,  448,  508,
+      508,  470,  490,  482,   92,    0,  508,  508,  120,  508,
+      508,  124,  508,  508,  104,  508,  508,   75,  105,  119,
+      132,  508,  508,  114,  480,  508,  508,  137,    0,  142,
+      508,  449,  449,  450,  450,  454,  437,  146,  508,  139,
+      447,  456,  434,  142,   96,  146,    0,  158,  508,  163,
+      508,  508,  167,  146,  508,  174,  111,  178,  508,  508,
+
+      182,  186,  508,  508,  190,  508,  194,  187,  447,  450,
+      438,  448,  441,  508,  187,  455,  435,  439,  203,  200,
+      181,  463,  448,  430,  443,  216,  186,  227,  222,  232,
+      228,  238,  224,  508,  508,    0,  431,  440,  438,  431,
+      427,  432,  424,  438,  425,  457,  449,  240,  160,  231,
+      423,  419,  508,  508,  508,  508,  421,  415,  424,    0,
+      426,  416,  418,  426,  422,  241,  240,  420,  429,    0,
+        0,  415,  410,  409,  416,  247,  404,  417,  400,  409,
+        0,  399,  266,  397,  257,  190,  402,  263,  403,  406,
+      400,  508,  400,  407,  407,  269,  245,  393,  395,  399,
+
+      386,  272,  391,  379,  255,  370,  371,  275,  385,  340,
+      353,  363,  342,  351,  354,  279,  329,  334,  333,  337,
+      285,  271,    0,  331,  333,  336,  339,    0,  340,  321,
+      319,  297,  316,  328,  277,  301,  342,  311,  312,  316,
+      326,  290,  301,  307,  276,  299,  218,  310,  293,    0,
+      218,  299,  196,    0,  190,  164,  159,  313,  127,  319,
+       92,  323,  104,  302,  335,  305,    0,   74,    0,  341,
+      345,   87,  508,  381,  385,  389,  393,  397,  401,   71,
+      405,  409,  413,  417,  421,  425
     } ;
 
-static const flex_int16_t yy_def[284] =
+static const flex_int16_t yy_def[287] =
     {   0,
-      270,    1,  271,  271,  272,  272,  273,  273,  274,  274,
-      275,  275,  276,  276,  270,  270,  270,  270,  270,  270,
-      270,  277,  270,  270,  277,  277,  277,  277,  270,  270,
-      270,  270,  270,  270,  270,  270,  277,  270,  270,  270,
-      270,  270,  270,  270,  278,  270,  270,  278,  270,  270,
-      270,  270,  270,  270,  270,  270,  279,  280,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  277,  277,  277,
-      277,  277,  277,  270,  270,  270,  270,  270,  277,  270,
-      270,  270,  270,  278,  270,  270,  270,  270,  270,  270,
-      279,  270,  279,  280,  280,  270,  270,  270,  270,  270,
-
-      270,  270,  270,  270,  270,  277,  277,  277,  277,  277,
-      270,  270,  270,  270,  277,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  279,  280,  270,  270,  270,  270,
-      270,  270,  277,  277,  277,  277,  277,  270,  270,  277,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  277,  277,  277,  277,  270,  270,  277,
-      270,  270,  270,  270,  270,  270,  277,  277,  277,  270,
-      270,  277,  270,  270,  270,  270,  270,  277,  270,  270,
-      277,  270,  270,  270,  270,  270,  270,  270,  270,  277,
-      270,  270,  270,  270,  270,  270,  270,  277,  270,  270,
-
-      270,  270,  270,  277,  270,  270,  270,  270,  270,  270,
-      277,  270,  270,  270,  270,  277,  270,  270,  270,  281,
-      270,  277,  270,  270,  281,  270,  277,  270,  270,  270,
-      277,  270,  270,  270,  270,  277,  270,  270,  270,  277,
-      270,  270,  270,  277,  270,  270,  282,  270,  277,  270,
-      282,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  283,  270,  283,  270,  270,  270,    0,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270
+      273,    1,  274,  274,  275,  275,  276,  276,  277,  277,
+      278,  278,  279,  279,  273,  273,  273,  273,  273,  273,
+      273,  280,  273,  273,  273,  280,  280,  280,  280,  273,
+      273,  273,  273,  273,  273,  273,  273,  280,  273,  273,
+      273,  273,  273,  273,  273,  281,  273,  273,  281,  273,
+      273,  273,  273,  273,  273,  273,  273,  282,  283,  273,
+      273,  273,  273,  273,  273,  273,  273,  273,  280,  273,
+      273,  280,  280,  280,  280,  280,  273,  273,  273,  273,
+      273,  280,  273,  273,  273,  273,  281,  273,  273,  273,
+      273,  273,  273,  282,  273,  282,  283,  283,  273,  273,
+
+      273,  273,  273,  273,  273,  273,  273,  273,  280,  280,
+      280,  280,  280,  273,  273,  273,  273,  280,  273,  273,
+      273,  273,  273,  273,  273,  273,  273,  282,  283,  273,
+      273,  273,  273,  273,  273,  280,  280,  280,  280,  280,
+      273,  273,  280,  273,  273,  273,  273,  273,  273,  273,
+      273,  273,  273,  273,  273,  273,  280,  280,  280,  280,
+      273,  273,  280,  273,  273,  273,  273,  273,  273,  280,
+      280,  280,  273,  273,  280,  273,  273,  273,  273,  273,
+      280,  273,  273,  280,  273,  273,  273,  273,  273,  273,
+      273,  273,  280,  273,  273,  273,  273,  273,  273,  273,
+
+      280,  273,  273,  273,  273,  273,  280,  273,  273,  273,
+      273,  273,  273,  280,  273,  273,  273,  273,  280,  273,
+      273,  273,  284,  273,  280,  273,  273,  284,  273,  280,
+      273,  273,  273,  280,  273,  273,  273,  273,  280,  273,
+      273,  273,  280,  273,  273,  273,  280,  273,  273,  285,
+      273,  280,  273,  285,  273,  273,  273,  273,  273,  273,
+      273,  273,  273,  273,  273,  273,  286,  273,  286,  273,
+      273,  273,    0,  273,  273,  273,  273,  273,  273,  273,
+      273,  273,  273,  273,  273,  273
     } ;
 
-static const flex_int16_t yy_nxt[552] =
+static const flex_int16_t yy_nxt[560] =
     {   0,
        16,   17,   18,   16,   17,   16,   16,   16,   16,   19,
        19,   16,   20,   21,   22,   22,   23,   24,   22,   22,
-       22,   22,   22,   22,   22,   19,   16,   16,   22,   22,
-       22,   25,   22,   22,   22,   22,   22,   22,   22,   22,
-       26,   27,   28,   22,   22,   29,   16,   30,   16,   16,
-       31,   32,   33,   34,   32,   50,   35,   36,   40,   41,
-       42,   46,   47,   50,   46,   46,   47,   53,   46,   53,
-       56,   69,   37,   57,   68,   54,   58,   54,   70,   51,
-      254,   59,   56,   43,   62,   57,   48,   51,   58,   62,
-       48,  119,   63,   59,   60,   65,   82,   63,   66,   92,
-
-       38,   89,   44,   83,   75,   75,   60,   75,   92,   76,
-      119,   67,   75,   75,   90,   75,  267,   76,   85,   86,
-       93,   85,   87,   88,   96,   87,   95,   97,   99,  100,
-      101,   99,  104,  105,  120,  104,   75,   75,   92,   75,
-       98,   76,  238,  102,  112,  112,  112,  117,  117,  117,
-      153,  121,   92,   85,   86,  122,   85,   87,   88,   93,
-       87,  123,  124,  102,  123,  113,  125,   91,  118,  125,
-       95,  126,   94,  161,  126,  127,  128,  143,  127,   99,
-      100,  121,   99,  129,  130,  122,  129,  104,  105,  131,
-      104,  162,  132,  112,  112,  112,   75,   75,  141,   75,
-
-      144,   76,  142,  117,  117,  117,  123,  124,  264,  123,
-      261,   82,  125,   91,  113,  125,   92,  138,   83,  145,
-      126,   94,  258,  126,  118,  127,  128,   92,  127,  257,
-      151,  129,  130,  152,  129,  175,  191,   93,  163,  163,
-      163,  163,  163,  163,  256,   95,   98,  182,  182,  182,
-      189,  189,  121,  189,  162,  255,  122,  208,  209,  164,
-      224,  209,  164,  182,  182,  182,  237,  238,  183,  193,
-      193,  193,  193,  193,  193,  205,  205,  205,  205,  205,
-      205,  218,  218,  218,  183,  218,  218,  218,  250,  238,
-      194,  253,  254,  194,  253,  254,  206,  265,  254,  206,
-
-      252,  249,  219,  233,  233,  233,  219,  233,  233,  233,
-      245,  245,  245,  245,  245,  245,  259,  259,  259,  262,
-      262,  262,  248,  247,  234,  259,  259,  259,  234,  244,
-      243,  246,  242,  241,  246,  240,  239,  260,  209,  236,
-      263,  262,  262,  262,  235,  232,  260,  268,  268,  268,
-      268,  268,  268,  231,  230,  229,  228,  227,  226,  223,
-      222,  221,  263,  220,  217,  216,  215,  214,  269,  213,
-      212,  269,   39,   39,   39,   39,   45,   45,   45,   45,
-       49,   49,   49,   49,   52,   52,   52,   52,   55,   55,
-       55,   55,   61,   61,   61,   61,   84,  162,  211,   84,
-
-       91,   91,  210,   91,   94,   94,  166,   94,  225,  225,
-      207,  225,  251,  251,  204,  251,  266,  266,  203,  266,
-      202,  201,  200,  199,  198,  197,  196,  195,  192,  190,
-      188,  187,  186,  185,  184,  181,  180,  179,  178,  177,
-      176,  174,  173,  172,  171,  170,  169,  168,  167,  166,
-      165,   83,   82,   78,   77,  160,  159,  158,  157,  156,
-      155,  154,  150,  149,  148,  147,  146,  140,  139,  138,
-      137,  136,  135,  134,  133,  116,  115,  114,  111,  110,
-      109,  108,  107,  106,  103,   83,   82,   81,   80,   79,
-       78,   77,   74,   73,   72,   71,   64,  270,   40,   15,
-
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270
+       22,   22,   22,   22,   22,   19,   25,   16,   22,   22,
+       22,   26,   22,   22,   22,   22,   22,   22,   22,   22,
+       27,   28,   29,   22,   22,   30,   16,   31,   16,   16,
+       32,   33,   34,   35,   33,   51,   36,   37,   41,   42,
+       43,   47,   48,   51,   47,   47,   48,   54,   47,   54,
+       57,   72,   38,   58,   69,   55,   59,   55,   73,   52,
+       95,   60,   57,   44,   63,   58,   49,   52,   59,   63,
+       49,  257,   64,   60,   61,   66,   85,   64,   67,  270,
+
+       39,   96,   45,   86,   70,   71,   61,   70,  241,   78,
+       78,   68,   78,   95,   79,   78,   78,   92,   78,   95,
+       79,   88,   89,  122,   88,   90,   91,  104,   90,   99,
+       93,   98,  100,  102,  103,  267,  102,   98,  107,  108,
+      105,  107,  122,   70,   71,  101,   70,   78,   78,  123,
+       78,   95,   79,  115,  115,  115,  120,  120,  120,   88,
+       89,  264,   88,  164,   90,   91,  124,   90,  126,  127,
+      125,  126,   96,  261,  116,  128,   94,  121,  128,  129,
+       97,  165,  129,  130,  131,  146,  130,  102,  103,  260,
+      102,  132,  133,  194,  132,  107,  108,  134,  107,  153,
+
+      135,  115,  115,  115,   78,   78,  144,   78,  147,   79,
+      145,  165,   93,   68,  120,  120,  120,  126,  127,  259,
+      126,  258,  116,  129,   97,  141,  129,  148,  128,   94,
+       95,  128,   95,  130,  131,  121,  130,  156,  154,  132,
+      133,  155,  132,  178,   85,  166,  166,  166,   98,  255,
+      105,   86,  252,   96,  101,  166,  166,  166,  211,  212,
+      124,  185,  185,  185,  125,  124,  167,  192,  192,  125,
+      192,  185,  185,  185,  227,  212,  167,  196,  196,  196,
+      240,  241,  186,  196,  196,  196,  208,  208,  208,  208,
+      208,  208,  186,  221,  221,  221,  253,  241,  197,  221,
+
+      221,  221,  256,  257,  197,  256,  257,  209,  268,  257,
+      209,  236,  236,  236,  222,  236,  236,  236,  251,  250,
+      222,  248,  248,  248,  248,  248,  248,  262,  262,  262,
+      247,  246,  237,  265,  265,  265,  237,  262,  262,  262,
+      245,  244,  249,  243,  242,  249,  212,  239,  263,  265,
+      265,  265,  238,  235,  266,  271,  271,  271,  263,  271,
+      271,  271,  234,  233,  232,  231,  230,  229,  226,  225,
+      266,  224,  223,  220,  219,  218,  272,  217,  216,  215,
+      272,   40,   40,   40,   40,   46,   46,   46,   46,   50,
+       50,   50,   50,   53,   53,   53,   53,   56,   56,   56,
+
+       56,   62,   62,   62,   62,   87,  165,  214,   87,   94,
+       94,  213,   94,   97,   97,  169,   97,  228,  228,  210,
+      228,  254,  254,  207,  254,  269,  269,  206,  269,  205,
+      204,  203,  202,  201,  200,  199,  198,  195,  193,  191,
+      190,  189,  188,  187,  184,  183,  182,  181,  180,  179,
+      177,  176,  175,  174,  173,  172,  171,  170,  169,  168,
+       86,   85,   81,   80,  163,  162,  161,  160,  159,  158,
+      157,  152,  151,  150,  149,  143,  142,  141,  140,  139,
+      138,  137,  136,  119,  118,  117,  114,  113,  112,  111,
+      110,  109,  106,   86,   85,   84,   83,   82,   81,   80,
+
+       77,   76,   75,   74,   65,  273,   41,   15,  273,  273,
+      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
+      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
+      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
+      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
+      273,  273,  273,  273,  273,  273,  273,  273,  273
     } ;
 
-static const flex_int16_t yy_chk[552] =
+static const flex_int16_t yy_chk[560] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -599,68 +600,68 @@ static const flex_int16_t yy_chk[552] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
         4,    5,    5,    8,    5,    6,    6,    9,    6,   10,
-       11,   25,    2,   11,  277,    9,   11,   10,   25,    7,
-      269,   11,   12,    4,   13,   12,    5,    8,   12,   14,
-        6,   82,   13,   12,   11,   21,   44,   14,   21,   57,
-
-        2,   54,    4,   44,   32,   32,   12,   32,   58,   32,
-       82,   21,   33,   33,   54,   33,  265,   33,   48,   48,
-       57,   48,   51,   51,   59,   51,   58,   59,   60,   60,
-       63,   60,   67,   67,   83,   67,   75,   75,   91,   75,
-       59,   75,  260,   63,   77,   77,   77,   81,   81,   81,
-      130,   83,   94,   85,   85,   83,   85,   87,   87,   91,
-       87,   90,   90,  130,   90,   77,   93,   93,   81,   93,
-       94,   95,   95,  146,   95,   98,   98,  118,   98,   99,
-       99,  194,   99,  102,  102,  194,  102,  104,  104,  105,
-      104,  146,  105,  112,  112,  112,  116,  116,  116,  116,
-
-      118,  116,  116,  117,  117,  117,  123,  123,  258,  123,
-      256,  145,  125,  125,  112,  125,  125,  116,  145,  118,
-      126,  126,  254,  126,  117,  127,  127,  126,  127,  253,
-      128,  129,  129,  128,  129,  164,  183,  125,  147,  147,
-      147,  163,  163,  163,  252,  126,  128,  173,  173,  173,
-      180,  180,  164,  180,  183,  250,  164,  202,  202,  147,
-      219,  219,  163,  182,  182,  182,  232,  232,  173,  185,
-      185,  185,  193,  193,  193,  199,  199,  199,  205,  205,
-      205,  213,  213,  213,  182,  218,  218,  218,  246,  246,
-      185,  249,  249,  193,  261,  261,  199,  263,  263,  205,
-
-      248,  244,  213,  229,  229,  229,  218,  233,  233,  233,
-      241,  241,  241,  245,  245,  245,  255,  255,  255,  257,
-      257,  257,  243,  242,  229,  259,  259,  259,  233,  240,
-      239,  241,  238,  237,  245,  236,  235,  255,  234,  231,
-      257,  262,  262,  262,  230,  228,  259,  267,  267,  267,
-      268,  268,  268,  227,  226,  224,  223,  222,  221,  217,
-      216,  215,  262,  214,  212,  211,  210,  209,  267,  208,
-      207,  268,  271,  271,  271,  271,  272,  272,  272,  272,
-      273,  273,  273,  273,  274,  274,  274,  274,  275,  275,
-      275,  275,  276,  276,  276,  276,  278,  206,  204,  278,
-
-      279,  279,  203,  279,  280,  280,  201,  280,  281,  281,
-      200,  281,  282,  282,  198,  282,  283,  283,  197,  283,
-      196,  195,  192,  191,  190,  188,  187,  186,  184,  181,
-      179,  177,  176,  175,  174,  172,  171,  170,  169,  166,
-      165,  162,  161,  160,  159,  158,  156,  155,  154,  149,
-      148,  144,  143,  142,  141,  140,  139,  138,  137,  136,
-      135,  134,  124,  122,  121,  120,  119,  115,  114,  113,
-      110,  109,  108,  107,  106,   80,   79,   78,   74,   73,
-       72,   71,   70,   69,   64,   43,   42,   41,   38,   37,
-       36,   34,   31,   28,   27,   26,   20,   15,    3,  270,
-
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270
+       11,   26,    2,   11,  280,    9,   11,   10,   26,    7,
+       58,   11,   12,    4,   13,   12,    5,    8,   12,   14,
+        6,  272,   13,   12,   11,   21,   45,   14,   21,  268,
+
+        2,   58,    4,   45,   25,   25,   12,   25,  263,   33,
+       33,   21,   33,   59,   33,   34,   34,   55,   34,   97,
+       34,   49,   49,   85,   49,   52,   52,   64,   52,   60,
+       55,   59,   60,   61,   61,  261,   61,   97,   68,   68,
+       64,   68,   85,   70,   70,   60,   70,   78,   78,   86,
+       78,   94,   78,   80,   80,   80,   84,   84,   84,   88,
+       88,  259,   88,  149,   90,   90,   86,   90,   93,   93,
+       86,   93,   94,  257,   80,   96,   96,   84,   96,   98,
+       98,  149,   98,  101,  101,  121,  101,  102,  102,  256,
+      102,  105,  105,  186,  105,  107,  107,  108,  107,  127,
+
+      108,  115,  115,  115,  119,  119,  119,  119,  121,  119,
+      119,  186,  127,  108,  120,  120,  120,  126,  126,  255,
+      126,  253,  115,  129,  129,  119,  129,  121,  128,  128,
+      129,  128,  128,  130,  130,  120,  130,  133,  131,  132,
+      132,  131,  132,  167,  148,  150,  150,  150,  129,  251,
+      133,  148,  247,  128,  131,  166,  166,  166,  205,  205,
+      167,  176,  176,  176,  167,  197,  150,  183,  183,  197,
+      183,  185,  185,  185,  222,  222,  166,  188,  188,  188,
+      235,  235,  176,  196,  196,  196,  202,  202,  202,  208,
+      208,  208,  185,  216,  216,  216,  249,  249,  188,  221,
+
+      221,  221,  252,  252,  196,  264,  264,  202,  266,  266,
+      208,  232,  232,  232,  216,  236,  236,  236,  246,  245,
+      221,  244,  244,  244,  248,  248,  248,  258,  258,  258,
+      243,  242,  232,  260,  260,  260,  236,  262,  262,  262,
+      241,  240,  244,  239,  238,  248,  237,  234,  258,  265,
+      265,  265,  233,  231,  260,  270,  270,  270,  262,  271,
+      271,  271,  230,  229,  227,  226,  225,  224,  220,  219,
+      265,  218,  217,  215,  214,  213,  270,  212,  211,  210,
+      271,  274,  274,  274,  274,  275,  275,  275,  275,  276,
+      276,  276,  276,  277,  277,  277,  277,  278,  278,  278,
+
+      278,  279,  279,  279,  279,  281,  209,  207,  281,  282,
+      282,  206,  282,  283,  283,  204,  283,  284,  284,  203,
+      284,  285,  285,  201,  285,  286,  286,  200,  286,  199,
+      198,  195,  194,  193,  191,  190,  189,  187,  184,  182,
+      180,  179,  178,  177,  175,  174,  173,  172,  169,  168,
+      165,  164,  163,  162,  161,  159,  158,  157,  152,  151,
+      147,  146,  145,  144,  143,  142,  141,  140,  139,  138,
+      137,  125,  124,  123,  122,  118,  117,  116,  113,  112,
+      111,  110,  109,   83,   82,   81,   77,   76,   75,   74,
+       73,   72,   65,   44,   43,   42,   39,   38,   37,   35,
+
+       32,   29,   28,   27,   20,   15,    3,  273,  273,  273,
+      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
+      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
+      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
+      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
+      273,  273,  273,  273,  273,  273,  273,  273,  273
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[51] =
+static const flex_int32_t yy_rule_can_match_eol[52] =
     {   0,
 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 
-    1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
+    1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -968,13 +969,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 271 )
+				if ( yy_current_state >= 274 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 270 );
+		while ( yy_current_state != 273 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1165,35 +1166,36 @@ YY_RULE_SETUP
 case 36:
 /* rule 36 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* line split */ }
 	YY_BREAK
 case 37:
+/* rule 37 can match eol */
 YY_RULE_SETUP
-{ /* ignore "extern" keyword */ }
+{ }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return LEX_STRUCT; }
+{ /* ignore "extern" keyword */ }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return LEX_UNION; }
+{ return LEX_STRUCT; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-{ return LEX_ENUM; }
+{ return LEX_UNION; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-{ return LEX_TYPEDEF; }
+{ return LEX_ENUM; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-{ return LEX_ID; }
+{ return LEX_TYPEDEF; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-{ return LEX_OTHER; }
+{ return LEX_ID; }
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
@@ -1201,26 +1203,30 @@ YY_RULE_SETUP
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-{ return LEX_CURLY_OPEN; }
+{ return LEX_OTHER; }
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-{ return LEX_CURLY_CLOSE; }
+{ return LEX_CURLY_OPEN; }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-{ return LEX_EQUAL; }
+{ return LEX_CURLY_CLOSE; }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-{ return LEX_SEMICOLON; }
+{ return LEX_EQUAL; }
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ERROR; }
+{ return LEX_SEMICOLON; }
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
+{ set_illegal_char(); return LEX_ERROR; }
+	YY_BREAK
+case 51:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1527,7 +1533,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 271 )
+			if ( yy_current_state >= 274 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1555,11 +1561,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 271 )
+		if ( yy_current_state >= 274 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 270);
+	yy_is_jam = (yy_current_state == 273);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
-- 
2.43.0


From 108a249693f9e5c2866697c40dae3a6bea8af3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 14/54] fix: ignore everything within struct, union, enum and
 typedef blocks

---
 src/lex.h        |   3 +-
 src/lex.l        |   3 +-
 src/lex.yy.c     | 454 ++++++++++++++++++++++++-----------------------
 src/tokenize.cpp |   2 +
 4 files changed, 241 insertions(+), 221 deletions(-)

diff --git a/src/lex.h b/src/lex.h
index ef42a73..7e1a215 100644
--- a/src/lex.h
+++ b/src/lex.h
@@ -22,7 +22,8 @@ enum {
     LEX_CURLY_OPEN,
     LEX_CURLY_CLOSE,
     LEX_EQUAL,
-    LEX_SEMICOLON
+    LEX_SEMICOLON,
+    LEX_ILLEGAL
 };
 
 extern const char *lex_errmsg;
diff --git a/src/lex.l b/src/lex.l
index 03d07be..9b9152d 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -127,7 +127,8 @@ other               [*,()\[\]]
 "="                         { return LEX_EQUAL; }
 ";"                         { return LEX_SEMICOLON; }
 
-.                           { set_illegal_char(); return LEX_ERROR; }
+{literal}                   { return LEX_ILLEGAL; }
+.                           { return LEX_ILLEGAL; }
 
 %%
 
diff --git a/src/lex.yy.c b/src/lex.yy.c
index cfbf1cb..42b0691 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,38 +380,39 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[274] =
+static const flex_int16_t yy_accept[283] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   52,   50,   37,   37,   44,   50,
-       50,   43,   49,   48,   50,   43,   43,   43,   43,   46,
-       47,   50,   37,   37,   50,   22,   50,   43,   50,    5,
-        4,    5,    5,    5,    5,    8,   10,    9,    8,   15,
-       14,   15,   21,   20,   21,   30,   29,   30,   30,   30,
-       30,   34,   33,   34,    0,   16,   11,    0,   43,    0,
-       36,   43,   43,   43,   43,   43,    0,    0,   22,    0,
-        0,   43,    0,    0,    0,    0,    8,    0,    7,    0,
-       13,   18,    0,    0,   27,    0,    0,    0,   23,   25,
-
-        0,    0,   28,   31,    0,   45,    0,    0,   43,   43,
-       43,   43,   43,   35,    0,    0,    0,   43,   35,    0,
+        0,    0,    0,    0,   53,   51,   37,   37,   51,   51,
+       44,   51,   51,   43,   49,   48,   51,   43,   43,   43,
+       43,   46,   47,   51,   37,   37,   51,   22,   51,   43,
+       51,    5,    4,    5,    5,    5,    5,    8,   10,    9,
+        8,   15,   14,   15,   21,   20,   21,   30,   29,   30,
+       30,   30,   30,   34,   33,   34,    0,   50,    0,    0,
+        0,    0,   16,   11,    0,   43,    0,   36,   43,   43,
+       43,   43,   43,    0,    0,   22,    0,    0,   43,    0,
+        0,    0,    0,    8,    0,    7,    0,   13,   18,    0,
+
+        0,   27,    0,    0,    0,   23,   25,    0,    0,   28,
+       31,    0,    0,    0,   45,    0,    0,   43,   43,   43,
+       43,   43,   35,    0,    0,    0,   43,   35,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,   17,   12,   41,   43,   43,   43,   43,
+        0,    0,   17,   12,   41,   43,   43,   43,   43,    0,
+        0,   43,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,   19,   24,   26,   32,   43,   43,   43,   40,    0,
+        0,   43,    0,    0,    0,    0,    0,    0,   38,   39,
+       43,    0,    0,   43,    0,    0,    0,    0,    0,   42,
         0,    0,   43,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,   19,   24,   26,   32,   43,   43,   43,   40,
-        0,    0,   43,    0,    0,    0,    0,    0,    0,   38,
-       39,   43,    0,    0,   43,    0,    0,    0,    0,    0,
-       42,    0,    0,   43,    0,    0,    0,    0,    0,    0,
-        0,    6,   43,    0,    0,    0,    0,    0,    0,    0,
-
-       43,    0,    0,    0,    0,    0,   43,    0,    0,    0,
-        0,    0,    0,   43,    0,    0,    0,    0,   43,    0,
-        0,    0,    2,    0,   43,    0,    0,    2,    0,   43,
-        0,    0,    0,   43,    0,    0,    0,    0,   43,    0,
-        0,    0,   43,    0,    0,    0,   43,    0,    0,    3,
-        0,   43,    0,    3,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,    0,    1,    0,    1,    0,
-        0,    0,    0
+
+        6,   43,    0,    0,    0,    0,    0,    0,    0,   43,
+        0,    0,    0,    0,    0,   43,    0,    0,    0,    0,
+        0,    0,   43,    0,    0,    0,    0,   43,    0,    0,
+        0,    2,    0,   43,    0,    0,    2,    0,   43,    0,
+        0,    0,   43,    0,    0,    0,    0,   43,    0,    0,
+        0,   43,    0,    0,    0,   43,    0,    0,    3,    0,
+       43,    0,    3,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    1,    0,    1,    0,    0,
+        0,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -456,142 +457,149 @@ static const YY_CHAR yy_meta[52] =
         1
     } ;
 
-static const flex_int16_t yy_base[287] =
+static const flex_int16_t yy_base[298] =
     {   0,
-        0,   50,  504,   56,   60,   64,   53,   61,   65,   67,
-       68,   80,   82,   87,  506,  508,  508,  508,  508,  492,
-       85,    0,  508,  508,  103,   35,  462,  458,  465,  508,
-      508,  452,  108,  114,  474,  508,  461,  458,  448,  508,
-      508,  470,  490,  482,   92,    0,  508,  508,  120,  508,
-      508,  124,  508,  508,  104,  508,  508,   75,  105,  119,
-      132,  508,  508,  114,  480,  508,  508,  137,    0,  142,
-      508,  449,  449,  450,  450,  454,  437,  146,  508,  139,
-      447,  456,  434,  142,   96,  146,    0,  158,  508,  163,
-      508,  508,  167,  146,  508,  174,  111,  178,  508,  508,
-
-      182,  186,  508,  508,  190,  508,  194,  187,  447,  450,
-      438,  448,  441,  508,  187,  455,  435,  439,  203,  200,
-      181,  463,  448,  430,  443,  216,  186,  227,  222,  232,
-      228,  238,  224,  508,  508,    0,  431,  440,  438,  431,
-      427,  432,  424,  438,  425,  457,  449,  240,  160,  231,
-      423,  419,  508,  508,  508,  508,  421,  415,  424,    0,
-      426,  416,  418,  426,  422,  241,  240,  420,  429,    0,
-        0,  415,  410,  409,  416,  247,  404,  417,  400,  409,
-        0,  399,  266,  397,  257,  190,  402,  263,  403,  406,
-      400,  508,  400,  407,  407,  269,  245,  393,  395,  399,
-
-      386,  272,  391,  379,  255,  370,  371,  275,  385,  340,
-      353,  363,  342,  351,  354,  279,  329,  334,  333,  337,
-      285,  271,    0,  331,  333,  336,  339,    0,  340,  321,
-      319,  297,  316,  328,  277,  301,  342,  311,  312,  316,
-      326,  290,  301,  307,  276,  299,  218,  310,  293,    0,
-      218,  299,  196,    0,  190,  164,  159,  313,  127,  319,
-       92,  323,  104,  302,  335,  305,    0,   74,    0,  341,
-      345,   87,  508,  381,  385,  389,  393,  397,  401,   71,
-      405,  409,  413,  417,  421,  425
+        0,   50,  534,   56,   60,   64,   53,   61,   65,   67,
+       68,   80,   82,   87,  536,  538,  538,  538,   69,   70,
+      538,  522,   88,    0,  538,  538,  103,   67,  492,  488,
+      495,  538,  538,  482,  107,  114,  504,  538,  491,  488,
+      478,  538,  538,  500,  520,  512,  108,    0,  538,  538,
+      120,  538,  538,  124,  538,  538,  104,  538,  538,  118,
+      119,  121,  131,  538,  538,  116,  131,  538,  136,  133,
+      147,  510,  538,  538,  151,    0,  159,  538,  479,  479,
+      480,  480,  484,  467,  163,  538,  156,  477,  486,  464,
+      159,   53,  159,    0,  176,  538,  180,  538,  538,  184,
+
+      161,  538,  188,  142,  194,  538,  538,  198,  202,  538,
+      538,  206,  210,  215,  538,  220,  216,  477,  480,  468,
+      478,  471,  538,  216,  485,  465,  469,  242,  219,  193,
+      493,  478,  460,  473,  236,  130,  251,  257,  265,  237,
+      269,  192,  538,  538,    0,  461,  470,  468,  461,  457,
+      462,  454,  468,  455,  487,  479,  135,  155,  260,  453,
+      449,  538,  538,  538,  538,  451,  445,  454,    0,  456,
+      446,  448,  456,  452,  264,  265,  450,  459,    0,    0,
+      445,  440,  439,  446,  272,  434,  447,  430,  439,    0,
+      429,  280,  427,  276,  206,  432,  282,  433,  436,  430,
+
+      538,  430,  437,  437,  286,  284,  423,  425,  430,  420,
+      298,  428,  418,  290,  409,  410,  304,  421,  399,  409,
+      419,  397,  403,  379,  308,  354,  359,  359,  363,  311,
+      302,    0,  356,  358,  361,  363,    0,  364,  344,  350,
+      314,  346,  362,  306,  320,  372,  342,  329,  334,  340,
+      312,  319,  326,  304,  284,  238,  336,  312,    0,  231,
+      328,  235,    0,  228,  203,  211,  342,  179,  348,  158,
+      351,  189,  334,  354,  341,    0,  129,    0,  358,  364,
+       87,  538,  400,  404,  408,  412,  416,  420,  424,  428,
+       68,  432,  436,  440,  444,  448,  452
+
     } ;
 
-static const flex_int16_t yy_def[287] =
+static const flex_int16_t yy_def[298] =
     {   0,
-      273,    1,  274,  274,  275,  275,  276,  276,  277,  277,
-      278,  278,  279,  279,  273,  273,  273,  273,  273,  273,
-      273,  280,  273,  273,  273,  280,  280,  280,  280,  273,
-      273,  273,  273,  273,  273,  273,  273,  280,  273,  273,
-      273,  273,  273,  273,  273,  281,  273,  273,  281,  273,
-      273,  273,  273,  273,  273,  273,  273,  282,  283,  273,
-      273,  273,  273,  273,  273,  273,  273,  273,  280,  273,
-      273,  280,  280,  280,  280,  280,  273,  273,  273,  273,
-      273,  280,  273,  273,  273,  273,  281,  273,  273,  273,
-      273,  273,  273,  282,  273,  282,  283,  283,  273,  273,
-
-      273,  273,  273,  273,  273,  273,  273,  273,  280,  280,
-      280,  280,  280,  273,  273,  273,  273,  280,  273,  273,
-      273,  273,  273,  273,  273,  273,  273,  282,  283,  273,
-      273,  273,  273,  273,  273,  280,  280,  280,  280,  280,
-      273,  273,  280,  273,  273,  273,  273,  273,  273,  273,
-      273,  273,  273,  273,  273,  273,  280,  280,  280,  280,
-      273,  273,  280,  273,  273,  273,  273,  273,  273,  280,
-      280,  280,  273,  273,  280,  273,  273,  273,  273,  273,
-      280,  273,  273,  280,  273,  273,  273,  273,  273,  273,
-      273,  273,  280,  273,  273,  273,  273,  273,  273,  273,
-
-      280,  273,  273,  273,  273,  273,  280,  273,  273,  273,
-      273,  273,  273,  280,  273,  273,  273,  273,  280,  273,
-      273,  273,  284,  273,  280,  273,  273,  284,  273,  280,
-      273,  273,  273,  280,  273,  273,  273,  273,  280,  273,
-      273,  273,  280,  273,  273,  273,  280,  273,  273,  285,
-      273,  280,  273,  285,  273,  273,  273,  273,  273,  273,
-      273,  273,  273,  273,  273,  273,  286,  273,  286,  273,
-      273,  273,    0,  273,  273,  273,  273,  273,  273,  273,
-      273,  273,  273,  273,  273,  273
+      282,    1,  283,  283,  284,  284,  285,  285,  286,  286,
+      287,  287,  288,  288,  282,  282,  282,  282,  289,  290,
+      282,  282,  282,  291,  282,  282,  282,  291,  291,  291,
+      291,  282,  282,  282,  282,  282,  282,  282,  282,  291,
+      282,  282,  282,  282,  282,  282,  282,  292,  282,  282,
+      292,  282,  282,  282,  282,  282,  282,  282,  282,  293,
+      294,  282,  282,  282,  282,  282,  289,  282,  289,  290,
+      290,  282,  282,  282,  282,  291,  282,  282,  291,  291,
+      291,  291,  291,  282,  282,  282,  282,  282,  291,  282,
+      282,  282,  282,  292,  282,  282,  282,  282,  282,  282,
+
+      293,  282,  293,  294,  294,  282,  282,  282,  282,  282,
+      282,  282,  289,  290,  282,  282,  282,  291,  291,  291,
+      291,  291,  282,  282,  282,  282,  291,  282,  282,  282,
+      282,  282,  282,  282,  282,  282,  293,  294,  282,  282,
+      282,  282,  282,  282,  291,  291,  291,  291,  291,  282,
+      282,  291,  282,  282,  282,  282,  282,  282,  282,  282,
+      282,  282,  282,  282,  282,  291,  291,  291,  291,  282,
+      282,  291,  282,  282,  282,  282,  282,  282,  291,  291,
+      291,  282,  282,  291,  282,  282,  282,  282,  282,  291,
+      282,  282,  291,  282,  282,  282,  282,  282,  282,  282,
+
+      282,  291,  282,  282,  282,  282,  282,  282,  282,  291,
+      282,  282,  282,  282,  282,  291,  282,  282,  282,  282,
+      282,  282,  291,  282,  282,  282,  282,  291,  282,  282,
+      282,  295,  282,  291,  282,  282,  295,  282,  291,  282,
+      282,  282,  291,  282,  282,  282,  282,  291,  282,  282,
+      282,  291,  282,  282,  282,  291,  282,  282,  296,  282,
+      291,  282,  296,  282,  282,  282,  282,  282,  282,  282,
+      282,  282,  282,  282,  282,  297,  282,  297,  282,  282,
+      282,    0,  282,  282,  282,  282,  282,  282,  282,  282,
+      282,  282,  282,  282,  282,  282,  282
+
     } ;
 
-static const flex_int16_t yy_nxt[560] =
+static const flex_int16_t yy_nxt[590] =
     {   0,
-       16,   17,   18,   16,   17,   16,   16,   16,   16,   19,
-       19,   16,   20,   21,   22,   22,   23,   24,   22,   22,
-       22,   22,   22,   22,   22,   19,   25,   16,   22,   22,
-       22,   26,   22,   22,   22,   22,   22,   22,   22,   22,
-       27,   28,   29,   22,   22,   30,   16,   31,   16,   16,
-       32,   33,   34,   35,   33,   51,   36,   37,   41,   42,
-       43,   47,   48,   51,   47,   47,   48,   54,   47,   54,
-       57,   72,   38,   58,   69,   55,   59,   55,   73,   52,
-       95,   60,   57,   44,   63,   58,   49,   52,   59,   63,
-       49,  257,   64,   60,   61,   66,   85,   64,   67,  270,
-
-       39,   96,   45,   86,   70,   71,   61,   70,  241,   78,
-       78,   68,   78,   95,   79,   78,   78,   92,   78,   95,
-       79,   88,   89,  122,   88,   90,   91,  104,   90,   99,
-       93,   98,  100,  102,  103,  267,  102,   98,  107,  108,
-      105,  107,  122,   70,   71,  101,   70,   78,   78,  123,
-       78,   95,   79,  115,  115,  115,  120,  120,  120,   88,
-       89,  264,   88,  164,   90,   91,  124,   90,  126,  127,
-      125,  126,   96,  261,  116,  128,   94,  121,  128,  129,
-       97,  165,  129,  130,  131,  146,  130,  102,  103,  260,
-      102,  132,  133,  194,  132,  107,  108,  134,  107,  153,
-
-      135,  115,  115,  115,   78,   78,  144,   78,  147,   79,
-      145,  165,   93,   68,  120,  120,  120,  126,  127,  259,
-      126,  258,  116,  129,   97,  141,  129,  148,  128,   94,
-       95,  128,   95,  130,  131,  121,  130,  156,  154,  132,
-      133,  155,  132,  178,   85,  166,  166,  166,   98,  255,
-      105,   86,  252,   96,  101,  166,  166,  166,  211,  212,
-      124,  185,  185,  185,  125,  124,  167,  192,  192,  125,
-      192,  185,  185,  185,  227,  212,  167,  196,  196,  196,
-      240,  241,  186,  196,  196,  196,  208,  208,  208,  208,
-      208,  208,  186,  221,  221,  221,  253,  241,  197,  221,
-
-      221,  221,  256,  257,  197,  256,  257,  209,  268,  257,
-      209,  236,  236,  236,  222,  236,  236,  236,  251,  250,
-      222,  248,  248,  248,  248,  248,  248,  262,  262,  262,
-      247,  246,  237,  265,  265,  265,  237,  262,  262,  262,
-      245,  244,  249,  243,  242,  249,  212,  239,  263,  265,
-      265,  265,  238,  235,  266,  271,  271,  271,  263,  271,
-      271,  271,  234,  233,  232,  231,  230,  229,  226,  225,
-      266,  224,  223,  220,  219,  218,  272,  217,  216,  215,
-      272,   40,   40,   40,   40,   46,   46,   46,   46,   50,
-       50,   50,   50,   53,   53,   53,   53,   56,   56,   56,
-
-       56,   62,   62,   62,   62,   87,  165,  214,   87,   94,
-       94,  213,   94,   97,   97,  169,   97,  228,  228,  210,
-      228,  254,  254,  207,  254,  269,  269,  206,  269,  205,
-      204,  203,  202,  201,  200,  199,  198,  195,  193,  191,
-      190,  189,  188,  187,  184,  183,  182,  181,  180,  179,
-      177,  176,  175,  174,  173,  172,  171,  170,  169,  168,
-       86,   85,   81,   80,  163,  162,  161,  160,  159,  158,
-      157,  152,  151,  150,  149,  143,  142,  141,  140,  139,
-      138,  137,  136,  119,  118,  117,  114,  113,  112,  111,
-      110,  109,  106,   86,   85,   84,   83,   82,   81,   80,
-
-       77,   76,   75,   74,   65,  273,   41,   15,  273,  273,
-      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
-      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
-      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
-      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
-      273,  273,  273,  273,  273,  273,  273,  273,  273
+       16,   17,   18,   16,   17,   19,   16,   16,   20,   21,
+       21,   16,   22,   23,   24,   24,   25,   26,   24,   24,
+       24,   24,   24,   24,   24,   21,   27,   16,   24,   24,
+       24,   28,   24,   24,   24,   24,   24,   24,   24,   24,
+       29,   30,   31,   24,   24,   32,   16,   33,   16,   16,
+       34,   35,   36,   37,   35,   53,   38,   39,   43,   44,
+       45,   49,   50,   53,   49,   49,   50,   56,   49,   56,
+       59,   76,   40,   60,   68,   57,   61,   57,   68,   54,
+      131,   62,   59,   46,   65,   60,   51,   54,   61,   65,
+       51,  266,   66,   62,   63,   69,   71,   66,   73,  131,
+
+       41,   74,   47,   79,   77,   78,   63,   77,   85,   85,
+       80,   85,   92,   86,   75,   85,   85,   99,   85,   93,
+       86,   95,   96,  102,   95,   97,   98,  102,   97,  111,
+      100,  106,  109,  110,  107,  109,   68,  113,   67,   92,
+      113,   68,  112,  162,  103,  105,   93,  108,  114,   70,
+      102,  114,  116,  117,  279,  116,  100,   69,  173,   71,
+       77,   78,  132,   77,   85,   85,  102,   85,  105,   86,
+      124,  124,  124,  129,  129,  129,  174,   95,   96,  133,
+       95,   97,   98,  134,   97,  135,  136,  103,  135,  137,
+      101,  125,  137,  250,  130,  138,  104,  155,  138,  139,
+
+      140,  276,  139,  109,  110,  165,  109,  141,  142,  203,
+      141,  113,   67,  273,  113,   68,  114,   70,  112,  114,
+      156,  116,  117,   68,  116,  270,  143,  174,  269,  144,
+      124,  124,  124,  129,  129,  129,   69,  135,  136,  157,
+      135,   71,   75,   85,   85,  153,   85,  163,   86,  154,
+      164,  125,  137,  101,  130,  137,  102,  268,  138,  104,
+      267,  138,  264,  108,  150,  102,  139,  140,  187,  139,
+      141,  142,  261,  141,  175,  175,  175,  103,  175,  175,
+      175,  201,  201,  105,  201,  133,  194,  194,  194,  134,
+      194,  194,  194,  220,  221,  176,  205,  205,  205,  176,
+
+      205,  205,  205,  260,  133,  236,  221,  195,  134,  249,
+      250,  195,  217,  217,  217,  262,  250,  206,  217,  217,
+      217,  206,  230,  230,  230,  230,  230,  230,  245,  245,
+      245,  265,  266,  218,  245,  245,  245,  265,  266,  218,
+      257,  257,  257,  231,  277,  266,  231,  259,  256,  246,
+      257,  257,  257,  255,  254,  246,  271,  271,  271,  253,
+      252,  258,  274,  274,  274,  271,  271,  271,  274,  274,
+      274,  258,  280,  280,  280,  251,  221,  272,  280,  280,
+      280,  248,  247,  275,  244,  243,  272,  242,  241,  275,
+      240,  239,  238,  281,  235,  234,  233,  232,  229,  281,
+
+       42,   42,   42,   42,   48,   48,   48,   48,   52,   52,
+       52,   52,   55,   55,   55,   55,   58,   58,   58,   58,
+       64,   64,   64,   64,   67,   67,  228,   67,   70,   70,
+      227,   70,   94,  226,  225,   94,  101,  101,  224,  101,
+      104,  104,  174,  104,  237,  237,  223,  237,  263,  263,
+      222,  263,  278,  278,  178,  278,  219,  216,  215,  214,
+      213,  212,  211,  210,  209,  208,  207,  204,  202,  200,
+      199,  198,  197,  196,  193,  192,  191,  190,  189,  188,
+      186,  185,  184,  183,  182,  181,  180,  179,  178,  177,
+       93,   92,   88,   87,  172,  171,  170,  169,  168,  167,
+
+      166,  161,  160,  159,  158,  152,  151,  150,  149,  148,
+      147,  146,  145,  128,  127,  126,  123,  122,  121,  120,
+      119,  118,  115,   93,   92,   91,   90,   89,   88,   87,
+       84,   83,   82,   81,   72,  282,   43,   15,  282,  282,
+      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
+      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
+      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
+      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
+      282,  282,  282,  282,  282,  282,  282,  282,  282
     } ;
 
-static const flex_int16_t yy_chk[560] =
+static const flex_int16_t yy_chk[590] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -600,68 +608,71 @@ static const flex_int16_t yy_chk[560] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
         4,    5,    5,    8,    5,    6,    6,    9,    6,   10,
-       11,   26,    2,   11,  280,    9,   11,   10,   26,    7,
-       58,   11,   12,    4,   13,   12,    5,    8,   12,   14,
-        6,  272,   13,   12,   11,   21,   45,   14,   21,  268,
-
-        2,   58,    4,   45,   25,   25,   12,   25,  263,   33,
-       33,   21,   33,   59,   33,   34,   34,   55,   34,   97,
-       34,   49,   49,   85,   49,   52,   52,   64,   52,   60,
-       55,   59,   60,   61,   61,  261,   61,   97,   68,   68,
-       64,   68,   85,   70,   70,   60,   70,   78,   78,   86,
-       78,   94,   78,   80,   80,   80,   84,   84,   84,   88,
-       88,  259,   88,  149,   90,   90,   86,   90,   93,   93,
-       86,   93,   94,  257,   80,   96,   96,   84,   96,   98,
-       98,  149,   98,  101,  101,  121,  101,  102,  102,  256,
-      102,  105,  105,  186,  105,  107,  107,  108,  107,  127,
-
-      108,  115,  115,  115,  119,  119,  119,  119,  121,  119,
-      119,  186,  127,  108,  120,  120,  120,  126,  126,  255,
-      126,  253,  115,  129,  129,  119,  129,  121,  128,  128,
-      129,  128,  128,  130,  130,  120,  130,  133,  131,  132,
-      132,  131,  132,  167,  148,  150,  150,  150,  129,  251,
-      133,  148,  247,  128,  131,  166,  166,  166,  205,  205,
-      167,  176,  176,  176,  167,  197,  150,  183,  183,  197,
-      183,  185,  185,  185,  222,  222,  166,  188,  188,  188,
-      235,  235,  176,  196,  196,  196,  202,  202,  202,  208,
-      208,  208,  185,  216,  216,  216,  249,  249,  188,  221,
-
-      221,  221,  252,  252,  196,  264,  264,  202,  266,  266,
-      208,  232,  232,  232,  216,  236,  236,  236,  246,  245,
-      221,  244,  244,  244,  248,  248,  248,  258,  258,  258,
-      243,  242,  232,  260,  260,  260,  236,  262,  262,  262,
-      241,  240,  244,  239,  238,  248,  237,  234,  258,  265,
-      265,  265,  233,  231,  260,  270,  270,  270,  262,  271,
-      271,  271,  230,  229,  227,  226,  225,  224,  220,  219,
-      265,  218,  217,  215,  214,  213,  270,  212,  211,  210,
-      271,  274,  274,  274,  274,  275,  275,  275,  275,  276,
-      276,  276,  276,  277,  277,  277,  277,  278,  278,  278,
-
-      278,  279,  279,  279,  279,  281,  209,  207,  281,  282,
-      282,  206,  282,  283,  283,  204,  283,  284,  284,  203,
-      284,  285,  285,  201,  285,  286,  286,  200,  286,  199,
-      198,  195,  194,  193,  191,  190,  189,  187,  184,  182,
-      180,  179,  178,  177,  175,  174,  173,  172,  169,  168,
-      165,  164,  163,  162,  161,  159,  158,  157,  152,  151,
-      147,  146,  145,  144,  143,  142,  141,  140,  139,  138,
-      137,  125,  124,  123,  122,  118,  117,  116,  113,  112,
-      111,  110,  109,   83,   82,   81,   77,   76,   75,   74,
-       73,   72,   65,   44,   43,   42,   39,   38,   37,   35,
-
-       32,   29,   28,   27,   20,   15,    3,  273,  273,  273,
-      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
-      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
-      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
-      273,  273,  273,  273,  273,  273,  273,  273,  273,  273,
-      273,  273,  273,  273,  273,  273,  273,  273,  273
+       11,  291,    2,   11,   19,    9,   11,   10,   20,    7,
+       92,   11,   12,    4,   13,   12,    5,    8,   12,   14,
+        6,  281,   13,   12,   11,   19,   20,   14,   23,   92,
+
+        2,   23,    4,   28,   27,   27,   12,   27,   35,   35,
+       28,   35,   47,   35,   23,   36,   36,   57,   36,   47,
+       36,   51,   51,   60,   51,   54,   54,   61,   54,   66,
+       57,   62,   63,   63,   62,   63,   67,   69,   69,  157,
+       69,   70,   66,  136,   60,   61,  157,   62,   71,   71,
+      104,   71,   75,   75,  277,   75,  136,   67,  158,   70,
+       77,   77,   93,   77,   85,   85,  101,   85,  104,   85,
+       87,   87,   87,   91,   91,   91,  158,   95,   95,   93,
+       95,   97,   97,   93,   97,  100,  100,  101,  100,  103,
+      103,   87,  103,  272,   91,  105,  105,  130,  105,  108,
+
+      108,  270,  108,  109,  109,  142,  109,  112,  112,  195,
+      112,  113,  113,  268,  113,  113,  114,  114,  142,  114,
+      130,  116,  116,  114,  116,  266,  117,  195,  265,  117,
+      124,  124,  124,  129,  129,  129,  113,  135,  135,  130,
+      135,  114,  117,  128,  128,  128,  128,  140,  128,  128,
+      140,  124,  137,  137,  129,  137,  137,  264,  138,  138,
+      262,  138,  260,  140,  128,  138,  139,  139,  176,  139,
+      141,  141,  256,  141,  159,  159,  159,  137,  175,  175,
+      175,  192,  192,  138,  192,  176,  185,  185,  185,  176,
+      194,  194,  194,  214,  214,  159,  197,  197,  197,  175,
+
+      205,  205,  205,  255,  206,  231,  231,  185,  206,  244,
+      244,  194,  211,  211,  211,  258,  258,  197,  217,  217,
+      217,  205,  225,  225,  225,  230,  230,  230,  241,  241,
+      241,  261,  261,  211,  245,  245,  245,  273,  273,  217,
+      253,  253,  253,  225,  275,  275,  230,  254,  252,  241,
+      257,  257,  257,  251,  250,  245,  267,  267,  267,  249,
+      248,  253,  269,  269,  269,  271,  271,  271,  274,  274,
+      274,  257,  279,  279,  279,  247,  246,  267,  280,  280,
+      280,  243,  242,  269,  240,  239,  271,  238,  236,  274,
+      235,  234,  233,  279,  229,  228,  227,  226,  224,  280,
+
+      283,  283,  283,  283,  284,  284,  284,  284,  285,  285,
+      285,  285,  286,  286,  286,  286,  287,  287,  287,  287,
+      288,  288,  288,  288,  289,  289,  223,  289,  290,  290,
+      222,  290,  292,  221,  220,  292,  293,  293,  219,  293,
+      294,  294,  218,  294,  295,  295,  216,  295,  296,  296,
+      215,  296,  297,  297,  213,  297,  212,  210,  209,  208,
+      207,  204,  203,  202,  200,  199,  198,  196,  193,  191,
+      189,  188,  187,  186,  184,  183,  182,  181,  178,  177,
+      174,  173,  172,  171,  170,  168,  167,  166,  161,  160,
+      156,  155,  154,  153,  152,  151,  150,  149,  148,  147,
+
+      146,  134,  133,  132,  131,  127,  126,  125,  122,  121,
+      120,  119,  118,   90,   89,   88,   84,   83,   82,   81,
+       80,   79,   72,   46,   45,   44,   41,   40,   39,   37,
+       34,   31,   30,   29,   22,   15,    3,  282,  282,  282,
+      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
+      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
+      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
+      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
+      282,  282,  282,  282,  282,  282,  282,  282,  282
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 
     1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -969,13 +980,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 274 )
+				if ( yy_current_state >= 283 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 273 );
+		while ( yy_current_state != 282 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1222,11 +1233,16 @@ YY_RULE_SETUP
 { return LEX_SEMICOLON; }
 	YY_BREAK
 case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ERROR; }
+{ return LEX_ILLEGAL; }
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
+{ return LEX_ILLEGAL; }
+	YY_BREAK
+case 52:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1533,7 +1549,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 274 )
+			if ( yy_current_state >= 283 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1561,11 +1577,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 274 )
+		if ( yy_current_state >= 283 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 273);
+	yy_is_jam = (yy_current_state == 282);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index c3ae8a7..516ac8c 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -76,6 +76,7 @@ namespace /* anonymous */
                 case LEX_ID:
                 case LEX_OTHER:
                 case LEX_EQUAL:
+                case LEX_ILLEGAL:
                     /* ignore */
                     break;
 
@@ -136,6 +137,7 @@ namespace /* anonymous */
                 case LEX_CURLY_OPEN:
                 case LEX_CURLY_CLOSE:
                 case LEX_EQUAL:
+                case LEX_ILLEGAL:
                     lex::set_illegal_char();
                     rv = LEX_ERROR;
                     loop = false;
-- 
2.43.0


From c91cdd9a964f167d9582bf452236c3ac021b8ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:02 +0000
Subject: [PATCH 15/54] fix: parser: closing parenthesis or bracket must belong
 to the opening one

---
 src/check_pattern.cpp | 54 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/check_pattern.cpp b/src/check_pattern.cpp
index 941b545..3bf912d 100644
--- a/src/check_pattern.cpp
+++ b/src/check_pattern.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <string.h>
 #include <iterator>
 #include <string>
 #include <vector>
@@ -48,6 +49,41 @@ typedef struct _seq {
 
 namespace /* anonymous */
 {
+    /* get the bracket or parenthesis that closes the one at `it' */
+    iter_t find_closing(vstring_t &v, iter_t it)
+    {
+        std::string expect;
+
+        for ( ; it != v.end(); it++) {
+            const char c = utils::str_front(*it);
+
+            switch (c)
+            {
+            case '(':
+                expect.push_back(')');
+                break;
+            case '[':
+                expect.push_back(']');
+                break;
+            case ')':
+            case ']':
+                if (expect.empty() || expect.back() != c) {
+                    return v.end();
+                }
+                expect.pop_back();
+                if (expect.empty()) {
+                    return it;
+                }
+                break;
+            default:
+                break;
+            }
+        }
+
+        return v.end();
+    }
+
+
     /* compare vector elements to pattern sequence
      *
      * first element was already checked in `check_prototype()'
@@ -108,7 +144,23 @@ namespace /* anonymous */
             }
         }
 
-        return true;
+        if (*sq.middle == 0) {
+            return true;
+        }
+
+        /* whatever was opened last must be closed right at the end,
+         * there may be several dimensions of an array though */
+        const auto last = v.end() - static_cast<int>(strlen(sq.end));
+
+        for (it--; (it = find_closing(v, it)) != v.end(); it++) {
+            if (it == last) {
+                return true;
+            } else if (utils::str_front(*it) != ']' || utils::str_front(*(it+1)) != '[') {
+                break;
+            }
+        }
+
+        return false;
     }
 
 } /* end anonymous namespace */
-- 
2.43.0


From 6679bcacd9a9e47e1b08938667cf958240c2d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 16/54] fix: parser: don't take a type name for the symbol name

---
 src/parse.cpp | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 98cdea4..87acd2e 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -214,8 +214,24 @@ namespace /* anonymous */
     }
 
 
-    /* check and parse tokens, save prototype */
-    bool check_prototype(vstring_t &v, proto_t &p)
+    /* C keywords; these cannot be symbol names, `unsigned int (x)' for example
+     * does not declare a function named `int' */
+    bool is_keyword(const std::string &s)
+    {
+        static const char *const keywords[] = {
+            "auto", "break", "case", "char", "const", "continue", "default", "do", "double",
+            "else", "enum", "extern", "float", "for", "goto", "if", "inline", "int", "long",
+            "register", "restrict", "return", "short", "signed", "sizeof", "static", "struct",
+            "switch", "typedef", "union", "unsigned", "void", "volatile", "while",
+            "_Bool", "_Complex"
+        };
+
+        return std::find(std::begin(keywords), std::end(keywords), s) != std::end(keywords);
+    }
+
+
+    /* check and parse tokens */
+    bool check_tokens(vstring_t &v, proto_t &p)
     {
         /* minimum size is 2 (type + symbol) */
         if (v.size() < 2) {
@@ -236,10 +252,11 @@ namespace /* anonymous */
         switch (utils::str_front(*it))
         {
         case '(':
-            return (check_function(v, p, it)                 || /* TYPE SYMBOL ( ) */
-                    check_function_pointer(v, p, it)         || /* TYPE ( * SYMBOL ) ( ) */
+            /* check `TYPE SYMBOL ( )' last: the type may consist of more than one word */
+            return (check_function_pointer(v, p, it)         || /* TYPE ( * SYMBOL ) ( ) */
                     check_function_paren(v, p, it)           || /* TYPE ( SYMBOL ) ( ) */
-                    check_function_paren_pointer(v, p, it));    /* TYPE ( * SYMBOL ( ) ) */
+                    check_function_paren_pointer(v, p, it)   || /* TYPE ( * SYMBOL ( ) ) */
+                    check_function(v, p, it));                  /* TYPE SYMBOL ( ) */
 
         case '[':
             return check_array(v, p, it);
@@ -252,6 +269,13 @@ namespace /* anonymous */
     }
 
 
+    /* check and parse tokens, save prototype */
+    bool check_prototype(vstring_t &v, proto_t &p)
+    {
+        return (check_tokens(v, p) && !is_keyword(p.symbol));
+    }
+
+
     /* parse tokens vector and save prototypes (initialization of prototype structs) */
     bool parse_tokens(std::vector<vstring_t> &vec_tokens, vproto_t &vproto)
     {
-- 
2.43.0


From 3bf5aecb99a277552ad7b83611023fdf44c9f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 17/54] fix: don't take the last word of an unnamed parameter's
 type for its name

---
 src/parameter_names.cpp | 34 +++++++++++++++++++++++++++++-----
 src/parse.cpp           | 34 +++++++++++++++++-----------------
 src/parse.hpp           |  3 +++
 3 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 5599122..5f19bf0 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -120,6 +120,26 @@ namespace /* anonymous */
     }
 
 
+    /* whether `name' is a parameter name preceded by a type and not
+     * the last word of an unnamed type (`unsigned int', `const foo') */
+    bool is_parameter_name(const iter_t &begin, const iter_t &name)
+    {
+        if (parse::is_keyword(*name)) {
+            return false;
+        }
+
+        for (auto it = begin; it != name; it++) {
+            if (*it != "const" && *it != "volatile" && *it != "register" &&
+                *it != "struct" && *it != "union" && *it != "enum")
+            {
+                return true;
+            }
+        }
+
+        return false;
+    }
+
+
     bool read_parameter_names(proto_t &proto, std::string &msg)
     {
         const char *hint = "\nhint: try `" OPT_PARAM_SKIP "' or `" OPT_PARAM_CREATE "'";
@@ -156,18 +176,22 @@ namespace /* anonymous */
 
             iter_t it = parse::find_first_not_pointer_or_ident(v);
 
+            iter_t name = v.end();
+
             if (parse::is_object(v, it)) {
-                proto.param_names += v.back() + ", ";
-                continue;
+                name = v.end() - 1;
             } else if (parse::is_function_pointer(v, it)) {
                 /* type (     * symbol ) ( ) */
                 /*      ^it + 1 2            */
-                proto.param_names += *(it + 2) + ", ";
-                continue;
+                name = it + 2;
             } else if (parse::is_array(v, it)) {
                 /* type symbol [   ] */
                 /*      -1     ^it   */
-                proto.param_names += *(it - 1) + ", ";
+                name = it - 1;
+            }
+
+            if (name != v.end() && is_parameter_name(v.begin(), name)) {
+                proto.param_names += *name + ", ";
                 continue;
             }
 
diff --git a/src/parse.cpp b/src/parse.cpp
index 87acd2e..ccd8052 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -214,22 +214,6 @@ namespace /* anonymous */
     }
 
 
-    /* C keywords; these cannot be symbol names, `unsigned int (x)' for example
-     * does not declare a function named `int' */
-    bool is_keyword(const std::string &s)
-    {
-        static const char *const keywords[] = {
-            "auto", "break", "case", "char", "const", "continue", "default", "do", "double",
-            "else", "enum", "extern", "float", "for", "goto", "if", "inline", "int", "long",
-            "register", "restrict", "return", "short", "signed", "sizeof", "static", "struct",
-            "switch", "typedef", "union", "unsigned", "void", "volatile", "while",
-            "_Bool", "_Complex"
-        };
-
-        return std::find(std::begin(keywords), std::end(keywords), s) != std::end(keywords);
-    }
-
-
     /* check and parse tokens */
     bool check_tokens(vstring_t &v, proto_t &p)
     {
@@ -272,7 +256,7 @@ namespace /* anonymous */
     /* check and parse tokens, save prototype */
     bool check_prototype(vstring_t &v, proto_t &p)
     {
-        return (check_tokens(v, p) && !is_keyword(p.symbol));
+        return (check_tokens(v, p) && !parse::is_keyword(p.symbol));
     }
 
 
@@ -298,6 +282,22 @@ namespace /* anonymous */
 } /* end anonymous namespace */
 
 
+/* C keywords; these cannot be symbol or parameter names, `unsigned int (x)' for
+ * example does not declare a function named `int' */
+bool parse::is_keyword(const std::string &s)
+{
+    static const char *const keywords[] = {
+        "auto", "break", "case", "char", "const", "continue", "default", "do", "double",
+        "else", "enum", "extern", "float", "for", "goto", "if", "inline", "int", "long",
+        "register", "restrict", "return", "short", "signed", "sizeof", "static", "struct",
+        "switch", "typedef", "union", "unsigned", "void", "volatile", "while",
+        "_Bool", "_Complex"
+    };
+
+    return std::find(std::begin(keywords), std::end(keywords), s) != std::end(keywords);
+}
+
+
 void gendlopen::parse(std::vector<vstring_t> &vec_tokens, const std::string &input_name)
 {
     std::string sym, msg;
diff --git a/src/parse.hpp b/src/parse.hpp
index 52f0118..cd7e514 100644
--- a/src/parse.hpp
+++ b/src/parse.hpp
@@ -55,6 +55,9 @@ namespace parse
         return (::isalnum(c) || c == '_');
     }
 
+    /* parse.cpp */
+    bool is_keyword(const std::string &s);
+
     /* parameter_names.cpp */
     bool get_parameter_names(proto_t &proto, param::names &parameter_names, std::string &msg);
     bool create_parameter_names(proto_t &proto, std::string &msg);
-- 
2.43.0


From 83ce61249d0898bb23280f16150ff07ccb43e507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 18/54] fix: -param=create: don't add the variadic marker to
 the parameter names

---
 src/parameter_names.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 5f19bf0..dbfe0b0 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -263,8 +263,7 @@ bool parse::create_parameter_names(proto_t &proto, std::string &msg)
 
         /* don't append anything to `...' */
         if (v.size() == 1 && v.front() == "...") {
-            proto.args += "... , ";
-            proto.param_names += "... , ";
+            proto.args += "..., ";
             continue;
         }
 
-- 
2.43.0


From bb89407245d4bfecac7f006f10b7a29c8610ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 19/54] fix: an empty parameter is always an error

---
 src/parameter_names.cpp | 5 +++++
 src/parse.cpp           | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index dbfe0b0..f167783 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -219,6 +219,11 @@ bool parse::get_parameter_names(proto_t &proto, param::names &parameter_names, s
 
     /* copy parameters */
     for (auto &v : proto.args_vec) {
+        if (v.empty()) {
+            msg = "empty parameter in function `" + proto.symbol + "'";
+            return false;
+        }
+
         append_strings(proto.args, v);
         proto.args += ", ";
     }
diff --git a/src/parse.cpp b/src/parse.cpp
index ccd8052..fba3427 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -95,7 +95,8 @@ namespace /* anonymous */
             tokens.push_back(*it);
         }
 
-        if (!tokens.empty()) {
+        /* nothing after a comma is an empty parameter */
+        if (!tokens.empty() || !proto.args_vec.empty()) {
             proto.args_vec.push_back(std::move(tokens));
         }
     }
-- 
2.43.0


From 8ad579e5380ccb52556a96a54e55ba26350959b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 20/54] fix: Clang AST: symbols on the list that have a listed
 prefix too were reported as missing

---
 src/clang_ast.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 26c8cee..d0a39b6 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -184,8 +184,9 @@ int gendlopen::get_declarations(filter::mode mode)
         break;
 
     case filter::pfx_list:
-        if (!utils::is_prefixed(proto.symbol, m_prefix_list) &&
-            std::erase(m_symbol_list, proto.symbol) == 0) /* erase from list if found */
+        /* erase from list if found, even if the symbol is prefixed too */
+        if (std::erase(m_symbol_list, proto.symbol) == 0 &&
+            !utils::is_prefixed(proto.symbol, m_prefix_list))
         {
             return 0;
         }
-- 
2.43.0


From 7ee004d9d859d4b80d3f538eed17c167ae5ff0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 21/54] fix: Clang AST: don't drop variable arguments

---
 src/clang_ast.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index d0a39b6..9ef9ed0 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -217,6 +217,11 @@ int gendlopen::get_declarations(filter::mode mode)
             }
         }
 
+        /* variable arguments are not listed as a parameter */
+        if (m.str(2).ends_with("...)")) {
+            proto.args += "...";
+        }
+
         utils::delete_suffix(proto.args, ", ");
         utils::delete_suffix(proto.param_names, ", ");
 
-- 
2.43.0


From 0aca1f67a6fa4ad2af2186512004747b78a1f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 22/54] fix: Clang AST: redeclarations duplicated the symbol

---
 src/clang_ast.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 9ef9ed0..d4d4886 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -54,6 +54,7 @@ TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
 ***/
 
 #include <stddef.h>
+#include <algorithm>
 #include <regex>
 #include <string>
 #include <vector>
@@ -161,6 +162,15 @@ int gendlopen::get_declarations(filter::mode mode)
         return 0;
     }
 
+    /* ignore redeclarations */
+    auto is_symbol = [&m] (const proto_t &p) { return p.symbol == m.str(1); };
+
+    if (std::any_of(m_prototypes.begin(), m_prototypes.end(), is_symbol) ||
+        std::any_of(m_objects.begin(), m_objects.end(), is_symbol))
+    {
+        return 0;
+    }
+
     /* check for a prefixed symbol or a symbol from a whitelist */
     proto_t proto;
 
-- 
2.43.0


From 8986da541786421f0cfb12ee0a130e624d3a8e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:01 +0000
Subject: [PATCH 23/54] fix: Clang AST: don't attribute parameters of other
 declarations to a function

---
 src/clang_ast.cpp |  35 ++--
 src/lex.h         |   1 +
 src/lex.l         |   2 +
 src/lex.yy.c      | 522 +++++++++++++++++++++++-----------------------
 4 files changed, 287 insertions(+), 273 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index d4d4886..76c0b85 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -133,7 +133,8 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
 } /* end anonymous namespace */
 
 
-/* get function or variable declaration (initialization of prototype structs) */
+/* get function or variable declaration (initialization of prototype structs);
+ * returns the next token */
 int gendlopen::get_declarations(filter::mode mode)
 {
     std::smatch m;
@@ -153,13 +154,13 @@ int gendlopen::get_declarations(filter::mode mode)
     const std::string line = strip_line(lex::text());
 
     if (line.empty()) {
-        return 0;
+        return lex::lex();
     }
 
     const bool is_function = (utils::str_at(line, 2) == 'F');
 
     if (!std::regex_match(line, m, is_function ? reg_func : reg_var) || m.size() != 3) {
-        return 0;
+        return lex::lex();
     }
 
     /* ignore redeclarations */
@@ -168,7 +169,7 @@ int gendlopen::get_declarations(filter::mode mode)
     if (std::any_of(m_prototypes.begin(), m_prototypes.end(), is_symbol) ||
         std::any_of(m_objects.begin(), m_objects.end(), is_symbol))
     {
-        return 0;
+        return lex::lex();
     }
 
     /* check for a prefixed symbol or a symbol from a whitelist */
@@ -182,14 +183,14 @@ int gendlopen::get_declarations(filter::mode mode)
     {
     case filter::prefix:
         if (!utils::is_prefixed(proto.symbol, m_prefix_list)) {
-            return 0;
+            return lex::lex();
         }
         break;
 
     case filter::list:
         /* erase from list if found */
         if (std::erase(m_symbol_list, proto.symbol) == 0) {
-            return 0;
+            return lex::lex();
         }
         break;
 
@@ -198,7 +199,7 @@ int gendlopen::get_declarations(filter::mode mode)
         if (std::erase(m_symbol_list, proto.symbol) == 0 &&
             !utils::is_prefixed(proto.symbol, m_prefix_list))
         {
-            return 0;
+            return lex::lex();
         }
         break;
 
@@ -212,7 +213,7 @@ int gendlopen::get_declarations(filter::mode mode)
         int rv, param_count = 1;
 
         if (!utils::find(m.str(2), '(', pos)) {
-            return 0;
+            return lex::lex();
         }
 
         proto.prototype = proto::function;
@@ -237,8 +238,8 @@ int gendlopen::get_declarations(filter::mode mode)
 
         m_prototypes.push_back(std::move(proto));
 
-        /* continue to analyze the current line stored in yytext buffer */
-        return 1;
+        /* next token after the parameters */
+        return rv;
     } else {
         /* variable declaration */
         if (utils::find(m.str(2), "(*)")) {
@@ -255,7 +256,7 @@ int gendlopen::get_declarations(filter::mode mode)
         m_objects.push_back(std::move(proto));
     }
 
-    return 0;
+    return lex::lex();
 }
 
 /* read Clang AST */
@@ -274,15 +275,17 @@ void gendlopen::parse_clang_ast()
     }
 
     /* read lines */
-    while ((rv = lex::lex()) == LEX_AST_FUNCVAR || rv == LEX_AST_PARMVAR) {
-        if (rv == LEX_AST_PARMVAR) {
+    rv = lex::lex();
+
+    while (rv == LEX_AST_FUNCVAR || rv == LEX_AST_PARMVAR || rv == LEX_AST_NODE) {
+        if (rv != LEX_AST_FUNCVAR) {
             /* ignore */
+            rv = lex::lex();
             continue;
         }
 
-        /* uses an inner loop to read parameters */
-        while (get_declarations(mode) == 1)
-        {}
+        /* returns the next token after the declaration */
+        rv = get_declarations(mode);
 
         if (mode == filter::list && m_symbol_list.empty()) {
             /* nothing left to look for */
diff --git a/src/lex.h b/src/lex.h
index 7e1a215..f243fbd 100644
--- a/src/lex.h
+++ b/src/lex.h
@@ -12,6 +12,7 @@ enum {
     LEX_AST_BEGIN = 258,
     LEX_AST_FUNCVAR,
     LEX_AST_PARMVAR,
+    LEX_AST_NODE,
     LEX_OPTION,
     LEX_STRUCT,
     LEX_UNION,
diff --git a/src/lex.l b/src/lex.l
index 9b9152d..25b24ac 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -47,6 +47,7 @@ split               "\\"[ \t\r\v\f]*"\n"
 literal             (\"([^"\\\n]|\\[^\n]|{split})*\")|(\'([^'\\\n]|\\[^\n]|{split})*\')
 ast_begin           ^({bom})?({col})?"TranslationUnitDecl"({col})?({col})?" 0x".*
 funcvar             ^({col})?[|`]"-"({col})?({col})?("Function"|"Var")"Decl"({col})?({col})?" 0x".*
+node                ^({col})?[|`]"-".*
 parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?({col})?" 0x".*
 
 option              ^({bom})?"%option"[[:space:]]
@@ -71,6 +72,7 @@ other               [*,()\[\]]
 {ast_begin}                 { return handle_ast_begin(); }
 <AST>{funcvar}              { return LEX_AST_FUNCVAR; }
 <AST>{parmvar}              { return LEX_AST_PARMVAR; }
+<AST>{node}                 { return LEX_AST_NODE; /* any other top-level node */ }
 <AST>\n                     { }
 <AST>.                      { }
 
diff --git a/src/lex.yy.c b/src/lex.yy.c
index 42b0691..d45fc9c 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 52
-#define YY_END_OF_BUFFER 53
+#define YY_NUM_RULES 53
+#define YY_END_OF_BUFFER 54
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,39 +380,39 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[283] =
+static const flex_int16_t yy_accept[284] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   53,   51,   37,   37,   51,   51,
-       44,   51,   51,   43,   49,   48,   51,   43,   43,   43,
-       43,   46,   47,   51,   37,   37,   51,   22,   51,   43,
-       51,    5,    4,    5,    5,    5,    5,    8,   10,    9,
-        8,   15,   14,   15,   21,   20,   21,   30,   29,   30,
-       30,   30,   30,   34,   33,   34,    0,   50,    0,    0,
-        0,    0,   16,   11,    0,   43,    0,   36,   43,   43,
-       43,   43,   43,    0,    0,   22,    0,    0,   43,    0,
-        0,    0,    0,    8,    0,    7,    0,   13,   18,    0,
-
-        0,   27,    0,    0,    0,   23,   25,    0,    0,   28,
-       31,    0,    0,    0,   45,    0,    0,   43,   43,   43,
-       43,   43,   35,    0,    0,    0,   43,   35,    0,    0,
-        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,   17,   12,   41,   43,   43,   43,   43,    0,
-        0,   43,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,   19,   24,   26,   32,   43,   43,   43,   40,    0,
-        0,   43,    0,    0,    0,    0,    0,    0,   38,   39,
-       43,    0,    0,   43,    0,    0,    0,    0,    0,   42,
-        0,    0,   43,    0,    0,    0,    0,    0,    0,    0,
-
-        6,   43,    0,    0,    0,    0,    0,    0,    0,   43,
-        0,    0,    0,    0,    0,   43,    0,    0,    0,    0,
-        0,    0,   43,    0,    0,    0,    0,   43,    0,    0,
-        0,    2,    0,   43,    0,    0,    2,    0,   43,    0,
-        0,    0,   43,    0,    0,    0,    0,   43,    0,    0,
-        0,   43,    0,    0,    0,   43,    0,    0,    3,    0,
-       43,    0,    3,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,    1,    0,    1,    0,    0,
-        0,    0
+        0,    0,    0,    0,   54,   52,   38,   38,   52,   52,
+       45,   52,   52,   44,   50,   49,   52,   44,   44,   44,
+       44,   47,   48,   52,   38,   38,   52,   23,   52,   44,
+       52,    6,    5,    6,    6,    6,    6,    9,   11,   10,
+        9,   16,   15,   16,   22,   21,   22,   31,   30,   31,
+       31,   31,   31,   35,   34,   35,    0,   51,    0,    0,
+        0,    0,   17,   12,    0,   44,    0,   37,   44,   44,
+       44,   44,   44,    0,    0,   23,    0,    0,   44,    0,
+        0,    0,    4,    9,    0,    8,    0,   14,   19,    0,
+
+        0,   28,    0,    0,    0,   24,   26,    0,    0,   29,
+       32,    0,    0,    0,   46,    0,    0,   44,   44,   44,
+       44,   44,   36,    0,    0,    0,   44,   36,    0,    0,
+        0,    4,    4,    4,    4,    0,    0,    0,    0,    0,
+        0,    0,    0,   18,   13,   42,   44,   44,   44,   44,
+        0,    0,   44,    0,    0,    0,    0,    0,    0,    4,
+        4,    4,   20,   25,   27,   33,   44,   44,   44,   41,
+        0,    0,   44,    0,    0,    4,    4,    4,    4,   39,
+       40,   44,    0,    0,   44,    0,    0,    4,    4,    4,
+       43,    0,    0,   44,    0,    0,    0,    4,    4,    4,
+
+        0,    7,   44,    0,    0,    4,    4,    4,    4,    0,
+       44,    0,    0,    4,    4,    0,   44,    0,    0,    0,
+        4,    4,    0,   44,    0,    4,    4,    0,   44,    0,
+        4,    4,    2,    0,   44,    0,    4,    2,    0,   44,
+        0,    4,    0,   44,    0,    4,    4,    0,   44,    0,
+        0,    0,   44,    0,    0,    0,   44,    0,    0,    3,
+        0,   44,    0,    3,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    1,    0,    1,    0,
+        0,    0,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -457,81 +457,81 @@ static const YY_CHAR yy_meta[52] =
         1
     } ;
 
-static const flex_int16_t yy_base[298] =
+static const flex_int16_t yy_base[300] =
     {   0,
-        0,   50,  534,   56,   60,   64,   53,   61,   65,   67,
-       68,   80,   82,   87,  536,  538,  538,  538,   69,   70,
-      538,  522,   88,    0,  538,  538,  103,   67,  492,  488,
-      495,  538,  538,  482,  107,  114,  504,  538,  491,  488,
-      478,  538,  538,  500,  520,  512,  108,    0,  538,  538,
-      120,  538,  538,  124,  538,  538,  104,  538,  538,  118,
-      119,  121,  131,  538,  538,  116,  131,  538,  136,  133,
-      147,  510,  538,  538,  151,    0,  159,  538,  479,  479,
-      480,  480,  484,  467,  163,  538,  156,  477,  486,  464,
-      159,   53,  159,    0,  176,  538,  180,  538,  538,  184,
-
-      161,  538,  188,  142,  194,  538,  538,  198,  202,  538,
-      538,  206,  210,  215,  538,  220,  216,  477,  480,  468,
-      478,  471,  538,  216,  485,  465,  469,  242,  219,  193,
-      493,  478,  460,  473,  236,  130,  251,  257,  265,  237,
-      269,  192,  538,  538,    0,  461,  470,  468,  461,  457,
-      462,  454,  468,  455,  487,  479,  135,  155,  260,  453,
-      449,  538,  538,  538,  538,  451,  445,  454,    0,  456,
-      446,  448,  456,  452,  264,  265,  450,  459,    0,    0,
-      445,  440,  439,  446,  272,  434,  447,  430,  439,    0,
-      429,  280,  427,  276,  206,  432,  282,  433,  436,  430,
-
-      538,  430,  437,  437,  286,  284,  423,  425,  430,  420,
-      298,  428,  418,  290,  409,  410,  304,  421,  399,  409,
-      419,  397,  403,  379,  308,  354,  359,  359,  363,  311,
-      302,    0,  356,  358,  361,  363,    0,  364,  344,  350,
-      314,  346,  362,  306,  320,  372,  342,  329,  334,  340,
-      312,  319,  326,  304,  284,  238,  336,  312,    0,  231,
-      328,  235,    0,  228,  203,  211,  342,  179,  348,  158,
-      351,  189,  334,  354,  341,    0,  129,    0,  358,  364,
-       87,  538,  400,  404,  408,  412,  416,  420,  424,  428,
-       68,  432,  436,  440,  444,  448,  452
+        0,   50,  537,   56,   60,   64,   53,   61,   65,   67,
+       68,   80,   82,   87,  539,  541,  541,  541,   69,   70,
+      541,  525,   88,    0,  541,  541,  103,   67,  495,  491,
+      498,  541,  541,  485,  107,  114,  507,  541,  494,  491,
+      481,  541,  541,  503,  523,  515,  108,    0,  541,  541,
+      120,  541,  541,  124,  541,  541,  104,  541,  541,  118,
+      119,  121,  131,  541,  541,  116,  131,  541,  136,  133,
+      147,  513,  541,  541,  151,    0,  159,  541,  482,  482,
+      483,  483,  487,  470,  163,  541,  156,  480,  489,  467,
+      159,   53,  159,    0,  176,  541,  180,  541,  541,  184,
+
+      161,  541,  188,  142,  194,  541,  541,  198,  202,  541,
+      541,  206,  210,  215,  541,  220,  216,  480,  483,  471,
+      481,  474,  541,  216,  488,  468,  472,  242,  219,  193,
+      496,    0,  481,  463,  476,  236,  130,  251,  257,  265,
+      237,  269,  192,  541,  541,    0,  464,  473,  471,  464,
+      460,  465,  457,  471,  458,  490,  482,  135,  155,  260,
+      456,  452,  541,  541,  541,  541,  454,  448,  457,    0,
+      459,  449,  451,  459,  455,  264,  265,  453,  462,    0,
+        0,  448,  443,  442,  449,  272,  437,  450,  433,  442,
+        0,  432,  280,  430,  276,  206,  435,  282,  436,  439,
+
+      433,  541,  433,  440,  440,  286,  284,  426,  428,  433,
+      423,  298,  430,  418,  290,  409,  410,  304,  421,  399,
+      409,  419,  397,  403,  379,  308,  354,  359,  359,  363,
+      311,  302,    0,  356,  358,  361,  363,    0,  364,  344,
+      350,  314,  346,  362,  306,  320,  372,  342,  329,  334,
+      340,  312,  319,  326,  304,  284,  238,  336,  312,    0,
+      231,  328,  235,    0,  228,  203,  211,  342,  179,  348,
+      158,  351,  189,  334,  354,  341,    0,  129,    0,  358,
+      364,   87,  541,  400,  404,  408,  412,  416,  420,  424,
+      428,   68,  432,  436,  440,  444,  448,  452,  456
 
     } ;
 
-static const flex_int16_t yy_def[298] =
+static const flex_int16_t yy_def[300] =
     {   0,
-      282,    1,  283,  283,  284,  284,  285,  285,  286,  286,
-      287,  287,  288,  288,  282,  282,  282,  282,  289,  290,
-      282,  282,  282,  291,  282,  282,  282,  291,  291,  291,
-      291,  282,  282,  282,  282,  282,  282,  282,  282,  291,
-      282,  282,  282,  282,  282,  282,  282,  292,  282,  282,
-      292,  282,  282,  282,  282,  282,  282,  282,  282,  293,
-      294,  282,  282,  282,  282,  282,  289,  282,  289,  290,
-      290,  282,  282,  282,  282,  291,  282,  282,  291,  291,
-      291,  291,  291,  282,  282,  282,  282,  282,  291,  282,
-      282,  282,  282,  292,  282,  282,  282,  282,  282,  282,
-
-      293,  282,  293,  294,  294,  282,  282,  282,  282,  282,
-      282,  282,  289,  290,  282,  282,  282,  291,  291,  291,
-      291,  291,  282,  282,  282,  282,  291,  282,  282,  282,
-      282,  282,  282,  282,  282,  282,  293,  294,  282,  282,
-      282,  282,  282,  282,  291,  291,  291,  291,  291,  282,
-      282,  291,  282,  282,  282,  282,  282,  282,  282,  282,
-      282,  282,  282,  282,  282,  291,  291,  291,  291,  282,
-      282,  291,  282,  282,  282,  282,  282,  282,  291,  291,
-      291,  282,  282,  291,  282,  282,  282,  282,  282,  291,
-      282,  282,  291,  282,  282,  282,  282,  282,  282,  282,
-
-      282,  291,  282,  282,  282,  282,  282,  282,  282,  291,
-      282,  282,  282,  282,  282,  291,  282,  282,  282,  282,
-      282,  282,  291,  282,  282,  282,  282,  291,  282,  282,
-      282,  295,  282,  291,  282,  282,  295,  282,  291,  282,
-      282,  282,  291,  282,  282,  282,  282,  291,  282,  282,
-      282,  291,  282,  282,  282,  291,  282,  282,  296,  282,
-      291,  282,  296,  282,  282,  282,  282,  282,  282,  282,
-      282,  282,  282,  282,  282,  297,  282,  297,  282,  282,
-      282,    0,  282,  282,  282,  282,  282,  282,  282,  282,
-      282,  282,  282,  282,  282,  282,  282
+      283,    1,  284,  284,  285,  285,  286,  286,  287,  287,
+      288,  288,  289,  289,  283,  283,  283,  283,  290,  291,
+      283,  283,  283,  292,  283,  283,  283,  292,  292,  292,
+      292,  283,  283,  283,  283,  283,  283,  283,  283,  292,
+      283,  283,  283,  283,  283,  283,  283,  293,  283,  283,
+      293,  283,  283,  283,  283,  283,  283,  283,  283,  294,
+      295,  283,  283,  283,  283,  283,  290,  283,  290,  291,
+      291,  283,  283,  283,  283,  292,  283,  283,  292,  292,
+      292,  292,  292,  283,  283,  283,  283,  283,  292,  283,
+      283,  283,  296,  293,  283,  283,  283,  283,  283,  283,
+
+      294,  283,  294,  295,  295,  283,  283,  283,  283,  283,
+      283,  283,  290,  291,  283,  283,  283,  292,  292,  292,
+      292,  292,  283,  283,  283,  283,  292,  283,  283,  283,
+      283,  296,  296,  296,  296,  283,  283,  294,  295,  283,
+      283,  283,  283,  283,  283,  292,  292,  292,  292,  292,
+      283,  283,  292,  283,  283,  283,  283,  283,  283,  296,
+      296,  296,  283,  283,  283,  283,  292,  292,  292,  292,
+      283,  283,  292,  283,  283,  296,  296,  296,  296,  292,
+      292,  292,  283,  283,  292,  283,  283,  296,  296,  296,
+      292,  283,  283,  292,  283,  283,  283,  296,  296,  296,
+
+      283,  283,  292,  283,  283,  296,  296,  296,  296,  283,
+      292,  283,  283,  296,  296,  283,  292,  283,  283,  283,
+      296,  296,  283,  292,  283,  296,  296,  283,  292,  283,
+      296,  296,  297,  283,  292,  283,  296,  297,  283,  292,
+      283,  296,  283,  292,  283,  296,  296,  283,  292,  283,
+      283,  283,  292,  283,  283,  283,  292,  283,  283,  298,
+      283,  292,  283,  298,  283,  283,  283,  283,  283,  283,
+      283,  283,  283,  283,  283,  283,  299,  283,  299,  283,
+      283,  283,    0,  283,  283,  283,  283,  283,  283,  283,
+      283,  283,  283,  283,  283,  283,  283,  283,  283
 
     } ;
 
-static const flex_int16_t yy_nxt[590] =
+static const flex_int16_t yy_nxt[593] =
     {   0,
        16,   17,   18,   16,   17,   19,   16,   16,   20,   21,
        21,   16,   22,   23,   24,   24,   25,   26,   24,   24,
@@ -542,64 +542,66 @@ static const flex_int16_t yy_nxt[590] =
        45,   49,   50,   53,   49,   49,   50,   56,   49,   56,
        59,   76,   40,   60,   68,   57,   61,   57,   68,   54,
       131,   62,   59,   46,   65,   60,   51,   54,   61,   65,
-       51,  266,   66,   62,   63,   69,   71,   66,   73,  131,
+       51,  267,   66,   62,   63,   69,   71,   66,   73,  131,
 
        41,   74,   47,   79,   77,   78,   63,   77,   85,   85,
        80,   85,   92,   86,   75,   85,   85,   99,   85,   93,
        86,   95,   96,  102,   95,   97,   98,  102,   97,  111,
       100,  106,  109,  110,  107,  109,   68,  113,   67,   92,
-      113,   68,  112,  162,  103,  105,   93,  108,  114,   70,
-      102,  114,  116,  117,  279,  116,  100,   69,  173,   71,
-       77,   78,  132,   77,   85,   85,  102,   85,  105,   86,
-      124,  124,  124,  129,  129,  129,  174,   95,   96,  133,
-       95,   97,   98,  134,   97,  135,  136,  103,  135,  137,
-      101,  125,  137,  250,  130,  138,  104,  155,  138,  139,
-
-      140,  276,  139,  109,  110,  165,  109,  141,  142,  203,
-      141,  113,   67,  273,  113,   68,  114,   70,  112,  114,
-      156,  116,  117,   68,  116,  270,  143,  174,  269,  144,
-      124,  124,  124,  129,  129,  129,   69,  135,  136,  157,
-      135,   71,   75,   85,   85,  153,   85,  163,   86,  154,
-      164,  125,  137,  101,  130,  137,  102,  268,  138,  104,
-      267,  138,  264,  108,  150,  102,  139,  140,  187,  139,
-      141,  142,  261,  141,  175,  175,  175,  103,  175,  175,
-      175,  201,  201,  105,  201,  133,  194,  194,  194,  134,
-      194,  194,  194,  220,  221,  176,  205,  205,  205,  176,
-
-      205,  205,  205,  260,  133,  236,  221,  195,  134,  249,
-      250,  195,  217,  217,  217,  262,  250,  206,  217,  217,
-      217,  206,  230,  230,  230,  230,  230,  230,  245,  245,
-      245,  265,  266,  218,  245,  245,  245,  265,  266,  218,
-      257,  257,  257,  231,  277,  266,  231,  259,  256,  246,
-      257,  257,  257,  255,  254,  246,  271,  271,  271,  253,
-      252,  258,  274,  274,  274,  271,  271,  271,  274,  274,
-      274,  258,  280,  280,  280,  251,  221,  272,  280,  280,
-      280,  248,  247,  275,  244,  243,  272,  242,  241,  275,
-      240,  239,  238,  281,  235,  234,  233,  232,  229,  281,
+      113,   68,  112,  163,  103,  105,   93,  108,  114,   70,
+      102,  114,  116,  117,  280,  116,  100,   69,  174,   71,
+       77,   78,  133,   77,   85,   85,  102,   85,  105,   86,
+      124,  124,  124,  129,  129,  129,  175,   95,   96,  134,
+       95,   97,   98,  135,   97,  136,  137,  103,  136,  138,
+      101,  125,  138,  251,  130,  139,  104,  156,  139,  140,
+
+      141,  277,  140,  109,  110,  166,  109,  142,  143,  204,
+      142,  113,   67,  274,  113,   68,  114,   70,  112,  114,
+      157,  116,  117,   68,  116,  271,  144,  175,  270,  145,
+      124,  124,  124,  129,  129,  129,   69,  136,  137,  158,
+      136,   71,   75,   85,   85,  154,   85,  164,   86,  155,
+      165,  125,  138,  101,  130,  138,  102,  269,  139,  104,
+      268,  139,  265,  108,  151,  102,  140,  141,  188,  140,
+      142,  143,  262,  142,  176,  176,  176,  103,  176,  176,
+      176,  202,  202,  105,  202,  134,  195,  195,  195,  135,
+      195,  195,  195,  221,  222,  177,  206,  206,  206,  177,
+
+      206,  206,  206,  261,  134,  237,  222,  196,  135,  250,
+      251,  196,  218,  218,  218,  263,  251,  207,  218,  218,
+      218,  207,  231,  231,  231,  231,  231,  231,  246,  246,
+      246,  266,  267,  219,  246,  246,  246,  266,  267,  219,
+      258,  258,  258,  232,  278,  267,  232,  260,  257,  247,
+      258,  258,  258,  256,  255,  247,  272,  272,  272,  254,
+      253,  259,  275,  275,  275,  272,  272,  272,  275,  275,
+      275,  259,  281,  281,  281,  252,  222,  273,  281,  281,
+      281,  249,  248,  276,  245,  244,  273,  243,  242,  276,
+      241,  240,  239,  282,  236,  235,  234,  233,  230,  282,
 
        42,   42,   42,   42,   48,   48,   48,   48,   52,   52,
        52,   52,   55,   55,   55,   55,   58,   58,   58,   58,
-       64,   64,   64,   64,   67,   67,  228,   67,   70,   70,
-      227,   70,   94,  226,  225,   94,  101,  101,  224,  101,
-      104,  104,  174,  104,  237,  237,  223,  237,  263,  263,
-      222,  263,  278,  278,  178,  278,  219,  216,  215,  214,
-      213,  212,  211,  210,  209,  208,  207,  204,  202,  200,
-      199,  198,  197,  196,  193,  192,  191,  190,  189,  188,
-      186,  185,  184,  183,  182,  181,  180,  179,  178,  177,
-       93,   92,   88,   87,  172,  171,  170,  169,  168,  167,
-
-      166,  161,  160,  159,  158,  152,  151,  150,  149,  148,
-      147,  146,  145,  128,  127,  126,  123,  122,  121,  120,
-      119,  118,  115,   93,   92,   91,   90,   89,   88,   87,
-       84,   83,   82,   81,   72,  282,   43,   15,  282,  282,
-      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
-      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
-      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
-      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
-      282,  282,  282,  282,  282,  282,  282,  282,  282
+       64,   64,   64,   64,   67,   67,  229,   67,   70,   70,
+      228,   70,   94,  227,  226,   94,  101,  101,  225,  101,
+      104,  104,  175,  104,  132,  132,  224,  132,  238,  238,
+      223,  238,  264,  264,  179,  264,  279,  279,  220,  279,
+      217,  216,  215,  214,  213,  212,  211,  210,  209,  208,
+      205,  203,  201,  200,  199,  198,  197,  194,  193,  192,
+      191,  190,  189,  187,  186,  185,  184,  183,  182,  181,
+      180,  179,  178,   93,   92,   88,   87,  173,  172,  171,
+
+      170,  169,  168,  167,  162,  161,  160,  159,  153,  152,
+      151,  150,  149,  148,  147,  146,  128,  127,  126,  123,
+      122,  121,  120,  119,  118,  115,   93,   92,   91,   90,
+       89,   88,   87,   84,   83,   82,   81,   72,  283,   43,
+       15,  283,  283,  283,  283,  283,  283,  283,  283,  283,
+      283,  283,  283,  283,  283,  283,  283,  283,  283,  283,
+      283,  283,  283,  283,  283,  283,  283,  283,  283,  283,
+      283,  283,  283,  283,  283,  283,  283,  283,  283,  283,
+      283,  283,  283,  283,  283,  283,  283,  283,  283,  283,
+      283,  283
+
     } ;
 
-static const flex_int16_t yy_chk[590] =
+static const flex_int16_t yy_chk[593] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -608,71 +610,73 @@ static const flex_int16_t yy_chk[590] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
         4,    5,    5,    8,    5,    6,    6,    9,    6,   10,
-       11,  291,    2,   11,   19,    9,   11,   10,   20,    7,
+       11,  292,    2,   11,   19,    9,   11,   10,   20,    7,
        92,   11,   12,    4,   13,   12,    5,    8,   12,   14,
-        6,  281,   13,   12,   11,   19,   20,   14,   23,   92,
+        6,  282,   13,   12,   11,   19,   20,   14,   23,   92,
 
         2,   23,    4,   28,   27,   27,   12,   27,   35,   35,
        28,   35,   47,   35,   23,   36,   36,   57,   36,   47,
        36,   51,   51,   60,   51,   54,   54,   61,   54,   66,
-       57,   62,   63,   63,   62,   63,   67,   69,   69,  157,
-       69,   70,   66,  136,   60,   61,  157,   62,   71,   71,
-      104,   71,   75,   75,  277,   75,  136,   67,  158,   70,
+       57,   62,   63,   63,   62,   63,   67,   69,   69,  158,
+       69,   70,   66,  137,   60,   61,  158,   62,   71,   71,
+      104,   71,   75,   75,  278,   75,  137,   67,  159,   70,
        77,   77,   93,   77,   85,   85,  101,   85,  104,   85,
-       87,   87,   87,   91,   91,   91,  158,   95,   95,   93,
+       87,   87,   87,   91,   91,   91,  159,   95,   95,   93,
        95,   97,   97,   93,   97,  100,  100,  101,  100,  103,
-      103,   87,  103,  272,   91,  105,  105,  130,  105,  108,
-
-      108,  270,  108,  109,  109,  142,  109,  112,  112,  195,
-      112,  113,  113,  268,  113,  113,  114,  114,  142,  114,
-      130,  116,  116,  114,  116,  266,  117,  195,  265,  117,
-      124,  124,  124,  129,  129,  129,  113,  135,  135,  130,
-      135,  114,  117,  128,  128,  128,  128,  140,  128,  128,
-      140,  124,  137,  137,  129,  137,  137,  264,  138,  138,
-      262,  138,  260,  140,  128,  138,  139,  139,  176,  139,
-      141,  141,  256,  141,  159,  159,  159,  137,  175,  175,
-      175,  192,  192,  138,  192,  176,  185,  185,  185,  176,
-      194,  194,  194,  214,  214,  159,  197,  197,  197,  175,
-
-      205,  205,  205,  255,  206,  231,  231,  185,  206,  244,
-      244,  194,  211,  211,  211,  258,  258,  197,  217,  217,
-      217,  205,  225,  225,  225,  230,  230,  230,  241,  241,
-      241,  261,  261,  211,  245,  245,  245,  273,  273,  217,
-      253,  253,  253,  225,  275,  275,  230,  254,  252,  241,
-      257,  257,  257,  251,  250,  245,  267,  267,  267,  249,
-      248,  253,  269,  269,  269,  271,  271,  271,  274,  274,
-      274,  257,  279,  279,  279,  247,  246,  267,  280,  280,
-      280,  243,  242,  269,  240,  239,  271,  238,  236,  274,
-      235,  234,  233,  279,  229,  228,  227,  226,  224,  280,
-
-      283,  283,  283,  283,  284,  284,  284,  284,  285,  285,
-      285,  285,  286,  286,  286,  286,  287,  287,  287,  287,
-      288,  288,  288,  288,  289,  289,  223,  289,  290,  290,
-      222,  290,  292,  221,  220,  292,  293,  293,  219,  293,
-      294,  294,  218,  294,  295,  295,  216,  295,  296,  296,
-      215,  296,  297,  297,  213,  297,  212,  210,  209,  208,
-      207,  204,  203,  202,  200,  199,  198,  196,  193,  191,
-      189,  188,  187,  186,  184,  183,  182,  181,  178,  177,
-      174,  173,  172,  171,  170,  168,  167,  166,  161,  160,
-      156,  155,  154,  153,  152,  151,  150,  149,  148,  147,
-
-      146,  134,  133,  132,  131,  127,  126,  125,  122,  121,
-      120,  119,  118,   90,   89,   88,   84,   83,   82,   81,
-       80,   79,   72,   46,   45,   44,   41,   40,   39,   37,
-       34,   31,   30,   29,   22,   15,    3,  282,  282,  282,
-      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
-      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
-      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
-      282,  282,  282,  282,  282,  282,  282,  282,  282,  282,
-      282,  282,  282,  282,  282,  282,  282,  282,  282
+      103,   87,  103,  273,   91,  105,  105,  130,  105,  108,
+
+      108,  271,  108,  109,  109,  143,  109,  112,  112,  196,
+      112,  113,  113,  269,  113,  113,  114,  114,  143,  114,
+      130,  116,  116,  114,  116,  267,  117,  196,  266,  117,
+      124,  124,  124,  129,  129,  129,  113,  136,  136,  130,
+      136,  114,  117,  128,  128,  128,  128,  141,  128,  128,
+      141,  124,  138,  138,  129,  138,  138,  265,  139,  139,
+      263,  139,  261,  141,  128,  139,  140,  140,  177,  140,
+      142,  142,  257,  142,  160,  160,  160,  138,  176,  176,
+      176,  193,  193,  139,  193,  177,  186,  186,  186,  177,
+      195,  195,  195,  215,  215,  160,  198,  198,  198,  176,
+
+      206,  206,  206,  256,  207,  232,  232,  186,  207,  245,
+      245,  195,  212,  212,  212,  259,  259,  198,  218,  218,
+      218,  206,  226,  226,  226,  231,  231,  231,  242,  242,
+      242,  262,  262,  212,  246,  246,  246,  274,  274,  218,
+      254,  254,  254,  226,  276,  276,  231,  255,  253,  242,
+      258,  258,  258,  252,  251,  246,  268,  268,  268,  250,
+      249,  254,  270,  270,  270,  272,  272,  272,  275,  275,
+      275,  258,  280,  280,  280,  248,  247,  268,  281,  281,
+      281,  244,  243,  270,  241,  240,  272,  239,  237,  275,
+      236,  235,  234,  280,  230,  229,  228,  227,  225,  281,
+
+      284,  284,  284,  284,  285,  285,  285,  285,  286,  286,
+      286,  286,  287,  287,  287,  287,  288,  288,  288,  288,
+      289,  289,  289,  289,  290,  290,  224,  290,  291,  291,
+      223,  291,  293,  222,  221,  293,  294,  294,  220,  294,
+      295,  295,  219,  295,  296,  296,  217,  296,  297,  297,
+      216,  297,  298,  298,  214,  298,  299,  299,  213,  299,
+      211,  210,  209,  208,  205,  204,  203,  201,  200,  199,
+      197,  194,  192,  190,  189,  188,  187,  185,  184,  183,
+      182,  179,  178,  175,  174,  173,  172,  171,  169,  168,
+      167,  162,  161,  157,  156,  155,  154,  153,  152,  151,
+
+      150,  149,  148,  147,  135,  134,  133,  131,  127,  126,
+      125,  122,  121,  120,  119,  118,   90,   89,   88,   84,
+       83,   82,   81,   80,   79,   72,   46,   45,   44,   41,
+       40,   39,   37,   34,   31,   30,   29,   22,   15,    3,
+      283,  283,  283,  283,  283,  283,  283,  283,  283,  283,
+      283,  283,  283,  283,  283,  283,  283,  283,  283,  283,
+      283,  283,  283,  283,  283,  283,  283,  283,  283,  283,
+      283,  283,  283,  283,  283,  283,  283,  283,  283,  283,
+      283,  283,  283,  283,  283,  283,  283,  283,  283,  283,
+      283,  283
+
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[53] =
+static const flex_int32_t yy_rule_can_match_eol[54] =
     {   0,
-0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 
-    1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
+0, 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 
+    1, 1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1, 0, 
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -980,13 +984,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 283 )
+				if ( yy_current_state >= 284 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 282 );
+		while ( yy_current_state != 283 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1029,188 +1033,188 @@ YY_RULE_SETUP
 { return LEX_AST_PARMVAR; }
 	YY_BREAK
 case 4:
-/* rule 4 can match eol */
 YY_RULE_SETUP
-{ }
+{ return LEX_AST_NODE; /* any other top-level node */ }
 	YY_BREAK
 case 5:
+/* rule 5 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 case 6:
-/* rule 6 can match eol */
 YY_RULE_SETUP
-{ BEGIN(OPTION); /* %option line */ }
+{ }
 	YY_BREAK
 case 7:
 /* rule 7 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ BEGIN(OPTION); /* %option line */ }
 	YY_BREAK
 case 8:
+/* rule 8 can match eol */
 YY_RULE_SETUP
-{ return LEX_OPTION; }
+{ /* line split */ }
 	YY_BREAK
 case 9:
-/* rule 9 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */}
+{ return LEX_OPTION; }
 	YY_BREAK
 case 10:
+/* rule 10 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */}
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-{ BEGIN(COMMENT); /* simple comment */ }
+{ }
 	YY_BREAK
 case 12:
-/* rule 12 can match eol */
 YY_RULE_SETUP
 { BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 14:
 /* rule 14 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* line split */ }
 	YY_BREAK
 case 15:
+/* rule 15 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment */ }
+{ }
 	YY_BREAK
 case 17:
-/* rule 17 can match eol */
 YY_RULE_SETUP
 { BEGIN(C_COMMENT); /* C comment */ }
 	YY_BREAK
 case 18:
+/* rule 18 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ BEGIN(C_COMMENT); /* C comment */ }
 	YY_BREAK
 case 19:
-/* rule 19 can match eol */
 YY_RULE_SETUP
 { BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 20:
 /* rule 20 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 21:
+/* rule 21 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 case 22:
-/* rule 22 can match eol */
 YY_RULE_SETUP
-{ BEGIN(PRE); }
+{ }
 	YY_BREAK
 case 23:
+/* rule 23 can match eol */
 YY_RULE_SETUP
-{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
+{ BEGIN(PRE); }
 	YY_BREAK
 case 24:
-/* rule 24 can match eol */
 YY_RULE_SETUP
 { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 25:
+/* rule 25 can match eol */
 YY_RULE_SETUP
-{ BEGIN(COMMENT); /* simple comment */ }
+{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 26:
-/* rule 26 can match eol */
 YY_RULE_SETUP
 { BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 27:
 /* rule 27 can match eol */
 YY_RULE_SETUP
-{ /* may contain comment characters */ }
+{ BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ /* may contain comment characters */ }
 	YY_BREAK
 case 29:
 /* rule 29 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* line split */ }
 	YY_BREAK
 case 30:
+/* rule 30 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-{ BEGIN(PRE); /* continue PRE line */ }
+{ }
 	YY_BREAK
 case 32:
-/* rule 32 can match eol */
 YY_RULE_SETUP
 { BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 33:
 /* rule 33 can match eol */
 YY_RULE_SETUP
-{ /* PRE line continues after the comment */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 34:
+/* rule 34 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* PRE line continues after the comment */ }
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-{ /* UTF-8 byte order mark */ }
+{ }
 	YY_BREAK
 case 36:
-/* rule 36 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ /* UTF-8 byte order mark */ }
 	YY_BREAK
 case 37:
 /* rule 37 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* line split */ }
 	YY_BREAK
 case 38:
+/* rule 38 can match eol */
 YY_RULE_SETUP
-{ /* ignore "extern" keyword */ }
+{ }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return LEX_STRUCT; }
+{ /* ignore "extern" keyword */ }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-{ return LEX_UNION; }
+{ return LEX_STRUCT; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-{ return LEX_ENUM; }
+{ return LEX_UNION; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-{ return LEX_TYPEDEF; }
+{ return LEX_ENUM; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-{ return LEX_ID; }
+{ return LEX_TYPEDEF; }
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-{ return LEX_OTHER; }
+{ return LEX_ID; }
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
@@ -1218,31 +1222,35 @@ YY_RULE_SETUP
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-{ return LEX_CURLY_OPEN; }
+{ return LEX_OTHER; }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-{ return LEX_CURLY_CLOSE; }
+{ return LEX_CURLY_OPEN; }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-{ return LEX_EQUAL; }
+{ return LEX_CURLY_CLOSE; }
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-{ return LEX_SEMICOLON; }
+{ return LEX_EQUAL; }
 	YY_BREAK
 case 50:
-/* rule 50 can match eol */
 YY_RULE_SETUP
-{ return LEX_ILLEGAL; }
+{ return LEX_SEMICOLON; }
 	YY_BREAK
 case 51:
+/* rule 51 can match eol */
 YY_RULE_SETUP
 { return LEX_ILLEGAL; }
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
+{ return LEX_ILLEGAL; }
+	YY_BREAK
+case 53:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1549,7 +1557,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 283 )
+			if ( yy_current_state >= 284 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1577,11 +1585,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 283 )
+		if ( yy_current_state >= 284 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 282);
+	yy_is_jam = (yy_current_state == 283);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
-- 
2.43.0


From 70a41a75a246c6890e19357dddbb134bf777a3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 24/54] fix: Clang AST: regular expressions overflowed the
 stack on long lines

---
 src/clang_ast.cpp | 121 +++++++++++++++++++++++++++++++---------------
 1 file changed, 81 insertions(+), 40 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 76c0b85..d114be1 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -55,11 +55,11 @@ TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
 
 #include <stddef.h>
 #include <algorithm>
-#include <regex>
 #include <string>
 #include <vector>
 #include "gendlopen.hpp"
 #include "lex.h"
+#include "parse.hpp"
 #include "types.hpp"
 #include "utils.hpp"
 
@@ -76,31 +76,86 @@ constexpr const char *err_no_symbols =
 /* strip ANSI colors and Windows line endings from line */
 std::string strip_line(const char *line)
 {
-    const std::regex reg(R"(\x1B\[[0-9;]*m)");
+    std::string s;
 
-    std::string s = line;
+    for (const char *p = line; *p != 0; p++) {
+        if (*p == '\x1B' && *(p+1) == '[') {
+            const char *end = p + 2;
+
+            while (*end == ';' || (*end >= '0' && *end <= '9')) {
+                end++;
+            }
+
+            if (*end == 'm') {
+                p = end;
+                continue;
+            }
+        }
+
+        s += *p;
+    }
 
     /* remains of Windows line endings */
     utils::delete_suffix(s, '\r');
 
-    return s.empty() ? "" : std::regex_replace(s, reg, "");
+    return s;
+}
+
+
+/* find a SPACE followed by a quoted type */
+bool find_type(const std::string &line, size_t pos, size_t &beg, std::string &type)
+{
+    beg = line.find(" '", pos);
+
+    if (beg == std::string::npos) {
+        return false;
+    }
+
+    const size_t end = line.find('\'', beg + 2);
+
+    if (end == std::string::npos) {
+        return false;
+    }
+
+    type = line.substr(beg + 2, end - (beg + 2));
+
+    return true;
+}
+
+
+/* find a symbol name followed by its quoted type */
+bool find_symbol(const std::string &line, std::string &symbol, std::string &type)
+{
+    size_t pos = 0;
+    size_t beg = 0;
+
+    while (find_type(line, pos, beg, type)) {
+        size_t n = beg;
+
+        while (n > 0 && parse::is_ident(utils::str_at(line, n - 1))) {
+            n--;
+        }
+
+        if (n > 0 && n < beg && line[n - 1] == ' ') {
+            symbol = line.substr(n, beg - n);
+            return true;
+        }
+
+        pos = beg + 2;
+    }
+
+    return false;
 }
 
 
 /* get function parameter declaration */
 bool get_parameters(std::string &args, std::string &param_names, int &param_count)
 {
-    std::smatch m;
     size_t pos;
-
-    const std::regex reg(
-        "^[| ] [|`]-ParmVarDecl 0x.*?"
-        " '(.*?)'.*"  /* type */
-    );
-
+    std::string type;
     const std::string line = strip_line(lex::text());
 
-    if (line.empty() || !std::regex_match(line, m, reg) || m.size() != 2) {
+    if (!find_type(line, 0, pos, type)) {
         return false;
     }
 
@@ -109,14 +164,13 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     param_names += name + ", ";
 
     /* search for function pointer */
-    if (utils::find(m.str(1), "(*)", pos)) {
+    if (utils::find(type, "(*)", pos)) {
         /* function pointer */
-        std::string str = m.str(1);
-        str.insert(pos + 2, name);
-        args += str + ", ";
+        type.insert(pos + 2, name);
+        args += type + ", ";
     } else {
         /* regular parameter */
-        args += m.str(1);
+        args += type;
 
         if (!args.ends_with('*')) {
             args += ' ';
@@ -137,20 +191,7 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
  * returns the next token */
 int gendlopen::get_declarations(filter::mode mode)
 {
-    std::smatch m;
-
-    const std::regex reg_func(
-        "^[|`]-FunctionDecl 0x.*?"
-        " ([a-zA-Z0-9_]*?) "  /* symbol */
-        "'(.*?)'.*"           /* type */
-    );
-
-    const std::regex reg_var(
-        "^[|`]-VarDecl 0x.*?"
-        " ([a-zA-Z0-9_]*?) "  /* symbol */
-        "'(.*?)'.*"           /* type */
-    );
-
+    std::string symbol, type;
     const std::string line = strip_line(lex::text());
 
     if (line.empty()) {
@@ -159,12 +200,12 @@ int gendlopen::get_declarations(filter::mode mode)
 
     const bool is_function = (utils::str_at(line, 2) == 'F');
 
-    if (!std::regex_match(line, m, is_function ? reg_func : reg_var) || m.size() != 3) {
+    if (!find_symbol(line, symbol, type)) {
         return lex::lex();
     }
 
     /* ignore redeclarations */
-    auto is_symbol = [&m] (const proto_t &p) { return p.symbol == m.str(1); };
+    auto is_symbol = [&symbol] (const proto_t &p) { return p.symbol == symbol; };
 
     if (std::any_of(m_prototypes.begin(), m_prototypes.end(), is_symbol) ||
         std::any_of(m_objects.begin(), m_objects.end(), is_symbol))
@@ -177,7 +218,7 @@ int gendlopen::get_declarations(filter::mode mode)
 
     proto.prototype = proto::function;
     proto.saved     = false;
-    proto.symbol    = m.str(1);
+    proto.symbol    = symbol;
 
     switch (mode)
     {
@@ -212,13 +253,13 @@ int gendlopen::get_declarations(filter::mode mode)
         size_t pos;
         int rv, param_count = 1;
 
-        if (!utils::find(m.str(2), '(', pos)) {
+        if (!utils::find(type, '(', pos)) {
             return lex::lex();
         }
 
         proto.prototype = proto::function;
 
-        proto.type = m.str(2).substr(0, pos);
+        proto.type = type.substr(0, pos);
         utils::strip_spaces(proto.type);
 
         /* read next lines for parameters */
@@ -229,7 +270,7 @@ int gendlopen::get_declarations(filter::mode mode)
         }
 
         /* variable arguments are not listed as a parameter */
-        if (m.str(2).ends_with("...)")) {
+        if (type.ends_with("...)")) {
             proto.args += "...";
         }
 
@@ -242,15 +283,15 @@ int gendlopen::get_declarations(filter::mode mode)
         return rv;
     } else {
         /* variable declaration */
-        if (utils::find(m.str(2), "(*)")) {
+        if (utils::find(type, "(*)")) {
             proto.prototype = proto::function_pointer;
-        } else if (utils::find(m.str(2), '[')) {
+        } else if (utils::find(type, '[')) {
             proto.prototype = proto::object_array;
         } else {
             proto.prototype = proto::object;
         }
 
-        proto.type = m.str(2);
+        proto.type = type;
         utils::strip_spaces(proto.type);
 
         m_objects.push_back(std::move(proto));
-- 
2.43.0


From d8621262f6aa1a817411a83e1370efcdb0027b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 25/54] fix: Clang AST: names of pointers to pointers to
 functions, arrays, etc. were put in the wrong place

---
 src/clang_ast.cpp | 17 ++-------------
 src/parse.cpp     | 33 +++++++++++++++++++++++++++++
 src/parse.hpp     |  1 +
 src/tokenize.cpp  | 53 ++++-------------------------------------------
 4 files changed, 40 insertions(+), 64 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index d114be1..e6c3023 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -163,20 +163,7 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
 
     param_names += name + ", ";
 
-    /* search for function pointer */
-    if (utils::find(type, "(*)", pos)) {
-        /* function pointer */
-        type.insert(pos + 2, name);
-        args += type + ", ";
-    } else {
-        /* regular parameter */
-        args += type;
-
-        if (!args.ends_with('*')) {
-            args += ' ';
-        }
-        args += name + ", ";
-    }
+    args += parse::insert_name(type, name) + ", ";
 
     /* iterate counter */
     param_count++;
@@ -283,7 +270,7 @@ int gendlopen::get_declarations(filter::mode mode)
         return rv;
     } else {
         /* variable declaration */
-        if (utils::find(type, "(*)")) {
+        if (utils::find(type, "(*")) {
             proto.prototype = proto::function_pointer;
         } else if (utils::find(type, '[')) {
             proto.prototype = proto::object_array;
diff --git a/src/parse.cpp b/src/parse.cpp
index fba3427..e14c7ea 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -299,6 +299,39 @@ bool parse::is_keyword(const std::string &s)
 }
 
 
+/* insert the name where it belongs in a declaration:
+ * int (*)(int)  ==>  int (*name)(int)
+ * int[3]        ==>  int name[3]
+ * char *        ==>  char *name */
+std::string parse::insert_name(const std::string &type, const std::string &name)
+{
+    size_t pos;
+
+    if (utils::find(type, "(*", pos)) {
+        /* go to the innermost pointer: `int (*(*const)(int))[3]' */
+        for (pos += 2; pos < type.size(); pos++) {
+            const char c = type[pos];
+
+            if (c == '(' && utils::str_at(type, pos + 1) == '*') {
+                pos++;
+            } else if (c != '*' && c != ' ' && !parse::is_ident(c)) {
+                break;
+            }
+        }
+    } else if (!utils::find(type, '[', pos)) {
+        pos = type.size();
+    }
+
+    std::string s = type;
+
+    if (pos > 0 && s[pos - 1] != '*' && s[pos - 1] != ' ') {
+        s.insert(pos++, 1, ' ');
+    }
+
+    return s.insert(pos, name);
+}
+
+
 void gendlopen::parse(std::vector<vstring_t> &vec_tokens, const std::string &input_name)
 {
     std::string sym, msg;
diff --git a/src/parse.hpp b/src/parse.hpp
index cd7e514..90e7281 100644
--- a/src/parse.hpp
+++ b/src/parse.hpp
@@ -57,6 +57,7 @@ namespace parse
 
     /* parse.cpp */
     bool is_keyword(const std::string &s);
+    std::string insert_name(const std::string &type, const std::string &name);
 
     /* parameter_names.cpp */
     bool get_parameter_names(proto_t &proto, param::names &parameter_names, std::string &msg);
diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index 516ac8c..650080a 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -175,43 +175,6 @@ namespace /* anonymous */
     }
 
 
-    /* 'void (*)()'  ==>  'void (*name)()' */
-    std::string fptr_typedef(const std::string &type, const std::string &name)
-    {
-        size_t pos;
-
-        if (!utils::find(type, "(*)", pos) || type.find('(') != pos) {
-            return {};
-        }
-
-        std::string s = type;
-        pos += 2; /* insert after '*' */
-
-        return s.insert(pos, name);
-    }
-
-
-    /* 'char[32]'  ==>  'char name[32]' */
-    std::string array_typedef(std::string &type, const std::string &name)
-    {
-        size_t pos;
-
-        if (!utils::find(type, '[', pos)) {
-            return {};
-        }
-
-        std::string s = type;
-
-        /* insert space if needed */
-        if (pos > 0 && utils::str_at(type, pos-1) != ' ') {
-            s.insert(pos, 1, ' ');
-            pos++;
-        }
-
-        return s.insert(pos, name);
-    }
-
-
     /* cosmetics on the output */
     void format_prototype(std::string &s)
     {
@@ -348,21 +311,13 @@ void gendlopen::create_typedefs()
     for (auto &p : m_objects) {
         std::string def, name;
 
-        if (p.prototype == proto::function_pointer) {
-            /* function pointer */
-            name = m_pfx_lower + '_' + p.symbol + "__t";
-            def = fptr_typedef(p.type, name);
-        } else if (p.prototype == proto::object_array) {
-            /* array type */
-            name = m_pfx_lower + '_' + p.symbol + "__t";
-            def = array_typedef(p.type, name);
-        } else {
+        if (p.prototype != proto::function_pointer && p.prototype != proto::object_array) {
             continue;
         }
 
-        if (def.empty()) {
-            throw error("failed to create typedef for symbol `" + p.symbol + "'");
-        }
+        /* function pointer or array type */
+        name = m_pfx_lower + '_' + p.symbol + "__t";
+        def = parse::insert_name(p.type, name);
 
         m_typedefs.push_back(std::move(def)); /* add to typedefs */
         p.type = std::move(name); /* replace old type */
-- 
2.43.0


From 2bdbfe43849f8837100217611b02022952eb3d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:41 +0000
Subject: [PATCH 26/54] fix: Clang AST: functions declared by a typedef were
 ignored, unsupported return types truncated

---
 src/clang_ast.cpp | 58 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index e6c3023..b6dc541 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -148,6 +148,45 @@ bool find_symbol(const std::string &line, std::string &symbol, std::string &type
 }
 
 
+/* use the type behind a typedef: 'func_t':'int (int)' */
+void desugar_type(const std::string &line, std::string &type)
+{
+    const std::string str = " '" + type + "':'";
+    size_t pos;
+
+    if (utils::find(line, str, pos)) {
+        pos += str.size();
+        const size_t end = line.find('\'', pos);
+
+        if (end != std::string::npos) {
+            type = line.substr(pos, end - pos);
+        }
+    }
+}
+
+
+/* find the parentheses around the parameters in a function type; these are the
+ * last ones which aren't part of attributes: int (int) __attribute__((noreturn)) */
+bool find_parameters(const std::string &type, size_t &beg, size_t &end)
+{
+    size_t first = 0;
+    int depth = 0;
+    bool found = false;
+
+    for (size_t i = 0; i < type.size(); i++) {
+        if (type[i] == '(' && depth++ == 0) {
+            first = i;
+        } else if (type[i] == ')' && --depth == 0 && !type.substr(0, first).ends_with("__attribute__")) {
+            beg = first;
+            end = i;
+            found = true;
+        }
+    }
+
+    return found;
+}
+
+
 /* get function parameter declaration */
 bool get_parameters(std::string &args, std::string &param_names, int &param_count)
 {
@@ -237,18 +276,27 @@ int gendlopen::get_declarations(filter::mode mode)
 
     if (is_function) {
         /* function declaration */
-        size_t pos;
+        size_t beg, end;
         int rv, param_count = 1;
 
-        if (!utils::find(type, '(', pos)) {
-            return lex::lex();
+        desugar_type(line, type);
+
+        if (!find_parameters(type, beg, end)) {
+            throw error("Clang AST: cannot read type of function `" + symbol + "': " + type);
         }
 
+        const std::string params = type.substr(beg + 1, end - beg - 1);
+
         proto.prototype = proto::function;
 
-        proto.type = type.substr(0, pos);
+        proto.type = type.substr(0, beg);
         utils::strip_spaces(proto.type);
 
+        /* function pointer or array pointer as return type */
+        if (utils::find(proto.type, "(*") || params.starts_with('*')) {
+            throw error("Clang AST: return type of function `" + symbol + "' is not supported: " + type);
+        }
+
         /* read next lines for parameters */
         while ((rv = lex::lex()) == LEX_AST_PARMVAR) {
             if (!get_parameters(proto.args, proto.param_names, param_count)) {
@@ -257,7 +305,7 @@ int gendlopen::get_declarations(filter::mode mode)
         }
 
         /* variable arguments are not listed as a parameter */
-        if (type.ends_with("...)")) {
+        if (params.ends_with("...")) {
             proto.args += "...";
         }
 
-- 
2.43.0


From 47ef1e4f56fdc68cbf754a04f5db86714fdb693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:41 +0000
Subject: [PATCH 27/54] fix: Clang AST: keep the void parameter list

---
 src/clang_ast.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index b6dc541..1eab294 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -304,6 +304,11 @@ int gendlopen::get_declarations(filter::mode mode)
             }
         }
 
+        /* no parameters */
+        if (params == "void") {
+            proto.args = params;
+        }
+
         /* variable arguments are not listed as a parameter */
         if (params.ends_with("...")) {
             proto.args += "...";
-- 
2.43.0


From f90e3cfb29cdba0ac8f6ac5e975d6824c3de671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 28/54] fix: Clang AST: report unnamed types

---
 src/clang_ast.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 1eab294..f38db0e 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -274,6 +274,11 @@ int gendlopen::get_declarations(filter::mode mode)
         break;
     }
 
+    /* these types cannot be declared again */
+    if (utils::find(type, "(unnamed ") || utils::find(type, "(anonymous ")) {
+        throw error("Clang AST: unnamed type of symbol `" + symbol + "' is not supported: " + type);
+    }
+
     if (is_function) {
         /* function declaration */
         size_t beg, end;
-- 
2.43.0


From 7fefca9af94ae6fefb1bc4dac815c11d49e6e8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 29/54] fix: -force: don't abort on or delete directories

---
 src/generate.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 277aa3a..3638c12 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -37,6 +37,7 @@
 #include <regex>
 #include <sstream>
 #include <string>
+#include <system_error>
 #include <vector>
 
 #include "cio_ofstream.hpp"
@@ -355,12 +356,16 @@ void open_ofstream(const fs::path &opath, bool force)
     }
 
     /* delete file to prevent writing data into symlink target */
-    if (force) {
-        fs::remove(opath);
+    std::error_code ec;
+    auto status = fs::symlink_status(opath, ec);
+
+    if (force && !fs::is_directory(status)) {
+        fs::remove(opath, ec);
+        status = fs::symlink_status(opath, ec);
     }
 
     /* check symlink and not its target */
-    if (fs::exists(fs::symlink_status(opath))) {
+    if (fs::exists(status)) {
         throw gendlopen::error("file already exists: " + opath.string());
     }
 
-- 
2.43.0


From dd11218f08cc4d4b1e7b1b95a548a0f768d52d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 30/54] fix: -library: very long library names overflowed the
 stack

---
 src/generate.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 3638c12..ad67c52 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -34,7 +34,6 @@
 #include <locale>
 #include <iomanip>
 #include <iostream>
-#include <regex>
 #include <sstream>
 #include <string>
 #include <system_error>
@@ -178,14 +177,16 @@ std::string format_libname(const std::string &str, const std::string &pfx)
     case 'a':
         /* no quotes, API libname macro */
         if (utils::prefixed_and_longer_case(str, "api:")) {
-            const std::regex reg("(.*?):(.*)");
-            std::smatch m;
             auto sub = str.substr(4);
+            size_t pos;
+
+            if (utils::find(sub, ':', pos)) {
+                const auto api = sub.substr(0, pos);
+                const auto name = sub.substr(pos + 1);
 
-            if (std::regex_match(sub, m, reg) && m.size() == 3) {
                 /* GDO_LIBNAMEA(xxx,0) */
-                lib_a = pfx + "_LIBNAMEA(" + m[2].str() + ',' + m[1].str() + ')';
-                lib_w = pfx + "_LIBNAMEW(" + m[2].str() + ',' + m[1].str() + ')';
+                lib_a = pfx + "_LIBNAMEA(" + name + ',' + api + ')';
+                lib_w = pfx + "_LIBNAMEW(" + name + ',' + api + ')';
                 break;
             }
         }
-- 
2.43.0


From 7ebd198ab39d6a6a6ecefded5050f830e06ea3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 31/54] fix: -templates-path: license and filename macros were
 not used or accessed after being freed

---
 src/gendlopen.hpp |  2 +-
 src/generate.cpp  | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index e3052d2..b8f6676 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -106,7 +106,7 @@ private:
     void dump_templates(const char *dir);
 
     /* generate.cpp */
-    size_t save_data(templates::name file, const template_t *list);
+    size_t save_data(const template_t *list);
 
     /* substitute.cpp */
     size_t replace_function_prototypes(const std::string &entry);
diff --git a/src/generate.cpp b/src/generate.cpp
index ad67c52..048b1a6 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -393,12 +393,10 @@ size_t line_directive(const size_t lines, bool line_directive, const std::string
 
 
 /* save data, replace prefixes, return line count */
-size_t gendlopen::save_data(templates::name file, const template_t *list)
+size_t gendlopen::save_data(const template_t *list)
 {
     size_t total_lines = 0;
 
-    load_template(file);
-
     /* skip initial line directive */
     if (!m_line_directive && strncmp(list->data.c_str(), "#line", 5) == 0) {
         list++;
@@ -503,6 +501,8 @@ void gendlopen::generate()
     }
 
     /* create template data */
+    load_template(templates::file_license);
+    load_template(templates::file_filename_macros);
     create_template_lists(header_data, body_data);
 
 
@@ -510,12 +510,12 @@ void gendlopen::generate()
     save::open_ofstream(ofhdr, m_force);
 
     lines += save::note(m_print_date);
-    lines += save_data(templates::file_license, templates::ptr_license);
+    lines += save_data(templates::ptr_license);
 
     lines += save::line_directive(lines, m_line_directive, header_name);
     lines += save::header_guard_begin(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
-    lines += save_data(templates::file_filename_macros, templates::ptr_filename_macros);
+    lines += save_data(templates::ptr_filename_macros);
     lines += save::extra_defines(m_defines);
     lines += save::includes(m_includes, is_cxx);
     lines += save::typedefs(m_typedefs);
@@ -533,7 +533,7 @@ void gendlopen::generate()
         save::open_ofstream(ofbody, m_force);
 
         save::note(m_print_date);
-        save_data(templates::file_license, templates::ptr_license);
+        save_data(templates::ptr_license);
         save::include_header(header_name, m_pfx_upper);
 
         substitute(body_data);
-- 
2.43.0


From 93232e0885daaf231ccb20d56ec91c030f2eb692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 32/54] fix: external and custom templates: don't append an
 empty line

---
 src/data.cpp      | 6 +++++-
 src/gendlopen.cpp | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/data.cpp b/src/data.cpp
index c3d0dd3..504f34e 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -92,7 +92,11 @@ namespace /* anonymous */
         /* read lines */
         while (rv) {
             rv = utils::get_lines(fp, entry);
-            data.push_back(entry);
+
+            /* nothing follows after the last line feed */
+            if (rv || !entry.data.empty()) {
+                data.push_back(entry);
+            }
         }
 
         entry = { {}, 0, 0 };
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index cb8a80a..b0bb350 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -207,6 +207,12 @@ void gendlopen::process_custom_template()
     /* parse lines */
     while (rv) {
         rv = utils::get_lines(fp, entry);
+
+        /* nothing follows after the last line feed */
+        if (!rv && entry.data.empty()) {
+            break;
+        }
+
         substitute_line(entry, param_skip_code);
         m_substitute_lineno += entry.line_count;
     }
-- 
2.43.0


From 1324cdd19827cd5801880646bc6cf0d9a0390961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 33/54] fix: -line: wrong line numbers with external templates
 and after removed lines

---
 src/data.cpp       |  7 ++++++-
 src/substitute.cpp | 11 ++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index 504f34e..82179aa 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -83,7 +83,7 @@ namespace /* anonymous */
             if (fp == stdin) {
                 entry.data = "#line 1 \"<STDIN>\"";
             } else {
-                entry.data = "#line 1 \"" + std::string(file) + "\"\n";
+                entry.data = "#line 1 \"" + std::string(file) + "\"";
             }
 
             data.push_back(entry);
@@ -117,6 +117,11 @@ namespace /* anonymous */
 
         std::cout << "saving " << path << std::endl;
 
+        /* skip initial line directive, it isn't part of the file */
+        if (strncmp(list->data.c_str(), "#line", 5) == 0) {
+            list++;
+        }
+
         for ( ; list->line_count != 0; list++) {
             if (list->line_count == 1) {
                 ofs << list->data << '\n';
diff --git a/src/substitute.cpp b/src/substitute.cpp
index 7fd47a3..4389509 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -269,13 +269,14 @@ size_t gendlopen::substitute_line(const template_t &line, bool &param_skip_code)
     /* print #line directive to make sure the line count is on par */
     auto print_lineno = [&, this] () -> size_t
     {
-        const size_t entry_lines = utils::count_linefeed(buf);
-
-        if (m_line_directive) {
-            save::ofs << "#line " << (m_substitute_lineno + entry_lines) << '\n';
+        if (!m_line_directive) {
+            return 0; /* no line */
         }
 
-        return entry_lines;
+        /* number of the line following the removed entry */
+        save::ofs << "#line " << (m_substitute_lineno + line.line_count) << '\n';
+
+        return 1; /* 1 line */
     };
 
     auto find_keyword = [&buf] (const list_t &list) -> char {
-- 
2.43.0


From 5a5049e72310358444193017b78d6021da706ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 34/54] fix: -line: defines, includes and typedefs are not part
 of a template

---
 src/generate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generate.cpp b/src/generate.cpp
index 048b1a6..ce2d643 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -516,6 +516,7 @@ void gendlopen::generate()
     lines += save::header_guard_begin(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
     lines += save_data(templates::ptr_filename_macros);
+    lines += save::line_directive(lines, m_line_directive, header_name);
     lines += save::extra_defines(m_defines);
     lines += save::includes(m_includes, is_cxx);
     lines += save::typedefs(m_typedefs);
-- 
2.43.0


From 8dbcc6b3b98e606f2f4dca891da2cd3a89d23f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 35/54] fix: -separate: don't leave a header behind if the body
 file already exists

---
 src/generate.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/generate.cpp b/src/generate.cpp
index ce2d643..4c03d5e 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -506,6 +506,12 @@ void gendlopen::generate()
     create_template_lists(header_data, body_data);
 
 
+    /* don't create the header if the body cannot be saved */
+    if (!body_data.empty() && !m_force && fs::exists(fs::symlink_status(ofbody))) {
+        throw error("file already exists: " + ofbody.string());
+    }
+
+
     /*************** header data ***************/
     save::open_ofstream(ofhdr, m_force);
 
-- 
2.43.0


From e97af7095cfc1c16bcffcb1551538ad56aae2cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 36/54] fix: report file system errors instead of aborting

---
 src/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index cc032bf..d8a6322 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <exception>
 #include <iostream>
 #include <string>
 #ifdef _WIN32
@@ -66,6 +67,11 @@ int main(int argc, char **argv)
         std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
         return 1;
     }
+    catch (const std::exception &e) {
+        /* file system errors, etc. */
+        std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From b589618214059e2b8a1f2e9457bab3c3dc307b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 37/54] fix: exit with an error if the output could not be
 written

---
 src/cio_ofstream.cpp | 11 ++++++++++-
 src/cio_ofstream.hpp |  3 ++-
 src/data.cpp         |  4 ++++
 src/gendlopen.cpp    |  6 ++++++
 src/gendlopen.hpp    |  1 +
 src/generate.cpp     | 12 +++++++++++-
 src/options.cpp      | 18 ++++++++++++++----
 7 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/cio_ofstream.cpp b/src/cio_ofstream.cpp
index a531de6..dea5a9d 100644
--- a/src/cio_ofstream.cpp
+++ b/src/cio_ofstream.cpp
@@ -52,13 +52,22 @@ bool ofstream::open(const std::string &file)
     return open_path(file);
 }
 
-void ofstream::close()
+bool ofstream::close()
 {
+    bool rv = true;
+
     if (m_ofs.is_open()) {
         m_ofs.close();
+        rv = m_ofs.good();
+        m_ofs.clear();
+    } else {
+        std::cout.flush();
+        rv = std::cout.good();
     }
 
     m_optr = &std::cout;
+
+    return rv;
 }
 
 } /* namespace cio */
diff --git a/src/cio_ofstream.hpp b/src/cio_ofstream.hpp
index 400aebe..756ef98 100644
--- a/src/cio_ofstream.hpp
+++ b/src/cio_ofstream.hpp
@@ -64,7 +64,8 @@ public:
     bool open(const std::filesystem::path &path);
     bool open(const std::string &file);
 
-    void close();
+    /* returns false if not all data could be written */
+    bool close();
 
     /* overloading "<<" operator */
     template<class T>
diff --git a/src/data.cpp b/src/data.cpp
index 82179aa..74eaba8 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -138,6 +138,10 @@ namespace /* anonymous */
                 ofs << '\n';
             }
         }
+
+        if (!ofs.close()) {
+            throw gendlopen::error(std::string("failed to write: ") + path);
+        }
     }
 }
 
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index b0bb350..fc76c6c 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -216,6 +216,8 @@ void gendlopen::process_custom_template()
         substitute_line(entry, param_skip_code);
         m_substitute_lineno += entry.line_count;
     }
+
+    save::close_ofstream(m_output);
 }
 
 
@@ -255,5 +257,9 @@ void gendlopen::print_symbols_to_stdout()
     }
 
     std::cout << "\n/***  " << (m_objects.size() + m_prototypes.size()) << " matches  ***/" << std::endl;
+
+    if (!std::cout) {
+        throw error("failed to write: <STDOUT>");
+    }
 }
 
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index b8f6676..0f8546d 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -40,6 +40,7 @@ namespace save
 
     /* open output file stream for writing */
     void open_ofstream(const std::filesystem::path &opath, bool force);
+    void close_ofstream(const std::filesystem::path &opath);
 }
 
 
diff --git a/src/generate.cpp b/src/generate.cpp
index 4c03d5e..086c026 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -376,6 +376,15 @@ void open_ofstream(const fs::path &opath, bool force)
     }
 }
 
+/* close output file stream */
+void close_ofstream(const fs::path &opath)
+{
+    if (!ofs.close()) {
+        const std::string name = (opath.empty() || opath == "-") ? "<STDOUT>" : opath.string();
+        throw gendlopen::error("failed to write: " + name);
+    }
+}
+
 size_t line_directive(const size_t lines, bool line_directive, const std::string &header_name)
 {
     if (!line_directive) {
@@ -532,7 +541,7 @@ void gendlopen::generate()
     lines += save::line_directive(lines, m_line_directive, header_name);
     save::header_guard_end(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
-    save::ofs.close();
+    save::close_ofstream(ofhdr);
 
 
     /**************** body data ****************/
@@ -544,6 +553,7 @@ void gendlopen::generate()
         save::include_header(header_name, m_pfx_upper);
 
         substitute(body_data);
+        save::close_ofstream(ofbody);
     }
 }
 
diff --git a/src/options.cpp b/src/options.cpp
index ae2fa63..659b24c 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -62,6 +62,16 @@ namespace /* anonymous */
         return NULL;
     }
 
+    /* exit unless the output could not be written */
+    void exit_after_output()
+    {
+        if (!std::cout.flush()) {
+            throw gendlopen::error("failed to write: <STDOUT>");
+        }
+
+        std::exit(0);
+    }
+
     template<size_t N>
     bool get_option(const std::string &token, const char *&ptr, char const (&opt)[N])
     {
@@ -93,17 +103,17 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             }
         } else if (o.flag("?") || o.flag("help")) {
             help::print(argv[0]);
-            std::exit(0);
+            exit_after_output();
         } else if (o.flag("full-help")) {
             help::print_full(argv[0]);
-            std::exit(0);
+            exit_after_output();
         } else if (o.flag("ast-all-symbols")) {
             ast_all_symbols(true);
         } else if (o.arg(p, "D")) {
             add_def(p);
         } else if (o.arg(p, "dump-templates")) {
             dump_templates(p);
-            std::exit(0);
+            exit_after_output();
         } else if (o.arg(p, "format")) {
             format(p);
         } else if (o.flag("force")) {
@@ -140,7 +150,7 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             templates_path(p);
         } else if (o.flag("version")) {
             std::cout << "gendlopen " << gendlopen::version() << std::endl;
-            std::exit(0);
+            exit_after_output();
         } else {
             throw gendlopen::error_cmd(std::string("unknown option: ") + o.current());
         }
-- 
2.43.0


From 6e3a1c5e0a3f1e648c195934af24e406f6e8c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:10 +0000
Subject: [PATCH 38/54] fix: exit with an error if an input or template file
 cannot be read

---
 src/data.cpp      | 4 ++++
 src/gendlopen.cpp | 4 ++++
 src/lex.l         | 5 ++++-
 src/lex.yy.c      | 7 +++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/data.cpp b/src/data.cpp
index 74eaba8..5d0de7a 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -99,6 +99,10 @@ namespace /* anonymous */
             }
         }
 
+        if (::ferror(fp)) {
+            throw gendlopen::error("failed to read file: " + path);
+        }
+
         entry = { {}, 0, 0 };
         data.push_back(entry);
     }
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index fc76c6c..1d4bf88 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -217,6 +217,10 @@ void gendlopen::process_custom_template()
         m_substitute_lineno += entry.line_count;
     }
 
+    if (::ferror(fp)) {
+        throw error("failed to read file: " + m_custom_template);
+    }
+
     save::close_ofstream(m_output);
 }
 
diff --git a/src/lex.l b/src/lex.l
index 25b24ac..20a3357 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -36,6 +36,9 @@
 static char errbuf[128] = {0};
 const char *lex_errmsg = errbuf;
 
+/* same exit status as on other errors */
+#define YY_EXIT_FAILURE 1
+
 static int handle_ast_begin();
 void set_illegal_char();
 
@@ -50,7 +53,7 @@ funcvar             ^({col})?[|`]"-"({col})?({col})?("Function"|"Var")"Decl"({co
 node                ^({col})?[|`]"-".*
 parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?({col})?" 0x".*
 
-option              ^({bom})?"%option"[[:space:]]
+option              ^({bom})?"%option"/[[:space:]]
 optstr              [^[:space:]]+
 
 preproc             ^({bom})?[[:space:]]*?"#"
diff --git a/src/lex.yy.c b/src/lex.yy.c
index d45fc9c..c44051b 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -729,6 +729,9 @@ char *yytext;
 static char errbuf[128] = {0};
 const char *lex_errmsg = errbuf;
 
+/* same exit status as on other errors */
+#define YY_EXIT_FAILURE 1
+
 static int handle_ast_begin();
 void set_illegal_char();
 
@@ -1047,6 +1050,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 /* rule 7 can match eol */
+*yy_cp = (yy_hold_char); /* undo effects of setting up yytext */
+YY_LINENO_REWIND_TO(yy_cp - 1);
+(yy_c_buf_p) = yy_cp -= 1;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
 { BEGIN(OPTION); /* %option line */ }
 	YY_BREAK
-- 
2.43.0


From 6f6257a100bed4115a6e8ed20132a1806ef79576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 39/54] fix: a declaration needs a type that precedes the
 symbol name

`const foo (a);' was taken as a function named `foo', `1 foo;' as an object
---
 src/parameter_names.cpp | 23 ++---------------------
 src/parse.cpp           | 32 +++++++++++++++++++++++++++++++-
 src/parse.hpp           |  2 ++
 3 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index f167783..ce18219 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -120,26 +120,6 @@ namespace /* anonymous */
     }
 
 
-    /* whether `name' is a parameter name preceded by a type and not
-     * the last word of an unnamed type (`unsigned int', `const foo') */
-    bool is_parameter_name(const iter_t &begin, const iter_t &name)
-    {
-        if (parse::is_keyword(*name)) {
-            return false;
-        }
-
-        for (auto it = begin; it != name; it++) {
-            if (*it != "const" && *it != "volatile" && *it != "register" &&
-                *it != "struct" && *it != "union" && *it != "enum")
-            {
-                return true;
-            }
-        }
-
-        return false;
-    }
-
-
     bool read_parameter_names(proto_t &proto, std::string &msg)
     {
         const char *hint = "\nhint: try `" OPT_PARAM_SKIP "' or `" OPT_PARAM_CREATE "'";
@@ -190,7 +170,8 @@ namespace /* anonymous */
                 name = it - 1;
             }
 
-            if (name != v.end() && is_parameter_name(v.begin(), name)) {
+            /* not the last word of an unnamed type (`unsigned int', `const foo') */
+            if (name != v.end() && parse::is_name(*name) && parse::has_type(v.begin(), name)) {
                 proto.param_names += *name + ", ";
                 continue;
             }
diff --git a/src/parse.cpp b/src/parse.cpp
index e14c7ea..fc1cc6f 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -257,7 +257,13 @@ namespace /* anonymous */
     /* check and parse tokens, save prototype */
     bool check_prototype(vstring_t &v, proto_t &p)
     {
-        return (check_tokens(v, p) && !parse::is_keyword(p.symbol));
+        /* the type precedes the symbol name, parentheses and brackets */
+        auto is_end = [&p] (const std::string &s) -> bool {
+            return (s == p.symbol || s == "(" || s == "[");
+        };
+
+        return (check_tokens(v, p) && parse::is_name(p.symbol) &&
+            parse::has_type(v.begin(), std::find_if(v.begin(), v.end(), is_end)));
     }
 
 
@@ -299,6 +305,30 @@ bool parse::is_keyword(const std::string &s)
 }
 
 
+/* can be the name of a symbol, a parameter or a type */
+bool parse::is_name(const std::string &s)
+{
+    return (is_ident(utils::str_front(s)) && (s.front() < '0' || s.front() > '9') && !is_keyword(s));
+}
+
+
+/* whether there is a type before the name, `const foo' for example isn't one */
+bool parse::has_type(const iter_t &begin, const iter_t &name)
+{
+    for (auto it = begin; it != name; it++) {
+        if (*it != "const" && *it != "volatile" && *it != "register" &&
+            *it != "static" && *it != "inline" &&
+            *it != "struct" && *it != "union" && *it != "enum")
+        {
+            /* `*' or a number is no type */
+            return (is_name(*it) || is_keyword(*it));
+        }
+    }
+
+    return false;
+}
+
+
 /* insert the name where it belongs in a declaration:
  * int (*)(int)  ==>  int (*name)(int)
  * int[3]        ==>  int name[3]
diff --git a/src/parse.hpp b/src/parse.hpp
index 90e7281..2b17594 100644
--- a/src/parse.hpp
+++ b/src/parse.hpp
@@ -57,6 +57,8 @@ namespace parse
 
     /* parse.cpp */
     bool is_keyword(const std::string &s);
+    bool is_name(const std::string &s);
+    bool has_type(const iter_t &begin, const iter_t &name);
     std::string insert_name(const std::string &type, const std::string &name);
 
     /* parameter_names.cpp */
-- 
2.43.0


From 532f9668ffe4c8ff732c09cd9f3489625213b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 40/54] fix: reject input that ends within a comment or block

Everything that followed the comment or brace was silently ignored
---
 src/lex.h        |  5 +++++
 src/lex.l        |  9 +++++++++
 src/lex.yy.c     | 14 ++++++++++++--
 src/tokenize.cpp |  5 +++++
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/lex.h b/src/lex.h
index f243fbd..150dcd1 100644
--- a/src/lex.h
+++ b/src/lex.h
@@ -31,6 +31,7 @@ extern const char *lex_errmsg;
 extern char *yytext;
 
 void set_illegal_char();
+int unterminated(const char *);
 
 int yylex();
 void yyset_in(FILE *);
@@ -53,6 +54,10 @@ namespace lex
         ::set_illegal_char();
     }
 
+    inline int unterminated(const char *what) {
+        return ::unterminated(what);
+    }
+
     inline int lex() {
         return ::yylex();
     }
diff --git a/src/lex.l b/src/lex.l
index 20a3357..e2d5902 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -40,6 +40,7 @@ const char *lex_errmsg = errbuf;
 #define YY_EXIT_FAILURE 1
 
 static int handle_ast_begin();
+int unterminated(const char *);
 void set_illegal_char();
 
 %}
@@ -97,6 +98,7 @@ other               [*,()\[\]]
 <C_COMMENT>"*"{split}+"/"   { BEGIN(INITIAL); /* end */ }
 <C_COMMENT>\n               { }
 <C_COMMENT>.                { }
+<C_COMMENT,PRE_COMMENT><<EOF>> { return unterminated("comment"); }
 
 {preproc}                   { BEGIN(PRE); }
 <PRE>"/*"                   { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
@@ -151,6 +153,13 @@ static int handle_ast_begin()
     return LEX_ERROR;
 }
 
+/* the input ends within a comment or block */
+int unterminated(const char *what)
+{
+    SNPRINTF(errbuf, sizeof(errbuf), "unterminated %s at end of file", what);
+    return LEX_ERROR;
+}
+
 /* save error message */
 void set_illegal_char()
 {
diff --git a/src/lex.yy.c b/src/lex.yy.c
index c44051b..f6cbb93 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -733,6 +733,7 @@ const char *lex_errmsg = errbuf;
 #define YY_EXIT_FAILURE 1
 
 static int handle_ast_begin();
+int unterminated(const char *);
 void set_illegal_char();
 
 #define YY_NO_INPUT 1
@@ -1125,6 +1126,10 @@ case 22:
 YY_RULE_SETUP
 { }
 	YY_BREAK
+case YY_STATE_EOF(C_COMMENT):
+case YY_STATE_EOF(PRE_COMMENT):
+{ return unterminated("comment"); }
+	YY_BREAK
 case 23:
 /* rule 23 can match eol */
 YY_RULE_SETUP
@@ -1264,9 +1269,7 @@ case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(AST):
 case YY_STATE_EOF(OPTION):
 case YY_STATE_EOF(COMMENT):
-case YY_STATE_EOF(C_COMMENT):
 case YY_STATE_EOF(PRE):
-case YY_STATE_EOF(PRE_COMMENT):
 	yyterminate();
 
 	case YY_END_OF_BUFFER:
@@ -2258,6 +2261,13 @@ static int handle_ast_begin()
     return LEX_ERROR;
 }
 
+/* the input ends within a comment or block */
+int unterminated(const char *what)
+{
+    SNPRINTF(errbuf, sizeof(errbuf), "unterminated %s at end of file", what);
+    return LEX_ERROR;
+}
+
 /* save error message */
 void set_illegal_char()
 {
diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index 650080a..5805386 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -166,6 +166,11 @@ namespace /* anonymous */
             }
         } /* end of loop body */
 
+        /* open brace in a block */
+        if (block && curly_count > 0 && rv != LEX_ERROR) {
+            return lex::unterminated("block");
+        }
+
         /* push back if last prototype didn't end on semicolon */
         if (!tokens.empty()) {
             vec.push_back(tokens);
-- 
2.43.0


From 680e4d5754e39838724fe5edef8423608686b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 41/54] fix: a type may be named like the symbol

This corrects the previous fix: `const struct foo foo;' was rejected
---
 src/parse.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index fc1cc6f..5582414 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -113,7 +113,7 @@ namespace /* anonymous */
         parse::append_strings(p.type, v.begin(), v.end() - 1 /* symbol name */);
         p.symbol = v.back();
 
-        return true;
+        return parse::has_type(v.begin(), v.end() - 1);
     }
 
 
@@ -129,7 +129,7 @@ namespace /* anonymous */
         parse::append_strings(p.type, it /* first bracket */, v.end());
         p.symbol = *(it - 1);
 
-        return true;
+        return parse::has_type(v.begin(), it - 1);
     }
 
 
@@ -150,7 +150,7 @@ namespace /* anonymous */
 
         p.symbol = *(it + 2);
 
-        return true;
+        return parse::has_type(v.begin(), it);
     }
 
 
@@ -169,7 +169,7 @@ namespace /* anonymous */
         /*       ^ + 1      2 3 4       */
         copy_parameters(it + 4, v.end() - 1, p);
 
-        return true;
+        return parse::has_type(v.begin(), it);
     }
 
 
@@ -195,7 +195,7 @@ namespace /* anonymous */
         /*       ^ + n  1      2 3    -2 -1  */
         copy_parameters(it + n + 3, v.end() - 2, p);
 
-        return true;
+        return parse::has_type(v.begin(), it);
     }
 
 
@@ -211,7 +211,7 @@ namespace /* anonymous */
         p.symbol = *(it - 1);
         copy_parameters(it + 1 /* first lparen */, v.end() - 1, p);
 
-        return true;
+        return parse::has_type(v.begin(), it - 1);
     }
 
 
@@ -257,13 +257,7 @@ namespace /* anonymous */
     /* check and parse tokens, save prototype */
     bool check_prototype(vstring_t &v, proto_t &p)
     {
-        /* the type precedes the symbol name, parentheses and brackets */
-        auto is_end = [&p] (const std::string &s) -> bool {
-            return (s == p.symbol || s == "(" || s == "[");
-        };
-
-        return (check_tokens(v, p) && parse::is_name(p.symbol) &&
-            parse::has_type(v.begin(), std::find_if(v.begin(), v.end(), is_end)));
+        return (check_tokens(v, p) && parse::is_name(p.symbol));
     }
 
 
-- 
2.43.0


From 09311ff73b72d21261475f7f57c3eb97f7cf0328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 42/54] fix: Clang AST: pointers of the return type may be in
 parentheses

`char *(**foo(void));' is dumped as `char *(**(void))' and was declared as
`char *foo(void)' or rejected
---
 src/clang_ast.cpp | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index f38db0e..d415405 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -187,6 +187,43 @@ bool find_parameters(const std::string &type, size_t &beg, size_t &end)
 }
 
 
+/* pointers of the return type may be in parentheses together with the parameters:
+ * char *(**(int)) ==> char *** (int) */
+bool unwrap_parameters(std::string &params, std::string &pointers)
+{
+    while (params.starts_with('(') || params.starts_with('*')) {
+        const size_t pos = params.find('(');
+
+        if (pos == std::string::npos || params.find(')') == std::string::npos ||
+            params.find_first_not_of("*acdeilnorstuv ") < pos)  /* `*', const, volatile, restrict */
+        {
+            return false;
+        }
+
+        /* the matching parenthesis must be the last character */
+        int depth = 0;
+        size_t end = pos;
+
+        for ( ; end < params.size(); end++) {
+            if (params[end] == '(') {
+                depth++;
+            } else if (params[end] == ')' && --depth == 0) {
+                break;
+            }
+        }
+
+        if (end + 1 != params.size()) {
+            return false;
+        }
+
+        pointers += params.substr(0, pos);
+        params = params.substr(pos + 1, end - pos - 1);
+    }
+
+    return true;
+}
+
+
 /* get function parameter declaration */
 bool get_parameters(std::string &args, std::string &param_names, int &param_count)
 {
@@ -290,18 +327,21 @@ int gendlopen::get_declarations(filter::mode mode)
             throw error("Clang AST: cannot read type of function `" + symbol + "': " + type);
         }
 
-        const std::string params = type.substr(beg + 1, end - beg - 1);
+        std::string pointers;
+        std::string params = type.substr(beg + 1, end - beg - 1);
 
         proto.prototype = proto::function;
 
         proto.type = type.substr(0, beg);
-        utils::strip_spaces(proto.type);
 
         /* function pointer or array pointer as return type */
-        if (utils::find(proto.type, "(*") || params.starts_with('*')) {
+        if (!unwrap_parameters(params, pointers) || utils::find(proto.type, "(*")) {
             throw error("Clang AST: return type of function `" + symbol + "' is not supported: " + type);
         }
 
+        proto.type += pointers;
+        utils::strip_spaces(proto.type);
+
         /* read next lines for parameters */
         while ((rv = lex::lex()) == LEX_AST_PARMVAR) {
             if (!get_parameters(proto.args, proto.param_names, param_count)) {
-- 
2.43.0


From c204d8b6d22f373dc455eab2084f4d85deef42f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 43/54] fix: %PARAM_SKIP_*% lines with Windows line endings
 were not recognized

---
 src/substitute.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/substitute.cpp b/src/substitute.cpp
index 4389509..04295e7 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -48,11 +48,16 @@ namespace /* anonymous */
     }
 
     /* check for a "%PARAM_SKIP_*%" line */
-    bool check_skip_keyword(const char *ptr, bool &param_skip_code, param::names parameter_names)
+    bool check_skip_keyword(std::string line, bool &param_skip_code, param::names parameter_names)
     {
         const char str[] = "%PARAM_SKIP_";
         const size_t len = sizeof(str) - 1;
 
+        /* Windows line ending */
+        utils::delete_suffix(line, '\r');
+
+        const char *ptr = line.c_str();
+
         if (strncmp(ptr, str, len) != 0) {
             return false;
         }
@@ -299,7 +304,7 @@ size_t gendlopen::substitute_line(const template_t &line, bool &param_skip_code)
 
     /* check if we have to comment out lines between
      * "%PARAM_SKIP_*_BEGIN%" and "%PARAM_SKIP_END%" */
-    if (line.maybe_keyword && check_skip_keyword(line.data.c_str(), param_skip_code, m_parameter_names)) {
+    if (line.maybe_keyword && check_skip_keyword(line.data, param_skip_code, m_parameter_names)) {
         if (!param_skip_code && m_line_directive) {
             /* +1 to compensate for the removed %PARAM_SKIP_* line */
             save::ofs << "#line " << (m_substitute_lineno + 1) << '\n';
-- 
2.43.0


From f8bdecb12f2beeffa6d11989217c718e956f303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 44/54] fix: a prefix following another one (`gdo gdo') was not
 replaced

---
 src/gendlopen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index 1d4bf88..ffff64f 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -132,7 +132,7 @@ void gendlopen::prefix(const char *str)
     /* set regex format string (used in substitute.cpp) */
     m_fmt_upper = "$1" + m_pfx_upper + '_';
     m_fmt_lower = "$1" + m_pfx_lower + '_';
-    m_fmt_standalone = "$1" + m_pfx_lower + "$3";
+    m_fmt_standalone = "$1" + m_pfx_lower;
 }
 
 
@@ -152,7 +152,7 @@ std::string gendlopen::replace_prefixes(const std::string &input)
     );
 
     const std::regex reg_standalone(
-        "(" NOT_IDENT "|" LINE_BEGIN ")(gdo)(" NOT_IDENT "|" LINE_END ")"
+        "(" NOT_IDENT "|" LINE_BEGIN ")(gdo)(?=" NOT_IDENT "|" LINE_END ")"
     );
 
     std::string buf;
-- 
2.43.0


From 3b8532f2ba5a258b1332f7d79a79e11db53973e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 45/54] fix: -line: quotes and backslashes in filenames were
 not escaped

---
 src/gendlopen.cpp |  2 +-
 src/generate.cpp  |  2 +-
 src/utils.cpp     | 15 +++++++++++++++
 src/utils.hpp     |  4 ++++
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index ffff64f..000b808 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -197,7 +197,7 @@ void gendlopen::process_custom_template()
         if (fp == stdin) {
             save::ofs << "#line 1 \"<STDIN>\"\n";
         } else {
-            save::ofs << "#line 1 \"" << m_custom_template << "\"\n";
+            save::ofs << "#line 1 " << utils::quote_filename(m_custom_template) << '\n';
         }
 
         /* count the "#line" directive */
diff --git a/src/generate.cpp b/src/generate.cpp
index 086c026..43892e9 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -393,7 +393,7 @@ size_t line_directive(const size_t lines, bool line_directive, const std::string
 
     /* +1 to count the "#line" directive itself and
      * +1 to print the number of the next line */
-    save::ofs << "#line " << (lines + 2) << " \"" << header_name << "\"\n";
+    save::ofs << "#line " << (lines + 2) << ' ' << utils::quote_filename(header_name) << '\n';
 
     return 1;
 }
diff --git a/src/utils.cpp b/src/utils.cpp
index ac86140..ca39a4d 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -152,6 +152,21 @@ void utils::replace(const std::string &from, const std::string &to, std::string
     }
 }
 
+/* put quotes around a filename to be used in a #line directive */
+std::string utils::quote_filename(const std::string &name)
+{
+    std::string out = "\"";
+
+    for (const char &c : name) {
+        if (c == '"' || c == '\\') {
+            out += '\\';
+        }
+        out += c;
+    }
+
+    return out + '"';
+}
+
 /* count '\n' characters */
 size_t utils::count_linefeed(const std::string &str)
 {
diff --git a/src/utils.hpp b/src/utils.hpp
index 371d315..544eca5 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -104,6 +104,10 @@ void strip_spaces(std::string &s);
 void replace(const std::string &from, const std::string &to, std::string &s);
 
 
+/* put quotes around a filename to be used in a #line directive */
+std::string quote_filename(const std::string &name);
+
+
 /* count '\n' characters */
 size_t count_linefeed(const std::string &str);
 
-- 
2.43.0


From 78879ec31cfe6c7ebfcd39452dcd65d41247e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 46/54] fix: text created by a replaced placeholder was taken
 for a placeholder again

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index ca39a4d..37af9a3 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -146,7 +146,7 @@ void utils::replace(const std::string &from, const std::string &to, std::string
 {
     size_t pos = 0;
 
-    while (utils::find(str, from, pos)) {
+    while ((pos = str.find(from, pos)) != std::string::npos) {
         str.replace(pos, from.size(), to);
         pos += to.size();
     }
-- 
2.43.0


From 2c5cde0cb21caae5db31eff5ab7d542cb67930f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 47/54] fix: -library: names beginning with a, e or n were
 ignored

---
 src/generate.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 43892e9..2c874a7 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -160,7 +160,7 @@ std::string format_libname(const std::string &str, const std::string &pfx)
             lib_a = lib_w = str.substr(3);
             break;
         }
-        return {};
+        break;
 
     case 'E':
     case 'e':
@@ -171,7 +171,7 @@ std::string format_libname(const std::string &str, const std::string &pfx)
             lib_w = quote_lib(sub, true)  + ' ' + pfx + "_LIBEXTW";
             break;
         }
-        return {};
+        break;
 
     case 'A':
     case 'a':
@@ -190,13 +190,16 @@ std::string format_libname(const std::string &str, const std::string &pfx)
                 break;
             }
         }
-        return {};
+        break;
 
     default:
-        /* quote string */
+        break;
+    }
+
+    if (lib_a.empty()) {
+        /* no mode was set, quote string */
         lib_a = quote_lib(str, false);
         lib_w = quote_lib(str, true);
-        break;
     }
 
     out = "#define " + pfx + "_HARDCODED_DEFAULT_LIBA " + lib_a + '\n' +
-- 
2.43.0


From dfaefb83bfc2110c7c0ec575d4ff586ce4d3b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 48/54] fix: WinAPI, C++: converted strings ended with a
 superfluous null character

---
 src/templates/cxx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 13ff8e4..c45d522 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -129,6 +129,8 @@ bool gdo::dl::convert_string(const std::basic_string<T_in> &str_in, std::basic_s
 
         /* convert string */
         if (mbs_wcs_conv(&n, buf, len, str_in.c_str()) && n == len) {
+            /* the string object provides the null terminator */
+            str_out.resize(len - 1);
             return true;
         }
     }
-- 
2.43.0


From be5f0c54a5f1bddd6d400481c4f2b52e3530bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 49/54] fix: WinAPI: error of a filename that cannot be
 converted was overwritten by an unrelated one

---
 src/templates/c.c     | 5 ++++-
 src/templates/cxx.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 151526a..15fc3c4 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -232,7 +232,10 @@ GDO_LINKAGE bool gdo_load_lib_args(const gdo_char_t *filename, int flags, bool n
     _gdo_load_library(filename, flags, new_namespace);
 
     if (!gdo_lib_is_loaded()) {
-        _gdo_save_error(filename);
+        /* don't overwrite the error if the filename could not be converted */
+        if (gdo_hndl.errbuf[0] == 0) {
+            _gdo_save_error(filename);
+        }
         return false;
     }
 
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index c45d522..2c505c8 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -538,7 +538,10 @@ bool gdo::dl::load_filename(const T &filename)
     load_lib(filename);
 
     if (!lib_loaded()) {
-        save_error(filename);
+        /* don't overwrite the error if the filename could not be converted */
+        if (m_errmsg.empty()) {
+            save_error(filename);
+        }
         return false;
     }
 
-- 
2.43.0


From 211ddb7937cab4862020938ba6fa773abc9f3c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 50/54] fix: WinAPI, C++: filename_w() changed how the library
 is loaded

---
 src/templates/cxx.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 2c505c8..2324cef 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -930,11 +930,14 @@ std::string gdo::dl::filename()
 
 std::wstring gdo::dl::filename_w()
 {
-    if (m_wfilename.empty() && !m_filename.empty()) {
-        convert_string<char, wchar_t>(m_filename, m_wfilename);
+    /* m_wfilename is what load() prefers, so don't save the converted name */
+    std::wstring wfilename = m_wfilename;
+
+    if (wfilename.empty() && !m_filename.empty()) {
+        convert_string<char, wchar_t>(m_filename, wfilename);
     }
 
-    return m_wfilename;
+    return wfilename;
 }
 
 
-- 
2.43.0


From f135a7c03f6f11a6f815252f4048926f1c292ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 51/54] fix: WinAPI, C++: auto-loading wrappers did not work
 with a wide character library name

---
 src/templates/cxx.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 2324cef..297688c 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1045,11 +1045,13 @@ namespace gdo
 
             std::string msg = _loader.error();
 
-            if (msg.find(GDO_DEFAULT_LIBA) != std::string::npos) {
+            const std::string lib = _loader.filename();
+
+            if (msg.find(lib) != std::string::npos) {
                 /* library name is already part of error message */
                 sstr << "error: " << sym << ": " << msg;
             } else {
-                sstr << "error: " GDO_DEFAULT_LIB ": " << sym << ": " << msg;
+                sstr << "error: " << lib << ": " << sym << ": " << msg;
             }
 
             msg_callback(sstr.str().c_str());
-- 
2.43.0


From de8e0ec16c0fbb6acd9761f867cf2382f0adc48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 52/54] fix: dlfcn on Windows: message box showed a garbled
 error message

---
 src/templates/c.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 15fc3c4..6f62f75 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -895,10 +895,10 @@ GDO_INLINE void _gdo_print_error(const gdo_char_t *pfx, const gdo_char_t *sym, c
 #ifdef _WIN32
 
 # ifdef GDO_USE_MESSAGE_BOX
-    /* we can safely use gdo_hndl.errbuf, the last error message
-     * was saved in gdo_hndl.formatted */
-    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, _T("%s: %s: %s"), pfx, sym, msg);
-    MessageBox(NULL, gdo_hndl.errbuf, _T("Error"), MB_OK | MB_ICONERROR);
+    /* we can safely use gdo_hndl.libpath, the last error message
+     * was saved in gdo_hndl.formatted (WINAPI) or gdo_hndl.errbuf (dlfcn) */
+    _sntprintf_s(gdo_hndl.libpath, GDO_BUFLEN, _TRUNCATE, _T("%s: %s: %s"), pfx, sym, msg);
+    MessageBox(NULL, gdo_hndl.libpath, _T("Error"), MB_OK | MB_ICONERROR);
 # else
     _ftprintf_s(stderr, _T("%s: %s: %s\n"), pfx, sym, msg);
 # endif //GDO_USE_MESSAGE_BOX
-- 
2.43.0


From 10546998aabfd09973dd4a10ed737378df5efe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 53/54] fix: dlfcn on Windows: wide characters were used if
 _UNICODE is defined

---
 src/templates/c.c               | 68 ++++++++++++++++++---------------
 src/templates/c.h               |  4 +-
 src/templates/filename_macros.h |  2 +-
 3 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 6f62f75..0a888e2 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -61,7 +61,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void);
 /* strstr() / wcsstr() */
 GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_char_t *needle)
 {
-#ifdef _WIN32
+#ifdef GDO_WINAPI
     return _tcsstr(haystack, needle);
 #else
     return strstr(haystack, needle);
@@ -70,7 +70,7 @@ GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_c
 
 
 /* snprintf() / snwprintf() */
-#ifdef _WIN32
+#ifdef GDO_WINAPI
 # define GDO_SNPRINTF(DEST, FORMAT, ...) \
     _sntprintf_s(DEST, _countof(DEST), _TRUNCATE, FORMAT, __VA_ARGS__)
 #else
@@ -93,7 +93,7 @@ GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_c
 GDO_INLINE void _gdo_save_to_errbuf(const gdo_char_t *msg)
 {
     if (msg) {
-        GDO_SNPRINTF(gdo_hndl.errbuf, _T("%s"), msg);
+        GDO_SNPRINTF(gdo_hndl.errbuf, _GDO_T("%s"), msg);
     } else {
         gdo_hndl.errbuf[0] = 0;
     }
@@ -125,7 +125,7 @@ GDO_INLINE void _gdo_save_error(const gdo_char_t *msg)
 GDO_INLINE void _gdo_set_error_no_library_loaded(void)
 {
     gdo_hndl.last_errno = ERROR_INVALID_HANDLE;
-    _gdo_save_to_errbuf(_T("no library was loaded"));
+    _gdo_save_to_errbuf(_GDO_T("no library was loaded"));
 }
 
 #else
@@ -217,7 +217,7 @@ GDO_LINKAGE bool gdo_load_lib_args(const gdo_char_t *filename, int flags, bool n
 
     /* consider it an error if the library was already loaded */
     if (gdo_lib_is_loaded()) {
-        _gdo_save_to_errbuf(_T("library already loaded"));
+        _gdo_save_to_errbuf(_GDO_T("library already loaded"));
         return false;
     }
 
@@ -225,7 +225,7 @@ GDO_LINKAGE bool gdo_load_lib_args(const gdo_char_t *filename, int flags, bool n
      * the main program, but we don't want that */
     if (!filename || *filename == 0) {
         GDO_SET_LAST_ERRNO(ERROR_INVALID_NAME);
-        _gdo_save_to_errbuf(_T("empty filename"));
+        _gdo_save_to_errbuf(_GDO_T("empty filename"));
         return false;
     }
 
@@ -250,7 +250,7 @@ GDO_INLINE void _gdo_load_library(const gdo_char_t *filename, int flags, bool ne
     /* documentation says only backward slash path separators shall
      * be used on LoadLibraryEx() */
 
-    if (!_tcschr(filename, _T('/'))) {
+    if (!_tcschr(filename, _GDO_T('/'))) {
         /* no forward slash found */
         gdo_hndl.handle = _gdo_load_library_ex(filename, flags);
         return;
@@ -260,8 +260,8 @@ GDO_INLINE void _gdo_load_library(const gdo_char_t *filename, int flags, bool ne
     gdo_char_t *copy = _tcsdup(filename);
 
     for (gdo_char_t *p = copy; *p != 0; p++) {
-        if (*p == _T('/')) {
-            *p = _T('\\');
+        if (*p == _GDO_T('/')) {
+            *p = _GDO_T('\\');
         }
     }
 
@@ -346,7 +346,7 @@ GDO_LINKAGE bool gdo_free_lib(void)
         if (!_gdo_call_dlclose(gdo_hndl.handle))
         {
 #ifdef GDO_WINAPI
-            _gdo_save_error(_T("FreeLibrary()"));
+            _gdo_save_error(_GDO_T("FreeLibrary()"));
 #else
             _gdo_save_error(NULL);
 #endif
@@ -398,7 +398,7 @@ GDO_LINKAGE bool gdo_enable_autorelease(void)
         if (atexit(gdo_force_free_lib) == 0) {
             gdo_hndl.free_lib_reg = true;
         } else {
-            _gdo_save_to_errbuf(_T("atexit(): failed to register `gdo_force_free_lib()'"));
+            _gdo_save_to_errbuf(_GDO_T("atexit(): failed to register `gdo_force_free_lib()'"));
         }
     }
 
@@ -480,7 +480,7 @@ GDO_LINKAGE bool gdo_load_all_symbols(void)
     /* %%symbol%% */@
     if ((GDO_RAWPTR_%%symbol%% =@
             (%%sym_type%%)@
-                _gdo_sym("%%symbol%%", _T("%%symbol%%"))) == NULL) {@
+                _gdo_sym("%%symbol%%", _GDO_T("%%symbol%%"))) == NULL) {@
         return false;@
     }@
 
@@ -520,7 +520,7 @@ GDO_LINKAGE bool gdo_load_symbol(int symbol_num)
         if (!GDO_RAWPTR_%%symbol%%) {@
             GDO_RAWPTR_%%symbol%% =@
                 (%%sym_type%%)@
-                    _gdo_sym("%%symbol%%", _T("%%symbol%%"));@
+                    _gdo_sym("%%symbol%%", _GDO_T("%%symbol%%"));@
         }@
         return (GDO_RAWPTR_%%symbol%% != NULL);@
 
@@ -529,7 +529,7 @@ GDO_LINKAGE bool gdo_load_symbol(int symbol_num)
     }
 
     GDO_SET_LAST_ERRNO(ERROR_NOT_FOUND);
-    GDO_SNPRINTF(gdo_hndl.errbuf, _T("unknown symbol number: %d"), symbol_num);
+    GDO_SNPRINTF(gdo_hndl.errbuf, _GDO_T("unknown symbol number: %d"), symbol_num);
 
     return false;
 }
@@ -551,7 +551,7 @@ GDO_LINKAGE bool gdo_load_symbol_name(const char *symbol)
 
     if (!symbol || *symbol == 0) {
         GDO_SET_LAST_ERRNO(ERROR_INVALID_PARAMETER);
-        _gdo_save_to_errbuf(_T("empty symbol name"));
+        _gdo_save_to_errbuf(_GDO_T("empty symbol name"));
         return false;
     }
 
@@ -570,14 +570,14 @@ GDO_LINKAGE bool gdo_load_symbol_name(const char *symbol)
             if (!GDO_RAWPTR_%%symbol%%) {@
                 GDO_RAWPTR_%%symbol%% =@
                     (%%sym_type%%)@
-                        _gdo_sym("%%symbol%%", _T("%%symbol%%"));@
+                        _gdo_sym("%%symbol%%", _GDO_T("%%symbol%%"));@
             }@
             return (GDO_RAWPTR_%%symbol%% != NULL);@
         }
     }
 
     GDO_SET_LAST_ERRNO(ERROR_NOT_FOUND);
-    GDO_SNPRINTF(gdo_hndl.errbuf, _T("unknown symbol: ") GDO_XHS, symbol);
+    GDO_SNPRINTF(gdo_hndl.errbuf, _GDO_T("unknown symbol: ") GDO_XHS, symbol);
 
     return false;
 }
@@ -610,9 +610,9 @@ GDO_LINKAGE const gdo_char_t *gdo_last_error(void)
     if (buf) {
         if (gdo_hndl.errbuf[0] != 0) {
             /* put custom message in front */
-            GDO_SNPRINTF(gdo_hndl.formatted, _T("%s: %s"), gdo_hndl.errbuf, buf);
+            GDO_SNPRINTF(gdo_hndl.formatted, _GDO_T("%s: %s"), gdo_hndl.errbuf, buf);
         } else {
-            GDO_SNPRINTF(gdo_hndl.formatted, _T("%s"), buf);
+            GDO_SNPRINTF(gdo_hndl.formatted, _GDO_T("%s"), buf);
         }
 
         LocalFree(buf);
@@ -620,10 +620,10 @@ GDO_LINKAGE const gdo_char_t *gdo_last_error(void)
         /* FormatMessage() failed, save the error code */
         if (gdo_hndl.errbuf[0] != 0) {
             /* put custom message in front */
-            GDO_SNPRINTF(gdo_hndl.formatted, _T("%s: error code: %zu"), gdo_hndl.errbuf,
+            GDO_SNPRINTF(gdo_hndl.formatted, _GDO_T("%s: error code: %zu"), gdo_hndl.errbuf,
                 (size_t)gdo_hndl.last_errno);
         } else {
-            GDO_SNPRINTF(gdo_hndl.formatted, _T("error code: %zu"), (size_t)gdo_hndl.last_errno);
+            GDO_SNPRINTF(gdo_hndl.formatted, _GDO_T("error code: %zu"), (size_t)gdo_hndl.last_errno);
         }
     }
 
@@ -699,8 +699,8 @@ GDO_INLINE bool _gdo_library_path(void)
 # ifdef GDO_WINAPI
 
     const gdo_char_t *msg = (sizeof(gdo_char_t) == 1)
-        ? _T("GetModuleFileNameA()")
-        : _T("GetModuleFileNameW()");
+        ? _GDO_T("GetModuleFileNameA()")
+        : _GDO_T("GetModuleFileNameW()");
 
     DWORD nSize = GetModuleFileName(gdo_hndl.handle, gdo_hndl.libpath, GDO_BUFLEN);
 
@@ -897,10 +897,16 @@ GDO_INLINE void _gdo_print_error(const gdo_char_t *pfx, const gdo_char_t *sym, c
 # ifdef GDO_USE_MESSAGE_BOX
     /* we can safely use gdo_hndl.libpath, the last error message
      * was saved in gdo_hndl.formatted (WINAPI) or gdo_hndl.errbuf (dlfcn) */
-    _sntprintf_s(gdo_hndl.libpath, GDO_BUFLEN, _TRUNCATE, _T("%s: %s: %s"), pfx, sym, msg);
-    MessageBox(NULL, gdo_hndl.libpath, _T("Error"), MB_OK | MB_ICONERROR);
+    GDO_SNPRINTF(gdo_hndl.libpath, _GDO_T("%s: %s: %s"), pfx, sym, msg);
+#  ifdef GDO_WINAPI
+    MessageBox(NULL, gdo_hndl.libpath, _GDO_T("Error"), MB_OK | MB_ICONERROR);
+#  else
+    MessageBoxA(NULL, gdo_hndl.libpath, "Error", MB_OK | MB_ICONERROR);
+#  endif
+# elif defined(GDO_WINAPI)
+    _ftprintf_s(stderr, _GDO_T("%s: %s: %s\n"), pfx, sym, msg);
 # else
-    _ftprintf_s(stderr, _T("%s: %s: %s\n"), pfx, sym, msg);
+    fprintf(stderr, "%s: %s: %s\n", pfx, sym, msg);
 # endif //GDO_USE_MESSAGE_BOX
 
 #else //!_WIN32
@@ -945,9 +951,9 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 
     if (_gdo_tcsstr(msg, GDO_DEFAULT_LIB)) {
         /* library name is already part of error message */
-        _gdo_print_error(_T("error"), sym, msg);
+        _gdo_print_error(_GDO_T("error"), sym, msg);
     } else {
-        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB, sym, msg);
+        _gdo_print_error(_GDO_T("error: ") GDO_DEFAULT_LIB, sym, msg);
     }
 
     gdo_force_free_lib();
@@ -958,13 +964,13 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     /* don't load anything, print an error message and abort */
 
     if (!gdo_lib_is_loaded()) {
-        msg = _T("library not loaded");
+        msg = _GDO_T("library not loaded");
     } else {
-        msg = _T("symbol not loaded");
+        msg = _GDO_T("symbol not loaded");
     }
 
     GDO_UNUSED_REF(load);
-    _gdo_print_error(_T("fatal error"), sym, msg);
+    _gdo_print_error(_GDO_T("fatal error"), sym, msg);
 
     abort();
 
diff --git a/src/templates/c.h b/src/templates/c.h
index 2b2626f..8e7c3c7 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -20,8 +20,10 @@
 
 #ifdef _GDO_TARGET_WIDECHAR
 typedef wchar_t gdo_char_t;
+# define _GDO_T(x) L##x
 #else
 typedef char    gdo_char_t;
+# define _GDO_T(x) x
 #endif
 
 
@@ -229,7 +231,7 @@ GDO_WARNING("GDO_WRAP_VISIBILITY defined but wrapper function %%func_symbol%%()
 GDO_DECL void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t *sym);
 
 #define _GDO_WRAP_CHECK_LOADED(SYMBOL) \
-    _gdo_wrap_check_loaded( (void *)GDO_RAWPTR_##SYMBOL, GDO_LOAD_##SYMBOL, _T( #SYMBOL ) )
+    _gdo_wrap_check_loaded( (void *)GDO_RAWPTR_##SYMBOL, GDO_LOAD_##SYMBOL, _GDO_T( #SYMBOL ) )
 
 
 /**
diff --git a/src/templates/filename_macros.h b/src/templates/filename_macros.h
index 0b9b436..63e9c91 100644
--- a/src/templates/filename_macros.h
+++ b/src/templates/filename_macros.h
@@ -81,7 +81,7 @@ GDO_LIBEXTW
 /* wide/narrow character default macros */
 #undef GDO_LIBEXT
 #undef GDO_LIBNAME
-#if defined(_WIN32) && defined(_UNICODE)
+#if defined(_WIN32) && defined(_UNICODE) && !defined(GDO_USE_DLOPEN)
 # define GDO_LIBEXT              GDO_LIBEXTW
 # define GDO_LIBNAME(NAME, API)  GDO_LIBNAMEW(NAME, API)
 #else
-- 
2.43.0


From 7d9246168afccb901bb57a4235d4a1b1b1df9585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:20 +0000
Subject: [PATCH 54/54] fix: created parameter names could hide a type of the
 same name

---
 src/clang_ast.cpp       | 26 +++++++++++++++++++++++---
 src/parameter_names.cpp | 18 +++++++++++++++++-
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index d415405..20ab9b3 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -224,8 +224,23 @@ bool unwrap_parameters(std::string &params, std::string &pointers)
 }
 
 
+/* whether a word is used in the parameter list, as a type name for example */
+bool is_used(const std::string &params, const std::string &word)
+{
+    for (size_t pos = 0; (pos = params.find(word, pos)) != std::string::npos; pos++) {
+        if ((pos == 0 || !parse::is_ident(params[pos - 1])) &&
+            !parse::is_ident(utils::str_at(params, pos + word.size())))
+        {
+            return true;
+        }
+    }
+
+    return false;
+}
+
+
 /* get function parameter declaration */
-bool get_parameters(std::string &args, std::string &param_names, int &param_count)
+bool get_parameters(const std::string &params, std::string &args, std::string &param_names, int &param_count)
 {
     size_t pos;
     std::string type;
@@ -235,7 +250,12 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
         return false;
     }
 
-    const std::string name = "a" + std::to_string(param_count);
+    std::string name = "a" + std::to_string(param_count);
+
+    /* don't hide a type of the same name */
+    while (is_used(params, name)) {
+        name = "a" + std::to_string(++param_count);
+    }
 
     param_names += name + ", ";
 
@@ -344,7 +364,7 @@ int gendlopen::get_declarations(filter::mode mode)
 
         /* read next lines for parameters */
         while ((rv = lex::lex()) == LEX_AST_PARMVAR) {
-            if (!get_parameters(proto.args, proto.param_names, param_count)) {
+            if (!get_parameters(params, proto.args, proto.param_names, param_count)) {
                 break;
             }
         }
diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index ce18219..36f7654 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <algorithm>
 #include <string>
 #include <vector>
 #include "parse.hpp"
@@ -67,9 +68,24 @@ namespace /* anonymous */
     }
 
 
+    /* whether a word is used in the parameter list, as a type name for example */
+    bool is_used(const proto_t &proto, const std::string &word)
+    {
+        return std::any_of(proto.args_vec.begin(), proto.args_vec.end(), [&word] (const vstring_t &v) {
+            return std::find(v.begin(), v.end(), word) != v.end();
+        });
+    }
+
+
     void append_name(proto_t &proto, int &param_count, const char *separator)
     {
-        const std::string name = "a" + std::to_string(param_count);
+        std::string name = "a" + std::to_string(param_count);
+
+        /* don't hide a type of the same name */
+        while (is_used(proto, name)) {
+            name = "a" + std::to_string(++param_count);
+        }
+
         proto.args += name + separator;
         proto.param_names += name + ", ";
 
-- 
2.43.0

