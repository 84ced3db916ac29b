From b309d1c370be617716aee4973cdb6897a65e8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 001/149] fix: a truncated fixed-size wide format_append
 reports failure

---
 clink/core/include/core/str.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/core/include/core/str.h b/clink/core/include/core/str.h
index d177c7f..ffc9d26 100644
--- a/clink/core/include/core/str.h
+++ b/clink/core/include/core/str.h
@@ -489,13 +489,14 @@ inline bool str_impl<wchar_t>::vformat_append(const wchar_t* format, va_list arg
             assert(!m_data[orig_len + len]);
         }
     }
+    const bool truncated = (len < 0); // _vsnwprintf returns -1 when the output was cut.
     len += orig_len;
 
     m_data[m_size - 1] = '\0';
     m_length = 0;
     assert(str_len(m_data) < m_size);
 
-    return (!len || (uint32)len < m_size);
+    return !truncated && (!len || (uint32)len < m_size);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 5f19686b0163363050e5ab6315ac1417c0939ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 002/149] fix: path::to_parent keeps the root of a rooted path
 without a drive

---
 clink/core/src/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 8161318..385f578 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -630,7 +630,7 @@ bool to_parent(str_base& out, str_base* child)
 
     // Find end of drive or UNC root plus separator(s).
     uint32 start = uint32(past_drive(out.c_str()) - out.c_str());
-    if (start && out[start - 1] == ':')
+    if (!start || out[start - 1] == ':')
     {
         while (is_separator(out[start]))
             ++start;
-- 
2.43.0


From 9bd7aec21d695f3b0bc172fe417524cbfcfbc877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 003/149] fix: path::normalise converts and keeps the
 separators of UNC and device prefixes

---
 clink/core/src/path.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 385f578..fc674e1 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -146,18 +146,25 @@ void normalise(char* in_out, int32 sep)
 
 #if defined(PLATFORM_WINDOWS)
     if (is_separator(in_out[0]) && is_separator(in_out[1]) && in_out[2] == '.' && is_separator(in_out[3]))
+    {
         dots = false; // Device namespace does not normalize . or .. in paths.
+        in_out[0] = in_out[1] = char(sep);
+        in_out += 2; // Preserve the 2 leading separators.
+    }
     else
     {
         const char* past = past_drive(in_out);
         eat_extra_dots = (past > in_out && is_separator(in_out[0]) && is_separator(in_out[1]) && in_out[2] == '?');
         if (past >= in_out + 1 && is_separator(in_out[0]) && is_separator(in_out[1]))
+        {
+            in_out[0] = in_out[1] = char(sep);
             in_out += 2; // Preserve the 2 leading separators.
+        }
         char* RESTRICT write = in_out;
         while (in_out < past)
         {
             char c = *in_out;
-            *write = c;
+            *write = is_separator(c) ? char(sep) : c;
             if (is_separator(c))
                 skip_sep(in_out);
             else
-- 
2.43.0


From fc02828cdaaa515709a9f0d93b658c3c458da115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 004/149] fix: path::normalise resolves .. after names that
 begin with a dot, and never reads before the path

---
 clink/core/src/path.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index fc674e1..08a1eec 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -199,6 +199,7 @@ void normalise(char* in_out, int32 sep)
     {
         skip_sep(read);
 
+        bool is_name = true;
         if (read[0] == '.' && dots)
         {
             bool two_dot = (read[1] == '.');
@@ -214,7 +215,7 @@ void normalise(char* in_out, int32 sep)
                     while (write > start)
                     {
                         --write;
-                        if (is_separator(write[-1]))
+                        if (write > start && is_separator(write[-1]))
                             break;
                     }
 
@@ -225,9 +226,12 @@ void normalise(char* in_out, int32 sep)
                 {
                     continue;
                 }
+
+                is_name = false; // Another .. can't eat this one.
             }
         }
-        else
+
+        if (is_name)
             ++piece_count;
 
         if (is_unc && write == start)
-- 
2.43.0


From 908d6249a254beb6748bbf9ce9b9682d2dbb8bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 005/149] fix: match_wild handles patterns with more than ten
 wildcards

---
 clink/core/include/core/match_wild.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/core/include/core/match_wild.h b/clink/core/include/core/match_wild.h
index 15c24d1..9836282 100644
--- a/clink/core/include/core/match_wild.h
+++ b/clink/core/include/core/match_wild.h
@@ -135,8 +135,10 @@ back_track:
             }
             else
             {
+                // Only the most recent wildcard ever needs to be retried; the
+                // earlier ones already matched as little as possible.
                 if (depth == _countof(pattern_stack))
-                    return false; // Stack overflow.
+                    depth = 0;
                 pattern_stack[depth] = push_pattern;
                 file_stack[depth] = file.get_pointer();
                 path_component_stack[depth] = start_of_path_component;
-- 
2.43.0


From 25efe75adfc197ddce5e65c0ddce6079719d0868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 006/149] fix: match_wild treats repeated separators after a
 wildcard as one

---
 clink/core/include/core/match_wild.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clink/core/include/core/match_wild.h b/clink/core/include/core/match_wild.h
index 9836282..3830f22 100644
--- a/clink/core/include/core/match_wild.h
+++ b/clink/core/include/core/match_wild.h
@@ -144,6 +144,14 @@ back_track:
                 path_component_stack[depth] = start_of_path_component;
                 depth++;
             }
+            // Advance past path separators (consider "\\\\" and "\" equal).
+            if (path::is_separator(c))
+            {
+                while (path::is_separator(pattern.peek()))
+                    pattern.next();
+                while (path::is_separator(file.peek()))
+                    file.next();
+            }
             symbol_matched = true;
             break; }
         default: {
-- 
2.43.0


From 4416c16fa0f6cab0ae2f5babc130f3282234bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 007/149] fix: wildmatch never reads before the pattern or past
 the end of the string

---
 wildmatch/wildmatch/wildmatch.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index 0e73411..019824e 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -78,6 +78,7 @@ static char const *find_slash(const char *s, int flags)
 int wildmatch(const char *pattern, const char *string, int flags)
 {
     const char *stringstart;
+    const char *patternstart = pattern;
     const char *newp;
     const char *slash;
     char c, test;
@@ -119,7 +120,8 @@ int wildmatch(const char *pattern, const char *string, int flags)
             c = *pattern;
             wild = check_flag(flags, WM_WILDSTAR) && c == '*';
             if (wild) {
-                prev = pattern[-2];
+                /* The start of the pattern is like following a slash. */
+                prev = (pattern - 1 == patternstart) ? '/' : pattern[-2];
                 /* Collapse multiple stars and slash-** patterns,
                  * e.g. "** / *** / **** / **" (without spaces)
                  * is treated as a single ** wildstar.
@@ -245,7 +247,7 @@ int wildmatch(const char *pattern, const char *string, int flags)
                 if ((c = *pattern++) == EOS) {
                     c = '\\';
                     --pattern;
-                    if (*(string+1) == EOS) {
+                    if (*string == EOS || *(string+1) == EOS) {
                         return WM_NOMATCH;
                     }
                 }
@@ -338,7 +340,7 @@ rangematch(const char *pattern, char test, int flags, const char **newp)
 
             #define check_pattern(name, predicate, value) {{ \
                 if (match_pattern(name ":]")) { \
-                    if (predicate(value)) { \
+                    if (predicate((unsigned char)(value))) { \
                         ok = 1; \
                     } \
                     pattern += sizeof(name ":]"); \
@@ -360,7 +362,7 @@ rangematch(const char *pattern, char test, int flags, const char **newp)
             check_pattern("punct", ispunct, test);
             check_pattern("space", isspace, test);
             check_pattern("xdigit", isxdigit, test);
-            c2 = check_flag(flags, WM_CASEFOLD) ? toupper(test) : test;
+            c2 = check_flag(flags, WM_CASEFOLD) ? toupper((unsigned char)test) : test;
             check_pattern("upper", isupper, c2);
             /* fallthrough means match like a normal character */
         }
-- 
2.43.0


From 1f5ed04559d3633dc114b6273db42e0c5d2fd731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 008/149] fix: wildmatch folds case for single characters in
 brackets

---
 wildmatch/wildmatch/wildmatch.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index 019824e..cdac0b2 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -366,6 +366,8 @@ rangematch(const char *pattern, char test, int flags, const char **newp)
             check_pattern("upper", isupper, c2);
             /* fallthrough means match like a normal character */
         }
+        if (check_flag(flags, WM_CASEFOLD))
+            c = tolower((unsigned char)c);
         if (c == test) {
             ok = 1;
         }
-- 
2.43.0


From 95ec33b79f2f379d1d8a52bc1c9e4c1fd557377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 009/149] fix: wildmatch ** only matches directories at or
 after its own position

---
 wildmatch/wildmatch/wildmatch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index cdac0b2..4de5de3 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -174,7 +174,7 @@ int wildmatch(const char *pattern, const char *string, int flags)
                 if (wild) {
 /* begin_clink_change */
                     //slash = strchr(stringstart, '/');
-                    slash = find_slash(stringstart, flags);
+                    slash = find_slash(string, flags);
 /* end_clink_change */
                     if (!slash) {
                         return WM_NOMATCH;
-- 
2.43.0


From c28e8a7d3a3da1728af88854b392410dd2b2e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 010/149] fix: wildmatch keeps the leading period rule after a
 star

---
 wildmatch/wildmatch/wildmatch.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index 4de5de3..b390026 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -75,9 +75,10 @@ static char const *find_slash(const char *s, int flags)
 }
 /* end_clink_change */
 
-int wildmatch(const char *pattern, const char *string, int flags)
+/* Match string, which is part of the text that begins at stringstart. */
+static int wildmatch_from(const char *pattern, const char *string,
+                          const char *stringstart, int flags)
 {
-    const char *stringstart;
     const char *patternstart = pattern;
     const char *newp;
     const char *slash;
@@ -90,7 +91,7 @@ int wildmatch(const char *pattern, const char *string, int flags)
         flags |= WM_PATHNAME;
     }
 
-    for (stringstart = string;;) {
+    for (;;) {
         switch (c = *pattern++) {
         case EOS:
 /* begin_clink_change */
@@ -138,7 +139,7 @@ int wildmatch(const char *pattern, const char *string, int flags)
                     }
                 }
                 if (c == '/' &&
-                        wildmatch(pattern+1, string, flags) == WM_MATCH) {
+                        wildmatch_from(pattern+1, string, stringstart, flags) == WM_MATCH) {
                     return WM_MATCH;
                 }
             } else {
@@ -180,7 +181,7 @@ int wildmatch(const char *pattern, const char *string, int flags)
                         return WM_NOMATCH;
                     }
                     while (slash) {
-                        if (wildmatch(pattern+1, slash+1, flags) == 0) {
+                        if (wildmatch_from(pattern+1, slash+1, stringstart, flags) == 0) {
                             return WM_MATCH;
                         }
 /* begin_clink_change */
@@ -203,7 +204,7 @@ int wildmatch(const char *pattern, const char *string, int flags)
             }
             /* General case, use recursion. */
             while ((test = *string) != EOS) {
-                if (!wildmatch(pattern, string, flags & ~WM_PERIOD))
+                if (!wildmatch_from(pattern, string, stringstart, flags))
                     return WM_MATCH;
 /* begin_clink_change */
                 //if (test == '/' && check_flag(flags, WM_PATHNAME))
@@ -269,6 +270,11 @@ int wildmatch(const char *pattern, const char *string, int flags)
     }
 }
 
+int wildmatch(const char *pattern, const char *string, int flags)
+{
+    return wildmatch_from(pattern, string, string, flags);
+}
+
 static int
 rangematch(const char *pattern, char test, int flags, const char **newp)
 {
-- 
2.43.0


From 4961f82afc622bf5606c4e8d34483e3240f046b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 011/149] fix: settings files of 64 KB and larger no longer
 overrun the read buffer

---
 clink/core/src/settings.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index de6b095..a2cc31a 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -101,13 +101,17 @@ static bool load_internal(FILE* in, std::function<void(const char* name, const c
         return false;
     }
 
-    str<4096> buffer;
-    buffer.reserve(size);
+    if (size < 0)
+    {
+        fclose(in);
+        return false;
+    }
 
-    char* data = buffer.data();
-    fread(data, size, 1, in);
+    // Note:  str<> is limited to less than 64KB.
+    std::string buffer;
+    buffer.resize(size);
+    buffer.resize(fread(&buffer[0], 1, size, in));
     fclose(in);
-    data[size] = '\0';
 
     // Check for `clink set` output format:
     // No blank lines, no # lines, no = signs.
@@ -215,13 +219,17 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
         return false;
     }
 
-    str<4096> buffer;
-    buffer.reserve(size);
+    if (size < 0)
+    {
+        fclose(in);
+        return false;
+    }
 
-    char* data = buffer.data();
-    fread(data, size, 1, in);
+    // Note:  str<> is limited to less than 64KB.
+    std::string buffer;
+    buffer.resize(size);
+    buffer.resize(fread(&buffer[0], 1, size, in));
     fclose(in);
-    data[size] = '\0';
 
     settings::section section = settings::section::ignore;
     bool valid = false;
-- 
2.43.0


From 0a9400efd4e395ad2ef50471f091886665e25f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 012/149] fix: loading a default settings file closes it only
 once

---
 clink/core/src/settings.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index a2cc31a..e89f002 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -327,8 +327,6 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
         custom_default.value = value;
         map.emplace(name, std::move(custom_default));
     });
-
-    fclose(in);
 }
 
 
-- 
2.43.0


From 02a347db084f80c6c3320e7b5d2e8423831c1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 013/149] fix: later lines win for settings that are not
 declared and in default settings files

---
 clink/core/src/settings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index e89f002..f1c4db9 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -325,7 +325,7 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
     {
         loaded_setting custom_default;
         custom_default.value = value;
-        map.emplace(name, std::move(custom_default));
+        map[name] = std::move(custom_default);
     });
 }
 
@@ -380,7 +380,7 @@ static bool set_setting(const char* name, const char* value, const char* comment
                 loaded.comment = l->second.comment.c_str();
         }
         loaded.value = value;
-        get_loaded_map().emplace(name, std::move(loaded));
+        get_loaded_map()[name] = std::move(loaded);
         return true;
     }
 
-- 
2.43.0


From b0fb8f3274d81ba64608dedcba5b23fe72d2562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 014/149] fix: clearing a setting from Lua updates the settings
 file instead of crashing

---
 clink/core/src/settings.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index f1c4db9..4e38fb5 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -779,9 +779,16 @@ bool sandboxed_set_setting(const char* name, const char* value)
     rollback<loaded_settings_map*> rb_loaded(g_loaded_settings, &tmp_loaded_map);
 
     // Load settings.
-    return (load(file, default_file) &&
-            set_setting(name, value) &&
-            save(file));
+    if (!load(file, default_file))
+        return false;
+
+    // Set or clear the setting.
+    if (!value)
+        clear_setting(name);
+    else if (!set_setting(name, value))
+        return false;
+
+    return save(file);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From b6051739973084885186e161507d59fd9cbce9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 015/149] fix: color settings are restored after a sandboxed
 settings change

---
 clink/core/src/settings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 4e38fb5..1836248 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -747,7 +747,8 @@ public:
         for (auto& i : get_map())
         {
             setting* iter = i.second;
-            iter->get(value);
+            // For colors, only the descriptive text can be parsed again.
+            iter->get_descriptive(value);
             m_restore.emplace(iter->get_name(), std::move(value));
         }
     }
-- 
2.43.0


From fa3498498617521cdef56c0246acd842b512eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 016/149] fix: saving settings forgets which undeclared
 settings an earlier save wrote

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 1836248..e268175 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -618,7 +618,7 @@ static bool save_internal(const char* file, bool migrating)
         return false;
 
     // Clear the saved flag so we can track which ones have been saved so far.
-    for (auto iter : get_loaded_map())
+    for (auto& iter : get_loaded_map())
         iter.second.saved = false;
 
     // Iterate over each setting and write it out to the file.
-- 
2.43.0


From b107bfd3e4f0ca6304f84c3dcd69ceb030ec923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 017/149] fix: "bright" without a foreground color no longer
 turns it white

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index e268175..b65dc57 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -928,7 +928,7 @@ bool parse_color(const char* value, str_base& out)
         if (strcmpi(token.c_str(), "on") == 0)
         {
             if (pcolor == &bg) return false; // can't use "on" more than once
-            if (!*phex && bright > 0)
+            if (fg >= 0 && !*phex && bright > 0)
                 fg += 8;
             pcolor = &bg;
             phex = &bg_hex;
-- 
2.43.0


From 7f038e60776d6e3c3feba8db6e50453798d4da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 018/149] fix: an enum setting declared after loading applies
 its default from the default settings file

---
 clink/core/src/settings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index b65dc57..855dbf7 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -1475,6 +1475,8 @@ setting_enum::setting_enum(
 , m_options(options)
 {
     m_type = type_enum;
+    // The base constructor can't parse a custom default as an option name.
+    set();
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 864d2dc9204711c67d9fe97f2b8bdc00bde590c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 019/149] fix: expanding environment variables keeps the
 cursor's place after more than one expansion

---
 clink/core/src/os.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clink/core/src/os.cpp b/clink/core/src/os.cpp
index aac8c6d..feb0495 100644
--- a/clink/core/src/os.cpp
+++ b/clink/core/src/os.cpp
@@ -844,7 +844,9 @@ bool expand_env(const char* in, uint32 in_len, str_base& out, int32* point)
         if (iter.more())
         {
             start = iter.get_pointer();
-            const int32 offset = int32(start - in);
+            // Earlier expansions have already moved point, so compare with the
+            // offset in the output.
+            const int32 offset = out.length();
             assert(iter.peek() == '%');
             iter.next();
 
@@ -871,7 +873,7 @@ bool expand_env(const char* in, uint32 in_len, str_base& out, int32* point)
 
                 if (point && *point > offset)
                 {
-                    const int32 replaced_end = int32(iter.get_pointer() - in);
+                    const int32 replaced_end = offset + int32(iter.get_pointer() - start);
                     if (*point <= replaced_end)
                         *point = offset + value.length();
                     else
-- 
2.43.0


From ecd02dd26402d4264194b265e1031ae5c015397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 020/149] fix: runs of text of 64 KB and longer are no longer
 cut short or lost

---
 clink/terminal/include/terminal/ecma48_iter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/terminal/include/terminal/ecma48_iter.h b/clink/terminal/include/terminal/ecma48_iter.h
index 9f18de3..aa0bfee 100644
--- a/clink/terminal/include/terminal/ecma48_iter.h
+++ b/clink/terminal/include/terminal/ecma48_iter.h
@@ -103,7 +103,7 @@ private:
     void                    operator = (ecma48_code&) = delete;
     bool                    decode_csi(csi_base& base, int32* params, uint32 max_params) const;
     const char*             m_str;
-    unsigned short          m_length;
+    uint32                  m_length;
     type                    m_type;
     uint8                   m_code;
 };
-- 
2.43.0


From 1ccfd9797be6a6adc2f9c451fa9e70efa789ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 021/149] fix: text after an unrecognized escape sequence is
 reported as text, and control characters stay control characters

---
 clink/terminal/src/ecma48_iter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index 7773444..5cbe1a7 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -476,6 +476,15 @@ bool ecma48_iter::next_csi_p(int32 c)
 //------------------------------------------------------------------------------
 bool ecma48_iter::next_esc(int32 c)
 {
+    if (in_range(c, 0x00, 0x1f) || in_range(c, 0x80, 0x9f))
+    {
+        // Not an escape sequence; process the control character on its own.
+        m_code.m_str = m_iter.get_pointer();
+        m_code.m_length = 0;
+        m_state.reset();
+        return false;
+    }
+
     m_iter.next();
 
     if (in_range(c, 0x40, 0x5f))
@@ -491,6 +500,7 @@ bool ecma48_iter::next_esc(int32 c)
         return true;
     }
 
+    m_code.m_type = ecma48_code::type_chars;
     m_state.state = ecma48_state_char;
     return false;
 }
-- 
2.43.0


From a32c2b1c890c4b43344742f7a12862ecfad92f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 022/149] fix: nested OSC codes are parsed the same no matter
 how the text is split into writes

---
 clink/terminal/include/terminal/ecma48_iter.h |  2 +-
 clink/terminal/src/ecma48_iter.cpp            | 34 ++++++++++---------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/clink/terminal/include/terminal/ecma48_iter.h b/clink/terminal/include/terminal/ecma48_iter.h
index aa0bfee..184f84f 100644
--- a/clink/terminal/include/terminal/ecma48_iter.h
+++ b/clink/terminal/include/terminal/ecma48_iter.h
@@ -139,6 +139,7 @@ private:
     ecma48_state_enum   state;
     str<64>             buffer;
     bool                clear_buffer;
+    int32               nested_cmd_str;
 };
 
 
@@ -164,5 +165,4 @@ private:
     str_iter            m_iter;
     ecma48_code&        m_code;
     ecma48_state&       m_state;
-    int32               m_nested_cmd_str;
 };
diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index 5cbe1a7..79deb19 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -90,6 +90,7 @@ void ecma48_state::reset()
 {
     state = ecma48_state_unknown;
     clear_buffer = true;
+    nested_cmd_str = 0;
 }
 
 
@@ -276,7 +277,6 @@ ecma48_iter::ecma48_iter(const char* s, ecma48_state& state, int32 len)
 : m_iter(s, len)
 , m_code(state.code)
 , m_state(state)
-, m_nested_cmd_str(0)
 {
 }
 
@@ -301,7 +301,7 @@ const ecma48_code& ecma48_iter::next()
             break;
         }
 
-        assert(m_nested_cmd_str == 0 || m_state.state == ecma48_state_cmd_str);
+        assert(m_state.nested_cmd_str == 0 || m_state.state == ecma48_state_cmd_str || m_state.state == ecma48_state_esc_st);
 
         switch (m_state.state)
         {
@@ -341,9 +341,6 @@ const ecma48_code& ecma48_iter::next()
 
     m_state.reset();
 
-    assert(m_nested_cmd_str == 0);
-    m_nested_cmd_str = 0;
-
     return m_code;
 }
 
@@ -407,21 +404,15 @@ bool ecma48_iter::next_cmd_str(int32 c)
     if (c == 0x1b)
     {
         m_iter.next();
-        int32 d = m_iter.peek();
-        if (d == 0x5d)
-            m_nested_cmd_str++;
-        else if (d == 0x5c && m_nested_cmd_str > 0)
-            m_nested_cmd_str--;
-        else
-            m_state.state = ecma48_state_esc_st;
+        m_state.state = ecma48_state_esc_st;
         return false;
     }
     else if (c == 0x9c || c == 0x07) // Xterm supports OSC terminated by BEL.
     {
         m_iter.next();
-        if (c == 0x07 && m_nested_cmd_str > 0)
+        if (m_state.nested_cmd_str > 0)
         {
-            m_nested_cmd_str--;
+            m_state.nested_cmd_str--;
             return false;
         }
         return true;
@@ -511,14 +502,25 @@ bool ecma48_iter::next_esc_st(int32 c)
     if (c == 0x5c)
     {
         m_iter.next();
-        assert(m_nested_cmd_str == 0);
+        if (m_state.nested_cmd_str > 0)
+        {
+            m_state.nested_cmd_str--;
+            m_state.state = ecma48_state_cmd_str;
+            return false;
+        }
         return true;
     }
+    else if (c == 0x5d && m_code.get_code() != ecma48_code::c1_sos)
+    {
+        m_iter.next();
+        m_state.nested_cmd_str++;
+        m_state.state = ecma48_state_cmd_str;
+        return false;
+    }
 
     m_code.m_str = m_iter.get_pointer();
     m_code.m_length = 0;
     m_state.reset();
-    m_nested_cmd_str = 0;
     return false;
 }
 
-- 
2.43.0


From f34e416921d276d67c4e47dc83925a54814870a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 023/149] fix: 8-bit C1 codes are recognized after other text,
 not only at the start of it

---
 clink/terminal/src/ecma48_iter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index 79deb19..49445c1 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -374,7 +374,7 @@ bool ecma48_iter::next_c1()
 //------------------------------------------------------------------------------
 bool ecma48_iter::next_char(int32 c)
 {
-    if (in_range(c, 0x00, 0x1f))
+    if (in_range(c, 0x00, 0x1f) || in_range(c, 0x80, 0x9f))
     {
         m_code.m_type = ecma48_code::type_chars;
         return true;
-- 
2.43.0


From 4d3c6191a2316516bb5b3e570eb85494282e6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 024/149] fix: very long CSI parameters no longer overflow

---
 clink/terminal/src/ecma48_iter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index 49445c1..be33a7b 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -131,7 +131,7 @@ bool ecma48_code::decode_csi(csi_base& base, int32* params, uint32 max_params) c
 
                 param = 0;
             }
-            else if (c != 0x3a) // Blissfully gloss over ':' part of spec.
+            else if (c != 0x3a && param < 100000000) // Blissfully gloss over ':' part of spec.
                 param = (param * 10) + (c - 0x30);
         }
         else if (in_range(c, 0x20, 0x2f))
-- 
2.43.0


From 037c13b1924342927432970ed19a042df2b99a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 025/149] fix: OSC codes ended by an 8-bit ST do not include it
 in the title or variable name

---
 clink/terminal/src/ecma48_iter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index be33a7b..a0133f9 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -68,6 +68,8 @@ static void strip_code_terminator(const char*& ptr, int32& len)
         len--;
     else if (len > 1 && ptr[len - 1] == 0x5c && ptr[len - 2] == 0x1b)
         len -= 2;
+    else if (len > 1 && uint8(ptr[len - 1]) == 0x9c && uint8(ptr[len - 2]) == 0xc2) // U+009C in UTF8.
+        len -= 2;
 }
 
 //------------------------------------------------------------------------------
@@ -213,7 +215,7 @@ bool ecma48_code::decode_osc(osc& out) const
                 {
                     const char* end = iter.get_pointer();
                     int32 c = iter.next();
-                    if (!c || c == 0x07 || (c == 0x1b && iter.peek() == 0x5c))
+                    if (!c || c == 0x07 || c == 0x9c || (c == 0x1b && iter.peek() == 0x5c))
                     {
                         int32 len = int32(end - ptr);
                         strip_code_quotes(ptr, len);
-- 
2.43.0


From 23bae675b0f5bb4d00bfa5261b703c62cbf24eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 026/149] fix: resetting colors keeps bold and underline in
 force, and raw codes do not leak into later text

---
 clink/terminal/src/printer.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/clink/terminal/src/printer.cpp b/clink/terminal/src/printer.cpp
index 7c983ce..d146716 100644
--- a/clink/terminal/src/printer.cpp
+++ b/clink/terminal/src/printer.cpp
@@ -77,8 +77,8 @@ void printer::print(const char* attr, const char* data, int32 bytes)
     print(tmp.c_str(), tmp.length());
     print(data, bytes);
     set_attributes(prev_attr);
-    flush_attributes();
     m_nodiff = true;
+    flush_attributes();
 }
 
 //------------------------------------------------------------------------------
@@ -140,7 +140,11 @@ attributes printer::set_attributes(const attributes attr)
 //------------------------------------------------------------------------------
 void printer::flush_attributes()
 {
-    attributes diff = m_nodiff ? m_next_attr : attributes::diff(m_set_attr, m_next_attr);
+    // The reset code clears all attributes, so all non-default attributes must
+    // be given again after it.  When the terminal's attributes aren't known,
+    // then start over with the reset code.
+    const bool reset = m_nodiff || (m_next_attr.get_fg().is_default & m_next_attr.get_bg().is_default);
+    attributes diff = reset ? m_next_attr : attributes::diff(m_set_attr, m_next_attr);
 
     str<64, false> params;
     auto add_param = [&] (const char* x) {
@@ -151,11 +155,10 @@ void printer::flush_attributes()
 
     auto fg = diff.get_fg();
     auto bg = diff.get_bg();
-    if (fg.is_default & bg.is_default)
-    {
+    if (reset)
         add_param("0");
-    }
-    else
+
+    if (!(fg.is_default & bg.is_default))
     {
         if (fg)
         {
@@ -166,7 +169,7 @@ void printer::flush_attributes()
                 x[1] += fg->value & 0x07;
                 add_param(x);
             }
-            else
+            else if (!reset)
                 add_param("39");
         }
 
@@ -179,15 +182,17 @@ void printer::flush_attributes()
                 x[2] += bg->value & 0x07;
                 add_param((bg->value > 7) ? x : x + 1);
             }
-            else
+            else if (!reset)
                 add_param("49");
         }
     }
 
-    if (auto bold = diff.get_bold())
+    auto bold = diff.get_bold();
+    if (bold && (bold.value || !reset))
         add_param(bold.value ? "1" : "22");
 
-    if (auto underline = diff.get_underline())
+    auto underline = diff.get_underline();
+    if (underline && (underline.value || !reset))
         add_param(underline.value ? "4" : "24");
 
     if (!params.empty())
@@ -198,6 +203,7 @@ void printer::flush_attributes()
     }
 
     m_set_attr = m_next_attr;
+    m_nodiff = false;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 7d57e2ee99bc1907735217c2c3c6bee142ccc483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 027/149] fix: the reverse video attribute is sent to the
 terminal

---
 clink/terminal/src/printer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/terminal/src/printer.cpp b/clink/terminal/src/printer.cpp
index d146716..a3cf868 100644
--- a/clink/terminal/src/printer.cpp
+++ b/clink/terminal/src/printer.cpp
@@ -195,6 +195,10 @@ void printer::flush_attributes()
     if (underline && (underline.value || !reset))
         add_param(underline.value ? "4" : "24");
 
+    auto reverse = diff.get_reverse();
+    if (reverse && (reverse.value || !reset))
+        add_param(reverse.value ? "7" : "27");
+
     if (!params.empty())
     {
         m_terminal.write("\x1b[");
-- 
2.43.0


From df86740d6c248b8b944266488bc0088184d9b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 028/149] fix: the difference from an unset attribute includes
 the attribute

---
 clink/terminal/src/attributes.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/clink/terminal/src/attributes.cpp b/clink/terminal/src/attributes.cpp
index 2909927..6641ff9 100644
--- a/clink/terminal/src/attributes.cpp
+++ b/clink/terminal/src/attributes.cpp
@@ -78,11 +78,12 @@ attributes attributes::merge(const attributes first, const attributes second)
 attributes attributes::diff(const attributes from, const attributes to)
 {
     flags changed;
-    changed.fg = !(to.m_fg == from.m_fg);
-    changed.bg = !(to.m_bg == from.m_bg);
-    changed.bold = (to.m_bold != from.m_bold);
-    changed.underline = (to.m_underline != from.m_underline);
-    changed.reverse = (to.m_reverse != from.m_reverse);
+    changed.all = ~from.m_flags.all;
+    changed.fg |= !(to.m_fg == from.m_fg);
+    changed.bg |= !(to.m_bg == from.m_bg);
+    changed.bold |= (to.m_bold != from.m_bold);
+    changed.underline |= (to.m_underline != from.m_underline);
+    changed.reverse |= (to.m_reverse != from.m_reverse);
 
     attributes out = to;
     out.m_flags.all &= changed.all;
-- 
2.43.0


From 31b35fb8ccfa6b402da8cf39aff0b27927e05a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:32 +0000
Subject: [PATCH 029/149] fix: shortening text to zero columns does not add an
 ellipsis

---
 clink/lib/src/ellipsify.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/ellipsify.cpp b/clink/lib/src/ellipsify.cpp
index 430cbb1..2864379 100644
--- a/clink/lib/src/ellipsify.cpp
+++ b/clink/lib/src/ellipsify.cpp
@@ -81,9 +81,10 @@ int32 ellipsify(const char* in, int32 limit, str_base& out, bool expand_ctrl)
 #else
                     static_assert(ellipsis_cells == 1, "Ellipsis must be exactly 1 cell.");
                     assert(cell_count(ellipsis) == 1);
-                    out.concat(ellipsis, ellipsis_len);
+                    if (limit - truncate_visible >= ellipsis_cells)
+                        out.concat(ellipsis, ellipsis_len);
 #endif
-                    visible_len += cell_count(ellipsis);
+                    visible_len += cell_count(out.c_str() + truncate_bytes);
                     return visible_len;
                 }
                 visible_len += clen;
-- 
2.43.0


From ba1e1efa3ea6f39f61c793cc00c3bba3c8e28ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:32 +0000
Subject: [PATCH 030/149] fix: shortening text from the left copies escape
 codes from the right place after an incomplete one

---
 clink/lib/src/ellipsify.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/clink/lib/src/ellipsify.cpp b/clink/lib/src/ellipsify.cpp
index 2864379..634b647 100644
--- a/clink/lib/src/ellipsify.cpp
+++ b/clink/lib/src/ellipsify.cpp
@@ -211,7 +211,6 @@ no_truncate:
             std::vector<run> runs;
 
             // Build vector of runs of individual renderable characters.
-            const char* prev_end = in;
             while (const ecma48_code& code = iter.next())
             {
                 if (code.get_type() == ecma48_code::type_chars)
@@ -230,13 +229,12 @@ no_truncate:
                 else
                 {
                     run r;
-                    r.index = int32(prev_end - in);
+                    r.index = int32(iter.get_pointer() - in) - code.get_length();
                     r.length = code.get_length();
                     r.cells = 0;
                     r.chars = false;
                     runs.emplace_back(r);
                 }
-                prev_end = iter.get_pointer();
             }
 
             if (runs.empty())
-- 
2.43.0


From bf45737fab856e75ec2f69e14fc30fa02d4f21b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:32 +0000
Subject: [PATCH 031/149] fix: shortening a path counts control characters the
 way the caller asked for

---
 clink/lib/src/ellipsify.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/ellipsify.cpp b/clink/lib/src/ellipsify.cpp
index 634b647..e586ac3 100644
--- a/clink/lib/src/ellipsify.cpp
+++ b/clink/lib/src/ellipsify.cpp
@@ -368,7 +368,7 @@ break_break_yes:
             if (limit >= drive_cells)
             {
                 str_moveable rest;
-                const int32 rest_cells = ellipsify_ex(in, limit - drive_cells, LEFT, rest, _ellipsis, false, truncated);
+                const int32 rest_cells = ellipsify_ex(in, limit - drive_cells, LEFT, rest, _ellipsis, expand_ctrl, truncated);
                 if (rest_cells >= e_cells && limit >= drive_cells + rest_cells)
                 {
                     out.concat(drive.c_str(), drive.length());
@@ -378,7 +378,7 @@ break_break_yes:
             }
 
             // Couldn't get something to fit?  Fall back to RIGHT truncation.
-            return ellipsify_ex(_in, limit, RIGHT, out, _ellipsis, false, truncated);
+            return ellipsify_ex(_in, limit, RIGHT, out, _ellipsis, expand_ctrl, truncated);
         }
     }
 }
-- 
2.43.0


From 59fac2b0480034b639b98e7fdd0aee54d0ddd5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 032/149] fix: doskey aliases longer than half the buffer are
 recognized and expanded

---
 clink/core/src/os.cpp    | 2 +-
 clink/lib/src/doskey.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/core/src/os.cpp b/clink/core/src/os.cpp
index feb0495..5c77458 100644
--- a/clink/core/src/os.cpp
+++ b/clink/core/src/os.cpp
@@ -990,7 +990,7 @@ bool get_alias(const char* name, str_base& out)
     // Get the alias (aka. doskey macro).
     wstr<32> buffer;
     buffer.reserve(8191);
-    if (GetConsoleAliasW(alias_name.data(), buffer.data(), buffer.size(), const_cast<wchar_t*>(s_shell_name)) == 0)
+    if (GetConsoleAliasW(alias_name.data(), buffer.data(), buffer.size() * sizeof(wchar_t), const_cast<wchar_t*>(s_shell_name)) == 0)
     {
         map_errno();
         return false;
diff --git a/clink/lib/src/doskey.cpp b/clink/lib/src/doskey.cpp
index 94aa04e..f9b1543 100644
--- a/clink/lib/src/doskey.cpp
+++ b/clink/lib/src/doskey.cpp
@@ -90,7 +90,7 @@ fallback:
     // It does. Allocate space and fetch it.
     wstr_moveable wtext;
     wtext.reserve(8192, true/*exact*/);
-    GetConsoleAliasW(walias.data(), wtext.data(), wtext.size(), const_cast<wchar_t*>(shell_name));
+    GetConsoleAliasW(walias.data(), wtext.data(), wtext.size() * sizeof(wchar_t), const_cast<wchar_t*>(shell_name));
     text = wtext.c_str();
 
     // Advance the iterator.
-- 
2.43.0


From e8fac8c65f8f1d1d01bb98e0fb3bc35cfadfe95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 033/149] fix: doskey arguments longer than 32767 bytes no
 longer read out of bounds

---
 clink/lib/src/doskey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/doskey.cpp b/clink/lib/src/doskey.cpp
index f9b1543..539f738 100644
--- a/clink/lib/src/doskey.cpp
+++ b/clink/lib/src/doskey.cpp
@@ -432,7 +432,7 @@ bool doskey::resolve_impl(str_iter& s, str_stream& out, int32* _point)
     while (tokens.next(token) && (desc = args.push_back()))
     {
         desc->ptr = token.get_pointer();
-        desc->length = short(token.length());
+        desc->length = token.length();
 
         // Find the point range for the arg.
         if (point)
-- 
2.43.0


From eb870547194bacb3194383fc1a564d4f9e45ccb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 034/149] fix: expanding a doskey alias inside parentheses
 keeps the closing parenthesis

---
 clink/lib/src/doskey.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lib/src/doskey.cpp b/clink/lib/src/doskey.cpp
index 539f738..924a19b 100644
--- a/clink/lib/src/doskey.cpp
+++ b/clink/lib/src/doskey.cpp
@@ -65,6 +65,7 @@ static bool get_alias(const wchar_t* shell_name, str_iter& in, uint32& skipped,
             uint32 len = uint32(in.get_pointer() - start);
             len = trim_trailing_parens(start, 0, len, parens);
             alias.concat(start, len);
+            in.reset_pointer(start + len);
             break;
         }
 
@@ -403,6 +404,7 @@ bool doskey::resolve_impl(str_iter& s, str_stream& out, int32* _point)
         const char* ptr = find_command_end(start, int32(end - start));
         uint32 len = uint32(ptr - in.get_pointer());
         len = trim_trailing_parens(start, 0, len, parens);
+        ptr = start + len;
         command.truncate(int32(ptr - command.get_pointer()));
         in.truncate(len);
 
-- 
2.43.0


From 0fa20cd6a472ec9219f11353247c392fec77a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 035/149] fix: redirecting to a handle without naming the
 source handle (">&2") does not start a new command

---
 clink/lib/src/cmd_tokenisers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 5a37b70..2422ca8 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -72,10 +72,10 @@ static const tokeniser_state c_transition[][input_type::iMAX] =
     /* sTxt */        { sTxt,   sSpc,   sTxt,   sIn,    sOut,   sBREAK, sBREAK, },
     /* sSpc */        { sTxt,   sSpc,   sDig,   sIn,    sOut,   sBREAK, sBREAK, },
     /* sDig */        { sTxt,   sSpc,   sTxt,   sDIn,   sDOut,  sBREAK, sBREAK, },
-    /* sIn */         { sARG,   sARG,   sARG,   sIn2,   sBAD,   sBAD,   sBAD,   },
-    /* sOut */        { sARG,   sARG,   sARG,   sBAD,   sOut2,  sBAD,   sBAD,   },
+    /* sIn */         { sARG,   sARG,   sARG,   sIn2,   sBAD,   sReAm,  sBAD,   },
+    /* sOut */        { sARG,   sARG,   sARG,   sBAD,   sOut2,  sReAm,  sBAD,   },
     /* sIn2 */        { sARG,   sARG,   sARG,   sBAD,   sBAD,   sBAD,   sBAD,   },
-    /* sOut2 */       { sARG,   sARG,   sARG,   sBAD,   sBAD,   sBAD,   sBAD,   },
+    /* sOut2 */       { sARG,   sARG,   sARG,   sBAD,   sBAD,   sReAm,  sBAD,   },
     /* sDIn */        { sARG,   sARG,   sARG,   sDIn2,  sBAD,   sReAm,  sBAD,   },
     /* sDOut */       { sARG,   sARG,   sARG,   sBAD,   sDOut2, sReAm,  sBAD,   },
     /* sDIn2 */       { sARG,   sARG,   sARG,   sBAD,   sBAD,   sReAm,  sBAD,   },
-- 
2.43.0


From 587921813dccc1b5533d22cd11c9613258c31381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 036/149] fix: a parenthesis inside an unfinished quote is part
 of the quoted word

---
 clink/lib/src/cmd_tokenisers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 2422ca8..b1a477e 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -479,7 +479,8 @@ word_token cmd_command_tokeniser::next(uint32& offset, uint32& length)
     }
 
     length = uint32(m_iter.get_pointer() - m_start);
-    length = trim_trailing_parens(m_start, offset, length, parens);
+    if (!in_quote)
+        length = trim_trailing_parens(m_start, offset, length, parens);
     assert(length >= offset);
     length -= offset;
 
-- 
2.43.0


From 6302419b4fa35ff2a4a0e833e62c136dcb8ce1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 037/149] fix: a plus sign that is already in one word is not
 also put in the next

---
 clink/lib/src/word_collector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/word_collector.cpp b/clink/lib/src/word_collector.cpp
index 9894d1a..360d96c 100644
--- a/clink/lib/src/word_collector.cpp
+++ b/clink/lib/src/word_collector.cpp
@@ -272,7 +272,8 @@ uint32 word_collector::collect_words(const char* line_buffer, uint32 line_length
             // Plus sign is never a word break immediately after a space.
             if (word_offset >= 2 &&
                 line_buffer[word_offset - 1] == '+' &&
-                line_buffer[word_offset - 2] == ' ')
+                line_buffer[word_offset - 2] == ' ' &&
+                (words.empty() || words.back().offset + words.back().length < word_offset))
             {
                 word_offset--;
                 word_length++;
-- 
2.43.0


From 57fa3846f34ea233dcd123ec497f50bceb74860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 038/149] fix: rem is recognized after redirecting one handle
 to another

---
 clink/lib/src/cmd_tokenisers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index b1a477e..89a7a73 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -446,9 +446,9 @@ word_token cmd_command_tokeniser::next(uint32& offset, uint32& length)
 
             if (new_state == sARG || new_state == sVALID || new_state == sBAD)
             {
+                is_arg = (new_state != sVALID);
                 state = sSpc;
                 new_state = c_transition[state][input];
-                is_arg = true;
             }
             else if (new_state != sTxt)
                 is_arg = false;
-- 
2.43.0


From 1eb868e84602b06113b13b8b0e99d36b58ebbeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 039/149] fix: rem is recognized after redirecting a numbered
 handle

---
 clink/lib/src/cmd_tokenisers.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 89a7a73..a16d220 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -453,7 +453,10 @@ word_token cmd_command_tokeniser::next(uint32& offset, uint32& length)
             else if (new_state != sTxt)
                 is_arg = false;
 
-            if (new_state <= sDig && !is_arg && cmd_state.test(c, new_state))
+            // A digit before a redirection symbol is part of the redirection.
+            const bool redir_digit = (new_state == sDig && (m_iter.peek() == '<' || m_iter.peek() == '>'));
+
+            if (new_state <= sDig && !is_arg && !redir_digit && cmd_state.test(c, new_state))
             {
                 // It's a 'rem' command, so consume the rest of the line.
                 while (m_iter.more())
-- 
2.43.0


From 8e66b0ed1e498c9966359577ca0ba684688780ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 040/149] fix: binding a chord that is too long to be resolved
 fails

---
 clink/lib/src/binder.cpp | 4 ++++
 clink/lib/src/binder.h   | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/binder.cpp b/clink/lib/src/binder.cpp
index 2a0232c..fc7d6b1 100644
--- a/clink/lib/src/binder.cpp
+++ b/clink/lib/src/binder.cpp
@@ -202,6 +202,10 @@ bool binder::bind(
     if (!translate_chord(chord, translated, len))
         return false;
 
+    // A chord longer than the depth field can hold could never be resolved.
+    if (len > max_depth)
+        return false;
+
     chord = translated;
 
     // Store the module pointer
diff --git a/clink/lib/src/binder.h b/clink/lib/src/binder.h
index 75dceff..515bb55 100644
--- a/clink/lib/src/binder.h
+++ b/clink/lib/src/binder.h
@@ -34,6 +34,8 @@ public:
 private:
     static const int32  link_bits = 9;
     static const int32  module_bits = 5;
+    static const int32  depth_bits = 4;
+    static const int32  max_depth = (1 << depth_bits) - 1;
 
     struct node
     {
@@ -43,7 +45,7 @@ private:
         unsigned short  has_params  : 1;
 
         unsigned short  child       : link_bits;
-        unsigned short  depth       : 4;
+        unsigned short  depth       : depth_bits;
         unsigned short  bound       : 1;
         unsigned short              : 2;
 
-- 
2.43.0


From 3fd16f8c1fd6b9c3460df4e9925067a7c6d0fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 041/149] fix: binding an empty chord more than once does not
 read before the chord

---
 clink/lib/src/binder.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/clink/lib/src/binder.cpp b/clink/lib/src/binder.cpp
index fc7d6b1..890bc13 100644
--- a/clink/lib/src/binder.cpp
+++ b/clink/lib/src/binder.cpp
@@ -234,11 +234,13 @@ bool binder::bind(
     // Add the chord of keys into the node graph.
     int32 depth = 0;
     int32 head = group;
+    uint8 key = 0;
     for (; len; ++chord, ++depth, --len)
-        if (!(head = insert_child(head, *chord, has_params && *chord == '*')))
+    {
+        key = *chord;
+        if (!(head = insert_child(head, key, has_params && key == '*')))
             return false;
-
-    --chord;
+    }
 
     // If the insert point is already bound we'll duplicate the node at the end
     // of the list. Also check if this is a duplicate of the existing bind.
@@ -248,14 +250,14 @@ bool binder::bind(
         int32 check = head;
         while (check > head)
         {
-            if (bindee->key == *chord && bindee->module == module_index && bindee->id == id)
+            if (bindee->key == key && bindee->module == module_index && bindee->id == id)
                 return true;
 
             check = bindee->next;
             bindee = m_nodes + check;
         }
 
-        head = append(head, *chord);
+        head = append(head, key);
     }
 
     if (!head)
-- 
2.43.0


From d7dc2451f9a3b20dd323e348a2c8c2d93c4174b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 042/149] fix: chords that end in a byte above 127 are
 dispatched

---
 clink/lib/src/bind_resolver.cpp | 2 +-
 clink/lib/src/binder.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/bind_resolver.cpp b/clink/lib/src/bind_resolver.cpp
index 9f6cf59..621821a 100644
--- a/clink/lib/src/bind_resolver.cpp
+++ b/clink/lib/src/bind_resolver.cpp
@@ -213,7 +213,7 @@ bind_resolver::binding bind_resolver::next()
             const int32 key_index = m_tail + node.depth + m_params.length() - 1;
             assertimplies(node.key, 0 <= key_index);
             assertimplies(node.key, key_index < m_key_count);
-            if (!node.key || (key_index >= 0 && node.key == m_keys[key_index]))
+            if (!node.key || (key_index >= 0 && node.key == uint8(m_keys[key_index])))
                 return binding(this, node_index, m_params);
         }
     }
diff --git a/clink/lib/src/binder.cpp b/clink/lib/src/binder.cpp
index 890bc13..11c63ed 100644
--- a/clink/lib/src/binder.cpp
+++ b/clink/lib/src/binder.cpp
@@ -300,7 +300,7 @@ int32 binder::is_bound(uint32 group, const char* seq, int32 len) const
 
                 // Check to see if where we're currently at a node in the tree
                 // that is a valid bind (at the point of call).
-                if (node.bound && (!node.key || node.key == *seq))
+                if (node.bound && (!node.key || node.key == uint8(*seq)))
                 {
                     if (node.key || !ctrl_or_ext)
                         return true;
-- 
2.43.0


From 444d0e1cd941c7670b6f2d4097b1bd81aa856d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 043/149] fix: typing a literal asterisk does not match a
 numeric parameter

---
 clink/lib/src/binder.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/binder.cpp b/clink/lib/src/binder.cpp
index 11c63ed..b778549 100644
--- a/clink/lib/src/binder.cpp
+++ b/clink/lib/src/binder.cpp
@@ -325,9 +325,15 @@ int32 binder::is_bound(uint32 group, const char* seq, int32 len) const
 //------------------------------------------------------------------------------
 int32 binder::insert_child(int32 parent, uint8 key, bool has_params)
 {
-    if (int32 child = find_child(parent, key))
+    if (has_params)
     {
-        assert(get_node(child).has_params == has_params);
+        for (int32 index = get_node(parent).child; index > parent; index = get_node(index).next)
+            if (get_node(index).has_params)
+                return index;
+    }
+    else if (int32 child = find_child(parent, key))
+    {
+        assert(!get_node(child).has_params);
         return child;
     }
 
@@ -346,7 +352,7 @@ int32 binder::find_child(int32 parent, uint8 key) const
     for (; index > parent; index = node->next)
     {
         node = m_nodes + index;
-        if (node->key == key)
+        if (node->key == key && !node->has_params)
             return index;
         if (node->has_params && key >= '0' && key <= '9')
             return index;
-- 
2.43.0


From 3f5dd263c81fbff6f1d2c0e414a5d75d3bb98e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 044/149] fix: parameters in an unfinished sequence are not
 counted in a shorter binding that it falls back to

---
 clink/lib/include/lib/input_params.h |  2 ++
 clink/lib/src/bind_resolver.cpp      | 14 ++++++++++++--
 clink/lib/src/binder.cpp             | 18 ++++++++++++++++++
 clink/lib/src/binder.h               |  1 +
 clink/lib/src/input_params.cpp       | 13 ++++++++++++-
 5 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/clink/lib/include/lib/input_params.h b/clink/lib/include/lib/input_params.h
index b6aee48..6341c8c 100644
--- a/clink/lib/include/lib/input_params.h
+++ b/clink/lib/include/lib/input_params.h
@@ -13,8 +13,10 @@ public:
 protected:
     bool            add(unsigned short value, uint8 len);
     void            clear();
+    void            truncate(uint32 count);
 private:
     unsigned short  m_params[4];
+    uint8           m_lens[4];
     uint8           m_num = 0;
     short           m_len = 0;
 };
diff --git a/clink/lib/src/bind_resolver.cpp b/clink/lib/src/bind_resolver.cpp
index 621821a..12b5dc0 100644
--- a/clink/lib/src/bind_resolver.cpp
+++ b/clink/lib/src/bind_resolver.cpp
@@ -192,6 +192,11 @@ bind_resolver::binding bind_resolver::next()
             return binding();
         }
 
+        m_params.clear();
+        m_param_accumulator = 0;
+        m_param_len = 0;
+        m_pending_param = false;
+
         for (int32 i = m_tail, n = m_key_count; i < n; ++i)
             if (step_impl(m_keys[i]))
                 break;
@@ -210,11 +215,16 @@ bind_resolver::binding bind_resolver::next()
         // a valid bind (at the point of call).
         if (node.bound)
         {
-            const int32 key_index = m_tail + node.depth + m_params.length() - 1;
+            // Only include parameters that lead to this node; the input may
+            // have matched further down than this node.
+            bind_params params(m_params);
+            params.truncate(m_binder.count_params(node_index));
+
+            const int32 key_index = m_tail + node.depth + params.length() - 1;
             assertimplies(node.key, 0 <= key_index);
             assertimplies(node.key, key_index < m_key_count);
             if (!node.key || (key_index >= 0 && node.key == uint8(m_keys[key_index])))
-                return binding(this, node_index, m_params);
+                return binding(this, node_index, params);
         }
     }
 
diff --git a/clink/lib/src/binder.cpp b/clink/lib/src/binder.cpp
index b778549..3647d44 100644
--- a/clink/lib/src/binder.cpp
+++ b/clink/lib/src/binder.cpp
@@ -416,6 +416,24 @@ int32 binder::append(int32 head, uint8 key)
     return index;
 }
 
+//------------------------------------------------------------------------------
+// Counts the parameters in the sequence of keys that leads to a node.
+uint32 binder::count_params(int32 index) const
+{
+    uint32 count = 0;
+    while (index)
+    {
+        if (m_nodes[index].has_params)
+            ++count;
+
+        // The last sibling links to the parent.
+        while (m_nodes[index].next > index)
+            index = m_nodes[index].next;
+        index = m_nodes[index].next;
+    }
+    return count;
+}
+
 //------------------------------------------------------------------------------
 const binder::node& binder::get_node(uint32 index) const
 {
diff --git a/clink/lib/src/binder.h b/clink/lib/src/binder.h
index 515bb55..d8627f2 100644
--- a/clink/lib/src/binder.h
+++ b/clink/lib/src/binder.h
@@ -71,6 +71,7 @@ private:
     int32               append(int32 head, uint8 key);
     const node&         get_node(uint32 index) const;
     group_node*         get_group_node(uint32 index);
+    uint32              count_params(int32 index) const;
     int32               alloc_nodes(uint32 count=1);
     int32               add_module(editor_module& module);
     editor_module*      get_module(uint32 index) const;
diff --git a/clink/lib/src/input_params.cpp b/clink/lib/src/input_params.cpp
index bd9e592..dbd3523 100644
--- a/clink/lib/src/input_params.cpp
+++ b/clink/lib/src/input_params.cpp
@@ -37,7 +37,8 @@ bool input_params::add(unsigned short value, uint8 len)
     if (m_num >= sizeof_array(m_params))
         return false;
 
-    m_params[m_num++] = value;
+    m_params[m_num] = value;
+    m_lens[m_num++] = len;
     m_len += len;
 
     // Offset the '*' key, so that depth + len is always the key sequence
@@ -52,3 +53,13 @@ void input_params::clear()
     m_num = 0;
     m_len = 0;
 }
+
+//------------------------------------------------------------------------------
+void input_params::truncate(uint32 count)
+{
+    while (m_num > count)
+    {
+        m_len -= m_lens[--m_num];
+        m_len++;
+    }
+}
-- 
2.43.0


From f1147169626a82309c25f8aa0da8bd661e7e883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 045/149] fix: keys typed after changing the binding group are
 not walked twice

---
 clink/lib/src/bind_resolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lib/src/bind_resolver.cpp b/clink/lib/src/bind_resolver.cpp
index 12b5dc0..a34a34b 100644
--- a/clink/lib/src/bind_resolver.cpp
+++ b/clink/lib/src/bind_resolver.cpp
@@ -192,6 +192,9 @@ bind_resolver::binding bind_resolver::next()
             return binding();
         }
 
+        // Start over from the top; keys may have been stepped already since the
+        // group was set.
+        m_node_index = m_group;
         m_params.clear();
         m_param_accumulator = 0;
         m_param_len = 0;
-- 
2.43.0


From eb557966c50487540faaa6d4909543feb8af6398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 046/149] fix: a sequence that exactly fills the key buffer is
 not discarded after changing the binding group

---
 clink/lib/src/bind_resolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/bind_resolver.cpp b/clink/lib/src/bind_resolver.cpp
index a34a34b..13775d0 100644
--- a/clink/lib/src/bind_resolver.cpp
+++ b/clink/lib/src/bind_resolver.cpp
@@ -186,7 +186,7 @@ bind_resolver::binding bind_resolver::next()
         m_pending_input = false;
 
         uint32 keys_remaining = m_key_count - m_tail;
-        if (!keys_remaining || keys_remaining >= sizeof_array(m_keys))
+        if (!keys_remaining || keys_remaining > sizeof_array(m_keys))
         {
             reset();
             return binding();
-- 
2.43.0


From 34162d67d889aad8f1e2958112edfe7a2409a085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 047/149] fix: taking the rest of a partly read queued line
 replaces the output

---
 clink/lib/src/line_queue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lib/src/line_queue.cpp b/clink/lib/src/line_queue.cpp
index 482bf67..af93931 100644
--- a/clink/lib/src/line_queue.cpp
+++ b/clink/lib/src/line_queue.cpp
@@ -98,6 +98,8 @@ bool line_queue::dequeue_line(str_base& out, dequeue_flags& flags)
         return false;
     }
 
+    out.clear();
+
     const auto& front = m_queued_lines.front();
     if (front.m_wchar_cursor)
         to_utf8(out, front.m_wline.c_str() + front.m_wchar_cursor, front.m_wline.length() - front.m_wchar_cursor);
-- 
2.43.0


From 919659d8706a1fbf0c48c12d1691d97a334052e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 048/149] fix: the rest of a queued alias's commands end in a
 newline, so later input is not joined to them

---
 clink/lib/src/line_queue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/lib/src/line_queue.cpp b/clink/lib/src/line_queue.cpp
index af93931..bc5ee14 100644
--- a/clink/lib/src/line_queue.cpp
+++ b/clink/lib/src/line_queue.cpp
@@ -126,7 +126,11 @@ bool line_queue::dequeue_line(str_base& out, dequeue_flags& flags)
             if (alias.next(next))
                 out = next.c_str();
             while (alias.next(next))
+            {
+                // Lines at the front must always be terminated with a new line.
+                ensure_crlf(next);
                 queue.push_front(std::move(next));
+            }
         }
     }
 
-- 
2.43.0


From 6325bcc72f8c32d21993cdff8d88702815344514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 049/149] fix: an empty color applied to input does not leave a
 dangling pointer in the face map

---
 clink/lib/include/lib/word_classifications.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/include/lib/word_classifications.h b/clink/lib/include/lib/word_classifications.h
index f9e7c63..ccbc91d 100644
--- a/clink/lib/include/lib/word_classifications.h
+++ b/clink/lib/include/lib/word_classifications.h
@@ -8,6 +8,7 @@
 #include <core/str_map.h>
 
 #include <vector>
+#include <deque>
 
 class line_state;
 
@@ -67,7 +68,7 @@ public:
     const word_class_infos* get_test_infos() const;
 
 private:
-    std::vector<str_moveable> m_face_definitions;
+    std::deque<str_moveable> m_face_definitions;    // Growing it doesn't move its elements.
     bool            m_argmatchers = false;
     char*           m_faces = nullptr;
     char*           m_word_faces = nullptr;
-- 
2.43.0


From e9e1e64703f3a873619640d4446b37efc68c07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 050/149] fix: reload the history list after pruning, so its
 indices match the index map

---
 clink/lib/src/history_db.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 85a3e9c..61c0ee6 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1547,7 +1547,10 @@ void history_db::load_rl_history(bool can_clean)
     // history file.
     if (can_clean && m_use_master_bank)
     {
-        if (compact())
+        // Pruning removes lines from the index map, so Readline's history list
+        // must be reloaded then as well, to stay in sync with the index map.
+        const size_t num_lines = m_index_map.size();
+        if (compact() || m_index_map.size() != num_lines)
             load_internal();
     }
 
-- 
2.43.0


From 0d429be0dff973609c51682bfebfc520841e96f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 051/149] fix: compacting with uniq and a limit could discard
 the whole history

---
 clink/lib/src/history_db.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 61c0ee6..43cac10 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1053,8 +1053,8 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
     size_t start = 0;
     if (0 < limit && limit < lines_to_keep.size())
     {
-        for (start = lines_to_keep.size(); limit && start--;)
-            if (lines_to_keep[start].get())
+        for (start = lines_to_keep.size(); limit && start > 0;)
+            if (lines_to_keep[--start].get())
                 --limit;
     }
 
-- 
2.43.0


From 9083e166b3e68400e9840c7055b701d5ebd0a587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 052/149] fix: the timestamp of a removed history line must not
 stick to the next line

---
 clink/lib/src/history_db.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 43cac10..aa0d83e 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -737,6 +737,11 @@ line_id_impl read_lock::line_iter::next(str_iter& out, str_base* timestamp, hist
         // also test for deferred removals here.
         if (*start == '|' || eating_ctag || (!too_big && m_removals.find(offset) != m_removals.end()))
         {
+            // The timestamp (if any) belongs to the line being skipped.
+            if (timestamp)
+                timestamp->clear();
+            if (timestamp_id)
+                *timestamp_id = 0;
             if (!eating_ctag)
                 ++m_deleted;
             continue;
-- 
2.43.0


From 8943589aaaef8f5e182b7136dccea0a9510ae3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 053/149] fix: the last line in a history file without a line
 ending was lost, and joined with the next line

---
 clink/lib/src/history_db.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index aa0d83e..37b0081 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -692,7 +692,10 @@ line_id_impl read_lock::line_iter::next(str_iter& out, str_base* timestamp, hist
                 break;
             }
 
-        if (end == last && start != m_file_iter.get_buffer())
+        // Get more input when there's no complete line in the buffer, unless the
+        // rest of the buffer is the last line in the file and has no line ending.
+        if (end == last && start != m_file_iter.get_buffer() &&
+            (start == last || m_file_iter.get_remaining()))
         {
             provision();
             continue;
@@ -782,11 +785,29 @@ void write_lock::clear()
     }
 }
 
+//------------------------------------------------------------------------------
+// Seeks to the end of the file.  If the last line in the file has no line ending
+// then adds one, so that the next line isn't joined with it.
+static DWORD seek_to_append(void* handle)
+{
+    DWORD offset = SetFilePointer(handle, 0, nullptr, FILE_END);
+    if (offset == 0 || offset == INVALID_SET_FILE_POINTER)
+        return offset;
+
+    char c;
+    DWORD len = 0;
+    SetFilePointer(handle, offset - 1, nullptr, FILE_BEGIN);
+    if (ReadFile(handle, &c, 1, &len, nullptr) && len && !is_line_breaker(c))
+        WriteFile(handle, "\n", 1, &len, nullptr);
+
+    return SetFilePointer(handle, 0, nullptr, FILE_END);
+}
+
 //------------------------------------------------------------------------------
 line_id_impl write_lock::add(const char* line)
 {
     DWORD written;
-    const DWORD offset = SetFilePointer(m_handle_lines, 0, nullptr, FILE_END);
+    const DWORD offset = seek_to_append(m_handle_lines);
     if (offset == INVALID_SET_FILE_POINTER)
         return line_id_impl();
     WriteFile(m_handle_lines, line, int32(strlen(line)), &written, nullptr);
@@ -830,7 +851,7 @@ void write_lock::append(const read_lock& src)
 {
     DWORD written;
 
-    SetFilePointer(m_handle_lines, 0, nullptr, FILE_END);
+    seek_to_append(m_handle_lines);
 
     history_read_buffer buffer;
     read_lock::file_iter src_iter(src, buffer.data(), buffer.size());
-- 
2.43.0


From f0efd2a609441cff1533d2216d92955ac40c50f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 054/149] fix: removals recorded for a different master history
 were lost, or applied to unrelated lines

---
 clink/lib/src/history_db.cpp | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 37b0081..d99b6c1 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -385,6 +385,7 @@ public:
     line_id_impl    add(const char* line);
     bool            remove(line_id_impl id);
     void            append(const read_lock& src);
+    void            sync_removals();
 };
 
 //------------------------------------------------------------------------------
@@ -829,6 +830,8 @@ bool write_lock::remove(line_id_impl id)
 
     if (m_handle_removals && id.bank_index == bank_master)
     {
+        sync_removals();
+
         str<> s;
         s.format("%d\n", id.offset);
 
@@ -846,6 +849,33 @@ bool write_lock::remove(line_id_impl id)
     return true;
 }
 
+//------------------------------------------------------------------------------
+// Makes sure the removals file has the concurrency tag of the master bank.  If it
+// doesn't, then the offsets in it (if any) are for lines that no longer exist.
+void write_lock::sync_removals()
+{
+    if (!m_handle_lines || !m_handle_removals)
+        return;
+
+    concurrency_tag master_ctag;
+    extract_ctag(*this, master_ctag);
+
+    char buffer[max_ctag_size];
+    concurrency_tag removals_ctag;
+    file_iter iter(m_handle_removals, buffer);
+    extract_ctag(iter, buffer, sizeof(buffer), removals_ctag);
+
+    if (strcmp(master_ctag.get(), removals_ctag.get()) != 0)
+    {
+        DWORD written;
+        str<64> line(master_ctag.get());
+        line << "\n";
+        SetFilePointer(m_handle_removals, 0, nullptr, FILE_BEGIN);
+        SetEndOfFile(m_handle_removals);
+        WriteFile(m_handle_removals, line.c_str(), line.length(), &written, nullptr);
+    }
+}
+
 //------------------------------------------------------------------------------
 void write_lock::append(const read_lock& src)
 {
@@ -1382,7 +1412,10 @@ void history_db::initialise(str_base* error_message)
         removals << path << ".removals";
         DIAG("... removals file '%s'\n", removals.c_str());
 
-        m_bank_handles[bank_session].m_handle_removals = make_removals_file(removals.c_str(), m_master_ctag.get());
+        m_bank_handles[bank_session].m_handle_removals = open_file(removals.c_str());
+
+        write_lock lock(get_bank(bank_master));
+        lock.sync_removals();
     }
 
     reap(); // collects orphaned history files.
-- 
2.43.0


From c10d91b36f7692f79c69c08d6d2b1407b341e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 055/149] fix: lines with a pending removal counted against the
 limit and uniq when compacting history

---
 clink/lib/src/history_db.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index d99b6c1..a25bd2d 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1026,7 +1026,7 @@ static bool extract_ctag(const read_lock& lock, concurrency_tag& tag)
 }
 
 //------------------------------------------------------------------------------
-static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=nullptr, size_t* _deleted=nullptr, bool uniq=false, size_t* _dups=nullptr, std::map<line_id_impl, line_id_impl>* remap=nullptr)
+static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=nullptr, size_t* _deleted=nullptr, bool uniq=false, size_t* _dups=nullptr, std::map<line_id_impl, line_id_impl>* remap=nullptr, const std::unordered_set<uint32>* pending=nullptr)
 {
     history_read_buffer buffer;
     str_map_case<size_t>::type seen;
@@ -1044,6 +1044,7 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
     {
         remap_history_line m_line;
         remap_history_line m_timestamp;
+        bool m_pending = false;         // Its removal is pending.
     };
 
     // Read lines to keep into vector.
@@ -1067,8 +1068,12 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
         if (!timestamp.empty())
             tmp.format("|\ttime=%s", timestamp.c_str());
 
+        // Lines with a pending removal must still be kept, so the removal can
+        // be remapped, but they're not counted by limit or by uniq.
+        const bool is_pending = (pending && pending->find(id.offset) != pending->end());
+
         // Maybe apply uniq and keep only the latest.
-        if (uniq)
+        if (uniq && !is_pending)
         {
             auto const lookup = seen.find(keep->m_line.m_line.get());
             if (lookup != seen.end())
@@ -1088,6 +1093,7 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
         keep->m_timestamp.m_line.set(tmp.empty() ? nullptr : tmp.c_str());
         keep->m_timestamp.m_old = timestamp_id;
         keep->m_line.m_old = id;
+        keep->m_pending = is_pending;
 
         // And keep them.
         lines_to_keep.emplace_back(std::move(keep));
@@ -1110,8 +1116,11 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
     if (0 < limit && limit < lines_to_keep.size())
     {
         for (start = lines_to_keep.size(); limit && start > 0;)
-            if (lines_to_keep[--start].get())
+        {
+            const auto& keep = lines_to_keep[--start];
+            if (keep.get() && !keep->m_pending)
                 --limit;
+        }
     }
 
     // Write lines from vector.
@@ -1780,7 +1789,11 @@ bool history_db::compact(bool force, bool uniq, int32 _limit)
     // optionally enforce uniqueness.  The result counters are written to
     // the log file.
     std::map<line_id_impl, line_id_impl> remap_removals;
-    rewrite_master_bank(dest, limit, &kept, &deleted, uniq, &dups, &remap_removals);
+    std::unordered_set<uint32> pending;
+    for (const auto& r : removals_files)
+        for (const auto& id : r.m_lines)
+            pending.insert(id.offset);
+    rewrite_master_bank(dest, limit, &kept, &deleted, uniq, &dups, &remap_removals, &pending);
 
     // Extract the new master concurrency tag.
     str<64> old_ctag(m_master_ctag.get());
-- 
2.43.0


From 294454cd9ca697c1a31e629775e27baae1d11183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 056/149] fix: 'clink history' must honor removals recorded by
 its session after history.dupe_mode is changed

---
 clink/lib/src/history_db.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index a25bd2d..3cd4f58 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1415,13 +1415,18 @@ void history_db::initialise(str_base* error_message)
 
     m_bank_handles[bank_session].m_handle_lines = open_file(path.c_str(), m_bank_error[bank_session]);
     make_open_error(error_message, bank_session);
-    if (m_use_master_bank && g_dupe_mode.get() == 2) // 'erase_prev'
+    if (m_use_master_bank)
     {
+        // The mode can be changed while a session is running, and "clink
+        // history" joins a running session (which owns the alive file).  All
+        // of a session's processes must agree whether it uses a removals file.
+        const bool is_owner = !!m_alive_file;
+        const bool if_exists = !(is_owner && g_dupe_mode.get() == 2); // 'erase_prev'
         str<280> removals;
         removals << path << ".removals";
         DIAG("... removals file '%s'\n", removals.c_str());
 
-        m_bank_handles[bank_session].m_handle_removals = open_file(removals.c_str());
+        m_bank_handles[bank_session].m_handle_removals = open_file(removals.c_str(), if_exists);
 
         write_lock lock(get_bank(bank_master));
         lock.sync_removals();
-- 
2.43.0


From 868e29fff61b76305671a4dc4957ec063945bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 057/149] fix: adding a line to history reported success even
 if it could not be written

---
 clink/lib/src/history_db.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 3cd4f58..ed76af2 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -811,8 +811,18 @@ line_id_impl write_lock::add(const char* line)
     const DWORD offset = seek_to_append(m_handle_lines);
     if (offset == INVALID_SET_FILE_POINTER)
         return line_id_impl();
-    WriteFile(m_handle_lines, line, int32(strlen(line)), &written, nullptr);
-    WriteFile(m_handle_lines, "\n", 1, &written, nullptr);
+
+    // Write the line and its line ending together, so that a line in the file
+    // is always complete.
+    str_moveable tmp;
+    tmp << line << "\n";
+    if (!WriteFile(m_handle_lines, tmp.c_str(), tmp.length(), &written, nullptr) || written != tmp.length())
+    {
+        SetFilePointer(m_handle_lines, offset, nullptr, FILE_BEGIN);
+        SetEndOfFile(m_handle_lines);
+        return line_id_impl();
+    }
+
     if (offset >= c_max_line_id.offset)
         return c_max_line_id;
     return line_id_impl(offset);
@@ -1884,8 +1894,7 @@ bool history_db::add(const char* line, time_t* out_timestamp)
         lock.add(timestamp.c_str());
     }
 
-    lock.add(line);
-    return true;
+    return !!lock.add(line);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From d1330d63ced92f7f933195f10d1b39a7723f19be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 058/149] fix: reaping a session's history could append its
 lines twice, or discard them if they couldn't be saved

---
 clink/lib/src/history_db.cpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index ed76af2..5b87a5a 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -384,7 +384,7 @@ public:
     void            clear();
     line_id_impl    add(const char* line);
     bool            remove(line_id_impl id);
-    void            append(const read_lock& src);
+    bool            append(const read_lock& src);
     void            sync_removals();
 };
 
@@ -887,16 +887,27 @@ void write_lock::sync_removals()
 }
 
 //------------------------------------------------------------------------------
-void write_lock::append(const read_lock& src)
+bool write_lock::append(const read_lock& src)
 {
     DWORD written;
 
-    seek_to_append(m_handle_lines);
+    const DWORD offset = seek_to_append(m_handle_lines);
+    if (offset == INVALID_SET_FILE_POINTER)
+        return false;
 
     history_read_buffer buffer;
     read_lock::file_iter src_iter(src, buffer.data(), buffer.size());
-    while (int32 bytes_read = src_iter.next())
-        WriteFile(m_handle_lines, buffer.data(), bytes_read, &written, nullptr);
+    while (uint32 bytes_read = src_iter.next())
+    {
+        if (!WriteFile(m_handle_lines, buffer.data(), bytes_read, &written, nullptr) || written != bytes_read)
+        {
+            SetFilePointer(m_handle_lines, offset, nullptr, FILE_BEGIN);
+            SetEndOfFile(m_handle_lines);
+            return false;
+        }
+    }
+
+    return true;
 }
 
 
@@ -1341,20 +1352,28 @@ void history_db::reap()
             if (reap_handles.m_handle_removals)
                 DIAG("... reap session file '%s'\n", removals.c_str());
 
+            bool reaped = false;
             {
                 // WARNING: ALWAYS LOCK MASTER BEFORE SESSION!
                 bank_handles master_handles = get_bank(bank_master);
                 master_handles.m_handle_removals = nullptr; // Don't redirect removals.
                 write_lock dest(master_handles);
-                read_lock src(reap_handles);
-                if (src && dest)
+                write_lock src(reap_handles);
+                if (src && dest && dest.append(src))
                 {
-                    dest.append(src);
                     src.apply_removals(dest);
+                    // Another process could be reaping the same session at the
+                    // same time; don't let it append the same lines again.
+                    src.clear();
+                    reaped = true;
                 }
             }
 
             reap_handles.close();
+
+            // Keep the session's files if they couldn't be reaped.
+            if (!reaped)
+                return;
         }
 
         os::unlink(removals.c_str());
-- 
2.43.0


From efcbaa7101b220d4978db52108a63da16c43afb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 059/149] fix: removing a history line reported success even if
 the removal could not be written

---
 clink/lib/src/history_db.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 5b87a5a..ad63ff3 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -847,16 +847,14 @@ bool write_lock::remove(line_id_impl id)
 
         DWORD written;
         SetFilePointer(m_handle_removals, 0, nullptr, FILE_END);
-        WriteFile(m_handle_removals, s.c_str(), s.length(), &written, nullptr);
+        return WriteFile(m_handle_removals, s.c_str(), s.length(), &written, nullptr) && written == s.length();
     }
     else
     {
         DWORD written;
         SetFilePointer(m_handle_lines, id.offset, nullptr, FILE_BEGIN);
-        WriteFile(m_handle_lines, "|", 1, &written, nullptr);
+        return WriteFile(m_handle_lines, "|", 1, &written, nullptr) && written == 1;
     }
-
-    return true;
 }
 
 //------------------------------------------------------------------------------
@@ -1925,8 +1923,8 @@ int32 history_db::remove(const char* line)
         lock.find(line, [&] (line_id_impl id) {
             // The line id was retrieved inside this lock scope, so it's still
             // valid; no need to guard the ctag.
-            lock.remove(id);
-            count++;
+            if (lock.remove(id))
+                count++;
             return true;
         });
 
-- 
2.43.0


From 6ce90778432fa441703ef1bbce6f008e7365d22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 060/149] fix: match_type operators overran the two-byte enum
 in MinGW builds

---
 clink/lib/include/lib/matches.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/clink/lib/include/lib/matches.h b/clink/lib/include/lib/matches.h
index 08d2e68..22ed4cd 100644
--- a/clink/lib/include/lib/matches.h
+++ b/clink/lib/include/lib/matches.h
@@ -36,7 +36,15 @@ enum class match_type : match_type_intrinsic
     fromhistory = 0x8000, // Parsed from history; affects dedup (de-deduplication).
 };
 
-DEFINE_ENUM_FLAG_OPERATORS(match_type);
+// Not DEFINE_ENUM_FLAG_OPERATORS, because in some SDKs its assignment operators
+// access an int even when the enum type is smaller, and overrun the object.
+constexpr match_type operator | (match_type a, match_type b) { return match_type(match_type_intrinsic(a) | match_type_intrinsic(b)); }
+constexpr match_type operator & (match_type a, match_type b) { return match_type(match_type_intrinsic(a) & match_type_intrinsic(b)); }
+constexpr match_type operator ^ (match_type a, match_type b) { return match_type(match_type_intrinsic(a) ^ match_type_intrinsic(b)); }
+constexpr match_type operator ~ (match_type a) { return match_type(match_type_intrinsic(~match_type_intrinsic(a))); }
+inline match_type& operator |= (match_type& a, match_type b) { return a = a | b; }
+inline match_type& operator &= (match_type& a, match_type b) { return a = a & b; }
+inline match_type& operator ^= (match_type& a, match_type b) { return a = a ^ b; }
 
 static_assert(((int32(match_type::END) - 1) | int32(match_type::mask)) <= int32(match_type::mask), "match_type overflowed mask bits!");
 
-- 
2.43.0


From 2e6d6f0e506799734aa59ff777908556f6f079af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 061/149] fix: match lists with 65536 or more matches lost most
 of them

---
 clink/lib/src/matches_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/matches_impl.h b/clink/lib/src/matches_impl.h
index 671ba1b..760f91b 100644
--- a/clink/lib/src/matches_impl.h
+++ b/clink/lib/src/matches_impl.h
@@ -152,7 +152,7 @@ private:
     store_impl              m_store;
     infos                   m_infos;
     int32                   m_generation_id = -1;
-    unsigned short          m_count = 0;
+    uint32                  m_count = 0;
     bool                    m_any_none_type = false;
     bool                    m_deprecated_mode = false;
     bool                    m_coalesced = false;
-- 
2.43.0


From 464654bb8cb1306b1b02903f49edd6e06f488f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 062/149] fix: match count included a duplicate match that was
 removed

---
 clink/lib/src/matches_impl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lib/src/matches_impl.cpp b/clink/lib/src/matches_impl.cpp
index 4291886..9f47fd3 100644
--- a/clink/lib/src/matches_impl.cpp
+++ b/clink/lib/src/matches_impl.cpp
@@ -1305,7 +1305,10 @@ void matches_impl::done_building()
 
                 // Check if it has become a duplicate.
                 if (m_dedup->find(lookup) != m_dedup->end())
+                {
                     m_infos.erase(m_infos.begin() + i);
+                    --m_count;
+                }
                 else
                     m_dedup->emplace(std::move(lookup));
             }
-- 
2.43.0


From 870160cc5ff51c65032414b8f1adf8ac764a887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 063/149] fix: directory matches of unspecified type had no
 trailing path separator

---
 clink/lib/src/matches_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/matches_impl.cpp b/clink/lib/src/matches_impl.cpp
index 9f47fd3..0386de4 100644
--- a/clink/lib/src/matches_impl.cpp
+++ b/clink/lib/src/matches_impl.cpp
@@ -1273,7 +1273,7 @@ void matches_impl::done_building()
         {
         case slash_translation::slash:      sep = '/'; break;
         case slash_translation::backslash:  sep = '\\'; break;
-        case slash_translation::automatic:  sep = m_sep; break;
+        case slash_translation::automatic:  if (m_sep) sep = m_sep; break;
         }
 
         for (uint32 i = m_count; i--;)
-- 
2.43.0


From c6dadebf3bdae200fc9760b1154201182c4f5111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 064/149] fix: quoted "not" in a coloring rule was not treated
 as a pattern

---
 clink/lib/src/match_colors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/match_colors.cpp b/clink/lib/src/match_colors.cpp
index fdaa936..8a378ae 100644
--- a/clink/lib/src/match_colors.cpp
+++ b/clink/lib/src/match_colors.cpp
@@ -492,7 +492,7 @@ static bool parse_rule(str_iter& iter, str<16>& value, color_rule& rule)
         if (!token.length())
             continue;
 
-        if (token.iequals("not"))
+        if (!quoted && token.iequals("not"))
         {
             not_operator = true;
             continue;
-- 
2.43.0


From 72b116afade0ea6478ce503344d8b0c26946f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 065/149] fix: hidden or readonly matches lost their color when
 no hidden or readonly color is defined

---
 clink/lib/src/match_colors.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/match_colors.cpp b/clink/lib/src/match_colors.cpp
index 8a378ae..e6a8f50 100644
--- a/clink/lib/src/match_colors.cpp
+++ b/clink/lib/src/match_colors.cpp
@@ -1074,13 +1074,15 @@ bool get_match_color(const char* f, match_type type, str_base& out)
             {
                 if (is_match_type_readonly(type))
                 {
-                    colored_filetype = (enum_indicator_no)(C_READONLY);
+                    if (s_colors[C_READONLY])
+                        colored_filetype = (enum_indicator_no)(C_READONLY);
                     cflags |= CFLAG_READONLY;
                 }
                 // Hidden takes precedence over Readonly, if no rules match.
                 if (is_match_type_hidden(type))
                 {
-                    colored_filetype = (enum_indicator_no)(C_HIDDEN);
+                    if (s_colors[C_HIDDEN])
+                        colored_filetype = (enum_indicator_no)(C_HIDDEN);
                     cflags |= CFLAG_HIDDEN;
                 }
             }
-- 
2.43.0


From 95b699fe265964faaf459e2ef427456ffdf22193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 066/149] fix: the mi, or, and so types in coloring rules had
 no effect

---
 clink/lib/src/match_colors.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/clink/lib/src/match_colors.cpp b/clink/lib/src/match_colors.cpp
index e6a8f50..23b59db 100644
--- a/clink/lib/src/match_colors.cpp
+++ b/clink/lib/src/match_colors.cpp
@@ -141,6 +141,9 @@ static setting_color g_common_match_prefix(
 #define CFLAG_HIDDEN                    0x0010
 #define CFLAG_SYMLINK                   0x0020
 #define CFLAG_EXEC                      0x0040
+#define CFLAG_MISSING                   0x0080
+#define CFLAG_ORPHAN                    0x0100
+#define CFLAG_SOCK                      0x0200
 #define C_READONLY                      (C_NUM_INDICATORS + 0)
 #define C_HIDDEN                        (C_NUM_INDICATORS + 1)
 #define C_NUM_INDICATORS_EXTENDED       (C_NUM_INDICATORS + 2)
@@ -157,9 +160,9 @@ static const struct {
     { "hi", C_HIDDEN,   CFLAG_HIDDEN },
     { "ln", C_LINK,     CFLAG_SYMLINK },
     { "ex", C_EXEC,     CFLAG_EXEC },
-    { "mi", C_MISSING,  0 },
-    { "or", C_ORPHAN,   0 },
-    { "so", C_SOCK,     0 },
+    { "mi", C_MISSING,  CFLAG_MISSING },
+    { "or", C_ORPHAN,   CFLAG_ORPHAN },
+    { "so", C_SOCK,     CFLAG_SOCK },
 };
 
 //------------------------------------------------------------------------------
@@ -1019,13 +1022,13 @@ bool get_match_color(const char* f, match_type type, str_base& out)
     if (linkok == -1 && s_colors[C_MISSING] != nullptr)
     {
         colored_filetype = C_MISSING;
-        cflags = 0;
+        cflags = CFLAG_MISSING;
     }
 #if defined(S_ISLNK)
     else if (linkok == 0 && S_ISLNK(mode) && s_colors[C_ORPHAN] != nullptr)
     {
         colored_filetype = C_ORPHAN; // dangling symlink.
-        cflags = 0;
+        cflags = CFLAG_ORPHAN;
     }
 #endif
     else
@@ -1033,7 +1036,7 @@ bool get_match_color(const char* f, match_type type, str_base& out)
         if (stat_ok != 0)
         {
             colored_filetype = C_FILE;
-            cflags = CFLAG_FILE;
+            cflags = CFLAG_FILE|CFLAG_MISSING;
         }
         else if (S_ISREG(mode))
         {
@@ -1055,12 +1058,14 @@ bool get_match_color(const char* f, match_type type, str_base& out)
         {
             colored_filetype = C_LINK;
             cflags = CFLAG_SYMLINK;
+            if (linkok == 0)
+                cflags |= CFLAG_ORPHAN;
         }
 #endif
         else
         {
             colored_filetype = C_ORPHAN;
-            cflags = 0;
+            cflags = CFLAG_ORPHAN;
         }
 
         if (!is_zero(type))
@@ -1070,7 +1075,7 @@ bool get_match_color(const char* f, match_type type, str_base& out)
                 colored_filetype = C_NORM;
                 cflags = 0;
             }
-            else if (cflags)
+            else if (colored_filetype != C_ORPHAN)
             {
                 if (is_match_type_readonly(type))
                 {
-- 
2.43.0


From ce0fa3a73ec17d0cfd0b6866531d869ba17f4fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 067/149] fix: look at the unchanged text to the right when
 deciding whether to clear to the end of the line, not at what precedes it

---
 clink/lib/src/display_readline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index aecee31..dc97d1c 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2638,8 +2638,8 @@ left_whole:
                         use_eol_opt = false;
                         break;
                     }
-                    --ec;
-                    --ef;
+                    ++ec;
+                    ++ef;
                 }
             }
 
-- 
2.43.0


From ce575a399f7bd8fb4e6f850443d08b7ce8417ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 068/149] fix: do not pass null pointers to memcmp when
 comparing empty display lines

---
 clink/lib/src/display_readline.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index dc97d1c..9544a18 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2491,8 +2491,9 @@ void display_manager::update_line(int32 i, const display_line* o, const display_
     if (o &&
         o->m_x == d->m_x &&
         o->m_len == d->m_len &&
-        !memcmp(o->m_chars, d->m_chars, d->m_len) &&
-        !memcmp(o->m_faces, d->m_faces, d->m_len))
+        (!d->m_len ||
+         (!memcmp(o->m_chars, d->m_chars, d->m_len) &&
+          !memcmp(o->m_faces, d->m_faces, d->m_len))))
     {
 #ifdef REPORT_REDISPLAY
         ++s_identical;
-- 
2.43.0


From c7e8a2023616152b1f3f277b84d4f7f0453ea06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 069/149] fix: keep the selection after cua-select-word,
 cua-backward-bigword and cua-forward-bigword

---
 clink/lib/src/rl/rl_commands.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lib/src/rl/rl_commands.cpp b/clink/lib/src/rl/rl_commands.cpp
index 3cc02f8..845c639 100644
--- a/clink/lib/src/rl/rl_commands.cpp
+++ b/clink/lib/src/rl/rl_commands.cpp
@@ -1396,6 +1396,9 @@ void cua_after_command(bool force_clear)
         s_map.emplace(cua_forward_char);
         s_map.emplace(cua_backward_word);
         s_map.emplace(cua_forward_word);
+        s_map.emplace(cua_backward_bigword);
+        s_map.emplace(cua_forward_bigword);
+        s_map.emplace(cua_select_word);
         s_map.emplace(cua_beg_of_line);
         s_map.emplace(cua_end_of_line);
         s_map.emplace(cua_select_all);
-- 
2.43.0


From d2fd5793626308ce49591430dffc06ee621445bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 070/149] fix: join the text of consecutive kill commands that
 are bound to multiple key sequences (e.g. Alt-D)

---
 readline/readline/callback.c | 7 +++++++
 readline/readline/readline.c | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/readline/readline/callback.c b/readline/readline/callback.c
index f2d51b3..c99af78 100644
--- a/readline/readline/callback.c
+++ b/readline/readline/callback.c
@@ -245,11 +245,18 @@ rl_callback_read_char (void)
 	}
       else if (RL_ISSTATE (RL_STATE_MULTIKEY))
 	{
+/* begin_clink_change */
+	  const int lk = _rl_last_command_was_kill;
+/* end_clink_change */
 	  eof = _rl_dispatch_callback (_rl_kscxt);	/* For now */
 	  while ((eof == -1 || eof == -2) && RL_ISSTATE (RL_STATE_MULTIKEY) && _rl_kscxt && (_rl_kscxt->flags & KSEQ_DISPATCHED))
 	    eof = _rl_dispatch_callback (_rl_kscxt);
 	  if (RL_ISSTATE (RL_STATE_MULTIKEY) == 0)
 	    {
+/* begin_clink_change - same as in readline_internal_charloop. */
+	      if (rl_pending_input == 0 && lk == _rl_last_command_was_kill)
+		_rl_last_command_was_kill = 0;
+/* end_clink_change */
 /* begin_clink_change - _rl_internal_char_cleanup can trigger redisplay, so
    set _rl_want_redisplay beforehand instead of forcing another redisplay by
    setting _rl_want_redisplay afterwards. */
diff --git a/readline/readline/readline.c b/readline/readline/readline.c
index 84e4bf7..226b367 100644
--- a/readline/readline/readline.c
+++ b/readline/readline/readline.c
@@ -786,7 +786,13 @@ readline_internal_charloop (void)
       /* If there was no change in _rl_last_command_was_kill, then no kill
 	 has taken place.  Note that if input is pending we are reading
 	 a prefix command, so nothing has changed yet. */
-      if (rl_pending_input == 0 && lk == _rl_last_command_was_kill)
+      if (rl_pending_input == 0 && lk == _rl_last_command_was_kill
+/* begin_clink_change */
+	  /* In callback mode a prefix key returns before the rest of the key
+	     sequence is read; rl_callback_read_char handles the rest. */
+	  && RL_ISSTATE (RL_STATE_MULTIKEY) == 0
+/* end_clink_change */
+	  )
 	_rl_last_command_was_kill = 0;
 
       _rl_internal_char_cleanup ();
-- 
2.43.0


From 1e98c83bb31234e724105ad737ece966aed8c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 071/149] fix: bytes above 127 read by commands that read more
 input (e.g. character-search) are not mistaken for end of file

---
 readline/readline/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readline/readline/input.c b/readline/readline/input.c
index 79c4760..89ee086 100644
--- a/readline/readline/input.c
+++ b/readline/readline/input.c
@@ -860,7 +860,7 @@ rl_read_key (void)
   const char* src = NULL;
   if (_clink_input_len > 0)
     {
-      c = *(_clink_input++);
+      c = (unsigned char)*(_clink_input++);
       --_clink_input_len;
       goto out;
     }
-- 
2.43.0


From 4f818c922a3018e14a56f715a5bf2b6be8221a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 072/149] fix: win-cursor-forward and win-copy-up-to-char count
 characters, not bytes, to find the place in the previous command

---
 clink/lib/src/rl/rl_commands.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/clink/lib/src/rl/rl_commands.cpp b/clink/lib/src/rl/rl_commands.cpp
index 845c639..aa88d15 100644
--- a/clink/lib/src/rl/rl_commands.cpp
+++ b/clink/lib/src/rl/rl_commands.cpp
@@ -1827,7 +1827,21 @@ static int32 adjust_point_point(int32& point, int32 target, char* buffer)
 #endif
 
     point = tmp;
-    return true;
+    return count;
+}
+
+//------------------------------------------------------------------------------
+// Finds the position in prev_buffer that corresponds to rl_point; i.e. the
+// position that has the same number of characters before it (the sizes of the
+// characters may be different).
+static int32 find_corresponding_point(char* prev_buffer)
+{
+    int32 point = 0;
+    const int32 count = adjust_point_point(point, rl_point, rl_line_buffer);
+
+    point = 0;
+    adjust_point_delta(point, count, prev_buffer);
+    return point;
 }
 
 //------------------------------------------------------------------------------
@@ -1971,8 +1985,7 @@ ding:
         return 0;
     }
 
-    int32 old_point = 0;
-    adjust_point_point(old_point, rl_point, prev_buffer);
+    const int32 old_point = find_corresponding_point(prev_buffer);
     if (!prev_buffer[old_point])
         goto ding;
 
@@ -2014,8 +2027,7 @@ static int32 finish_win_f2()
     if (s_win_fn_input_buffer.empty())
         return 0;
 
-    int32 old_point = 0;
-    adjust_point_point(old_point, rl_point, prev_buffer);
+    const int32 old_point = find_corresponding_point(prev_buffer);
     if (prev_buffer[old_point])
     {
         int32 end_point = old_point;
-- 
2.43.0


From 1718b8603dbd6a58faea684ff30ca3e108781477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 073/149] fix: control characters in a horizontally scrolled
 line are counted once and marked when cut off

---
 clink/lib/src/display_readline.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 9544a18..c3229ed 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -848,16 +848,21 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
         if (index == rl_point)
             m_cpos = col;
 
-        for (const char* add = tmp.c_str(); *add; ++add, ++index)
+        for (const char* add = tmp.c_str(); *add; ++add)
         {
             if (col >= limit)
+            {
+                overflow = true;
                 break;
+            }
 
             assert(*add >= 0 && *add <= 0x7f); // Only ASCII characters are generated.
             d->append(*add, face);
             ++col;
         }
 
+        ++index;
+
         assert(uint32(iter.character_pointer() + iter.character_length() - buffer) == index);
 
         if (col >= limit)
-- 
2.43.0


From 4ee8523494bc55110ddee66e0b797170b33c5517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 074/149] fix: vertical scrolling keeps the cursor in view when
 the prompt wraps

---
 clink/lib/src/display_readline.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index c3229ed..0942d9f 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1972,15 +1972,15 @@ void display_manager::display()
     const uint32 old_top = m_top;
     if (m_top < m_last_prompt_line_botlin)
         m_top = m_last_prompt_line_botlin;
-    if (m_last_prompt_line_botlin + next->vpos() < m_top)
-        m_top = m_last_prompt_line_botlin + next->vpos();
-    if (m_last_prompt_line_botlin + next->vpos() > m_top + input_botlin_offset)
+    if (next->vpos() < m_top)
+        m_top = next->vpos();
+    if (next->vpos() > m_top + input_botlin_offset)
         m_top = next->vpos() - input_botlin_offset;
     if (m_top + input_botlin_offset + 1 > next->count())
         m_top = next->count() - 1 - input_botlin_offset;
 
     // Scroll when cursor is on a scroll marker.
-    if (m_top > m_last_prompt_line_botlin && m_top == m_last_prompt_line_botlin + next->vpos())
+    if (m_top > m_last_prompt_line_botlin && m_top == next->vpos())
     {
         const display_line* d = next->get(m_top);
         if (next->cpos() >= d->m_x && next->cpos() < d->m_x + c_horz_scroll_indicator_chars)
-- 
2.43.0


From 0a400275c852055ed79e0a28e18074697c58c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 075/149] fix: horizontal scrolling starts at a whole character
 and keeps the cursor in view after wide prompts

---
 clink/lib/src/display_readline.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 0942d9f..245ad2e 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -760,21 +760,32 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
     const int32 scroll_stride = _rl_screenwidth / 3;
     const int32 limit = _rl_screenwidth - c_horz_scroll_indicator_chars - 1; // `>` marker(s) and -1 for space.
 
+    // The line may have changed; don't start in the middle of a character.
+    while (m_horz_start && m_horz_start < len && (buffer[m_horz_start] & 0xc0) == 0x80)
+        --m_horz_start;
+
     // Adjust horizontal scroll offset to ensure point is visible.
     if (point < m_horz_start)
     {
         m_horz_start = point;
         adjust_columns(m_horz_start, 0 - scroll_stride, buffer, len);
     }
-    else
     {
         const int32 range = limit - (m_horz_start ? 1 : col);
         uint32 end = m_horz_start;
-        if (adjust_columns(end, range, buffer, len) && point >= end)
+        // When the prompt leaves no room, scroll as soon as there's anything
+        // before the point.
+        const bool past_end = (range > 0) ? adjust_columns(end, range, buffer, len) : (point > 0);
+        if (past_end && point >= end)
         {
             m_horz_start = point;
             if (!adjust_columns(m_horz_start, 0 - scroll_stride*2, buffer, len))
-                m_horz_start++;
+            {
+                // Scroll past one whole character (not one byte).
+                wcwidth_iter first(buffer, len);
+                first.next();
+                m_horz_start = first.character_length();
+            }
         }
     }
 
-- 
2.43.0


From fb306ab3eadca1fcb8e974e786d2c238a29480b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 076/149] fix: finishing a wrap reprints the right row when the
 prompt wraps

---
 clink/lib/src/display_readline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 245ad2e..f45e62d 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2996,7 +2996,7 @@ void display_manager::finish_pending_wrap()
 
     // If there's a display_line, then re-print its first character to force
     // wrapping.  Otherwise, print a placeholder.
-    const int32 index = m_pending_wrap_display->top() +  _rl_last_v_pos;
+    const int32 index = m_pending_wrap_display->top() + _rl_last_v_pos - m_last_prompt_line_botlin;
     assert(index >= 0);
     if (index < m_pending_wrap_display->count())
     {
-- 
2.43.0


From d8a8453060fa29715bd2a121b48ea98c46d89138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 077/149] fix: don't scroll the top row away when the input
 line fills the screen

---
 clink/lib/src/display_readline.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index f45e62d..d51d0df 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2149,7 +2149,8 @@ void display_manager::display()
     }
 
     // Maybe show input hint.
-    if (need_update && can_show_comment_row && _rl_vis_botlin < _rl_screenheight)
+    const bool comment_row_fits = (_rl_vis_botlin + 1 < _rl_screenheight);
+    if (need_update && can_show_comment_row && comment_row_fits)
     {
         str_moveable in;
         if (m_forced_comment_row_cursorpos == rl_point)
@@ -2204,9 +2205,12 @@ void display_manager::display()
         }
     }
 
-    if (m_curr.has_comment_row() != next->has_comment_row() ||
-        strcmp(m_curr.get_comment_row(), next->get_comment_row()) ||
-        new_botlin != old_botlin)
+    // Don't touch the row after the bottom line if the input line fills the
+    // screen; moving there would scroll the top row off the screen.
+    if (comment_row_fits &&
+        (m_curr.has_comment_row() != next->has_comment_row() ||
+         strcmp(m_curr.get_comment_row(), next->get_comment_row()) ||
+         new_botlin != old_botlin))
     {
         bool reset_col = false;
 
-- 
2.43.0


From d9ac7745c4953a119108415d62386a18c399ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 078/149] fix: a scroll marker replacing a wide character keeps
 the rest of the row in place

---
 clink/lib/src/display_readline.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index d51d0df..901c267 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -945,6 +945,15 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
                     bytes--;
                     i++;
                 }
+                // Keep the rest of the line in its columns when the marker
+                // is narrower than the character it replaces.
+                while (int32(i) < wc)
+                {
+                    d.m_chars[i] = ' ';
+                    d.m_faces[i] = FACE_NORMAL;
+                    bytes--;
+                    i++;
+                }
                 d.m_scroll_mark = c_horz_scroll_indicator_chars;
                 if (bytes > 0)
                 {
@@ -952,8 +961,6 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
                     memmove(d.m_faces + i, d.m_faces + i + bytes, d.m_len - (i + bytes));
                     d.m_len -= bytes;
                 }
-                while (--wc > 0)
-                    d.appendspace();
                 d.appendnul();
                 break;
             }
-- 
2.43.0


From 8e8dcb8ffb23cf1f3ce1ee4aa2559c2b277453f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 079/149] fix: the bottom scroll marker leaves no stray
 character on the next row

---
 clink/lib/src/display_readline.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 901c267..67222b5 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -977,6 +977,7 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
         if (d.m_lastcol - d.m_x > 2)
         {
             d.m_len -= d.m_trail;
+            d.m_trail = 0;
             while (d.m_x + d.m_lastcol + c_horz_scroll_indicator_chars >= _rl_screenwidth)
             {
                 const int32 bytes = _rl_find_prev_mbchar(d.m_chars, d.m_len, MB_FIND_NONZERO);
@@ -2754,11 +2755,20 @@ left_whole:
 
             move_to_column(d->m_lastcol);
 
-            str<> tmp;
-            make_spaces(erase_cols, tmp);
+            if (lastcol >= _rl_screenwidth && !d->m_trail)
+            {
+                // Don't write spaces through the last column; that would wrap
+                // to the next row, and finishing the wrap would print there.
+                clear_to_eol(erase_cols);
+            }
+            else
+            {
+                str<> tmp;
+                make_spaces(erase_cols, tmp);
 
-            rl_fwrite_function(_rl_out_stream, tmp.c_str(), tmp.length());
-            _rl_last_c_pos += erase_cols;
+                rl_fwrite_function(_rl_out_stream, tmp.c_str(), tmp.length());
+                _rl_last_c_pos += erase_cols;
+            }
         }
     }
 
-- 
2.43.0


From 723df208f6d7cb0e93fb9ab67843fcf8f96d4a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 080/149] fix: the right side prompt isn't shown in a
 horizontally scrolled line, where it got shifted

---
 clink/lib/src/display_readline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 67222b5..2b36368 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1091,6 +1091,7 @@ bool display_lines::can_show_rprompt() const
             (_rl_term_forward_char || _rl_term_ch) && // has termcap
             rl_display_prompt == rl_prompt &&         // displaying the real prompt
             m_count == 1 &&                           // only one line
+            !is_horz_scrolled() &&                    // prompt isn't scrolled out of view
             (m_lines[0].m_lastcol + 1 + rl_visible_rprompt_length < _rl_screenwidth)); // fits
 }
 
-- 
2.43.0


From b57cb6e73e09fa66bc7d1e740464e4be90eeb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 081/149] fix: redraw a changed prompt even while its last row
 is scrolled out of view

---
 clink/lib/src/display_readline.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 2b36368..3f76ea5 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2022,12 +2022,14 @@ void display_manager::display()
     if (need_update && !m_horz_scroll)
         update_next->apply_scroll_markers(m_top, m_top + input_botlin_offset);
 
-    // Display the last line of the prompt.
+    // Display the last line of the prompt.  When forced, display it even if
+    // its last row is scrolled out of view:  its other rows are still shown,
+    // and the number of rows it uses may have changed.
     const bool old_horz_scrolled = m_curr.is_horz_scrolled();
     const bool is_horz_scrolled = next->is_horz_scrolled();
-    if (m_top == m_last_prompt_line_botlin && (forced_display ||
-                                               old_top != m_top ||
-                                               old_horz_scrolled != is_horz_scrolled))
+    if (forced_display ||
+        (m_top == m_last_prompt_line_botlin && (old_top != m_top ||
+                                                old_horz_scrolled != is_horz_scrolled)))
     {
         assert(need_update); // See is_CJK_codepage usage below...
 
-- 
2.43.0


From afb6c8cba9b8261dd781bb324a6b8103f9b72e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 082/149] fix: a command that redraws the line doesn't leave a
 cleared selection highlighted

---
 clink/lib/src/rl/rl_commands.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/rl/rl_commands.cpp b/clink/lib/src/rl/rl_commands.cpp
index aa88d15..ad5b198 100644
--- a/clink/lib/src/rl/rl_commands.cpp
+++ b/clink/lib/src/rl/rl_commands.cpp
@@ -1424,9 +1424,13 @@ void cua_after_command(bool force_clear)
         s_map.emplace(clink_dump_macros);
     }
 
-    // If not a recognized command, clear the cua selection.
+    // If not a recognized command, clear the cua selection.  If the command
+    // displayed the input line itself, the selection is still showing.
     if (force_clear || s_map.find((void*)rl_last_func) == s_map.end())
-        cua_clear_selection();
+    {
+        if (cua_clear_selection())
+            rl_display_fixed = 0;
+    }
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 494f51ec33acb8cd32351d616d962ccdd789a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 083/149] fix: the cursor isn't placed past the last column nor
 under the bottom scroll marker

---
 clink/lib/src/display_readline.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 3f76ea5..cf6edbd 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -605,7 +605,7 @@ void display_lines::parse(uint32 prompt_botlin, uint32 col, const char* buffer,
             if (index == rl_point)
             {
                 m_vpos = m_count - 1;
-                m_cpos = col;
+                m_cpos = min<uint32>(col, _rl_screenwidth - 1);
             }
 
             ++index;
@@ -2008,7 +2008,10 @@ void display_manager::display()
     }
     else if (m_top + input_botlin_offset < next->count() - 1 && m_top + input_botlin_offset == next->vpos())
     {
-        if (next->cpos() + c_horz_scroll_indicator_chars >= _rl_screenwidth && next->cpos() < _rl_screenwidth)
+        // The marker is followed by a space.
+        wcwidth_iter iter(rl_line_buffer + rl_point, rl_end - rl_point);
+        const uint32 width = iter.next() ? max<int32>(1, iter.character_wcwidth_twoctrl()) : 1;
+        if (next->cpos() + width + c_horz_scroll_indicator_chars >= _rl_screenwidth && next->cpos() < _rl_screenwidth)
             m_top++;
     }
     assert(m_top >= m_last_prompt_line_botlin);
-- 
2.43.0


From 9648122ed83086afdf63b0606c7717b9ed0ffb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 084/149] fix: read all color parameters without indexing past
 the declared array

---
 clink/terminal/src/ecma48_iter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index a0133f9..f50d0ba 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -616,7 +616,7 @@ concat_verbatim:
                                     --skip;
                                     continue;
                                 }
-                                switch (csi.params[i])
+                                switch (csi.get_param(i))
                                 {
                                 case 0:     tmp.concat(";23;24;29"); break;
                                 case 3:     tmp.concat(";3"); break;
@@ -636,9 +636,9 @@ concat_verbatim:
                                 case 58:
                                     if (i + 1 < csi.param_count)
                                     {
-                                        if (csi.params[i + 1] == 2)
+                                        if (csi.get_param(i + 1) == 2)
                                             skip = 4;
-                                        else if (csi.params[i + 1] == 5)
+                                        else if (csi.get_param(i + 1) == 5)
                                             skip = 2;
                                     }
                                 }
-- 
2.43.0


From 610b155dfca3159172df1877ca8cbc743e1ffc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 085/149] fix: restoring an empty word while completing does
 not read before its text

---
 readline/readline/complete.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readline/readline/complete.c b/readline/readline/complete.c
index 7b68737..90971e6 100644
--- a/readline/readline/complete.c
+++ b/readline/readline/complete.c
@@ -2669,7 +2669,7 @@ insert_match (char *match, int start, int mtype, char *qc)
 	}
 /* end_clink_change */
       /* Don't double a closing quote character */
-      if (qc && *qc && end && rl_line_buffer[rl_point] == *qc && replacement[rlen - 1] == *qc)
+      if (qc && *qc && end && rlen && rl_line_buffer[rl_point] == *qc && replacement[rlen - 1] == *qc)
         end++;
       if (_rl_skip_completed_text)
 	{
-- 
2.43.0


From 4971669676e76a01a6e9ca126affa099b003330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 086/149] fix: completing a word closes its quote, in the right
 place

When there is text after the cursor, a completed word that needed quoting was
left with an open quote, or lost the closing quote the user had typed, and the
text after it became part of the quoted word.  The completion list had the same
problems, and also added an append character inside the quotes, a space inside
the quotes of a directory, and a closing quote one column too far.
---
 clink/lib/src/selectcomplete_impl.cpp | 50 +++++++++++++++++++++++----
 readline/readline/complete.c          | 31 +++++++++++++++++
 2 files changed, 74 insertions(+), 7 deletions(-)

diff --git a/clink/lib/src/selectcomplete_impl.cpp b/clink/lib/src/selectcomplete_impl.cpp
index 128d526..99e3062 100644
--- a/clink/lib/src/selectcomplete_impl.cpp
+++ b/clink/lib/src/selectcomplete_impl.cpp
@@ -1955,6 +1955,20 @@ void selectcomplete_impl::insert_match(int32 final)
         m_quoted = true;
     }
 
+    // Check whether the replaced text includes the closing quote for a quote
+    // that was typed before it.
+    bool lost_quote = false;
+    if (!m_quoted &&
+        m_anchor > 0 &&
+        rl_completion_found_quote &&
+        rl_completion_quote_character)
+    {
+        const char* text = m_buffer->get_buffer();
+        for (uint32 i = m_anchor; i < m_buffer->get_cursor(); ++i)
+            if (text[i] == char(rl_completion_quote_character))
+                lost_quote = !lost_quote;
+    }
+
     m_buffer->begin_undo_group();
     m_buffer->remove(m_anchor, m_buffer->get_cursor());
     m_buffer->set_cursor(m_anchor);
@@ -1984,7 +1998,8 @@ void selectcomplete_impl::insert_match(int32 final)
         bool append_space = false;
         // UGLY: __append_to_match() circumvents the m_buffer abstraction.
         set_matches_lookaside_oneoff(match, type, append_char, flags);
-        __append_to_match(const_cast<char*>(match), m_anchor + !!*qs, m_delimiter, *qs, nontrivial_lcd);
+        const int32 append_pos = m_buffer->get_cursor();
+        __append_to_match(const_cast<char*>(match), m_anchor, m_delimiter, *qs, nontrivial_lcd);
         clear_matches_lookaside_oneoff();
         m_point = m_buffer->get_cursor();
 
@@ -2005,12 +2020,23 @@ void selectcomplete_impl::insert_match(int32 final)
                 cursor--;
             }
 
+            // The match may have some other append character.  It belongs
+            // after the closing quote.
+            char other_append[2] = {};
+            if (!m_quoted && !have_space && !is_match_type(type, match_type::dir) && cursor > append_pos)
+            {
+                other_append[0] = m_buffer->get_buffer()[cursor - 1];
+                m_buffer->remove(cursor - 1, cursor);
+                m_point--;
+                cursor--;
+            }
+
             // Add closing quote if a typed or inserted opening quote is present
             // but no closing quote is present.
-            if (!m_quoted &&
-                m_anchor > 0 &&
-                rl_completion_found_quote &&
-                rl_completion_quote_character)
+            const char add_quote = (m_quoted ?
+                (is_match_type(type, match_type::dir) && m_buffer->get_buffer()[cursor - 1] != *qs ? *qs : '\0') :
+                (m_anchor > 0 && rl_completion_found_quote ? char(rl_completion_quote_character) : '\0'));
+            if (add_quote)
             {
                 // Remove a preceding backslash unless it is preceded by colon.
                 // Because programs compiled with MSVC treat `\"` as an escape.
@@ -2031,21 +2057,31 @@ void selectcomplete_impl::insert_match(int32 final)
                 {
                     m_buffer->remove(cursor - 1, cursor);
                     cursor--;
+                    m_buffer->set_cursor(cursor);
                     removed_dir_mark = true;
                 }
 
-                qs[0] = rl_completion_quote_character;
+                qs[0] = add_quote;
                 if (m_buffer->get_buffer()[cursor] != qs[0])
                     m_buffer->insert(qs);
                 else if (append_space)
                     m_buffer->set_cursor(++cursor);
             }
 
-            // Add space.
+            // Add append character and space.
+            m_buffer->insert(other_append);
             if (append_space && !have_space)
                 m_buffer->insert(" ");
             m_point = m_buffer->get_cursor();
         }
+        else if (lost_quote && m_buffer->get_cursor() < m_buffer->get_length())
+        {
+            // Restore the closing quote, so that the text after the directory
+            // doesn't become part of the quoted word.
+            qs[0] = rl_completion_quote_character;
+            m_buffer->insert(qs);
+            m_point = m_buffer->get_cursor();
+        }
     }
     else
     {
diff --git a/readline/readline/complete.c b/readline/readline/complete.c
index 90971e6..085716e 100644
--- a/readline/readline/complete.c
+++ b/readline/readline/complete.c
@@ -690,6 +690,13 @@ _rl_reset_completion_state (void)
   rl_completion_quote_character = 0;
 }
 
+/* begin_clink_change */
+/* Set while the line contains an opening quote that insert_match() added, or one
+   whose closing quote it replaced.  Then append_to_match() must close the quote,
+   even if there's text after point. */
+static int insert_match_open_quote = 0;
+/* end_clink_change */
+
 /* Set default values for readline word completion.  These are the variables
    that application completion functions can change or inspect. */
 static void
@@ -699,6 +706,7 @@ set_completion_defaults (int what_to_do)
   rl_filename_completion_desired = 0;
 /* begin_clink_change */
   rl_filename_display_desired = 0;
+  insert_match_open_quote = 0;
 /* end_clink_change */
   rl_filename_quoting_desired = 1;
   rl_full_quoting_desired = 0;
@@ -2612,6 +2620,14 @@ insert_match (char *match, int start, int mtype, char *qc)
     {
 /* begin_clink_change */
       int remove_dir_mark = 0;
+      int i;
+      if (qc && *qc && start && rl_line_buffer[start - 1] == *qc)
+	{
+	  for (i = start; i < rl_point; i++)
+	    insert_match_open_quote ^= (rl_line_buffer[i] == *qc);
+	}
+      else
+	insert_match_open_quote = (qc && *qc && replacement[0] == *qc);
 /* end_clink_change */
       rlen = strlen (replacement);
       /* Don't double an opening quote character. */
@@ -2727,6 +2743,7 @@ append_to_match (char *text, int orig_start, int delimiter, int quote_char, int
   int orig_append = rl_completion_append_character;
   int orig_suppress = rl_completion_suppress_append;
   int orig_filename = rl_filename_completion_desired;
+  int close_quote;
   if (rl_override_match_append)
     rl_override_match_append (text);
 /* end_clink_change */
@@ -2743,6 +2760,11 @@ append_to_match (char *text, int orig_start, int delimiter, int quote_char, int
   if (temp_string_index && rl_line_buffer[orig_start] != quote_char &&
       (!orig_start || rl_line_buffer[orig_start-1] != quote_char))
     temp_string_index--;
+
+  /* Nothing is appended when there's text after point, but a quote that
+     insert_match() left open must be closed, or else the text after point
+     becomes part of the quoted word. */
+  close_quote = (temp_string_index && insert_match_open_quote && rl_point < rl_end);
 /* end_clink_change */
 
   if (delimiter)
@@ -2833,6 +2855,14 @@ append_to_match (char *text, int orig_start, int delimiter, int quote_char, int
     }
 
 /* begin_clink_change */
+  if (close_quote)
+    {
+      temp_string[0] = quote_char;
+      temp_string[1] = '\0';
+      rl_insert_text (temp_string);
+      insert_match_open_quote = 0;
+    }
+
   rl_completion_append_character = orig_append;
   rl_completion_suppress_append = orig_suppress;
   rl_filename_completion_desired = orig_filename;
@@ -2845,6 +2875,7 @@ append_to_match (char *text, int orig_start, int delimiter, int quote_char, int
 int
 __append_to_match (char *text, int orig_start, int delimiter, int quote_char, int nontrivial_match)
 {
+  insert_match_open_quote = (quote_char != 0);
   return append_to_match (text, orig_start, delimiter, quote_char, nontrivial_match);
 }
 /* end_clink_change */
-- 
2.43.0


From f5c434e9f015cac23e56b81e2cdcb21bf601e615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:23 +0000
Subject: [PATCH 087/149] fix: do not look past the last command for a word
 that follows it

With `()` or similar input, the word at the cursor is beyond the end of the
last command's range (the trailing paren is trimmed).  Walking the commands to
find the one containing the word dereferenced the end iterator.
---
 clink/lib/src/word_collector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/word_collector.cpp b/clink/lib/src/word_collector.cpp
index 360d96c..14d9097 100644
--- a/clink/lib/src/word_collector.cpp
+++ b/clink/lib/src/word_collector.cpp
@@ -491,8 +491,11 @@ void command_line_states::set(const char* line_buffer,
             assert(command_iter != commands.end());
             while (command_iter->offset + command_iter->length < command_char_offset)
             {
+                // The last word may be past the end of the last command, e.g.
+                // in `()`, where the trailing paren isn't part of the command.
+                if (command_iter + 1 == commands.end())
+                    break;
                 ++command_iter;
-                assert(command_iter != commands.end());
             }
 
             const bool limit_cursor = (mode == collect_words_mode::stop_at_cursor);
-- 
2.43.0


From 6cf57995eae71886555a22f86406899de54fd68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:23 +0000
Subject: [PATCH 088/149] fix: a command word after a redirection may start
 with a slash

In `2>&1 /foo` the slash was taken for a break inside the command word, so the
command word was empty and `/foo` was treated as its argument.
---
 clink/lib/src/cmd_tokenisers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index a16d220..888f2b8 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -603,6 +603,8 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
                 state = sSpc;
                 start_new_word();
                 c = m_iter.peek();
+                first_char = true;
+                first_slash = (c == '/');
                 input = get_input_type(c);
                 new_state = c_transition[state][input];
                 if (new_state == sBREAK) // 'rem' can lead to this.
-- 
2.43.0


From df3af11e8a792cf24f7e5e066f489750ec87fc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:23 +0000
Subject: [PATCH 089/149] fix: the word after a redirection at the end of the
 line is its argument

`foo >` registers an empty redirection argument, but `foo>` did not, so
completion right after `foo>` treated the word as an argument of foo.
---
 clink/lib/src/cmd_tokenisers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 888f2b8..c85277a 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -509,7 +509,9 @@ void cmd_word_tokeniser::start(const str_iter& iter, const char* quote_pair, boo
 //------------------------------------------------------------------------------
 word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
 {
-    if (!m_iter.more())
+    // When the line ends right after a redirection operator, e.g. `foo>`, there
+    // is still its (empty) argument.
+    if (!m_iter.more() && !m_next_redir_arg)
         return word_token(word_token::invalid_delim);
 
     const char oq = get_opening_quote();
-- 
2.43.0


From 41d7420f1cad59f4c9af88e4a1bbbf1e9d42c309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 090/149] fix: an internal command after a redirection has the
 usual word breaks

---
 clink/lib/src/cmd_tokenisers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index c85277a..1520403 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -524,7 +524,9 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
 
     auto start_new_word = [this, &start_word, &end_word, &offset, &redir_arg, &command_word]()
     {
-        m_cmd_state.next_word();
+        // A redirection can precede the command word; e.g. `>nul echo.hello`.
+        if (!m_command_word || m_cmd_state.is_first())
+            m_cmd_state.next_word();
         // Pick up carried redir_arg.
         redir_arg = m_next_redir_arg;
         m_next_redir_arg = false;
@@ -637,7 +639,7 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
             }
 
             // Internal commands have special word break syntax.
-            if (new_state == sTxt && m_cmd_state.test(c, new_state))
+            if (new_state == sTxt && !redir_arg && m_cmd_state.test(c, new_state))
                 break;
 
             // Forward slash in a command word is a word break in CMD.
-- 
2.43.0


From a949c36717093360d0b438ae7dec6968725e07a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 091/149] fix: writing past the end of a session stream fills
 the gap with zeros, not uninitialised memory

---
 clink/lua/src/sessionstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lua/src/sessionstream.cpp b/clink/lua/src/sessionstream.cpp
index 032f080..8afe834 100644
--- a/clink/lua/src/sessionstream.cpp
+++ b/clink/lua/src/sessionstream.cpp
@@ -74,6 +74,8 @@ stream_position_t session_stream::write(stream_position_t& offset, const char* b
     else
     {
         actual_count = min<>(actual_count, usable_capacity - offset);
+        if (offset > m_size)
+            memset(m_data + m_size, 0, offset - m_size);
         memcpy(m_data + offset, buffer, actual_count);
         offset += actual_count;
         assert(offset < m_capacity);
-- 
2.43.0


From 1e6201cd44d006e5ad1e54ef8a9eaa7796d581d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 092/149] fix: read(0) on a session stream returns nil at the
 end of the stream, not everywhere else

---
 clink/lua/src/sessionstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lua/src/sessionstream.cpp b/clink/lua/src/sessionstream.cpp
index 8afe834..f3270a9 100644
--- a/clink/lua/src/sessionstream.cpp
+++ b/clink/lua/src/sessionstream.cpp
@@ -485,8 +485,8 @@ static int32 ss_read_number(lua_State* state, luaL_SessionStream* ss)
 }
 static int32 ss_test_eof(lua_State* state, luaL_SessionStream* ss)
 {
-    lua_pushlstring(state, nullptr, 0);
-    return ss->eof();
+    lua_pushliteral(state, "");
+    return !ss->eof();
 }
 static int32 ss_read_line(lua_State* state, luaL_SessionStream* ss, bool chop)
 {
-- 
2.43.0


From 4aac44f93894dc9868395f5d642f13798a93529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 093/149] fix: reading a line from a session stream in text
 mode recognizes CRLF that spans the internal buffer

---
 clink/lua/src/sessionstream.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/clink/lua/src/sessionstream.cpp b/clink/lua/src/sessionstream.cpp
index f3270a9..8f57f48 100644
--- a/clink/lua/src/sessionstream.cpp
+++ b/clink/lua/src/sessionstream.cpp
@@ -136,17 +136,12 @@ stream_position_t session_stream::gets(stream_position_t& offset, char* buffer,
         --max;
         while (m_size > offset && num < max)
         {
-            const uint8 c = m_data[offset++];
+            uint8 c = m_data[offset++];
+            if (text_mode && c == '\r' && offset < m_size && m_data[offset] == '\n')
+                c = m_data[offset++];
             buffer[num++] = c;
             if (c == '\n')
-            {
-                if (text_mode && num >= 2 && buffer[num - 2] == '\r')
-                {
-                    --num;
-                    buffer[num - 1] = c;
-                }
                 break;
-            }
         }
         assert(num <= max);
         buffer[num] = 0;
-- 
2.43.0


From cd5f10c6ed5d06e949c01586d6295e328f229831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 094/149] fix: reading a line that contains NUL characters from
 a session stream does not lose text or join lines

---
 clink/lua/src/sessionstream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clink/lua/src/sessionstream.cpp b/clink/lua/src/sessionstream.cpp
index 8f57f48..7f71068 100644
--- a/clink/lua/src/sessionstream.cpp
+++ b/clink/lua/src/sessionstream.cpp
@@ -491,14 +491,14 @@ static int32 ss_read_line(lua_State* state, luaL_SessionStream* ss, bool chop)
     {
         size_t l;
         char* p = luaL_prepbuffer(&b);
-        if (!ss->gets(p, LUAL_BUFFERSIZE))
+        l = ss->gets(p, LUAL_BUFFERSIZE);
+        if (!l)
         {
             // eof?
             luaL_pushresult(&b);  // close buffer
             return (lua_rawlen(state, -1) > 0);  // check whether read something
         }
-        l = strlen(p);
-        if (l == 0 || p[l-1] != '\n')
+        if (p[l-1] != '\n')
             luaL_addsize(&b, l);
         else
         {
-- 
2.43.0


From b23d2da087179a0b92fab43494c0cb7422c724d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 095/149] fix: reading a number from a truncated session stream
 does not read discarded data

---
 clink/lua/src/sessionstream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lua/src/sessionstream.cpp b/clink/lua/src/sessionstream.cpp
index 7f71068..70e3363 100644
--- a/clink/lua/src/sessionstream.cpp
+++ b/clink/lua/src/sessionstream.cpp
@@ -167,7 +167,10 @@ int32 session_stream::scan_number(stream_position_t& offset, double* d)
 bool session_stream::truncate(stream_position_t offset)
 {
     if (m_size > offset)
+    {
         m_size = offset;
+        m_data[m_size] = 0;  // Keep it NUL terminated.
+    }
     return true;
 }
 
-- 
2.43.0


From ba08635d0d4cd46ee54f94695f0c787558bef44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 096/149] fix: seeking before the start of a session stream
 fails instead of moving to the 4 MB limit

---
 clink/lua/src/sessionstream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clink/lua/src/sessionstream.cpp b/clink/lua/src/sessionstream.cpp
index 70e3363..27f0732 100644
--- a/clink/lua/src/sessionstream.cpp
+++ b/clink/lua/src/sessionstream.cpp
@@ -630,6 +630,12 @@ int32 luaL_SessionStream::seek(lua_State* state)
     case 2: base = ss->size(); break;
     }
 
+    if (offset < 0 && base < 0 - (unsigned __int64)(offset))
+    {
+        errno = EINVAL;
+        return luaL_fileresult(state, false, nullptr);
+    }
+
     stream_position_t limited = stream_position_t(min<unsigned __int64>(base + offset, MAX_SESSION_STREAM_SIZE));
 
     ss->m_offset = limited;
-- 
2.43.0


From de23ebde51f8ff056c80c930d388fba6e248b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 097/149] fix: writing an empty string past the end of a
 session stream does not extend it

---
 clink/lua/src/sessionstream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lua/src/sessionstream.cpp b/clink/lua/src/sessionstream.cpp
index 27f0732..800f9df 100644
--- a/clink/lua/src/sessionstream.cpp
+++ b/clink/lua/src/sessionstream.cpp
@@ -44,6 +44,9 @@ session_stream::~session_stream()
 //------------------------------------------------------------------------------
 stream_position_t session_stream::write(stream_position_t& offset, const char* buffer, stream_position_t _count)
 {
+    if (!_count)
+        return 0;
+
     stream_position_t actual_count = _count;
 
     {
-- 
2.43.0


From 0e2c71e0ee9834a511ce86159bd4ca272d9eda4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 098/149] fix: discard the error message when an event handler
 fails

The error message stayed on the Lua stack, so every failing handler (e.g.
of onaftercommand, which is sent for every key) leaked a stack slot.
---
 clink/lua/src/lua_state.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/clink/lua/src/lua_state.cpp b/clink/lua/src/lua_state.cpp
index e1e6e18..48985f6 100644
--- a/clink/lua/src/lua_state.cpp
+++ b/clink/lua/src/lua_state.cpp
@@ -659,10 +659,6 @@ void lua_state::load_colortheme_in_memory(const char* theme)
 // the original level and then nargs are popped.
 bool lua_state::send_event_internal(lua_State* L, const char* event_name, const char* event_mechanism, int32 nargs, int32 nret)
 {
-    assert_stack_top ast(L, nret - nargs); // nargs were already pushed.
-
-    bool ret = false;
-
     int32 top = lua_gettop(L);
     int32 pos = top - nargs;
     assert(pos >= 0);
@@ -697,7 +693,14 @@ bool lua_state::send_event_internal(lua_State* L, const char* event_name, const
     os::cwd_restorer cwd;
 
     // Call the event callback.
-    return pcall(L, 1 + nargs, nret) == 0;
+    if (pcall(L, 1 + nargs, nret) != 0)
+    {
+        lua_settop(L, pos); // Discard the error message.
+        return false;
+    }
+
+    assert(lua_gettop(L) == pos + nret);
+    return true;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From c6a058d692dcdb6dafdbc876a32021d4fa019a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 099/149] fix: onfilterinput returning a table with a
 non-string element

The element wasn't popped, so the following lua_rawgeti indexed that
element instead of the table, which crashes.
---
 clink/lua/src/lua_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/src/lua_state.cpp b/clink/lua/src/lua_state.cpp
index 48985f6..1679619 100644
--- a/clink/lua/src/lua_state.cpp
+++ b/clink/lua/src/lua_state.cpp
@@ -781,8 +781,8 @@ bool lua_state::send_event_cancelable_string_inout(const char* event_name, const
                     out = s;
                 else if (more_out)
                     more_out->emplace_back(s);
-                lua_pop(L, 1);
             }
+            lua_pop(L, 1);
         }
     }
 
-- 
2.43.0


From 8e70765d5e4cc1e9635dd55996b79836ed20c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 100/149] fix: dequeue the next coroutine waiting to run a
 background command

The entry's field is yield_category, so nothing was ever dequeued:  the
waiting coroutine didn't influence the wait duration, and didn't continue
until some unrelated input or event happened to resume coroutines.
---
 clink/lua/scripts/coroutines.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/coroutines.lua b/clink/lua/scripts/coroutines.lua
index d784725..2d5b1d6 100644
--- a/clink/lua/scripts/coroutines.lua
+++ b/clink/lua/scripts/coroutines.lua
@@ -101,7 +101,7 @@ local function release_coroutine_yieldguard()
                 -- TODO: This is an arbitrary order, but the dequeue order
                 -- should ideally be FIFO.
                 for _,e in pairs(_coroutines) do
-                    if e.queued and e.category == category then
+                    if e.queued and e.yield_category == category then
                         e.queued = nil
                         break
                     end
-- 
2.43.0


From 471c72654cd43dff8782c63c896e30d0a3bf73dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 101/149] fix: resuming dead coroutines while resuming
 coroutines

A coroutine that creates other coroutines added keys to the table being
traversed, which can visit entries again or skip them; and a coroutine that
another coroutine had run to completion was resumed anyway.  Both printed
"coroutine failed: cannot resume dead coroutine".
---
 clink/lua/scripts/coroutines.lua | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/clink/lua/scripts/coroutines.lua b/clink/lua/scripts/coroutines.lua
index 2d5b1d6..c93e374 100644
--- a/clink/lua/scripts/coroutines.lua
+++ b/clink/lua/scripts/coroutines.lua
@@ -312,11 +312,20 @@ function clink._internal._resume_coroutines()
     local co
     remove = {}
     local impl = function()
-        for c,entry in pairs(_coroutines) do
+        -- Coroutines may create other coroutines, and assigning new keys is not
+        -- allowed while traversing a table.
+        local pass = {}
+        for c in pairs(_coroutines) do
+            table.insert(pass, c)
+        end
+        for _,c in ipairs(pass) do
+            local entry = _coroutines[c]
             co = c
             _coroutines_resumable = true
             local now = os.clock()
-            if next_entry_target(entry, now) <= now and is_entry_ready(entry, now) then
+            if not entry or coroutine.status(c) ~= "suspended" then -- luacheck: ignore 542
+                -- Removed, or already finished by being resumed explicitly.
+            elseif next_entry_target(entry, now) <= now and is_entry_ready(entry, now) then
                 if not entry.firstclock then
                     entry.firstclock = now
                 end
-- 
2.43.0


From 8df8c5073af711e47f7eec9f6919ca62e8fcbb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 102/149] fix: coroutine.resume fails for a coroutine from an
 earlier edit line

It raised an error instead of resuming a suspended coroutine that is no
longer tracked, or instead of returning false for a dead one.
---
 clink/lua/scripts/coroutines.lua | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clink/lua/scripts/coroutines.lua b/clink/lua/scripts/coroutines.lua
index c93e374..07d7dce 100644
--- a/clink/lua/scripts/coroutines.lua
+++ b/clink/lua/scripts/coroutines.lua
@@ -625,7 +625,8 @@ local function restore_coroutine_state(entry, thread)
     if not entry then
         entry = _coroutines_fallback_state[thread]
         if not entry then
-            entry = { state = {} }
+            local new_modes = internal._save_global_modes(true--[[new_coroutine]])
+            entry = { state = { global_modes=new_modes }, co_state = {}, runtime = 0 }
             _coroutines_fallback_state[thread] = entry
         end
     end
@@ -650,6 +651,7 @@ local function restore_coroutine_state(entry, thread)
     internal._restore_global_modes(state.global_modes)
 
     entry.old_state = old_state
+    return entry
 end
 
 --------------------------------------------------------------------------------
@@ -1127,8 +1129,7 @@ end
 --------------------------------------------------------------------------------
 local orig_coroutine_resume = coroutine.resume
 function coroutine.resume(co, ...) -- luacheck: ignore 122
-    local entry = _coroutines[co]
-    restore_coroutine_state(entry, co)
+    local entry = restore_coroutine_state(_coroutines[co], co)
 
     local old_co_state = internal.co_state
     internal.co_state = entry.co_state
-- 
2.43.0


From 9c7305507b35e107e3d0464abf042090a0fca244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 103/149] fix: migrating the old history file loses lines if
 interrupted

---
 clink/lib/src/history_db.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index ad63ff3..4b38387 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1222,16 +1222,14 @@ static void migrate_history(const char* path, bool m_diagnostic)
         FILE* old = fopen(old_file.c_str(), "r");
         if (old)
         {
-            // Clear and write new tag.
+            // New tag.
             concurrency_tag tag;
             tag.generate_new_tag();
-            lock.clear();
-            lock.add(tag.get());
+            str_moveable lines(tag.get());
 
             // Copy old history.
-            int32 buffer_size = 8192;
-            char* buffer = static_cast<char*>(malloc(buffer_size));
-            while (fgets(buffer, buffer_size, old))
+            char buffer[8192];
+            while (fgets(buffer, sizeof(buffer), old))
             {
                 size_t len = strlen(buffer);
                 while (len--)
@@ -1241,10 +1239,17 @@ static void migrate_history(const char* path, bool m_diagnostic)
                         break;
                     buffer[len] = '\0';
                 }
-                lock.add(buffer);
+                lines << "\n" << buffer;
             }
 
             fclose(old);
+
+            // Write everything together.  If the process ends (or the write
+            // fails) part way through, then the file must not end up with the
+            // tag and only some of the lines; it's no longer empty then, and
+            // the rest would never be migrated.
+            lock.clear();
+            lock.add(lines.c_str());
         }
     }
 
-- 
2.43.0


From d4edbfa33a806eb22d0b5f0912c4f5d669be2f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 104/149] fix: migrating the old history file is skipped if two
 sessions start together

---
 clink/lib/src/history_db.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 4b38387..af6c08c 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1397,8 +1397,9 @@ void history_db::initialise(str_base* error_message)
     {
         DIAG("... master file '%s'\n", path.c_str());
 
-        // Migrate existing history.
-        if (os::get_path_type(path.c_str()) == os::path_type_invalid)
+        // Migrate existing history.  Another session may have created the file
+        // but not migrated into it yet; migrate_history locks it and decides.
+        if (os::get_file_size(path.c_str()) <= 0)
             migrate_history(path.c_str(), m_diagnostic);
 
         // Open the master bank file.
-- 
2.43.0


From a02f0afd12aedc09690dbeed97d909199e85e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 105/149] fix: a partially written removal record can remove a
 different line

---
 clink/lib/src/history_db.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index af6c08c..21fed1e 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -846,8 +846,14 @@ bool write_lock::remove(line_id_impl id)
         s.format("%d\n", id.offset);
 
         DWORD written;
-        SetFilePointer(m_handle_removals, 0, nullptr, FILE_END);
-        return WriteFile(m_handle_removals, s.c_str(), s.length(), &written, nullptr) && written == s.length();
+        const DWORD offset = SetFilePointer(m_handle_removals, 0, nullptr, FILE_END);
+        if (WriteFile(m_handle_removals, s.c_str(), s.length(), &written, nullptr) && written == s.length())
+            return true;
+
+        // Don't leave a partial offset, which could refer to a different line.
+        SetFilePointer(m_handle_removals, offset, nullptr, FILE_BEGIN);
+        SetEndOfFile(m_handle_removals);
+        return false;
     }
     else
     {
-- 
2.43.0


From 766ac0eb573e21b1261a1913fbd468a2c163cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:48 +0000
Subject: [PATCH 106/149] fix: prompt filters from a clinkprompt's dependencies
 never run

---
 clink/app/scripts/prompt.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/scripts/prompt.lua b/clink/app/scripts/prompt.lua
index 6fe4440..11ed934 100644
--- a/clink/app/scripts/prompt.lua
+++ b/clink/app/scripts/prompt.lua
@@ -93,7 +93,7 @@ local function ipairs_active(list)
         while value and
                 value._clinkprompt_module and
                 value._clinkprompt_module ~= clinkprompt_module and
-                not clinkprompt_dependson[value._clinkprompt_module] do
+                not clinkprompt_dependson[value._clinkprompt_basename] do
             i = i + 1
             value = list[i]
         end
-- 
2.43.0


From 68a6d77c24786599212f153c89ef31533b0310a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:48 +0000
Subject: [PATCH 107/149] fix: event handlers from a clinkprompt's dependencies
 never run

---
 clink/lua/scripts/events.lua | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/clink/lua/scripts/events.lua b/clink/lua/scripts/events.lua
index 007b3ed..5daa19d 100644
--- a/clink/lua/scripts/events.lua
+++ b/clink/lua/scripts/events.lua
@@ -33,14 +33,17 @@ end
 --------------------------------------------------------------------------------
 local function ipairs_active(list)
     local i = 0
-    local _, clinkprompt_module
+    local _, clinkprompt_module, dependson
     if clink.getclinkprompt then
-        _, _, clinkprompt_module = clink.getclinkprompt()
+        _, _, clinkprompt_module, dependson = clink.getclinkprompt()
     end
     return function()
         i = i + 1
         local value = list[i]
-        while value and value._clinkprompt_module and value._clinkprompt_module ~= clinkprompt_module do
+        while value and
+                value._clinkprompt_module and
+                value._clinkprompt_module ~= clinkprompt_module and
+                not (dependson and dependson[value._clinkprompt_basename]) do
             i = i + 1
             value = list[i]
         end
@@ -185,7 +188,10 @@ local function _add_event_callback(event, func)
                                  internal._get_clinkprompt_wrapping_module())
         -- Add entry.
         local entry = { func=func }
-        entry._clinkprompt_module = wrapping_module
+        if wrapping_module then
+            entry._clinkprompt_module = wrapping_module
+            entry._clinkprompt_basename = path.getbasename(wrapping_module)
+        end
         table.insert(callbacks, entry)
     end
 end
-- 
2.43.0


From abf9538ed2bd706d41c37a68f7e00275077fe9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:48 +0000
Subject: [PATCH 108/149] fix: activating a clinkprompt by name doesn't run its
 prompt filters

---
 clink/app/scripts/prompt.lua | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/clink/app/scripts/prompt.lua b/clink/app/scripts/prompt.lua
index 11ed934..6ee3c56 100644
--- a/clink/app/scripts/prompt.lua
+++ b/clink/app/scripts/prompt.lua
@@ -21,6 +21,7 @@ end
 -- luacheck: no max line length
 local prompt_filter_current = nil       -- Current running prompt filter.
 local prompt_filter_coroutines = {}     -- Up to one coroutine per prompt filter, with cached return value.
+local requested_clinkprompt = ""        -- Name used to request the currently active .clinkprompt module.
 local active_clinkprompt = ""           -- Currently active .clinkprompt module, or "" if none.
 local clinkprompt_exports = nil         -- Export table from active .clinkprompt module (may be nil).
 local clinkprompt_module = ""           -- Lowercase copy of active_clinkprompt, for module comparisons.
@@ -478,20 +479,27 @@ end
 function clink._internal._activate_clinkprompt_module(module)
     local new_clinkprompt = module or ""
     new_clinkprompt = new_clinkprompt:gsub('"', ''):gsub('%s+$', '')
-    if active_clinkprompt == new_clinkprompt then
+    if requested_clinkprompt == new_clinkprompt then
         return clinkprompt_exports
     end
 
     local ret
     local old_clinkprompt_exports = clinkprompt_exports
 
-    active_clinkprompt = new_clinkprompt
+    -- Get the full path name, because prompt filters and event handlers refer
+    -- to their module by its full path name.
+    local file
+    if new_clinkprompt ~= "" then
+        file = clink.getprompts(new_clinkprompt)
+    end
+
+    requested_clinkprompt = new_clinkprompt
+    active_clinkprompt = file or new_clinkprompt
     clinkprompt_exports = nil
-    clinkprompt_module = clink.lower(new_clinkprompt)
+    clinkprompt_module = clink.lower(active_clinkprompt)
     clinkprompt_dependson = {}
 
     if new_clinkprompt ~= "" then
-        local file = clink.getprompts(new_clinkprompt)
         if not file then
             return "Unable to find custom prompt '"..new_clinkprompt.."'."
         end
-- 
2.43.0


From f88ae8d997e3dd73e4181c6f9ddd2623ef7a7e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:48 +0000
Subject: [PATCH 109/149] fix: ondeactivate isn't called when the next
 clinkprompt fails to load

---
 clink/app/scripts/prompt.lua | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/clink/app/scripts/prompt.lua b/clink/app/scripts/prompt.lua
index 6ee3c56..16fefd4 100644
--- a/clink/app/scripts/prompt.lua
+++ b/clink/app/scripts/prompt.lua
@@ -475,6 +475,13 @@ end
 
 
 
+--------------------------------------------------------------------------------
+local function deactivate(exports)
+    if exports and type(exports.ondeactivate) == "function" then
+        exports.ondeactivate()
+    end
+end
+
 --------------------------------------------------------------------------------
 function clink._internal._activate_clinkprompt_module(module)
     local new_clinkprompt = module or ""
@@ -501,11 +508,13 @@ function clink._internal._activate_clinkprompt_module(module)
 
     if new_clinkprompt ~= "" then
         if not file then
+            deactivate(old_clinkprompt_exports)
             return "Unable to find custom prompt '"..new_clinkprompt.."'."
         end
 
         local ok, err = pcall(function() ret = require(file) end)
         if not ok or type(ret) == "string" then
+            deactivate(old_clinkprompt_exports)
             local msg = err or (type(ret) == "string" and ret) or nil
             msg = msg and msg.."\n" or ""
             msg = msg.."Error while activating custom prompt '"..new_clinkprompt.."'."
@@ -513,11 +522,7 @@ function clink._internal._activate_clinkprompt_module(module)
         end
     end
 
-    if old_clinkprompt_exports then
-        if type(old_clinkprompt_exports.ondeactivate) == "function" then
-            old_clinkprompt_exports.ondeactivate()
-        end
-    end
+    deactivate(old_clinkprompt_exports)
 
     if type(ret) == "table" then
         clinkprompt_exports = ret
-- 
2.43.0


From 80b791fd02c17922b20926942909ca77bd37be16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:48 +0000
Subject: [PATCH 110/149] fix: prompt codes in the current directory name
 garble the shell integration codes

---
 clink/app/scripts/prompt.lua | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clink/app/scripts/prompt.lua b/clink/app/scripts/prompt.lua
index 16fefd4..9f7b17f 100644
--- a/clink/app/scripts/prompt.lua
+++ b/clink/app/scripts/prompt.lua
@@ -231,6 +231,10 @@ local function _do_filter_prompt(type, prompt, rprompt, line, cursor, final)
     -- Shell integration codes.
     -- https://learn.microsoft.com/en-us/windows/terminal/tutorials/shell-integration
     -- https://gitlab.freedesktop.org/Per_Bothner/specifications/blob/master/proposals/semantic-prompts.md
+    -- Expand prompt codes first, because the shell integration codes aren't
+    -- prompt codes (e.g. the name of the current directory can contain "$").
+    pre = internal._expand_prompt_codes(pre)
+    suf = internal._expand_prompt_codes(suf)
     if ret then
         if not has_ftsc(ret, "9;9") then
             pre = internal._make_ftsc("9;9") .. pre     -- Current Working Directory
@@ -255,9 +259,9 @@ local function _do_filter_prompt(type, prompt, rprompt, line, cursor, final)
         local leading, trailing = ret:match("^(.*\n)([^\n]+)$")
         local pieces = {
             (leading or ""),
-            internal._expand_prompt_codes(pre),
+            pre,
             (trailing or ret),
-            internal._expand_prompt_codes(suf),
+            suf,
         }
         ret = table.concat(pieces)
     end
-- 
2.43.0


From 997f55b881d3344f05455bf35b3586ba2134236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:28 +0000
Subject: [PATCH 111/149] fix: removing an unquoted clink autorun entry also
 removes the commands before it

---
 clink/app/src/loader/autorun.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index b5d4ba5..6f3cec1 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -259,7 +259,7 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
             // Check if clink's path is quoted.  Checking the needle makes
             // sure not to get tricked by a false positive from something else
             // later on in the value.
-            quoted = !!strchr(needles[i], ' ');
+            quoted = !!strchr(needles[i], '\"');
             break;
         }
     }
-- 
2.43.0


From 4835fd756c1f0067d7ae6572a2b99a66bb848acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:28 +0000
Subject: [PATCH 112/149] fix: removing a clink autorun entry leaves text after
 a quoted ampersand in its arguments

---
 clink/app/src/loader/autorun.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 6f3cec1..90a4b82 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -268,11 +268,16 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
         return false;
 
     // Find right most extents of clink's entry.
-    c = strchr(tag, '&');
-    if (c != nullptr)
-        *right = (int32)(c - value);
-    else
-        *right = (int32)strlen(value);
+    // The entry's arguments can contain quoted ampersands.
+    bool in_quote = false;
+    for (c = tag + strlen(needles[i]); *c; ++c)
+    {
+        if (*c == '\"')
+            in_quote = !in_quote;
+        else if (*c == '&' && !in_quote)
+            break;
+    }
+    *right = (int32)(c - value);
 
     // When enumerating users, only respond to entries referencing /this/
     // instance of clink.
-- 
2.43.0


From 4ba0141157c8c256a35e5e347fc43b1cdc5966a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:28 +0000
Subject: [PATCH 113/149] fix: autorun passes negative values to isspace

---
 clink/app/src/loader/autorun.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 90a4b82..7d32ccf 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -328,7 +328,7 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
 //------------------------------------------------------------------------------
 static const char* get_cmd_start(const char* cmd)
 {
-    while (isspace(*cmd) || *cmd == '&')
+    while (isspace(uint8(*cmd)) || *cmd == '&')
     {
         ++cmd;
     }
-- 
2.43.0


From f4348815667dc02a0437f70bfce9c1f3e284b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:28 +0000
Subject: [PATCH 114/149] fix: autorun install cuts off long arguments

---
 clink/app/src/loader/autorun.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 7d32ccf..651655e 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -448,7 +448,7 @@ static bool install_autorun(const char* clink_path, int32 wow64)
     get_value(cmd_proc_key, "AutoRun", &key_value);
 
     i = key_value ? (int32)strlen(key_value) : 0;
-    i += 2048;
+    i += 2048 + g_clink_args.length();
     str_base new_value((char*)malloc(i), i);
     new_value.clear();
 
-- 
2.43.0


From 5c533c9a3e133e3d6ffce19fea818e6ff3859c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:42 +0000
Subject: [PATCH 115/149] fix: autorun install doesn't quote arguments that
 contain special characters

---
 clink/app/src/loader/autorun.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 651655e..f3b4934 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -570,7 +570,7 @@ static void success_message(const char* message)
 }
 
 //------------------------------------------------------------------------------
-static bool safe_append_quoted(str_base& s, const char* append)
+static bool safe_append_quoted(str_base& s, const char* append, bool is_command)
 {
     // https://devblogs.microsoft.com/oldnewthing/20100917-00/?p=12833
     // https://docs.microsoft.com/en-us/archive/blogs/twistylittlepassagesallalike/everyone-quotes-command-line-arguments-the-wrong-way
@@ -592,7 +592,10 @@ static bool safe_append_quoted(str_base& s, const char* append)
 
     unsigned backslashes = 0;
 
-    if (space)
+    // An argument for clink must not contain anything cmd.exe would interpret.
+    const bool quote = (space || (!is_command && !strchr(append, '\"') && strpbrk(append, "&|<>^")));
+
+    if (quote)
     {
         for (const char* end = append + strlen(append); end-- > append && *end == '\\';)
             ++backslashes;
@@ -601,7 +604,7 @@ static bool safe_append_quoted(str_base& s, const char* append)
 
     s << append;
 
-    if (space)
+    if (quote)
     {
         while (backslashes--)
             s << "\\";
@@ -675,7 +678,7 @@ int32 autorun(int32 argc, char** argv)
     {
         for (int32 i = optind; i < argc; ++i)
         {
-            if (!safe_append_quoted(g_clink_args, argv[i]))
+            if (!safe_append_quoted(g_clink_args, argv[i], function == set_autorun_value))
             {
                 printf("ERROR: Invalid quoting for argument '%s'.\n", argv[i]);
                 puts("Is a backslash missing?  On Windows, double backslashes before a quote.");
-- 
2.43.0


From 8d8a83e59d1d8aabb764f73deb8b97cae6026a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:18 +0000
Subject: [PATCH 116/149] fix: exhausted :nofiles() argmatcher offers an
 earlier argument position again

---
 clink/lua/scripts/arguments.lua | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 41269a1..c65b0d1 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1123,11 +1123,13 @@ function _argreader:_pop(next_is_flag)
         return false
     end
 
+    local popped = false
     while #self._stack > 0 do
         if self._matcher and self._matcher._no_file_generation then
             -- :nofiles() dead-ends the parser.
-            return false
+            return popped
         end
+        popped = true
 
         -- Since self._arginfo can be nil, the extents of the table must now
         -- be specified explicitly (..., 1, 6).
-- 
2.43.0


From fa6072e5c988c8c7d7211b21bab1ad174ee1e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:18 +0000
Subject: [PATCH 117/149] fix: argmatcher callbacks get the parent matcher's
 user_data at the last position

---
 clink/lua/scripts/arguments.lua | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index c65b0d1..b33ce97 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -497,7 +497,7 @@ function _argreader:next_word(always_last_word)
 end
 
 --------------------------------------------------------------------------------
-function _argreader:lookup_link(arg, arg_index, word, word_index, line_state)
+function _argreader:lookup_link(arg, arg_index, word, word_index, line_state, user_data)
     if word and arg then
         local link, forced
 
@@ -515,7 +515,7 @@ function _argreader:lookup_link(arg, arg_index, word, word_index, line_state)
         end
 
         if arg.onlink then
-            local override = arg.onlink(link, arg_index, word, word_index, line_state, self._user_data)
+            local override = arg.onlink(link, arg_index, word, word_index, line_state, user_data)
             if override == false then
                 link = nil
                 forced = true
@@ -662,7 +662,7 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
             word:find("..[:=]$") then
         -- Check if the word does not link to another matcher.
         local flagarg = self._matcher._flags._args[1]
-        if not self:lookup_link(flagarg, 0, word, word_index, line_state) then
+        if not self:lookup_link(flagarg, 0, word, word_index, line_state, self._user_data) then
             -- Check if the next word is adjacent.
             local thiswordinfo = line_state:getwordinfo(word_index)
             local nextwordinfo = line_state:getwordinfo(word_index + 1)
@@ -741,7 +741,7 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
                             -- Note: _word_classifier and _need_arginfo are mutually exclusive.
                             if self._word_classifier then
                                 if not self._extra then
-                                    self:classify_word(is_flag, self._arg_index, realmatcher, word, word_index, arg, arg_match_type, end_flags)
+                                    self:classify_word(is_flag, self._arg_index, realmatcher, word, word_index, arg, arg_match_type, end_flags, self._user_data)
                                 end
                             elseif self._need_arginfo then
                                 self._arginfo = get_word_arginfo(word, arg, realmatcher)
@@ -787,6 +787,7 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
     -- Update matcher after possible _push.
     matcher = self._matcher
     realmatcher = self._realmatcher
+    local user_data = self._user_data -- Remember it because _pop can change it.
     local arg_index = self._arg_index
     local arg = matcher._args[arg_index]
 
@@ -808,7 +809,7 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
                 -- preceding flag depending on what the word is.
                 self._match_builder:setvolatile()
             end
-            react, react_modes, reacthint = arg.onadvance(arg_index, word, word_index, line_state, self._user_data)
+            react, react_modes, reacthint = arg.onadvance(arg_index, word, word_index, line_state, user_data)
             if react then
                 -- 1 = Ignore; advance to next arg_index.
                 -- 0 = Repeat; stay on the arg_index.
@@ -825,14 +826,14 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
                 not last_onadvance and
                 not (self._extra and self._extra.no_onalias) and
                 self:has_more_words(word_index) then
-            local expanded, chain, chainhint = arg.onalias(arg_index, word, word_index, line_state, self._user_data)
+            local expanded, chain, chainhint = arg.onalias(arg_index, word, word_index, line_state, user_data)
             if expanded then
                 local line_states = clink.parseline(expanded)
                 if line_states and line_states[1].line_state then
                     -- Note: _word_classifier and _need_arginfo are mutually exclusive.
                     if self._word_classifier then
                         if not self._extra then
-                            self:classify_word(is_flag, arg_index, realmatcher, word, word_index, arg, arg_match_type, end_flags)
+                            self:classify_word(is_flag, arg_index, realmatcher, word, word_index, arg, arg_match_type, end_flags, user_data)
                         end
                     elseif self._need_arginfo then
                         self._arginfo = get_word_arginfo(word, arg, realmatcher)
@@ -951,7 +952,7 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
     -- Note: _word_classifier and _need_arginfo are mutually exclusive.
     if self._word_classifier then
         if not self._extra then
-            self:classify_word(is_flag, arg_index, realmatcher, word, word_index, arg, arg_match_type, end_flags)
+            self:classify_word(is_flag, arg_index, realmatcher, word, word_index, arg, arg_match_type, end_flags, user_data)
         end
     elseif self._need_arginfo then
         self._arginfo = get_word_arginfo(word, arg, realmatcher)
@@ -974,11 +975,11 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
     -- BEFORE onarg, otherwise for example onarg can change the current
     -- directory before classify_word has a chance to process the word.
     if not is_flag and arg.onarg then
-        arg.onarg(arg_index, word, word_index, line_state, self._user_data)
+        arg.onarg(arg_index, word, word_index, line_state, user_data)
     end
 
     -- Does the word lead to another matcher?
-    local linked, forced = self:lookup_link(arg, is_flag and 0 or arg_index, word, word_index, line_state)
+    local linked, forced = self:lookup_link(arg, is_flag and 0 or arg_index, word, word_index, line_state, user_data)
     if linked then
         if not forced and is_flag and word:match("..[:=]$") then
             local info = line_state:getwordinfo(word_index)
@@ -1006,10 +1007,10 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
 end
 
 --------------------------------------------------------------------------------
-function _argreader:classify_word(is_flag, arg_index, realmatcher, word, word_index, arg, arg_match_type, end_flags)
+function _argreader:classify_word(is_flag, arg_index, realmatcher, word, word_index, arg, arg_match_type, end_flags, user_data)
     local aidx = is_flag and 0 or arg_index
     local line_state = self._line_state
-    if realmatcher._classify_func and realmatcher._classify_func(aidx, word, word_index, line_state, self._word_classifier, self._user_data) then -- luacheck: ignore 542
+    if realmatcher._classify_func and realmatcher._classify_func(aidx, word, word_index, line_state, self._word_classifier, user_data) then -- luacheck: ignore 542
         -- The classifier function says it handled the word.
     else
         -- Use the argmatcher's data to classify the word.
-- 
2.43.0


From 9dcc115fc279113b74e5678a6d5b4b1ea426e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:21 +0000
Subject: [PATCH 118/149] fix: _argmatcher:reset() doesn't clear all of the
 argmatcher's settings

---
 clink/lua/scripts/arguments.lua | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index b33ce97..7072f92 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1333,6 +1333,12 @@ function _argmatcher:reset()
     self._nextargindex = 1
     self._loop = nil
     self._no_file_generation = nil
+    self._flagsanywhere = nil
+    self._endofflags = nil
+    self._chain_command = nil
+    self._chain_command_mode = nil
+    self._chain_command_hint = nil
+    self._chain_command_expand_aliases = nil
     self._cmd_command = nil
     self._classify_func = nil
     self._init_coroutine = nil
-- 
2.43.0


From d7b23d4b17fd553c512aa8278cbec1dc27ff8178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:21 +0000
Subject: [PATCH 119/149] fix: error from linked flags after hideflags()

---
 clink/lua/scripts/arguments.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 7072f92..3270715 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1487,7 +1487,7 @@ end
 --- works in <a href="#_argmatcher:addarg">_argmatcher:addarg()</a> as well).
 function _argmatcher:hideflags(...)
     local flag_matcher = self._flags or _argmatcher()
-    local args = flag_matcher._args[1] or {}
+    local args = flag_matcher._args[1] or { _links = {} }
     local list = args.hidden or {}
 
     flag_matcher:_hide(list, {...})
-- 
2.43.0


From ba09b698fc2afc59e1208b1b0af2c49e8e3b405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:21 +0000
Subject: [PATCH 120/149] fix: error from merging links into an argmatcher that
 has no arguments

---
 clink/lua/scripts/arguments.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 3270715..d33250a 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1928,7 +1928,7 @@ local function merge_parsers(lhs, rhs)
     -- Get reference to the LHS's first argument table (creating it if needed).
     local lhs_arg_1 = lhs._args[1]
     if lhs_arg_1 == nil then
-        lhs_arg_1 = {}
+        lhs_arg_1 = { _links = {} }
         lhs._args[1] = lhs_arg_1
     end
 
-- 
2.43.0


From 9aeccf9cf979351b2aabafd12ccdf400a22662dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:21 +0000
Subject: [PATCH 121/149] fix: merging argmatchers loses the links of flags

---
 clink/lua/scripts/arguments.lua | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index d33250a..90184bf 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1901,6 +1901,7 @@ local function add_merge_source(matcher, src)
 end
 
 --------------------------------------------------------------------------------
+local merge_or_assign
 local function merge_parsers(lhs, rhs)
     -- Merging parsers is not a trivial matter and this implementation is far
     -- from correct.  It behaves reasonably for common cases.
@@ -1915,7 +1916,13 @@ local function merge_parsers(lhs, rhs)
 
     -- Merge flags.
     if rhs._flags then
-        lhs:addflags(rhs._flags._args[1])
+        local rhs_flags = rhs._flags._args[1]
+        lhs:addflags(rhs_flags)
+        -- The flags themselves were added above; now add their links.
+        local lhs_flags = lhs._flags._args[1]
+        for key, matcher in pairs(rhs_flags._links or {}) do
+            lhs_flags._links[key] = merge_or_assign(lhs_flags._links[key], matcher)
+        end
     end
 
     -- Get the first argument in RHS.  Merging is only applied to the first
@@ -1976,7 +1983,7 @@ local function merge_parsers(lhs, rhs)
 end
 
 --------------------------------------------------------------------------------
-local function merge_or_assign(lhs, rhs)
+merge_or_assign = function(lhs, rhs)
     if lhs then
         merge_parsers(lhs, rhs)
         return lhs
-- 
2.43.0


From 004918048fc184d62cc509c9dd2b13cc25733c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 122/149] fix: async task threads race with the main thread and
 discard callbacks

---
 clink/lua/src/async_lua_task.cpp | 37 +++++++++++++++-----------------
 clink/lua/src/async_lua_task.h   |  7 +++---
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/clink/lua/src/async_lua_task.cpp b/clink/lua/src/async_lua_task.cpp
index d0f170f..269c591 100644
--- a/clink/lua/src/async_lua_task.cpp
+++ b/clink/lua/src/async_lua_task.cpp
@@ -16,6 +16,7 @@
 #include <readline/readline.h>
 
 #include <map>
+#include <vector>
 
 //------------------------------------------------------------------------------
 class task_manager
@@ -93,6 +94,9 @@ bool task_manager::add(const std::shared_ptr<async_lua_task>& task)
 //------------------------------------------------------------------------------
 void task_manager::on_idle(lua_state& lua)
 {
+    // Callbacks may add tasks, so remove the completed tasks before running any
+    // callbacks.
+    std::vector<std::shared_ptr<async_lua_task>> completed;
     auto iter = m_map.begin();
     while (iter != m_map.end())
     {
@@ -102,15 +106,19 @@ void task_manager::on_idle(lua_state& lua)
         }
         else
         {
-            iter->second->run_callback(lua);
-            iter->second->detach();
-            auto callback = iter->second->take_callback();
-            if (callback)
-                m_unref_callbacks.push_back(std::move(callback));
+            completed.push_back(iter->second);
             iter = m_map.erase(iter);
         }
     }
 
+    for (const auto& task : completed)
+    {
+        task->run_callback(lua);
+        auto callback = task->take_callback();
+        if (callback)
+            m_unref_callbacks.push_back(std::move(callback));
+    }
+
     lua_State* state = lua.get_state();
     for (auto callback : m_unref_callbacks)
         luaL_unref(state, LUA_REGISTRYINDEX, callback->m_ref);
@@ -132,7 +140,7 @@ void task_manager::end_line()
         else
         {
             dbg_ignore_scope(snapshot, "task_manager");
-            iter->second->detach();
+            iter->second->cancel();
             auto callback = iter->second->take_callback();
             if (callback)
             {
@@ -203,7 +211,7 @@ void task_manager::shutdown(bool final)
 
     for (auto &iter : m_map)
     {
-        iter.second->detach();
+        iter.second->cancel();
         // Shutting down, so don't need to worry about Lua leaks.
         (void)iter.second->take_callback();
     }
@@ -299,19 +307,9 @@ void async_lua_task::wake_asyncyield() const
 //------------------------------------------------------------------------------
 void async_lua_task::start()
 {
+    // The thread holds a reference to the task for as long as it runs.
     auto task = shared_from_this();
-    m_thread = std::make_unique<std::thread>(&proc, std::move(task));
-}
-
-//------------------------------------------------------------------------------
-void async_lua_task::detach()
-{
-    cancel();
-    if (m_thread)
-    {
-        m_thread->detach();
-        m_thread.reset();
-    }
+    std::thread(&proc, std::move(task)).detach();
 }
 
 //------------------------------------------------------------------------------
@@ -319,7 +317,6 @@ void async_lua_task::proc(std::shared_ptr<async_lua_task> task)
 {
     task->do_work();
     task->m_is_complete = true;
-    task->detach();
     SetEvent(task->m_event);
     SetEvent(get_task_manager_event());
 }
diff --git a/clink/lua/src/async_lua_task.h b/clink/lua/src/async_lua_task.h
index ad1b952..1aa7d2e 100644
--- a/clink/lua/src/async_lua_task.h
+++ b/clink/lua/src/async_lua_task.h
@@ -5,6 +5,7 @@
 
 #include <core/str.h>
 
+#include <atomic>
 #include <memory>
 #include <thread>
 
@@ -72,21 +73,19 @@ protected:
 
 private:
     void                    start();
-    void                    detach();
     bool                    is_run_until_complete() const { return m_run_until_complete; }
     static void             proc(std::shared_ptr<async_lua_task> task);
 
 private:
     HANDLE                  m_event;
-    std::unique_ptr<std::thread> m_thread;
     str_moveable            m_key;
     str_moveable            m_src;
     async_yield_lua*        m_asyncyield = nullptr;
     std::shared_ptr<callback_ref> m_callback_ref;
     const bool              m_run_until_complete = false;
     bool                    m_run_callback = false;
-    bool                    m_is_complete = false;
-    volatile bool           m_is_canceled = false;
+    std::atomic<bool>       m_is_complete { false };
+    std::atomic<bool>       m_is_canceled { false };
 };
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From ad14f52200d0b579a13ee217c5f8982308de912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 123/149] fix: use after free when a coroutine is dropped
 during an async operation

---
 clink/lua/src/async_lua_task.cpp |  7 ++++---
 clink/lua/src/async_lua_task.h   | 11 +++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/clink/lua/src/async_lua_task.cpp b/clink/lua/src/async_lua_task.cpp
index 269c591..e73230b 100644
--- a/clink/lua/src/async_lua_task.cpp
+++ b/clink/lua/src/async_lua_task.cpp
@@ -240,7 +240,8 @@ async_lua_task::~async_lua_task()
 void async_lua_task::set_asyncyield(async_yield_lua* asyncyield)
 {
     assert(!m_callback_ref);
-    m_asyncyield = asyncyield;
+    if (asyncyield)
+        m_asyncyield = asyncyield->get_ready_flag();
 }
 
 //------------------------------------------------------------------------------
@@ -296,7 +297,7 @@ void async_lua_task::wake_asyncyield() const
         return;
 
     // Signal the coroutine is ready to resume.
-    m_asyncyield->set_ready();
+    *m_asyncyield = true;
 
     // Signal to run idle.
     HANDLE h = lua_input_idle::get_idle_event();
@@ -356,7 +357,7 @@ int32 async_yield_lua::get_expiration(lua_State* state)
 //------------------------------------------------------------------------------
 int32 async_yield_lua::ready(lua_State* state)
 {
-    lua_pushboolean(state, m_ready);
+    lua_pushboolean(state, *m_ready);
     return 1;
 }
 
diff --git a/clink/lua/src/async_lua_task.h b/clink/lua/src/async_lua_task.h
index 1aa7d2e..26c53b3 100644
--- a/clink/lua/src/async_lua_task.h
+++ b/clink/lua/src/async_lua_task.h
@@ -27,8 +27,11 @@ public:
                             ~async_yield_lua();
 
     bool                    is_expired() const;
-    void                    set_ready() { m_ready = true; }
-    void                    clear_ready() { m_ready = false; }
+    void                    clear_ready() { *m_ready = false; }
+
+    // The flag is shared with the thread that sets it, because the Lua object
+    // can be garbage collected while the thread is still running.
+    const std::shared_ptr<std::atomic<bool>>& get_ready_flag() const { return m_ready; }
 
 protected:
     int32                   get_name(lua_State* state);
@@ -38,7 +41,7 @@ protected:
 private:
     str_moveable            m_name;
     double                  m_expiration = 0.0;
-    bool                    m_ready = false;
+    std::shared_ptr<std::atomic<bool>> m_ready = std::make_shared<std::atomic<bool>>(false);
 
     friend class lua_bindable<async_yield_lua>;
     static const char* const c_name;
@@ -80,7 +83,7 @@ private:
     HANDLE                  m_event;
     str_moveable            m_key;
     str_moveable            m_src;
-    async_yield_lua*        m_asyncyield = nullptr;
+    std::shared_ptr<std::atomic<bool>> m_asyncyield;
     std::shared_ptr<callback_ref> m_callback_ref;
     const bool              m_run_until_complete = false;
     bool                    m_run_callback = false;
-- 
2.43.0


From 57da81d7303f09a48db7b28c0c13f68af9a6c1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 124/149] fix: async operations can complete unnoticed and
 never resume their coroutine

---
 clink/lua/src/async_lua_task.cpp |  1 +
 clink/lua/src/http_api.cpp       |  8 ++++----
 clink/lua/src/internal_api.cpp   |  1 -
 clink/lua/src/os_api.cpp         | 14 ++++++++------
 4 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/clink/lua/src/async_lua_task.cpp b/clink/lua/src/async_lua_task.cpp
index e73230b..aafc6a1 100644
--- a/clink/lua/src/async_lua_task.cpp
+++ b/clink/lua/src/async_lua_task.cpp
@@ -318,6 +318,7 @@ void async_lua_task::proc(std::shared_ptr<async_lua_task> task)
 {
     task->do_work();
     task->m_is_complete = true;
+    task->wake_asyncyield();
     SetEvent(task->m_event);
     SetEvent(get_task_manager_event());
 }
diff --git a/clink/lua/src/http_api.cpp b/clink/lua/src/http_api.cpp
index a4b5c44..dc3c042 100644
--- a/clink/lua/src/http_api.cpp
+++ b/clink/lua/src/http_api.cpp
@@ -431,7 +431,6 @@ void httprequest_async_lua_task::do_work()
     {
         m_response_info.win32_error = GetLastError();
 final_ret:
-        wake_asyncyield();
         return;
     }
 
@@ -614,13 +613,14 @@ int32 httprequest_lua::continuation(lua_State* state)
         return 0;
     }
 
+    // Clear ready before checking, so that becoming complete afterwards makes
+    // it ready again.
+    async->clear_ready();
+
     // If complete then return the results.
     if (self->m_task->is_complete())
         return self->m_task->result(state);
 
-    // Result is not available yet.
-    async->clear_ready();
-
     // Yielding; set asyncyield.
     lua_state::push_named_function(state, "clink._internal._set_coroutine_asyncyield");
     lua_pushvalue(state, ctx + 1);
diff --git a/clink/lua/src/internal_api.cpp b/clink/lua/src/internal_api.cpp
index 58cc3e4..c4aeaed 100644
--- a/clink/lua/src/internal_api.cpp
+++ b/clink/lua/src/internal_api.cpp
@@ -369,7 +369,6 @@ private:
 void unzip_async_lua_task::do_work()
 {
     m_hr = os::shell_unzip(m_zip.c_str(), m_dest.c_str(), m_err_msg);
-    wake_asyncyield();
 }
 
 class unzip_lua
diff --git a/clink/lua/src/os_api.cpp b/clink/lua/src/os_api.cpp
index 573cdf7..debcb3c 100644
--- a/clink/lua/src/os_api.cpp
+++ b/clink/lua/src/os_api.cpp
@@ -1451,8 +1451,6 @@ wake_asyncyield();
             wake_asyncyield();
         }
     };
-
-    wake_asyncyield();
 }
 
 #endif
@@ -1498,6 +1496,12 @@ int32 enumshares_lua::iter_aux(lua_State* state)
     if (!self)
         return 0;
 
+    // Clear ready and check whether complete before fetching the next share, so
+    // that no share or completion can go unnoticed in between.
+    if (async)
+        async->clear_ready();
+    const bool complete = self->m_task->is_complete();
+
     str<> out;
     bool special = false;
     if (self->m_task->next(out, &special))
@@ -1517,14 +1521,12 @@ int32 enumshares_lua::iter_aux(lua_State* state)
         self->m_task->cancel();
         return 0;
     }
-    else if (!self->m_task->is_complete() && !self->m_task->is_canceled())
+    else if (!complete && !self->m_task->is_canceled())
     {
+        // No more shares available yet.
         assert(!is_main_coroutine(state));
         assert(async);
 
-        // No more shares available yet.
-        async->clear_ready();
-
         // Yielding; set asyncyield.
         lua_state::push_named_function(state, "clink._internal._set_coroutine_asyncyield");
         lua_pushvalue(state, lua_upvalueindex(1));
-- 
2.43.0


From 583a0c0a56ccb2a49a54c0eed30591ba55a7b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 125/149] fix: os.enumshares ignores its hidden argument

---
 clink/lua/src/os_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/src/os_api.cpp b/clink/lua/src/os_api.cpp
index debcb3c..2100f84 100644
--- a/clink/lua/src/os_api.cpp
+++ b/clink/lua/src/os_api.cpp
@@ -1428,7 +1428,7 @@ void enumshares_async_lua_task::do_work()
                 for (PSHARE_INFO_1 info = buffer; entries_read--; ++info)
                 {
                     const bool special = !!(info->shi1_type & STYPE_SPECIAL);
-                    if (special && !g_files_hidden.get())
+                    if (special && !m_hidden)
                         continue;
                     if ((info->shi1_type & STYPE_MASK) == STYPE_DISKTREE)
                     {
-- 
2.43.0


From a15c74d771a41f7c6ccf5a7a38960f044d1c629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 126/149] fix: http.request garbles bodies received in pieces,
 and leaks

---
 clink/lua/src/http_api.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/clink/lua/src/http_api.cpp b/clink/lua/src/http_api.cpp
index dc3c042..ec1445a 100644
--- a/clink/lua/src/http_api.cpp
+++ b/clink/lua/src/http_api.cpp
@@ -470,6 +470,8 @@ close_connect:
     if (m_body_len == DWORD(-1))
     {
         m_response_info.win32_error = ERROR_INVALID_DATA;
+close_request:
+        s_winhttp.WinHttpCloseHandle(hRequest);
         goto close_connect;
     }
 
@@ -485,7 +487,7 @@ close_connect:
         if (!ok || headers.length() > 0x7fff)
         {
             m_response_info.win32_error = ERROR_INVALID_PARAMETER;
-            goto close_connect;
+            goto close_request;
         }
     }
 
@@ -494,9 +496,7 @@ close_connect:
     if (!bResults)
     {
         m_response_info.win32_error = GetLastError();
-close_request:
-        s_winhttp.WinHttpCloseHandle(hRequest);
-        goto close_connect;
+        goto close_request;
     }
 
     bResults = s_winhttp.WinHttpReceiveResponse(hRequest, NULL);
@@ -509,20 +509,19 @@ close_request:
     m_response_info.init(hRequest);
 
     constexpr uint32 c_block_size = 4096;
-    std::vector<char*> blocks;
-    char* block = nullptr;
+    std::vector<std::unique_ptr<char[]>> blocks;
     DWORD available = 0;
 
     while (!is_canceled())
     {
         if (!available)
         {
-            block = static_cast<char*>(malloc(c_block_size));
+            blocks.emplace_back(new char[c_block_size]);
             available = c_block_size;
-            blocks.emplace_back(block);
         }
 
         DWORD dwDownloaded = 0;
+        char* const block = blocks.back().get() + (c_block_size - available);
         if (!s_winhttp.WinHttpReadData(hRequest, block, available, &dwDownloaded))
         {
             m_response_info.win32_error = GetLastError();
@@ -532,7 +531,7 @@ close_request:
         // Finished reading all data.
         if (!dwDownloaded)
         {
-            m_result_buffer = static_cast<char*>(malloc(m_result_size));
+            m_result_buffer = static_cast<char*>(malloc(max<size_t>(m_result_size, 1)));
             if (!m_result_buffer)
             {
                 m_response_info.win32_error = ERROR_NOT_ENOUGH_MEMORY;
@@ -544,7 +543,7 @@ close_request:
             for (const auto& block : blocks)
             {
                 const size_t to_copy = min<size_t>(c_block_size, remaining);
-                memcpy(write, block, to_copy);
+                memcpy(write, block.get(), to_copy);
                 write += to_copy;
                 remaining -= to_copy;
             }
@@ -557,6 +556,9 @@ close_request:
         available -= dwDownloaded;
         m_result_size += dwDownloaded;
     }
+
+    // Canceled.
+    goto close_request;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 5f06439a75006893ce8eedbf61b8f05fdf7ae0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 127/149] fix: simultaneous first http.request calls fail

---
 clink/lua/src/http_api.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/clink/lua/src/http_api.cpp b/clink/lua/src/http_api.cpp
index ec1445a..d9b03bc 100644
--- a/clink/lua/src/http_api.cpp
+++ b/clink/lua/src/http_api.cpp
@@ -15,6 +15,10 @@
 #include <core/debugheap.h>
 #include <assert.h>
 
+#include <memory>
+#include <mutex>
+#include <vector>
+
 #include <winhttp.h>
 #include <VersionHelpers.h>
 
@@ -49,7 +53,7 @@ public:
     BOOL                WinHttpQueryDataAvailable(HINTERNET hRequest, LPDWORD lpdwNumberOfBytesAvailable);
     BOOL                WinHttpReadData(HINTERNET hRequest, LPVOID lpBuffer, DWORD dwNumberOfBytesToRead, LPDWORD lpdwNumberOfBytesRead);
 private:
-    bool                m_initialized = false;
+    std::once_flag      m_initialized;
     bool                m_ok = false;
     HMODULE             m_hlib = 0;
     union
@@ -80,9 +84,9 @@ delay_load_winhttp::delay_load_winhttp()
 //------------------------------------------------------------------------------
 bool delay_load_winhttp::init()
 {
-    if (!m_initialized)
+    // Multiple threads can issue requests at the same time.
+    std::call_once(m_initialized, [this]()
     {
-        m_initialized = true;
         m_hlib = LoadLibrary("winhttp.dll");
         if (m_hlib)
         {
@@ -111,7 +115,7 @@ bool delay_load_winhttp::init()
                 break;
             }
         }
-    }
+    });
 
 assert(m_ok);
     return m_ok;
-- 
2.43.0


From 1ee1c6a62ef881af6b30a213ab15e450fbc8e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 128/149] fix: recognizer reports results from the previous
 line's directory

---
 clink/lib/src/recognizer.cpp | 53 ++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/clink/lib/src/recognizer.cpp b/clink/lib/src/recognizer.cpp
index 66d2f8e..a124e21 100644
--- a/clink/lib/src/recognizer.cpp
+++ b/clink/lib/src/recognizer.cpp
@@ -99,6 +99,7 @@ class recognizer
         str_moveable        m_key;
         str_moveable        m_word;
         str_moveable        m_cwd;
+        uint32              m_generation = 0;
     };
 
 public:
@@ -116,7 +117,8 @@ public:
 private:
     bool                    usable() const;
     bool                    busy() const;
-    bool                    store(const char* word, const char* file, recognition cached, bool pending=false);
+    bool                    store(const char* word, const char* file, recognition cached, bool pending=false, bool outofdate=false);
+    void                    clear_pending();
     bool                    dequeue(entry& entry);
     bool                    set_result_available(bool available);
     void                    notify_ready(bool available);
@@ -134,6 +136,7 @@ private:
     HANDLE                  m_event = nullptr;
     bool                    m_processing = false;
     bool                    m_result_available = false;
+    uint32                  m_generation = 0;
     volatile bool           m_zombie = false;
 
     static HANDLE           s_ready_event;
@@ -170,14 +173,10 @@ void recognizer::clear()
     std::lock_guard<std::recursive_mutex> lock(m_mutex);
 
     m_queue.clear();
+    clear_pending();
 
-    for (auto iter = m_pending.begin(); iter != m_pending.end();)
-    {
-        char* key = iter->second.m_key;
-        iter = m_pending.erase(iter);
-        free(key);
-    }
-    assert(m_pending.empty());
+    // Anything still being processed is already out of date.
+    ++m_generation;
 
 #ifdef DEBUG
     const time_t threshold = 60/*secinmin*/ * 1/*minutes*/;
@@ -202,6 +201,18 @@ void recognizer::clear()
     }
 }
 
+//------------------------------------------------------------------------------
+void recognizer::clear_pending()
+{
+    for (auto iter = m_pending.begin(); iter != m_pending.end();)
+    {
+        char* key = iter->second.m_key;
+        iter = m_pending.erase(iter);
+        free(key);
+    }
+    assert(m_pending.empty());
+}
+
 //------------------------------------------------------------------------------
 int32 recognizer::find(const char* key, recognition& cached, str_base* file) const
 {
@@ -277,6 +288,7 @@ bool recognizer::enqueue(const char* key, const char* word, const char* cwd, con
             m_queue.m_key = key;
             m_queue.m_word = word;
             m_queue.m_cwd = cwd;
+            m_queue.m_generation = m_generation;
         }
 
         store(key, nullptr, cached ? *cached : recognition::unrecognized, true/*pending*/);
@@ -293,8 +305,16 @@ void recognizer::wait_while_busy()
 {
     if (usable())
     {
-        while (busy() && WaitForSingleObject(s_ready_event, INFINITE) == WAIT_OBJECT_0)
-        {}
+        while (true)
+        {
+            {
+                std::lock_guard<std::recursive_mutex> lock(m_mutex);
+                if (!busy())
+                    break;
+            }
+            if (WaitForSingleObject(s_ready_event, INFINITE) != WAIT_OBJECT_0)
+                break;
+        }
     }
 }
 
@@ -361,7 +381,7 @@ bool recognizer::busy() const
 }
 
 //------------------------------------------------------------------------------
-bool recognizer::store(const char* word, const char* file, recognition cached, bool pending)
+bool recognizer::store(const char* word, const char* file, recognition cached, bool pending, bool outofdate)
 {
     assert(*word);
     if (!*word)
@@ -380,7 +400,7 @@ bool recognizer::store(const char* word, const char* file, recognition cached, b
     entry.m_file = file;
     entry.m_age = time(nullptr);
     entry.m_recognition = cached;
-    entry.m_outofdate = false;
+    entry.m_outofdate = outofdate;
 
     auto const iter = map.find(word);
     if (iter != map.end())
@@ -664,7 +684,7 @@ void recognizer::proc(recognizer* r)
                 if (r->m_zombie || !r->dequeue(entry))
                 {
                     r->m_processing = false;
-                    r->m_pending.clear();
+                    r->clear_pending();
                     if (!r->m_zombie)
                         r->notify_ready(false);
                     break;
@@ -677,8 +697,11 @@ void recognizer::proc(recognizer* r)
             recognition result = r->search_for_executable(entry, found);
 
             // Store result.
-            r->store(entry.m_key.c_str(), found.c_str(), result);
-            r->notify_ready(true);
+            {
+                std::lock_guard<std::recursive_mutex> lock(r->m_mutex);
+                r->store(entry.m_key.c_str(), found.c_str(), result, false/*pending*/, entry.m_generation != r->m_generation);
+                r->notify_ready(true);
+            }
         }
 
         if (r->m_zombie)
-- 
2.43.0


From fc46eb39e521919d9ab7f315081b11c00519fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 129/149] fix: signed overflow when hashing numbers in Lua

---
 lua/src/llimits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lua/src/llimits.h b/lua/src/llimits.h
index 152dd05..b2491a2 100644
--- a/lua/src/llimits.h
+++ b/lua/src/llimits.h
@@ -231,7 +231,7 @@ union luai_Cast { double l_d; LUA_INT32 l_p[2]; };
 
 #define luai_hashnum(i,n)  \
   { volatile union luai_Cast u; u.l_d = (n) + 1.0;  /* avoid -0 */ \
-    (i) = u.l_p[0]; (i) += u.l_p[1]; }  /* add double bits for his hash */
+    (i) = (int)((unsigned int)u.l_p[0] + (unsigned int)u.l_p[1]); }  /* add double bits for his hash */
 
 #define lua_number2int(i,n)		lua_number2int32(i, n, int)
 #define lua_number2unsigned(i,n)	lua_number2int32(i, n, lua_Unsigned)
-- 
2.43.0


From 6ae2ce68d7b992ceb41fc9ff858c5f491ff10c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:03 +0000
Subject: [PATCH 130/149] fix: os.sleep(0) in a coroutine never resumes the
 coroutine

---
 clink/lua/src/os_api.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/clink/lua/src/os_api.cpp b/clink/lua/src/os_api.cpp
index 2100f84..cd1e782 100644
--- a/clink/lua/src/os_api.cpp
+++ b/clink/lua/src/os_api.cpp
@@ -2727,6 +2727,15 @@ static int32 is_signaled(lua_State *state)
     return 1;
 }
 
+//------------------------------------------------------------------------------
+static DWORD sleep_duration(double sec)
+{
+    const double ms = sec * 1000;
+    if (!(ms > 0))
+        return 0;
+    return (ms < double(INFINITE)) ? DWORD(ms) : INFINITE;
+}
+
 //------------------------------------------------------------------------------
 /// -name:  os.sleep
 /// -ver:   1.3.16
@@ -2743,7 +2752,7 @@ static int32 sleep(lua_State *state)
         double sec = lua_tonumberx(state, -1, &isnum);
         if (isnum)
         {
-            const DWORD ms = DWORD(sec * 1000);
+            const DWORD ms = sleep_duration(sec);
             Sleep(ms);
         }
         return 0;
@@ -2760,7 +2769,8 @@ static int32 sleep(lua_State *state)
         if (lua_getctx(state, &ctx) == LUA_OK)
         {
             const double sec = luaL_checknumber(state, -1);
-            const DWORD timeout = DWORD(sec * 1000);
+            // A timeout of 0 would mean no expiration, and never resuming.
+            const DWORD timeout = max<DWORD>(sleep_duration(sec), 1);
 
             asyncyield = async_yield_lua::make_new(state, "os.sleep", timeout);
             if (!asyncyield)
-- 
2.43.0


From 229b6b8b7856a81ab33b047a55871991753481d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:44 +0000
Subject: [PATCH 131/149] fix: setting a coroutine's interval without a number
 means the default

---
 clink/lua/scripts/coroutines.lua | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lua/scripts/coroutines.lua b/clink/lua/scripts/coroutines.lua
index 07d7dce..3a8c618 100644
--- a/clink/lua/scripts/coroutines.lua
+++ b/clink/lua/scripts/coroutines.lua
@@ -710,7 +710,7 @@ function clink.addcoroutine(c, interval)
 
     -- Change the interval for a coroutine.
     if _coroutines[c] and not _coroutines[c].throttled then
-        _coroutines[c].interval = interval
+        _coroutines[c].interval = interval or 0
     end
 end
 
@@ -780,7 +780,7 @@ function clink.setcoroutineinterval(c, interval)
     -- Override the interval.  The scheduler never trusts the interval, so it's
     -- ok to blindly set the interval here even if the coroutine is currently
     -- being throttled.
-    _coroutines[c].interval = interval
+    _coroutines[c].interval = interval or 0
 end
 
 --------------------------------------------------------------------------------
-- 
2.43.0


From 6d159e0e3118b505986eeb981accb062fa7dfe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 132/149] fix: path.normalise with another separator overflows,
 and repeats part of a UNC prefix

---
 clink/core/src/path.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 08a1eec..37920cb 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -143,6 +143,7 @@ void normalise(char* in_out, int32 sep)
     bool dots = true;
     bool eat_extra_dots = false;
     bool is_unc = path::is_unc(in_out);
+    char* prefix_end = nullptr;
 
 #if defined(PLATFORM_WINDOWS)
     if (is_separator(in_out[0]) && is_separator(in_out[1]) && in_out[2] == '.' && is_separator(in_out[3]))
@@ -163,14 +164,16 @@ void normalise(char* in_out, int32 sep)
         char* RESTRICT write = in_out;
         while (in_out < past)
         {
+            // Advance before writing; sep might not be a separator character.
             char c = *in_out;
-            *write = is_separator(c) ? char(sep) : c;
             if (is_separator(c))
                 skip_sep(in_out);
             else
                 ++in_out;
+            *write = is_separator(c) ? char(sep) : c;
             ++write;
         }
+        prefix_end = write;
     }
 #endif
 
@@ -183,10 +186,14 @@ void normalise(char* in_out, int32 sep)
 
     uint32 piece_count = 0;
 
-    char* RESTRICT write = in_out;
+    // Repeated separators in the prefix are collapsed, so writing can lag
+    // behind reading.
+    char* RESTRICT write = prefix_end ? prefix_end : in_out;
+    const char* RESTRICT read = in_out;
     int32 unc_offset = 0;
-    if (is_separator(*write))
+    if (is_separator(*read))
     {
+        ++read;
         *write++ = char(sep);
         piece_count = INT_MAX;
         if (is_unc)
@@ -194,7 +201,6 @@ void normalise(char* in_out, int32 sep)
     }
 
     const char* const RESTRICT start = write - unc_offset;
-    const char* RESTRICT read = write;
     for (; const char* RESTRICT next = next_element(read); read = next)
     {
         skip_sep(read);
-- 
2.43.0


From 82f51b0aadabe03eede8e9b598a414c115bbd273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 133/149] fix: creating a temporary file in a directory that
 doesn't exist tries 65,536 names

---
 clink/core/src/os.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/core/src/os.cpp b/clink/core/src/os.cpp
index 5c77458..851c9f1 100644
--- a/clink/core/src/os.cpp
+++ b/clink/core/src/os.cpp
@@ -799,6 +799,9 @@ FILE* create_temp_file(str_base* out, const char* _prefix, const char* _ext, tem
         _get_errno(&err);
         if (err == EINVAL || err == EMFILE)
             break;
+        // There's no point doing retries in a directory that doesn't exist.
+        if (err == ENOENT)
+            return nullptr;
         if (err == EACCES)
         {
             // Break out if there is no such file and yet access is denied.
-- 
2.43.0


From b007a6a9f7b6abe3f715b41566d2caad80208ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 134/149] fix: overflow when a number in a setting is too big

---
 clink/core/src/settings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 855dbf7..d946b1c 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -1093,6 +1093,8 @@ static int32 int_from_str_iter(const str_iter& iter)
     {
         if (*p < '0' || *p > '9')
             return -1;
+        if (x > 9999)
+            return -1;
         x *= 10;
         x += *p - '0';
     }
-- 
2.43.0


From 7e46955a3c36586f1acdd3168e52ac76aff75e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 135/149] fix: changing the case of text that exceeds the
 maximum size overflows

---
 clink/core/src/str_transform.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/core/src/str_transform.cpp b/clink/core/src/str_transform.cpp
index b5c320b..f061550 100644
--- a/clink/core/src/str_transform.cpp
+++ b/clink/core/src/str_transform.cpp
@@ -60,6 +60,11 @@ void str_transform(const wchar_t* in, uint32 len, wstr_base& out, transform_mode
         cch = LCMapStringW(LOCALE_USER_DEFAULT, mapflags, in, len, out.data(), out.size());
         if (!cch)
         {
+            // The buffer might have a fixed size, or the text might exceed the
+            // maximum size.
+            if (!out.reserve(len) && len >= out.size())
+                len = out.size() - 1;
+
             out.clear();
             bool title_char = true;
             for (uint32 i = 0; i < len; ++i)
-- 
2.43.0


From 4a87b751ea7dd79bb480f10a0fb3a70ed7b8d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 136/149] fix: overflow when converting extreme Lua numbers to
 zero-based

---
 clink/lua/include/lua/lua_state.h | 5 +++--
 clink/terminal/src/scroll.cpp     | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/clink/lua/include/lua/lua_state.h b/clink/lua/include/lua/lua_state.h
index b0e5463..3b76cee 100644
--- a/clink/lua/include/lua/lua_state.h
+++ b/clink/lua/include/lua/lua_state.h
@@ -7,6 +7,7 @@
 #include <lib/recognizer.h>
 
 #include <functional>
+#include <limits>
 #include <list>
 
 extern "C" {
@@ -34,8 +35,8 @@ public:
     const T         get() const { return m_value; }
                     operator T() const { return m_value; }
 
-    void            minus_one() { --m_value; }  // For converting to zero-based.
-    void            plus_one() { ++m_value; }   // For converting to one-based.
+    void            minus_one() { if (m_value > (std::numeric_limits<T>::lowest)()) --m_value; }  // For converting to zero-based.
+    void            plus_one() { if (m_value < (std::numeric_limits<T>::max)()) ++m_value; }   // For converting to one-based.
 
 private:
     T               m_value;
diff --git a/clink/terminal/src/scroll.cpp b/clink/terminal/src/scroll.cpp
index 18602b7..15d13d6 100644
--- a/clink/terminal/src/scroll.cpp
+++ b/clink/terminal/src/scroll.cpp
@@ -101,8 +101,10 @@ int32 ScrollConsoleRelative(HANDLE h, int32 direction, SCRMODE mode)
     }
     else
     {
+        direction = clamp<int32>(direction, -SHRT_MAX, SHRT_MAX);
         if (mode == SCR_BYPAGE)
             direction *= csbiInfo.srWindow.Bottom - csbiInfo.srWindow.Top;
+        direction = clamp<int32>(direction, -srWindow.Top, bottom_Y - srWindow.Bottom);
         srWindow.Top += (SHORT)direction;
         srWindow.Bottom += (SHORT)direction;
     }
-- 
2.43.0


From 1d934d042c49e0f5fe9ce02e85f8f3582932271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 137/149] fix: splitting a string with an empty separator never
 ends

---
 clink/lua/scripts/core.lua | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clink/lua/scripts/core.lua b/clink/lua/scripts/core.lua
index 7d4fc07..461defc 100644
--- a/clink/lua/scripts/core.lua
+++ b/clink/lua/scripts/core.lua
@@ -145,9 +145,11 @@ end
 function clink.split(str, sep)
     local i = 1
     local ret = {}
-    for _, j in function() return str:find(sep, i, true) end do
-        table.insert(ret, str:sub(i, j - 1))
-        i = j + 1
+    if sep ~= "" then
+        for _, j in function() return str:find(sep, i, true) end do
+            table.insert(ret, str:sub(i, j - 1))
+            i = j + 1
+        end
     end
 
     -- In Clink v0.4.9 this accidentally accesses j as a global variable, which
-- 
2.43.0


From 4580f2ecc417fad84612ddd3c4a10ec4b4d5c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 138/149] fix: stack overflow with nine attributes, and
 overflow with extreme line numbers, in the console API

---
 clink/lua/src/console_api.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clink/lua/src/console_api.cpp b/clink/lua/src/console_api.cpp
index 052b902..dfee86c 100644
--- a/clink/lua/src/console_api.cpp
+++ b/clink/lua/src/console_api.cpp
@@ -387,7 +387,7 @@ static int32 get_line_text(lua_State* state)
     const auto _line = checkinteger(state, 1);
     if (!_line.isnum())
         return 0;
-    SHORT line = _line - 1;
+    int32 line = max<int32>(_line, 1) - 1;
 
     const auto num_lines = GetConsoleNumLines();
     if (num_lines < 0)
@@ -493,7 +493,7 @@ static int32 is_line_default_color(lua_State* state)
     const auto _line = checkinteger(state, 1);
     if (!_line.isnum())
         return 0;
-    SHORT line = _line - 1;
+    int32 line = max<int32>(_line, 1) - 1;
 
     const auto num_lines = GetConsoleNumLines();
     if (num_lines < 0)
@@ -564,7 +564,7 @@ static int32 line_has_color(lua_State* state)
     const char* mask_name = optstring(state, 3, "");
     if (!_line.isnum() || !has_attrs || !mask_name)
         return 0;
-    SHORT line = _line - 1;
+    int32 line = max<int32>(_line, 1) - 1;
 
     const auto num_lines = GetConsoleNumLines();
     if (num_lines < 0)
@@ -593,7 +593,7 @@ static int32 line_has_color(lua_State* state)
         BYTE attrs[32];
         int32 num_attrs = 0;
 
-        for (int32 i = 1; num_attrs <= sizeof_array(attrs); i++)
+        for (int32 i = 1; num_attrs < sizeof_array(attrs); i++)
         {
             lua_rawgeti(state, 2, i);
             if (lua_isnil(state, -1))
@@ -627,7 +627,7 @@ static int32 find_line(lua_State* state, int32 direction)
     const auto _starting_line = checkinteger(state, arg);
     if (!_starting_line.isnum())
         return 0;
-    SHORT starting_line = _starting_line - 1;
+    int32 starting_line = max<int32>(_starting_line, 1) - 1;
 
     const auto num_lines = GetConsoleNumLines();
     if (num_lines < 0)
@@ -679,7 +679,7 @@ static int32 find_line(lua_State* state, int32 direction)
     }
     else if (lua_istable(state, arg))
     {
-        for (int32 i = 1; num_attrs <= sizeof_array(attrs); i++)
+        for (int32 i = 1; num_attrs < sizeof_array(attrs); i++)
         {
             lua_rawgeti(state, arg, i);
             if (lua_isnil(state, -1))
-- 
2.43.0


From c638dfdca19234ce8a3fb1086be1318fd3ee37bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 139/149] fix: using caller information that doesn't exist
 crashes

---
 clink/lua/src/log_api.cpp   | 4 ++--
 clink/lua/src/lua_state.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clink/lua/src/log_api.cpp b/clink/lua/src/log_api.cpp
index bd2e2fc..c087c89 100644
--- a/clink/lua/src/log_api.cpp
+++ b/clink/lua/src/log_api.cpp
@@ -25,8 +25,8 @@ int32 log_info(lua_State* state)
     const int32 level = optinteger(state, 2, 1);
 
     lua_Debug ar = {};
-    lua_getstack(state, level, &ar);
-    lua_getinfo(state, "Sl", &ar);
+    if (lua_getstack(state, level, &ar))
+        lua_getinfo(state, "Sl", &ar);
     const char* source = ar.source ? ar.source : "?";
     int32 line = ar.currentline;
 
diff --git a/clink/lua/src/lua_state.cpp b/clink/lua/src/lua_state.cpp
index 1679619..4c05a67 100644
--- a/clink/lua/src/lua_state.cpp
+++ b/clink/lua/src/lua_state.cpp
@@ -1042,8 +1042,8 @@ void assert_stack_top::verify(int32) const {}
 void get_lua_srcinfo(lua_State* L, str_base& out)
 {
     lua_Debug ar = {};
-    lua_getstack(L, 1, &ar);
-    lua_getinfo(L, "Sl", &ar);
+    if (lua_getstack(L, 1, &ar))
+        lua_getinfo(L, "Sl", &ar);
     const char* source = ar.source ? ar.source : "?";
 
     out.clear();
-- 
2.43.0


From 60468d174e4fed4186a6acce303c4a345b88e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 140/149] fix: path.fnmatch without text crashes

---
 clink/lua/src/path_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lua/src/path_api.cpp b/clink/lua/src/path_api.cpp
index cc55674..a3935c6 100644
--- a/clink/lua/src/path_api.cpp
+++ b/clink/lua/src/path_api.cpp
@@ -312,6 +312,8 @@ static int32 api_fnmatch(lua_State* state)
     const char* pattern = checkstring(state, 1);
     const char* string = checkstring(state, 2);
     const char* flags = optstring(state, 3, "");
+    if (!pattern || !string || !flags)
+        return 0;
 
     int32 bits = WM_CASEFOLD|WM_SLASHFOLD;
     for (; *flags; ++flags)
-- 
2.43.0


From 9f2c607d3404be0615cfa3258e229d78a3278c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 141/149] fix: settings.add without a description crashes

---
 clink/lua/src/settings_api.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clink/lua/src/settings_api.cpp b/clink/lua/src/settings_api.cpp
index 4a43f95..98b36d4 100644
--- a/clink/lua/src/settings_api.cpp
+++ b/clink/lua/src/settings_api.cpp
@@ -377,6 +377,8 @@ template <typename S, typename... V> void add_impl(lua_State* state, V... value)
     const char* name = checkstring(state, 1);
     const char* short_desc = (lua_gettop(state) > 2) ? checkstring(state, 3) : "";
     const char* long_desc = (lua_gettop(state) > 3) ? checkstring(state, 4) : "";
+    if (!short_desc)
+        short_desc = "";
 
     void* addr = lua_newuserdata(state, sizeof(S));
 
@@ -408,7 +410,7 @@ template <typename S, typename... V> void add_impl(lua_State* state, V... value)
 
     if (strlen(name) > strlen(((setting*)addr)->get_name()))
     {
-        LOG("Setting \"%\", name too long; truncated from \"%s\".", ((S*)addr)->get_name(), name);
+        LOG("Setting \"%s\", name too long; truncated from \"%s\".", ((S*)addr)->get_name(), name);
 #if 0
         if (g_lua_strict.get())
             luaL_argerror(state, 1, "name for setting is too long");
@@ -416,7 +418,7 @@ template <typename S, typename... V> void add_impl(lua_State* state, V... value)
     }
     if (strlen(short_desc) > strlen(((setting*)addr)->get_short_desc()))
     {
-        LOG("Setting \"%\", short description too long; truncated from \"%s\" to \"%s\".", ((S*)addr)->get_name(), short_desc, ((S*)addr)->get_short_desc());
+        LOG("Setting \"%s\", short description too long; truncated from \"%s\" to \"%s\".", ((S*)addr)->get_name(), short_desc, ((S*)addr)->get_short_desc());
 #if 0
         if (g_lua_strict.get())
             luaL_argerror(state, 3, "short description for setting is too long");
-- 
2.43.0


From 34d0c4a3347e0278dcff88ac570342ae886f1c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 142/149] fix: converting to or from some code pages reads past
 the text

---
 clink/lua/src/unicode_api.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/clink/lua/src/unicode_api.cpp b/clink/lua/src/unicode_api.cpp
index 1f4f1ea..9df6635 100644
--- a/clink/lua/src/unicode_api.cpp
+++ b/clink/lua/src/unicode_api.cpp
@@ -346,12 +346,16 @@ static int32 from_codepage(lua_State* state)
         return 0;
 
     wstr_moveable tmp;
-    tmp.reserve(len + 32); // Add 32 for slop, just in case.
+    if (!tmp.reserve(len + 32)) // Add 32 for slop, just in case.
+        return 0;
 
-    len = MultiByteToWideChar(cp, flags, s, -1, tmp.data(), tmp.size());
+    len = MultiByteToWideChar(cp, flags, s, -1, tmp.data(), tmp.size() - 1);
     if (len <= 0)
         return 0;
 
+    // Some code pages don't convert the NUL terminator.
+    tmp.data()[len] = '\0';
+
     str_moveable out(tmp.c_str());
     lua_pushlstring(state, out.c_str(), out.length());
     return 1;
@@ -388,12 +392,16 @@ static int32 to_codepage(lua_State* state)
         return 0;
 
     str_moveable out;
-    out.reserve(len + 32); // Add 32 for slop, just in case.
+    if (!out.reserve(len + 32)) // Add 32 for slop, just in case.
+        return 0;
 
-    len = WideCharToMultiByte(cp, 0, tmp.c_str(), -1, out.data(), out.size(), nullptr, nullptr);
+    len = WideCharToMultiByte(cp, 0, tmp.c_str(), -1, out.data(), out.size() - 1, nullptr, nullptr);
     if (len <= 0)
         return 0;
 
+    // Some code pages don't convert the NUL terminator.
+    out.data()[len] = '\0';
+
     lua_pushlstring(state, out.c_str(), out.length());
     return 1;
 }
-- 
2.43.0


From 23311b7a375d7c571ac4f9975f7ed83457bcf34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:01 +0000
Subject: [PATCH 143/149] fix: rl.setbinding with an unknown keymap name
 crashes

---
 clink/lua/src/rl_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/lua/src/rl_api.cpp b/clink/lua/src/rl_api.cpp
index 161b45c..a617a9f 100644
--- a/clink/lua/src/rl_api.cpp
+++ b/clink/lua/src/rl_api.cpp
@@ -489,6 +489,11 @@ static int32 set_rl_binding(lua_State* state)
         return 0;
 
     Keymap map = keymap ? rl_get_keymap_by_name(keymap) : rl_get_keymap();
+    if (!map)
+    {
+        lua_pushboolean(state, false);
+        return 1;
+    }
 
     str<> keys;
     unquote_keys(_key, keys);
-- 
2.43.0


From c9eef173c9687bc36b255fea5be1b9df0265ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:01 +0000
Subject: [PATCH 144/149] fix: rl.invokecommand of a command that aborts jumps
 past Lua and C++ stack frames

---
 clink/lua/src/rl_api.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/clink/lua/src/rl_api.cpp b/clink/lua/src/rl_api.cpp
index a617a9f..a0c120a 100644
--- a/clink/lua/src/rl_api.cpp
+++ b/clink/lua/src/rl_api.cpp
@@ -524,6 +524,22 @@ static int32 set_rl_binding(lua_State* state)
     return 1;
 }
 
+//------------------------------------------------------------------------------
+// A command can abort by jumping to _rl_top_level.  The jump must not go past
+// the Lua and C++ stack frames that are calling the command.
+static int32 call_command(rl_command_func_t* func, int32 count, int32 key)
+{
+    procenv_t olevel;
+    memcpy((void*)olevel, (void*)_rl_top_level, sizeof(procenv_t));
+
+    volatile int32 err = 1;
+    if (setjmp(_rl_top_level) == 0)
+        err = func(count, key);
+
+    memcpy((void*)_rl_top_level, (void*)olevel, sizeof(procenv_t));
+    return err;
+}
+
 //------------------------------------------------------------------------------
 /// -name:  rl.invokecommand
 /// -ver:   1.1.26
@@ -591,7 +607,7 @@ static int32 invoke_command(lua_State* state)
     int32 isnum;
     int32 count = int32(lua_tointegerx(state, 2, &isnum));
     int32 self_insert = (func == rl_insert);
-    int32 err = func(isnum ? count : 1, self_insert ? rl_executing_key : 0);
+    int32 err = call_command(func, isnum ? count : 1, self_insert ? rl_executing_key : 0);
 
     // Set rl_last_func, unless the invoked command already set rl_last_func.
     // For example, clink-select-complete needs to override it if activation
-- 
2.43.0


From ec5be3bee2d04b952597c7cd5f341d31cc764869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:01 +0000
Subject: [PATCH 145/149] fix: rl.getmatchcolor without a match crashes

---
 clink/lua/src/rl_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lua/src/rl_api.cpp b/clink/lua/src/rl_api.cpp
index a0c120a..fa5c759 100644
--- a/clink/lua/src/rl_api.cpp
+++ b/clink/lua/src/rl_api.cpp
@@ -1106,6 +1106,8 @@ static int32 get_match_color(lua_State* state)
     else
     {
         match = checkstring(state, 1);
+        if (!match)
+            return 0;
 
         const char* tmp = optstring(state, 2, nullptr);
         if (tmp)
-- 
2.43.0


From 4f138477d4cbbf6eac3928f2aa9b4c17ca174bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:01 +0000
Subject: [PATCH 146/149] fix: overflow with extreme indexes of history items
 and kill ring strings

---
 clink/lua/src/rl_api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lua/src/rl_api.cpp b/clink/lua/src/rl_api.cpp
index fa5c759..2310055 100644
--- a/clink/lua/src/rl_api.cpp
+++ b/clink/lua/src/rl_api.cpp
@@ -1183,7 +1183,7 @@ static int32 get_history_items(lua_State* state)
     if (!_start.isnum() || !_end.isnum())
         return 0;
 
-    int32 start = _start - 1;
+    int32 start = max<int32>(_start, 1) - 1;
     int32 end = _end;
     if (start >= history_length || end < 1)
         return 0;
@@ -1541,7 +1541,7 @@ static int32 get_kill_ring_string(lua_State* L)
     const auto _index = checkinteger(L, 1);
     if (!_index.isnum())
         return 0;
-    const int32 index = _index - 1;
+    const int32 index = max<int32>(_index, 0) - 1;
 
     const char* s = rl_get_kill_ring_string(index);
     if (!s)
-- 
2.43.0


From 88185cc8eefe5b5a028a07193d2bd523a11d8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:33 +0000
Subject: [PATCH 147/149] fix: adding an argmatcher's arguments to itself never
 ends

---
 clink/lua/scripts/arguments.lua | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 90184bf..5f8c92f 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -2007,7 +2007,8 @@ function _argmatcher:_add(list, addee, prefixes)
         self:apply_options_to_list(addee, list)
         if getmetatable(addee) == _argmatcher then
             for _, i in ipairs(addee._args) do
-                for _, j in ipairs(i) do
+                for n = 1, #i do -- Not ipairs; list grows if addee is self.
+                    local j = i[n]
                     table.insert(list, j)
                     if prefixes then add_prefix(prefixes, j) end
                 end
-- 
2.43.0


From ba2e0d788a0951d3569023b1932f1abf17710c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:33 +0000
Subject: [PATCH 148/149] fix: overflow with extreme indexes in methods of
 matches, line states and word classifications

---
 clink/lua/src/lua_word_classifications.cpp | 2 +-
 clink/lua/src/matches_lua.cpp              | 8 ++++----
 clink/lua/src/rl_buffer_lua.cpp            | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/clink/lua/src/lua_word_classifications.cpp b/clink/lua/src/lua_word_classifications.cpp
index 717117e..934951e 100644
--- a/clink/lua/src/lua_word_classifications.cpp
+++ b/clink/lua/src/lua_word_classifications.cpp
@@ -74,7 +74,7 @@ int32 lua_word_classifications::classify_word(lua_State* state)
     bool overwrite = !lua_isboolean(state, LUA_SELF + 3) || lua_toboolean(state, LUA_SELF + 3);
     if (!_index.isnum() || !s)
         return 0;
-    const uint32 direct_index = _index - 1;
+    const uint32 direct_index = uint32(_index) - 1;
     if (direct_index >= m_words.size())
         return luaL_argerror(state, LUA_SELF + 1, "word index out of bounds");
     const uint32 shifted_index = direct_index + m_shift;
diff --git a/clink/lua/src/matches_lua.cpp b/clink/lua/src/matches_lua.cpp
index 456c997..db0795d 100644
--- a/clink/lua/src/matches_lua.cpp
+++ b/clink/lua/src/matches_lua.cpp
@@ -80,7 +80,7 @@ int32 matches_lua::get_match(lua_State* state)
     const auto _index = checkinteger(state, LUA_SELF + 1);
     if (!_index.isnum())
         return 0;
-    const uint32 index = _index - 1;
+    const uint32 index = uint32(_index) - 1;
 
     if (index >= m_matches->get_match_count())
         return 0;
@@ -100,7 +100,7 @@ int32 matches_lua::get_type(lua_State* state)
     const auto _index = checkinteger(state, LUA_SELF + 1);
     if (!_index.isnum())
         return 0;
-    const uint32 index = _index - 1;
+    const uint32 index = uint32(_index) - 1;
 
     if (index >= m_matches->get_match_count())
         return 0;
@@ -122,7 +122,7 @@ int32 matches_lua::get_description(lua_State* state)
     const auto _index = checkinteger(state, LUA_SELF + 1);
     if (!_index.isnum())
         return 0;
-    const uint32 index = _index - 1;
+    const uint32 index = uint32(_index) - 1;
 
     if (index >= m_matches->get_match_count())
         return 0;
@@ -144,7 +144,7 @@ int32 matches_lua::get_append_char(lua_State* state)
     const auto _index = checkinteger(state, LUA_SELF + 1);
     if (!_index.isnum())
         return 0;
-    const uint32 index = _index - 1;
+    const uint32 index = uint32(_index) - 1;
 
     if (index >= m_matches->get_match_count())
         return 0;
diff --git a/clink/lua/src/rl_buffer_lua.cpp b/clink/lua/src/rl_buffer_lua.cpp
index b9bbd10..9c48aa8 100644
--- a/clink/lua/src/rl_buffer_lua.cpp
+++ b/clink/lua/src/rl_buffer_lua.cpp
@@ -320,7 +320,7 @@ int32 rl_buffer_lua::set_argument(lua_State* state)
         {
             rl_arg_sign = (arg < 0) ? -1 : 1;
             rl_explicit_arg = 1;
-            rl_numeric_arg = abs(arg);
+            rl_numeric_arg = abs(max<int32>(arg, -INT_MAX));
         }
     }
     return 0;
-- 
2.43.0


From a23594faac84afa6b916ead9b118425a2714afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:33 +0000
Subject: [PATCH 149/149] fix: line_state:getcommandoffset reads past the words
 when all are shifted

---
 clink/lua/src/line_state_lua.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/clink/lua/src/line_state_lua.cpp b/clink/lua/src/line_state_lua.cpp
index 3dbe87a..8d1f0c6 100644
--- a/clink/lua/src/line_state_lua.cpp
+++ b/clink/lua/src/line_state_lua.cpp
@@ -247,7 +247,8 @@ int32 line_state_lua::get_command_offset(lua_State* state)
         const auto& w = words[m_shift - 1];
         offset = w.offset + w.length;
         const char* line = m_line->get_line();
-        while (line[offset] != ' ' && line[offset] != '\t' && offset < words[m_shift].offset)
+        const uint32 end = (m_shift < words.size()) ? words[m_shift].offset : m_line->get_length();
+        while (offset < end && line[offset] != ' ' && line[offset] != '\t')
             offset++;
     }
 
@@ -327,7 +328,7 @@ int32 line_state_lua::get_word_info(lua_State* state)
         return 0;
 
     const words& words = m_line->get_words();
-    uint32 index = int32(lua_tointeger(state, LUA_SELF + 1)) - 1 + m_shift;
+    uint32 index = uint32(lua_tointeger(state, LUA_SELF + 1)) - 1 + m_shift;
     if (index >= words.size())
         return 0;
 
@@ -401,7 +402,7 @@ int32 line_state_lua::get_word(lua_State* state)
         return 0;
 
     str<32> word;
-    uint32 index = int32(lua_tointeger(state, LUA_SELF + 1)) - 1;
+    uint32 index = uint32(lua_tointeger(state, LUA_SELF + 1)) - 1;
     m_line->get_word(m_shift + index, word);
     lua_pushlstring(state, word.c_str(), word.length());
     return 1;
@@ -564,7 +565,7 @@ int32 line_state_lua::break_word(lua_State* state)
     const auto length = checkinteger(state, LUA_SELF + 2);
     if (!_index.isnum() || !length.isnum())
         return 0;
-    const uint32 index = _index - 1 + m_shift;
+    const uint32 index = uint32(_index) - 1 + m_shift;
 
     const words& words = m_line->get_words();
     if (index >= words.size())
@@ -598,7 +599,7 @@ int32 line_state_lua::unbreak_word(lua_State* state)
         return 0;
     if (!validate_unbreakchars(unbreakchars))
         return luaL_argerror(state, LUA_SELF + 2, "must contain only ASCII characters");
-    const uint32 index = _index - 1 + m_shift;
+    const uint32 index = uint32(_index) - 1 + m_shift;
 
     const words& words = m_line->get_words();
     if (index >= words.size())
@@ -643,7 +644,7 @@ int32 line_state_lua::set_alias(lua_State* state)
     const bool value = lua_isnoneornil(state, LUA_SELF + 2) || lua_toboolean(state, LUA_SELF + 2);
     if (!_index.isnum())
         return 0;
-    const uint32 index = _index - 1 + m_shift;
+    const uint32 index = uint32(_index) - 1 + m_shift;
 
     const words& words = m_line->get_words();
     if (index >= words.size())
-- 
2.43.0

