From f3843fd82849b92b63bb7e039b371c9d7adfc1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 01/71] fix: keep both leading separators when normalising
 device namespace paths

---
 clink/core/src/path.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 8161318..8d0ebcf 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -146,7 +146,10 @@ void normalise(char* in_out, int32 sep)
 
 #if defined(PLATFORM_WINDOWS)
     if (is_separator(in_out[0]) && is_separator(in_out[1]) && in_out[2] == '.' && is_separator(in_out[3]))
+    {
         dots = false; // Device namespace does not normalize . or .. in paths.
+        in_out += 2; // Preserve the 2 leading separators.
+    }
     else
     {
         const char* past = past_drive(in_out);
-- 
2.43.0


From 09120b1620c62f1baabd7dca0ebb3ed4b01397ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 02/71] fix: don't read before the start of the buffer when
 normalising a relative path

---
 clink/core/src/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 8d0ebcf..0be698d 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -210,7 +210,7 @@ void normalise(char* in_out, int32 sep)
                     while (write > start)
                     {
                         --write;
-                        if (is_separator(write[-1]))
+                        if (write == start || is_separator(write[-1]))
                             break;
                     }
 
-- 
2.43.0


From 2e6fa8de756202e19e7ea5d16e652736f33b7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 03/71] fix: normalising a UNC root with repeated separators
 left stale characters in the path

---
 clink/core/src/path.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 0be698d..a769b6e 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -167,6 +167,12 @@ void normalise(char* in_out, int32 sep)
                 ++in_out;
             ++write;
         }
+        if (write < in_out)
+        {
+            // Separators were collapsed; close the gap.
+            memmove(write, in_out, strlen(in_out) + 1);
+            in_out = write;
+        }
     }
 #endif
 
-- 
2.43.0


From 6e267ae5322887bdc8858807a318b9a4f854136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 04/71] fix: normalise must count elements that begin with a
 dot, so that .. can remove them

---
 clink/core/src/path.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index a769b6e..20845de 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -228,6 +228,8 @@ void normalise(char* in_out, int32 sep)
                     continue;
                 }
             }
+            else
+                ++piece_count;
         }
         else
             ++piece_count;
-- 
2.43.0


From a2bdc00cb4e703ccba1b6710b7be516c577612fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 05/71] fix: a wildcard followed by repeated path separators
 must match like single ones

---
 clink/core/include/core/match_wild.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clink/core/include/core/match_wild.h b/clink/core/include/core/match_wild.h
index 15c24d1..b970d2e 100644
--- a/clink/core/include/core/match_wild.h
+++ b/clink/core/include/core/match_wild.h
@@ -127,6 +127,14 @@ back_track:
                 }
                 file.next();
                 pattern.next();
+                // Advance past path separators (consider "\\\\" and "\" equal).
+                if (path::is_separator(c))
+                {
+                    while (path::is_separator(pattern.peek()))
+                        pattern.next();
+                    while (path::is_separator(file.peek()))
+                        file.next();
+                }
             }
             if (match_everything != yes && path::is_separator(d))
             {
-- 
2.43.0


From 5ea264eea2636a14ff9959260dc462422337ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 06/71] fix: setting a value for an undeclared setting must
 replace its loaded value

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index de6b095..f68623a 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -374,7 +374,7 @@ static bool set_setting(const char* name, const char* value, const char* comment
                 loaded.comment = l->second.comment.c_str();
         }
         loaded.value = value;
-        get_loaded_map().emplace(name, std::move(loaded));
+        get_loaded_map()[name] = std::move(loaded);
         return true;
     }
 
-- 
2.43.0


From af918fd3359fd61f4c558d34e2248da529b4ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 07/71] fix: clear the saved flags before saving, so settings
 that are no longer declared aren't lost

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index f68623a..b0d780b 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -612,7 +612,7 @@ static bool save_internal(const char* file, bool migrating)
         return false;
 
     // Clear the saved flag so we can track which ones have been saved so far.
-    for (auto iter : get_loaded_map())
+    for (auto& iter : get_loaded_map())
         iter.second.saved = false;
 
     // Iterate over each setting and write it out to the file.
-- 
2.43.0


From 5de42f4330f18ba68c9d88738c8b2329636018db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 08/71] fix: clearing a setting in the settings file
 dereferenced a null value

---
 clink/core/src/settings.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index b0d780b..a16a34b 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -773,9 +773,15 @@ bool sandboxed_set_setting(const char* name, const char* value)
     rollback<loaded_settings_map*> rb_loaded(g_loaded_settings, &tmp_loaded_map);
 
     // Load settings.
-    return (load(file, default_file) &&
-            set_setting(name, value) &&
-            save(file));
+    if (!load(file, default_file))
+        return false;
+
+    if (!value)
+        clear_setting(name);
+    else if (!set_setting(name, value))
+        return false;
+
+    return save(file);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From d1887307888410d728773a575775b7156ad5d06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 09/71] fix: restore color settings after updating the settings
 file

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index a16a34b..55ee670 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -741,7 +741,7 @@ public:
         for (auto& i : get_map())
         {
             setting* iter = i.second;
-            iter->get(value);
+            iter->get_descriptive(value);
             m_restore.emplace(iter->get_name(), std::move(value));
         }
     }
-- 
2.43.0


From 82630cb1a8d329b4a8a7e2b8c37d4a6af6f2b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 10/71] fix: the default settings file was closed twice

---
 clink/core/src/settings.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 55ee670..b22658f 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -319,8 +319,6 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
         custom_default.value = value;
         map.emplace(name, std::move(custom_default));
     });
-
-    fclose(in);
 }
 
 
-- 
2.43.0


From b0b33e907c93fcdb406fe68ddfdebc905af9a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 11/71] fix: loading a settings file of 64K or more overran the
 buffer

---
 clink/core/src/settings.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index b22658f..92ea0d4 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -101,13 +101,10 @@ static bool load_internal(FILE* in, std::function<void(const char* name, const c
         return false;
     }
 
-    str<4096> buffer;
-    buffer.reserve(size);
-
-    char* data = buffer.data();
-    fread(data, size, 1, in);
+    // The file may be larger than what a str can hold.
+    std::string buffer(size, '\0');
+    fread(&buffer[0], size, 1, in);
     fclose(in);
-    data[size] = '\0';
 
     // Check for `clink set` output format:
     // No blank lines, no # lines, no = signs.
@@ -215,13 +212,10 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
         return false;
     }
 
-    str<4096> buffer;
-    buffer.reserve(size);
-
-    char* data = buffer.data();
-    fread(data, size, 1, in);
+    // The file may be larger than what a str can hold.
+    std::string buffer(size, '\0');
+    fread(&buffer[0], size, 1, in);
     fclose(in);
-    data[size] = '\0';
 
     settings::section section = settings::section::ignore;
     bool valid = false;
-- 
2.43.0


From a2f6679f48fef40ca0e6ea5c5f69f4a38f207ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 12/71] fix: a color with bright but no foreground color became
 white

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 92ea0d4..e7da471 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -912,7 +912,7 @@ bool parse_color(const char* value, str_base& out)
         if (strcmpi(token.c_str(), "on") == 0)
         {
             if (pcolor == &bg) return false; // can't use "on" more than once
-            if (!*phex && bright > 0)
+            if (fg >= 0 && !*phex && bright > 0)
                 fg += 8;
             pcolor = &bg;
             phex = &bg_hex;
-- 
2.43.0


From 7aa299d1d5453e08106732d4762fd91178970ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 13/71] fix: text that begins with ESC and no escape code had
 no type

---
 clink/terminal/src/ecma48_iter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index 7773444..4e24aa5 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -491,8 +491,9 @@ bool ecma48_iter::next_esc(int32 c)
         return true;
     }
 
-    m_state.state = ecma48_state_char;
-    return false;
+    // Not an escape code, so the characters are text.
+    m_code.m_type = ecma48_code::type_chars;
+    return true;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From df3926709c0608b5c21b96053256cf1f16568231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 14/71] fix: nested OSC codes that arrive in pieces ended too
 early

---
 clink/terminal/include/terminal/ecma48_iter.h |  2 +-
 clink/terminal/src/ecma48_iter.cpp            | 35 ++++++++++---------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/clink/terminal/include/terminal/ecma48_iter.h b/clink/terminal/include/terminal/ecma48_iter.h
index 9f18de3..d064354 100644
--- a/clink/terminal/include/terminal/ecma48_iter.h
+++ b/clink/terminal/include/terminal/ecma48_iter.h
@@ -139,6 +139,7 @@ private:
     ecma48_state_enum   state;
     str<64>             buffer;
     bool                clear_buffer;
+    int32               nested_cmd_str;
 };
 
 
@@ -164,5 +165,4 @@ private:
     str_iter            m_iter;
     ecma48_code&        m_code;
     ecma48_state&       m_state;
-    int32               m_nested_cmd_str;
 };
diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index 4e24aa5..c258efb 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -90,6 +90,7 @@ void ecma48_state::reset()
 {
     state = ecma48_state_unknown;
     clear_buffer = true;
+    nested_cmd_str = 0;
 }
 
 
@@ -276,7 +277,6 @@ ecma48_iter::ecma48_iter(const char* s, ecma48_state& state, int32 len)
 : m_iter(s, len)
 , m_code(state.code)
 , m_state(state)
-, m_nested_cmd_str(0)
 {
 }
 
@@ -301,8 +301,6 @@ const ecma48_code& ecma48_iter::next()
             break;
         }
 
-        assert(m_nested_cmd_str == 0 || m_state.state == ecma48_state_cmd_str);
-
         switch (m_state.state)
         {
         case ecma48_state_char:     done = next_char(c);     break;
@@ -341,9 +339,6 @@ const ecma48_code& ecma48_iter::next()
 
     m_state.reset();
 
-    assert(m_nested_cmd_str == 0);
-    m_nested_cmd_str = 0;
-
     return m_code;
 }
 
@@ -407,21 +402,15 @@ bool ecma48_iter::next_cmd_str(int32 c)
     if (c == 0x1b)
     {
         m_iter.next();
-        int32 d = m_iter.peek();
-        if (d == 0x5d)
-            m_nested_cmd_str++;
-        else if (d == 0x5c && m_nested_cmd_str > 0)
-            m_nested_cmd_str--;
-        else
-            m_state.state = ecma48_state_esc_st;
+        m_state.state = ecma48_state_esc_st;
         return false;
     }
     else if (c == 0x9c || c == 0x07) // Xterm supports OSC terminated by BEL.
     {
         m_iter.next();
-        if (c == 0x07 && m_nested_cmd_str > 0)
+        if (c == 0x07 && m_state.nested_cmd_str > 0)
         {
-            m_nested_cmd_str--;
+            m_state.nested_cmd_str--;
             return false;
         }
         return true;
@@ -502,14 +491,26 @@ bool ecma48_iter::next_esc_st(int32 c)
     if (c == 0x5c)
     {
         m_iter.next();
-        assert(m_nested_cmd_str == 0);
+        if (m_state.nested_cmd_str > 0)
+        {
+            m_state.nested_cmd_str--;
+            m_state.state = ecma48_state_cmd_str;
+            return false;
+        }
         return true;
     }
+    else if (c == 0x5d && m_code.get_code() != ecma48_code::c1_sos)
+    {
+        // The text may arrive in pieces, so the state tracks the nesting.
+        m_iter.next();
+        m_state.nested_cmd_str++;
+        m_state.state = ecma48_state_cmd_str;
+        return false;
+    }
 
     m_code.m_str = m_iter.get_pointer();
     m_code.m_length = 0;
     m_state.reset();
-    m_nested_cmd_str = 0;
     return false;
 }
 
-- 
2.43.0


From 3c81410d7b537df1afcf9d85adf22aa049bd8137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 15/71] fix: the length of a run of text was truncated to 16
 bits

---
 clink/terminal/include/terminal/ecma48_iter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/terminal/include/terminal/ecma48_iter.h b/clink/terminal/include/terminal/ecma48_iter.h
index d064354..184f84f 100644
--- a/clink/terminal/include/terminal/ecma48_iter.h
+++ b/clink/terminal/include/terminal/ecma48_iter.h
@@ -103,7 +103,7 @@ private:
     void                    operator = (ecma48_code&) = delete;
     bool                    decode_csi(csi_base& base, int32* params, uint32 max_params) const;
     const char*             m_str;
-    unsigned short          m_length;
+    uint32                  m_length;
     type                    m_type;
     uint8                   m_code;
 };
-- 
2.43.0


From 34f8a2993bd423bb784253181dd20da99ec77b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 16/71] fix: colorless output ignored an SGR code without
 parameters

---
 clink/terminal/src/ecma48_iter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index c258efb..f22a56e 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -597,6 +597,9 @@ concat_verbatim:
                         {
                             str<> tmp;
                             unsigned skip = 0;
+                            // No parameters means reset.
+                            if (!csi.param_count)
+                                csi.params[csi.param_count++] = 0;
                             for (int32 i = 0; i < csi.param_count; ++i)
                             {
                                 if (skip)
-- 
2.43.0


From d40f50fb0171fab322469f50bf888f8fc8f32d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 17/71] fix: compacting with uniq and a limit could lose the
 whole history

---
 clink/lib/src/history_db.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 85a3e9c..7519d03 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1053,8 +1053,8 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
     size_t start = 0;
     if (0 < limit && limit < lines_to_keep.size())
     {
-        for (start = lines_to_keep.size(); limit && start--;)
-            if (lines_to_keep[start].get())
+        for (start = lines_to_keep.size(); limit && start;)
+            if (lines_to_keep[--start].get())
                 --limit;
     }
 
-- 
2.43.0


From 83c6792b7dde17ed561b98e1a063a37a22bf142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 18/71] fix: trimming the history left Readline's list and the
 index map out of step

---
 clink/lib/src/history_db.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 7519d03..55e69dc 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1547,7 +1547,10 @@ void history_db::load_rl_history(bool can_clean)
     // history file.
     if (can_clean && m_use_master_bank)
     {
-        if (compact())
+        // Reload also when lines were trimmed without compacting, otherwise the
+        // index map doesn't correspond to Readline's history list.
+        const size_t num_lines = m_index_map.size();
+        if (compact() || m_index_map.size() != num_lines)
             load_internal();
     }
 
-- 
2.43.0


From b235856c4aff23ab2d600eb0ddf550d77b2e8818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 19/71] fix: removals were lost or hit other lines after the
 history had been cleared

---
 clink/lib/src/history_db.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 55e69dc..6cab09d 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -156,17 +156,32 @@ static void* open_file(const char* path, DWORD& err, bool if_exists=false)
     return handle;
 }
 
+//------------------------------------------------------------------------------
+static void begin_removals(void* handle, const char* ctag)
+{
+    DWORD len = DWORD(strlen(ctag));
+
+    // Offsets that belong to a different ctag are meaningless.
+    char buffer[128];
+    DWORD read = 0;
+    SetFilePointer(handle, 0, nullptr, FILE_BEGIN);
+    ReadFile(handle, buffer, min<DWORD>(len + 1, sizeof(buffer)), &read, nullptr);
+    if (read == len + 1 && memcmp(buffer, ctag, len) == 0 && buffer[len] == '\n')
+        return;
+
+    DWORD written;
+    SetFilePointer(handle, 0, nullptr, FILE_BEGIN);
+    WriteFile(handle, ctag, len, &written, nullptr);
+    WriteFile(handle, "\n", 1, &written, nullptr);
+    SetEndOfFile(handle);
+}
+
 //------------------------------------------------------------------------------
 static void* make_removals_file(const char* path, const char* ctag)
 {
     void* handle = open_file(path);
     if (handle)
-    {
-        DWORD written;
-        DWORD len = DWORD(strlen(ctag));
-        WriteFile(handle, ctag, len, &written, nullptr);
-        WriteFile(handle, "\n", 1, &written, nullptr);
-    }
+        begin_removals(handle, ctag);
     return handle;
 }
 
@@ -803,6 +818,11 @@ bool write_lock::remove(line_id_impl id)
 
     if (m_handle_removals && id.bank_index == bank_master)
     {
+        // The master may have been cleared since the removals file was begun.
+        concurrency_tag tag;
+        if (extract_ctag(*this, tag))
+            begin_removals(m_handle_removals, tag.get());
+
         str<> s;
         s.format("%d\n", id.offset);
 
-- 
2.43.0


From 20195a59a9f63a8e08c70b4f2474609f24fee1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 20/71] fix: a line without a timestamp showed the timestamp of
 the deleted line before it

---
 clink/lib/src/history_db.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 6cab09d..bdfc2ca 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -754,6 +754,11 @@ line_id_impl read_lock::line_iter::next(str_iter& out, str_base* timestamp, hist
         {
             if (!eating_ctag)
                 ++m_deleted;
+            // The timestamp (if any) belongs to the deleted line.
+            if (timestamp)
+                timestamp->clear();
+            if (timestamp_id)
+                *timestamp_id = 0;
             continue;
         }
 
-- 
2.43.0


From 2454ab9358923c49850888565973c91e25031cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 21/71] fix: a history line without newline at the end of the
 file swallowed the next line

---
 clink/lib/src/history_db.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index bdfc2ca..2d31748 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -156,6 +156,26 @@ static void* open_file(const char* path, DWORD& err, bool if_exists=false)
     return handle;
 }
 
+//------------------------------------------------------------------------------
+// Seeks to the end of the file, and terminates the last line if it isn't yet
+// (e.g. a process was ended while writing it, or the file was edited by hand).
+static DWORD seek_to_new_line(void* handle)
+{
+    DWORD offset = SetFilePointer(handle, 0, nullptr, FILE_END);
+    if (offset && offset != INVALID_SET_FILE_POINTER)
+    {
+        char c;
+        DWORD read = 0;
+        DWORD written;
+        SetFilePointer(handle, offset - 1, nullptr, FILE_BEGIN);
+        ReadFile(handle, &c, 1, &read, nullptr);
+        if (read == 1 && c != '\n' && WriteFile(handle, "\n", 1, &written, nullptr))
+            ++offset;
+        SetFilePointer(handle, 0, nullptr, FILE_END);
+    }
+    return offset;
+}
+
 //------------------------------------------------------------------------------
 static void begin_removals(void* handle, const char* ctag)
 {
@@ -801,7 +821,7 @@ void write_lock::clear()
 line_id_impl write_lock::add(const char* line)
 {
     DWORD written;
-    const DWORD offset = SetFilePointer(m_handle_lines, 0, nullptr, FILE_END);
+    const DWORD offset = seek_to_new_line(m_handle_lines);
     if (offset == INVALID_SET_FILE_POINTER)
         return line_id_impl();
     WriteFile(m_handle_lines, line, int32(strlen(line)), &written, nullptr);
@@ -850,7 +870,7 @@ void write_lock::append(const read_lock& src)
 {
     DWORD written;
 
-    SetFilePointer(m_handle_lines, 0, nullptr, FILE_END);
+    seek_to_new_line(m_handle_lines);
 
     history_read_buffer buffer;
     read_lock::file_iter src_iter(src, buffer.data(), buffer.size());
-- 
2.43.0


From b4cde9725963d9b54a74ce178642c0409be1bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 22/71] fix: the last line of a history file was ignored when
 it had no newline

---
 clink/lib/src/history_db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 2d31748..b9af289 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -727,7 +727,7 @@ line_id_impl read_lock::line_iter::next(str_iter& out, str_base* timestamp, hist
                 break;
             }
 
-        if (end == last && start != m_file_iter.get_buffer())
+        if (end == last && start != m_file_iter.get_buffer() && (start == last || m_file_iter.get_remaining()))
         {
             provision();
             continue;
-- 
2.43.0


From 7ec7428f41887dcea52b24af33c8f1f73792c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 23/71] fix: a doskey macro with an argument of 32K or more
 overran the output

---
 clink/lib/src/doskey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/doskey.cpp b/clink/lib/src/doskey.cpp
index 94aa04e..2293918 100644
--- a/clink/lib/src/doskey.cpp
+++ b/clink/lib/src/doskey.cpp
@@ -432,7 +432,7 @@ bool doskey::resolve_impl(str_iter& s, str_stream& out, int32* _point)
     while (tokens.next(token) && (desc = args.push_back()))
     {
         desc->ptr = token.get_pointer();
-        desc->length = short(token.length());
+        desc->length = token.length();
 
         // Find the point range for the arg.
         if (point)
-- 
2.43.0


From a182325a362c6d568323def4b22b4c862e0e2105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 24/71] fix: queued lines of a macro must end with a newline

---
 clink/lib/src/line_queue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/lib/src/line_queue.cpp b/clink/lib/src/line_queue.cpp
index 482bf67..e4fa475 100644
--- a/clink/lib/src/line_queue.cpp
+++ b/clink/lib/src/line_queue.cpp
@@ -131,7 +131,11 @@ bool line_queue::dequeue_line(str_base& out, dequeue_flags& flags)
     m_queued_lines.pop_front();
 
     for (auto& line : queue)
+    {
+        // Lines at the front must always be terminated with a new line.
+        ensure_crlf(line);
         m_queued_lines.emplace_front(std::move(line), dequeue_flags::hide_prompt|dequeue_flags::no_doskey);
+    }
 
     ensure_crlf(out);
 
-- 
2.43.0


From f8902fbc9090d962b79b7fcc35f242dbabeaf79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 25/71] fix: expanding several environment variables misplaced
 the cursor

---
 clink/core/src/os.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/core/src/os.cpp b/clink/core/src/os.cpp
index aac8c6d..f80e97b 100644
--- a/clink/core/src/os.cpp
+++ b/clink/core/src/os.cpp
@@ -844,7 +844,7 @@ bool expand_env(const char* in, uint32 in_len, str_base& out, int32* point)
         if (iter.more())
         {
             start = iter.get_pointer();
-            const int32 offset = int32(start - in);
+            const int32 offset = int32(out.length());
             assert(iter.peek() == '%');
             iter.next();
 
@@ -871,7 +871,7 @@ bool expand_env(const char* in, uint32 in_len, str_base& out, int32* point)
 
                 if (point && *point > offset)
                 {
-                    const int32 replaced_end = int32(iter.get_pointer() - in);
+                    const int32 replaced_end = offset + int32(iter.get_pointer() - start);
                     if (*point <= replaced_end)
                         *point = offset + value.length();
                     else
-- 
2.43.0


From e0a48fd612c95db134f5be1a376e174866566d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 26/71] fix: doskey macros longer than 4095 characters were
 lost

---
 clink/core/src/os.cpp    | 2 +-
 clink/lib/src/doskey.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/core/src/os.cpp b/clink/core/src/os.cpp
index f80e97b..258cb28 100644
--- a/clink/core/src/os.cpp
+++ b/clink/core/src/os.cpp
@@ -988,7 +988,7 @@ bool get_alias(const char* name, str_base& out)
     // Get the alias (aka. doskey macro).
     wstr<32> buffer;
     buffer.reserve(8191);
-    if (GetConsoleAliasW(alias_name.data(), buffer.data(), buffer.size(), const_cast<wchar_t*>(s_shell_name)) == 0)
+    if (GetConsoleAliasW(alias_name.data(), buffer.data(), buffer.size() * sizeof(wchar_t), const_cast<wchar_t*>(s_shell_name)) == 0)
     {
         map_errno();
         return false;
diff --git a/clink/lib/src/doskey.cpp b/clink/lib/src/doskey.cpp
index 2293918..539f738 100644
--- a/clink/lib/src/doskey.cpp
+++ b/clink/lib/src/doskey.cpp
@@ -90,7 +90,7 @@ fallback:
     // It does. Allocate space and fetch it.
     wstr_moveable wtext;
     wtext.reserve(8192, true/*exact*/);
-    GetConsoleAliasW(walias.data(), wtext.data(), wtext.size(), const_cast<wchar_t*>(shell_name));
+    GetConsoleAliasW(walias.data(), wtext.data(), wtext.size() * sizeof(wchar_t), const_cast<wchar_t*>(shell_name));
     text = wtext.c_str();
 
     // Advance the iterator.
-- 
2.43.0


From 260ad5cf27eb5706e229dbb544370205555f6cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 27/71] fix: a queued line that names a directory must change
 to it

---
 clink/app/src/host/host.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/clink/app/src/host/host.cpp b/clink/app/src/host/host.cpp
index a34b85a..7d2b3e0 100644
--- a/clink/app/src/host/host.cpp
+++ b/clink/app/src/host/host.cpp
@@ -472,8 +472,23 @@ bool host::dequeue_line(wstr_base& out, dequeue_flags& flags)
     if (!m_line_queue.dequeue_line(tmp, flags))
         return false;
 
-    if (intercept_directory(tmp.c_str(), &tmp) == intercept_result::prev_dir)
-        prev_dir_history(tmp);
+    // A line that will be shown gets intercepted after it has been edited.  The
+    // line endings must not be mistaken for part of the directory name.
+    if (!check_dequeue_flag(flags, dequeue_flags::show_line))
+    {
+        str_moveable line(tmp.c_str());
+        while (line.length() && strchr("\r\n", line.c_str()[line.length() - 1]))
+            line.truncate(line.length() - 1);
+
+        const intercept_result intercepted = intercept_directory(line.c_str(), &line);
+        if (intercepted == intercept_result::prev_dir)
+            prev_dir_history(line);
+        if (intercepted != intercept_result::none)
+        {
+            line.concat("\r\n");
+            tmp = line.c_str();
+        }
+    }
 
     to_utf16(out, tmp.c_str(), tmp.length());
     return true;
-- 
2.43.0


From aed551562c1cfd5cf3d1f9f5348fbdadc736be0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 28/71] fix: removing an unquoted autorun entry also removed
 commands before it

---
 clink/app/src/loader/autorun.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index b5d4ba5..6f3cec1 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -259,7 +259,7 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
             // Check if clink's path is quoted.  Checking the needle makes
             // sure not to get tricked by a false positive from something else
             // later on in the value.
-            quoted = !!strchr(needles[i], ' ');
+            quoted = !!strchr(needles[i], '\"');
             break;
         }
     }
-- 
2.43.0


From 08a3efdd5af1fe25a5223ee6fb2253744218a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 29/71] fix: removing an autorun entry left parts of quoted
 arguments that contain an ampersand

---
 clink/app/src/loader/autorun.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 6f3cec1..07d1dac 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -267,12 +267,15 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
     if (tag == nullptr)
         return false;
 
-    // Find right most extents of clink's entry.
-    c = strchr(tag, '&');
-    if (c != nullptr)
-        *right = (int32)(c - value);
-    else
-        *right = (int32)strlen(value);
+    // Find right most extents of clink's entry.  An '&' inside quotes belongs
+    // to the entry.
+    i = quoted;
+    for (c = tag; *c && (i || *c != '&'); ++c)
+    {
+        if (*c == '\"')
+            i = !i;
+    }
+    *right = (int32)(c - value);
 
     // When enumerating users, only respond to entries referencing /this/
     // instance of clink.
-- 
2.43.0


From 7e55fbf937c7b1384e47548ab7088e01d89aa9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 30/71] fix: an installed autorun entry broke at an ampersand
 in an unquoted argument

---
 clink/app/src/loader/autorun.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 07d1dac..0bd9326 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -568,7 +568,7 @@ static void success_message(const char* message)
 }
 
 //------------------------------------------------------------------------------
-static bool safe_append_quoted(str_base& s, const char* append)
+static bool safe_append_quoted(str_base& s, const char* append, bool protect_symbols)
 {
     // https://devblogs.microsoft.com/oldnewthing/20100917-00/?p=12833
     // https://docs.microsoft.com/en-us/archive/blogs/twistylittlepassagesallalike/everyone-quotes-command-line-arguments-the-wrong-way
@@ -590,7 +590,10 @@ static bool safe_append_quoted(str_base& s, const char* append)
 
     unsigned backslashes = 0;
 
-    if (space)
+    // A symbol that is special to CMD must be quoted to stay in the argument.
+    const bool quote = space || (protect_symbols && strpbrk(append, "&|<>^") && !strchr(append, '\"'));
+
+    if (quote)
     {
         for (const char* end = append + strlen(append); end-- > append && *end == '\\';)
             ++backslashes;
@@ -599,7 +602,7 @@ static bool safe_append_quoted(str_base& s, const char* append)
 
     s << append;
 
-    if (space)
+    if (quote)
     {
         while (backslashes--)
             s << "\\";
@@ -673,7 +676,7 @@ int32 autorun(int32 argc, char** argv)
     {
         for (int32 i = optind; i < argc; ++i)
         {
-            if (!safe_append_quoted(g_clink_args, argv[i]))
+            if (!safe_append_quoted(g_clink_args, argv[i], function == install_autorun))
             {
                 printf("ERROR: Invalid quoting for argument '%s'.\n", argv[i]);
                 puts("Is a backslash missing?  On Windows, double backslashes before a quote.");
-- 
2.43.0


From 88225540b61c0aa58161beb48f7f8693689151fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 31/71] fix: installing an autorun entry with long arguments
 cut them off

---
 clink/app/src/loader/autorun.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index 0bd9326..dd2e7a7 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -446,7 +446,7 @@ static bool install_autorun(const char* clink_path, int32 wow64)
     get_value(cmd_proc_key, "AutoRun", &key_value);
 
     i = key_value ? (int32)strlen(key_value) : 0;
-    i += 2048;
+    i += g_clink_args.length() + 2048;
     str_base new_value((char*)malloc(i), i);
     new_value.clear();
 
-- 
2.43.0


From 994652bff2fbd74f45c2b4e49ccbf3d59b1c75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 32/71] fix: binding an empty chord twice read a key from
 outside the chord

---
 clink/lib/src/binder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/binder.cpp b/clink/lib/src/binder.cpp
index 2a0232c..7668097 100644
--- a/clink/lib/src/binder.cpp
+++ b/clink/lib/src/binder.cpp
@@ -234,7 +234,8 @@ bool binder::bind(
         if (!(head = insert_child(head, *chord, has_params && *chord == '*')))
             return false;
 
-    --chord;
+    // The last key of the chord; an empty chord has no last key.
+    const uint8 last_key = depth ? *(chord - 1) : 0;
 
     // If the insert point is already bound we'll duplicate the node at the end
     // of the list. Also check if this is a duplicate of the existing bind.
@@ -244,14 +245,14 @@ bool binder::bind(
         int32 check = head;
         while (check > head)
         {
-            if (bindee->key == *chord && bindee->module == module_index && bindee->id == id)
+            if (bindee->key == last_key && bindee->module == module_index && bindee->id == id)
                 return true;
 
             check = bindee->next;
             bindee = m_nodes + check;
         }
 
-        head = append(head, *chord);
+        head = append(head, last_key);
     }
 
     if (!head)
-- 
2.43.0


From 85ae7b5913766f86d4192137ce70c691b8e3e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 33/71] fix: a key sequence that is not bound was taken as
 bound because of another key in it

---
 clink/lib/src/binder.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/binder.cpp b/clink/lib/src/binder.cpp
index 7668097..1e19573 100644
--- a/clink/lib/src/binder.cpp
+++ b/clink/lib/src/binder.cpp
@@ -293,11 +293,12 @@ int32 binder::is_bound(uint32 group, const char* seq, int32 len) const
                 int32 was_index = node_index;
                 node_index = node.next;
 
-                // Check to see if where we're currently at a node in the tree
-                // that is a valid bind (at the point of call).
-                if (node.bound && (!node.key || node.key == *seq))
+                // The sequence doesn't match a chord, so only a catchall can
+                // accept it.  A chord that's only the beginning of the sequence
+                // doesn't count, because the rest would show up as text.
+                if (node.bound && !node.key)
                 {
-                    if (node.key || !ctrl_or_ext)
+                    if (!ctrl_or_ext)
                         return true;
                     if (node.id == id_catchall_only_printable)
                         return -1;
-- 
2.43.0


From 25a12aa5d033ab5d22c4e8c14a4d3be6f7870619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 34/71] fix: numbers in a mouse sequence were counted in the
 keys of a shorter chord

---
 clink/lib/include/lib/input_params.h |  2 ++
 clink/lib/src/bind_resolver.cpp      | 29 ++++++++++++++++++++++------
 clink/lib/src/bind_resolver.h        |  1 +
 clink/lib/src/input_params.cpp       | 11 +++++++++++
 4 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/clink/lib/include/lib/input_params.h b/clink/lib/include/lib/input_params.h
index b6aee48..40bea06 100644
--- a/clink/lib/include/lib/input_params.h
+++ b/clink/lib/include/lib/input_params.h
@@ -12,9 +12,11 @@ public:
     short           length() const;
 protected:
     bool            add(unsigned short value, uint8 len);
+    void            remove_last();
     void            clear();
 private:
     unsigned short  m_params[4];
+    uint8           m_lens[4];
     uint8           m_num = 0;
     short           m_len = 0;
 };
diff --git a/clink/lib/src/bind_resolver.cpp b/clink/lib/src/bind_resolver.cpp
index 9f6cf59..3085cc7 100644
--- a/clink/lib/src/bind_resolver.cpp
+++ b/clink/lib/src/bind_resolver.cpp
@@ -99,9 +99,7 @@ void bind_resolver::set_group(int32 group)
     m_pending_input = true;
 
     m_params.clear();
-    m_param_accumulator = 0;
-    m_param_len = 0;
-    m_pending_param = false;
+    clear_pending_param();
 }
 
 //------------------------------------------------------------------------------
@@ -168,15 +166,21 @@ bool bind_resolver::step_impl(uint8 key)
     else if (m_pending_param)
     {
         m_params.add(m_param_accumulator, m_param_len);
-        m_param_accumulator = 0;
-        m_param_len = 0;
-        m_pending_param = false;
+        clear_pending_param();
     }
 
     m_node_index = next;
     return (node.child == 0);
 }
 
+//------------------------------------------------------------------------------
+void bind_resolver::clear_pending_param()
+{
+    m_param_accumulator = 0;
+    m_param_len = 0;
+    m_pending_param = false;
+}
+
 //------------------------------------------------------------------------------
 bind_resolver::binding bind_resolver::next()
 {
@@ -206,6 +210,16 @@ bind_resolver::binding bind_resolver::next()
         int32 node_index = m_node_index;
         m_node_index = node.next;
 
+        // Leaving a param node leaves the param, so that it isn't counted in
+        // a shorter chord.
+        if (node.has_params)
+        {
+            if (m_pending_param)
+                clear_pending_param();
+            else
+                m_params.remove_last();
+        }
+
         // Check to see if where we're currently at a node in the tree that is
         // a valid bind (at the point of call).
         if (node.bound)
@@ -252,6 +266,9 @@ void bind_resolver::claim(binding& binding)
         m_node_index = m_group;
         m_pending_input = true;
 
+        m_params.clear();
+        clear_pending_param();
+
         binding.m_outer = nullptr;
     }
 }
diff --git a/clink/lib/src/bind_resolver.h b/clink/lib/src/bind_resolver.h
index 1bc7896..dec2cf7 100644
--- a/clink/lib/src/bind_resolver.h
+++ b/clink/lib/src/bind_resolver.h
@@ -61,6 +61,7 @@ public:
 private:
     void                claim(binding& binding);
     bool                step_impl(uint8 key);
+    void                clear_pending_param();
     const binder&       m_binder;
     unsigned short      m_node_index = 1;
     unsigned short      m_group = 1;
diff --git a/clink/lib/src/input_params.cpp b/clink/lib/src/input_params.cpp
index bd9e592..64bf119 100644
--- a/clink/lib/src/input_params.cpp
+++ b/clink/lib/src/input_params.cpp
@@ -37,6 +37,7 @@ bool input_params::add(unsigned short value, uint8 len)
     if (m_num >= sizeof_array(m_params))
         return false;
 
+    m_lens[m_num] = len;
     m_params[m_num++] = value;
     m_len += len;
 
@@ -46,6 +47,16 @@ bool input_params::add(unsigned short value, uint8 len)
     return true;
 }
 
+//------------------------------------------------------------------------------
+void input_params::remove_last()
+{
+    if (!m_num)
+        return;
+
+    m_len -= m_lens[--m_num];
+    m_len++;
+}
+
 //------------------------------------------------------------------------------
 void input_params::clear()
 {
-- 
2.43.0


From 5feb1cb83ff4c2994b2ba6f21d805e087b46f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 35/71] fix: a directory found for a match without a type got
 no trailing separator

---
 clink/lib/src/matches_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/matches_impl.cpp b/clink/lib/src/matches_impl.cpp
index 4291886..4a55cf9 100644
--- a/clink/lib/src/matches_impl.cpp
+++ b/clink/lib/src/matches_impl.cpp
@@ -1273,7 +1273,7 @@ void matches_impl::done_building()
         {
         case slash_translation::slash:      sep = '/'; break;
         case slash_translation::backslash:  sep = '\\'; break;
-        case slash_translation::automatic:  sep = m_sep; break;
+        case slash_translation::automatic:  if (m_sep) sep = m_sep; break;
         }
 
         for (uint32 i = m_count; i--;)
-- 
2.43.0


From a15f26fb737e2f613d052f9cb089ab8def4dc83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 36/71] fix: the count of matches stayed too high when one
 without a type became a duplicate

---
 clink/lib/src/matches_impl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lib/src/matches_impl.cpp b/clink/lib/src/matches_impl.cpp
index 4a55cf9..0386de4 100644
--- a/clink/lib/src/matches_impl.cpp
+++ b/clink/lib/src/matches_impl.cpp
@@ -1305,7 +1305,10 @@ void matches_impl::done_building()
 
                 // Check if it has become a duplicate.
                 if (m_dedup->find(lookup) != m_dedup->end())
+                {
                     m_infos.erase(m_infos.begin() + i);
+                    --m_count;
+                }
                 else
                     m_dedup->emplace(std::move(lookup));
             }
-- 
2.43.0


From 6ef5ff67b9cfe40cbf4f746729adaed8b2bcd559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 37/71] fix: deleting or inserting characters beyond the end of
 the line changed other cells

---
 clink/terminal/src/win_screen_buffer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/terminal/src/win_screen_buffer.cpp b/clink/terminal/src/win_screen_buffer.cpp
index cb23322..7bbe3fc 100644
--- a/clink/terminal/src/win_screen_buffer.cpp
+++ b/clink/terminal/src/win_screen_buffer.cpp
@@ -1054,6 +1054,8 @@ void win_screen_buffer::insert_chars(int32 count)
     if (!GetConsoleScreenBufferInfo(m_handle, &csbi))
         return;
 
+    count = min<int32>(count, csbi.dwSize.X - csbi.dwCursorPosition.X);
+
     SMALL_RECT rect;
     rect.Left = csbi.dwCursorPosition.X;
     rect.Right = csbi.dwSize.X;
@@ -1078,6 +1080,8 @@ void win_screen_buffer::delete_chars(int32 count)
     if (!GetConsoleScreenBufferInfo(m_handle, &csbi))
         return;
 
+    count = min<int32>(count, csbi.dwSize.X - csbi.dwCursorPosition.X);
+
     SMALL_RECT rect;
     rect.Left = csbi.dwCursorPosition.X + count;
     rect.Right = csbi.dwSize.X - 1;
-- 
2.43.0


From 76476f707a60d6efe190c45e104b35693e2712b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 38/71] fix: reverse video lost the underline in the emulated
 terminal

---
 clink/terminal/src/win_screen_buffer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clink/terminal/src/win_screen_buffer.cpp b/clink/terminal/src/win_screen_buffer.cpp
index 7bbe3fc..958376e 100644
--- a/clink/terminal/src/win_screen_buffer.cpp
+++ b/clink/terminal/src/win_screen_buffer.cpp
@@ -1119,9 +1119,9 @@ void win_screen_buffer::set_attributes(attributes attr)
     // Un-reverse so processing can operate on normalized attributes.
     if (m_reverse)
     {
-        int32 fg = (out_attr & ~attr_mask_bg);
+        int32 fg = (out_attr & attr_mask_fg);
         int32 bg = (out_attr & attr_mask_bg);
-        out_attr = (fg << 4) | (bg >> 4);
+        out_attr = (out_attr & ~(attr_mask_fg|attr_mask_bg)) | (fg << 4) | (bg >> 4);
     }
 
     // Note to self; lookup table is probably much faster.
@@ -1200,9 +1200,9 @@ void win_screen_buffer::set_attributes(attributes attr)
     // Apply reverse video
     if (m_reverse)
     {
-        int32 fg = (out_attr & ~attr_mask_bg);
+        int32 fg = (out_attr & attr_mask_fg);
         int32 bg = (out_attr & attr_mask_bg);
-        out_attr = (fg << 4) | (bg >> 4);
+        out_attr = (out_attr & ~(attr_mask_fg|attr_mask_bg)) | (fg << 4) | (bg >> 4);
     }
 
     out_attr |= csbi.wAttributes & ~attr_mask_all;
-- 
2.43.0


From faaee8a2d6444b8e05917d567261e4712c12a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 39/71] fix: bold was lost when a color followed in a separate
 sequence in the emulated terminal

---
 clink/terminal/src/win_screen_buffer.cpp | 25 ++++++++----------------
 clink/terminal/src/win_screen_buffer.h   |  1 +
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/clink/terminal/src/win_screen_buffer.cpp b/clink/terminal/src/win_screen_buffer.cpp
index 958376e..606058e 100644
--- a/clink/terminal/src/win_screen_buffer.cpp
+++ b/clink/terminal/src/win_screen_buffer.cpp
@@ -655,13 +655,14 @@ void win_screen_buffer::begin()
     if (GetConsoleScreenBufferInfo(m_handle, &csbi))
     {
         m_default_attr = csbi.wAttributes & attr_mask_all;
-        m_bold = !!(m_default_attr & attr_mask_bold);
+        m_bright = !!(m_default_attr & attr_mask_bold);
     }
     else
     {
         m_default_attr = 0x07;
-        m_bold = false;
+        m_bright = false;
     }
+    m_bold = false;
     m_reverse = false;
 
     char native_vt = m_native_vt;
@@ -1135,12 +1136,8 @@ void win_screen_buffer::set_attributes(attributes attr)
         return;
 
     // Bold
-    bool apply_bold = false;
     if (auto bold_attr = attr.get_bold())
-    {
         m_bold = !!(bold_attr.value);
-        apply_bold = true;
-    }
 
     // Underline
     if (auto underline = attr.get_underline())
@@ -1152,16 +1149,13 @@ void win_screen_buffer::set_attributes(attributes attr)
     }
 
     // Foreground color
-    bool bold = m_bold;
     if (auto fg = attr.get_fg())
     {
         int32 value = fg.is_default ? m_default_attr : swizzle(fg->value);
         value &= attr_mask_fg;
         out_attr = (out_attr & ~attr_mask_fg) | value;
-        bold |= (value > 7);
+        m_bright = (value > 7);
     }
-    else
-        bold |= (out_attr & attr_mask_bold) != 0;
 
     // Adjust intensity per bold.  Bold can add intensity.  Nobold can remove
     // intensity added by bold, but cannot remove intensity built into the
@@ -1178,13 +1172,10 @@ void win_screen_buffer::set_attributes(attributes attr)
     //  - If the color is 1;96 (bold bright cyan) then nobold has no visible
     //    effect (but some terminal implementations apply a non-bold font with
     //    bright cyan as the color).
-    if (apply_bold)
-    {
-        if (bold)
-            out_attr |= attr_mask_bold;
-        else
-            out_attr &= ~attr_mask_bold;
-    }
+    if (m_bold || m_bright)
+        out_attr |= attr_mask_bold;
+    else
+        out_attr &= ~attr_mask_bold;
 
     // Background color
     if (auto bg = attr.get_bg())
diff --git a/clink/terminal/src/win_screen_buffer.h b/clink/terminal/src/win_screen_buffer.h
index da7b364..15e0b66 100644
--- a/clink/terminal/src/win_screen_buffer.h
+++ b/clink/terminal/src/win_screen_buffer.h
@@ -61,6 +61,7 @@ private:
     uint16          m_default_attr = 0x07;
     uint16          m_ready = 0;
     bool            m_bold = false;
+    bool            m_bright = false;
     bool            m_reverse = false;
     char            m_native_vt = -1;
 
-- 
2.43.0


From 1436bcc1ddeb150c63c529f7cc68e210ed4f3745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 40/71] fix: invalid UTF-8 written a byte at a time overflowed
 the buffer of the terminal output

---
 clink/terminal/src/ecma48_terminal_out.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/terminal/src/ecma48_terminal_out.cpp b/clink/terminal/src/ecma48_terminal_out.cpp
index 540ca92..9b96c2d 100644
--- a/clink/terminal/src/ecma48_terminal_out.cpp
+++ b/clink/terminal/src/ecma48_terminal_out.cpp
@@ -548,6 +548,11 @@ void ecma48_terminal_out::reset_private_mode(const ecma48_code::csi_base& csi)
 //------------------------------------------------------------------------------
 int32 ecma48_terminal_out::build_pending(char c)
 {
+    // Anything but a continuation byte means the pending bytes can't become a
+    // valid character; discard them.
+    if (m_pending && (c & 0xc0) != 0x80)
+        reset_pending();
+
     if (!m_pending)
     {
         m_ax = 0;
-- 
2.43.0


From 2a40c3fbd22b8b01bd0536a79515cc2f8cfbe6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 41/71] fix: searching the screen past its last line reported
 the first line as found

---
 clink/terminal/src/find_line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/terminal/src/find_line.cpp b/clink/terminal/src/find_line.cpp
index a1625b3..b95695d 100644
--- a/clink/terminal/src/find_line.cpp
+++ b/clink/terminal/src/find_line.cpp
@@ -68,7 +68,7 @@ int32 find_line(HANDLE h, const CONSOLE_SCREEN_BUFFER_INFO& csbi,
     while (distance != 0)
     {
         if (starting_line < 0 || starting_line >= csbi.dwSize.Y)
-            return 0;
+            return -1;
 
         bool found_text = true;
         if (text)
-- 
2.43.0


From 3be8604c4a891427d92c1abed2d9556fa1182660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 42/71] fix: searching the screen for text while ignoring case
 compared with the unchanged line

---
 clink/terminal/src/find_line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/terminal/src/find_line.cpp b/clink/terminal/src/find_line.cpp
index b95695d..3ade297 100644
--- a/clink/terminal/src/find_line.cpp
+++ b/clink/terminal/src/find_line.cpp
@@ -115,9 +115,9 @@ int32 find_line(HANDLE h, const CONSOLE_SCREEN_BUFFER_INFO& csbi,
             {
                 // Presume that str_transform preserved the alignment between
                 // text and attributes.
-                const wchar_t* found = wcsstr(chars_buffer, find.c_str());
+                const wchar_t* found = wcsstr(line_text, find.c_str());
                 found_text = !!found;
-                start_found = int32(found - chars_buffer);
+                start_found = int32(found - line_text);
                 len_found = find.length();
             }
         }
-- 
2.43.0


From adc83a91dcef36c13565442b85f60c7ff0831ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 43/71] fix: searching the screen for text and colors stopped
 at the first line without the text

---
 clink/terminal/src/find_line.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clink/terminal/src/find_line.cpp b/clink/terminal/src/find_line.cpp
index 3ade297..a6c5e59 100644
--- a/clink/terminal/src/find_line.cpp
+++ b/clink/terminal/src/find_line.cpp
@@ -117,13 +117,16 @@ int32 find_line(HANDLE h, const CONSOLE_SCREEN_BUFFER_INFO& csbi,
                 // text and attributes.
                 const wchar_t* found = wcsstr(line_text, find.c_str());
                 found_text = !!found;
-                start_found = int32(found - line_text);
-                len_found = find.length();
+                if (found_text)
+                {
+                    start_found = int32(found - line_text);
+                    len_found = find.length();
+                }
             }
         }
 
         bool found_attr = true;
-        if (attrs && num_attrs)
+        if (found_text && attrs && num_attrs)
         {
             found_attr = false;
 
-- 
2.43.0


From 5f808b9efbd5bb66dfaa311ce7ea7a8bc900da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 44/71] fix: wildmatch of ** and of leading periods

A pattern that begins with ** read before the pattern, **/ was tried from the
start of the string (so it could match backwards), and WM_PERIOD was dropped
behind a star.
---
 wildmatch/wildmatch/wildmatch.c | 52 ++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index 0e73411..4bb3373 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -75,9 +75,15 @@ static char const *find_slash(const char *s, int flags)
 }
 /* end_clink_change */
 
-int wildmatch(const char *pattern, const char *string, int flags)
+/* begin_clink_change */
+//int wildmatch(const char *pattern, const char *string, int flags)
+static int match_from(const char *pattern, const char *patternstart,
+                      const char *string, const char *stringstart, int flags)
+/* end_clink_change */
 {
-    const char *stringstart;
+/* begin_clink_change */
+    //const char *stringstart;
+/* end_clink_change */
     const char *newp;
     const char *slash;
     char c, test;
@@ -89,7 +95,10 @@ int wildmatch(const char *pattern, const char *string, int flags)
         flags |= WM_PATHNAME;
     }
 
-    for (stringstart = string;;) {
+/* begin_clink_change */
+    //for (stringstart = string;;) {
+    for (;;) {
+/* end_clink_change */
         switch (c = *pattern++) {
         case EOS:
 /* begin_clink_change */
@@ -119,7 +128,12 @@ int wildmatch(const char *pattern, const char *string, int flags)
             c = *pattern;
             wild = check_flag(flags, WM_WILDSTAR) && c == '*';
             if (wild) {
-                prev = pattern[-2];
+/* begin_clink_change */
+                /* A pattern that begins with ** is like one that begins with
+                 * a slash and **; there is nothing before it to look at. */
+                //prev = pattern[-2];
+                prev = (pattern - 1 > patternstart) ? pattern[-2] : '/';
+/* end_clink_change */
                 /* Collapse multiple stars and slash-** patterns,
                  * e.g. "** / *** / **** / **" (without spaces)
                  * is treated as a single ** wildstar.
@@ -135,8 +149,13 @@ int wildmatch(const char *pattern, const char *string, int flags)
                         c = *++pattern;
                     }
                 }
+/* begin_clink_change */
+                //if (c == '/' &&
+                //        wildmatch(pattern+1, string, flags) == WM_MATCH) {
                 if (c == '/' &&
-                        wildmatch(pattern+1, string, flags) == WM_MATCH) {
+                        match_from(pattern+1, patternstart, string,
+                                   stringstart, flags) == WM_MATCH) {
+/* end_clink_change */
                     return WM_MATCH;
                 }
             } else {
@@ -172,16 +191,18 @@ int wildmatch(const char *pattern, const char *string, int flags)
                 if (wild) {
 /* begin_clink_change */
                     //slash = strchr(stringstart, '/');
-                    slash = find_slash(stringstart, flags);
+                    slash = find_slash(string, flags);
 /* end_clink_change */
                     if (!slash) {
                         return WM_NOMATCH;
                     }
                     while (slash) {
-                        if (wildmatch(pattern+1, slash+1, flags) == 0) {
+/* begin_clink_change */
+                        //if (wildmatch(pattern+1, slash+1, flags) == 0) {
+                        if (match_from(pattern+1, patternstart, slash+1,
+                                       stringstart, flags) == WM_MATCH) {
                             return WM_MATCH;
                         }
-/* begin_clink_change */
                         //slash = strchr(slash+1, '/');
                         slash = find_slash(slash+1, flags);
 /* end_clink_change */
@@ -201,9 +222,13 @@ int wildmatch(const char *pattern, const char *string, int flags)
             }
             /* General case, use recursion. */
             while ((test = *string) != EOS) {
-                if (!wildmatch(pattern, string, flags & ~WM_PERIOD))
-                    return WM_MATCH;
 /* begin_clink_change */
+                /* The start of the string is passed along, so that WM_PERIOD
+                 * still applies after a slash. */
+                //if (!wildmatch(pattern, string, flags & ~WM_PERIOD))
+                if (match_from(pattern, patternstart, string, stringstart,
+                               flags) == WM_MATCH)
+                    return WM_MATCH;
                 //if (test == '/' && check_flag(flags, WM_PATHNAME))
                 if (is_slash(test, flags) && check_flag(flags, WM_PATHNAME))
 /* end_clink_change */
@@ -267,6 +292,13 @@ int wildmatch(const char *pattern, const char *string, int flags)
     }
 }
 
+/* begin_clink_change */
+int wildmatch(const char *pattern, const char *string, int flags)
+{
+    return match_from(pattern, pattern, string, string, flags);
+}
+/* end_clink_change */
+
 static int
 rangematch(const char *pattern, char test, int flags, const char **newp)
 {
-- 
2.43.0


From 269ff18f260119c221c7ad3b8ec61e0505bf55a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 45/71] fix: wildmatch sets

An unterminated set skipped a character, single characters of a set did not
match in the other case with WM_CASEFOLD, and character classes were asked about
negative characters.
---
 wildmatch/wildmatch/wildmatch.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index 4bb3373..1cb4dc4 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -254,9 +254,12 @@ static int match_from(const char *pattern, const char *patternstart,
 
             switch (rangematch(pattern, *string, flags, &newp)) {
             case RANGE_ERROR:
-                /* not a good range, treat as normal text */
-                ++string;
-                goto normal;
+/* begin_clink_change */
+                /* not a good range; the same as in git, it matches nothing */
+                //++string;
+                //goto normal;
+                return WM_NOMATCH;
+/* end_clink_change */
             case RANGE_MATCH:
                 pattern = newp;
                 break;
@@ -370,7 +373,7 @@ rangematch(const char *pattern, char test, int flags, const char **newp)
 
             #define check_pattern(name, predicate, value) {{ \
                 if (match_pattern(name ":]")) { \
-                    if (predicate(value)) { \
+                    if (predicate((unsigned char)(value))) { \
                         ok = 1; \
                     } \
                     pattern += sizeof(name ":]"); \
@@ -392,10 +395,14 @@ rangematch(const char *pattern, char test, int flags, const char **newp)
             check_pattern("punct", ispunct, test);
             check_pattern("space", isspace, test);
             check_pattern("xdigit", isxdigit, test);
-            c2 = check_flag(flags, WM_CASEFOLD) ? toupper(test) : test;
+            c2 = check_flag(flags, WM_CASEFOLD) ? toupper((unsigned char)test) : test;
             check_pattern("upper", isupper, c2);
             /* fallthrough means match like a normal character */
         }
+/* begin_clink_change */
+        if (check_flag(flags, WM_CASEFOLD))
+            c = tolower((unsigned char)c);
+/* end_clink_change */
         if (c == test) {
             ok = 1;
         }
-- 
2.43.0


From 66516207fc300407d7e2ab2da286c9515cf98ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 46/71] fix: wildmatch reads past the end of the string for a
 backslash at the end of the pattern

---
 wildmatch/wildmatch/wildmatch.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wildmatch/wildmatch/wildmatch.c b/wildmatch/wildmatch/wildmatch.c
index 1cb4dc4..445479a 100644
--- a/wildmatch/wildmatch/wildmatch.c
+++ b/wildmatch/wildmatch/wildmatch.c
@@ -273,14 +273,16 @@ static int match_from(const char *pattern, const char *patternstart,
                 if ((c = *pattern++) == EOS) {
                     c = '\\';
                     --pattern;
-                    if (*(string+1) == EOS) {
+/* begin_clink_change */
+                    //if (*(string+1) == EOS) {
+                    if (*string == EOS || *(string+1) == EOS) {
+/* end_clink_change */
                         return WM_NOMATCH;
                     }
                 }
             }
             /* FALLTHROUGH */
         default:
-        normal:
             if (c != *string && !(check_flag(flags, WM_CASEFOLD) &&
                  (tolower((unsigned char)c) ==
                  tolower((unsigned char)*string))))
-- 
2.43.0


From ee420ea094811c555471be058f12bcc54aff03b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 47/71] fix: consecutive kill-region joined text in the wrong
 order

Deleting the region moves the mark, and the direction of the kill was
determined from the mark afterwards.
---
 readline/readline/kill.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/readline/readline/kill.c b/readline/readline/kill.c
index 62c13a2..1ea949f 100644
--- a/readline/readline/kill.c
+++ b/readline/readline/kill.c
@@ -448,13 +448,23 @@ static int
 region_kill_internal (int delete)
 {
   char *text;
+/* begin_clink_change */
+  int append;
+/* end_clink_change */
 
   if (rl_mark != rl_point)
     {
+/* begin_clink_change */
+      /* Deleting text can move rl_mark, so check the direction first. */
+      append = rl_point < rl_mark;
+/* end_clink_change */
       text = rl_copy_text (rl_point, rl_mark);
       if (delete)
 	rl_delete_text (rl_point, rl_mark);
-      _rl_copy_to_kill_ring (text, rl_point < rl_mark);
+/* begin_clink_change */
+      //_rl_copy_to_kill_ring (text, rl_point < rl_mark);
+      _rl_copy_to_kill_ring (text, append);
+/* end_clink_change */
     }
 
   _rl_fix_point (1);
-- 
2.43.0


From 5338379fd90e39bbf74add692eb0c9fbf6ae0ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 48/71] fix: typing on at the end of an edited history line was
 lost when moving

The insertion extends the undo entry at the head of the list, so the line was
thought to be unchanged.
---
 readline/readline/misc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index 614428f..6912739 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -381,7 +381,13 @@ _rl_maybe_replace_line (int clear_undo)
 
   temp = current_history ();
   /* If the current line has changed, save the changes. */
-  if (temp && ((UNDO_LIST *)(temp->data) != rl_undo_list))
+/* begin_clink_change */
+  /* An insertion can extend the undo entry at the head of the list, so the
+     line may differ even though the head of the list is the same. */
+  //if (temp && ((UNDO_LIST *)(temp->data) != rl_undo_list))
+  if (temp && ((UNDO_LIST *)(temp->data) != rl_undo_list ||
+	       (rl_undo_list && strcmp (temp->line, rl_line_buffer) != 0)))
+/* end_clink_change */
     {
       temp = replace_history_entry (where_history (), rl_line_buffer, (histdata_t)rl_undo_list);
       xfree (temp->line);
-- 
2.43.0


From 8c9ab404631cb7decfa9cd575b14b11d4578db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 49/71] fix: undo was lost by moving back from the oldest
 history line

---
 readline/readline/misc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index 6912739..c2487cc 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -785,6 +785,12 @@ rl_get_previous_history (int count, int key)
 
   r = _rl_previous_history_internal (count);
 
+/* begin_clink_change */
+  /* Still editing the same history line, so keep its undo list. */
+  if (r == 0 && current_history ())
+    rl_undo_list = (UNDO_LIST *)current_history ()->data;
+/* end_clink_change */
+
   if (r == 0 && had_saved_line == 0)	/* failed to find previous history */
     _rl_free_saved_history_line ();
 
-- 
2.43.0


From d07801f38ee6b2536209b326fa9252e502fa6da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 50/71] fix: undo after add-history put text of the added line
 into the new line

---
 readline/readline/misc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index c2487cc..75850e1 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -919,6 +919,11 @@ rl_add_history (int count, int key)
   if (current_history() && rl_undo_list)
     rl_undo_list = 0;
 
+  /* Otherwise it describes changes to the text that is about to be cleared,
+     so it cannot be applied to the new line. */
+  if (rl_undo_list)
+    rl_free_undo_list ();
+
   /* Add new history entry. */
   /* NOTE:  If the host app removes duplicates, then this might result in a
      different history list state in memory than what the host app has in its
-- 
2.43.0


From efaae745b2b2f91f0f88d49b9dcc38e817476839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 51/71] fix: $if with a variable that has no value crashed
 while reading an inputrc file

---
 readline/readline/bind.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/readline/readline/bind.c b/readline/readline/bind.c
index e897693..50d70f8 100644
--- a/readline/readline/bind.c
+++ b/readline/readline/bind.c
@@ -1548,6 +1548,10 @@ parser_if (char *args)
       prevc = args[i];
       args[i] = '\0';		/* null-terminate valuearg */
       vval = rl_variable_value (vname);
+/* begin_clink_change */
+      if (vval == 0)		/* some variables have no value until set */
+	vval = "";
+/* end_clink_change */
       if (op == OP_EQ)
         _rl_parsing_conditionalized_out = _rl_stricmp (vval, valuearg) != 0;
       else if (op == OP_NE)
-- 
2.43.0


From fe86549da20c38c06670268b7b4404bb36cda822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 52/71] fix: answers to OSC terminal requests were never
 recognized

---
 clink/terminal/src/win_terminal_in.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 3e8b7b9..a92a4d2 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -753,12 +753,12 @@ int32 win_terminal_in::peek()
     return terminal_in::input_none;
 }
 
-static bool is_final_byte(const char* final, const char* candidate)
+static bool is_final_byte(const char* final, const char* begin, const char* candidate)
 {
     if (final)
         return (*candidate == *final);
     else
-        return (!(*candidate == 0x07) && !(*candidate == '\\' && candidate[-1] == 27));
+        return (*candidate == 0x07 || (*candidate == '\\' && candidate > begin && candidate[-1] == 27));
 }
 
 static bool is_matching_response(const str_base& input, const char* prefix, const char* final, str_base& out, size_t& begin_offset, size_t& end_offset)
@@ -797,7 +797,7 @@ static bool is_matching_response(const str_base& input, const char* prefix, cons
         if (matched)
         {
             const char* last = code.get_pointer() + code.get_length() - 1;
-            if (!is_final_byte(final, last))
+            if (!is_final_byte(final, code.get_pointer(), last))
                 matched = nullptr;
         }
 
@@ -936,7 +936,7 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
 
             correlation.char_count = input.length() - correlation.stream_index;
 
-            if (input.length() && is_final_byte(final, input.c_str() + input.length() - 1))
+            if (input.length() && is_final_byte(final, input.c_str(), input.c_str() + input.length() - 1))
             {
                 size_t begin_offset;
                 size_t end_offset;
-- 
2.43.0


From b337df20b687098c5d06ae69b31acf6be7f74751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 53/71] fix: a mouse click was lost when it was peeked at
 before it was read

---
 clink/terminal/src/win_terminal_in.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index a92a4d2..7507c96 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -1041,6 +1041,7 @@ bool win_terminal_in::peek_record(const INPUT_RECORD& record, int32* peeked)
     bool ret = false;
     const uint32 buffer_count = m_buffer_count;
     const wchar_t lead_surrogate = m_lead_surrogate;
+    const DWORD prev_mouse_button_state = m_prev_mouse_button_state;
 
     switch (record.EventType)
     {
@@ -1060,6 +1061,8 @@ bool win_terminal_in::peek_record(const INPUT_RECORD& record, int32* peeked)
     case MOUSE_EVENT:
         process_input(record.Event.MouseEvent, true/*peek*/);
         ret = (m_buffer_count > buffer_count);
+        if (ret)
+            m_prev_mouse_button_state = prev_mouse_button_state; // Revert.
         if (peeked)
         {
             const uint8 c = ret ? m_buffer[m_buffer_head] : input_none_byte;
-- 
2.43.0


From 922dd5f134e4b2b8a16307fed7b881449bf32379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 54/71] fix: a terminal request lost mouse clicks and
 characters beyond U+FFFF that came with the answer

---
 clink/terminal/src/win_terminal_in.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 7507c96..df74f19 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -877,6 +877,7 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
     auto buffer_head = m_buffer_head;
     auto buffer_count = m_buffer_count;
     auto lead_surrogate = m_lead_surrogate;
+    auto prev_mouse_button_state = m_prev_mouse_button_state;
     memcpy(buffer, m_buffer, sizeof(m_buffer));
     m_pending_records.swap(pending_records);
     m_processed_records.swap(processed_records);
@@ -927,6 +928,7 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
             correlation.stream_index = input.length();
 
             read_console(nullptr, 0, false);
+            assert(correlation.record_index + 1 == m_processed_records.size());
 
             while (m_buffer_count)
             {
@@ -958,13 +960,10 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
                     assert(begin_erasure < correlations.size());
                     if (begin_erasure < correlations.size())
                     {
-                        assert(correlations.size() == m_processed_records.size());
-                        const size_t index_erase = correlations[begin_erasure].record_index;
-                        for (size_t ii = begin_erasure; ii < correlations.size(); ++ii)
+                        for (size_t ii = correlations.size(); ii-- > begin_erasure;)
                         {
-                            if (correlations[ii].stream_index >= end_offset)
-                                break;
-                            m_processed_records.erase(m_processed_records.begin() + index_erase);
+                            if (correlations[ii].stream_index < end_offset)
+                                m_processed_records.erase(m_processed_records.begin() + correlations[ii].record_index);
                         }
                     }
                     break;
@@ -981,6 +980,7 @@ bool win_terminal_in::send_terminal_request(const char* request, const char* pre
     m_buffer_head = buffer_head;
     m_buffer_count = buffer_count;
     m_lead_surrogate = lead_surrogate;
+    m_prev_mouse_button_state = prev_mouse_button_state;
 
     // Any processed records go at the beginning of the pending record stack.
     // Then push the pre-existing pending records to keep them in proper
@@ -1298,6 +1298,11 @@ void win_terminal_in::read_console(input_idle* callback, DWORD _timeout, bool pe
                 m_pending_records.push_back(record);
                 return;
             }
+
+            // The record may be needed when the records after it get processed
+            // again (e.g. a lead surrogate, or releasing a mouse button).
+            if (s_sending_terminal_request)
+                m_processed_records.push_back(record);
         }
         else
         {
-- 
2.43.0


From 9936ece6f0e8e4413e767b60b7b0e42a85baed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 55/71] fix: report the paths removed by uninstallscripts --all

---
 clink/app/src/loader/installscripts.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clink/app/src/loader/installscripts.cpp b/clink/app/src/loader/installscripts.cpp
index 757a328..6808dce 100644
--- a/clink/app/src/loader/installscripts.cpp
+++ b/clink/app/src/loader/installscripts.cpp
@@ -218,15 +218,16 @@ int32 uninstallscripts(int32 argc, char** argv)
             return 1;
         }
 
+        // Get the list before clearing it, to be able to report what's removed.
+        str<> list;
+        get_installed_scripts(list);
+
         if (!set_installed_scripts(""))
         {
             puts("ERROR: Unable to update registry.");
             return 1;
         }
 
-        str<> list;
-        get_installed_scripts(list);
-
         str_tokeniser tokens(list.c_str(), ";");
         str_iter token;
         while (tokens.next(token))
-- 
2.43.0


From 0e77b5b009bd1ba5fb77b467b8b2381cd732ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 56/71] fix: reprint the right line when finishing a wrap below
 a prompt that wraps

---
 clink/lib/src/display_readline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index aecee31..a3aa53e 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2979,7 +2979,7 @@ void display_manager::finish_pending_wrap()
 
     // If there's a display_line, then re-print its first character to force
     // wrapping.  Otherwise, print a placeholder.
-    const int32 index = m_pending_wrap_display->top() +  _rl_last_v_pos;
+    const int32 index = m_pending_wrap_display->top() + _rl_last_v_pos - m_last_prompt_line_botlin;
     assert(index >= 0);
     if (index < m_pending_wrap_display->count())
     {
-- 
2.43.0


From 3f4e71ca7c782697dd7eb353adc95c6a7a5814a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 57/71] fix: keep the cursor's row in view when the prompt
 wraps

---
 clink/lib/src/display_readline.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index a3aa53e..2647ee5 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1967,15 +1967,15 @@ void display_manager::display()
     const uint32 old_top = m_top;
     if (m_top < m_last_prompt_line_botlin)
         m_top = m_last_prompt_line_botlin;
-    if (m_last_prompt_line_botlin + next->vpos() < m_top)
-        m_top = m_last_prompt_line_botlin + next->vpos();
-    if (m_last_prompt_line_botlin + next->vpos() > m_top + input_botlin_offset)
+    if (next->vpos() < m_top)
+        m_top = next->vpos();
+    if (next->vpos() > m_top + input_botlin_offset)
         m_top = next->vpos() - input_botlin_offset;
     if (m_top + input_botlin_offset + 1 > next->count())
         m_top = next->count() - 1 - input_botlin_offset;
 
     // Scroll when cursor is on a scroll marker.
-    if (m_top > m_last_prompt_line_botlin && m_top == m_last_prompt_line_botlin + next->vpos())
+    if (m_top > m_last_prompt_line_botlin && m_top == next->vpos())
     {
         const display_line* d = next->get(m_top);
         if (next->cpos() >= d->m_x && next->cpos() < d->m_x + c_horz_scroll_indicator_chars)
-- 
2.43.0


From 924a383088a08ada7deccd1eaf79b86f5a6d73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 58/71] fix: scroll when the cursor is under the marker at the
 end of the last visible row

---
 clink/lib/src/display_readline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 2647ee5..0eaab12 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1983,7 +1983,11 @@ void display_manager::display()
     }
     else if (m_top + input_botlin_offset < next->count() - 1 && m_top + input_botlin_offset == next->vpos())
     {
-        if (next->cpos() + c_horz_scroll_indicator_chars >= _rl_screenwidth && next->cpos() < _rl_screenwidth)
+        // The marker has a trailing space, and it replaces all of any character
+        // that it overlaps.
+        wcwidth_iter iter(rl_line_buffer + rl_point, rl_end - rl_point);
+        const int32 width = iter.next() ? max<int32>(1, iter.character_wcwidth_onectrl()) : 1;
+        if (next->cpos() + width + c_horz_scroll_indicator_chars >= _rl_screenwidth && next->cpos() < _rl_screenwidth)
             m_top++;
     }
     assert(m_top >= m_last_prompt_line_botlin);
-- 
2.43.0


From 9aad5a7774c2a70545e63610c055978ce10283af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 59/71] fix: keep the columns of a row whose first wide
 character is replaced by a marker

---
 clink/lib/src/display_readline.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 0eaab12..c68af1d 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -929,6 +929,14 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
                     bytes--;
                     i++;
                 }
+                // Keep the columns of the rest of the row where they were.
+                while (--wc > 0 && bytes > 0)
+                {
+                    d.m_chars[i] = ' ';
+                    d.m_faces[i] = FACE_NORMAL;
+                    bytes--;
+                    i++;
+                }
                 d.m_scroll_mark = c_horz_scroll_indicator_chars;
                 if (bytes > 0)
                 {
@@ -936,8 +944,6 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
                     memmove(d.m_faces + i, d.m_faces + i + bytes, d.m_len - (i + bytes));
                     d.m_len -= bytes;
                 }
-                while (--wc > 0)
-                    d.appendspace();
                 d.appendnul();
                 break;
             }
-- 
2.43.0


From e170762fda001db798fd68d812e791e321aaa9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 60/71] fix: don't wrap past the last visible row when it ends
 with a marker

---
 clink/lib/src/display_readline.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index c68af1d..2397d73 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2728,6 +2728,13 @@ left_whole:
             // the escape code clears to the screen width.
             clear_to_eol(_rl_screenwidth - rcol);
         }
+        else if (!d->m_toeol && lastcol >= _rl_screenwidth)
+        {
+            // Printing spaces through the last column after a scroll marker
+            // would wrap to a row that isn't part of the display.
+            move_to_column(d->m_lastcol);
+            clear_to_eol(lastcol - d->m_lastcol);
+        }
         else
         {
             // m_lastcol does not include filler spaces; and that's fine since
-- 
2.43.0


From d9d2962891a32634cb83ed750908b8ed9b20ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 61/71] fix: count a control character once when scrolling
 horizontally

---
 clink/lib/src/display_readline.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 2397d73..708a2ce 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -843,25 +843,27 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
             continue;
         }
 
+        if (col + tmp.length() > limit)
+        {
+            overflow = true;
+            break;
+        }
+
         const char face = rl_get_face_func(index, hl_begin, hl_end);
 
         if (index == rl_point)
             m_cpos = col;
 
-        for (const char* add = tmp.c_str(); *add; ++add, ++index)
+        for (const char* add = tmp.c_str(); *add; ++add)
         {
-            if (col >= limit)
-                break;
-
             assert(*add >= 0 && *add <= 0x7f); // Only ASCII characters are generated.
             d->append(*add, face);
             ++col;
         }
 
-        assert(uint32(iter.character_pointer() + iter.character_length() - buffer) == index);
+        ++index;
 
-        if (col >= limit)
-            break;
+        assert(uint32(iter.character_pointer() + iter.character_length() - buffer) == index);
     }
 
     assert(uint32(iter.character_pointer() - buffer) == index);
-- 
2.43.0


From 6c996d857619972e5efea1ba29904a38e94d222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 62/71] fix: don't split a character when scrolling
 horizontally

---
 clink/lib/src/display_readline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 708a2ce..d0f9f59 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -753,6 +753,10 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
     m_width = _rl_screenwidth;
     m_horz_start = ref.m_horz_start;
 
+    // The buffer may have changed; don't start in the middle of a character.
+    while (m_horz_start && m_horz_start < len && (buffer[m_horz_start] & 0xc0) == 0x80)
+        --m_horz_start;
+
     m_prompt_botlin = prompt_botlin;
     while (prompt_botlin--)
         next_line(0);
@@ -774,7 +778,7 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
         {
             m_horz_start = point;
             if (!adjust_columns(m_horz_start, 0 - scroll_stride*2, buffer, len))
-                m_horz_start++;
+                adjust_columns(m_horz_start, 1, buffer, len);
         }
     }
 
-- 
2.43.0


From 4f2f96efb4b8d279dc8b8a755d5f6e8b8befeb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:21 +0000
Subject: [PATCH 63/71] fix: quotes of the other kind inside a quoted string
 end its protection from history expansion

---
 clink/lib/src/history_db.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index b9af289..02fbdae 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -122,8 +122,16 @@ static int32 history_expand_control(char* line, int32 marker_pos)
     for (i = 0; i < marker_pos && *line; ++i, ++line)
     {
         int32 c = *line;
-        if (c == '\'' || c == '\"')
-            in_quote = (c == in_quote) ? 0 : c;
+        if (in_quote)
+        {
+            // The other kind of quote isn't special inside a quoted string.
+            if (c == in_quote)
+                in_quote = 0;
+        }
+        else if (c == '\'' || c == '\"')
+        {
+            in_quote = c;
+        }
     }
 
     switch (setting)
-- 
2.43.0


From 3bb1b9337cc12c8f327b7dc18986ad828c9e244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 64/71] fix: word number 36 in history expansion means the last
 word

---
 readline/readline/histexpand.c | 49 ++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/readline/readline/histexpand.c b/readline/readline/histexpand.c
index 5395d8c..3efadf1 100644
--- a/readline/readline/histexpand.c
+++ b/readline/readline/histexpand.c
@@ -26,6 +26,7 @@
 #endif
 
 #include <stdio.h>
+#include <limits.h>
 
 #if defined (HAVE_STDLIB_H)
 #  include <stdlib.h>
@@ -77,6 +78,9 @@ static int subst_rhs_len;
 static char *history_event_delimiter_chars = HISTORY_EVENT_DELIMITERS;
 
 static char *get_history_word_specifier (const char *, char *, int *);
+/* begin_clink_change */
+static char *arg_extract (int, int, int, const char *);
+/* end_clink_change */
 static int history_tokenize_word (const char *, int);
 static char **history_tokenize_internal (const char *, int, int *);
 static char *history_substring (const char *, int, int);
@@ -1449,6 +1453,12 @@ history_expand (const char *hstring, char **output)
   return (modified != 0);
 }
 
+/* begin_clink_change */
+/* Stands for the last word in a word specifier; unlike `$' (36) it can't be
+   confused with the number of a word. */
+#define LAST_ARG INT_MIN
+/* end_clink_change */
+
 /* Return a consed string which is the word specified in SPEC, and found
    in FROM.  NULL is returned if there is no spec.  The address of
    ERROR_POINTER is returned if the word specified cannot be found.
@@ -1487,7 +1497,7 @@ get_history_word_specifier (const char *spec, char *from, int *caller_index)
   if (spec[i] == '*')
     {
       *caller_index = i + 1;
-      result = history_arg_extract (1, '$', from);
+      result = arg_extract (1, LAST_ARG, LAST_ARG, from);
       return (result ? result : savestring (""));
     }
 
@@ -1495,7 +1505,7 @@ get_history_word_specifier (const char *spec, char *from, int *caller_index)
   if (spec[i] == '$')
     {
       *caller_index = i + 1;
-      return (history_arg_extract ('$', '$', from));
+      return (arg_extract (LAST_ARG, LAST_ARG, LAST_ARG, from));
     }
 
   /* Try to get FIRST and LAST figured out. */
@@ -1517,7 +1527,7 @@ get_history_word_specifier (const char *spec, char *from, int *caller_index)
 
   if (spec[i] == '^' || spec[i] == '*')
     {
-      last = (spec[i] == '^') ? 1 : '$';	/* x* abbreviates x-$ */
+      last = (spec[i] == '^') ? 1 : LAST_ARG;	/* x* abbreviates x-$ */
       i++;
     }
   else if (spec[i] != '-')
@@ -1534,7 +1544,7 @@ get_history_word_specifier (const char *spec, char *from, int *caller_index)
       else if (spec[i] == '$')
 	{
 	  i++;
-	  last = '$';
+	  last = LAST_ARG;
 	}
       else if (spec[i] == '^')
 	{
@@ -1554,8 +1564,8 @@ get_history_word_specifier (const char *spec, char *from, int *caller_index)
 
   *caller_index = i;
 
-  if (last >= first || last == '$' || last < 0)
-    result = history_arg_extract (first, last, from);
+  if (last >= first || last == LAST_ARG || last < 0)
+    result = arg_extract (first, last, LAST_ARG, from);
 
   return (result ? result : (char *)&error_pointer);
 }
@@ -1567,6 +1577,15 @@ get_history_word_specifier (const char *spec, char *from, int *caller_index)
    If LAST is `$' the last arg from STRING is used. */
 char *
 history_arg_extract (int first, int last, const char *string)
+/* begin_clink_change */
+{
+  return arg_extract (first, last, '$', string);
+}
+
+/* The same, except the last arg is used if FIRST or LAST is LAST_ARG. */
+static char *
+arg_extract (int first, int last, int last_arg, const char *string)
+/* end_clink_change */
 {
   register int i, len;
   char *result;
@@ -1582,17 +1601,19 @@ history_arg_extract (int first, int last, const char *string)
   for (len = 0; list[len]; len++)
     ;
 
-  if (last < 0)
-    last = len + last - 1;
-
-  if (first < 0)
-    first = len + first - 1;
-
-  if (last == '$')
+/* begin_clink_change */
+  //if (last < 0)
+  if (last == last_arg)
     last = len - 1;
+  else if (last < 0)
+    last = len + last - 1;
 
-  if (first == '$')
+  //if (first < 0)
+  if (first == last_arg)
     first = len - 1;
+  else if (first < 0)
+    first = len + first - 1;
+/* end_clink_change */
 
   last++;
 
-- 
2.43.0


From c0d7a7bf26b27cca20b6433b9bdc36ebd98a7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:21 +0000
Subject: [PATCH 65/71] fix: substituting in each word in history expansion
 misses words or does some twice

---
 readline/readline/histexpand.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/readline/readline/histexpand.c b/readline/readline/histexpand.c
index 3efadf1..f2fd980 100644
--- a/readline/readline/histexpand.c
+++ b/readline/readline/histexpand.c
@@ -896,7 +896,10 @@ history_expand_internal (const char *string, int start, int qc, int *end_index_p
 		/* First skip whitespace and find word boundaries if
 		   we're past the end of the word boundary we found
 		   the last time. */
-		if (subst_bywords && si > we)
+/* begin_clink_change */
+		//if (subst_bywords && si > we)
+		if (subst_bywords && si >= we)
+/* end_clink_change */
 		  {
 		    for (; temp[si] && fielddelim (temp[si]); si++)
 		      ;
@@ -930,7 +933,14 @@ history_expand_internal (const char *string, int start, int qc, int *end_index_p
 		      }
 		    else if (subst_bywords)
 		      {
-			si = we;
+/* begin_clink_change */
+			//si = we;
+			/* Continue after the word, wherever it ends now. */
+			we += subst_rhs_len - subst_lhs_len;
+			if (we < si + subst_rhs_len)
+			  we = si + subst_rhs_len;
+			si = we - 1;
+/* end_clink_change */
 			l_temp = strlen (temp);
 			continue;
 		      }
@@ -945,6 +955,10 @@ history_expand_internal (const char *string, int start, int qc, int *end_index_p
 		continue;	/* don't want to increment i */
 	      }
 
+/* begin_clink_change */
+	    subst_bywords = 0;
+/* end_clink_change */
+
 	    if (failed == 0)
 	      continue;		/* don't want to increment i */
 
-- 
2.43.0


From 1e1ba8592c011a1fb0d538cc98a026fcea4abb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:22 +0000
Subject: [PATCH 66/71] fix: history expansion reads past the end of a line
 ending in a backslash

---
 readline/readline/histexpand.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/readline/readline/histexpand.c b/readline/readline/histexpand.c
index f2fd980..268d165 100644
--- a/readline/readline/histexpand.c
+++ b/readline/readline/histexpand.c
@@ -579,12 +579,18 @@ get_subst_pattern (const char *str, int *iptr, int delimiter, int is_rhs, int *l
 	int v;
 	if ((v = _rl_get_char_len (str + si, &ps)) > 1)
 	  si += v - 1;
-	else if (str[si] == '\\' && str[si + 1] == delimiter)
+/* begin_clink_change */
+	//else if (str[si] == '\\' && str[si + 1] == delimiter)
+	else if (str[si] == '\\' && str[si + 1] && str[si + 1] == delimiter)
+/* end_clink_change */
 	  si++;
       }
     else
 #endif /* HANDLE_MULTIBYTE */
-      if (str[si] == '\\' && str[si + 1] == delimiter)
+/* begin_clink_change */
+      //if (str[si] == '\\' && str[si + 1] == delimiter)
+      if (str[si] == '\\' && str[si + 1] && str[si + 1] == delimiter)
+/* end_clink_change */
 	si++;
 
   if (si > i || is_rhs)
@@ -593,7 +599,10 @@ get_subst_pattern (const char *str, int *iptr, int delimiter, int is_rhs, int *l
       for (j = 0, k = i; k < si; j++, k++)
 	{
 	  /* Remove a backslash quoting the search string delimiter. */
-	  if (str[k] == '\\' && str[k + 1] == delimiter)
+/* begin_clink_change */
+	  //if (str[k] == '\\' && str[k + 1] == delimiter)
+	  if (str[k] == '\\' && str[k + 1] && str[k + 1] == delimiter)
+/* end_clink_change */
 	    k++;
 	  s[j] = str[k];
 	}
-- 
2.43.0


From 1c9f656bdc19f27271b4309ef226673823050528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 67/71] fix: incremental search goes on in the wrong line after
 it failed

---
 readline/readline/isearch.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/readline/readline/isearch.c b/readline/readline/isearch.c
index cbc5afc..30ccbb2 100644
--- a/readline/readline/isearch.c
+++ b/readline/readline/isearch.c
@@ -893,6 +893,13 @@ opcode_dispatch:
       /* We cannot find the search string.  Ding the bell. */
       rl_ding ();
       cxt->history_pos = cxt->last_found_line;
+/* begin_clink_change */
+      /* The line that is shown is the one to search next, not the one where
+	 this search failed. */
+      cxt->sline = cxt->lines[cxt->history_pos];
+      cxt->sline_len = strlen (cxt->sline);
+      cxt->sline_index = rl_point;
+/* end_clink_change */
       rl_deactivate_mark ();
       rl_display_search (cxt->search_string, cxt->sflags, (cxt->history_pos == cxt->save_line) ? -1 : cxt->history_pos);
       return 1;
-- 
2.43.0


From 7bd532b7feb21a3a1ec40f9e3e8dd1afa1c53b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 68/71] fix: completion reads before the beginning of an empty
 replacement

---
 readline/readline/complete.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readline/readline/complete.c b/readline/readline/complete.c
index 7b68737..c55146e 100644
--- a/readline/readline/complete.c
+++ b/readline/readline/complete.c
@@ -2669,7 +2669,7 @@ insert_match (char *match, int start, int mtype, char *qc)
 	}
 /* end_clink_change */
       /* Don't double a closing quote character */
-      if (qc && *qc && end && rl_line_buffer[rl_point] == *qc && replacement[rlen - 1] == *qc)
+      if (qc && *qc && end && rlen > 0 && rl_line_buffer[rl_point] == *qc && replacement[rlen - 1] == *qc)
         end++;
       if (_rl_skip_completed_text)
 	{
-- 
2.43.0


From 6672147f3b905653df1fdc57c27433009dc6f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:34 +0000
Subject: [PATCH 69/71] fix: accepting a suggestion that no longer matches the
 line replaces what was typed

---
 clink/lib/src/suggestions.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/clink/lib/src/suggestions.cpp b/clink/lib/src/suggestions.cpp
index 6a96d66..cf44842 100644
--- a/clink/lib/src/suggestions.cpp
+++ b/clink/lib/src/suggestions.cpp
@@ -624,6 +624,23 @@ bool suggestion_manager::insert(suggestion_action action)
     const bool original_case = g_original_case.get();
     const suggestion& first_suggestion = m_suggestions[0];
 
+    // The line may have changed since the suggestion was made (for example if
+    // more input was already available).  If the suggestion doesn't match up
+    // through the end of the line, then it isn't visible and must be discarded.
+    {
+        const uint32 len = g_rl_buffer->get_length();
+        str_iter orig_iter(g_rl_buffer->get_buffer() + min<uint32>(first_suggestion.m_suggestion_offset, len),
+                           len - min<uint32>(first_suggestion.m_suggestion_offset, len));
+        str_iter sugg_iter(first_suggestion.m_suggestion.c_str(), first_suggestion.m_suggestion.length());
+        str_compare<char, false/*compute_lcd*/, true/*exact_slash*/>(orig_iter, sugg_iter);
+        if (first_suggestion.m_suggestion_offset > len || orig_iter.more())
+        {
+            clear();
+            return false;
+        }
+        m_endword_offset = min<uint32>(m_endword_offset, len);
+    }
+
     // Special case when inserting to the end and the suggestion covers the
     // entire line.  Replace the entire line to use the original capitalization.
     // If the suggestion doesn't match up through the end of the line, then it's
-- 
2.43.0


From 4b210285b489ebaaeb05be8215a6f48f4bab18f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:00 +0000
Subject: [PATCH 70/71] fix: read CMD's error report files with byte 0xFF and
 long lines

---
 clink/lib/src/errfile_reader.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/clink/lib/src/errfile_reader.cpp b/clink/lib/src/errfile_reader.cpp
index 2a5bbd7..5e38b7d 100644
--- a/clink/lib/src/errfile_reader.cpp
+++ b/clink/lib/src/errfile_reader.cpp
@@ -100,13 +100,14 @@ bool errfile_reader::next(str_base& out)
     }
     else
     {
-        char c = fgetc(m_file);
-        if (c == EOF)
+        int c1 = fgetc(m_file);
+        if (c1 == EOF)
             return false;
-        while (c != EOF && c && c != '\n')
+        while (c1 != EOF && c1 && c1 != '\n')
         {
+            const char c = char(c1);
             out.concat(&c, 1);
-            c = fgetc(m_file);
+            c1 = fgetc(m_file);
         }
     }
 
@@ -121,7 +122,7 @@ bool errfile_reader::next(str_base& out)
 
         // Convert ACP -> UTF16 -> UTF8.
         DWORD cch = MultiByteToWideChar(CP_ACP, flags, out.c_str(), -1, nullptr, 0);
-        if (cch && m_buffer.reserve(cch / sizeof(wchar_t)))
+        if (cch && m_buffer.reserve(cch))
         {
             cch = MultiByteToWideChar(CP_ACP, flags, out.c_str(), -1, m_buffer.data(), cch);
             if (cch)
-- 
2.43.0


From ebd3f89843dc553505d9cb1f4026eac46c20634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:00 +0000
Subject: [PATCH 71/71] fix: don't read column info that was never allocated

---
 clink/lib/src/column_widths.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/clink/lib/src/column_widths.cpp b/clink/lib/src/column_widths.cpp
index 64a2d34..cd308b6 100644
--- a/clink/lib/src/column_widths.cpp
+++ b/clink/lib/src/column_widths.cpp
@@ -401,10 +401,8 @@ column_widths calculate_columns(const match_adapter& adapter, int32 max_matches,
         widths.m_widths.clear();
         widths.m_desc_padding = c_large_padding;
         widths.m_max_match_len_in_column.clear();
-        const auto& columns_info = s_columns_info[limit - 1];
         for (size_t i = 0; i < limit; ++i)
         {
-            const auto& arr = columns_info.col_arr[i];
             widths.m_widths.push_back(max_match + delta_padding + max_desc);
             widths.m_max_match_len_in_column.push_back(max_match);
         }
-- 
2.43.0

