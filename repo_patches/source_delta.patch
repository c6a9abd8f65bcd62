From b588bc96687c62bc019d3623c62bf5ca114659fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 01/55] fix: cligen_pt_active_get dereferenced NULL when no
 tree is active

---
 cligen_pt_head.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_pt_head.c b/cligen_pt_head.c
index 8332552..87fa06e 100644
--- a/cligen_pt_head.c
+++ b/cligen_pt_head.c
@@ -389,13 +389,17 @@ cligen_ph_i(cligen_handle h,
 /*! Get currently active parsetree.
  *
  * @param[in] h       CLIgen handle
+ * @retval    pt      Active parse-tree
+ * @retval    NULL    No tree is active
  * @see cligen_ph_active_get  prefer to use that function instead
  */
 parse_tree *
 cligen_pt_active_get(cligen_handle h)
 {
-    pt_head *ph = cligen_pt_head_active_get(h);
+    pt_head *ph;
 
+    if ((ph = cligen_pt_head_active_get(h)) == NULL)
+        return NULL;
     return ph->ph_parsetree;
 }
 
-- 
2.43.0


From 960dcf622389b83d3a1820ac21f500338280925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 02/55] fix: gl_unregfd corrupted the table of registered
 descriptors

---
 cligen_getline.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 5ffbf1c..8d00dc9 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -319,10 +319,13 @@ gl_unregfd(int fd)
 
     for (i = 0; i < nextfds; i++) {
         if (extfds[i].fd == fd) {
-            if (i+1 < nextfds)
-                memcpy(&extfds[i], &extfds[i+1], nextfds-i);
-            extfds = realloc(extfds, (nextfds-1) * sizeof(*extfds));
             nextfds--;
+            if (i < nextfds)
+                memmove(&extfds[i], &extfds[i+1], (nextfds-i) * sizeof(*extfds));
+            if (nextfds == 0) {
+                free(extfds);
+                extfds = NULL;
+            }
             return 0;
         }
     }
-- 
2.43.0


From e5a1343e5bb72bda499dcd3e2f115202f65e4d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 03/55] fix: registered descriptors starved after a signal or a
 failing callback

---
 cligen_getline.c | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 8d00dc9..c4bb363 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -293,6 +293,10 @@ gl_regfd(int             fd,
     int i;
     struct regfd *tmp;
 
+    if (fd < 0 || fd >= FD_SETSIZE) { /* Limit of select */
+        errno = EINVAL;
+        return -1;
+    }
     for (i = 0; i < nextfds; i++) {
         if (extfds[i].fd == fd) { /* Already registered. Update arg and cb */
             extfds[i].cb = cb;
@@ -333,10 +337,19 @@ gl_unregfd(int fd)
     return -1;
 }
 
-int
-gl_select()
+/*! Wait until stdin is readable, meanwhile call callbacks of readable registered descriptors
+ *
+ * A callback may (un)register descriptors. Its return value does not affect other descriptors
+ * @param[in]  h     CLIgen handle
+ * @retval     0     OK, read stdin
+ * @retval    -1     Interrupted and the interrupt hook failed
+ */
+static int
+gl_select(cligen_handle h)
 {
     int i;
+    int fd;
+    int ready;
     fd_set fdset = {0,};
 
     while (1){
@@ -344,13 +357,22 @@ gl_select()
         FD_SET(0, &fdset);
         for(i = 0; i < nextfds; i++)
             FD_SET(extfds[i].fd, &fdset);
-        if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0)
-            return -1;
-        for(i = 0; i < nextfds; i++)
-            if (FD_ISSET(extfds[i].fd, &fdset))
-                if (extfds[i].cb(extfds[i].fd, extfds[i].arg) < 0)
-                    return -1;
-        if (FD_ISSET(0, &fdset))
+        if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0){
+            if (errno != EINTR)
+                break;
+            if (gl_interrupt_hook && gl_interrupt_hook(h) < 0)
+                return -1;
+            continue;
+        }
+        ready = FD_ISSET(0, &fdset);
+        for(i = 0; i < nextfds; i++){
+            fd = extfds[i].fd;
+            if (FD_ISSET(fd, &fdset)){
+                FD_CLR(fd, &fdset); /* Once per wait, also if the callback re-registers it */
+                extfds[i].cb(fd, extfds[i].arg);
+            }
+        }
+        if (ready)
             break;
     }
     return 0;
@@ -419,7 +441,8 @@ gl_getc(cligen_handle h)
 #endif
 
 #if CLIGEN_REGFD
-    gl_select(); /* block until something arrives on stdin */
+    if (gl_select(h) < 0) /* block until something arrives on stdin */
+        return -1;
 #endif
 #ifdef __unix__
     while ((c = read(0, &ch, 1)) == -1) {
-- 
2.43.0


From ece39316b6536cfcd076df2adaefae0760882b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 04/55] fix: hang, crash or lost line on end of input, read
 error, interrupt or NUL key

---
 cligen_getline.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index c4bb363..b16b28c 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -440,6 +440,8 @@ gl_getc(cligen_handle h)
     unsigned char  ch;
 #endif
 
+    if (gl_iseof) /* Input ended within a key sequence */
+        return -1;
 #if CLIGEN_REGFD
     if (gl_select(h) < 0) /* block until something arrives on stdin */
         return -1;
@@ -447,20 +449,20 @@ gl_getc(cligen_handle h)
 #ifdef __unix__
     while ((c = read(0, &ch, 1)) == -1) {
         if (errno == EINTR){
-            if (gl_interrupt_hook(h) <0)
+            if (gl_interrupt_hook && gl_interrupt_hook(h) < 0)
                 return -1;
             continue;
         }
         break;
     }
-    if (c == 0){
+    if (c <= 0){ /* End of input, or input failed */
         gl_iseof++;
         cligen_buf(h)[0] = 0; /* clean exit from gl? */
         gl_cleanup();
         gl_putc('\n');
         return -1;
     }
-    c = (ch <= 0)? -1 : ch;
+    c = ch;
 #endif  /* __unix__ */
 #ifdef MSDOS
     c = _bios_keybrd(_NKEYBRD_READ);
@@ -621,6 +623,7 @@ gl_getline(cligen_handle h,
     int   sig;
 #endif
 
+    gl_search_mode = 0;
     gl_init1();
     gl_prompt = (cligen_prompt(h))? cligen_prompt(h) : "";
     cligen_buf(h)[0] = 0;
@@ -787,7 +790,8 @@ gl_getline(cligen_handle h,
 #ifdef __unix__
                 if ((c & 0xe0) == 0xc0){ /* UTF-2 */
                     int c2;
-                    c2 = gl_getc(h);
+                    if ((c2 = gl_getc(h)) < 0)
+                        break;
                     if (gl_utf8){
                         if (gl_addchar(h, c) < 0)
                             goto err;
@@ -797,8 +801,8 @@ gl_getline(cligen_handle h,
                 }
                 else if ((c & 0xf0) == 0xe0){ /* UTF-2 */
                     int c2, c3;
-                    c2 = gl_getc(h);
-                    c3 = gl_getc(h);
+                    if ((c2 = gl_getc(h)) < 0 || (c3 = gl_getc(h)) < 0)
+                        break;
                     if (gl_utf8){
                         if (gl_addchar(h, c) < 0)
                             goto err;
@@ -810,9 +814,8 @@ gl_getline(cligen_handle h,
                 }
                 else if ((c & 0xf8) == 0xf0){ /* UTF-3 */
                     int c2, c3, c4;
-                    c2 = gl_getc(h);
-                    c3 = gl_getc(h);
-                    c4 = gl_getc(h);
+                    if ((c2 = gl_getc(h)) < 0 || (c3 = gl_getc(h)) < 0 || (c4 = gl_getc(h)) < 0)
+                        break;
                     if (gl_utf8){
                         if (gl_addchar(h, c) < 0)
                             goto err;
-- 
2.43.0


From 2237b8246bbbc550130bd8a0c3236a785d2c66e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 05/55] fix: exit character table overflow

---
 cligen_getline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index b16b28c..90d6e25 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -391,7 +391,7 @@ gl_exitchar_add(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++)
+    for (i=0; i<sizeof(exitchars)/sizeof(exitchars[0]); i++)
         if (!exitchars[i]){
             exitchars[i] = c;
             break;
@@ -404,7 +404,7 @@ gl_exitchar(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++){
+    for (i=0; i<sizeof(exitchars)/sizeof(exitchars[0]); i++){
         if (!exitchars[i])
             break;
         if (exitchars[i] == c)
-- 
2.43.0


From 088b5a8b749449204b691a4ea37be4d1bff0e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 06/55] fix: help in search mode redrew the line with the
 normal prompt

---
 cligen_getline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 90d6e25..2a178c0 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -640,7 +640,7 @@ gl_getline(cligen_handle h,
                     escape = 0;
                     if ((loc = gl_qmark_hook(h, cligen_buf(h))) < 0)
                         goto err;
-                    gl_fixup(h, gl_prompt, -2, gl_pos);
+                    gl_fixup(h, gl_search_mode? search_prompt : gl_prompt, -2, gl_pos);
                 }
                 else{
                     escape = 0;
-- 
2.43.0


From 36d890ffece7c4b36ad49423654d2b396f956a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 07/55] fix: ^U and ^W drew the tail of a long line outside its
 window

---
 cligen_getline.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 2a178c0..324f37c 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1025,7 +1025,6 @@ static void
 gl_kill_begin(cligen_handle h,
               int           pos)
 {
-    int i;
     int len;
 
     if (pos != 0) {
@@ -1035,9 +1034,6 @@ gl_kill_begin(cligen_handle h,
         cligen_killbuf(h)[pos] = '\0';
         memmove(cligen_buf(h), cligen_buf(h) + pos, len-pos+1); /* memmove may overlap */
         gl_fixup(h, cligen_prompt(h), 0, 0);
-        for (i=gl_pos; i < gl_cnt; i++)
-            gl_putc(cligen_buf(h)[i]);
-        gl_fixup(h, cligen_prompt(h), -2, 0);
     } else
         gl_putc('\007');
 }
@@ -1051,7 +1047,7 @@ static int
 gl_kill_word(cligen_handle h,
              int           pos)
 {
-    int i, wpos;
+    int wpos;
 
     if (pos == 0)
         gl_putc('\007');
@@ -1070,10 +1066,7 @@ gl_kill_word(cligen_handle h,
         strncpy(cligen_killbuf(h), cligen_buf(h)+pos, wpos-pos);
         cligen_killbuf(h)[wpos-pos] = '\0';
         memmove(cligen_buf(h)+pos, cligen_buf(h) + wpos, gl_cnt-wpos+1);
-        gl_fixup(h, cligen_prompt(h), wpos, pos);
-        for (i=gl_pos; i < gl_cnt; i++)
-            gl_putc(cligen_buf(h)[i]);
-        gl_fixup(h, cligen_prompt(h), -2, pos);
+        gl_fixup(h, cligen_prompt(h), pos, pos);
     }
     return 0;
 }
-- 
2.43.0


From 16814c7c9fb844ba6e24489b1b6211489364c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 08/55] fix: cursor hidden behind the right mark when an
 insertion made the line too long

---
 cligen_getline.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index 324f37c..5f11549 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1359,6 +1359,8 @@ gl_fixup_scroll(cligen_handle h,
         gl_putc('\007');
         cursor = 0;
     }
+    if (change >= 0) /* text changed: it may now be cut off to the right */
+        fixup_off_right = (gl_cnt > fixup_gl_shift + gl_width - 1)? 1 : 0;
     if (fixup_off_right || (fixup_off_left && cursor < fixup_gl_shift + gl_width - gl_scrollw / 2)){
         extra = 2;                      /* shift the scrolling boundary */
     }
-- 
2.43.0


From b23d56a05a9be19f5867d8271979646f33474aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 09/55] fix: TAB without an active tree garbled the edited line

---
 cligen_read.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index b139cb5..b8ad809 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -175,8 +175,10 @@ cli_tab_hook(cligen_handle h,
 
     if ((ptn = pt_new()) == NULL)
         goto done;
-    if ((pt = cligen_pt_active_get(h)) == NULL)
+    if ((pt = cligen_pt_active_get(h)) == NULL){
+        fputs("\n", stdout); /* getline redraws on a new line */
         goto ok;
+    }
     if ((cvv = cvec_start(cligen_buf(h))) == NULL)
         goto done;
     if (pt_expand(h, NULL,
-- 
2.43.0


From 4d16b166fcbaf2dc23a18116c7f6d03f8d579134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 10/55] fix: prompts and search strings longer than 79
 characters garbled the edited line

---
 cligen_getline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 5f11549..4060509 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -101,7 +101,7 @@ static int gl_iseof = 0;
 static int   fixup_gl_shift;    /* index of first on screen character */
 static int   fixup_off_right;   /* true if more text right of screen */
 static int   fixup_off_left;    /* true if more text left of screen */
-static char  fixup_last_prompt[80] = "";
+static char  fixup_last_prompt[1024] = ""; /* longer than any prompt fitting the screen */
 
 #define SEARCH_LEN 100
 static char  search_prompt[SEARCH_LEN+2];  /* prompt includes search string */
-- 
2.43.0


From d42f31604fb747a04baed38e20e1eefdcffb7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 11/55] fix: moving right over the edge of the screen in
 wrapping mode lost track of the row

---
 cligen_getline.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 4060509..660648f 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1291,8 +1291,11 @@ gl_fixup_noscroll(cligen_handle h,
         }
     }
     else {
-        for (i=gl_pos; i < cursor; i++)
+        for (i=gl_pos; i < cursor; i++){
             gl_putc(cligen_buf(h)[i]);
+            if (wrap(i, plen))
+                wrap_line();
+        }
     }
     gl_pos = cursor;
 }
-- 
2.43.0


From a9839143761b1517bd581a98682054d58ba4a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 12/55] fix: history dropped or duplicated lines with an
 embedded newline

---
 cligen_history.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/cligen_history.c b/cligen_history.c
index 2adfe1a..047ecd6 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -116,7 +116,6 @@ hist_add(cligen_handle h,
     struct cligen_handle *ch = handle(h);
     int                   retval = -1;
     char                 *p = buf;
-    int                   len;
 
     if (strlen(buf) >= cligen_buf_size(h))
         if (cligen_buf_increase(h, strlen(buf)) < 0)
@@ -124,11 +123,7 @@ hist_add(cligen_handle h,
     while (*p == ' ' || *p == '\t' || *p == '\n')
         p++;
     if (*p) {
-        len = strlen(buf);
-        if (strchr(p, '\n'))    /* previous line already has NL stripped */
-            len--;
-        if (ch->ch_hist_pre == 0 || strlen(ch->ch_hist_pre) != len ||
-                            strncmp(ch->ch_hist_pre, buf, len) != 0) {
+        if (ch->ch_hist_pre == 0 || strcmp(ch->ch_hist_pre, buf) != 0) {
             if ((ch->ch_hist_buf[ch->ch_hist_last] = hist_save(buf)) == NULL)
                 goto done;
             ch->ch_hist_pre = ch->ch_hist_buf[ch->ch_hist_last];
-- 
2.43.0


From 2b430604d3431dad99c615368e7d089f0ffdb193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 13/55] fix: saving and loading history ignored I/O errors

---
 cligen_history.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cligen_history.c b/cligen_history.c
index 047ecd6..f71910f 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -367,6 +367,8 @@ cligen_hist_file_load(cligen_handle h,
             if (cbuf_append(cb, ch) < 0)
                 goto done;
     }
+    if (ferror(f))
+        goto done;
     retval = 0;
  done:
     if (cb)
@@ -398,9 +400,13 @@ cligen_hist_file_save(cligen_handle h,
     while(i != i1){
         if ((line = ch->ch_hist_buf[i]) == NULL) /* shouldnt happen */
             break;
-        fprintf(f, "%s\n", line);
+        if (fprintf(f, "%s\n", line) < 0)
+            goto done;
         i = (i+1)%ch->ch_hist_size;
     }
+    if (fflush(f) != 0 || ferror(f))
+        goto done;
     retval = 0;
+ done:
     return retval;
 }
-- 
2.43.0


From 5b413ca6c0bc59ab311879e4b60e8643783cceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 14/55] fix: paged output while a line is edited left the
 terminal in raw mode

---
 cligen_getline.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index 660648f..d9d4dcb 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -172,9 +172,13 @@ static short chan = -1;              /* channel to terminal */
 struct dsc$descriptor_s descrip;     /* VMS descriptor */
 #endif
 
+static int gl_char_depth = 0;           /* Nesting, eg paged output while a line is edited */
+
 void
 gl_char_init(void)                      /* turn off input echo */
 {
+    if (gl_char_depth++ > 0)
+        return;
 #ifdef __unix__
 #ifdef POSIX
     tcgetattr(0, &old_termios);
@@ -236,6 +240,8 @@ gl_char_init(void)                      /* turn off input echo */
 void
 gl_char_cleanup(void)           /* undo effects of gl_char_init */
 {
+    if (gl_char_depth > 0 && --gl_char_depth > 0)
+        return;
 #ifdef __unix__
 #ifdef POSIX
     tcsetattr(0, TCSADRAIN, &old_termios);
-- 
2.43.0


From 49a13590663dc33532a54a91093d6e34169043e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 15/55] fix: paged output crashed when the window had been
 narrowed within a line

---
 cligen_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_io.c b/cligen_io.c
index c6a2e6e..e6db87e 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -153,6 +153,8 @@ cligen_output_scroll(FILE   *f,
     /* A terminal line */
     if ((linebuf = malloc(linelen+1)) == NULL)
         goto done;
+    if (linelen > 0) /* the window may have been narrowed since last output */
+        D_COLUMNS %= linelen;
     remain = linelen - D_COLUMNS;
     while (ib1 < ibend && D_LINES >= 0){
         /* Four cases:
-- 
2.43.0


From ff9538673d43e0c32718a33707c2beaad996984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 16/55] fix: keys typed ahead at a --More-- prompt were lost
 and a signal or RETURN could answer or quit it

---
 cligen_io.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index e6db87e..93342c3 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -123,6 +123,23 @@ cli_output_status(void)
     return D_LINES;
 }
 
+/*! Read one key at a --More-- prompt
+ *
+ * Not via stdio: keys typed ahead shall be left for the line editor
+ * @retval   c   Key
+ * @retval  -1   End of input or error
+ */
+static int
+cligen_output_getkey(void)
+{
+    unsigned char ch;
+    ssize_t       len;
+
+    while ((len = read(STDIN_FILENO, &ch, 1)) < 0 && errno == EINTR)
+        ;
+    return len == 1 ? ch : -1;
+}
+
 /*! cligen_output support function for the actual scrolling
  *
  * @param[in] f           Open stdio FILE pointer
@@ -196,9 +213,11 @@ cligen_output_scroll(FILE   *f,
             gl_char_init();
             fprintf(f, "--More--");
             fflush(f);
-            c = fgetc(stdin);
-            if (c == '\n')
-                D_LINES--;
+            c = cligen_output_getkey();
+            if (c == '\n'){
+                if (D_LINES > 0)
+                    D_LINES--;
+            }
             else if (c == ' ')
                 D_LINES = 0;
             else if (c == 'q' || c == 3) /* ^c */
-- 
2.43.0


From 91f066ca5f49488b033c9d0e2083be8939f8f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 17/55] fix: terminal attributes were not set when a signal
 interrupted tcsetattr

---
 cligen_getline.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index d9d4dcb..4c1ea97 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -196,7 +196,8 @@ gl_char_init(void)                      /* turn off input echo */
     new_termios.c_lflag &= ~(ICANON|ISIG|IEXTEN|ECHO);
     new_termios.c_cc[VMIN] = 1;
     new_termios.c_cc[VTIME] = 0;
-    tcsetattr(0, TCSADRAIN, &new_termios);
+    while (tcsetattr(0, TCSADRAIN, &new_termios) < 0 && errno == EINTR)
+        ; /* interrupted while output drains */
 #else                           /* not POSIX */
 #ifdef TIOCSETN                 /* BSD */
     ioctl(0, TIOCGETC, &tch);
@@ -244,7 +245,8 @@ gl_char_cleanup(void)           /* undo effects of gl_char_init */
         return;
 #ifdef __unix__
 #ifdef POSIX
-    tcsetattr(0, TCSADRAIN, &old_termios);
+    while (tcsetattr(0, TCSADRAIN, &old_termios) < 0 && errno == EINTR)
+        ;
 #else                   /* not POSIX */
 #ifdef TIOCSETN         /* BSD */
     ioctl(0, TIOCSETN, &old_tty);
-- 
2.43.0


From 19b8d677bce6c555da08ffc1991de059378812c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 18/55] fix: output to a pipe function was lost or blocked for
 ever when its buffers were full, and a signal or an early exit of it broke or
 killed the session

---
 cligen_io.c | 60 ++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index 93342c3..f52175b 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -46,6 +46,7 @@
 #include <errno.h>
 #include <signal.h>
 #include <sys/types.h>
+#include <sys/select.h>
 #include <sys/socket.h>
 #include <netinet/in.h>
 #include <net/if.h>
@@ -238,6 +239,61 @@ cligen_output_scroll(FILE   *f,
     return retval;
 }
 
+/*! Write to the output pipe function
+ *
+ * The function may itself be blocked writing: show what it has written while waiting.
+ * If the function does not read any more, the rest is dropped silently
+ * @param[in] s      Socket to pipe function
+ * @param[in] buf    Output
+ * @param[in] len    Length of output
+ * @retval    0      OK
+ * @retval   -1      Error
+ */
+static int
+cligen_output_pipe(int    s,
+                   char  *buf,
+                   size_t len)
+{
+    char    rbuf[4097];
+    ssize_t n;
+    int     eof = 0;
+    fd_set  rset;
+    fd_set  wset;
+
+    while (len > 0){
+        if ((n = send(s, buf, len, MSG_DONTWAIT|MSG_NOSIGNAL)) >= 0){
+            buf += n;
+            len -= n;
+            continue;
+        }
+        if (errno == EINTR)
+            continue;
+        if (errno == EPIPE || errno == ECONNRESET)
+            break;
+        if (errno != EAGAIN && errno != EWOULDBLOCK)
+            return -1;
+        FD_ZERO(&rset);
+        FD_ZERO(&wset);
+        FD_SET(s, &wset);
+        if (!eof)
+            FD_SET(s, &rset);
+        if (select(s+1, &rset, &wset, NULL, NULL) < 0){
+            if (errno == EINTR)
+                continue;
+            return -1;
+        }
+        if (FD_ISSET(s, &rset)){
+            if ((n = recv(s, rbuf, sizeof(rbuf)-1, MSG_DONTWAIT)) > 0){
+                rbuf[n] = '\0';
+                cligen_output_basic(stdout, rbuf, n);
+            }
+            else if (n == 0 || (errno != EINTR && errno != EAGAIN && errno != EWOULDBLOCK))
+                eof = 1;
+        }
+    }
+    return 0;
+}
+
 /*! CLIgen output function. All printf-style output should be made via this function.
  *
  * Note only scrolling for stdout
@@ -311,10 +367,8 @@ cligen_output(FILE       *f,
     if (cli_pipe_output_socket_get(&s) < 0)
         goto done;
     if (s != -1){
-        if (write(s, inbuf, inbuflen) < 0){
+        if (cligen_output_pipe(s, inbuf, inbuflen) < 0){
             perror("cligen_output write on pipe socket");
-            close(s);
-            cli_pipe_output_socket_set(-1);
             goto done;
         }
     }
-- 
2.43.0


From a746d4c1a8b48a365e627eeaa8359cb5cd19d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 19/55] fix: evaluation with an output pipe lost output and
 leaked descriptors and processes when something failed or was slow

---
 cligen_read.c | 133 ++++++++++++++++++++------------------------------
 1 file changed, 54 insertions(+), 79 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index b8ad809..233d42b 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -811,32 +811,6 @@ cliread_eval(cligen_handle  h,
     return retval;
 }
 
-/*! Poll socket for read
- *
- * Select is called with timeout set so that the call returns immediately
- * @param[in] s  Read socket
- * @param[in] usec Timeout (0 is "poll")
- * @retval    1  Input is available on s
- * @retval    0  No input
- * @retval   -1  Error
- */
-static int
-cligen_eval_poll(int          s,
-                 unsigned int usec)
-{
-    fd_set         fdset;
-    struct timeval tv = {0,};
-    int            ret;
-
-    FD_ZERO(&fdset);
-    FD_SET(s, &fdset);
-    tv.tv_sec = usec/1000000;
-    tv.tv_usec = usec%1000000;
-    if ((ret = select(FD_SETSIZE, &fdset, NULL, NULL, &tv)) < 0)
-        perror("cligen_eval_poll");
-    return ret;
-}
-
 void
 signal_unblock(int sig)
 {
@@ -872,19 +846,22 @@ cligen_eval_pipe_pre(cligen_handle h,
 
     if (socketpair(AF_UNIX, SOCK_STREAM, 0, spair) < 0)
         goto done;
-    if ((*pidp = fork()) < 0)
+    if ((*pidp = fork()) < 0){
+        *pidp = 0;
+        close(spair[0]);
+        close(spair[1]);
         goto done;
+    }
     if (*pidp == 0) {   /* Child */
         close(spair[0]);
         close(0);
-        if (dup2(spair[1], STDIN_FILENO) < 0){
-            goto done;
-        }
+        if (dup2(spair[1], STDIN_FILENO) < 0)
+            exit(1);
         close(1);
-        if (dup2(spair[1], STDOUT_FILENO) < 0){
-            goto done;
-        }
+        if (dup2(spair[1], STDOUT_FILENO) < 0)
+            exit(1);
         close(spair[1]);
+        cli_pipe_output_socket_set(-1);
         fn = co_callback_fn_get(cc);
         signal_unblock(SIGTERM);
         signal_unblock(SIGINT);
@@ -905,72 +882,66 @@ cligen_eval_pipe_pre(cligen_handle h,
     return retval;
 }
 
-/*! Poll for write socket, redirect to cligen-output basic and then close pipe
+/*! Close write side of pipe function, show its output and wait for it to end
  *
- * Given socket to pipe function, close write side, poll/read and redirect to
+ * Given socket to pipe function, close write side, read and redirect to
  * basic output function, then wait for child completion
+ * Output is redirected and the child is waited for also on errors
  * @param[in]  h        CLIgen handle
- * @param[in]  s0       Socket
+ * @param[in]  s        Socket to pipe function
+ * @param[in]  sprev    Socket to restore for cligen_output, or -1
  * @param[in]  childpid Pid of child
+ * @retval     0        OK
+ * @retval    -1        Error, or pipe function failed
  */
 static int
 cligen_eval_pipe_post(cligen_handle h,
-                      int           s0,
+                      int           s,
+                      int           sprev,
                       pid_t         childpid)
 {
-    int     retval = -1;
-    int     ret;
+    int     retval = 0;
     int     status;
     char    buf[4097];
     ssize_t len;
-    int     s;
+    pid_t   pid;
 
-    cli_pipe_output_socket_get(&s);
-    if (s != -1) {
-        /* Close write side of socket */
-        if (shutdown(s, SHUT_WR) < 0){
-            perror("shutdown");
-            goto done;
-        }
-        /* Block until input is available */
-        do {
-            if ((ret = cligen_eval_poll(s, 1000*1000)) < 0){
-                goto done;
-            }
-        }
-        while (ret == 0);
-        /* Read until EOF */
-        while (ret != 0) {
-            if ((len = read(s, buf, 4096)) < 0){
+    cli_pipe_output_socket_set(sprev);
+    /* Close write side of socket */
+    if (shutdown(s, SHUT_WR) < 0){
+        perror("shutdown");
+        retval = -1;
+    }
+    else {
+        /* Block until input is available, read until EOF */
+        while ((len = read(s, buf, sizeof(buf)-1)) != 0){
+            if (len < 0){
+                if (errno == EINTR)
+                    continue;
+                if (errno == ECONNRESET) /* Ended without reading all: treat as EOF */
+                    break;
                 perror("cli_pipe_exec_cb, read");
-                goto done;
-            }
-            if (len == 0)
+                retval = -1;
                 break;
+            }
             buf[len] = '\0';
             cligen_output_basic(stdout, buf, len);
-            /* Immediate poll: possibility if writer is slow that input is dropped due
-             * to starving of child in (maybe) single process systems
-             */
-            if ((ret = cligen_eval_poll(s, CLI_PIPE_TIMEOUT_US)) < 0)
-                goto done;
         }
-        if (cli_pipe_output_socket_set(-1) < 0)
-            goto done;
     }
     kill(childpid, SIGTERM);
     /* On success, returns the process ID of the terminated child */
-    if(waitpid(childpid, &status, 0) != childpid){
+    while ((pid = waitpid(childpid, &status, 0)) < 0 && errno == EINTR)
+        ;
+    if (pid != childpid){
         perror("waitpid");
-        goto done;
+        retval = -1;
     }
-    retval = 0;
-    if (WIFEXITED(status)){
-        ret = WEXITSTATUS(status);
-        if (ret != 0)
+    else if (WIFEXITED(status)){
+        if (WEXITSTATUS(status) != 0)
             retval = -1;
     }
- done:
+    else if (WIFSIGNALED(status) && WTERMSIG(status) != SIGTERM)
+        retval = -1;
     return retval;
 }
 
@@ -1002,6 +973,7 @@ cligen_eval(cligen_handle h,
     void          *wraparg = NULL;
     void          *wh = NULL; /* eval wrap handle */
     int            spipe = -1;
+    int            sprev = -1; /* Output pipe of ongoing evaluation, if nested */
     pid_t          childpid = 0;
 
     /* Save matched object for plugin use */
@@ -1029,6 +1001,11 @@ cligen_eval(cligen_handle h,
     for (cc = co->co_callbacks; cc; cc=co_callback_next(cc)){
         if ((cc->cc_flags & CC_FLAGS_PIPE_FUNCTION) == 0x0)
             continue;
+        if (childpid){
+            fprintf(stderr, "%s: Only one output pipe function per command\n", __FUNCTION__);
+            goto done;
+        }
+        cli_pipe_output_socket_get(&sprev);
         if (cligen_eval_pipe_pre(h, cc, cvv1, &spipe, &childpid) < 0)
             goto done;
     }
@@ -1058,13 +1035,11 @@ cligen_eval(cligen_handle h,
             cligen_fn_str_set(h, NULL);
         }
     }
-    if (childpid){
-        if (cligen_eval_pipe_post(h, spipe, childpid) < 0){
-            goto done;
-        }
-    }
     retval = 0;
  done:
+    if (childpid &&
+        cligen_eval_pipe_post(h, spipe, sprev, childpid) < 0)
+        retval = -1;
     if (spipe != -1)
         close(spipe);
     if (wh)
-- 
2.43.0


From 9436ff49fbfffedd01c283d64997a511ece05c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 20/55] fix: a string buffer lost its content when it could not
 grow, and one of size zero was unusable

---
 cligen_buf.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cligen_buf.c b/cligen_buf.c
index 4a1f0cd..462941b 100644
--- a/cligen_buf.c
+++ b/cligen_buf.c
@@ -122,7 +122,7 @@ cbuf_new_alloc(size_t sz)
     if ((cb = (cbuf*)malloc(sizeof(*cb))) == NULL)
         return NULL;
     memset(cb, 0, sizeof(*cb));
-    cb->cb_buflen = sz;
+    cb->cb_buflen = sz ? sz : 1; /* Room for null termination */
     if ((cb->cb_buffer = malloc(cb->cb_buflen)) == NULL){
         free(cb);
         return NULL;
@@ -213,20 +213,23 @@ static int
 cbuf_realloc(cbuf  *cb,
              size_t sz)
 {
-    int retval = -1;
-    int diff;
-
-    diff = cb->cb_buflen - (cb->cb_strlen + sz + 1);
-    if (diff <= 0){
-        while (diff <= 0){
-            if (cbuflen_threshold == 0 || cb->cb_buflen < cbuflen_threshold)
-                cb->cb_buflen *= 2; /* Double the space - exponential */
+    int    retval = -1;
+    size_t buflen;
+    char  *buffer;
+
+    buflen = cb->cb_buflen;
+    if (buflen <= cb->cb_strlen + sz + 1){
+        while (buflen <= cb->cb_strlen + sz + 1){
+            if (cbuflen_threshold == 0 || buflen < cbuflen_threshold)
+                buflen *= 2; /* Double the space - exponential */
             else
-                cb->cb_buflen += cbuflen_threshold; /* Add - linear growth*/
-            diff = cb->cb_buflen - (cb->cb_strlen + sz + 1);
+                buflen += cbuflen_threshold; /* Add - linear growth*/
         }
-        if ((cb->cb_buffer = realloc(cb->cb_buffer, cb->cb_buflen)) == NULL)
+        /* Keep the buffer as it is if there is no memory */
+        if ((buffer = realloc(cb->cb_buffer, buflen)) == NULL)
             goto done;
+        cb->cb_buffer = buffer;
+        cb->cb_buflen = buflen;
     }
     retval = 0;
  done:
-- 
2.43.0


From 4cb69754ae841e41eef4b62d51a15dd96207c3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 21/55] fix: a callback that evaluated another line lost its
 function name and matched object

---
 cligen_expand.c | 17 +++++++++++------
 cligen_read.c   | 14 ++++++++++++++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 298f32a..260fa22 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -533,6 +533,8 @@ pt_expand_fn(cligen_handle h,
     const char *value;
     const char *cmd;
     cvec       *cvv1 = NULL; /* Modified */
+    cg_obj     *coprev;      /* Matched object of ongoing evaluation, if any */
+    int         ret;
 
     if (cvv_var == NULL){
         errno = EINVAL;
@@ -551,13 +553,16 @@ pt_expand_fn(cligen_handle h,
     if (callbacks && callbacks->cc_cvec){
         cligen_callback_arguments_set(h, callbacks->cc_cvec);
     }
+    coprev = cligen_co_match(h);
     cligen_co_match_set(h, co);     /* For eventual use in callback */
-    if ((*co->co_expandv_fn)(cligen_userhandle(h)?cligen_userhandle(h):h,
-                             co->co_expand_fn_str,
-                             cvv1,
-                             co->co_expand_fn_vec,
-                             commands,
-                             helptexts) < 0)
+    ret = (*co->co_expandv_fn)(cligen_userhandle(h)?cligen_userhandle(h):h,
+                               co->co_expand_fn_str,
+                               cvv1,
+                               co->co_expand_fn_vec,
+                               commands,
+                               helptexts);
+    cligen_co_match_set(h, coprev);
+    if (ret < 0)
         goto done;
     i = 0;
     while ((cv = cvec_each(commands, cv)) != NULL) {
diff --git a/cligen_read.c b/cligen_read.c
index 233d42b..1366488 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -975,12 +975,20 @@ cligen_eval(cligen_handle h,
     int            spipe = -1;
     int            sprev = -1; /* Output pipe of ongoing evaluation, if nested */
     pid_t          childpid = 0;
+    cg_obj        *coprev = NULL; /* Matched object of ongoing evaluation, if nested */
+    char          *fnprev = NULL; /* Callback name of ongoing evaluation, if nested */
 
     /* Save matched object for plugin use */
     if (h == NULL){
         errno = EINVAL;
         goto done;
     }
+    /* Evaluation from within a callback: restore what that callback sees when done */
+    if (cligen_fn_str_get(h) != NULL){
+        coprev = cligen_co_match(h);
+        if ((fnprev = strdup(cligen_fn_str_get(h))) == NULL)
+            goto done;
+    }
     cligen_co_match_set(h, co); /* For eventual use in callback */
     /* Make a copy of var argument for modifications */
     if ((cvv1 = cvec_dup(cvv)) == NULL)
@@ -1046,6 +1054,12 @@ cligen_eval(cligen_handle h,
         free(wh);
     if (cvv1)
         cvec_free(cvv1);
+    if (fnprev){
+        if (cligen_fn_str_set(h, fnprev) < 0)
+            retval = -1;
+        cligen_co_match_set(h, coprev);
+        free(fnprev);
+    }
     return retval;
 }
 
-- 
2.43.0


From 4be5898c0e839863ca573f1b64323a45ff4620b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 22/55] fix: expanding nested tree references with a common
 word freed part of the grammar

---
 cligen_expand.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 260fa22..aa81342 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -397,7 +397,7 @@ co_expand_treeref_copy_shallow(cligen_handle h,
             if (cvec_len(cvv_filter) &&
                 co_filter_set(con, cvv_filter) == NULL)
                 goto done;
-            if (co_insert(ptnew, con) == NULL)
+            if (co_insert1(ptnew, con, 0) == NULL) /* Children are shared with original */
                 goto done;
             con = NULL;
         }
-- 
2.43.0


From c2c851c8c3ea8f16ccbbaa933636148c81c6baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 23/55] fix: a choice at the top of a referenced tree was used
 after it was freed

---
 cligen_expand.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index aa81342..eb1e935 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -613,6 +613,7 @@ pt_expand_fn(cligen_handle h,
  *
  * @param[in]  co         Original cligen object (to expand into ptn)
  * @param[in]  cvv_filter Add these to expanded nodes co_filter, eg remove them
+ * @param[in]  transient  co may be "transient" if so use co->co_ref as new co_ref,...
  * @param[out] ptn        New parse-tree initially an empty pointer, its value is returned.
  * @retval     0          OK
  * @retval    -1          Error
@@ -620,6 +621,7 @@ pt_expand_fn(cligen_handle h,
 static int
 pt_expand_choice(cg_obj       *co,
                  cvec         *cvv_filter,
+                 int           transient,
                  parse_tree   *ptn)
 {
     int     retval = -1;
@@ -636,6 +638,9 @@ pt_expand_choice(cg_obj       *co,
                 goto done;
             if (transform_var_to_cmd(con, strdup(c), NULL) < 0)
                 goto done;
+            if (transient && con->co_ref){
+                con->co_ref = co->co_ref;
+            }
             if (cvv_filter && co_filter_set(con, cvv_filter) == NULL)
                 goto done;
             /* con may be deleted in the call and need to be replaced */
@@ -723,7 +728,7 @@ pt_expand1_co(cligen_handle h,
      * of the variable
      */
     if (co->co_type == CO_VARIABLE && co->co_choice != NULL){
-        if (pt_expand_choice(co, cvv_filter, ptn) < 0) // XXX filter
+        if (pt_expand_choice(co, cvv_filter, transient, ptn) < 0) // XXX filter
             goto done;
     }
     /* Expand variable - call expand callback and insert expanded
-- 
2.43.0


From 5296f2a30453a87bc15457dd9a116bb3dbce9723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 24/55] fix: arguments of a tree reference's callback were lost
 when the command's own callback had none

---
 cligen_match.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_match.c b/cligen_match.c
index a41fcf3..b9eedfc 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -703,9 +703,13 @@ treeref_merge_co(cg_obj      *co,
                 goto done;
         }
         if (cc_ref->cc_cvec){
+            if (cc->cc_cvec == NULL &&
+                (cc->cc_cvec = cvec_new(0)) == NULL)
+                goto done;
             cv = NULL;
             while ((cv = cvec_each(cc_ref->cc_cvec, cv)) != NULL)
-                cvec_append_var(cc->cc_cvec, cv);
+                if (cvec_append_var(cc->cc_cvec, cv) == NULL)
+                    goto done;
         }
     }
     else { /* local is PIPE function, append regular function last */
-- 
2.43.0


From 75a561aaa85d8b8956aaf2cfd81d289076f01b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 25/55] fix: callbacks were called twice after nested options
 or equal alternatives

---
 cligen_parse.y | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 2c531c7..4237f0a 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -471,6 +471,22 @@ cgy_list_push(cg_obj           *co,
     return 0;
 }
 
+/*! Add object to list unless it is already there
+ *
+ * Same object may be end-point of several alternatives, eg "a [[b]]" or "a ([b]|[c])"
+ */
+static int
+cgy_list_push_unique(cg_obj           *co,
+                     struct cgy_list **cl0)
+{
+    struct cgy_list *cl;
+
+    for (cl = *cl0; cl; cl = cl->cl_next)
+        if (cl->cl_obj == co)
+            return 0;
+    return cgy_list_push(co, cl0);
+}
+
 /*! Delete whole list
  *
  * @param[in]  cy  CLIgen yacc parse struct
@@ -973,12 +989,12 @@ ctx_pop_add(cligen_yacc *cy)
     /* We could have saved some heap work by moving the cs_list,... */
     for (cl = cs->cs_list; cl; cl = cl->cl_next){
         co = cl->cl_obj;
-        if (cgy_list_push(co, &cy->cy_list) < 0)
+        if (cgy_list_push_unique(co, &cy->cy_list) < 0)
             return -1;
     }
     for (cl = cs->cs_saved; cl; cl = cl->cl_next){
         co = cl->cl_obj;
-        if (cgy_list_push(co, &cy->cy_list) < 0)
+        if (cgy_list_push_unique(co, &cy->cy_list) < 0)
             return -1;
     }
     delete_stack_element(cs);
@@ -1007,7 +1023,7 @@ ctx_pop(cligen_yacc *cy)
     cy->cy_stack = cs->cs_next;
     for (cl = cs->cs_saved; cl; cl = cl->cl_next){
         co = cl->cl_obj;
-        if (cgy_list_push(co, &cy->cy_list) < 0)
+        if (cgy_list_push_unique(co, &cy->cy_list) < 0)
             return -1;
     }
     delete_stack_element(cs);
-- 
2.43.0


From 784de08c61fa6d5a717fe1cfa096c73a9392d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 26/55] fix: completion could read and write outside its
 buffers

The number of characters to append was negative when a variable's name was
shorter than the typed token (CLIGEN_TABMODE_VARS) or keywords differed in case;
there was no room for the delimiter, and a long completion in the middle of a
long line overflowed the line buffer. A variable now has no characters in common
with a keyword, as documented for CLIGEN_TABMODE_VARS.
---
 cligen_match.c | 26 ++++++++++++++------------
 cligen_read.c  |  5 ++---
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index b9eedfc..970c9f6 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1305,9 +1305,6 @@ match_complete(cligen_handle h,
     /* Tokenize the string and transform it into two CLIgen vectors: tokens and rests */
     if (cligen_str2cvv(string, &cvt, &cvr) < 0)
         goto done;
-    s = string;
-    while ((strlen(s) > 0) && isblank(*s))
-        s++;
     if (match_pattern(h, cvt, cvr,
                       pt,
                       0, /* best: Return all options, not only best, exclude hidden options */
@@ -1325,9 +1322,11 @@ match_complete(cligen_handle h,
             retval = 0;
             goto done;
         }
-        if ((cligen_tabmode(h) & CLIGEN_TABMODE_VARS) == 0){
-            if (co->co_type != CO_COMMAND)
+        if (co->co_type != CO_COMMAND){
+            if ((cligen_tabmode(h) & CLIGEN_TABMODE_VARS) == 0)
                 continue;
+            retval = 0; /* A variable has the same preference: no common characters */
+            goto done;
         }
         command = co->co_command;
         if (co1 == NULL){
@@ -1346,7 +1345,9 @@ match_complete(cligen_handle h,
                 equal = 0;
                 len = MIN(strlen(command1), strlen(command));
                 for (j=0; j<len; j++)
-                    if (command1[j] != command[j])
+                    if (cligen_caseignore_get(h) ?
+                        tolower((unsigned char)command1[j]) != tolower((unsigned char)command[j]) :
+                        command1[j] != command[j])
                         break;
                 minmatch = MIN(minmatch, j);
             }
@@ -1356,19 +1357,20 @@ match_complete(cligen_handle h,
         retval = 0;
         goto done;
     }
-    while (strlen(*stringp) + minmatch - slen >= *slenp){
-        *slenp *= 2;
-        if ((*stringp = realloc(*stringp, *slenp)) == NULL)
+    if (minmatch < slen)
+        minmatch = slen; /* Nothing to append */
+    len = strlen(string) + minmatch - slen + 2; /* Room for delimiter and end of string */
+    if (len > *slenp){
+        if ((s = realloc(*stringp, len)) == NULL)
             goto done;
-        string = *stringp;
+        *stringp = string = s;
+        *slenp = len;
     }
     strncat(string, &command1[slen], minmatch-slen);
     append = append || minmatch-slen;
     if (equal){ /* add space */
         string[strlen(string)+1] = '\0';
         string[strlen(string)] = cligen_delimiter(h);
-        *slenp = 0;
-        co1 = NULL;
     }
     retval = append?1:0;
   done:
diff --git a/cligen_read.c b/cligen_read.c
index 1366488..a2ed7a8 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -545,10 +545,9 @@ cli_complete(cligen_handle h,
         goto done;
     extra = strlen(s) - cursor;      /* Extra characters added? */
     if (extra){
-        cligen_buf_increase(h, strlen(s));
-        string = cligen_buf(h);
         n = strlen(string) - cursor; /* Nr of chars right of cursor to copy */
-        cligen_buf_increase(h, strlen(string)+cursor+n);
+        if (cligen_buf_increase(h, strlen(string) + extra) < 0)
+            goto done;
         string = cligen_buf(h);
         for (i=cursor+n; i>=cursor; i--)             /* Copy right of cursor */
             string[i + extra] = string[i];
-- 
2.43.0


From 6f0ed84d302bd89042a66a9c57e904b910a0df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 27/55] fix: a keyword with the same name as a variable was
 taken for that variable

In 'x name a; x <name:string> b;' the variable was merged into the keyword (or
the keyword into the variable, depending on order), at load and on expansion.
---
 cligen_object.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 552c2ee..38241eb 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -902,9 +902,7 @@ co_eq(cg_obj *co1,
 
     /* eq == 0 means equal */
     eq = !(co1->co_type == co2->co_type);
-    if (eq){ /* Unequal type of command, variable and reference.
-                but need to check special case,
-                if the variable is a KEYWORD, then it can be eq to a command. */
+    if (eq){ /* Unequal type of command, variable and reference. */
         /* Let References be last (more than) everything else */
         if (co1->co_type == CO_REFERENCE){
             eq = 1;
@@ -923,8 +921,9 @@ co_eq(cg_obj *co1,
             eq = 1;
             goto done;
         }
-        /* Here one is command and one is variable */
-        eq = strcmp(co1->co_command, co2->co_command);
+        /* Here one is command and one is variable: they are never equal */
+        if ((eq = strcmp(co1->co_command, co2->co_command)) == 0)
+            eq = co1->co_type == CO_COMMAND ? -1 : 1;
         goto done;
     }
     switch (co1->co_type){
-- 
2.43.0


From d13ee4b71199904e96f98db183d4e9a0cd6a1b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 28/55] fix: the same keyword was entered twice where keywords
 and variables are mixed

Keywords are ordered by name and variables by type, so the binary search for an
equal object could miss it. The two copies were merged destructively when the
grammar was used: the grammar then referred to freed memory.
---
 cligen_object.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cligen_object.c b/cligen_object.c
index 38241eb..486ce70 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -1153,6 +1153,7 @@ co_insert1(parse_tree *pt,
            int         recursive)
 {
     int     pos;
+    int     i;
     cg_obj *co2;
 
     /* find closest to co in parsetree, insert after pos. */
@@ -1168,6 +1169,17 @@ co_insert1(parse_tree *pt,
             return co2;
         }
     }
+    /* Commands are ordered by name and variables by type, so where they are mixed an equal
+     * object may be elsewhere */
+    for (i = 0; co1 && i < pt_len_get(pt); i++){
+        if ((co2 = pt_vec_i_get(pt, i)) != NULL &&
+            co2->co_type == co1->co_type &&
+            co_eq(co1, co2) == 0){
+            cligen_parsetree_merge(co_pt_get(co2), co2, co_pt_get(co1));
+            co_free(co1, recursive);
+            return co2;
+        }
+    }
     if (pt_vec_i_insert(pt, pos, co1) < 0)
         return NULL;
     return co1;
-- 
2.43.0


From 644ee706e484d4f8fd30cfa2c0cfacf51a17a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 29/55] fix: the line buffers' sizes were shared between
 handles

A long line on one handle made the buffers of all handles be taken for as large,
and a handle created earlier overflowed. When growing failed the buffer was lost
while its size had been raised.
---
 cligen_handle.c          | 61 ++++++++++++++++++++++------------------
 cligen_handle_internal.h |  2 ++
 2 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/cligen_handle.c b/cligen_handle.c
index c83e41e..71eed4a 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -1019,9 +1019,6 @@ cligen_regex_xsd_set(cligen_handle h,
 }
 
 
-static int _getline_bufsize = GETLINE_BUFLEN_DEFAULT;
-static int _getline_killbufsize = GETLINE_BUFLEN_DEFAULT;
-
 /*!
  * @param[in] h       CLIgen handle
  */
@@ -1052,7 +1049,9 @@ cligen_killbuf(cligen_handle h)
 int
 cligen_buf_size(cligen_handle h)
 {
-    return _getline_bufsize;
+    struct cligen_handle *ch = handle(h);
+
+    return ch->ch_bufsize;
 }
 
 /*! Return length cligen kill buffer
@@ -1062,7 +1061,9 @@ cligen_buf_size(cligen_handle h)
 int
 cligen_killbuf_size(cligen_handle h)
 {
-    return _getline_killbufsize;
+    struct cligen_handle *ch = handle(h);
+
+    return ch->ch_killbufsize;
 }
 
 /*!
@@ -1073,16 +1074,16 @@ cligen_buf_init(cligen_handle h)
 {
     struct cligen_handle *ch = handle(h);
 
-    if ((ch->ch_buf = malloc(_getline_bufsize)) == NULL){
-        fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
+    if ((ch->ch_buf = calloc(1, GETLINE_BUFLEN_DEFAULT)) == NULL){
+        fprintf(stderr, "%s calloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf, 0, _getline_bufsize);
-    if ((ch->ch_killbuf = malloc(_getline_killbufsize)) == NULL){
-        fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
+    ch->ch_bufsize = GETLINE_BUFLEN_DEFAULT;
+    if ((ch->ch_killbuf = calloc(1, GETLINE_BUFLEN_DEFAULT)) == NULL){
+        fprintf(stderr, "%s calloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf, 0, _getline_killbufsize);
+    ch->ch_killbufsize = GETLINE_BUFLEN_DEFAULT;
     return 0;
 }
 
@@ -1100,17 +1101,20 @@ cligen_buf_increase(cligen_handle h,
                     size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    size_t                len0 = _getline_bufsize; /* orig length */
-
-    if (_getline_bufsize >= len1 + 1)
-      return 0;
-    while (_getline_bufsize < len1 + 1)
-      _getline_bufsize *= 2;
-    if ((ch->ch_buf = realloc(ch->ch_buf, _getline_bufsize)) == NULL){
+    size_t                size = ch->ch_bufsize;
+    char                 *buf;
+
+    if (size >= len1 + 1)
+        return 0;
+    while (size < len1 + 1)
+        size *= 2;
+    if ((buf = realloc(ch->ch_buf, size)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf+len0, 0, _getline_bufsize-len0);
+    memset(buf + ch->ch_bufsize, 0, size - ch->ch_bufsize);
+    ch->ch_buf = buf;
+    ch->ch_bufsize = size;
     return 0;
 }
 
@@ -1124,17 +1128,20 @@ cligen_killbuf_increase(cligen_handle h,
                         size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    int                   len0 = _getline_killbufsize;
-
-    if (_getline_killbufsize >= len1 + 1)
-      return 0;
-    while (_getline_killbufsize < len1 + 1)
-      _getline_killbufsize *= 2;
-    if ((ch->ch_killbuf = realloc(ch->ch_killbuf, _getline_killbufsize)) == NULL){
+    size_t                size = ch->ch_killbufsize;
+    char                 *buf;
+
+    if (size >= len1 + 1)
+        return 0;
+    while (size < len1 + 1)
+        size *= 2;
+    if ((buf = realloc(ch->ch_killbuf, size)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf+len0, 0, _getline_killbufsize-len0);
+    memset(buf + ch->ch_killbufsize, 0, size - ch->ch_killbufsize);
+    ch->ch_killbuf = buf;
+    ch->ch_killbufsize = size;
     return 0;
 }
 
diff --git a/cligen_handle_internal.h b/cligen_handle_internal.h
index 6ffff14..972b8a3 100644
--- a/cligen_handle_internal.h
+++ b/cligen_handle_internal.h
@@ -94,7 +94,9 @@ struct cligen_handle{
                                      Also this is global for now
                                   */
     char       *ch_buf;          /* getline input buffer */
+    size_t      ch_bufsize;      /* Allocated size of ch_buf */
     char       *ch_killbuf;      /* getline killed text */
+    size_t      ch_killbufsize;  /* Allocated size of ch_killbuf */
 
     int         ch_logsyntax;    /* Debug syntax by printing dynamically on stderr */
     int         ch_hist_size;    /* Number of history lines MUST be >0 */
-- 
2.43.0


From 936adedef0cd28782905f4f4feb4ccca0b4ae46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 30/55] fix: failing allocations lost data or crashed line
 editing and handle setup

Growing the kill buffer and adding the final newline ignored errors and wrote
beyond the buffer, a history entry that could not be stored left an invalid
entry, resizing the history lost it after having changed its size, and
cligen_init returned a half-initialised handle. The prompt could not be unset.
---
 cligen_getline.c | 34 +++++++++++++++++++++-------------
 cligen_handle.c  | 36 ++++++++++++++++++++----------------
 cligen_history.c | 24 +++++++++++-------------
 3 files changed, 52 insertions(+), 42 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 4c1ea97..3c4a4be 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -62,10 +62,10 @@ static int      gl_addchar(cligen_handle h, int c);     /* install specified cha
 static void     gl_del(cligen_handle h, int loc);       /* del, either left (-1) or cur (0) */
 static inline void gl_fixup(cligen_handle h, char*,int,int);/* fixup state variables and screen */
 static int      gl_getc(cligen_handle h);               /* read one char from terminal */
-static void     gl_kill(cligen_handle h, int pos);      /* delete to EOL */
-static void     gl_kill_begin(cligen_handle h, int pos);        /* delete to BEGIN of line */
+static int      gl_kill(cligen_handle h, int pos);      /* delete to EOL */
+static int      gl_kill_begin(cligen_handle h, int pos);        /* delete to BEGIN of line */
 static int      gl_kill_word(cligen_handle h, int pos); /* delete word */
-static void     gl_newline(cligen_handle);      /* handle \n or \r */
+static int      gl_newline(cligen_handle);      /* handle \n or \r */
 static int      gl_puts(char *buf);     /* write a line to terminal */
 
 static void     gl_transpose(cligen_handle h);  /* transpose two chars */
@@ -680,7 +680,8 @@ gl_getline(cligen_handle h,
                 goto exit;
             switch (c) {
             case '\n': case '\r':                       /* newline */
-                gl_newline(h);
+                if (gl_newline(h) < 0)
+                    goto err;
                 goto done;
                 /*NOTREACHED*/
                 break;
@@ -712,7 +713,7 @@ gl_getline(cligen_handle h,
 #endif
                 }
                 break;
-            case '\013': gl_kill(h, gl_pos);                    /* ^K */
+            case '\013': if (gl_kill(h, gl_pos) < 0) goto err;  /* ^K */
                 break;
             case '\014':
                     gl_clear_screen(h);                         /* ^L */
@@ -737,7 +738,7 @@ gl_getline(cligen_handle h,
                 break;
             case '\024': gl_transpose(h);                       /* ^T */
                 break;
-            case '\025': gl_kill_begin(h, gl_pos);              /* ^U */
+            case '\025': if (gl_kill_begin(h, gl_pos) < 0) goto err; /* ^U */
                 break;
             case '\027': if (gl_kill_word(h, gl_pos) < 0) goto err;/* ^W */
                 break;
@@ -854,7 +855,8 @@ gl_getline(cligen_handle h,
                         kill(0, sig);
                         gl_init1();
                         gl_redraw(h);
-                        gl_kill(h, 0);
+                        if (gl_kill(h, 0) < 0)
+                            goto err;
                         c = 0;
                     }
                 }
@@ -964,7 +966,7 @@ gl_transpose(cligen_handle h)
  * @param[in]  h     CLIgen handle
  * A \n is appended. If line longer than screen, redraw starting at beginning
  */
-static void
+static int
 gl_newline(cligen_handle h)
 {
     int len = gl_cnt;
@@ -974,7 +976,8 @@ gl_newline(cligen_handle h)
         loc = gl_width - 5;     /* shifts line back to start position */
     else
         loc = gl_cnt;
-    cligen_buf_increase(h, gl_cnt+1); /* \n\0 added */
+    if (cligen_buf_increase(h, gl_cnt+1) < 0) /* \n\0 added */
+        return -1;
     if (gl_out_hook) {
         len = strlen(cligen_buf(h));
     }
@@ -984,6 +987,7 @@ gl_newline(cligen_handle h)
     cligen_buf(h)[len] = '\n';
     cligen_buf(h)[len+1] = '\0';
     gl_putc('\n');
+    return 0;
 }
 
 /*! Delete a character.
@@ -1011,17 +1015,19 @@ gl_del(cligen_handle h,
  * @param[in]  h     CLIgen handle
  * @param[in]  pos   Delete from pos to the end of line
  */
-static void
+static int
 gl_kill(cligen_handle h,
         int           pos)
 {
     if (pos < gl_cnt) {
-        cligen_killbuf_increase(h, cligen_buf_size(h));
+        if (cligen_killbuf_increase(h, cligen_buf_size(h)) < 0)
+            return -1;
         strncpy(cligen_killbuf(h), cligen_buf(h) + pos, cligen_buf_size(h));
         cligen_buf(h)[pos] = '\0';
         gl_fixup(h, cligen_prompt(h), pos, pos);
     } else
         gl_putc('\007');
+    return 0;
 }
 
 /* Delete from pos to start of line
@@ -1029,7 +1035,7 @@ gl_kill(cligen_handle h,
  * @param[in]  h     CLIgen handle
  * @param[in]  pos   Delete from pos to start of line
  */
-static void
+static int
 gl_kill_begin(cligen_handle h,
               int           pos)
 {
@@ -1037,13 +1043,15 @@ gl_kill_begin(cligen_handle h,
 
     if (pos != 0) {
         len = strlen(cligen_buf(h));
-        cligen_killbuf_increase(h, pos);
+        if (cligen_killbuf_increase(h, pos) < 0)
+            return -1;
         strncpy(cligen_killbuf(h), cligen_buf(h), pos);
         cligen_killbuf(h)[pos] = '\0';
         memmove(cligen_buf(h), cligen_buf(h) + pos, len-pos+1); /* memmove may overlap */
         gl_fixup(h, cligen_prompt(h), 0, 0);
     } else
         gl_putc('\007');
+    return 0;
 }
 
 /*! Delete one previous word from pos
diff --git a/cligen_handle.c b/cligen_handle.c
index 71eed4a..1745986 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -163,30 +163,33 @@ cligen_init(void)
     ch->ch_tabmode = 0x0; /* see CLIGEN_TABMODE_* */
     ch->ch_delimiter = ' ';
     h = (cligen_handle)ch;
-    cligen_prompt_set(h, CLIGEN_PROMPT_DEFAULT);
+    if (cligen_prompt_set(h, CLIGEN_PROMPT_DEFAULT) < 0)
+        goto err;
     /* Only if stdin and stdout refers to a terminal make win size check */
     if (isatty(0) && isatty(1)){
-        if (cligen_gwinsz(h) < 0){
-            free(ch);
-            return NULL;
-        }
+        if (cligen_gwinsz(h) < 0)
+            goto err;
         cligen_interrupt_hook(h, cligen_gwinsz);
         memset(&sigh, 0, sizeof(sigh));
         sigh.sa_handler = sigwinch_handler;
         if (sigaction(SIGWINCH, &sigh, NULL) < 0){
             perror("sigaction");
-            free(ch);
-            return NULL;
+            goto err;
         }
     }
     else
         terminal_rows_set1(0);
     cliread_init(h);
-    cligen_buf_init(h);
+    if (cligen_buf_init(h) < 0)
+        goto err;
     /* getline cant function without some history */
-    (void)cligen_hist_init(h, CLIGEN_HISTSIZE_DEFAULT);
+    if (cligen_hist_init(h, CLIGEN_HISTSIZE_DEFAULT) < 0)
+        goto err;
   done:
     return h;
+  err:
+    cligen_exit(h);
+    return NULL;
 }
 
 /*! This is the last call to the CLIgen API an application should make
@@ -306,16 +309,17 @@ cligen_prompt_set(cligen_handle h,
 {
     struct cligen_handle *ch = handle(h);
 
-    if (ch->ch_prompt){
-        if (strcmp(prompt, ch->ch_prompt) == 0)
-            return 0;
-        free(ch->ch_prompt);
-        ch->ch_prompt = NULL;
-    }
+    char                 *str = NULL;
+
     if (prompt){
-        if ((ch->ch_prompt = strdup(prompt)) == NULL)
+        if (ch->ch_prompt && strcmp(prompt, ch->ch_prompt) == 0)
+            return 0;
+        if ((str = strdup(prompt)) == NULL)
             return -1;
     }
+    if (ch->ch_prompt)
+        free(ch->ch_prompt);
+    ch->ch_prompt = str;
     return 0;
 }
 
diff --git a/cligen_history.c b/cligen_history.c
index f71910f..c83c149 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -124,8 +124,9 @@ hist_add(cligen_handle h,
         p++;
     if (*p) {
         if (ch->ch_hist_pre == 0 || strcmp(ch->ch_hist_pre, buf) != 0) {
-            if ((ch->ch_hist_buf[ch->ch_hist_last] = hist_save(buf)) == NULL)
+            if ((p = hist_save(buf)) == NULL)
                 goto done;
+            ch->ch_hist_buf[ch->ch_hist_last] = p;
             ch->ch_hist_pre = ch->ch_hist_buf[ch->ch_hist_last];
             ch->ch_hist_last = (ch->ch_hist_last + 1) % ch->ch_hist_size;
             if (ch->ch_hist_buf[ch->ch_hist_last] && *ch->ch_hist_buf[ch->ch_hist_last]) {
@@ -307,28 +308,25 @@ cligen_hist_init(cligen_handle h,
     struct cligen_handle *ch = handle(h);
     int                   retval = -1;
     int                   i;
-    int                   old_size;
+    char                **buf;
 
     if (lines < 1){
         errno = EINVAL;
         goto done;
     }
-    old_size = ch->ch_hist_size;
-    ch->ch_hist_size = lines+1; /* circular buffer needs an extra element */
-    for (i=0; i < old_size; i++)
-        if (ch->ch_hist_buf[i]){
-            if (strlen(ch->ch_hist_buf[i]))
-                free(ch->ch_hist_buf[i]);
-            ch->ch_hist_buf[i] = NULL;
-        }
-    if ((ch->ch_hist_buf = (char**)realloc(ch->ch_hist_buf, ch->ch_hist_size*sizeof(char*))) == NULL)
+    if ((buf = calloc(lines+1, sizeof(char*))) == NULL) /* circular buffer needs an extra element */
         goto done;
+    for (i=0; i < ch->ch_hist_size; i++)
+        if (ch->ch_hist_buf[i] && strlen(ch->ch_hist_buf[i]))
+            free(ch->ch_hist_buf[i]);
+    if (ch->ch_hist_buf)
+        free(ch->ch_hist_buf);
+    ch->ch_hist_buf = buf;
+    ch->ch_hist_size = lines+1;
     ch->ch_hist_cur = 0;
     ch->ch_hist_last = 0;
     ch->ch_hist_pre = 0;
     ch->ch_hist_buf[0] = ""; /* NB not-malloced, check in hist_free */
-    for (i=1; i < ch->ch_hist_size; i++) /* reset all entries */
-        ch->ch_hist_buf[i] = (char *)0;
     retval = 0;
  done:
     return retval;
-- 
2.43.0


From bb9abb411cb747c73b1005256be1c947a68a4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 31/55] fix: merging equal alternatives on expansion left freed
 parents in the grammar

Children merged from an equal alternative were given the transient copy as
parent, which is freed after the line has been parsed.
---
 cligen_object.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 486ce70..18f393c 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -1132,6 +1132,34 @@ co_insert_pos(parse_tree *pt,
         return mid;
 }
 
+/*! Merge a cligen object into an equal object which is already in a parsetree
+ *
+ * @param[in] co2        Object in parsetree
+ * @param[in] co1        Object to merge and free
+ * @param[in] recursive  If not set, co2 is a transient object which shares its children with its original
+ * @retval    co2        OK
+ * @retval    NULL       Error
+ */
+static cg_obj*
+co_insert_equal(cg_obj *co2,
+                cg_obj *co1,
+                int     recursive)
+{
+    cg_obj *parent = co2;
+
+    /* Children are added to the original, which outlives co2 */
+    if (!recursive){
+        if (co2->co_treeref_orig)
+            parent = co2->co_treeref_orig;
+        else if (co2->co_ref)
+            parent = co2->co_ref;
+    }
+    if (cligen_parsetree_merge(co_pt_get(co2), parent, co_pt_get(co1)) < 0)
+        return NULL;
+    co_free(co1, recursive);
+    return co2;
+}
+
 /*! Add a cligen object (co1) to a parsetree(pt) alphabetically.
  *
  * This involves searching in the parsetree for the position where it should be added,
@@ -1164,9 +1192,7 @@ co_insert1(parse_tree *pt,
         if (co1 == NULL && co2 == NULL)
             return NULL;
         if (co1 && co2 && co_eq(co1, co2)==0){
-            cligen_parsetree_merge(co_pt_get(co2), co2, co_pt_get(co1));
-            co_free(co1, recursive);
-            return co2;
+            return co_insert_equal(co2, co1, recursive);
         }
     }
     /* Commands are ordered by name and variables by type, so where they are mixed an equal
@@ -1175,9 +1201,7 @@ co_insert1(parse_tree *pt,
         if ((co2 = pt_vec_i_get(pt, i)) != NULL &&
             co2->co_type == co1->co_type &&
             co_eq(co1, co2) == 0){
-            cligen_parsetree_merge(co_pt_get(co2), co2, co_pt_get(co1));
-            co_free(co1, recursive);
-            return co2;
+            return co_insert_equal(co2, co1, recursive);
         }
     }
     if (pt_vec_i_insert(pt, pos, co1) < 0)
-- 
2.43.0


From 3eba147360582c4d8a0ed25ce465db048615962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 32/55] fix: completion in steps and help passed variables of
 an earlier match to expansion callbacks

---
 cligen_read.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index a2ed7a8..d3d2ddd 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -195,12 +195,11 @@ cli_tab_hook(cligen_handle h,
         prev_cursor = *cursorp;
         if (cli_complete(h, cursorp, ptn, cvv) < 0) /* XXX expand-cleanup must be done here before show commands */
             goto done;
-    } while (cligen_tabmode(h)&CLIGEN_TABMODE_STEPS && prev_cursor != *cursorp);
-    if (cvv){
+        /* Matching appends to cvv: start over for next step and for show commands */
         cvec_free(cvv);
         if ((cvv = cvec_start(cligen_buf(h))) == NULL)
             goto done;
-    }
+    } while (cligen_tabmode(h)&CLIGEN_TABMODE_STEPS && prev_cursor != *cursorp);
     fputs("\n", stdout);
     if (cligen_tabmode(h) & CLIGEN_TABMODE_COLUMNS){
         if (show_help_line(h, stdout, cligen_buf(h), ptn, cvv) <0)
@@ -430,6 +429,7 @@ show_help_line(cligen_handle h,
     cvec         *cvr = NULL;      /* Rest variant,  eg remaining string in each step */
     cg_var       *cvlastt;         /* Last element in cvt */
     cg_var       *cvlastr;         /* Last element in cvr */
+    cvec         *cvv1 = NULL;     /* Variables of second match */
     cligen_result result;
     match_result *mr = NULL;
 
@@ -474,8 +474,10 @@ show_help_line(cligen_handle h,
             cv_reset(cvlastr);
         cvec_del_i(cvr, cvec_len(cvr)-1);
 
+        if ((cvv1 = cvec_start(string)) == NULL)
+            goto done;
         if (match_pattern_exact(h, cvt, cvr, pt,
-                                cvv,
+                                cvv1,
                                 NULL,
                                 &result,
                                 NULL) < 0)
@@ -495,6 +497,8 @@ show_help_line(cligen_handle h,
         goto done;
     retval = 0;
   done:
+    if (cvv1)
+        cvec_free(cvv1);
     if (cvt)
         cvec_free(cvt);
     if (cvr)
-- 
2.43.0


From c6cea713544619bc57033729d6017db4d3c57ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 33/55] fix: expansion variables as first word of a tree or
 working point were never expanded

---
 cligen_read.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index d3d2ddd..6bd283b 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -115,7 +115,7 @@ cli_show_help_commands(cligen_handle h,
                   NULL,
                   cvv,
                   1, /* Include hidden commands */
-                  0, /* VARS are not expanded, eg ? <tab> */
+                  1, /* VARS are expanded, eg ? <tab> */
                   NULL, NULL,
                   ptn) < 0)      /* expansion */
         goto done;
@@ -186,7 +186,7 @@ cli_tab_hook(cligen_handle h,
                   NULL,
                   cvv,
                   1,   /* Include hidden commands */
-                  0,   /* VARS are not expanded, eg ? <tab> */
+                  1,   /* VARS are expanded, eg ? <tab> */
                   NULL, NULL,
                   ptn) < 0)      /* expansion */
         goto done;
@@ -685,7 +685,7 @@ cliread_parse(cligen_handle  h,
     if (pt_expand(h, NULL,
                   pt, cvt, cvv,
                   0,  /* Do not include hidden commands */
-                  0,  /* VARS are not expanded, eg ? <tab> */
+                  1,  /* VARS are expanded, eg ? <tab> */
                   NULL, NULL,
                   ptn) < 0) /* sub-tree expansion, ie choice, expand function */
         goto done;
-- 
2.43.0


From 15d9e011e1a2d9c9add9d0170a7a385128c3cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:11 +0000
Subject: [PATCH 34/55] fix: a mode command itself became the working point of
 its tree and the next key crashed

---
 cligen_pt_head.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/cligen_pt_head.c b/cligen_pt_head.c
index 87fa06e..3963979 100644
--- a/cligen_pt_head.c
+++ b/cligen_pt_head.c
@@ -443,6 +443,27 @@ cligen_ph_active_set_byname(cligen_handle h,
  * @endcode
  */
 
+/*! Check if an object is part of a parse-tree
+ *
+ * @param[in]  co  Original object (not expanded)
+ * @param[in]  pt  Parse-tree, or NULL
+ * @retval     1   Yes
+ * @retval     0   No
+ */
+static int
+co_in_pt(cg_obj     *co,
+         parse_tree *pt)
+{
+    int i;
+
+    while (co_up(co) != NULL)
+        co = co_up(co);
+    for (i=0; i<pt_len_get(pt); i++)
+        if (pt_vec_i_get(pt, i) == co)
+            return 1;
+    return 0;
+}
+
 /*! Callback: Working point tree set
  *
  * Format of argv:
@@ -457,15 +478,22 @@ cligen_wp_set(cligen_handle h,
     char     *treename;
     pt_head  *ph;
     cg_obj   *co;
+    cg_obj   *cow;
+    pt_head  *pha;
 
     cv = cvec_i(argv, 0);
     treename = cv_string_get(cv);
     if ((ph = cligen_ph_find(h, treename)) != NULL &&
         (co = cligen_co_match(h)) != NULL){
-        if (co->co_treeref_orig != NULL)
-            cligen_ph_workpoint_set(ph, co->co_treeref_orig);
-        else if (co->co_ref != NULL)
-            cligen_ph_workpoint_set(ph, co->co_ref);
+        if ((cow = co->co_treeref_orig) == NULL)
+            cow = co->co_ref;
+        /* A command of the active tree itself, such as "edit" in the example above, is not
+         * in the tree and cannot be its working point */
+        if (cow != NULL &&
+            ((pha = cligen_ph_active_get(h)) == NULL ||
+             pha == ph ||
+             !co_in_pt(cow, cligen_ph_parsetree_get(pha))))
+            cligen_ph_workpoint_set(ph, cow);
     }
     return 0;
 }
-- 
2.43.0


From 17eb89f79a9988b98f2a6bc620fb094e101456d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 35/55] fix: an expansion callback giving a NULL help text
 crashed

---
 cligen_expand.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index eb1e935..78a5954 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -532,6 +532,7 @@ pt_expand_fn(cligen_handle h,
     int         i;
     const char *value;
     const char *cmd;
+    const char *help;
     cvec       *cvv1 = NULL; /* Modified */
     cg_obj     *coprev;      /* Matched object of ongoing evaluation, if any */
     int         ret;
@@ -566,12 +567,12 @@ pt_expand_fn(cligen_handle h,
         goto done;
     i = 0;
     while ((cv = cvec_each(commands, cv)) != NULL) {
-        if (i < cvec_len(helptexts)){
-            if ((helpstr = strdup(cv_string_get(cvec_i(helptexts, i)))) == NULL)
+        helpstr = NULL;
+        if (i < cvec_len(helptexts) &&
+            (help = cv_string_get(cvec_i(helptexts, i))) != NULL){
+            if ((helpstr = strdup(help)) == NULL)
                 goto done;
         }
-        else
-            helpstr = NULL;
         i++;
         con = NULL;
         if (co_expand_sub(co, co_parent, &con) < 0)
-- 
2.43.0


From 9123d28a3db2fd3a90a424656ed52db6614c51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 36/55] fix: an empty quoted word failed evaluation or bypassed
 variable restrictions

---
 cligen_match.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index 970c9f6..c28a776 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -155,7 +155,6 @@ match_object(cligen_handle h,
 {
   int          match = 0;
   size_t       len = 0;
-  enum cv_type t;
 
   if (str)
       len = strlen(str);
@@ -191,9 +190,8 @@ match_object(cligen_handle h,
       }
     break;
   case CO_VARIABLE:
-      t = co->co_vtype;
       if (str == NULL || len==0){
-          if (best && cv_isint(t)){
+          if (best && str != NULL){ /* Evaluation: the empty string must be a legal value */
               if ((match = match_variable(h, co, str, reason)) < 0)
                   return -1;
           }
-- 
2.43.0


From 5eac7c3dca3548a40cd1865af9142b4adba6e882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 37/55] fix: memory was leaked or crashed on incomplete or
 wrong syntax

---
 cligen_cv.c     |   4 +-
 cligen_parse.y  | 262 ++++++++++++++++++++++++++++++++++++------------
 cligen_syntax.c | 105 ++++++++++---------
 3 files changed, 258 insertions(+), 113 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 8089e23..8336dd1 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3137,7 +3137,9 @@ cv_parse(const char *str,
         return -1;
     }
     if (retval == 0){
-        fprintf(stderr, "cv parse error: %s\n", reason);
+        fprintf(stderr, "cv parse error: %s\n", reason?reason:"");
+        if (reason)
+            free(reason);
         return -1;
     }
     return 0;
diff --git a/cligen_parse.y b/cligen_parse.y
index 4237f0a..88bd3eb 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -66,6 +66,10 @@
 %type <string> helpstring1
 %type <intval> preline
 
+/* Strings discarded on syntax error. Note HELPSTR points into the scan buffer */
+%destructor { free($$); } NAME NUMBER DECIMAL CHARS
+%destructor { free($$); } charseq choices numdec arg1 typecast helpstring1
+
 %lex-param     {void *_cy} /* Add this argument to parse() and lex() function */
 %parse-param   {void *_cy}
 
@@ -224,9 +228,14 @@ cgy_treename(cligen_yacc *cy,
     int              retval = -1;
     int              i;
     parse_tree      *pt;
+    parse_tree      *ptn = NULL;
     pt_head         *ph;
     cg_var          *cv;
 
+    if (name == NULL){
+        cligen_parseerror1(cy, "Empty treename");
+        goto done;
+    }
     /* Get the first object */
     for (cl=cy->cy_list; cl; cl = cl->cl_next){
         co = cl->cl_obj;
@@ -242,15 +251,16 @@ cgy_treename(cligen_yacc *cy,
             if ((co=pt_vec_i_get(pt, i)) != NULL)
                 co_up_set(co, NULL);
         }
+        if ((ptn = pt_new()) == NULL)
+            goto done;
         if ((ph = cligen_ph_add(cy->cy_handle, cy->cy_treename)) == NULL)
             goto done;
         if (cligen_ph_parsetree_set(ph, pt) < 0)
             goto done;
         /* 3. Create new parse-tree XXX */
-        if ((pt = pt_new()) == NULL)
-            goto done;
         co_pt_clear(cot);
-        co_pt_set(cot, pt);
+        co_pt_set(cot, ptn);
+        ptn = NULL;
         if ((cv = cvec_find(cy->cy_globals, "pipetree")) != NULL){
             char *str;
             if ((str = cv_string_get(cv)) != NULL && strlen(str))
@@ -267,6 +277,8 @@ cgy_treename(cligen_yacc *cy,
     }
     retval = 0;
  done:
+    if (ptn)
+        pt_free(ptn, 0);
     return retval;
 }
 
@@ -381,10 +393,12 @@ cgy_callback_arg(cligen_yacc *cy,
     if (cclast){
         if ((cv = create_cv(cy, type, arg)) == NULL)
             goto done;
-        if (cclast->cc_cvec)
-            cvec_append_var(cclast->cc_cvec, cv);
-        else
-            cclast->cc_cvec = cvec_from_var(cv);
+        if (cclast->cc_cvec){
+            if (cvec_append_var(cclast->cc_cvec, cv) == NULL)
+                goto done;
+        }
+        else if ((cclast->cc_cvec = cvec_from_var(cv)) == NULL)
+            goto done;
     }
     retval = 0;
   done:
@@ -405,10 +419,12 @@ expand_arg(cligen_yacc *cy,
 
     if ((cv = create_cv(cy, "string", arg)) == NULL)
         goto done;
-    if (cy->cy_var->co_expand_fn_vec)
-        cvec_append_var(cy->cy_var->co_expand_fn_vec, cv);
-    else
-        cy->cy_var->co_expand_fn_vec = cvec_from_var(cv);
+    if (cy->cy_var->co_expand_fn_vec){
+        if (cvec_append_var(cy->cy_var->co_expand_fn_vec, cv) == NULL)
+            goto done;
+    }
+    else if ((cy->cy_var->co_expand_fn_vec = cvec_from_var(cv)) == NULL)
+        goto done;
     retval = 0;
   done:
     if (cv)
@@ -423,6 +439,8 @@ static int
 expand_fn(cligen_yacc *cy,
           char        *fn)
 {
+    if (cy->cy_var->co_expand_fn_str)
+        free(cy->cy_var->co_expand_fn_str);
     cy->cy_var->co_expand_fn_str = fn;
     return 0;
 }
@@ -431,10 +449,34 @@ static int
 cg_translate(cligen_yacc *cy,
              char        *fn)
 {
+    if (cy->cy_var->co_translate_fn_str)
+        free(cy->cy_var->co_translate_fn_str);
     cy->cy_var->co_translate_fn_str = fn;
     return 0;
 }
 
+static int
+cg_show(cligen_yacc *cy,
+        char        *show)
+{
+    if (cy->cy_var->co_show)
+        free(cy->cy_var->co_show);
+    cy->cy_var->co_show = show;
+    return 0;
+}
+
+/*! Set choice (or keyword) of variable
+ */
+static int
+cg_choice(cligen_yacc *cy,
+          char        *choice)
+{
+    if (cy->cy_var->co_choice)
+        free(cy->cy_var->co_choice);
+    cy->cy_var->co_choice = choice;
+    return 0;
+}
+
 static int
 cg_preference(cligen_yacc *cy,
               char        *pref)
@@ -447,7 +489,9 @@ cg_preference(cligen_yacc *cy,
         return -1;
     }
     if (parse_uint16(pref, &yv->co_preference, &reason) != 1){
-        cligen_parseerror1(cy, reason);
+        cligen_parseerror1(cy, reason?reason:"preference");
+        if (reason)
+            free(reason);
         return -1;
     }
     return 0;
@@ -600,8 +644,13 @@ cgy_var_post(cligen_yacc *cy)
         else
             coc = coy; /* Dont copy if last in list */
         co_up_set(coc, coparent);
-        if ((co = co_insert(co_pt_get(coparent), coc)) == NULL) /* coc may be deleted */
+        if ((co = co_insert(co_pt_get(coparent), coc)) == NULL){ /* coc may be deleted */
+            if (coc != coy)
+                co_free(coc, 1);
             return -1;
+        }
+        if (coc == coy)
+            cy->cy_var = NULL; /* Consumed */
         cl->cl_obj = co;
     }
     return 0;
@@ -634,8 +683,10 @@ cgy_cmd(cligen_yacc *cy,
             cligen_parseerror1(cy, "Allocating cligen object");
             return -1;
         }
-        if ((co = co_insert(co_pt_get(cop), conew)) == NULL)  /* co_new may be deleted */
+        if ((co = co_insert(co_pt_get(cop), conew)) == NULL){ /* co_new may be deleted */
+            co_free(conew, 1);
             return -1;
+        }
         if (cy->cy_optional){
             co_flags_set(co, CO_FLAGS_OPTION);
         }
@@ -662,6 +713,7 @@ cgy_reference(cligen_yacc *cy,
     struct cgy_list *cl;
     cg_obj          *cop;   /* parent */
     cg_obj          *cot;   /* tree */
+    cg_obj          *conew;
     cbuf            *cb = NULL;
 
     if ((cb = cbuf_new()) == NULL)
@@ -672,13 +724,15 @@ cgy_reference(cligen_yacc *cy,
     for (cl=cy->cy_list; cl; cl = cl->cl_next){
         /* Add a treeref 'stub' which is expanded in pt_expand to a sub-tree */
         cop = cl->cl_obj;
-        if ((cot = co_new(cbuf_get(cb), cop)) == NULL) {
+        if ((conew = co_new(cbuf_get(cb), cop)) == NULL) {
             cligen_parseerror1(cy, "Allocating cligen object");
             goto done;
         }
-        cot->co_type = CO_REFERENCE;
-        if ((cot = co_insert(co_pt_get(cop), cot)) == NULL)  /* cot may be deleted */
+        conew->co_type = CO_REFERENCE;
+        if ((cot = co_insert(co_pt_get(cop), conew)) == NULL){ /* conew may be deleted */
+            co_free(conew, 1);
             goto done;
+        }
         /* Replace parent in cgy_list: not allowed after ref?
            but only way to add callbacks to it.
         */
@@ -708,6 +762,7 @@ cgy_helpstring(cligen_yacc *cy,
     int              retval = -1;
     struct cgy_list *cl;
     cg_obj          *co;
+    char            *str;
 
     if (helpstr == NULL){
         errno = EINVAL;
@@ -717,11 +772,12 @@ cgy_helpstring(cligen_yacc *cy,
         co = cl->cl_obj;
         if (co->co_helpstring){
             if (merge){
-                if ((co->co_helpstring = realloc(co->co_helpstring,
-                                                 strlen(co->co_helpstring) + strlen(helpstr) + 2)) == NULL){
+                if ((str = realloc(co->co_helpstring,
+                                   strlen(co->co_helpstring) + strlen(helpstr) + 2)) == NULL){
                     cligen_parseerror1(cy, "Allocating helpstr");
                     goto done;
                 }
+                co->co_helpstring = str;
                 strcat(co->co_helpstring, "\n");
                 strcat(co->co_helpstring, helpstr);
             }
@@ -732,9 +788,10 @@ cgy_helpstring(cligen_yacc *cy,
                 goto done;
             }
     }
-    free(helpstr);
     retval = 0;
  done:
+    if (helpstr)
+        free(helpstr);
     return retval;
  }
 
@@ -743,6 +800,7 @@ cgy_helpstring(cligen_yacc *cy,
  * @param[in]  cy   CLIgen yacc parse struct
  * @param[in]  str  Accumulated choice string on the form: "a|..|z"
  * @param[in]  app  Choice option to append
+ * @retval     NULL Error, str is freed
  * @retval     s    New string created by appending: "<str>|<app>"
  * This is just string manipulation, the complete string is linked into CLIgen structs by upper rule
  * Note that this is variable choice. There is also command choice, eg [a|b] which is different.
@@ -755,9 +813,14 @@ cgy_var_choice_append(cligen_yacc *cy,
     int len;
     char *s;
 
+    if (str == NULL){
+        cligen_parseerror1(cy, "Empty choice");
+        return NULL;
+    }
     len = strlen(str)+strlen(app) + 2;
     if ((s = realloc(str, len)) == NULL) {
         fprintf(stderr, "%s: realloc: %s\n", __FUNCTION__, strerror(errno));
+        free(str);
         return NULL;
     }
     strncat(s, "|", len-1);
@@ -792,8 +855,10 @@ cgy_terminal(cligen_yacc *cy)
             while (*ccp != NULL)
                 ccp = &((*ccp)->cc_next);
 #if 1 /* Optimization: dont copy the last element */
-            if (cl->cl_next == NULL)
+            if (cl->cl_next == NULL){
                 *ccp = cy->cy_callbacks;
+                cy->cy_callbacks = NULL;
+            }
             else
 #endif
             if (co_callback_copy(cy->cy_callbacks, ccp) < 0)
@@ -823,7 +888,10 @@ cgy_terminal(cligen_yacc *cy)
                     return -1;
                 }
                 coi->co_type = CO_EMPTY;
-                co_insert(co_pt_get(co), coi);
+                if (co_insert(co_pt_get(co), coi) == NULL){
+                    co_free(coi, 1);
+                    goto done;
+                }
             }
         }
         else{ /* Should never reach here? */
@@ -831,13 +899,8 @@ cgy_terminal(cligen_yacc *cy)
         }
     }
     /* cleanup */
-#if 1 /* Optimization: dont copy first */
-    if ((cl = cy->cy_list) != NULL)
-        cy->cy_callbacks = NULL;
-    else
-#endif
-        if (cy->cy_callbacks)
-            co_callbacks_free(&cy->cy_callbacks);
+    if (cy->cy_callbacks)
+        co_callbacks_free(&cy->cy_callbacks);
     if (cy->cy_cvec){
         cvec_free(cy->cy_cvec);
         cy->cy_cvec = NULL;
@@ -1048,7 +1111,8 @@ cg_regexp(cligen_yacc *cy,
         goto done;
     if (invert)
         cv_flag_set(cv, V_INVERT);
-    cv_string_set(cv, rx);
+    if (cv_string_set(cv, rx) == NULL)
+        goto done;
     if (cy->cy_var->co_vtype != CGV_STRING && cy->cy_var->co_vtype != CGV_REST)
         cy->cy_var->co_vtype = CGV_STRING;
     retval = 0;
@@ -1112,7 +1176,7 @@ cg_range_create(cligen_yacc *cy,
         if ((yv->co_rangecvv_low = cvec_from_var(cv1)) == NULL)
             goto done;
     }
-    else if (cvec_append_var(yv->co_rangecvv_low, cv1) < 0)
+    else if (cvec_append_var(yv->co_rangecvv_low, cv1) == NULL)
         goto done;
     /* Then create upper bound cv */
     if ((cv2 = cv_new(cvtype)) == NULL){
@@ -1140,7 +1204,7 @@ cg_range_create(cligen_yacc *cy,
         if ((yv->co_rangecvv_upp = cvec_from_var(cv2)) == NULL)
             goto done;
     }
-    else if (cvec_append_var(yv->co_rangecvv_upp, cv2) < 0)
+    else if (cvec_append_var(yv->co_rangecvv_upp, cv2) == NULL)
         goto done;
     /* Then increment range vector length */
     yv->co_rangelen++;
@@ -1215,8 +1279,10 @@ cg_dec64_n(cligen_yacc *cy,
         fprintf(stderr, "No var obj");
         return -1;
     }
-    if (parse_uint8(fraction_digits, &yv->co_dec64_n, NULL) != 1){
-        cligen_parseerror1(cy, reason);
+    if (parse_uint8(fraction_digits, &yv->co_dec64_n, &reason) != 1){
+        cligen_parseerror1(cy, reason?reason:"fraction-digits");
+        if (reason)
+            free(reason);
         return -1;
     }
     return 0;
@@ -1250,9 +1316,20 @@ cgy_exit(cligen_yacc *cy)
     if (debug)
         fprintf(stderr, "%s\n", __FUNCTION__);
 
-    cy->cy_var = NULL;
+    /* Leftovers if parsing failed, or a statement without ';' */
+    if (cy->cy_var){
+        co_free(cy->cy_var, 1);
+        cy->cy_var = NULL;
+    }
+    if (cy->cy_callbacks)
+        co_callbacks_free(&cy->cy_callbacks);
+    if (cy->cy_cvec){
+        cvec_free(cy->cy_cvec);
+        cy->cy_cvec = NULL;
+    }
     cgy_list_delete(&cy->cy_list);
-    if((cs = cy->cy_stack) != NULL){
+    while ((cs = cy->cy_stack) != NULL){
+        cy->cy_stack = cs->cs_next;
         delete_stack_element(cs);
 #if 0
         fprintf(stderr, "%s:%d: error: lacking () or [] at or before: '%s'\n",
@@ -1325,18 +1402,25 @@ option      : callback           { _PARSE_DEBUG("option->callback");}
 
 assignment  : NAME '=' DQ charseq DQ
                                  {_PARSE_DEBUG("assignment->\" charseq \"");
-                                  cgy_assignment(_cy, $1,$4);free($1); free($4);}
+                                  int ret = cgy_assignment(_cy, $1,$4);
+                                  free($1); free($4);
+                                  if (ret < 0) _YYERROR("assignment");}
             | NAME '=' DQ DQ
                                  { _PARSE_DEBUG("assignment->\" \"");
-                                  cgy_assignment(_cy, $1,NULL);free($1);}
+                                  int ret = cgy_assignment(_cy, $1,NULL);
+                                  free($1);
+                                  if (ret < 0) _YYERROR("assignment");}
             ;
 
 flag        : NAME               { _PARSE_DEBUG("flag->NAME");
-                                   cgy_flag(_cy, $1);free($1);}
+                                   int ret = cgy_flag(_cy, $1);
+                                   free($1);
+                                   if (ret < 0) _YYERROR("flag");}
             ;
 
 callback    : NAME               { _PARSE_DEBUG("callback->NAME ( arglist )");
-                                   if (cgy_callback(_cy, $1) < 0) _YYERROR("callback");}
+                                   if (cgy_callback(_cy, $1) < 0) _YYERROR("callback");
+                                   $1 = NULL; /* consumed */ }
               '(' arglist ')'
             ;
 
@@ -1349,9 +1433,11 @@ arglist1    : arglist1 ',' arg
             ;
 
 arg         : typecast arg1 {
-                    if ($2 && cgy_callback_arg(_cy, $1, $2) < 0) _YYERROR("arg");
+                    int ret = 0;
+                    if ($2) ret = cgy_callback_arg(_cy, $1, $2);
                     if ($1 != NULL) free($1);
                     if ($2 != NULL) free($2);
+                    if (ret < 0) _YYERROR("arg");
               }
             ;
 
@@ -1408,7 +1494,10 @@ helpstring1 : helpstring1 HELPSTR
               {
                   size_t len = strlen($1);
                   _PARSE_DEBUG("helpstring1 -> helpstring1 HELPSTR");
-                  if (($$ = realloc($1, len+strlen($2) +1)) == NULL) _YYERROR("cmd");
+                  if (($$ = realloc($1, len+strlen($2) +1)) == NULL){
+                      free($1);
+                      _YYERROR("helpstring1");
+                  }
                   sprintf($$+len, "%s", $2);
               }
             | HELPSTR
@@ -1419,20 +1508,33 @@ helpstring1 : helpstring1 HELPSTR
             ;
 
 cmd         : NAME           { _PARSE_DEBUG("cmd->NAME");
-                               if (cgy_cmd(_cy, $1) < 0) _YYERROR("cmd"); free($1); }
+                               int ret = cgy_cmd(_cy, $1);
+                               free($1);
+                               if (ret < 0) _YYERROR("cmd"); }
             | '@' NAME       { _PARSE_DEBUG("cmd->@NAME");
-                               if (cgy_reference(_cy, $2, 0) < 0) _YYERROR("cmd"); free($2); }
+                               int ret = cgy_reference(_cy, $2, 0);
+                               free($2);
+                               if (ret < 0) _YYERROR("cmd"); }
             | '@' '|' NAME   { _PARSE_DEBUG("cmd->@|NAME");
-                               if (cgy_reference(_cy, $3, 1) < 0) _YYERROR("cmd"); free($3); }
+                               int ret = cgy_reference(_cy, $3, 1);
+                               free($3);
+                               if (ret < 0) _YYERROR("cmd"); }
             | '<'            { if ((_CY->cy_var = cgy_var_create(_CY)) == NULL) _YYERROR("cmd"); }
                variable '>'  { if (cgy_var_post(_cy) < 0) _YYERROR("cmd"); }
             ;
 
 variable    : NAME          { if (cgy_var_name_type(_cy, $1, $1)<0) _YYERROR("variable"); }
-            | NAME ':' NAME { if (cgy_var_name_type(_cy, $1, $3)<0) _YYERROR("variable"); free($3); }
-            | NAME  { if (cgy_var_name_type(_cy, $1, $1) < 0) _YYERROR("variable"); }
+            | NAME ':' NAME { int ret = cgy_var_name_type(_cy, $1, $3);
+                              free($3);
+                              if (ret < 0) _YYERROR("variable"); }
+            | NAME          { int ret = cgy_var_name_type(_cy, $1, $1);
+                              $1 = NULL; /* consumed */
+                              if (ret < 0) _YYERROR("variable"); }
               keypairs
-            | NAME ':' NAME  { if (cgy_var_name_type(_cy, $1, $3) < 0) _YYERROR("variable"); free($3); }
+            | NAME ':' NAME { int ret = cgy_var_name_type(_cy, $1, $3);
+                              $1 = NULL; /* consumed */
+                              free($3); $3 = NULL;
+                              if (ret < 0) _YYERROR("variable"); }
               keypairs
             ;
 
@@ -1457,48 +1559,62 @@ keypair     : NAME '(' ')' {
                  expand_fn(_cy, $1); }
             | V_SHOW ':' NAME {
                  _PARSE_DEBUG("keypair->show:name");
-                 _CY->cy_var->co_show = $3;
+                 cg_show(_cy, $3);
               }
             | V_SHOW ':' DQ charseq DQ {
                  _PARSE_DEBUG("keypair->show:DQ charseq DQ");
-                 _CY->cy_var->co_show = $4;
+                 cg_show(_cy, $4);
               }
             | V_RANGE '[' numdec ':' numdec ']' {
                  _PARSE_DEBUG("keypair->range [<nr>:<nr>]");
-                if (cg_range(_cy, $3, $5) < 0) _YYERROR("keypair"); free($3); free($5);
+                 int ret = cg_range(_cy, $3, $5);
+                 free($3); free($5);
+                 if (ret < 0) _YYERROR("keypair");
               }
             | V_RANGE '[' numdec ']' {
                  _PARSE_DEBUG("keypair->range [<nr>]");
-                 if (cg_range(_cy, NULL, $3) < 0) _YYERROR("keypair"); free($3);
+                 int ret = cg_range(_cy, NULL, $3);
+                 free($3);
+                 if (ret < 0) _YYERROR("keypair");
               }
             | V_LENGTH '[' NUMBER ':' NUMBER ']' {
                  _PARSE_DEBUG("keypair->length[number:number]");
-                 if (cg_length(_cy, $3, $5) < 0) _YYERROR("keypair"); free($3); free($5);
+                 int ret = cg_length(_cy, $3, $5);
+                 free($3); free($5);
+                 if (ret < 0) _YYERROR("keypair");
               }
             | V_LENGTH '[' NUMBER ']' {
                  _PARSE_DEBUG("keypair->length[number]");
-                 if (cg_length(_cy, NULL, $3) < 0) _YYERROR("keypair"); free($3);
+                 int ret = cg_length(_cy, NULL, $3);
+                 free($3);
+                 if (ret < 0) _YYERROR("keypair");
               }
             | V_FRACTION_DIGITS ':' NUMBER {
                  _PARSE_DEBUG("keypair->fraction-digits:number");
-                if (cg_dec64_n(_cy, $3) < 0) _YYERROR("keypair"); free($3);
+                 int ret = cg_dec64_n(_cy, $3);
+                 free($3);
+                 if (ret < 0) _YYERROR("keypair");
               }
             | V_CHOICE choices {
                  _PARSE_DEBUG("keypair->choice choices");
-                 _CY->cy_var->co_choice = $2;
+                 cg_choice(_cy, $2);
               }
             | V_KEYWORD ':' NAME {
                  _PARSE_DEBUG("keypair->keyword name");
-                _CY->cy_var->co_keyword = $3;
+                cg_choice(_cy, $3); /* same field as keyword */
                 _CY->cy_var->co_vtype=CGV_STRING;
               }
             | V_REGEXP  ':' DQ charseq DQ {
                  _PARSE_DEBUG("keypair->regexp : DQ charseq DQ");
-                 if (cg_regexp(_cy, $4, 0) < 0) _YYERROR("keypair"); free($4);
+                 int ret = cg_regexp(_cy, $4, 0);
+                 free($4);
+                 if (ret < 0) _YYERROR("keypair");
               }
             | V_REGEXP  ':' '!'  DQ charseq DQ {
                  _PARSE_DEBUG("keypair->regexp : ! DQ charseq DQ");
-                 if (cg_regexp(_cy, $5, 1) < 0) _YYERROR("keypair"); free($5);
+                 int ret = cg_regexp(_cy, $5, 1);
+                 free($5);
+                 if (ret < 0) _YYERROR("keypair");
               }
             | V_TRANSLATE ':' NAME '(' ')' {
                  _PARSE_DEBUG("keypair->translate : name ()");
@@ -1506,7 +1622,9 @@ keypair     : NAME '(' ')' {
               }
             | V_PREFERENCE ':' NUMBER {
                  _PARSE_DEBUG("keypair->preference : number");
-                 cg_preference(_cy, $3); free($3);
+                 int ret = cg_preference(_cy, $3);
+                 free($3);
+                 if (ret < 0) _YYERROR("keypair");
               }
             ;
 
@@ -1515,13 +1633,19 @@ exparglist : exparglist ',' exparg
            ;
 
 exparg     : DQ DQ
-           | DQ charseq DQ { expand_arg(_cy, $2); free($2); }
+           | DQ charseq DQ {
+                    int ret = expand_arg(_cy, $2);
+                    free($2);
+                    if (ret < 0) _YYERROR("exparg");
+              }
            ;
 
 exparg     : typecast arg1 {
-                    if ($2 && cgy_callback_arg(_cy, $1, $2) < 0) _YYERROR("exparg");
+                    int ret = 0;
+                    if ($2) ret = cgy_callback_arg(_cy, $1, $2);
                     if ($1) free($1);
                     if ($2) free($2);
+                    if (ret < 0) _YYERROR("exparg");
               }
            ;
 
@@ -1529,16 +1653,22 @@ choices     : { $$ = NULL;}
             | NUMBER { $$ = $1;}
             | NAME { $$ = $1;}
             | DECIMAL { $$ = $1;}
-            | choices '|' NUMBER  { $$ = cgy_var_choice_append(_cy, $1, $3); free($3);}
-            | choices '|' NAME    { $$ = cgy_var_choice_append(_cy, $1, $3); free($3);}
-            | choices '|' DECIMAL { $$ = cgy_var_choice_append(_cy, $1, $3); free($3);}
+            | choices '|' NUMBER  { $$ = cgy_var_choice_append(_cy, $1, $3); free($3);
+                                    if ($$ == NULL) _YYERROR("choices"); }
+            | choices '|' NAME    { $$ = cgy_var_choice_append(_cy, $1, $3); free($3);
+                                    if ($$ == NULL) _YYERROR("choices"); }
+            | choices '|' DECIMAL { $$ = cgy_var_choice_append(_cy, $1, $3); free($3);
+                                    if ($$ == NULL) _YYERROR("choices"); }
             ;
 
 charseq    : charseq CHARS
               {
                   int len = strlen($1);
                   _PARSE_DEBUG("charseq->charseq CHARS");
-                  $$ = realloc($1, len+strlen($2) +1);
+                  if (($$ = realloc($1, len+strlen($2) +1)) == NULL){
+                      free($1); free($2);
+                      _YYERROR("charseq");
+                  }
                   sprintf($$+len, "%s", $2);
                   free($2);
                  }
diff --git a/cligen_syntax.c b/cligen_syntax.c
index d5c0464..0dc6498 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -85,12 +85,19 @@ clispec_parse_str(cligen_handle h,
     parse_tree        *pt = NULL;
     pt_head           *ph;
     cg_var            *cv;
+    int                added = 0; /* pt handed over to a parse-tree head */
 
     /* "Fake" top-level object that is removed on exit */
     if ((cot = co_new(NULL, NULL)) == NULL)
         goto done;
     cy.cy_handle       = h; /* cligen_handle */
     cy.cy_name         = name;
+    if (ptp != NULL){
+        co_pt_set(cot, ptp);
+        pt = ptp;
+    }
+    else
+        pt = co_pt_get(cot);
     if (treename){
         if ((cy.cy_treename = strdup(treename)) == NULL)
             goto done;
@@ -101,12 +108,6 @@ clispec_parse_str(cligen_handle h,
     cy.cy_linenum      = 1;
     cy.cy_parse_string = str;
     cy.cy_stack        = NULL;
-    if (ptp != NULL)
-        pt = ptp;
-    else
-        if ((pt = pt_new()) == NULL)
-            goto done;
-    co_pt_set(cot, pt);
     if (cvv)
         cy.cy_globals  = cvv;
     else
@@ -119,11 +120,8 @@ clispec_parse_str(cligen_handle h,
             goto done;
         if (cgy_init(&cy, cot) < 0)
             goto done;
-        if (cligen_parseparse(&cy) != 0) { /* yacc returns 1 on error */
-            cgy_exit(&cy);
-            cgl_exit(&cy);
+        if (cligen_parseparse(&cy) != 0) /* yacc returns 1 on error */
             goto done;
-        }
         /* Note pt/ptp is stale after parsing due to treename that replaces cot->pt
          * Add final tree */
         pt = co_pt_get(cot);
@@ -132,6 +130,7 @@ clispec_parse_str(cligen_handle h,
                 goto done;
             if (cligen_ph_parsetree_set(ph, pt) < 0)
                 goto done;
+            added = 1;
             if ((cv = cvec_find(cy.cy_globals, "pipetree")) != NULL){
                 char *str;
                 if ((str = cv_string_get(cv)) != NULL && strlen(str))
@@ -139,25 +138,29 @@ clispec_parse_str(cligen_handle h,
                         goto done;
             }
         }
-        if (cgy_exit(&cy) < 0)
-            goto done;
-        if (cgl_exit(&cy) < 0)
-            goto done;
-    }
-    if (cvv == NULL) /* Not passed to caller function */
-        cvec_free(cy.cy_globals);
-    /*
-     * Remove the fake top level object and remove references to it.
-     * This does not work for (other) trees
-     */
-    for (i=0; i<pt_len_get(pt); i++){
-        if ((co=pt_vec_i_get(pt, i)) != NULL)
-            co_up_set(co, NULL);
     }
     retval = 0;
   done:
-    if (cot)
+    cgy_exit(&cy);
+    if (cy.cy_lexbuf)
+        cgl_exit(&cy);
+    if (cvv == NULL && cy.cy_globals) /* Not passed to caller function */
+        cvec_free(cy.cy_globals);
+    if (cot){
+        pt = co_pt_get(cot);
+        if (pt != ptp && !added) /* Failed or empty */
+            pt_free(pt, 1);
+        else
+            /*
+             * Remove the fake top level object and remove references to it.
+             * This does not work for (other) trees
+             */
+            for (i=0; i<pt_len_get(pt); i++){
+                if ((co=pt_vec_i_get(pt, i)) != NULL)
+                    co_up_set(co, NULL);
+            }
         co_free(cot, 0);
+    }
     if (cy.cy_treename)
         free (cy.cy_treename);
     return retval;
@@ -441,6 +444,7 @@ cligen_alias_add(cligen_handle  h,
     pt_head     *ph;
     parse_tree  *pt;
     cg_obj      *co;
+    parse_tree  *ptn = NULL; /* New alias */
     int          i;
     cg_callback *cc;
 
@@ -460,45 +464,54 @@ cligen_alias_add(cligen_handle  h,
         errno = ENOENT;
         goto done;
     }
-    /* Remove old alias, cant use search since need i for delete */
-    for (i=0; i<pt_len_get(pt); i++){
-        if ((co = pt_vec_i_get(pt, i)) == NULL)
-            continue;
-        if (strcmp(co->co_command, name) != 0)
-            continue;
-        if (co_flags_get(co, CO_FLAGS_ALIAS) == 0){
-            errno = EEXIST;
-            goto done;
-        }
-        pt_vec_i_delete(pt, i, 1);
-        break;
-    }
     if ((cb = cbuf_new()) == NULL)
         goto done;
     cprintf(cb, "%s", name);
     if (helpstr)
         cprintf(cb, "(\"%s\")", helpstr);
     cprintf(cb, ", cligen_alias_fn(\"%s\");", command);
-    if (clispec_parse_str(h, cbuf_get(cb), "Parsing alias command", NULL, pt, NULL) < 0){
+    /* Parse into a separate tree: on error the old alias and the tree remain as they were */
+    if ((ptn = pt_new()) == NULL)
+        goto done;
+    if (clispec_parse_str(h, cbuf_get(cb), "Parsing alias command", NULL, ptn, NULL) < 0){
         goto done;
     }
     /* Sanity check and add alias flag */
-    if ((co = co_find_one(pt, name)) == NULL){
+    if ((co = co_find_one(ptn, name)) == NULL){
         errno = ENOENT;
         goto done;
     }
     co_flags_set(co, CO_FLAGS_ALIAS);
-    {
-
-
-        if ((cc = co->co_callbacks) == NULL){
-            fprintf(stderr, "No callback found\n");
+    if ((cc = co->co_callbacks) == NULL){
+        fprintf(stderr, "No callback found\n");
+        goto done;
+    }
+    co_callback_fn_set(cc, callback?callback:cligen_alias_call);
+    /* Remove old alias, cant use search since need i for delete */
+    for (i=0; i<pt_len_get(pt); i++){
+        if ((co = pt_vec_i_get(pt, i)) == NULL)
+            continue;
+        if (co->co_command == NULL || strcmp(co->co_command, name) != 0)
+            continue;
+        if (co_flags_get(co, CO_FLAGS_ALIAS) == 0){
+            errno = EEXIST;
             goto done;
         }
-        co_callback_fn_set(cc, callback?callback:cligen_alias_call);
+        pt_vec_i_delete(pt, i, 1);
+        break;
+    }
+    /* Move new alias to tree */
+    for (i=0; i<pt_len_get(ptn); i++){
+        if ((co = pt_vec_i_get(ptn, i)) == NULL)
+            continue;
+        if (co_insert(pt, co) == NULL)
+            goto done;
+        pt_vec_i_clear(ptn, i);
     }
     retval = 0;
  done:
+    if (ptn)
+        pt_free(ptn, 1);
     if (cb)
         cbuf_free(cb);
     return retval;
-- 
2.43.0


From 21ae02b0255478e1baeca0890cbf9738b13085a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 38/55] fix: a prompt changed or removed while editing was used
 after being freed

---
 cligen_getline.c | 76 ++++++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 3c4a4be..dd5b2ac 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -610,6 +610,16 @@ gl_setwidth(int  w)
     return 0;
 }
 
+/*! Get current prompt, note it may be changed or removed by any callback
+ */
+static char *
+gl_prompt(cligen_handle h)
+{
+    char *prompt = cligen_prompt(h);
+
+    return prompt ? prompt : "";
+}
+
 /*! Main getline function handling a command line
  *
  * @param[in]  h     CLIgen handle
@@ -625,7 +635,6 @@ gl_getline(cligen_handle h,
     int   c;
     int   loc;
     int   tmp;
-    char *gl_prompt;
     int   escape = 0;
 #ifdef __unix__
     int   sig;
@@ -633,11 +642,10 @@ gl_getline(cligen_handle h,
 
     gl_search_mode = 0;
     gl_init1();
-    gl_prompt = (cligen_prompt(h))? cligen_prompt(h) : "";
     cligen_buf(h)[0] = 0;
     if (gl_in_hook)
         gl_in_hook(h, cligen_buf(h));
-    gl_fixup(h, gl_prompt, -2, cligen_buf_size(h));
+    gl_fixup(h, gl_prompt(h), -2, cligen_buf_size(h));
     while ((c = gl_getc(h)) >= 0) { /* tainted data needs to be sanitized */
         gl_extent = 0;          /* reset to full extent */
         if (isprint(c) || (escape && c=='\n')) {
@@ -648,7 +656,7 @@ gl_getline(cligen_handle h,
                     escape = 0;
                     if ((loc = gl_qmark_hook(h, cligen_buf(h))) < 0)
                         goto err;
-                    gl_fixup(h, gl_search_mode? search_prompt : gl_prompt, -2, gl_pos);
+                    gl_fixup(h, gl_search_mode? search_prompt : gl_prompt(h), -2, gl_pos);
                 }
                 else{
                     escape = 0;
@@ -685,9 +693,9 @@ gl_getline(cligen_handle h,
                 goto done;
                 /*NOTREACHED*/
                 break;
-            case '\001': gl_fixup(h, gl_prompt, -1, 0);         /* ^A */
+            case '\001': gl_fixup(h, gl_prompt(h), -1, 0);         /* ^A */
                 break;
-            case '\002': gl_fixup(h, gl_prompt, -1, gl_pos-1);  /* ^B */
+            case '\002': gl_fixup(h, gl_prompt(h), -1, gl_pos-1);  /* ^B */
                 break;
             case '\004':                                        /* ^D */
                 if (gl_cnt == 0)
@@ -695,9 +703,9 @@ gl_getline(cligen_handle h,
                 else
                     gl_del(h, 0);
                 break;
-            case '\005': gl_fixup(h, gl_prompt, -1, gl_cnt);    /* ^E */
+            case '\005': gl_fixup(h, gl_prompt(h), -1, gl_cnt);    /* ^E */
                 break;
-            case '\006': gl_fixup(h, gl_prompt, -1, gl_pos+1);  /* ^F */
+            case '\006': gl_fixup(h, gl_prompt(h), -1, gl_pos+1);  /* ^F */
                 break;
             case '\010': case '\177': gl_del(h, -1);    /* ^H and DEL */
                 break;
@@ -706,10 +714,10 @@ gl_getline(cligen_handle h,
                     tmp = gl_pos;
                     if ((loc = gl_tab_hook(h, &tmp)) < 0)
                         goto err;
-                    gl_fixup(h, gl_prompt, -2, tmp);
+                    gl_fixup(h, gl_prompt(h), -2, tmp);
 #if 0
                  if (loc != -1 || tmp != gl_pos)
-                       gl_fixup(h, gl_prompt, loc, tmp);
+                       gl_fixup(h, gl_prompt(h), loc, tmp);
 #endif
                 }
                 break;
@@ -722,7 +730,7 @@ gl_getline(cligen_handle h,
                 hist_copy_next(h);
                 if (gl_in_hook)
                     gl_in_hook(h, cligen_buf(h));
-                gl_fixup(h, gl_prompt, 0, cligen_buf_size(h));
+                gl_fixup(h, gl_prompt(h), 0, cligen_buf_size(h));
                 break;
             case '\017': gl_overwrite = !gl_overwrite;          /* ^O */
                 break;
@@ -730,7 +738,7 @@ gl_getline(cligen_handle h,
                 hist_copy_prev(h);
                 if (gl_in_hook)
                     gl_in_hook(h, cligen_buf(h));
-                gl_fixup(h, gl_prompt, 0, cligen_buf_size(h));
+                gl_fixup(h, gl_prompt(h), 0, cligen_buf_size(h));
                 break;
             case '\022': search_back(h, 1);                     /* ^R */
                 break;
@@ -748,9 +756,9 @@ gl_getline(cligen_handle h,
                 if(gl_susp_hook) {
                     tmp = gl_pos;
                     loc = gl_susp_hook(cligen_userhandle(h)?cligen_userhandle(h):h,
-                                       cligen_buf(h), gl_strlen(gl_prompt), &tmp);
+                                       cligen_buf(h), gl_strlen(gl_prompt(h)), &tmp);
                     if (loc != -1 || tmp != gl_pos)
-                        gl_fixup(h, gl_prompt, loc, tmp);
+                        gl_fixup(h, gl_prompt(h), loc, tmp);
                     if (strchr (cligen_buf(h), '\n'))
                         goto done;
                 }
@@ -764,21 +772,21 @@ gl_getline(cligen_handle h,
                         hist_copy_prev(h);
                         if (gl_in_hook)
                             gl_in_hook(h, cligen_buf(h));
-                        gl_fixup(h, gl_prompt, 0, cligen_buf_size(h));
+                        gl_fixup(h, gl_prompt(h), 0, cligen_buf_size(h));
                         break;
                     case 'B':                           /* down */
                         hist_copy_next(h);
                         if (gl_in_hook)
                             gl_in_hook(h, cligen_buf(h));
-                        gl_fixup(h, gl_prompt, 0, cligen_buf_size(h));
+                        gl_fixup(h, gl_prompt(h), 0, cligen_buf_size(h));
                         break;
-                    case 'C': gl_fixup(h, gl_prompt, -1, gl_pos+1); /* right */
+                    case 'C': gl_fixup(h, gl_prompt(h), -1, gl_pos+1); /* right */
                         break;
-                    case 'D': gl_fixup(h, gl_prompt, -1, gl_pos-1); /* left */
+                    case 'D': gl_fixup(h, gl_prompt(h), -1, gl_pos-1); /* left */
                         break;
-                    case 'H': gl_fixup(h, gl_prompt, -1, 0); /* home */
+                    case 'H': gl_fixup(h, gl_prompt(h), -1, 0); /* home */
                         break;
-                    case 'F': gl_fixup(h, gl_prompt, -1, cligen_buf_size(h)); /* end */
+                    case 'F': gl_fixup(h, gl_prompt(h), -1, cligen_buf_size(h)); /* end */
                         break;
                     case '3': /* del */
                         if (gl_getc(h) != '~')
@@ -898,11 +906,11 @@ gl_addchar(cligen_handle h,
         for (i=gl_cnt; i >= gl_pos; i--)
             cligen_buf(h)[i+1] = cligen_buf(h)[i];
         cligen_buf(h)[gl_pos] = c;
-        gl_fixup(h, cligen_prompt(h), gl_pos, gl_pos+1);
+        gl_fixup(h, gl_prompt(h), gl_pos, gl_pos+1);
     } else {
         cligen_buf(h)[gl_pos] = c;
         gl_extent = 1;
-        gl_fixup(h, cligen_prompt(h), gl_pos, gl_pos+1);
+        gl_fixup(h, gl_prompt(h), gl_pos, gl_pos+1);
     }
     return 0;
 }
@@ -925,7 +933,7 @@ gl_yank(cligen_handle h)
                 cligen_buf(h)[i+len] = cligen_buf(h)[i];
             for (i=0; i < len; i++)
                 cligen_buf(h)[gl_pos+i] = cligen_killbuf(h)[i];
-            gl_fixup(h, cligen_prompt(h), gl_pos, gl_pos+len);
+            gl_fixup(h, gl_prompt(h), gl_pos, gl_pos+len);
         } else {
             if (gl_pos + len > gl_cnt) {
                 if (cligen_buf_increase(h, gl_pos + len + 1) < 0)
@@ -935,7 +943,7 @@ gl_yank(cligen_handle h)
             for (i=0; i < len; i++)
                 cligen_buf(h)[gl_pos+i] = cligen_killbuf(h)[i];
             gl_extent = len;
-            gl_fixup(h, cligen_prompt(h), gl_pos, gl_pos+len);
+            gl_fixup(h, gl_prompt(h), gl_pos, gl_pos+len);
         }
     } else
         gl_putc('\007');
@@ -956,7 +964,7 @@ gl_transpose(cligen_handle h)
         cligen_buf(h)[gl_pos-1] = cligen_buf(h)[gl_pos];
         cligen_buf(h)[gl_pos] = c;
         gl_extent = 2;
-        gl_fixup(h, cligen_prompt(h), gl_pos-1, gl_pos);
+        gl_fixup(h, gl_prompt(h), gl_pos-1, gl_pos);
     } else
         gl_putc('\007');
 }
@@ -983,7 +991,7 @@ gl_newline(cligen_handle h)
     }
     if (loc > len)
         loc = len;
-    gl_fixup(h, cligen_prompt(h), -1, loc);     /* must do this before appending \n */
+    gl_fixup(h, gl_prompt(h), -1, loc);     /* must do this before appending \n */
     cligen_buf(h)[len] = '\n';
     cligen_buf(h)[len+1] = '\0';
     gl_putc('\n');
@@ -1005,7 +1013,7 @@ gl_del(cligen_handle h,
     if ((loc == -1 && gl_pos > 0) || (loc == 0 && gl_pos < gl_cnt)) {
         for (i=gl_pos+loc; i < gl_cnt; i++)
             cligen_buf(h)[i] = cligen_buf(h)[i+1];
-        gl_fixup(h, cligen_prompt(h), gl_pos+loc, gl_pos+loc);
+        gl_fixup(h, gl_prompt(h), gl_pos+loc, gl_pos+loc);
     } else
         gl_putc('\007');
 }
@@ -1024,7 +1032,7 @@ gl_kill(cligen_handle h,
             return -1;
         strncpy(cligen_killbuf(h), cligen_buf(h) + pos, cligen_buf_size(h));
         cligen_buf(h)[pos] = '\0';
-        gl_fixup(h, cligen_prompt(h), pos, pos);
+        gl_fixup(h, gl_prompt(h), pos, pos);
     } else
         gl_putc('\007');
     return 0;
@@ -1048,7 +1056,7 @@ gl_kill_begin(cligen_handle h,
         strncpy(cligen_killbuf(h), cligen_buf(h), pos);
         cligen_killbuf(h)[pos] = '\0';
         memmove(cligen_buf(h), cligen_buf(h) + pos, len-pos+1); /* memmove may overlap */
-        gl_fixup(h, cligen_prompt(h), 0, 0);
+        gl_fixup(h, gl_prompt(h), 0, 0);
     } else
         gl_putc('\007');
     return 0;
@@ -1082,7 +1090,7 @@ gl_kill_word(cligen_handle h,
         strncpy(cligen_killbuf(h), cligen_buf(h)+pos, wpos-pos);
         cligen_killbuf(h)[wpos-pos] = '\0';
         memmove(cligen_buf(h)+pos, cligen_buf(h) + wpos, gl_cnt-wpos+1);
-        gl_fixup(h, cligen_prompt(h), pos, pos);
+        gl_fixup(h, gl_prompt(h), pos, pos);
     }
     return 0;
 }
@@ -1114,7 +1122,7 @@ gl_word(cligen_handle h,
         if (pos < gl_cnt && isspace((int)cligen_buf(h)[pos]))   /* move onto word */
             pos++;
     }
-    gl_fixup(h, cligen_prompt(h), -1, pos);
+    gl_fixup(h, gl_prompt(h), -1, pos);
 }
 
 static int
@@ -1181,7 +1189,7 @@ void gl_clear_screen(cligen_handle h)
     gl_putc('[');
     gl_putc('H');
 
-    gl_fixup(h, cligen_prompt(h), -2, gl_pos);
+    gl_fixup(h, gl_prompt(h), -2, gl_pos);
 }
 
 /*! Emit a newline, reset and redraw prompt and current input line
@@ -1193,7 +1201,7 @@ gl_redraw(cligen_handle h)
 {
     if (gl_init_done > 0) {
         gl_putc('\n');
-        gl_fixup(h, cligen_prompt(h), -2, gl_pos);
+        gl_fixup(h, gl_prompt(h), -2, gl_pos);
     }
 }
 
@@ -1546,7 +1554,7 @@ search_term(cligen_handle h)
         hist_pos_set(h, hist_last_get(h));
     if (gl_in_hook)
         gl_in_hook(h, cligen_buf(h));
-    gl_fixup(h, cligen_prompt(h), 0, gl_pos);
+    gl_fixup(h, gl_prompt(h), 0, gl_pos);
 }
 
 /*! Search backwards
-- 
2.43.0


From f3f036d41433cf1b1ef968eac7ae07410c623fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 39/55] fix: an alias calling itself overflowed the stack

---
 cligen_syntax.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index 0dc6498..ca475a9 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -52,6 +52,9 @@
 #include "cligen_read.h"
 #include "cligen_syntax.h"
 
+/* Limit of aliases calling aliases, typically an alias calling itself */
+#define ALIAS_DEPTH_MAX 32
+
 /*! Parse a string containing a CLIgen spec into a parse-tree
  *
  * Syntax parsing. A string is input and a syntax-tree is returned (or error).
@@ -393,7 +396,14 @@ cligen_alias_call(cligen_handle h,
     cvec         *cvv2 = NULL;
     cligen_result result;
     char         *reason = NULL;
+    static int    depth = 0; /* Nested aliases */
 
+    depth++;
+    if (depth > ALIAS_DEPTH_MAX){
+        fprintf(stderr, "%s: Aliases nested too deep\n", __FUNCTION__);
+        errno = ELOOP;
+        goto done;
+    }
     if (argv == NULL || cvec_len(argv) != 1){
         errno = EINVAL;
         goto done;
@@ -409,6 +419,7 @@ cligen_alias_call(cligen_handle h,
             goto done;
     retval = 0;
  done:
+    depth--;
     if (matchobj)
         co_free(matchobj, 0);
     if (cvv2)
-- 
2.43.0


From e6c70c62ecd0cf7b0fcb51008e7cc84a6ff92bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:54 +0000
Subject: [PATCH 40/55] fix: the line returned by cliread_eval was freed if a
 callback loaded history

---
 cligen_read.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index 6bd283b..6c96e38 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -37,6 +37,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <stddef.h>
 #include <stdint.h>
 #include <string.h>
 #include <errno.h>
@@ -785,6 +786,7 @@ cliread_eval(cligen_handle  h,
     cg_obj      *matchobj = NULL;    /* matching syntax node */
     cvec        *cvv = NULL;
     parse_tree  *pt = NULL;     /* Orig */
+    ptrdiff_t    off;
 
     if (h == NULL){
         fprintf(stderr, "Illegal cligen handle\n");
@@ -802,8 +804,11 @@ cliread_eval(cligen_handle  h,
     }
     if (cliread_parse(h, *line, pt, &matchobj, &cvv, result, reason) < 0)
         goto done;
-    if (*result == CG_MATCH)
+    if (*result == CG_MATCH){
+        off = *line - cligen_buf(h);
         *cb_retval = cligen_eval(h, matchobj, cvv);
+        *line = cligen_buf(h) + off; /* The buffer may be moved by callback */
+    }
  ok:
     retval = 0;
  done:
-- 
2.43.0


From 57cd8c21ee222a32d41fdebbcbdd4e5f154c7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:11 +0000
Subject: [PATCH 41/55] fix: completion in steps never ended in a tree that
 refers to itself

---
 cligen_read.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index 6c96e38..3c338cf 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -151,6 +151,9 @@ cli_qmark_hook(cligen_handle h,
     return cli_show_help_commands(h, string);
 }
 
+/* Limit of steps in CLIGEN_TABMODE_STEPS, which has no end if a tree refers to itself */
+#define TAB_STEPS_MAX 32
+
 /*! Callback from getline: TAB has been typed on keyboard
  *
  * First try to complete the string if the possibilities
@@ -170,6 +173,7 @@ cli_tab_hook(cligen_handle h,
 {
     int           retval = -1;
     int           prev_cursor;
+    int           steps = 0;
     parse_tree   *pt = NULL;     /* Orig */
     parse_tree   *ptn = NULL;    /* Expanded */
     cvec         *cvv = NULL;
@@ -200,7 +204,7 @@ cli_tab_hook(cligen_handle h,
         cvec_free(cvv);
         if ((cvv = cvec_start(cligen_buf(h))) == NULL)
             goto done;
-    } while (cligen_tabmode(h)&CLIGEN_TABMODE_STEPS && prev_cursor != *cursorp);
+    } while (cligen_tabmode(h)&CLIGEN_TABMODE_STEPS && prev_cursor != *cursorp && ++steps < TAB_STEPS_MAX);
     fputs("\n", stdout);
     if (cligen_tabmode(h) & CLIGEN_TABMODE_COLUMNS){
         if (show_help_line(h, stdout, cligen_buf(h), ptn, cvv) <0)
-- 
2.43.0


From 3b2647cfe7ce69106d18acb1f2be7605bdcdd4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 42/55] fix: filters of nested tree references were leaked

---
 cligen_expand.c |  5 +++--
 cligen_object.c | 18 +++++++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 78a5954..79d1acb 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -116,8 +116,9 @@ co_expand_sub(cg_obj  *co0,
         }
     if (co0->co_cvec)
         con->co_cvec = cvec_dup(co0->co_cvec);
-    if (co0->co_filter)
-        co_filter_set(con, co0->co_filter);
+    con->co_filter = NULL;
+    if (co0->co_filter && co_filter_set(con, co0->co_filter) == NULL)
+        goto done;
     if (co_callback_copy(co0->co_callbacks, &con->co_callbacks) < 0)
         goto done;
     if (co0->co_helpstring)
diff --git a/cligen_object.c b/cligen_object.c
index 18f393c..3479da8 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -353,7 +353,13 @@ cvec *
 co_filter_set(cg_obj *co,
               cvec   *cvv)
 {
-    co->co_filter = cvec_dup(cvv);
+    cvec *cvn;
+
+    if ((cvn = cvec_dup(cvv)) == NULL && cvv != NULL)
+        return NULL;
+    if (co->co_filter)
+        cvec_free(co->co_filter);
+    co->co_filter = cvn;
     return co->co_filter;
 }
 
@@ -680,8 +686,9 @@ co_copy(cg_obj  *co,
         goto done;
     if (co->co_cvec)
         con->co_cvec = cvec_dup(co->co_cvec);
-    if (co->co_filter)
-        co_filter_set(con, co->co_filter);
+    con->co_filter = NULL;
+    if (co->co_filter && co_filter_set(con, co->co_filter) == NULL)
+        goto done;
     if ((pt = co_pt_get(co)) != NULL){
         if ((ptn = pt_dup(pt, con, flags)) == NULL) /* sets a new pt under con */
             goto done;
@@ -782,8 +789,9 @@ co_copy1(cg_obj  *co,
         goto done;
     if (co->co_cvec)
         con->co_cvec = cvec_dup(co->co_cvec);
-    if (co->co_filter)
-        co_filter_set(con, co->co_filter);
+    con->co_filter = NULL;
+    if (co->co_filter && co_filter_set(con, co->co_filter) == NULL)
+        goto done;
     if ((pt = co_pt_get(co)) != NULL){
         /* Here this function differs from co_copy */
         if (recursive){
-- 
2.43.0


From 4134def461cc5f91b14a3383aaced490b6d0edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 43/55] fix: a failing allocation left variable vectors with
 missing, shared or freed values

---
 cligen_cv.c   | 201 ++++++++++++++++++++++++++++++--------------------
 cligen_cvec.c |  43 +++++++----
 cligen_util.c |   7 +-
 3 files changed, 153 insertions(+), 98 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 8336dd1..b431b91 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1648,6 +1648,9 @@ parse_url(char   *url,
     }
     else
         cv->var_urlpath = strdup("");
+    if (cv->var_urlproto == NULL || cv->var_urladdr == NULL || cv->var_urlpath == NULL ||
+        cv->var_urluser == NULL || cv->var_urlpasswd == NULL)
+        goto done;
     retval = 1; /* OK */
   done:
     if (str0)
@@ -1856,7 +1859,8 @@ str2time(const char     *in,
     int        min;
     int        sec;
     int        usec = 0;
-    struct tm *tm = NULL;
+    struct tm  tm0 = {0,};
+    struct tm *tm = &tm0;
     time_t     t;
     char       frac[7];
 
@@ -1948,10 +1952,6 @@ str2time(const char     *in,
     if (in[i] != '\0')
         goto done;
   mkdate:
-    if ((tm = calloc(1, sizeof(struct tm))) == NULL){
-        fprintf(stderr, "calloc: %s\n", strerror(errno));
-        goto done;
-    }
     tm->tm_year = year - 1900;
     tm->tm_mon = month - 1;
     tm->tm_mday = day;
@@ -1984,8 +1984,6 @@ str2time(const char     *in,
     tv->tv_usec = usec;
     retval = 0;
 done:
-    if (tm)
-        free(tm);
     return retval;
 }
 
@@ -2323,110 +2321,111 @@ cv2cbuf(cg_var *cv,
     int  sslen = sizeof(ss);
     char uuidstr[37];
     char timestr[28];
+    int  ret = 0;
 
     switch (cv->var_type){
     case CGV_INT8:
-        cprintf(cb, "%" PRId8, cv->var_int8);
+        ret = cprintf(cb, "%" PRId8, cv->var_int8);
         break;
     case CGV_INT16:
-        cprintf(cb, "%" PRId16, cv->var_int16);
+        ret = cprintf(cb, "%" PRId16, cv->var_int16);
         break;
     case CGV_INT32:
-        cprintf(cb, "%" PRId32, cv->var_int32);
+        ret = cprintf(cb, "%" PRId32, cv->var_int32);
         break;
     case CGV_INT64:
-        cprintf(cb, "%" PRId64, cv->var_int64);
+        ret = cprintf(cb, "%" PRId64, cv->var_int64);
         break;
     case CGV_UINT8:
-        cprintf(cb, "%" PRIu8, cv->var_uint8);
+        ret = cprintf(cb, "%" PRIu8, cv->var_uint8);
         break;
     case CGV_UINT16:
-        cprintf(cb, "%" PRIu16, cv->var_uint16);
+        ret = cprintf(cb, "%" PRIu16, cv->var_uint16);
         break;
     case CGV_UINT32:
-        cprintf(cb, "%" PRIu32, cv->var_uint32);
+        ret = cprintf(cb, "%" PRIu32, cv->var_uint32);
         break;
     case CGV_UINT64:
-        cprintf(cb, "%" PRIu64, cv->var_uint64);
+        ret = cprintf(cb, "%" PRIu64, cv->var_uint64);
         break;
     case CGV_DEC64:
         cv_dec64_print(cv, ss, &sslen);
-        cprintf(cb, "%s", ss);
+        ret = cprintf(cb, "%s", ss);
         break;
     case CGV_BOOL:
         if (cv->var_bool)
-            cprintf(cb, "true");
+            ret = cprintf(cb, "true");
         else
-            cprintf(cb, "false");
+            ret = cprintf(cb, "false");
         break;
     case CGV_REST:
-        cprintf(cb, "%s", cv->var_rest);
+        ret = cprintf(cb, "%s", cv->var_rest);
         break;
     case CGV_STRING:
-        cprintf(cb, "%s", cv->var_string);
+        ret = cprintf(cb, "%s", cv->var_string);
         break;
     case CGV_INTERFACE:
-        cprintf(cb, "%s", cv->var_interface);
+        ret = cprintf(cb, "%s", cv->var_interface);
         break;
     case CGV_IPV4ADDR:
-        cprintf(cb, "%s", inet_ntoa(cv->var_ipv4addr));
+        ret = cprintf(cb, "%s", inet_ntoa(cv->var_ipv4addr));
         break;
     case CGV_IPV4PFX:
-        cprintf(cb, "%s/%u",
-                inet_ntoa(cv->var_ipv4addr),
-                cv->var_ipv4masklen);
+        ret = cprintf(cb, "%s/%u",
+                      inet_ntoa(cv->var_ipv4addr),
+                      cv->var_ipv4masklen);
         break;
     case CGV_IPV6ADDR:
         if (inet_ntop(AF_INET6, &cv->var_ipv6addr, straddr, sizeof(straddr)) == NULL){
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
-        cprintf(cb, "%s", straddr);
+        ret = cprintf(cb, "%s", straddr);
         break;
     case CGV_IPV6PFX:
         if (inet_ntop(AF_INET6, &cv->var_ipv6addr, straddr, sizeof(straddr)) == NULL){
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
-        cprintf(cb, "%s/%u", straddr, cv->var_ipv6masklen);
+        ret = cprintf(cb, "%s/%u", straddr, cv->var_ipv6masklen);
         break;
     case CGV_MACADDR:
-        cprintf(cb, "%02x:%02x:%02x:%02x:%02x:%02x",
-                (uint8_t)cv->var_macaddr[0],
-                (uint8_t)cv->var_macaddr[1],
-                (uint8_t)cv->var_macaddr[2],
-                (uint8_t)cv->var_macaddr[3],
-                (uint8_t)cv->var_macaddr[4],
-                (uint8_t)cv->var_macaddr[5]);
+        ret = cprintf(cb, "%02x:%02x:%02x:%02x:%02x:%02x",
+                      (uint8_t)cv->var_macaddr[0],
+                      (uint8_t)cv->var_macaddr[1],
+                      (uint8_t)cv->var_macaddr[2],
+                      (uint8_t)cv->var_macaddr[3],
+                      (uint8_t)cv->var_macaddr[4],
+                      (uint8_t)cv->var_macaddr[5]);
         break;
     case CGV_URL: /* <proto>://[<user>[:<passwd>]@]<addr>[/<path>] */
-        cprintf(cb, "%s://%s%s%s%s%s/%s",
-                cv->var_urlproto,
-                cv->var_urluser,
-                strlen(cv->var_urlpasswd)?":":"",
-                cv->var_urlpasswd,
-                strlen(cv->var_urluser)||strlen(cv->var_urlpasswd)?"@":"",
-                cv->var_urladdr,
-                cv->var_urlpath
-            );
+        ret = cprintf(cb, "%s://%s%s%s%s%s/%s",
+                      cv->var_urlproto,
+                      cv->var_urluser,
+                      strlen(cv->var_urlpasswd)?":":"",
+                      cv->var_urlpasswd,
+                      strlen(cv->var_urluser)||strlen(cv->var_urlpasswd)?"@":"",
+                      cv->var_urladdr,
+                      cv->var_urlpath
+                  );
         break;
     case CGV_UUID:
         uuid2str(cv->var_uuid, uuidstr, sizeof(uuidstr));
-        cprintf(cb, "%s", uuidstr);
+        ret = cprintf(cb, "%s", uuidstr);
         break;
     case CGV_TIME:
         time2str(&cv->var_time, timestr, sizeof(timestr));
-        cprintf(cb, "%s", timestr);
+        ret = cprintf(cb, "%s", timestr);
         break;
     case CGV_VOID:
-        cprintf(cb, "%p", cv->var_void);
+        ret = cprintf(cb, "%p", cv->var_void);
         break;
     case CGV_EMPTY:
         break;
     default:
         break;
     }
-    return 0;
+    return ret < 0 ? -1 : 0;
 }
 
 /*! Print value of CLIgen variable using printf style formats.
@@ -2987,8 +2986,10 @@ cv_parse1(const char   *str0,
         break;
     case CGV_REST:
         string_remove_backslash(str);
-        if (cv->var_rest)
+        if (cv->var_rest){
             free(cv->var_rest);
+            cv->var_rest = NULL;
+        }
         if ((cv->var_rest = strdup(str)) == NULL)
             goto done;
         retval = 1;
@@ -3004,8 +3005,10 @@ cv_parse1(const char   *str0,
         retval = 1;
         break;
     case CGV_INTERFACE:
-        if (cv->var_interface)
+        if (cv->var_interface){
             free(cv->var_interface);
+            cv->var_interface = NULL;
+        }
         if ((cv->var_interface = strdup(str)) == NULL)
             goto done;
         retval = 1;
@@ -3077,7 +3080,7 @@ cv_parse1(const char   *str0,
         retval = 1;
         break;
     case CGV_TIME:
-        if (str2time(str, &cv->var_time) < 0){ /* XXX calloc gives true error */
+        if (str2time(str, &cv->var_time) < 0){
             retval = 0;
             if (reason &&
                 (*reason = cligen_reason("Invalid time: %s", str))==NULL)
@@ -3173,17 +3176,19 @@ outofrange(cg_var     *cv0,
 
     if ((cb = cbuf_new()) == NULL)
         goto done;
-    cprintf(cb, "Number ");
-    cv2cbuf(cv0, cb);
-    cprintf(cb, " out of range: ");
+    if (cprintf(cb, "Number ") < 0 ||
+        cv2cbuf(cv0, cb) < 0 ||
+        cprintf(cb, " out of range: ") < 0)
+        goto done;
     for (i=0; i<cs->cgs_rangelen; i++){
         cv1 = cvec_i(cs->cgs_rangecvv_low, i);
         cv2 = cvec_i(cs->cgs_rangecvv_upp, i);
-        if (i)
-            cprintf(cb, ", ");
-        cv2cbuf(cv1, cb);
-        cprintf(cb, " - ");
-        cv2cbuf(cv2, cb);
+        if (i && cprintf(cb, ", ") < 0)
+            goto done;
+        if (cv2cbuf(cv1, cb) < 0 ||
+            cprintf(cb, " - ") < 0 ||
+            cv2cbuf(cv2, cb) < 0)
+            goto done;
     }
     if (reason && (*reason = strdup(cbuf_get(cb))) == NULL)
         goto done;
@@ -3208,15 +3213,17 @@ outoflength(uint64_t    u64,
 
     if ((cb = cbuf_new()) == NULL)
         goto done;
-    cprintf(cb, "String length %" PRIu64 " out of range: ", u64);
+    if (cprintf(cb, "String length %" PRIu64 " out of range: ", u64) < 0)
+        goto done;
     for (i=0; i<cs->cgs_rangelen; i++){
         cv1 = cvec_i(cs->cgs_rangecvv_low, i);
         cv2 = cvec_i(cs->cgs_rangecvv_upp, i);
-        if (i)
-            cprintf(cb, ", ");
-        cv2cbuf(cv1, cb);
-        cprintf(cb, " - ");
-        cv2cbuf(cv2, cb);
+        if (i && cprintf(cb, ", ") < 0)
+            goto done;
+        if (cv2cbuf(cv1, cb) < 0 ||
+            cprintf(cb, " - ") < 0 ||
+            cv2cbuf(cv2, cb) < 0)
+            goto done;
     }
     if (reason && (*reason = strdup(cbuf_get(cb))) == NULL)
         goto done;
@@ -3270,8 +3277,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3287,8 +3296,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3304,8 +3315,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3321,8 +3334,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3338,8 +3353,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3355,8 +3372,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3372,8 +3391,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3389,16 +3410,21 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
+            if (outofrange(cv, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
     case CGV_DEC64:
         if (cv_dec64_n_get(cv) != cs->cgs_dec64_n){
-            if (reason)
-                *reason = cligen_reason("Decimal 64 fraction-bits mismatch %d(cv) != %d(spec)",
-                                        cv->var_dec64_n, cs->cgs_dec64_n);
+            if (reason &&
+                (*reason = cligen_reason("Decimal 64 fraction-bits mismatch %d(cv) != %d(spec)",
+                                         cv->var_dec64_n, cs->cgs_dec64_n)) == NULL){
+                retval = -1;
+                goto done;
+            }
             retval = 0;
         }
         if (!cs->cgs_rangelen)
@@ -3413,8 +3439,10 @@ cv_validate(cligen_handle h,
         }
         if (!ok){
             if (reason){
-                if (outofrange(cv, cs, reason) < 0)
+                if (outofrange(cv, cs, reason) < 0){
+                    retval = -1;
                     goto done;
+                }
             }
             retval = 0; /* No match */
         }
@@ -3430,14 +3458,14 @@ cv_validate(cligen_handle h,
                 if ((retval = match_regexp(h, str, regexp, cv_flag(cv1, V_INVERT))) < 0)
                     break;
                 if (retval == 0){
-                    if (reason)
-                        *reason = cligen_reason("\"%s\" is invalid input for cli command: %s",
-                                                str, cmd);
-                    retval = 0;
+                    if (reason &&
+                        (*reason = cligen_reason("\"%s\" is invalid input for cli command: %s",
+                                                 str, cmd)) == NULL)
+                        retval = -1;
                     break; /* from the while */
                 }
             }
-            if (retval == 0)
+            if (retval <= 0)
                 break; /* from the switch */
         }
 
@@ -3452,8 +3480,10 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outoflength(u64, cs, reason) < 0)
+            if (outoflength(u64, cs, reason) < 0){
+                retval = -1;
                 goto done;
+            }
             retval = 0; /* No match */
         }
         break;
@@ -3586,6 +3616,11 @@ cv_cp(cg_var *new,
     int retval = -1;
 
     memcpy(new, old, sizeof(*old));
+    /* Strings are owned by old until copied */
+    new->var_name = NULL;
+    new->var_show = NULL;
+    if (cv_isstring(new->var_type) || new->var_type == CGV_URL)
+        memset(&new->u, 0, sizeof(new->u));
     if (old->var_name)
         if ((new->var_name = strdup(old->var_name)) == NULL)
             goto done;
@@ -3648,6 +3683,8 @@ cv_cp(cg_var *new,
     }
     retval = 0;
   done:
+    if (retval < 0)
+        cv_reset(new);
     return retval;
 }
 
diff --git a/cligen_cvec.c b/cligen_cvec.c
index 9ade831..ba00426 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -154,9 +154,9 @@ int
 cvec_init(cvec *cvv,
           int   len)
 {
-    cvv->vr_len = len;
-    if (len && (cvv->vr_vec = calloc(cvv->vr_len, sizeof(cg_var))) == NULL)
+    if (len && (cvv->vr_vec = calloc(len, sizeof(cg_var))) == NULL)
         return -1;
+    cvv->vr_len = len;
     return 0;
 }
 
@@ -230,8 +230,9 @@ cvec_add(cvec        *cvv,
     }
     len = cvv->vr_len + 1;
 
-    if ((cvv->vr_vec = realloc(cvv->vr_vec, len*sizeof(cg_var))) == NULL)
+    if ((cv = realloc(cvv->vr_vec, len*sizeof(cg_var))) == NULL)
         return NULL;
+    cvv->vr_vec = cv;
     cvv->vr_len = len;
     cv = cvec_i(cvv, len-1);
     memset(cv, 0, sizeof(*cv));
@@ -296,7 +297,12 @@ cvec_del(cvec   *cvv,
                 (cvv->vr_len-i-1) * sizeof(cvv->vr_vec[0]));
 
     cvv->vr_len--;
-    cvv->vr_vec = realloc(cvv->vr_vec, cvv->vr_len*sizeof(cvv->vr_vec[0])); /* Shrink should not fail? */
+    if (cvv->vr_len == 0){
+        free(cvv->vr_vec);
+        cvv->vr_vec = NULL;
+    }
+    else if ((cv = realloc(cvv->vr_vec, cvv->vr_len*sizeof(cvv->vr_vec[0]))) != NULL)
+        cvv->vr_vec = cv; /* If shrink fails, the old vector is still there */
 
     return cvec_len(cvv);
 }
@@ -453,13 +459,16 @@ cvec_dup(cvec *old)
         return NULL;
     if (old->vr_name &&
         (new->vr_name = strdup4(old->vr_name)) == NULL){
-        free(new);
+        cvec_free(new);
         return NULL;
     }
     i = 0;
     while ((cv0 = cvec_each(old, cv0)) != NULL) {
         cv1 = cvec_i(new, i++);
-        cv_cp(cv1, cv0);
+        if (cv_cp(cv1, cv0) < 0){
+            cvec_free(new);
+            return NULL;
+        }
     }
     return new;
 }
@@ -481,8 +490,11 @@ cvec_start(char *cmd)
         return NULL;
     cv = cvec_i(cvec, 0);
     cv->var_type = CGV_REST;
-    cv_name_set(cv, "cmd"); /* the whole command string */
-    cv_string_set(cv, cmd); /* the whole command string */
+    if (cv_name_set(cv, "cmd") == NULL || /* the whole command string */
+        cv_string_set(cv, cmd) == NULL){  /* the whole command string */
+        cvec_free(cvec);
+        return NULL;
+    }
     return cvec;
 }
 
@@ -531,7 +543,10 @@ cvec2cbuf(cbuf *cb,
     while ((cv = cvec_each(cvv, cv)) != NULL) {
         if ((s = cv2str_dup(cv)) == NULL)
             return -1;
-        cprintf(cb, "%d : %s = %s\n", i++, cv_name_get(cv), s);
+        if (cprintf(cb, "%d : %s = %s\n", i++, cv_name_get(cv), s) < 0){
+            free(s);
+            return -1;
+        }
         free(s);
     }
     return 0;
@@ -939,14 +954,16 @@ cvec_expand_first(cvec *cvv)
     if ((cb = cbuf_new()) == NULL)
         goto done;
     for (i=1; i<cvec_len(cvv); i++){
-        if (i>1)
-            cprintf(cb, " ");
+        if (i>1 && cprintf(cb, " ") < 0)
+            goto done;
         if ((cv = cvec_i(cvv, i)) == NULL)
             goto done;
-        cv2cbuf(cv, cb);
+        if (cv2cbuf(cv, cb) < 0)
+            goto done;
     }
     cv = cvec_i(cvv,0);
-    cv_string_set(cv, cbuf_get(cb));
+    if (cv_string_set(cv, cbuf_get(cb)) == NULL)
+        goto done;
     retval = 0;
  done:
     if (cb)
diff --git a/cligen_util.c b/cligen_util.c
index 9eb9fb3..d9355aa 100644
--- a/cligen_util.c
+++ b/cligen_util.c
@@ -80,9 +80,10 @@ cvec_add_string(cvec       *cvv,
 
     if ((cv = cvec_add(cvv, CGV_STRING)) == NULL)
         goto done;
-    if (name)
-        cv_name_set(cv, name);
-    cv_string_set(cv, val);
+    if (name && cv_name_set(cv, name) == NULL)
+        goto done;
+    if (val && cv_string_set(cv, val) == NULL)
+        goto done;
     retval = 0;
  done:
     return retval;
-- 
2.43.0


From ec4881bcb579b105fa3b20ed4eb73a2253a22b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 44/55] fix: a regular expression that ran out of memory was
 taken as not matching

---
 cligen_regex.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cligen_regex.c b/cligen_regex.c
index 3f6b68c..e2a7ebc 100644
--- a/cligen_regex.c
+++ b/cligen_regex.c
@@ -88,6 +88,7 @@ cligen_regex_posix_compile(char  *regexp,
     regex_t *re = NULL;
     int      len0;
     int      err;
+    int      ret;
 
     len0 = strlen(regexp);
     if ((cb = cbuf_new()) == NULL)
@@ -95,27 +96,32 @@ cligen_regex_posix_compile(char  *regexp,
     /* Check if prepended by ^ */
     if (len0 > 0 && regexp[0] == '^'){
         if (regexp[len0-1] == '$')
-            cprintf(cb, "%s", regexp);
+            ret = cprintf(cb, "%s", regexp);
         else if (len0 > 1 && regexp[1] == '(')
-            cprintf(cb, "%s)$", regexp);
+            ret = cprintf(cb, "%s)$", regexp);
         else
-            cprintf(cb, "%s$", regexp);
+            ret = cprintf(cb, "%s$", regexp);
     }
     /* Check if terminated by $ only */
     else if (len0 > 0 && regexp[len0-1] == '$'){
         if (len0 > 1 && regexp[len0-2] == ')')
-            cprintf(cb, "^(%s", regexp);
+            ret = cprintf(cb, "^(%s", regexp);
         else
-            cprintf(cb, "^%s", regexp);
+            ret = cprintf(cb, "^%s", regexp);
     }
     else /* Neither ^or $ */
-        cprintf(cb, "^(%s)$", regexp);
+        ret = cprintf(cb, "^(%s)$", regexp);
 
+    if (ret < 0)
+        goto done;
     if ((re = malloc(sizeof(regex_t))) == NULL)
         goto done;
     memset(re, 0, sizeof(regex_t));
     if ((err = regcomp(re, cbuf_get(cb), REG_NOSUB|REG_EXTENDED)) != 0) {
         char errbuf[1024] = {0,};
+
+        if (err == REG_ESPACE)
+            goto done;
         if (regerror(err, re, errbuf, 1000) < 0){
             perror("regerror");
             goto done;
@@ -157,7 +163,7 @@ cligen_regex_posix_exec(void *recomp,
     status = regexec(re, string, (size_t) 0, NULL, 0);
     if (status == 0)
         retval = 1;
-    else {
+    else if (status != REG_ESPACE) {
         regerror(status, re, errbuf, sizeof(errbuf)); /* XXX error is ignored */
         retval = 0;
     }
-- 
2.43.0


From a86ece6748374bbf3b825f45a4c8f253ae8be97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 45/55] fix: a failing allocation left copies of grammar
 objects sharing memory with the grammar

---
 cligen_callback.c  | 49 +++++++++++++------------
 cligen_expand.c    | 36 +++++++++++--------
 cligen_object.c    | 90 ++++++++++++++++++++++++++++++----------------
 cligen_object.h    |  1 +
 cligen_parsetree.c | 35 +++++++++++-------
 cligen_result.c    | 14 +++++---
 6 files changed, 139 insertions(+), 86 deletions(-)

diff --git a/cligen_callback.c b/cligen_callback.c
index 2f1a814..865c2b8 100644
--- a/cligen_callback.c
+++ b/cligen_callback.c
@@ -64,6 +64,21 @@ co_callback_next(cg_callback *cc)
     return cc->cc_next;
 }
 
+/*! Free a single callback structure
+ *
+ * @param[in]  cc   Callback object
+ */
+static int
+co_callback_one_free(cg_callback *cc)
+{
+    if (cc->cc_cvec)
+        cvec_free(cc->cc_cvec);
+    if (cc->cc_fn_str)
+        free(cc->cc_fn_str);
+    free(cc);
+    return 0;
+}
+
 /*! Copy a linked list of cg_obj callback objects
  *
  * Copy a linked list of cg_obj callback objects, including function pointer,
@@ -102,25 +117,10 @@ co_callback_copy(cg_callback  *cc0,
     retval = 0;
  done:
     if (cc1)
-        free(cc1);
+        co_callback_one_free(cc1);
     return retval;
 }
 
-/*! Free a single callback structure
- *
- * @param[in]  cc   Callback object
- */
-static int
-co_callback_one_free(cg_callback *cc)
-{
-    if (cc->cc_cvec)
-        cvec_free(cc->cc_cvec);
-    if (cc->cc_fn_str)
-        free(cc->cc_fn_str);
-    free(cc);
-    return 0;
-}
-
 /*! Free a linked list of callbacks
  *
  * @param[in]  ccp   Pointer to head of callback linked list
@@ -147,19 +147,22 @@ co_callback2cbuf(cbuf        *cb,
     cg_var *cv;
 
     if (cc->cc_fn_str){
-        cprintf(cb, ", %s(", cc->cc_fn_str);
+        if (cprintf(cb, ", %s(", cc->cc_fn_str) < 0)
+            return -1;
         if (cc->cc_cvec){
             cv = NULL;
             i = 0;
             while ((cv = cvec_each(cc->cc_cvec, cv)) != NULL) {
-                if (i++)
-                    cprintf(cb, ",");
-                cprintf(cb, "\"");
-                cv2cbuf(cv, cb);
-                cprintf(cb, "\"");
+                if (i++ && cprintf(cb, ",") < 0)
+                    return -1;
+                if (cprintf(cb, "\"") < 0 ||
+                    cv2cbuf(cv, cb) < 0 ||
+                    cprintf(cb, "\"") < 0)
+                    return -1;
             }
         }
-        cprintf(cb, ")");
+        if (cprintf(cb, ")") < 0)
+            return -1;
     }
     return 0;
 }
diff --git a/cligen_expand.c b/cligen_expand.c
index 79d1acb..72bf07f 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -91,15 +91,10 @@ co_expand_sub(cg_obj  *co0,
 {
     int     retval = -1;
     cg_obj *con;
-    size_t  size;
 
-    if ((con = co_new_only(co0->co_type)) == NULL)
+    if ((con = co_new_copy(co0)) == NULL)
         goto done;
-    size = co_size(con->co_type);
-    memcpy(con, co0, size);
     /* Point to same underlying pt */
-    con->co_ptvec = NULL;
-    con->co_pt_len = 0;
     if (co_pt_set(con, co_pt_get(co0)) < 0)
         goto done;
     /* Replace all pointers */
@@ -114,9 +109,8 @@ co_expand_sub(cg_obj  *co0,
             fprintf(stderr, "%s: strdup: %s\n", __FUNCTION__, strerror(errno));
             goto done;
         }
-    if (co0->co_cvec)
-        con->co_cvec = cvec_dup(co0->co_cvec);
-    con->co_filter = NULL;
+    if (co0->co_cvec && (con->co_cvec = cvec_dup(co0->co_cvec)) == NULL)
+        goto done;
     if (co0->co_filter && co_filter_set(con, co0->co_filter) == NULL)
         goto done;
     if (co_callback_copy(co0->co_callbacks, &con->co_callbacks) < 0)
@@ -311,7 +305,8 @@ co_find_label_filters(cligen_handle h,
                 if (cvec_find(cvv, filter) == NULL){
                     if ((cv1 = cvec_add(cvv, CGV_BOOL)) == NULL)
                         goto done;
-                    cv_name_set(cv1, filter);
+                    if (cv_name_set(cv1, filter) == NULL)
+                        goto done;
                     cv_bool_set(cv1, 0); /* remove */
                 }
             }
@@ -581,8 +576,10 @@ pt_expand_fn(cligen_handle h,
         if (transient && con->co_ref){
             con->co_ref = co->co_ref;
         }
-        if (pt_vec_append(ptn, con) < 0)
+        if (pt_vec_append(ptn, con) < 0){
+            co_free(con, 0);
             goto done;
+        }
         if (cvv_filter && cvec_len(cvv_filter))
             if (co_filter_set(con, cvv_filter) == NULL)
                 goto done;
@@ -630,15 +627,19 @@ pt_expand_choice(cg_obj       *co,
     char   *ccmd;
     char   *cp = NULL;
     char   *c;
+    char   *cmd;
     cg_obj *con = NULL;
 
     /* parse co_command and get alternatives <alt:hej,hopp> */
     if (co->co_choice){
-        cp = ccmd = strdup(co->co_choice);
+        if ((cp = ccmd = strdup(co->co_choice)) == NULL)
+            goto done;
         while ((c = strsep(&ccmd, ",|")) != NULL){
             if (co_expand_sub(co, NULL, &con) < 0)
                 goto done;
-            if (transform_var_to_cmd(con, strdup(c), NULL) < 0)
+            if ((cmd = strdup(c)) == NULL)
+                goto done;
+            if (transform_var_to_cmd(con, cmd, NULL) < 0)
                 goto done;
             if (transient && con->co_ref){
                 con->co_ref = co->co_ref;
@@ -709,6 +710,7 @@ pt_expand1_co(cligen_handle h,
     int     retval = -1;
     cg_var *cv;
     cg_obj *con = NULL;
+    cg_obj *con1;
     char   *label;
 
     if (hide && co_flags_get(co, CO_FLAGS_HIDE))
@@ -762,8 +764,11 @@ pt_expand1_co(cligen_handle h,
         if (co_expand_sub(co, NULL, &con) < 0)
             goto done;
         /* con may be deleted in the call and need to be replaced */
-        if ((con = co_insert1(ptn, con, 0)) == NULL)
+        if ((con1 = co_insert1(ptn, con, 0)) == NULL){
+            co_free(con, 0);
             goto done;
+        }
+        con = con1;
         if (transient && con->co_ref){
             con->co_ref = co->co_ref;
         }
@@ -923,7 +928,8 @@ pt_expand(cligen_handle h,
     /* There is already a @|pipe menu on this level, no need for default */
     for (i=0; i<pt_len_get(pt); i++){ /* From pt (orig) build ptn (new) */
         if ((co = pt_vec_i_get(pt, i)) == NULL){
-            pt_realloc(ptn); /* empty child */
+            if (pt_realloc(ptn) < 0) /* empty child */
+                goto done;
         }
         else {
             if (co->co_type == CO_REFERENCE){
diff --git a/cligen_object.c b/cligen_object.c
index 3479da8..ea6f42f 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -209,10 +209,9 @@ co_pt_realloc(cg_obj *co)
 {
     int retval = -1;
     if (co->co_pt_len == 0){
-        co->co_pt_len++;
-        //      if ((co->co_ptvec = realloc(co->co_ptvec, (co->co_pt_len)*sizeof(parse_tree *))) == 0)
-        if ((co->co_ptvec = calloc(co->co_pt_len, sizeof(parse_tree *))) == 0)
+        if ((co->co_ptvec = calloc(1, sizeof(parse_tree *))) == 0)
             goto done;
+        co->co_pt_len = 1;
     }
     retval = 0;
  done:
@@ -587,17 +586,19 @@ co_new(char   *cmd,
 
     if ((co = co_new_only(CO_COMMAND)) == NULL)
         return NULL;
-    if (cmd)
-        co->co_command = strdup(cmd);
+    if (cmd && (co->co_command = strdup(cmd)) == NULL){
+        co_free(co, 0);
+        return NULL;
+    }
     co_up_set(co, parent);
     /* parse-tree created implicitly */
     if ((pt = pt_new()) == NULL){
-        free(co);
+        co_free(co, 0);
         return NULL;
     }
     if (co_pt_set(co, pt) < 0){
         free(pt);
-        free(co);
+        co_free(co, 0);
         return NULL;
     }
     return co;
@@ -628,17 +629,52 @@ cov_new(enum cv_type cvtype,
     co->co_dec64_n = CGV_DEC64_N_DEFAULT;
     /* parse-tree created implicitly */
     if ((pt = pt_new()) == NULL){
-        free(co);
+        co_free(co, 0);
         return NULL;
     }
     if (co_pt_set(co, pt) < 0){
         free(pt);
-        free(co);
+        co_free(co, 0);
         return NULL;
     }
     return co;
 }
 
+/*! Create a copy of a cligen object, except strings, vectors and children, which are left empty
+ *
+ * @param[in]  co     The object to copy from
+ * @retval     con    New object. Free with co_free()
+ * @retval     NULL   Error
+ */
+cg_obj *
+co_new_copy(cg_obj *co)
+{
+    cg_obj *con;
+
+    if ((con = co_new_only(co->co_type)) == NULL)
+        return NULL;
+    memcpy(con, co, co_size(con->co_type));
+    con->co_ptvec = NULL;
+    con->co_pt_len = 0;
+    con->co_command = NULL;
+    con->co_prefix = NULL;
+    con->co_callbacks = NULL;
+    con->co_cvec = NULL;
+    con->co_filter = NULL;
+    con->co_helpstring = NULL;
+    if (con->co_type == CO_VARIABLE){
+        con->co_show = NULL;
+        con->co_expand_fn_str = NULL;
+        con->co_expand_fn_vec = NULL;
+        con->co_translate_fn_str = NULL;
+        con->co_choice = NULL;
+        con->co_rangecvv_low = NULL;
+        con->co_rangecvv_upp = NULL;
+        con->co_regex = NULL;
+    }
+    return con;
+}
+
 /*! Recursively copy a cligen object.
  *
  * @param[in]  co     The object to copy from
@@ -660,14 +696,9 @@ co_copy(cg_obj  *co,
     cg_obj     *con = NULL;
     parse_tree *pt;
     parse_tree *ptn;
-    size_t      size;
 
-    if ((con = co_new_only(co->co_type)) == NULL)
+    if ((con = co_new_copy(co)) == NULL)
         goto done;
-    size = co_size(con->co_type);
-    memcpy(con, co, size);
-    con->co_ptvec = NULL;
-    con->co_pt_len = 0;
     con->co_ref = NULL;
     /* If called from pt_expand_treeref: the copy (of a tree instance) points to the original tree
      */
@@ -684,16 +715,17 @@ co_copy(cg_obj  *co,
             goto done;
     if (co_callback_copy(co->co_callbacks, &con->co_callbacks) < 0)
         goto done;
-    if (co->co_cvec)
-        con->co_cvec = cvec_dup(co->co_cvec);
-    con->co_filter = NULL;
+    if (co->co_cvec && (con->co_cvec = cvec_dup(co->co_cvec)) == NULL)
+        goto done;
     if (co->co_filter && co_filter_set(con, co->co_filter) == NULL)
         goto done;
     if ((pt = co_pt_get(co)) != NULL){
         if ((ptn = pt_dup(pt, con, flags)) == NULL) /* sets a new pt under con */
             goto done;
-        if (co_pt_set(con, ptn) < 0)
+        if (co_pt_set(con, ptn) < 0){
+            pt_free(ptn, 1);
             goto done;
+        }
     }
     if (co->co_helpstring)
         if ((con->co_helpstring = strdup(co->co_helpstring)) == NULL)
@@ -731,7 +763,7 @@ co_copy(cg_obj  *co,
     retval = 0;
  done:
     if (con)
-        co_free(con, 0);
+        co_free(con, 1);
     return retval;
 }
 
@@ -763,14 +795,9 @@ co_copy1(cg_obj  *co,
     cg_obj     *con = NULL;
     parse_tree *pt;
     parse_tree *ptn;
-    size_t      size;
 
-    if ((con = co_new_only(co->co_type)) == NULL)
+    if ((con = co_new_copy(co)) == NULL)
         goto done;
-    size = co_size(con->co_type);
-    memcpy(con, co, size);
-    con->co_ptvec = NULL;
-    con->co_pt_len = 0;
 
     /* If called from pt_expand_treeref: the copy (of a tree instance) points to the original tree
      */
@@ -787,9 +814,8 @@ co_copy1(cg_obj  *co,
             goto done;
     if (co_callback_copy(co->co_callbacks, &con->co_callbacks) < 0)
         goto done;
-    if (co->co_cvec)
-        con->co_cvec = cvec_dup(co->co_cvec);
-    con->co_filter = NULL;
+    if (co->co_cvec && (con->co_cvec = cvec_dup(co->co_cvec)) == NULL)
+        goto done;
     if (co->co_filter && co_filter_set(con, co->co_filter) == NULL)
         goto done;
     if ((pt = co_pt_get(co)) != NULL){
@@ -797,8 +823,10 @@ co_copy1(cg_obj  *co,
         if (recursive){
             if ((ptn = pt_dup(pt, con, 0x0)) == NULL) /* sets a new pt under con */
                 goto done;
-            if (co_pt_set(con, ptn) < 0)
+            if (co_pt_set(con, ptn) < 0){
+                pt_free(ptn, 1);
                 goto done;
+            }
         }
         else {
             if (co_pt_set(con, pt) < 0)
@@ -841,7 +869,7 @@ co_copy1(cg_obj  *co,
     retval = 0;
  done:
     if (con)
-        co_free(con, 0);
+        co_free(con, recursive);
     return retval;
 }
 
diff --git a/cligen_object.h b/cligen_object.h
index 3f0ef09..15e06cd 100644
--- a/cligen_object.h
+++ b/cligen_object.h
@@ -245,6 +245,7 @@ char       *co_prefix_get(cg_obj *co);
 int         co_prefix_set(cg_obj *co, char *prefix);
 cvec       *co_filter_set(cg_obj *co, cvec *cvv);
 size_t      co_size(enum cg_objtype type);
+cg_obj     *co_new_copy(cg_obj *co);
 cg_obj     *co_new_only(enum cg_objtype type);
 cg_obj     *co_new(char *cmd, cg_obj *prev);
 cg_obj     *cov_new(enum cv_type cvtype, cg_obj *prev);
diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index f614586..eb625b8 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -319,10 +319,13 @@ pt_new(void)
 int
 pt_realloc(parse_tree *pt)
 {
-    pt->pt_len++;
+    cg_obj **vec;
+
     /* Allocate larger cg_obj vector */
-    if ((pt->pt_vec = realloc(pt->pt_vec, (pt->pt_len)*sizeof(cg_obj *))) == 0)
+    if ((vec = realloc(pt->pt_vec, (pt->pt_len+1)*sizeof(cg_obj *))) == 0)
         return -1;
+    pt->pt_vec = vec;
+    pt->pt_len++;
     pt->pt_vec[pt->pt_len - 1] = NULL; /* init field */
     return 0;
 }
@@ -347,6 +350,7 @@ pt_copy(parse_tree *pt,
     int        retval = -1;
     int        i;
     int        j;
+    int        len = 0;
     cg_obj    *co;
 
     if (pt == NULL || ptn == NULL){
@@ -359,13 +363,14 @@ pt_copy(parse_tree *pt,
         if ((co = pt_vec_i_get(pt,i)) && co_flags_get(co, CO_FLAGS_TOPOFTREE))
             ;
         else
-            ptn->pt_len++;
+            len++;
     }
-    if (pt_len_get(ptn) &&
-        (ptn->pt_vec = (cg_obj **)malloc(pt_len_get(ptn)*sizeof(cg_obj *))) == NULL){
-        fprintf(stderr, "%s: malloc: %s\n", __FUNCTION__, strerror(errno));
+    if (len &&
+        (ptn->pt_vec = (cg_obj **)calloc(len, sizeof(cg_obj *))) == NULL){
+        fprintf(stderr, "%s: calloc: %s\n", __FUNCTION__, strerror(errno));
         goto done;
     }
+    ptn->pt_len = len;
     j=0;
     for (i=0; i<pt_len_get(pt); i++){
         if ((co = pt_vec_i_get(pt, i)) != NULL){
@@ -403,7 +408,7 @@ pt_dup(parse_tree *pt,
     if ((ptn = pt_new()) == NULL)
         goto done;
     if (pt_copy(pt, cop, flags, ptn) < 0){
-        free(ptn);
+        pt_free(ptn, 1);
         ptn = NULL;
         goto done;
     }
@@ -466,10 +471,12 @@ cligen_parsetree_merge(parse_tree *pt0,
                 goto done;
         }
         else{
-            if (pt_realloc(pt0) < 0)
-                goto done;
             if (co_copy(co1, parent, 0x0, &co1c) < 0)
                 goto done;
+            if (pt_realloc(pt0) < 0){
+                co_free(co1c, 1);
+                goto done;
+            }
             pt0->pt_vec[pt_len_get(pt0)-1] = co1c;
         }
     }
@@ -582,8 +589,9 @@ int
 pt_trunc(parse_tree *pt,
          int         len)
 {
-    int     i;
-    cg_obj *co;
+    int      i;
+    cg_obj  *co;
+    cg_obj **vec;
 
     if (pt == NULL){
         errno = EINVAL;
@@ -598,9 +606,10 @@ pt_trunc(parse_tree *pt,
             if ((co = pt_vec_i_get(pt, i)) != NULL)
                 co_free(co, 0);
         }
-        if ((pt->pt_vec = realloc(pt->pt_vec, (len)*sizeof(cg_obj *))) == 0)
-            return -1;
         pt->pt_len = len;
+        /* If shrink fails, the old vector is still there */
+        if ((vec = realloc(pt->pt_vec, (len)*sizeof(cg_obj *))) != NULL)
+            pt->pt_vec = vec;
     }
     return 0;
 }
diff --git a/cligen_result.c b/cligen_result.c
index 26b138d..fd2155c 100644
--- a/cligen_result.c
+++ b/cligen_result.c
@@ -81,9 +81,11 @@ mr_pt_len_get(match_result *mr)
 int
 mr_pt_reset(match_result *mr)
 {
-    pt_free(mr->mr_pt, 0);
-    if ((mr->mr_pt = pt_new()) == NULL)
-        return -1;
+    int len;
+
+    while ((len = mr_pt_len_get(mr)) > 0)
+        if (pt_vec_i_delete(mr->mr_pt, len-1, 0) < 0)
+            return -1;
     return 0;
 }
 
@@ -111,9 +113,13 @@ mr_pt_append(match_result *mr,
 
     if (co_copy1(co, NULL, 0, 0x0, &co1) < 0)
         return -1;
+    if (pt_vec_append(mr->mr_pt, co1) < 0){
+        co_free(co1, 0);
+        return -1;
+    }
     mr->mr_co_match_orig = co;
     mr->mr_token = token;
-    return pt_vec_append(mr->mr_pt, co1);
+    return 0;
 }
 
 cg_obj*
-- 
2.43.0


From 4c81e7acc561ce0ad6d010d8e249b8d63f5eeefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 46/55] fix: a failing allocation in matching, evaluation or
 help gave wrong results

---
 cligen_handle.c | 18 ++++++++++++++++++
 cligen_handle.h |  1 +
 cligen_io.c     |  7 +++++--
 cligen_match.c  | 39 ++++++++++++++++++++++++++++-----------
 cligen_print.c  | 17 +++++++++--------
 cligen_read.c   | 35 +++++++++++++++++++++--------------
 6 files changed, 82 insertions(+), 35 deletions(-)

diff --git a/cligen_handle.c b/cligen_handle.c
index 1745986..b2afeb8 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -501,6 +501,24 @@ cligen_fn_str_set(cligen_handle h,
     return 0;
 }
 
+/*! Exchange callback function name string, without allocation
+ *
+ * @param[in] h       CLIgen handle
+ * @param[in] fn_str  Malloced name of function or NULL, consumed
+ * @retval    str     Previous name or NULL, free after use
+ */
+char *
+cligen_fn_str_swap(cligen_handle h,
+                   char         *fn_str)
+{
+    struct cligen_handle *ch = handle(h);
+    char                 *prev;
+
+    prev = ch->ch_fn_str;
+    ch->ch_fn_str = fn_str;
+    return prev;
+}
+
 /*! Get number of displayed terminal rows.
  *
  * @param[in] h       CLIgen handle
diff --git a/cligen_handle.h b/cligen_handle.h
index a77338c..42bc4fe 100644
--- a/cligen_handle.h
+++ b/cligen_handle.h
@@ -137,6 +137,7 @@ int cligen_callback_arguments_set(cligen_handle h, cvec *args);
 
 char *cligen_fn_str_get(cligen_handle h);
 int cligen_fn_str_set(cligen_handle h, char *fn_str);
+char *cligen_fn_str_swap(cligen_handle h, char *fn_str);
 
 int cligen_terminal_rows(cligen_handle h);
 int cligen_terminal_rows_set(cligen_handle h, int rows);
diff --git a/cligen_io.c b/cligen_io.c
index f52175b..747aef8 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -670,7 +670,8 @@ print_help_lines(cligen_handle h,
         switch(co->co_type){
         case CO_VARIABLE:
             cbuf_reset(cb);
-            cov2cbuf(cb, co, 1);
+            if (cov2cbuf(cb, co, 1) < 0)
+                goto done;
             cmd = cbuf_get(cb);
             break;
         case CO_COMMAND:
@@ -683,8 +684,10 @@ print_help_lines(cligen_handle h,
         ch = &chvec[nrcmd];
         if ((ch->ch_cmd = strdup(cmd)) == NULL)
             goto done;
-        if (co->co_helpstring && cligen_txt2cvv(co->co_helpstring, &ch->ch_helpvec) < 0)
+        if (co->co_helpstring && cligen_txt2cvv(co->co_helpstring, &ch->ch_helpvec) < 0){
+            cligen_help_clear(ch);
             goto done;
+        }
         if (nrcmd && cligen_help_eq(&chvec[nrcmd-1], ch, 1) == 1){
             cligen_help_clear(ch);
             continue;
diff --git a/cligen_match.c b/cligen_match.c
index c28a776..06ae1fb 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -337,10 +337,10 @@ add_cov_to_cvec(cligen_handle h,
 
     if ((cv = cvec_add(cvv, co->co_vtype)) == NULL)
         return NULL;
-    cv_name_set(cv, co->co_command);
     if (co->co_vtype == CGV_DEC64) /* XXX: Seems misplaced? / too specific */
         cv_dec64_n_set(cv, co->co_dec64_n);
-    if (cv_parse(cmd, cv) < 0) {
+    if ((co->co_command && cv_name_set(cv, co->co_command) == NULL) ||
+        cv_parse(cmd, cv) < 0) {
         cv_reset(cv);
         cvec_del(cvv, cv);
         return NULL;
@@ -475,6 +475,8 @@ match_vec(cligen_handle h,
         mr_reason_set(mr, NULL);
     retval = 0;
  done:
+    if (tmpreason)
+        free(tmpreason);
     return retval;
 }
 
@@ -510,9 +512,11 @@ match_bindvars(cligen_handle h,
     else{
         if ((cv = cvec_add(cvv, CGV_STRING)) == NULL)
             goto done;
-        cv_name_set(cv, co->co_command);
+        if (cv_name_set(cv, co->co_command) == NULL)
+            goto done;
         cv_type_set(cv, CGV_STRING);
-        cv_string_set(cv, co->co_command);
+        if (cv_string_set(cv, co->co_command) == NULL)
+            goto done;
         cv_const_set(cv, 1);
     }
     retval = 0;
@@ -558,6 +562,7 @@ match_pattern_sets_local(cligen_handle  h,
     int           lasttoken = 0;
     char         *token;
     char         *resttokens;
+    char         *r;
     match_result *mr0 = NULL;
 
     if ((mr0 = mr_new()) == NULL)
@@ -603,7 +608,9 @@ match_pattern_sets_local(cligen_handle  h,
             goto ok; /* will return matches > 1 */
         }
         mr_pt_reset(mr0);
-        mr_reason_set(mr0, strdup("Ambiguous command"));
+        if ((r = strdup("Ambiguous command")) == NULL)
+            goto done;
+        mr_reason_set(mr0, r);
         goto ok;  /* will return matches = 0 */
         break;
     } /* switch matches */
@@ -616,7 +623,6 @@ match_pattern_sets_local(cligen_handle  h,
 
     /* Already matched (sets functionality) */
     if (co_flags_get(co_match, CO_FLAGS_MATCH)){ /* XXX: orig?? */
-        char *r;
         if ((r = strdup("Already matched")) == NULL)
             goto done;
         mr_reason_set(mr0, r);
@@ -677,6 +683,7 @@ treeref_merge_co(cg_obj      *co,
     cg_callback *cclast;
     cg_obj      *ce;
     cg_var      *cv;
+    char        *str;
     parse_tree  *pt;
 
     if (cc_ref == NULL){
@@ -695,10 +702,11 @@ treeref_merge_co(cg_obj      *co,
     else if ((cc->cc_flags & CC_FLAGS_PIPE_FUNCTION) == 0){ /* Merge if regular functions */
         cc->cc_fn_vec = cc_ref->cc_fn_vec;
         if (cc_ref->cc_fn_str){
+            if ((str = strdup(cc_ref->cc_fn_str)) == NULL)
+                goto done;
             if (cc->cc_fn_str)
                 free(cc->cc_fn_str);
-            if ((cc->cc_fn_str = strdup(cc_ref->cc_fn_str)) == NULL)
-                goto done;
+            cc->cc_fn_str = str;
         }
         if (cc_ref->cc_cvec){
             if (cc->cc_cvec == NULL &&
@@ -746,7 +754,8 @@ callbacks_merge(cg_obj       *coref,
                 fprintf(stderr, "%s no first element in coref cvec\n", __FUNCTION__);
                 goto done;
             }
-            cvv = cvec_from_var(cv);
+            if ((cvv = cvec_from_var(cv)) == NULL)
+                goto done;
             cv = NULL;
             while ((cv = cvec_each(callbacks0->cc_cvec, cv)) != NULL){
                 if (cvec_append_var(cvv, cv) == NULL)
@@ -1227,6 +1236,7 @@ match_pattern_exact(cligen_handle  h,
     int           retval = -1;
     match_result *mr = NULL;
     cg_obj       *co;
+    char         *str = NULL;
 
     if (resultp == NULL){
         errno = EINVAL;
@@ -1245,8 +1255,9 @@ match_pattern_exact(cligen_handle  h,
         goto done;
     }
     if (reason &&
-        mr_reason_get(mr))
-        *reason = strdup(mr_reason_get(mr));
+        mr_reason_get(mr) &&
+        (str = strdup(mr_reason_get(mr))) == NULL)
+        goto done;
     if (mr_pt_len_get(mr) == 1 &&
         match_obj){
         /* Must make a copy since the mr will be freed */
@@ -1254,9 +1265,15 @@ match_pattern_exact(cligen_handle  h,
         if (co_copy1(co, NULL, 0, 0x0, match_obj) < 0)
             goto done;
     }
+    if (str){
+        *reason = str;
+        str = NULL;
+    }
     *resultp = mr2result(mr);
     retval = 0;
  done:
+    if (str)
+        free(str);
     if (mr)
         mr_free(mr);
     return retval;
diff --git a/cligen_print.c b/cligen_print.c
index 629a4ab..ccd4390 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -90,16 +90,15 @@ cov2cbuf(cbuf   *cb,
     cg_var *cv2;
 
     if (co->co_choice){
-        if (strchr(co->co_choice, '|'))
-            cprintf(cb, "(%s)", co->co_choice);
-        else
-            cprintf(cb, "%s", co->co_choice);
+        if (cprintf(cb, strchr(co->co_choice, '|') ? "(%s)" : "%s", co->co_choice) < 0)
+            goto done;
     }
     else{
         if (brief){
-            cprintf(cb, "%c%s%c", VARIABLE_PRE,
-                    co->co_show!=NULL ? co->co_show : co->co_command,
-                    VARIABLE_POST);
+            if (cprintf(cb, "%c%s%c", VARIABLE_PRE,
+                        co->co_show!=NULL ? co->co_show : co->co_command,
+                        VARIABLE_POST) < 0)
+                goto done;
         }
         else{
             cprintf(cb, "%c%s:%s", VARIABLE_PRE, co->co_command, cv_type2str(co->co_vtype));
@@ -142,6 +141,7 @@ cov2cbuf(cbuf   *cb,
         }
     }
     retval = 0;
+ done:
     return retval;
 }
 
@@ -180,7 +180,8 @@ co2cbuf(cbuf   *cb,
             cprintf(cb, "@%s", co->co_command);
         break;
     case CO_VARIABLE:
-        cov2cbuf(cb, co, brief);
+        if (cov2cbuf(cb, co, brief) < 0)
+            goto done;
         break;
     case CO_EMPTY:
         cprintf(cb, ";");
diff --git a/cligen_read.c b/cligen_read.c
index 3c338cf..ced335d 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -340,7 +340,8 @@ show_help_columns(cligen_handle h,
             switch (co->co_type){
             case CO_VARIABLE:
                 cbuf_reset(cb);
-                cov2cbuf(cb, co, 1);
+                if (cov2cbuf(cb, co, 1) < 0)
+                    goto done;
                 cmd = cbuf_get(cb);
                 break;
             case CO_COMMAND:
@@ -357,8 +358,10 @@ show_help_columns(cligen_handle h,
                 fprintf(stderr, "%s strdup: %s\n", __FUNCTION__, strerror(errno));
                 goto done;
             }
-            if (co->co_helpstring && cligen_txt2cvv(co->co_helpstring, &ch->ch_helpvec) < 0)
+            if (co->co_helpstring && cligen_txt2cvv(co->co_helpstring, &ch->ch_helpvec) < 0){
+                cligen_help_clear(ch);
                 goto done;
+            }
             if (nrcmd && cligen_help_eq(&chvec[nrcmd-1], ch, 0) == 1){
                 cligen_help_clear(ch);
                 continue;
@@ -682,9 +685,11 @@ cliread_parse(cligen_handle  h,
         goto done;;
     if ((cv = cvec_add(cvv, CGV_REST)) == NULL)
         goto done;
-    cv_name_set(cv, "cmd"); /* the whole command string */
+    if (cv_name_set(cv, "cmd") == NULL) /* the whole command string */
+        goto done;
     /* The whole command string as user entered. */
-    cv_string_set(cv, string);
+    if (cv_string_set(cv, string) == NULL)
+        goto done;
     if ((ptn = pt_new()) == NULL)
         goto done;
     if (pt_expand(h, NULL,
@@ -996,11 +1001,8 @@ cligen_eval(cligen_handle h,
         goto done;
     }
     /* Evaluation from within a callback: restore what that callback sees when done */
-    if (cligen_fn_str_get(h) != NULL){
-        coprev = cligen_co_match(h);
-        if ((fnprev = strdup(cligen_fn_str_get(h))) == NULL)
-            goto done;
-    }
+    coprev = cligen_co_match(h);
+    fnprev = cligen_fn_str_swap(h, NULL);
     cligen_co_match_set(h, co); /* For eventual use in callback */
     /* Make a copy of var argument for modifications */
     if ((cvv1 = cvec_dup(cvv)) == NULL)
@@ -1035,8 +1037,14 @@ cligen_eval(cligen_handle h,
             continue;
         /* Vector cvec argument to callback */
         if ((fn = co_callback_fn_get(cc)) != NULL){
-            argv = cc->cc_cvec ? cvec_dup(cc->cc_cvec) : NULL;
-            cligen_fn_str_set(h, cc->cc_fn_str);
+            argv = NULL;
+            if (cc->cc_cvec && (argv = cvec_dup(cc->cc_cvec)) == NULL)
+                goto done;
+            if (cligen_fn_str_set(h, cc->cc_fn_str) < 0){
+                if (argv != NULL)
+                    cvec_free(argv);
+                goto done;
+            }
             /* Eval wrapper function so upper layers can make checks before and after callback */
             if (wrapfn)
                 (*wrapfn)(wraparg, &wh, cc->cc_fn_str, __FUNCTION__);
@@ -1067,10 +1075,9 @@ cligen_eval(cligen_handle h,
     if (cvv1)
         cvec_free(cvv1);
     if (fnprev){
-        if (cligen_fn_str_set(h, fnprev) < 0)
-            retval = -1;
+        if ((fnprev = cligen_fn_str_swap(h, fnprev)) != NULL)
+            free(fnprev);
         cligen_co_match_set(h, coprev);
-        free(fnprev);
     }
     return retval;
 }
-- 
2.43.0


From 3e215486575aa562ead04de7171432a412f08333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 47/55] fix: recall did not start at the newest line after a
 line that ended with an error

---
 cligen_getline.c | 1 +
 cligen_history.c | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index dd5b2ac..68522ea 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -885,6 +885,7 @@ gl_getline(cligen_handle h,
     *buf = cligen_buf(h);
     return 0;
  err: /* fatal error */
+    hist_pos_set(h, hist_last_get(h)); /* as after a newline */
     gl_cleanup();
     return -1;
 }
diff --git a/cligen_history.c b/cligen_history.c
index c83c149..9224756 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -135,9 +135,9 @@ hist_add(cligen_handle h,
             ch->ch_hist_buf[ch->ch_hist_last] = ""; /* NB not-malloced, check in hist_free */
         }
     }
-    ch->ch_hist_cur = ch->ch_hist_last;
     retval = 0;
  done:
+    ch->ch_hist_cur = ch->ch_hist_last;
     return retval;
 }
 
-- 
2.43.0


From f5b8861f520bec0b63cf379db84cbd1a3e0d71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:08 +0000
Subject: [PATCH 48/55] fix: the default alias callback got the user handle
 instead of the cligen handle

---
 cligen_read.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index ced335d..90198cc 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -79,6 +79,8 @@
 #include "cligen_expand.h"
 #include "cligen_history_internal.h"
 #include "cligen_getline.h"
+#include "cligen_parse.h"
+#include "cligen_syntax.h"
 
 /*
  * Local prototypes
@@ -1048,7 +1050,8 @@ cligen_eval(cligen_handle h,
             /* Eval wrapper function so upper layers can make checks before and after callback */
             if (wrapfn)
                 (*wrapfn)(wraparg, &wh, cc->cc_fn_str, __FUNCTION__);
-            if ((*fn)(cligen_userhandle(h)?cligen_userhandle(h):h,
+            /* The default alias callback is cligen's own and takes the cligen handle */
+            if ((*fn)(fn != cligen_alias_call && cligen_userhandle(h)?cligen_userhandle(h):h,
                                 cvv1,
                                 argv) < 0){
                 if (argv != NULL)
-- 
2.43.0


From a04d271f90df65bc7ae25089bef42a3795623105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 49/55] fix: a read error or NUL character while loading a
 specification file gave a partial load

---
 cligen_syntax.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index ca475a9..013cc0c 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -188,6 +188,7 @@ clispec_parse_file(cligen_handle h,
                    cvec         *cvv)
 {
     char         *buf;
+    char         *buf1;
     int           i;
     int           c;
     int           len;
@@ -202,13 +203,26 @@ clispec_parse_file(cligen_handle h,
 
     i = 0; /* position in buf */
     while (1){ /* read the whole file */
-        if ((c = fgetc(f)) == EOF)
-            break;
+        if ((c = fgetc(f)) == EOF){
+            if (!ferror(f)) /* end of file */
+                break;
+            if (errno == EINTR){
+                clearerr(f);
+                continue;
+            }
+            fprintf(stderr, "%s: %s: read: %s\n", __FUNCTION__, name, strerror(errno));
+            goto done;
+        }
+        if (c == 0){ /* Would hide the rest of the file */
+            fprintf(stderr, "%s: %s: NUL character\n", __FUNCTION__, name);
+            goto done;
+        }
         if (i == len-1){
-            if ((buf = realloc(buf, 2*len)) == NULL){
+            if ((buf1 = realloc(buf, 2*len)) == NULL){
                 fprintf(stderr, "%s: realloc: %s\n", __FUNCTION__, strerror(errno));
                 goto done;
             }
+            buf = buf1;
             memset(buf+len, 0, len);
             len *= 2;
         }
-- 
2.43.0


From 5e8d447c53d9496ef4a23e48b576c7e1f34a73fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 50/55] fix: cv_cmp truncated the difference of 32- and 64-bit
 numbers, so that variables whose ranges differ by a multiple of 2^32 were
 merged

---
 cligen_cv.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index b431b91..9105032 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3540,20 +3540,20 @@ cv_cmp(cg_var *cv1,
     case CGV_INT16:
         return (cv1->var_int16 - cv2->var_int16);
     case CGV_INT32:
-        return (cv1->var_int32 - cv2->var_int32);
+        return (cv1->var_int32 > cv2->var_int32) - (cv1->var_int32 < cv2->var_int32);
     case CGV_INT64:
-        return (cv1->var_int64 - cv2->var_int64);
+        return (cv1->var_int64 > cv2->var_int64) - (cv1->var_int64 < cv2->var_int64);
     case CGV_UINT8:
         return (cv1->var_uint8 - cv2->var_uint8);
     case CGV_UINT16:
         return (cv1->var_uint16 - cv2->var_uint16);
     case CGV_UINT32:
-        return (cv1->var_uint32 - cv2->var_uint32);
+        return (cv1->var_uint32 > cv2->var_uint32) - (cv1->var_uint32 < cv2->var_uint32);
     case CGV_UINT64:
-        return (cv1->var_uint64 - cv2->var_uint64);
+        return (cv1->var_uint64 > cv2->var_uint64) - (cv1->var_uint64 < cv2->var_uint64);
     case CGV_DEC64:
         /* XXX assume dec64_n are equal */
-        return (cv_dec64_i_get(cv1) - cv_dec64_i_get(cv2));
+        return (cv_dec64_i_get(cv1) > cv_dec64_i_get(cv2)) - (cv_dec64_i_get(cv1) < cv_dec64_i_get(cv2));
     case CGV_BOOL:
         return (cv1->var_bool - cv2->var_bool);
     case CGV_REST:
-- 
2.43.0


From 53ec33ea1e90892c6b221c5977e29bdba4518fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 51/55] fix: decimal64 variables with different fraction-digits
 or ranges were merged into one

---
 cligen_object.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cligen_object.c b/cligen_object.c
index ea6f42f..9294d1e 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -1009,8 +1009,13 @@ co_eq(cg_obj *co1,
             if (eq)
                 goto done;
         }
+        /* Examine fraction-digits */
+        if (co1->co_vtype == CGV_DEC64 &&
+            (eq = co1->co_dec64_n - co2->co_dec64_n) != 0)
+            goto done;
         /* Examine int and range */
-        if (cv_isint(co1->co_vtype) || cv_isstring(co1->co_vtype)) {
+        if (cv_isint(co1->co_vtype) || cv_isstring(co1->co_vtype) ||
+            co1->co_vtype == CGV_DEC64) {
             int i;
             cg_var *cv1, *cv2;
             if ((eq = co1->co_rangelen - co2->co_rangelen) != 0)
-- 
2.43.0


From 0d130d9f6cfa2ee3768985384087830c5c0b7573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 52/55] fix: parse_dec64 accepted strings without digits and
 signs after the decimal point

---
 cligen_cv.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 9105032..57463bc 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1356,6 +1356,20 @@ parse_dec64(char    *str,
     }
     memcpy(ss, s1, len1);
 
+    /* At least one digit is needed, and only digits after the decimal point, since
+     * digits are added below
+     */
+    if (strpbrk(str, "0123456789") == NULL ||
+        (s2 && s2[strspn(s2, "0123456789")] != '\0')){
+        if (reason != NULL)
+            if ((*reason = cligen_reason("'%s' is not a number", str)) == NULL){
+                retval = -1; /* malloc */
+                goto done;
+            }
+        retval = 0;
+        goto done;
+    }
+
     /*
      *     | s1 |.| s2 |
      *     | s1 | s2 |000|
-- 
2.43.0


From 690540036c6988ba42a38601604e5e12d50f91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:27 +0000
Subject: [PATCH 53/55] fix: variables with a regexp and its inversion were
 merged into one

---
 cligen_object.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_object.c b/cligen_object.c
index 9294d1e..c2554e3 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -998,6 +998,8 @@ co_eq(cg_obj *co1,
                     cv2 = cvec_i(co2->co_regex, i);
                     if ((eq = str_cmp(cv_string_get(cv1), cv_string_get(cv2))) != 0)
                         goto done;
+                    if ((eq = cv_flag(cv1, V_INVERT) - cv_flag(cv2, V_INVERT)) != 0)
+                        goto done;
                 }
                 if (cvec_len(co1->co_regex) < cvec_len(co2->co_regex))
                     eq = -1;
-- 
2.43.0


From 960bf16687f1a58ff459df234ada60ee9c96c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:05 +0000
Subject: [PATCH 54/55] fix: a quoted expansion value that is also a prefix of
 another one was ambiguous

---
 cligen_match.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index 06ae1fb..17bcaa4 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -172,8 +172,8 @@ match_object(cligen_handle h,
                   match = (strncasecmp(co->co_command+1, str, len) == 0);
               else
                   match = (strncmp(co->co_command+1, str, len) == 0);
-              if (exact)
-                  *exact = strlen(co->co_command+1) == len;
+              if (exact) /* The end quote remains */
+                  *exact = strlen(co->co_command+1) == len+1;
           }
           else{
               if (cligen_caseignore_get(h))
-- 
2.43.0


From cafa2b305c5107fdeb781e0f0bdd480f9e418236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:36 +0000
Subject: [PATCH 55/55] fix: unquoted and typed arguments of expansion
 functions were dropped

---
 cligen_parse.y | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 88bd3eb..9f38f2c 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -407,17 +407,23 @@ cgy_callback_arg(cligen_yacc *cy,
     return retval;
 }
 
-/*!
- * @param[in]  cy  CLIgen yacc parse struct
+/*! Add argument to the expansion function of a variable
+ *
+ * @param[in]  cy    CLIgen yacc parse struct
+ * @param[in]  type  Type of argument, string if NULL
+ * @param[in]  arg   Value of argument
+ * @retval     0     OK
+ * @retval    -1     Error
  */
 static int
 expand_arg(cligen_yacc *cy,
+           char        *type,
            char        *arg)
 {
    int      retval = -1;
     cg_var *cv = NULL;
 
-    if ((cv = create_cv(cy, "string", arg)) == NULL)
+    if ((cv = create_cv(cy, type, arg)) == NULL)
         goto done;
     if (cy->cy_var->co_expand_fn_vec){
         if (cvec_append_var(cy->cy_var->co_expand_fn_vec, cv) == NULL)
@@ -1632,17 +1638,9 @@ exparglist : exparglist ',' exparg
            | exparg
            ;
 
-exparg     : DQ DQ
-           | DQ charseq DQ {
-                    int ret = expand_arg(_cy, $2);
-                    free($2);
-                    if (ret < 0) _YYERROR("exparg");
-              }
-           ;
-
 exparg     : typecast arg1 {
                     int ret = 0;
-                    if ($2) ret = cgy_callback_arg(_cy, $1, $2);
+                    if ($2) ret = expand_arg(_cy, $1, $2);
                     if ($1) free($1);
                     if ($2) free($2);
                     if (ret < 0) _YYERROR("exparg");
-- 
2.43.0

