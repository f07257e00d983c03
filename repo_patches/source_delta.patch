From 6205b3cfaa81326681deb86f3a76dd39ad971a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 01/16] fix: don't send control codes stored in console cells
 to the terminal

---
 src/agent/Terminal.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index afa0a36..31f247c 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -213,7 +213,7 @@ static void outputSetColor(std::string &out, int color)
 
 static inline unsigned int fixSpecialCharacters(unsigned int ch)
 {
-    if (ch <= 0x1b) {
+    if (ch < 0x20 || (ch >= 0x7f && ch < 0xa0)) {
         switch (ch) {
             // The Windows Console has a popup window (e.g. that appears with
             // F7) that is sometimes bordered with box-drawing characters.
@@ -241,6 +241,13 @@ static inline unsigned int fixSpecialCharacters(unsigned int ch)
             // cells of the screen buffer.  In that case, the conversion here
             // does not apply.
             case 0x1b: return '?';
+
+            // The console shows a NUL cell as a blank.
+            case 0: return ' ';
+
+            // Any other C0, DEL, or C1 code is a glyph in the console, but it
+            // would act on the terminal (or take up no space) if it were sent.
+            default: return '?';
         }
     }
     return ch;
-- 
2.43.0


From 12e217d292ebfa673166ba14f2290ae27b69817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 02/16] fix: start a new line when plain output is reset

---
 src/agent/Terminal.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index 31f247c..b8caa09 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -314,6 +314,10 @@ void Terminal::reset(SendClearFlag sendClearFirst, int64_t newLine)
         // 1;1H ==> move cursor to top-left position
         // 2J   ==> clear the entire screen
         m_output.write(CSI "0m" CSI "1;1H" CSI "2J");
+    } else if (sendClearFirst == SendClear && m_remoteColumn != 0) {
+        // We can't clear in plain mode, so start over on a line of its own
+        // rather than running on from a partially output line.
+        m_output.write("\r\n");
     }
     m_remoteLine = newLine;
     m_remoteColumn = 0;
-- 
2.43.0


From 866cff87c58ac982c7d7c07d7c95570783d717af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 03/16] fix: remember that the terminal's cursor is hidden
 across a reset

---
 src/agent/Terminal.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index b8caa09..5d26e78 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -322,7 +322,6 @@ void Terminal::reset(SendClearFlag sendClearFirst, int64_t newLine)
     m_remoteLine = newLine;
     m_remoteColumn = 0;
     m_lineData.clear();
-    m_cursorHidden = false;
     m_remoteColor = -1;
 }
 
-- 
2.43.0


From cd61852d038a661b0f7bd5fcafef4be462a0425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 04/16] fix: don't let control characters in the console title
 end the title sequence

---
 src/agent/Agent.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/agent/Agent.cc b/src/agent/Agent.cc
index 986edea..82c18a0 100644
--- a/src/agent/Agent.cc
+++ b/src/agent/Agent.cc
@@ -603,8 +603,16 @@ void Agent::syncConsoleTitle()
     std::wstring newTitle = m_console.title();
     if (newTitle != m_currentTitle) {
         if (!m_plainMode && !m_conoutPipe->isClosed()) {
+            // A control character would end the sequence early, and the
+            // terminal would interpret the rest of the title.
+            std::wstring safeTitle = newTitle;
+            for (wchar_t &ch : safeTitle) {
+                if (ch < 0x20 || (ch >= 0x7f && ch < 0xa0)) {
+                    ch = L'?';
+                }
+            }
             std::string command = std::string("\x1b]0;") +
-                    utf8FromWide(newTitle) + "\x07";
+                    utf8FromWide(safeTitle) + "\x07";
             m_conoutPipe->write(command.c_str());
         }
         m_currentTitle = newTitle;
-- 
2.43.0


From e8e11f77d61a33990789df45bbe90969ec21d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 05/16] fix: don't let large mouse coordinates wrap around

---
 src/agent/ConsoleInput.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index 192cac2..1bc9aa0 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -137,6 +137,13 @@ static int matchMouseDefault(const char *input, int inputSize,
     return pch - input + 1;
 }
 
+// The terminal's coordinate can have up to 7 digits, but it is stored in a
+// 16-bit COORD.
+static SHORT clampMouseCoord(int32_t coord)
+{
+    return std::max<int32_t>(-32768, std::min<int32_t>(32767, coord));
+}
+
 static int matchMouse1006(const char *input, int inputSize, MouseRecord &out)
 {
     const char *pch = input;
@@ -147,9 +154,9 @@ static int matchMouse1006(const char *input, int inputSize, MouseRecord &out)
     CHECK(*pch == '<');         ADVANCE();
     SCAN_INT(out.flags, 8);
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.X = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.X = clampMouseCoord(temp - 1);
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.Y = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.Y = clampMouseCoord(temp - 1);
     CHECK(*pch == 'M' || *pch == 'm');
     out.release = (*pch == 'm');
     return pch - input + 1;
@@ -164,9 +171,9 @@ static int matchMouse1015(const char *input, int inputSize, MouseRecord &out)
     CHECK(*pch == '[');         ADVANCE();
     SCAN_INT(out.flags, 8); out.flags -= 32;
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.X = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.X = clampMouseCoord(temp - 1);
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.Y = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.Y = clampMouseCoord(temp - 1);
     CHECK(*pch == 'M');
     out.release = false;
     return pch - input + 1;
-- 
2.43.0


From 098385d6d303646b832606829da43ae7d7e90b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 06/16] fix: read the whole process list even if the caller's
 array is too small

---
 src/libwinpty/winpty.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 3d97749..b215b47 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -950,9 +950,12 @@ winpty_get_console_process_list(winpty_t *wp, int *processList, const int proces
 
         auto actualProcessCount = reply.getInt32();
 
-        if (actualProcessCount <= processCount) {
-            for (auto i = 0; i < actualProcessCount; i++) {
-                processList[i] = reply.getInt32();
+        for (auto i = 0; i < actualProcessCount; i++) {
+            const auto pid = reply.getInt32();
+            // The reply has to be read completely even if the caller's array
+            // is too small.
+            if (actualProcessCount <= processCount) {
+                processList[i] = pid;
             }
         }
 
-- 
2.43.0


From df5e3dc4954776064e2ea6dd237b7eef45a2f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 07/16] fix: don't queue output for a pipe that the terminal
 has closed

---
 src/agent/NamedPipe.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/agent/NamedPipe.cc b/src/agent/NamedPipe.cc
index 64044e6..c4ae7f3 100644
--- a/src/agent/NamedPipe.cc
+++ b/src/agent/NamedPipe.cc
@@ -295,6 +295,10 @@ size_t NamedPipe::bytesToSend()
 void NamedPipe::write(const void *data, size_t size)
 {
     ASSERT(m_openMode & OpenMode::Writing);
+    if (isClosed()) {
+        // Nothing would ever send the data or free it.
+        return;
+    }
     m_outQueue.append(reinterpret_cast<const char*>(data), size);
 }
 
-- 
2.43.0


From 41599ec6c1fa09da95e50d5ecabfd0261483d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 08/16] fix: free a SID or ACL when wrapping it runs out of
 memory

---
 src/shared/WindowsSecurity.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/shared/WindowsSecurity.cc b/src/shared/WindowsSecurity.cc
index 711a863..6128e1e 100644
--- a/src/shared/WindowsSecurity.cc
+++ b/src/shared/WindowsSecurity.cc
@@ -52,7 +52,10 @@ SecurityItem<T> localItem(typename T::type v) {
             LocalFree(reinterpret_cast<HLOCAL>(m_v));
         }
     };
-    return SecurityItem<T>(v, std::unique_ptr<Impl>(new Impl { v }));
+    PointerLocal guard(v); // free v if the allocation fails
+    std::unique_ptr<Impl> impl(new Impl { v });
+    guard.release();
+    return SecurityItem<T>(v, std::move(impl));
 }
 
 Sid allocatedSid(PSID v) {
@@ -65,7 +68,14 @@ Sid allocatedSid(PSID v) {
             }
         }
     };
-    return Sid(v, std::unique_ptr<Impl>(new Impl { v }));
+    std::unique_ptr<Impl> impl;
+    try {
+        impl.reset(new Impl { v });
+    } catch (...) {
+        FreeSid(v);
+        throw;
+    }
+    return Sid(v, std::move(impl));
 }
 
 } // anonymous namespace
-- 
2.43.0


From 33b7fbbc2629c485d19cbdc438e105e4ab4511b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 09/16] fix: do not let an exception escape while an error is
 being traced

---
 src/libwinpty/winpty.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index b215b47..3deca2a 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -130,9 +130,14 @@ static void translateException(winpty_error_ptr_t *&err) {
     } catch (...) {
         ret = const_cast<winpty_error_ptr_t>(&kUncaughtException);
     }
-    trace("libwinpty error: code=%u msg='%s'",
-        static_cast<unsigned>(ret->code),
-        utf8FromWide(winpty_error_msg(ret)).c_str());
+    try {
+        trace("libwinpty error: code=%u msg='%s'",
+            static_cast<unsigned>(ret->code),
+            utf8FromWide(winpty_error_msg(ret)).c_str());
+    } catch (...) {
+        // The message could not be converted (e.g. out of memory).  Do not
+        // let an exception escape from the API.
+    }
     if (err != nullptr) {
         *err = ret;
     } else {
-- 
2.43.0


From 062c487c451b441c693cf73e9d56dcd24d9403d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 10/16] fix: do not abort when reading the wakeup pipe is
 interrupted

---
 src/unix-adapter/WakeupFd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/unix-adapter/WakeupFd.cc b/src/unix-adapter/WakeupFd.cc
index 6b47379..171f1d5 100644
--- a/src/unix-adapter/WakeupFd.cc
+++ b/src/unix-adapter/WakeupFd.cc
@@ -62,6 +62,8 @@ void WakeupFd::reset() {
         int amount = read(m_pipeReadFd, tmpBuf, sizeof(tmpBuf));
         if (amount < 0 && errno == EAGAIN) {
             break;
+        } else if (amount < 0 && errno == EINTR) {
+            continue;
         } else if (amount <= 0) {
             perror("error reading from internal wakeup pipe");
             abort();
-- 
2.43.0


From dbe918555793b75cc88b55f89319660a5e756c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 11/16] fix: notice a terminal resize that happens while winpty
 starts

---
 src/unix-adapter/main.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 992cb70..64e7b8c 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -667,6 +667,9 @@ int main(int argc, char *argv[])
     }
 
     registerResizeSignalHandler();
+    // The terminal may have been resized before the handler was registered, so
+    // ensure that the loop below checks the size at least once.
+    mainWakeup().set();
     SavedTermiosMode mode =
         setRawTerminalMode(args.testAllowNonTtys, true, args.testConerr);
 
-- 
2.43.0


From 0430d5aed89ba0fe82bf3befe3ffa1db2767e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 12/16] fix: ignore a terminal size that cannot be determined
 or is zero

---
 src/unix-adapter/main.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 64e7b8c..8f5bc3f 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -578,6 +578,18 @@ static std::string formatErrorMessage(DWORD err)
     return ret;
 }
 
+// Query the terminal size.  Leave the size alone if it cannot be determined.  A
+// terminal that does not know its own size reports zeros, which libwinpty does
+// not accept.
+static void getTerminalSize(winsize &sz)
+{
+    winsize current = { 0 };
+    if (ioctl(STDIN_FILENO, TIOCGWINSZ, &current) == 0 &&
+            current.ws_col > 0 && current.ws_row > 0) {
+        sz = current;
+    }
+}
+
 int main(int argc, char *argv[])
 {
     setlocale(LC_ALL, "");
@@ -592,7 +604,7 @@ int main(int argc, char *argv[])
     winsize sz = { 0 };
     sz.ws_col = 80;
     sz.ws_row = 25;
-    ioctl(STDIN_FILENO, TIOCGWINSZ, &sz);
+    getTerminalSize(sz);
 
     DWORD agentFlags = WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION;
     if (args.testConerr)        { agentFlags |= WINPTY_FLAG_CONERR; }
@@ -689,8 +701,8 @@ int main(int argc, char *argv[])
 
         // Check for terminal resize.
         {
-            winsize sz2;
-            ioctl(STDIN_FILENO, TIOCGWINSZ, &sz2);
+            winsize sz2 = sz;
+            getTerminalSize(sz2);
             if (memcmp(&sz, &sz2, sizeof(sz)) != 0) {
                 sz = sz2;
                 winpty_set_size(wp, sz.ws_col, sz.ws_row, NULL);
-- 
2.43.0


From c76041091023f3c120480aca6fea444e0ac35141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:58 +0000
Subject: [PATCH 13/16] fix: redraw a line with a colored background when it
 becomes longer

When the console becomes wider, the new blank cells of a line were ignored if
they had the same attributes as the last cell before.  The terminal fills the
columns it gains with its default background, so a colored line showed a stripe
of another color at its right end.
---
 src/agent/ConsoleLine.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/agent/ConsoleLine.cc b/src/agent/ConsoleLine.cc
index 1d2bcb7..60591e0 100644
--- a/src/agent/ConsoleLine.cc
+++ b/src/agent/ConsoleLine.cc
@@ -54,6 +54,15 @@ static bool isLineBlank(const CHAR_INFO *line, int length, WORD attributes)
     return true;
 }
 
+// A terminal fills the columns it gains with its default background.  Only a
+// blank without a background color (or another visible attribute) looks alike.
+static bool isBlankVisible(WORD attributes)
+{
+    const WORD kForegroundMask = FOREGROUND_BLUE | FOREGROUND_GREEN |
+                                 FOREGROUND_RED | FOREGROUND_INTENSITY;
+    return (attributes & ~kForegroundMask) != 0;
+}
+
 static inline bool areLinesEqual(
     const CHAR_INFO *line1,
     const CHAR_INFO *line2,
@@ -122,6 +131,7 @@ bool ConsoleLine::detectChangeAndSetLine(const CHAR_INFO *const line, const int
             //
             ASSERT(newLength > m_prevLength);
             equalLines =
+                !isBlankVisible(prevBlank) &&
                 areLinesEqual(m_prevData.data(), line, m_prevLength) &&
                 isLineBlank(m_prevData.data() + m_prevLength,
                             std::min<int>(m_prevData.size(), newLength) - m_prevLength,
-- 
2.43.0


From 8a719a3ba1eebff03d4c47ef627579ee4ac4654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 14/16] fix: keep the debug server running when a client
 connects early

A client can connect between CreateNamedPipe or DisconnectNamedPipe and
ConnectNamedPipe, which then fails with ERROR_PIPE_CONNECTED (or with
ERROR_NO_DATA if the client has closed its end already).
---
 src/debugserver/DebugServer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/debugserver/DebugServer.cc b/src/debugserver/DebugServer.cc
index 353d31c..2894fcc 100644
--- a/src/debugserver/DebugServer.cc
+++ b/src/debugserver/DebugServer.cc
@@ -94,7 +94,11 @@ int main(int argc, char *argv[]) {
     char msgBuffer[MSG_SIZE + 1];
 
     while (true) {
-        if (!ConnectNamedPipe(serverPipe, nullptr)) {
+        // A client can connect (and even close its end again) between
+        // CreateNamedPipe or DisconnectNamedPipe and ConnectNamedPipe.
+        if (!ConnectNamedPipe(serverPipe, nullptr) &&
+                GetLastError() != ERROR_PIPE_CONNECTED &&
+                GetLastError() != ERROR_NO_DATA) {
             fprintf(stderr, "error: ConnectNamedPipe failed\n");
             fflush(stderr);
             exit(1);
-- 
2.43.0


From 2b0eef770ea885aca24fbfd204ba0a201205eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:36 +0000
Subject: [PATCH 15/16] fix: query the console again after freezing it to
 restart a scrape

On the new Windows 10 console the scrape starts without freezing.  When it
fails, the console is frozen and the scrape is repeated, but with the window
and buffer that were queried before.  If the program cleared or resized its
console in between, the sync marker was written below the window of a
console that had been cleared, where the program's next output met it.
---
 src/agent/Scraper.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 21f9c67..9f6b6cd 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -369,10 +369,14 @@ void Scraper::syncConsoleContentAndSize(
     } else {
         if (!m_console.frozen()) {
             if (!scrollingScrapeOutput(info, cursorVisible, true)) {
+                // The console may have changed since its size, window, and
+                // cursor were queried, so query them again, now that it is
+                // frozen.
                 m_console.setFrozen(true);
+                syncConsoleContentAndSize(forceResize, finalInfoOut);
+                return;
             }
-        }
-        if (m_console.frozen()) {
+        } else {
             scrollingScrapeOutput(info, cursorVisible, false);
         }
         // In scrolling mode, we want to scrape before resizing, because we'll
-- 
2.43.0


From 424cf30197a28c2ddce285aa6281096f51dcc014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:36 +0000
Subject: [PATCH 16/16] fix: use the visibility of the cursor of the buffer
 being shown

The cursor's visibility was read from the standard output handle, which is
the first screen buffer, even when another screen buffer is active.
---
 src/agent/Scraper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 9f6b6cd..a23d650 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -336,7 +336,7 @@ void Scraper::syncConsoleContentAndSize(
     const ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
     bool cursorVisible = true;
     CONSOLE_CURSOR_INFO cursorInfo = {};
-    if (!GetConsoleCursorInfo(GetStdHandle(STD_OUTPUT_HANDLE), &cursorInfo)) {
+    if (!GetConsoleCursorInfo(m_consoleBuffer->conout(), &cursorInfo)) {
         trace("GetConsoleCursorInfo failed");
     } else {
         cursorVisible = cursorInfo.bVisible != 0;
-- 
2.43.0

