From 06b597a55009adbe2bac8636fa64c1d866ccaa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 01/21] fix: show the terminal cursor again after the screen
 was reset while it was hidden

Terminal::reset cleared m_cursorHidden without sending ?25h, so a cursor that
had been hidden before the reset stayed hidden on the terminal forever.
---
 src/agent/Terminal.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index afa0a36..a8dbc44 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -311,7 +311,6 @@ void Terminal::reset(SendClearFlag sendClearFirst, int64_t newLine)
     m_remoteLine = newLine;
     m_remoteColumn = 0;
     m_lineData.clear();
-    m_cursorHidden = false;
     m_remoteColor = -1;
 }
 
-- 
2.43.0


From a15b39c0e5245abed6d0f2a61ebbcf3b81686934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 02/21] fix: use fresh cursor and window positions after
 freezing the console mid-scrape

When a tentative (unfrozen) scrape is abandoned, the console is frozen and
scraped again, but with the window and cursor positions read before it was
frozen.  The program may have printed more in between, so the terminal cursor
was moved to a stale position; in plain mode that inserted blank lines or
repeated lines into sequential output.
---
 src/agent/Scraper.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 21f9c67..b42725e 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -333,7 +333,7 @@ void Scraper::syncConsoleContentAndSize(
         m_console.setFrozen(true);
     }
 
-    const ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
+    ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
     bool cursorVisible = true;
     CONSOLE_CURSOR_INFO cursorInfo = {};
     if (!GetConsoleCursorInfo(GetStdHandle(STD_OUTPUT_HANDLE), &cursorInfo)) {
@@ -369,7 +369,10 @@ void Scraper::syncConsoleContentAndSize(
     } else {
         if (!m_console.frozen()) {
             if (!scrollingScrapeOutput(info, cursorVisible, true)) {
+                // The console kept running until now, so the cursor and window
+                // positions read earlier are stale.
                 m_console.setFrozen(true);
+                info = m_consoleBuffer->bufferInfo();
             }
         }
         if (m_console.frozen()) {
-- 
2.43.0


From d6ff577b716aa653f70d3039f7ccfc6a914cfee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 03/21] fix: never send control characters stored in console
 cells to the terminal

---
 src/agent/Terminal.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index a8dbc44..34b4d68 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -243,6 +243,15 @@ static inline unsigned int fixSpecialCharacters(unsigned int ch)
             case 0x1b: return '?';
         }
     }
+    // A program can also store any other control character in a cell (e.g.
+    // with ENABLE_PROCESSED_OUTPUT off or WriteConsoleOutput).  The console
+    // merely displays it, but a terminal would act on it.
+    if (ch == 0) {
+        return ' ';
+    }
+    if (ch < 0x20 || (ch >= 0x7f && ch <= 0x9f)) {
+        return '?';
+    }
     return ch;
 }
 
-- 
2.43.0


From 6680b0eead26d0fe863085395155c47bc5acc75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 04/21] fix: replace control characters in the console title
 sent to the terminal

---
 src/agent/Agent.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/agent/Agent.cc b/src/agent/Agent.cc
index 986edea..f1ba915 100644
--- a/src/agent/Agent.cc
+++ b/src/agent/Agent.cc
@@ -603,8 +603,16 @@ void Agent::syncConsoleTitle()
     std::wstring newTitle = m_console.title();
     if (newTitle != m_currentTitle) {
         if (!m_plainMode && !m_conoutPipe->isClosed()) {
+            // A control character would terminate the title sequence early
+            // and let the terminal interpret the rest of the title.
+            std::wstring safeTitle = newTitle;
+            for (wchar_t &ch : safeTitle) {
+                if (ch < 0x20 || (ch >= 0x7f && ch <= 0x9f)) {
+                    ch = L'?';
+                }
+            }
             std::string command = std::string("\x1b]0;") +
-                    utf8FromWide(newTitle) + "\x07";
+                    utf8FromWide(safeTitle) + "\x07";
             m_conoutPipe->write(command.c_str());
         }
         m_currentTitle = newTitle;
-- 
2.43.0


From 0ec6ac09bc5e19b8aa417596131999f6b16970e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 05/21] fix: read the cursor visibility from the screen buffer
 being scraped

The agent asked its own standard output buffer, so the terminal showed the
wrong cursor state while a program had activated a screen buffer of its own,
and on the error stream.
---
 src/agent/Scraper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index b42725e..44cc948 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -336,7 +336,7 @@ void Scraper::syncConsoleContentAndSize(
     ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
     bool cursorVisible = true;
     CONSOLE_CURSOR_INFO cursorInfo = {};
-    if (!GetConsoleCursorInfo(GetStdHandle(STD_OUTPUT_HANDLE), &cursorInfo)) {
+    if (!GetConsoleCursorInfo(m_consoleBuffer->conout(), &cursorInfo)) {
         trace("GetConsoleCursorInfo failed");
     } else {
         cursorVisible = cursorInfo.bVisible != 0;
-- 
2.43.0


From 04a3603e063af6d511d66ac9159ba8aa523feab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 06/21] fix: don't swallow a DSR reply that follows ESC [ M as
 a mouse report

---
 src/agent/ConsoleInput.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index 192cac2..d548402 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -129,6 +129,9 @@ static int matchMouseDefault(const char *input, int inputSize,
     CHECK(*pch == '\x1B');              ADVANCE();
     CHECK(*pch == '[');                 ADVANCE();
     CHECK(*pch == 'M');                 ADVANCE();
+    // A mouse report encodes each value with an offset of 32.  Anything else
+    // follows a bare `ESC [ M` (e.g. the ESC of a DSR reply).
+    CHECK(static_cast<unsigned char>(*pch) >= 32);
     out.flags = (*pch - 32) & 0xFF;     ADVANCE();
     out.coord.X = (*pch - '!') & 0xFF;
     ADVANCE();
-- 
2.43.0


From c284d9234dc97d52756cb50ec9d66ce8fe13dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 07/21] fix: don't swallow input after an invalid UTF-8 byte

---
 src/agent/ConsoleInput.cc | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index d548402..36f9053 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -193,6 +193,22 @@ static int matchMouseRecord(const char *input, int inputSize, MouseRecord &out)
 #undef ADVANCE
 #undef SCAN_INT
 
+// Match one UTF-8 character, without interpreting it.
+// 0   invalid, the first byte does not start a character
+// >0  match, returns length of match
+// -1  incomplete match
+static int matchUtf8Char(const char *input, int inputSize)
+{
+    const int len = utf8CharLength(input[0]);
+    for (int i = 1; i < len && i < inputSize; ++i) {
+        if ((input[i] & 0xC0) != 0x80) {
+            // This byte belongs to the next character or escape sequence.
+            return 0;
+        }
+    }
+    return len > inputSize ? -1 : len;
+}
+
 } // anonymous namespace
 
 ConsoleInput::ConsoleInput(HANDLE conin, int mouseMode, DsrSender &dsrSender,
@@ -457,20 +473,19 @@ int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
     // than the DSR flushing mechanism or use a decrepit terminal.  The user
     // might be on a slow network connection.)
     if (input[0] == '\x1B' && inputSize >= 2 && input[1] != '\x1B') {
-        const int len = utf8CharLength(input[1]);
-        if (len > 0) {
-            if (1 + len > inputSize) {
-                // Incomplete character.
-                trace("Incomplete UTF-8 character in Alt-<Char>");
-                return -1;
-            }
+        const int len = matchUtf8Char(&input[1], inputSize - 1);
+        if (len == -1) {
+            // Incomplete character.
+            trace("Incomplete UTF-8 character in Alt-<Char>");
+            return -1;
+        } else if (len > 0) {
             appendUtf8Char(records, &input[1], len, true);
             return 1 + len;
         }
     }
 
     // A UTF-8 character.
-    const int len = utf8CharLength(input[0]);
+    const int len = matchUtf8Char(input, inputSize);
     if (len == 0) {
         static bool debugInput = isTracingEnabled() && hasDebugFlag("input");
         if (debugInput) {
@@ -479,7 +494,7 @@ int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
         }
         return 1;
     }
-    if (len > inputSize) {
+    if (len == -1) {
         // Incomplete character.
         trace("Incomplete UTF-8 character");
         return -1;
-- 
2.43.0


From 6116c19820d241289e02ba1b5b63d4aa98bdc34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 08/21] fix: don't decode ESC followed by a DSR reply as Alt-F3

---
 src/agent/ConsoleInput.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index 36f9053..2bc15cc 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -435,6 +435,14 @@ int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
             return -1;
         }
 
+        // An ESC keypress followed by the DSR reply it triggered.  The reply
+        // `ESC [ 1 ; n R` must not be decoded as an Alt-<modifiers>-F3.
+        if (m_dsrSent && inputSize >= 2 &&
+                matchDsr(&input[1], inputSize - 1) > 0) {
+            appendUtf8Char(records, &input[0], 1, false);
+            return 1;
+        }
+
         int mouseLen = scanMouseInput(records, input, inputSize);
         if (mouseLen > 0 || (!isEof && mouseLen == -1)) {
             return mouseLen;
-- 
2.43.0


From 2e59f1c10f2530b3b49778f029ccb90e65702bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 09/21] fix: don't lose the session when the process list
 doesn't fit the caller's array

winpty_get_console_process_list left the items unread when the array was too
small, so assertEof() threw and the control pipe was closed.
---
 src/libwinpty/winpty.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 3d97749..2ad80b5 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -950,9 +950,10 @@ winpty_get_console_process_list(winpty_t *wp, int *processList, const int proces
 
         auto actualProcessCount = reply.getInt32();
 
-        if (actualProcessCount <= processCount) {
-            for (auto i = 0; i < actualProcessCount; i++) {
-                processList[i] = reply.getInt32();
+        for (auto i = 0; i < actualProcessCount; i++) {
+            const auto pid = reply.getInt32();
+            if (actualProcessCount <= processCount) {
+                processList[i] = pid;
             }
         }
 
-- 
2.43.0


From ec8f25a43502f4561b2c798a84f439cc32ace123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 10/21] fix: don't let an out-of-memory exception escape the C
 API while tracing an error

---
 src/libwinpty/winpty.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 2ad80b5..f609124 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -130,9 +130,14 @@ static void translateException(winpty_error_ptr_t *&err) {
     } catch (...) {
         ret = const_cast<winpty_error_ptr_t>(&kUncaughtException);
     }
-    trace("libwinpty error: code=%u msg='%s'",
-        static_cast<unsigned>(ret->code),
-        utf8FromWide(winpty_error_msg(ret)).c_str());
+    try {
+        trace("libwinpty error: code=%u msg='%s'",
+            static_cast<unsigned>(ret->code),
+            utf8FromWide(winpty_error_msg(ret)).c_str());
+    } catch (...) {
+        // Tracing allocates memory, so it can fail.  Don't let an exception
+        // escape through the C API.
+    }
     if (err != nullptr) {
         *err = ret;
     } else {
-- 
2.43.0


From 07624918f1f87bb606eb8180fe81bd48346d186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 11/21] fix: treat an impossible string length in a packet as a
 decode error

---
 src/shared/Buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/Buffer.cc b/src/shared/Buffer.cc
index 158a629..7b029a4 100644
--- a/src/shared/Buffer.cc
+++ b/src/shared/Buffer.cc
@@ -86,7 +86,7 @@ int64_t ReadBuffer::getInt64() {
 std::wstring ReadBuffer::getWString() {
     READ_BUFFER_CHECK(getRawValue<Piece>() == Piece::WString);
     const uint64_t charLen = getRawValue<uint64_t>();
-    READ_BUFFER_CHECK(charLen <= SIZE_MAX / sizeof(wchar_t));
+    READ_BUFFER_CHECK(charLen <= (m_buf.size() - m_off) / sizeof(wchar_t));
     // To be strictly conforming, we can't use the convenient wstring
     // constructor, because the string in m_buf mightn't be aligned.
     std::wstring ret;
-- 
2.43.0


From 94a9f0ec79f0543db1dd7ac3ad7c570d7f1c687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 12/21] fix: don't leak the agent's process handle when tracing
 its creation runs out of memory

---
 src/libwinpty/winpty.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index f609124..6c98c91 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -517,12 +517,13 @@ static OwnedHandle startAgentProcess(
         throw LibWinptyException(
             WINPTY_ERROR_AGENT_CREATION_FAILED, errStr.c_str());
     }
+    OwnedHandle agentProcess(pi.hProcess);
     CloseHandle(pi.hThread);
     TRACE("Created agent successfully, pid=%u, cmdline=%s",
           static_cast<unsigned int>(pi.dwProcessId),
           utf8FromWide(cmdline).c_str());
     agentPid = pi.dwProcessId;
-    return OwnedHandle(pi.hProcess);
+    return agentProcess;
 }
 
 static void verifyPipeClientPid(HANDLE serverPipe, DWORD agentPid) {
-- 
2.43.0


From b583ee6410618a55b8d63976fe924c8116ba66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 13/21] fix: don't scrape with stale dimensions after a resize
 in direct mode

---
 src/agent/Scraper.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 44cc948..68bca41 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -364,6 +364,8 @@ void Scraper::syncConsoleContentAndSize(
         // before scraping.
         if (forceResize) {
             resizeImpl(info);
+            // The resize changed the buffer and window dimensions.
+            info = m_consoleBuffer->bufferInfo();
         }
         directScrapeOutput(info, cursorVisible);
     } else {
-- 
2.43.0


From 6af29c1732f2a5907bd7c66ee49bd1d48ada136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 14/21] fix: don't queue output for a pipe that the consumer
 has closed

---
 src/agent/NamedPipe.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/agent/NamedPipe.cc b/src/agent/NamedPipe.cc
index 64044e6..c1de0b1 100644
--- a/src/agent/NamedPipe.cc
+++ b/src/agent/NamedPipe.cc
@@ -295,6 +295,10 @@ size_t NamedPipe::bytesToSend()
 void NamedPipe::write(const void *data, size_t size)
 {
     ASSERT(m_openMode & OpenMode::Writing);
+    if (isClosed()) {
+        // Nothing will ever drain the queue.
+        return;
+    }
     m_outQueue.append(reinterpret_cast<const char*>(data), size);
 }
 
-- 
2.43.0


From fcfbc6fb1c12b78d686fa09bec68ed45ae1b3313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 15/21] fix: keep the debug server running when a client
 connects before it waits for one

---
 src/debugserver/DebugServer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/debugserver/DebugServer.cc b/src/debugserver/DebugServer.cc
index 353d31c..eda36c5 100644
--- a/src/debugserver/DebugServer.cc
+++ b/src/debugserver/DebugServer.cc
@@ -94,7 +94,11 @@ int main(int argc, char *argv[]) {
     char msgBuffer[MSG_SIZE + 1];
 
     while (true) {
-        if (!ConnectNamedPipe(serverPipe, nullptr)) {
+        if (!ConnectNamedPipe(serverPipe, nullptr) &&
+                // A client may have connected (and even disconnected again)
+                // between the creation of the pipe and this call.
+                GetLastError() != ERROR_PIPE_CONNECTED &&
+                GetLastError() != ERROR_NO_DATA) {
             fprintf(stderr, "error: ConnectNamedPipe failed\n");
             fflush(stderr);
             exit(1);
-- 
2.43.0


From 16558cbe56f5712a5f0c4e9c6dac12406a7eb5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 16/21] fix: unix-adapter: do not miss a terminal resize during
 startup

---
 src/unix-adapter/main.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 992cb70..4a45ca3 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -589,6 +589,10 @@ int main(int argc, char *argv[])
 
     setupWin32Environment();
 
+    // Register the handler before the initial size is queried, so that a resize
+    // during startup isn't missed.
+    registerResizeSignalHandler();
+
     winsize sz = { 0 };
     sz.ws_col = 80;
     sz.ws_row = 25;
@@ -666,7 +670,6 @@ int main(int argc, char *argv[])
         delete [] cmdLineW;
     }
 
-    registerResizeSignalHandler();
     SavedTermiosMode mode =
         setRawTerminalMode(args.testAllowNonTtys, true, args.testConerr);
 
-- 
2.43.0


From 809f839617239af3e9791ba1677a754e322ed962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 17/21] fix: unix-adapter: ignore a terminal size that is empty
 or cannot be read

---
 src/unix-adapter/main.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 4a45ca3..c609f01 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -597,6 +597,11 @@ int main(int argc, char *argv[])
     sz.ws_col = 80;
     sz.ws_row = 25;
     ioctl(STDIN_FILENO, TIOCGWINSZ, &sz);
+    if (sz.ws_col == 0 || sz.ws_row == 0) {
+        // The terminal does not know its size (e.g. a serial line).
+        sz.ws_col = 80;
+        sz.ws_row = 25;
+    }
 
     DWORD agentFlags = WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION;
     if (args.testConerr)        { agentFlags |= WINPTY_FLAG_CONERR; }
@@ -690,8 +695,9 @@ int main(int argc, char *argv[])
         // Check for terminal resize.
         {
             winsize sz2;
-            ioctl(STDIN_FILENO, TIOCGWINSZ, &sz2);
-            if (memcmp(&sz, &sz2, sizeof(sz)) != 0) {
+            if (ioctl(STDIN_FILENO, TIOCGWINSZ, &sz2) == 0 &&
+                    sz2.ws_col > 0 && sz2.ws_row > 0 &&
+                    memcmp(&sz, &sz2, sizeof(sz)) != 0) {
                 sz = sz2;
                 winpty_set_size(wp, sz.ws_col, sz.ws_row, NULL);
             }
-- 
2.43.0


From 81f724255d8c52d2570d48a8634fd56ba9441928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 18/21] fix: unix-adapter: WakeupFd::reset aborted when its
 read was interrupted

---
 src/unix-adapter/WakeupFd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/unix-adapter/WakeupFd.cc b/src/unix-adapter/WakeupFd.cc
index 6b47379..171f1d5 100644
--- a/src/unix-adapter/WakeupFd.cc
+++ b/src/unix-adapter/WakeupFd.cc
@@ -62,6 +62,8 @@ void WakeupFd::reset() {
         int amount = read(m_pipeReadFd, tmpBuf, sizeof(tmpBuf));
         if (amount < 0 && errno == EAGAIN) {
             break;
+        } else if (amount < 0 && errno == EINTR) {
+            continue;
         } else if (amount <= 0) {
             perror("error reading from internal wakeup pipe");
             abort();
-- 
2.43.0


From fa2ff568cfb315b00082e14fefbf3f1820473068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 19/21] fix: unix-adapter: with -Xconerr, wait for both output
 pipes to end

---
 src/unix-adapter/OutputHandler.cc |  4 +++-
 src/unix-adapter/OutputHandler.h  |  2 ++
 src/unix-adapter/main.cc          | 11 ++++++++---
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/unix-adapter/OutputHandler.cc b/src/unix-adapter/OutputHandler.cc
index 573b8ad..0a1abfb 100644
--- a/src/unix-adapter/OutputHandler.cc
+++ b/src/unix-adapter/OutputHandler.cc
@@ -38,7 +38,8 @@ OutputHandler::OutputHandler(
     m_outputfd(outputfd),
     m_completionWakeup(completionWakeup),
     m_threadHasBeenJoined(false),
-    m_threadCompleted(0)
+    m_threadCompleted(0),
+    m_outputFailed(0)
 {
     pthread_create(&m_thread, NULL, OutputHandler::threadProcS, this);
 }
@@ -72,6 +73,7 @@ void OutputHandler::threadProc() {
             break;
         }
         if (!writeAll(m_outputfd, &buffer[0], numRead)) {
+            m_outputFailed = 1;
             break;
         }
     }
diff --git a/src/unix-adapter/OutputHandler.h b/src/unix-adapter/OutputHandler.h
index 48241c5..ede444d 100644
--- a/src/unix-adapter/OutputHandler.h
+++ b/src/unix-adapter/OutputHandler.h
@@ -33,6 +33,7 @@ public:
     OutputHandler(HANDLE conout, int outputfd, WakeupFd &completionWakeup);
     ~OutputHandler() { shutdown(); }
     bool isComplete() { return m_threadCompleted; }
+    bool hasFailed() { return m_outputFailed; }
     void shutdown();
 
 private:
@@ -48,6 +49,7 @@ private:
     WakeupFd &m_completionWakeup;
     bool m_threadHasBeenJoined;
     volatile sig_atomic_t m_threadCompleted;
+    volatile sig_atomic_t m_outputFailed;
 };
 
 #endif // UNIX_ADAPTER_OUTPUT_HANDLER_H
diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index c609f01..0db1151 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -704,9 +704,14 @@ int main(int argc, char *argv[])
         }
 
         // Check for an I/O handler shutting down (possibly indicating that the
-        // child process has exited).
-        if (inputHandler.isComplete() || outputHandler.isComplete() ||
-                (errorHandler != NULL && errorHandler->isComplete())) {
+        // child process has exited).  When the agent closes one output pipe,
+        // it can still have output to send through the other one.
+        if (inputHandler.isComplete() || outputHandler.hasFailed() ||
+                (errorHandler != NULL && errorHandler->hasFailed())) {
+            break;
+        }
+        if (outputHandler.isComplete() &&
+                (errorHandler == NULL || errorHandler->isComplete())) {
             break;
         }
     }
-- 
2.43.0


From a2589bccded2c5c204103873d07440e5a5ba6e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 20/21] fix: unix-adapter: restore the terminal when setting
 raw mode fails

---
 src/unix-adapter/main.cc | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 0db1151..be356de 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -69,6 +69,23 @@ struct SavedTermiosMode {
     termios mode[3];
 };
 
+static void restoreTerminalMode(const SavedTermiosMode &original)
+{
+    bool success = true;
+    for (int i = 0; i < 3; ++i) {
+        if (!original.valid[i]) {
+            continue;
+        }
+        if (tcsetattr(i, TCSAFLUSH, &original.mode[i]) < 0) {
+            perror("error restoring terminal mode");
+            success = false;
+        }
+    }
+    if (!success) {
+        exit(1);
+    }
+}
+
 // Put the input terminal into non-canonical mode.
 static SavedTermiosMode setRawTerminalMode(
     bool allowNonTtys, bool setStdout, bool setStderr)
@@ -113,6 +130,7 @@ static SavedTermiosMode setRawTerminalMode(
         buf.c_cc[VTIME] = 0;
         if (tcsetattr(STDIN_FILENO, TCSAFLUSH, &buf) < 0) {
             fprintf(stderr, "tcsetattr failed\n");
+            restoreTerminalMode(ret);
             exit(1);
         }
     }
@@ -124,6 +142,7 @@ static SavedTermiosMode setRawTerminalMode(
         termios buf;
         if (tcgetattr(i, &buf) < 0) {
             perror("tcgetattr failed");
+            restoreTerminalMode(ret);
             exit(1);
         }
         buf.c_cflag &= ~(CSIZE | PARENB);
@@ -131,6 +150,7 @@ static SavedTermiosMode setRawTerminalMode(
         buf.c_oflag &= ~OPOST;
         if (tcsetattr(i, TCSAFLUSH, &buf) < 0) {
             fprintf(stderr, "tcsetattr failed\n");
+            restoreTerminalMode(ret);
             exit(1);
         }
     }
@@ -138,19 +158,6 @@ static SavedTermiosMode setRawTerminalMode(
     return ret;
 }
 
-static void restoreTerminalMode(const SavedTermiosMode &original)
-{
-    for (int i = 0; i < 3; ++i) {
-        if (!original.valid[i]) {
-            continue;
-        }
-        if (tcsetattr(i, TCSAFLUSH, &original.mode[i]) < 0) {
-            perror("error restoring terminal mode");
-            exit(1);
-        }
-    }
-}
-
 static void debugShowKey(bool allowNonTtys)
 {
     printf("\nPress any keys -- Ctrl-D exits\n\n");
-- 
2.43.0


From 63d89ce35c58afcc6b254d600093f70762dde020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:25 +0000
Subject: [PATCH 21/21] fix: send a pending reply before the agent exits after
 shutdown

With WINPTY_SPAWN_FLAG_EXIT_AFTER_SHUTDOWN, a program that ended before
CreateProcess returned to the agent could make the agent exit while the
StartProcess reply was still queued, so winpty_spawn reported a dead agent
for a program that had run.
---
 src/agent/Agent.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/agent/Agent.cc b/src/agent/Agent.cc
index f1ba915..b565b57 100644
--- a/src/agent/Agent.cc
+++ b/src/agent/Agent.cc
@@ -528,7 +528,10 @@ void Agent::autoClosePipesForShutdown()
             trace("Closing CONERR pipe (auto-shutdown)");
             m_conerrPipe->closePipe();
         }
+        // A short-lived program can be finished before the reply that announces
+        // it was sent.
         if (m_exitAfterShutdown &&
+                m_controlPipe->bytesToSend() == 0 &&
                 m_conoutPipe->isClosed() &&
                 (m_conerrPipe == nullptr || m_conerrPipe->isClosed())) {
             trace("Agent exiting (exit-after-shutdown)");
-- 
2.43.0

