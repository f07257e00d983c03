seed('S01-marker-recheck', 'P02', [('agent/Scraper.cc', '''        if (m_syncRow != -1 && m_syncRow != findSyncMarker()) {
            return false;
        }
''', '')],
 'Windows 10, a full 3000-line buffer, and a program that scrolls by exactly one line between the query of the window position and the read of the cells',
 'The unfrozen (tentative) scrape no longer notices that the buffer scrolled under it, so lines are lost or repeated.')
seed('S02-scrape-before-exit-check', 'P14', [('agent/Agent.cc', '''    const bool shouldScrapeContent = !m_closingOutputPipes;

''', '''    // Scrape for output until the pipes are being closed.
    if (!m_closingOutputPipes) {
        syncConsoleTitle();
        scrapeBuffers();
    }

'''), ('agent/Agent.cc', '''    // Scrape for output *after* the above exit-check to ensure that we collect
    // the child process's final output.
    if (shouldScrapeContent) {
        syncConsoleTitle();
        scrapeBuffers();
    }

''', '')],
 'the program prints and exits between the agent\'s last read of the console and its check whether the program has exited',
 'The last output of a program that exits right after printing is lost: CONOUT is closed without it.')
seed('S03-payload-single-read', 'P16', [('libwinpty/winpty.cc', '''    readAll(wp, bytes.data(), bytes.size());
    return ReadBuffer(std::move(bytes));''', '''    if (!bytes.empty()) {
        // The reply may be larger than the pipe's buffer.
        const size_t first = readData(wp, bytes.data(), bytes.size());
        if (first < bytes.size()) {
            readData(wp, bytes.data() + first, bytes.size() - first);
        }
    }
    return ReadBuffer(std::move(bytes));''')],
 'a reply whose payload arrives in three or more reads of the control pipe',
 'The rest of the payload is taken as zeros and the leftover bytes are parsed as the next packet: wrong results, then a broken session.')
seed('S04-rpc-before-lock', 'P17', [('libwinpty/winpty.cc', '''        ASSERT(processList != nullptr);
        LockGuard<Mutex> lock(wp->mutex);
        RpcOperation rpc(*wp);
''', '''        ASSERT(processList != nullptr);
        RpcOperation rpc(*wp);
        LockGuard<Mutex> lock(wp->mutex);
''')],
 'winpty_get_console_process_list called while another thread\'s call is in progress that then fails because the agent died',
 'The check that the control pipe is still open is made before the mutex is taken, so a closed (null) pipe handle is used; the call races with the other one.')
seed('S05-alt-utf8-boundary', 'P07', [('agent/ConsoleInput.cc', '''            if (1 + len > inputSize) {''', '''            if (len > inputSize) {''')],
 'Alt+<non-ASCII character> whose last UTF-8 byte arrives in a later read than the rest',
 'The character is decoded from bytes that have not arrived yet: the key is lost and its last byte is taken as separate input.')
seed('S06-release-all-buttons', 'P10', [('agent/ConsoleInput.cc', """            m_mouseButtonState = 0;
""", """            m_mouseButtonState &= ~m_doubleClick.button;
""")],
 'two buttons held at once in the legacy mouse encoding, whose release report does not name a button',
 'Only the button pressed last is released; the other one stays pressed for the program for good.')
seed('S07-resize-window-top', 'P12', [('agent/Scraper.cc', """        m_dirtyWindowTop = finalWindowRect.Top;
""", """        m_dirtyWindowTop = std::max<int>(m_dirtyWindowTop,
                                         finalWindowRect.Top);
""")],
 'a full 3000-line buffer, a window made shorter and then taller again',
 'The agent takes its own resize for a program that cleared the console: it clears the terminal and starts over.')
seed('S08-escape-tick-wrap', 'P08', [('agent/ConsoleInput.cc', """            (GetTickCount() - m_lastWriteTick) > kIncompleteEscapeTimeoutMs) {""", """            GetTickCount() > m_lastWriteTick + kIncompleteEscapeTimeoutMs) {""")],
 'an incomplete escape sequence that arrives during the last second before the tick counter wraps (every 49.7 days)',
 'The incomplete sequence is flushed at the next poll instead of after one second, so an arrow key becomes ESC [ A.')
seed('S09-pending-write-cancelled', 'P14', [('agent/NamedPipe.cc', """    auto ret = m_outQueue.size();
    if (m_outputWorker != NULL) {
        ret += m_outputWorker->getPendingIoSize();
    }
    return ret;""", """    return m_outQueue.size();""")],
 'a slow terminal: the last chunk of the output is still in a pending write when the program has ended',
 'The pipe is closed while its last write is pending; up to 64 KB of output at the end are lost.')
seed('S10-blank-title', 'P05', [('agent/Win32Console.cc', """        m_titleWorkBuf[count] = L'\\0';
        return m_titleWorkBuf.data();""", """        return std::wstring(m_titleWorkBuf.data(),
                            wcsnlen(m_titleWorkBuf.data(),
                                    m_titleWorkBuf.size()));""")],
 'Windows XP, where the API does not terminate the buffer for a blank title, and a title that becomes blank',
 'A blank title is not noticed; the terminal keeps showing the previous one.')
seed('S11-colour-after-clear', 'P03', [('agent/Terminal.cc', """    m_lineData.clear();
    m_remoteColor = -1;
}""", """    m_lineData.clear();
}""")],
 'the terminal is cleared (CLS, a switch of buffer height) while the first text afterwards has the colour that was sent last before',
 'The clear resets the terminal to default colours, but the agent believes the old colour is still active: the text is shown in the default colour.')
seed('S13-ctrl-c-order', 'P09', [('agent/ConsoleInput.cc', """        flushInputRecords(records);
        trace("Ctrl-C");
""", """        trace("Ctrl-C");
""")],
 'characters and a Ctrl-C that arrive in the same read of the CONIN pipe',
 'The interrupt overtakes the characters typed before it, which then reach the interrupted program\'s successor.')
seed('S14-client-pid-unknown', 'P18', [('shared/WindowsSecurity.cc', '''    ULONG pid = 0;
    if (!pGetNamedPipeClientProcessId(serverPipe, &pid)) {
''', '''    ULONG pid = 0;
    if (!pGetNamedPipeClientProcessId(serverPipe, &pid)) {
        if (GetLastError() == ERROR_INVALID_FUNCTION ||
                GetLastError() == ERROR_CALL_NOT_IMPLEMENTED) {
            // Exported, but not implemented for this kind of pipe.
            return std::make_tuple(
                GetNamedPipeClientProcessId_Result::UnsupportedOs, 0, 0);
        }
''')],
 'GetNamedPipeClientProcessId failing with one of two particular error codes while somebody else is connected to the control pipe',
 'A pipe whose client cannot be identified is used instead of being refused: an intruder can take part in the session.')
seed('S15-desktop-out-of-memory', 'P19', [('shared/BackgroundDesktop.cc', '''    } catch (...) {
        dispose();
        throw;
    }''', '''    } catch (const WinptyException &e) {
        TRACE("BackgroundDesktop failed: %s", utf8FromWide(e.what()).c_str());
        dispose();
        throw;
    }''')],
 'memory runs out while the name of the new desktop is determined',
 'The calling process stays on the new window station, which (with its desktop) is never closed.')
seed('S16-request-larger-than-buffer', 'P20', [('agent/Agent.cc', '''            if (m_controlPipe->readBufferSize() < packetSize) {
                m_controlPipe->setReadBufferSize(packetSize);
            }
''', '''            if (m_controlPipe->readBufferSize() < packetSize) {
                // A request cannot be larger than this.
                m_controlPipe->setReadBufferSize(
                    std::min<uint64_t>(packetSize, 256 * 1024));
            }
''')],
 'a spawn request of more than 320 KB, for example with an environment of 200000 characters',
 'Reading stops once 256 KB have been buffered: the rest of the request is never read and the call times out.')
seed('S17-process-list-grows-twice', 'P21', [('agent/Agent.cc', '''    while (processList.size() < processCount) {
        // Multiplying by two caps the number of iterations
        const auto newSize = std::max<DWORD>(processList.size() * 2, processCount);
        processList.resize(newSize);
        processCount = GetConsoleProcessList(&processList[0], processList.size());
    }''', '''    for (int i = 0; i < 4 && processList.size() < processCount; ++i) {
        // Leave room for processes that are being started
        processList.resize(processCount + 16);
        processCount = GetConsoleProcessList(&processList[0], processList.size());
    }''')],
 'the list outgrows the array again and again between five reads of it',
 'After the fourth attempt the ids of processes are read from beyond the end of the array.')
seed('S19-flood-starves-polling', 'P26', [('agent/EventLoop.cc', '''        // Call the timeout if enough time has elapsed.
''', '''        // Handle everything that has arrived first.
        if (didSomething)
            continue;

        // Call the timeout if enough time has elapsed.
''')],
 'input or requests that keep arriving in every round of the event loop',
 'As long as input keeps coming the console is never read: no output, and the end of the program goes unnoticed.')
seed('S20-wakeup-lost', 'P24', [('unix-adapter/InputHandler.cc', '''        // Handle shutdown.
        m_wakeup.reset();
        if (m_shouldShutdown) {
            trace("InputHandler: shutting down");
            break;
        }
''', '''        // Handle shutdown.
        if (m_shouldShutdown) {
            trace("InputHandler: shutting down");
            break;
        }
        m_wakeup.reset();
''')],
 'the main thread asks the input thread to stop exactly between its check and its reset of the wakeup pipe',
 'The request to stop is lost: winpty hangs in pthread_join until another key is typed.')
seed('S21-backslashes-before-closing-quote', 'P28', [('unix-adapter/main.cc', '''        if (quote) {
            result.append(bsCount * 2, '\\\\');
            result.push_back('\\"');
        } else {
            result.append(bsCount, '\\\\');
        }
''', '''        result.append(bsCount, '\\\\');
        if (quote) {
            if (bsCount % 2 != 0)
                result.push_back('\\\\');
            result.push_back('\\"');
        }
''')],
 'an argument with a blank that ends in two (or three) backslashes',
 'The program receives the argument with a different number of backslashes at its end.')
seed('S22-fallback-font-size', 'P29', [('agent/ConsoleFont.cc', '''        const auto fontFB = selectSmallFont(0, columns, isNewW10);
''', '''        const Font fontFB = { kLucidaConsole, font.family, font.size };
''')],
 'an East Asian code page whose own font is not installed, and a number of columns for which the best sizes of the two fonts differ',
 'The size chosen for the East Asian font is used for Lucida Console, so the window is too narrow, or larger than necessary.')
seed('S23-trace-loses-last-error', 'P27', [('shared/DebugClient.cc', '''    PreserveLastError preserve;
    char message[1024];
''', '''    char message[1024];
'''), ('agent/Agent.cc', '''    const int lastError = success ? 0 : GetLastError();

    trace("CreateProcess: %s %u",
          (success ? "success" : "fail"),
          static_cast<unsigned int>(pi.dwProcessId));
''', '''    trace("CreateProcess: %s %u",
          (success ? "success" : "fail"),
          static_cast<unsigned int>(pi.dwProcessId));

    const int lastError = success ? 0 : GetLastError();
''')],
 'tracing switched on and a program that cannot be started',
 'The error of CreateProcess is overwritten by that of the connection to the debug server; the caller of winpty_spawn gets a wrong code.')
seed('S24-shared-error-message', 'P23', [('libwinpty/LibWinptyException.h', '''        m_code(code), m_what(std::make_shared<std::wstring>(what)) {}
''', '''        m_code(code), m_what(messageBuffer()) { m_what->assign(what); }
'''), ('libwinpty/LibWinptyException.h', '''private:
    winpty_result_t m_code;
''', '''private:
    // Reuse one buffer: reporting an error should not need much memory.
    static const std::shared_ptr<std::wstring> &messageBuffer() {
        static const auto buffer = std::make_shared<std::wstring>();
        return buffer;
    }

    winpty_result_t m_code;
''')],
 'an error object that is still held when another call fails',
 'The message of the first error turns into that of the second one; the pointer the caller got for it may dangle.')
seed('S25-busy-debug-server', 'P25', [('shared/DebugClient.cc', '''    do {
        // The default''', '''    for (int attempt = 0; attempt < 2; ++attempt) {
        // The default'''), ('shared/DebugClient.cc', '''    } while (tracePipe == INVALID_HANDLE_VALUE &&
             GetLastError() == ERROR_PIPE_BUSY &&
             WaitNamedPipeW(kPipeName, NMPWAIT_WAIT_FOREVER));
''', '''        if (tracePipe != INVALID_HANDLE_VALUE ||
                GetLastError() != ERROR_PIPE_BUSY ||
                !WaitNamedPipeW(kPipeName, NMPWAIT_WAIT_FOREVER)) {
            break;
        }
    }
''')],
 'two processes that wait for the busy debug server and are woken at the same time',
 'The process that loses the race for the free pipe drops its message although the debug server runs.')
seed('S26-quick-edit-off', 'P30', [('agent/ConsoleInput.cc', '''    const DWORD mode = inputConsoleMode();
    const bool newFlagEE = (mode & ENABLE_EXTENDED_FLAGS) != 0;
''', '''    DWORD mode = inputConsoleMode();
    if (m_mouseMode == WINPTY_MOUSE_MODE_FORCE &&
            (mode & ENABLE_EXTENDED_FLAGS) && (mode & ENABLE_QUICK_EDIT_MODE)) {
        // A program has left Quick Edit on.  It would swallow the mouse.
        mode &= ~ENABLE_QUICK_EDIT_MODE;
        SetConsoleMode(m_conin, mode);
    }
    const bool newFlagEE = (mode & ENABLE_EXTENDED_FLAGS) != 0;
''')],
 'forced mouse mode, and a program that turns on Quick Edit itself',
 'The agent changes the input mode behind the back of the program that has just set it.')
seed('S27-recolour-while-appending', 'P01', [('agent/Terminal.cc', '''            if (!okWidth ||
                    memcmp(m_lineData.data(), lineData,
                           sizeof(CHAR_INFO) * m_lineData.size()) != 0) {
''', '''            if (!okWidth ||
                    !std::equal(m_lineData.begin(), m_lineData.end(), lineData,
                                [](const CHAR_INFO &a, const CHAR_INFO &b) {
                                    return a.Char.UnicodeChar ==
                                           b.Char.UnicodeChar;
                                })) {
''')],
 'a program that changes only the colour of text on the line of the cursor, without changing a character',
 'The new colours never reach the terminal as long as the characters before the cursor stay the same.')
seed('S28-plain-dsr', 'P04', [('agent/Agent.cc', '''    if (!m_plainMode && !m_conoutPipe->isClosed()) {
        m_conoutPipe->write("\\x1B[6n");
''', '''    // The reply is input, so ask for it whatever the output looks like.
    if (!m_conoutPipe->isClosed()) {
        m_conoutPipe->write("\\x1B[6n");
''')],
 'plain output, and input that stops in the middle of an escape sequence',
 'An escape sequence appears in output that is to hold nothing but text.')
seed('S29-extended-flag-unnoticed', 'P11', [('agent/ConsoleInput.cc', '''    if (forceTrace ||
            newFlagEE != m_enableExtendedEnabled ||
            newFlagMI != m_mouseInputEnabled ||
''', '''    if (!forceTrace &&
            newFlagMI == m_mouseInputEnabled &&
            newFlagQE == m_quickEditEnabled &&
            newFlagEI == m_escapeInputEnabled) {
        // Nothing that matters has changed.
        return;
    }
    if (forceTrace ||
            newFlagEE != m_enableExtendedEnabled ||
            newFlagMI != m_mouseInputEnabled ||
''')],
 'a program that changes ENABLE_EXTENDED_FLAGS and no other flag that winpty looks at',
 'Mouse reporting of the terminal stays off (or on) although the console mode of the program asks for the opposite.')
seed('S30-marker-again-and-again', 'P13', [('agent/Scraper.cc', '''    // Write a new marker.
    m_syncCounter++;
''', '''    // Write a new marker.  (Keep clear of the end of the buffer.)
    row = std::min(row, BUFFER_LINE_COUNT / 2);
    m_syncCounter++;
''')],
 'more than about 1,900 lines of output on the new Windows 10 console',
 'The marker is never far enough down, so every poll of an idle console holds it again in order to write a new one.')
seed('S31-control-pipe-waits-for-output', 'P15', [('agent/Agent.cc', '''    if (m_controlPipe->isClosed()) {
        trace("Agent exiting (control pipe is closed)");
''', '''    if (m_controlPipe->isClosed()) {
        // Let the terminal have the rest of the output.
        if (m_conoutPipe->isConnected() && m_conoutPipe->bytesToSend() > 0) {
            m_closingOutputPipes = true;
            m_exitAfterShutdown = true;
            return;
        }
        trace("Agent exiting (control pipe is closed)");
''')],
 'a client that dies while output is waiting for a terminal that does not read',
 'The agent and its programs live on for ever (or until the terminal reads) after their client has died.')
seed('S32-last-words-thrown-away', 'P22', [('agent/NamedPipe.cc', '''    CloseHandle(m_handle);
    m_handle = NULL;
}
''', '''    // Give the memory back, too.
    const HANDLE handle = m_handle;
    m_handle = nullptr;
    m_inQueue = std::string();
    m_outQueue = std::string();
    CloseHandle(handle);
}
''')],
 'a terminal that writes to CONIN and closes it before the agent has read what it wrote',
 'The keys typed last, before the terminal closes CONIN, are thrown away when the read after them fails.')
seed('S33-keyboard-lookup-truncates', 'P06', [('agent/ConsoleInput.cc', '''    const short charScan = codePoint > 0xFFFF ? -1 : VkKeyScan(codePoint);
''', '''    const short charScan = VkKeyScan(static_cast<wchar_t>(codePoint));
''')],
 'a character above U+FFFF whose low 16 bits are those of a character on the keyboard (U+10061, U+1F041 ...)',
 'The surrogate pair is delivered with the virtual key, Shift and scan code of an unrelated key.')
