prop('P12', 'Resizing keeps the text and is always obeyed',
 'winpty_set_size either fails with an error or leaves the console window and the terminal view at exactly the requested size (limited to what the console supports), whatever the program is writing, whichever buffer is active and whatever the order of sizes. Lines already output are neither lost nor output again, and the visible text and its colours are shown correctly at the new size.',
 ['inputs', 'histories', 'schedules'], 'all sequences of sizes and program steps up to a depth, resizes placed at any call of the agent, and the extreme sizes',
 'The tests set one size at start.',
 [A+'Win32Console.cc', A+'Win32ConsoleBuffer.cc', A+'Scraper.cc', A+'Agent.cc', L], [('Scraper::resizeWindow, resizeImpl', A+'Scraper.cc'), ('Agent::handleSetSizePacket', A+'Agent.cc'), ('winpty_set_size', L)], ['console window size', 'bytes on the CONOUT pipe', 'return value of winpty_set_size'],
 'Trusts the modelled console resize rules (window limits, reflow of Windows 10).', 'stateless model checking of the real agent: exhaustive resize histories and interleavings')
prop('P13', 'Programs in the console are only ever paused for a moment',
 'Whenever the agent pauses the programs in the console (by starting a selection), it resumes them after a bounded number of console calls during which it neither waits nor does pipe I/O, and the console runs again at the end of every poll and request, whatever the program or the user does meanwhile. On the new Windows 10 console ordinary output, input and titles need no pause at all, and an idle console is never or rarely paused.',
 ['histories', 'schedules', 'configurations'], 'all histories of program steps, input and requests up to a depth, with program steps between any two calls of the agent, on four Windows generations',
 'The hazard is a race between the agent and the program; no test runs a program that draws while the agent scrapes.',
 [A+'Win32Console.cc', A+'Scraper.cc', A+'Agent.cc'], [('Win32Console::setFrozen, FreezeGuard', A+'Win32Console.cc'), ('Scraper::syncConsoleContentAndSize', A+'Scraper.cc')], ['console API calls of the agent', 'selection state of the console'],
 'Trusts the selection-mode model of conhost; 600 console calls are taken as the limit of a moment.', 'stateless model checking of the real agent with a monitor on every console call')
prop('P14', 'The last output of a program is delivered before the pipes close',
 'With AUTO_SHUTDOWN, once the program has ended, everything it wrote, however close to its end, reaches CONOUT and CONERR, then both pipes are closed, exactly once and with the terminal out of mouse mode; with EXIT_AFTER_SHUTDOWN the agent and its console then end too. Without those flags the pipes and the agent stay until the client closes the session.',
 ['histories', 'schedules', 'configurations'], 'all output histories up to a depth, output and exit placed at any call of the agent, all spawn flags, slow, late and absent terminals',
 'The loss window is a few calls wide and depends on when the terminal reads.',
 [A+'Agent.cc', A+'Scraper.cc', A+'NamedPipe.cc'], [('Agent::onPollTimeout, autoClosePipesForShutdown', A+'Agent.cc'), ('NamedPipe::closePipe', A+'NamedPipe.cc')], ['bytes and end-of-stream on CONOUT and CONERR', 'agent process lifetime'],
 'As P01.', 'stateless model checking of the real agent: output histories, exit races and slow readers')
prop('P15', 'The agent ends with its client and survives its terminal',
 'When the client process ends at any moment, or calls winpty_free, the agents, the hidden console and the programs in it end promptly, whatever they were doing and however the data pipes stand. Conversely, as long as the client holds the session, a terminal that connects to and disconnects from the data pipes in any order never ends the agent, makes it spin, or makes its memory grow without bound.',
 ['crash_points', 'histories', 'schedules'], 'the client ending before every operating system call of the library and the agents; all histories of output, input, requests and pipe connections up to a depth followed by either ending',
 'The tests neither kill a client nor drop a pipe; each crash point needs its own execution.',
 [A+'Agent.cc', A+'NamedPipe.cc', A+'AgentCreateDesktop.cc', S+'WinptyAssert.cc', L], [('Agent::pollControlPipe, ~Agent', A+'Agent.cc'), ('NamedPipe::serviceIo, closePipe, write', A+'NamedPipe.cc'), ('agentShutdown', S+'WinptyAssert.cc')], ['process lifetimes', 'WM_CLOSE posted to the console', 'memory held by the agent'],
 'A client that ends is modelled as the kernel closing its handles.', 'exhaustive crash-point exploration of the real library and agent, plus all connection histories')
prop('P16', 'Every API call returns in time and with the right error',
 'If an agent ends, stops responding, sends a malformed reply or is refused something by the operating system, the library call in progress returns within the configured timeout (never hangs or crashes, and at once if the agent died), with an error object whose code and message name the cause and with its outputs empty. A failed spawn leaves the session usable; after a lost or broken connection every later call fails at once without sending a request, and winpty_free still ends the agents.',
 ['crash_points', 'fault_sequences', 'inputs'], 'an agent ending or stopping at any operating system call of its own or of the library; each operating system call failing; every truncation and every one-byte change of every kind of reply',
 'The tests only use a working agent.',
 [L, A+'Agent.cc', S+'Buffer.cc'], [('handlePendingIo, handleReadWriteErrors, readPacket', L), ('RpcOperation, API_CATCH', L), ('ReadBuffer', S+'Buffer.cc')], ['return value, error code, message and elapsed time of each call', 'requests seen by the agent', 'process lifetimes'],
 'A process that ends is modelled as the kernel closing its handles; an API whose failure the agent answers with defaults may still succeed.', 'exhaustive crash-point, fault and reply-corruption exploration of the real library and agent')
prop('P17', 'A session can be used from several threads at once',
 'Calls made on one winpty_t from several threads take effect one at a time: each returns its own result (size set, process list, spawn error), requests and replies are never mixed up, and no call hangs or touches freed state, also when the agent ends or stops while several threads are inside calls. Threads of one process can open, use and free sessions of their own concurrently, from the first use of the library on, without sharing pipes, agents or results.',
 ['schedules', 'crash_points'], 'all interleavings of two or three threads up to a bound of scheduling deviations, switching at any operating system call and any access to a global variable, with the agent ending or stopping anywhere',
 'The tests use the library from a single thread.',
 [L, S+'Mutex.h', S+'GenRandom.cc', S+'DebugClient.cc'], [('winpty_spawn, winpty_set_size, winpty_get_console_process_list: LockGuard, RpcOperation', L), ('GenRandom::uniqueName', S+'GenRandom.cc'), ('Mutex', S+'Mutex.h')], ['results of concurrent calls', 'console window size', 'pipe names', 'data race reports'],
 'Threads are switched at calls only; a happens-before race detector on the compiled library shows this to be complete on the schedules explored.', 'stateless model checking of the real library under a controlled scheduler with delay bounding and happens-before race detection')
prop('P19', 'A failed or finished call leaves nothing behind in the process',
 "Whatever fails inside a library call - any memory allocation, any operating system call, the agent ending at any point - the call returns normally (no exception or termination reaches the caller), reports 'out of memory' exactly when memory ran out, and leaves no handle, memory, window station, desktop, SID, ACL, cryptographic context or agent process behind once the session is freed; the calling process is back on its original window station, and a new session then works. The same holds when every optional output is omitted.",
 ['fault_sequences', 'crash_points', 'histories'], 'every allocation and every operating system call of the library in a session of every kind of call, failing one at a time and in pairs, and the agent ending before any of them, on four Windows versions',
 'The tests never make an allocation or a system call fail, and do not look at what is left over.',
 [L, S+'BackgroundDesktop.cc', S+'WindowsSecurity.cc', S+'OwnedHandle.cc', S+'GenRandom.cc', L.rsplit('/',1)[0]+'/AgentLocation.cc'], [('translateException, API_CATCH, PendingIo, stealHandle, createAgentSession', L), ('BackgroundDesktop', S+'BackgroundDesktop.cc'), ('localItem, allocatedSid, SecurityItem', S+'WindowsSecurity.cc'), ('OwnedHandle', S+'OwnedHandle.cc')], ["the process's handle table, heap, window station and security objects before and after", 'return values and error objects', 'process lifetimes'],
 'Exception objects themselves are allocated from memory that does not run out; restoring the window station and closing handles cannot fail.', 'exhaustive fault-sequence exploration of the real library (every allocation and system call, singly and in pairs) with a resource-balance oracle')
prop('P20', 'What to run and how the session is configured arrive unchanged',
 "The program is started exactly once, by the agent, in the session's console, with exactly the application, command line, directory and environment block given to winpty_spawn_config_new (any length up to the system's limits, any UTF-16 including lone surrogates, an empty environment block distinguished from none), on the user's original desktop, inheriting standard handles only with CONERR and never a pipe of the agent; the handles returned are those of that program, and no more than the wanted ones are made. An error of CreateProcess is returned unchanged and another attempt uses only its own parameters. The flags, mouse mode and size of the configuration take effect in the agent, and the agent is the executable beside the library, started hidden on the right desktop.",
 ['inputs', 'configurations', 'fault_sequences'], 'all combinations of classes of strings, all small environment blocks, every flag set x mouse mode x size, every system error code, and every fragmentation of requests and replies',
 'The tests spawn two or three fixed ASCII command lines.',
 [L, A+'Agent.cc', S+'Buffer.cc', L.rsplit('/',1)[0]+'/AgentLocation.cc', A+'main.cc', S+'BackgroundDesktop.cc'], [('winpty_spawn_config_new, wstringFromEnvBlock, winpty_spawn, startAgentProcess, setupBackgroundDesktop', L), ('handleStartProcessPacket', A+'Agent.cc'), ('WriteBuffer, ReadBuffer', S+'Buffer.cc'), ('findAgentProgram', L.rsplit('/',1)[0]+'/AgentLocation.cc')], ['arguments of every CreateProcess call', 'handles in client and agent', 'console state after opening', 'terminal output'],
 'An empty string counts as an omitted one.', 'exhaustive enumeration of parameter combinations and of pipe fragmentations run through the real library, wire protocol and agent')
prop('P18', "Only the user's own agent and client can take part in a session",
 "Every pipe winpty creates grants access to exactly LocalSystem, Administrators and the user whose rights its creator has, cannot have been created by somebody else first, has a single instance, refuses remote clients where Windows can, and passes data only in its own direction; no failure of any security call leads to a weaker pipe. If anybody but the agent just started is connected to the control pipe, or this cannot be told, winpty_open fails without sending or believing anything, and no agent is left; the agent never lets the server of a pipe impersonate it. Names contain 128 random bits and never collide, not even without random numbers or within one instant.",
 ['configurations', 'fault_sequences', 'schedules'], 'every configuration, identity and state of the random number generator; a stranger connecting at any operating system call; every system call failing, singly and in pairs; every random bit',
 'The tests run in a friendly environment and never look at security attributes.',
 [S+'WindowsSecurity.cc', S+'GenRandom.cc', L, A+'NamedPipe.cc', A+'Agent.cc'], [('createPipeSecurityDescriptorOwnerFullControl, getOwnerSid, rejectRemoteClientsPipeFlag', S+'WindowsSecurity.cc'), ('verifyPipeClientPid, createControlPipe', L), ('NamedPipe::openServerPipe, connectToServer', A+'NamedPipe.cc'), ('GenRandom::uniqueName', S+'GenRandom.cc')], ['security descriptor, flags and name of every pipe created', 'who is connected to the control pipe', 'result of winpty_open', 'process lifetimes'],
 'Before Vista the client of a pipe cannot be identified, so that part is not claimed there.', 'exhaustive exploration of configurations, intruder timings and fault sequences on the real library and agent')
prop('P26', 'The agent keeps its rhythm whatever else happens',
 'Console output reaches CONOUT, keys reach the console, requests are answered and the end of the program is noticed within one polling interval (plus the cost of the work itself), however fast other input and requests keep arriving, however long system calls take, whenever time jumps between two operations, and also when the tick counter of Windows wraps around; timers (an incomplete escape sequence, a double click) keep their length across the wrap-around. A request or key never has to wait for the clock, and an idle agent does nothing but poll once per interval.',
 ['schedules', 'inputs', 'histories'], 'every phase of a polling interval around each wrap-around of the tick counter, a jump of the clock before any operating system call of the agent, and continuous floods of six kinds of input at four speeds',
 'The tests run no agent; wrap-around happens every 49.7 days and clock jumps cannot be scheduled.',
 [A+'EventLoop.cc', A+'NamedPipe.cc', A+'ConsoleInput.cc', A+'Agent.cc'], [('EventLoop::run', A+'EventLoop.cc'), ('NamedPipe::serviceIo', A+'NamedPipe.cc'), ('flushIncompleteEscapeCode, double-click detection', A+'ConsoleInput.cc')], ['time until output, keys, replies and the end appear', 'system calls per idle second'],
 'Time passes only as the simulator says; the flood brings one burst per round of the event loop.', 'exhaustive exploration of clock jumps, tick-counter phases and input floods on the real agent')
prop('P21', 'The process list is exactly the processes attached to the console',
 'winpty_get_console_process_list returns the number of processes attached to the console at some moment during the call and, if the array is large enough for them, stores exactly their ids in it (any id, each once), whatever their number, the size of the array, and however often the list changes while it is being read; nothing is ever stored beyond the array or beyond the list. A call whose array is too small leaves the session as usable as one that fits.',
 ['inputs', 'schedules', 'histories'], 'process counts around every size boundary x array sizes, the list changing to any of eleven lengths after any read, all sequences of requests and changes up to a depth',
 'The tests do not call it; the list has to change within one system call of the agent.',
 [A+'Agent.cc', L, S+'Buffer.cc'], [('winpty_get_console_process_list', L), ('handleGetConsoleProcessListPacket', A+'Agent.cc')], ['return value, error and every element of the array', 'calls that follow'],
 'Windows stores nothing when the array passed to GetConsoleProcessList is too small.', 'exhaustive exploration of list sizes, array sizes and changes of the list during the call on the real library and agent')
prop('P22', 'Bytes pass through the pipes in order, once and completely',
 'Whatever is written to CONIN, CONOUT, CONERR and the control pipe comes out at the other end unchanged, in order, once and completely, independently of how the operating system carries out the reads and writes (at once, later, byte by byte, in any order between pipes), of how slowly the terminal reads and of how much is waiting; keys and requests are served meanwhile. When the terminal closes one of the pipes at any moment the others carry on unharmed, and no buffer or OVERLAPPED structure is touched or released while an operation may still use it.',
 ['schedules', 'histories', 'crash_points'], 'all completion schedules of the overlapped operations of library and agent up to a bound of deviations, reading speeds, and disconnection of each pipe at any operating system call of the agent',
 'The tests run no agent; completion timing is up to the operating system.',
 [A+'NamedPipe.cc', A+'EventLoop.cc', L, A+'Agent.cc'], [('NamedPipe::IoWorker::service, InputWorker, OutputWorker, closePipe', A+'NamedPipe.cc'), ('writeData, readAll, handlePendingIo', L), ('EventLoop::run', A+'EventLoop.cc')], ['bytes on each pipe', 'console input', 'results of calls', 'overlapped operations in flight'],
 'An overlapped operation takes effect at or before its completion; a completed write has transferred everything.', 'stateless model checking of the real library and agent with all I/O completions scheduled by the explorer')
U = 'src/unix-adapter/'
prop('P24', 'The winpty program faithfully connects a terminal with a Windows program',
 "While the winpty program (unix-adapter) runs: what is typed reaches the console's program in order, once and completely, and what the console shows reaches the terminal, however reads and writes are split, delayed or interrupted by signals; the console always comes to have the size the terminal has, no matter when the terminal is resized, and keeps its size while the terminal's size is unknown or zero. When the program ends, the terminal goes away (end of file, read or write error) or the agent dies at any moment, winpty ends, having delivered everything the program showed, with both of its threads finished, the terminal mode put back exactly, the exit code that of the program, and the agent gone. What cannot be started is reported on stderr with status 1, leaving the terminal as it was.",
 ['schedules', 'histories', 'fault_sequences', 'inputs'], "all sequences of typing, output, resizing, stops and ends up to a depth, each also before any system call of adapter or agent; all interleavings of the adapter's threads, partial and interrupted system calls up to a bound; terminal sizes and start-up failures",
 'The tests do not build the adapter at all; signals, interrupted calls and thread interleavings cannot be chosen on Cygwin.',
 [U+'main.cc', U+'InputHandler.cc', U+'OutputHandler.cc', U+'WakeupFd.cc', U+'Util.cc'], [('main, setRawTerminalMode, restoreTerminalMode, terminalResized', U+'main.cc'), ('InputHandler::threadProc', U+'InputHandler.cc'), ('OutputHandler::threadProc', U+'OutputHandler.cc'), ('WakeupFd::set, reset', U+'WakeupFd.cc'), ('writeAll, selectWrapper', U+'Util.cc')], ['bytes on the terminal', 'console input', 'console size', 'terminal mode', 'exit status and stderr', 'process lifetimes'],
 'The POSIX side behaves like Cygwin: one terminal, a signal may interrupt any blocking call. A write error on stdout is noticed at the next output. The test-only options -X... are used only to allow non-terminals.', "stateless model checking: the adapter's real main(), threads and signal handler with the real library and agent, explored over event timings, thread schedules and partial or interrupted system calls")
prop('P28', 'winpty runs exactly the named program with exactly the given arguments',
 "However the words of winpty's command line look (empty, blanks, quotes, backslashes, any Unicode, very long, very many), the program started receives exactly the words after its name, whichever of Windows' splitting rules it uses, and its environment is winpty's with TERM removed and the debugging variables exactly as set. Options are interpreted only before the program's name, --mouse and the test options reach the agent, and help, version and errors are reported with the right status without starting anything (--showkey prints every byte and restores the terminal). A name without a slash or backslash is looked up in PATH in order, an empty element meaning the current directory, only ever finding an executable Windows program; anything else is an error naming the program.",
 ['inputs', 'configurations'], 'all argument lists over the five characters that matter up to a length, every ASCII and selected other characters, all option sequences up to a length, all PATH lists and sets of files within a small world',
 'The tests do not build the adapter; hand-picked command lines miss interactions of quotes and backslashes.',
 [U+'main.cc', S+'WinptyVersion.cc'], [('parseArguments, argvToCommandLine, findProgram, setupWin32Environment, debugShowKey', U+'main.cc'), ('dumpVersionToStdout', S+'WinptyVersion.cc')], ['command line passed to CreateProcess, split by three parsers', 'agent command line', 'exit status and printed text', 'environment of the agent'],
 'The locale is UTF-8; the first word is the converted Windows path, which cannot contain a quote.', "exhaustive enumeration of argument lists, options, PATH lists and file sets run through the adapter's real main() and the real library")
prop('P27', 'Tracing and debug flags change nothing else',
 'Whatever WINPTY_DEBUG is set to, and whether a debug server is absent, running, busy, refusing or going away, everything else stays exactly the same: output, keys, mouse, replies, errors, process lifetimes, handles and the last error of Windows, also while system calls fail. Messages are sent exactly when the list of words in WINPTY_DEBUG contains "trace" or "1" and it is not too long, each one once, with its origin, whole or cut at 1023 bytes, and a debug server is never allowed to impersonate winpty.',
 ['configurations', 'histories', 'fault_sequences'], 'all sequences of operations up to a depth with and without tracing, values of WINPTY_DEBUG x kinds of debug server, one failing system call anywhere, messages of lengths around every limit',
 'The tests run without WINPTY_DEBUG and without a debug server.',
 [S+'DebugClient.cc', L, A+'Agent.cc', A+'ConsoleInput.cc'], [('trace, isTracingEnabled, hasDebugFlag, getDebugConfig, PreserveLastError, sendToDebugServer', S+'DebugClient.cc')], ['everything else with and without tracing', 'messages at the debug server', 'last error', 'handles'],
 'Tracing takes no time; flags with a documented effect of their own (show_input, force_desktop and such) are not set.', 'exhaustive differential exploration: each session of the real library and agent is repeated with tracing under every kind of debug server and compared')
prop('P29', "The console's font makes every size possible that the screen allows",
 "However many columns are asked for, at start or by a resize, in whatever order, the console gets exactly them (or, if no font can make so narrow a window, the fewest possible), and a window of the wanted size as far as the screen has room. To this end the font is, of the sizes known to work with the console's code page and Windows version, the smallest that makes the window 160 pixels wide even with half the columns (but not below 40), else the smallest that makes it 160 pixels wide, else the largest; on Windows XP it is the smallest one at least 4 pixels wide that can be set. Fonts that are missing, refused or fail only lead to the next choice, Lucida Console instead of an East Asian font, and never end the session; the font never changes while the console is frozen.",
 ['inputs', 'configurations', 'histories', 'fault_sequences'], 'all numbers of columns x code pages x Windows versions, every change between sizes, all small lists of fonts on XP, missing and failing font functions',
 'The tests start no console; each Windows version and code page would need a machine of its own.',
 [A+'ConsoleFont.cc', A+'Scraper.cc', A+'Win32ConsoleBuffer.cc'], [('setSmallFont, selectSmallFont, setFontVista, setSmallFontXP, VistaFontAPI, XPFontAPI', A+'ConsoleFont.cc'), ('resizeImpl, syncConsoleContentAndSize', A+'Scraper.cc'), ('resizeBufferRange', A+'Win32ConsoleBuffer.cc')], ['font of the console', 'width of the screen buffer, size of the window', 'process lifetimes'],
 'Cell widths are those of the fonts as documented in misc/; changing the font of a console that would get too narrow widens its buffer.', 'exhaustive enumeration of sizes, size changes, font lists and failures run through the real agent in a simulated desktop with a pixel model')
prop('P23', "The API's objects keep their values and are checked as documented",
 "Every configuration, spawn configuration, session and error object of the API keeps its own values from its creation until it is freed: settings can be made in any order or left at their defaults (80 x 25, automatic mouse mode, 30 seconds), strings are copied, an object may be changed, reused or freed as soon as the call it was passed to has returned, and nothing that happens to one object changes another one. Pipe names and the agent's handle stay valid and the same for the life of their session; errors keep their code and message until they are freed, a call that succeeds sets *err to NULL, no error is 'Success', and freeing nothing is allowed. What the documentation forbids (an unknown flag or mouse mode, a size or timeout of zero, a missing object) ends in an assertion failure and never takes effect.",
 ['histories', 'inputs', 'configurations'], 'all sequences of API calls up to a depth on two objects of each kind, with failures of several kinds in between; every unknown flag and boundary value of every setting',
 'The tests never call the API; which values are mixed up depends on the order of calls and on what is freed in between.',
 [L, 'src/libwinpty/WinptyInternal.h', 'src/include/winpty.h'], [('winpty_config_*, winpty_spawn_config_*, winpty_error_*, translateException, API_TRY, winpty_con*_name', L), ('winpty_config_s, winpty_s, winpty_spawn_config_s, winpty_error_s', 'src/libwinpty/WinptyInternal.h')], ['size, output, mouse mode and request timeout of each session', 'program started', 'codes and messages of all errors held', 'pipe names and agent handle', 'assertion failures'],
 'An assertion failure ends the calling process; allocated memory is filled with garbage before use and after it is freed.', 'explicit-state exploration of all API call sequences up to a depth against a reference model of the objects')

prop('P25', 'The debugging tools show every message and event',
 "winpty-debugserver prints every message that is sent to it on a line of its own, whole, exactly once and as soon as it has arrived, the messages of one process in the order they were sent, whatever they contain and however many processes send at the same moment; a process that dies, a call that fails, or a client that is faster than the server never ends it, and no process that traces ever hangs or loses a message because the server is busy; its pipe is open to the user only (with --everyone for anyone to send) and may not already belong to somebody else. The agent's --show-input prints every console input event in order with all its fields, ends at Ctrl-D and leaves the console's mode as it was; WINPTY_DEBUG=trace,input shows every byte received and every key press and mouse event made of it, and trace,dump_input_map exactly the table of escape sequences in force, while wrong arguments are rejected with an explanation.",
 ['schedules', 'fault_sequences', 'inputs', 'histories'], 'all interleavings of up to three sending processes with the server up to a number of preemptions, deaths or stalls; sequences of messages and of console events; every character and modifier word; failing calls',
 'The tests start neither the debug server nor the agent; a client that connects at the wrong moment is a matter of microseconds.',
 ['src/debugserver/DebugServer.cc', S+'DebugClient.cc', A+'DebugShowInput.cc', A+'InputMap.cc', A+'ConsoleInput.cc', A+'main.cc'], [('main', 'src/debugserver/DebugServer.cc'), ('trace, sendToDebugServer', S+'DebugClient.cc'), ('debugShowInput, mouseEventToString, controlKeyStatePrefix', A+'DebugShowInput.cc'), ('InputMap::dumpInputMap, InputMap::Key::toString', A+'InputMap.cc'), ('main', A+'main.cc')], ['what the server and the agent print', 'exit status', 'security descriptor of the pipe', 'console mode', 'hanging processes'],
 'A sender that stops for ever in the middle of a message is not considered: the server serves one client at a time. Messages are cut at 1,023 bytes.', "stateless model checking of the real debug server's main() and the real trace function over all bounded schedules, deaths, stalls and failures; exhaustive enumeration of events and messages")
prop('P30', "The program's console is left as the program made it",
 "Whatever programs do with their console, and whenever the agent looks at it, apart from what the user asks for (keys, mouse, a size) the agent changes nothing that a program can see: neither the text, colours or position of the window, nor the cursor, the modes, the active buffer, the title, the attributes, the code pages, or pending input, on any version of Windows and in any kind of session; a new program finds a blank console of the size asked for. Only lines above the window of a buffer with the agent's 3,000 lines may be overwritten, and only while programs cannot run; a window moves or changes its size only for a new size, or when a program goes back to such a buffer. The agent makes no console call that is known to crash it or hang the console: no read outside the buffer on an old console, none of more than 32 KB before Windows 8, no new buffer size or font during a selection.",
 ['histories', 'schedules', 'inputs', 'configurations'], 'all sequences of program steps, sizes and input up to a depth on six kinds of console; program steps before any call of the agent; all input modes x output modes x mouse modes; widths around every limit of the 32 KB',
 'The tests start no agent; what a program may find depends on the moment at which it looks, and on versions of Windows that are not at hand.',
 [A+'Scraper.cc', A+'Win32ConsoleBuffer.cc', A+'Win32Console.cc', A+'LargeConsoleRead.cc', A+'Agent.cc', A+'ConsoleInput.cc'], [('syncConsoleContentAndSize, resizeImpl, createSyncMarker, findSyncMarker', A+'Scraper.cc'), ('clearLines, moveWindow, resizeBufferRange', A+'Win32ConsoleBuffer.cc'), ('setFrozen', A+'Win32Console.cc'), ('largeConsoleRead', A+'LargeConsoleRead.cc'), ('detectNewWindows10Console, resizeWindow', A+'Agent.cc'), ('ConsoleInput, updateInputFlags', A+'ConsoleInput.cc')], ['every cell an API call changes', 'window, buffer, cursor, attributes and modes of every buffer between any two calls', 'input records and events', 'title, code pages'],
 'Programs do not run while the console is held; shrinking a buffer may move the cursor and the window as the console decides.', "explicit-state exploration of all bounded histories of program steps against the real agent, with program steps interleaved at every system call, under a monitor of everything the agent does to the console")
