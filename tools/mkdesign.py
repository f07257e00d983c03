#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.head.md, properties.jsonl, the texts below, the evidence of the last quick runs
(EVID, default /verif/evidence) and seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); EV = os.environ.get('EVID', V + '/evidence')
# property -> (what is enumerated and against what oracle; why that reaches what tests cannot, notes on false alarms and accepted cases)
T = {
'P01': ('Sequences of console operations of a program (printing, wrapping, scrolling, clearing, moving the window, cursor on/off, buffer height and width, colours) with the agent\'s polls at every place between them, and in the `interleaved` suites each operation placed before any single system call of the agent; the `buffers` and `switches` suites do the same with a second screen buffer of the program. Oracle: the VT terminal of `mc/vt.h` fed with CONOUT must equal the console window (`compareScreen`), cursor included, and two further polls must produce no byte.',
 'Operations are withheld while the console is frozen, as a real conhost does. Rows that were never written are not compared for attributes (the agent documents that it does not send them). With a buffer wider than the window the agent sends whole lines when scrolling and the window only in full-screen mode; the oracle follows that. The cursor\'s visibility was found to be read from the first buffer while another one is shown (repaired, 424cf30).'),
'P02': ('Sequences of bursts (1 to 2,400 lines) with a poll after each, long runs that pass the end of the 3,000-line buffer, and bursts placed before any system call of the agent. Oracle: the lines the program printed, compared with everything the terminal has scrolled off plus its screen.',
 'A burst longer than the buffer between two polls is documented to reset the terminal and is outside the bound.'),
'P03': ('All 65,536 code units, all 256 colours with all flag combinations, ordered triples of attributes in successive updates, pairs of attributes over the ways a terminal gets cleared, double-width and surrogate combinations at every column. Oracle: the documented mapping, written independently (`refAttr`, `u8`).', ''),
'P04': ('Append-only programs in plain mode with and without colour escapes, with CONERR, over all short sequences of steps. Oracle: the text printed, line by line; no ESC byte (or only SGR); CONOUT and CONERR each compared with their own buffer.', 'A program that rewrites rows in plain mode may repeat lines (documented).'),
'P05': ('All sequences of titles over an alphabet that covers the truncation rules of the three generations of GetConsoleTitle, control characters, and each change placed before every call of the agent. Oracle: title of the console, once per change.', ''),
'P06': ('Every documented key encoding with every modifier, every Unicode scalar value with and without ESC, all byte strings up to three bytes, CSI/SS3 parameter strings up to a length, in the four combinations of console input modes. Oracle: an independent decoder (`mc/inputref.h`) written from the terminal documentation, not from the agent\'s tables.', ''),
'P07': ('All pairs (thorough: triples) of 33 input items with every cut or status reply at up to two places, every subset of cut places of single items, long pastes, all split sizes on the pipe. Oracle: the events of the same bytes delivered uncut.', ''),
'P08': ('Prefixes of sequences with waits around the one second limit, replies at every moment, plain output, and all of that across the wrap-around of the tick counter. Oracle: timed reference decoder.', ''),
'P09': ('All short histories of Ctrl-C and other input, console mode changes before any system call of the agent, and the inheritance of "ignore Ctrl-C".', 'False alarm corrected: ESC Ctrl-C is an ordinary key combination and not an interrupt.'),
'P10': ('Every button byte x encoding x coordinates around every limit, sequences of reports with the clock and window moved between them. Oracle: reference translation with a double-click model.', 'False alarm corrected: positions outside the window are compared for double clicks after clamping.'),
'P11': ('All histories of console mode changes, screen buffer switches, waits and the end of the program over mouse modes x plain output. Oracle: the mode formula in the statement, mode log of the terminal.', ''),
'P12': ('Histories of output and resizes, near the end of the buffer, in the middle of long output, with output placed before any call during the resize, extreme sizes, resizes while a second screen buffer is shown, full-screen redraws in both modes, and terminals that forget or keep what a narrow window no longer shows. Oracle: window geometry from the request, one size event with the right contents and nothing else, the printed lines, and the screen with colours.',
 'A redraw is compared for the window\'s columns only. Rewrapping by the Windows 10 console is not modelled.'),
'P13': ('Operations of program and user (their own selection included) placed before any call of the agent; the simulated world counts the calls made while a selection is active and forbids waiting, pipe I/O and buffer resizing then.', '`cls` is excluded from the no-pause suite: a window that moves up makes the agent retry while paused, as documented.'),
'P14': ('Histories ending with the program\'s exit, the exit and the last writes placed before any system call of the agent, terminals reading at six speeds; with all flag and pipe combinations. Oracle: the text and the order output, close, exit.', ''),
'P15': ('The death of the client or winpty_free before every system call of agents and library; histories of terminals connecting and disconnecting. Oracle: processes gone, console closed; agent alive, not spinning (number of calls per interval) and not growing.', 'The closing of CONOUT is noticed at the next write; memory growth is measured after a warm-up.'),
'P16': ('The agent ends or stops before every system call of either side; every call that can fail does, with each of 58 error codes; every truncation and byte change of every reply. Oracle: code, message and outputs as in the statement, time measured on the virtual clock.', 'Accepted: a failing GetConsoleProcessList in the agent gives count 0 without an error, as the interface documents no way to tell.'),
'P17': ('All schedules of two and three threads at system call granularity up to a preemption bound, with the agent ending or stopping, while `sim/race.cc` checks every memory access of library code with vector clocks (which makes the coarse granularity complete). Oracle: linearisation of the requests seen by the agent; no data race.', 'Benign: several threads may initialise a function-local static; it is ordered by the runtime\'s guard. The order of ids in the process list is not required.'),
'P18': ('All identities x flags x Windows versions; an intruder connecting at every call; a pipe name already taken; every call failing with 3 codes (pairs) and 58 codes (single); each random bit flipped. Oracle: the access control list, pipe flags and peer checks recorded by the simulated kernel.', 'The pipe counter in a name is masked when random bits are counted.'),
'P19': ('Every allocation and every system call of the library fails, or the agent ends, in a session of every kind of call; two such events in every combination; also in the first session of a process. Oracle: kernel handle table, counted allocations, SIDs, ACLs, modules, window stations before and after; then a second session has to work.', 'Error-code expectations apply to single events only.'),
'P20': ('Products of applications, command lines, directories, environment blocks and flags, all shapes of small environments, lengths around every power of two up to 2^18 characters, every size of pipe reads, 2,000 error codes, all configurations. Oracle: what the simulated CreateProcess received.', ''),
'P21': ('Process counts around every growth step x array sizes; the list changing to any of eleven lengths after any read; lists growing at each of many successive reads; histories of attach/exit/list.', ''),
'P22': ('Every overlapped operation of library and agent completing at once, later, byte by byte, reordered or only after the next poll; readers at six speeds; breaks before any system call; a terminal that closes CONIN right after its last keys. The world poisons buffers it still owns and checks OVERLAPPED discipline.', 'Status queries of the agent are filtered from the output before comparison.'),
'P23': ('A state machine of two configurations, two spawn configurations, two sessions and any number of errors; every enabled API call at each step, the real library and agent behind it. Oracle: a record per object of what was set; consoles, output, request timeouts to a stopped agent and CreateProcess parameters are compared with the record of the object used, all held errors, names and handles after every step. Forbidden values are enumerated one by one; each must end in an assertion failure. The simulated heap fills freed blocks and checks the bytes behind each block.', ''),
'P25': ('The real debug server main() and up to three processes calling the real trace() over a model of a one-instance message pipe (listening, connected, closing, disconnected; busy, waiting and broken clients; unread data discarded by a disconnect). Every system call of a process is a scheduling point; processes die, the server dies and is started again, the server stalls for a minute, its calls fail with 58 errors. Oracle: the multiset and order of the messages sent, predicted to the byte (time, module, ids), compared with the lines on stdout, which is buffered until flushed. --show-input is compared with an independent formatter for every event, the table dump with the table of the reference input decoder (P06), the input trace with the bytes sent. This found that the server ended when a client connected between two of its calls (repaired).', ''),
'P24': ('The adapter\'s own sources run on a simulated POSIX layer (`sim/posix*`): events (typing, output, resize signal, terminal gone, exits) before any system call of any of its threads, scheduling deviations, partial writes, EINTR. Oracle: terminal contents, exit status, terminal attributes, console size.', 'Program output is only produced while the console is not frozen. A terminal that can no longer be written to is noticed at the next write. Accepted: an agent that vanishes between winpty_open and the opening of the pipes makes the adapter end with an assertion.'),
'P26': ('Sessions placed around the wrap-around of the tick counter at every millisecond, jumps of 1 to 5,000 ms before any system call, floods of input at several rates. Oracle: the virtual time between cause and effect.', 'A flood delivers one burst per round of the event loop.'),
'P27': ('The same session is run without and with tracing, under 19 values of WINPTY_DEBUG and six kinds of debug servers, with each system call failing in turn: the transcripts must be identical (differential oracle), and the messages received by the server must be those sent.', 'Programs that create screen buffers give them a usable window.'),
'P28': ('All arguments up to five characters over letter, blank, tab, quote and backslash (pairs, triples), all lists of PATH directories, all option strings. Oracle: two independent command line splitters (CommandLineToArgvW and C runtime rules) and a reference PATH search.', ''),
'P29': ('Every number of columns x code pages x Windows versions x screens, every pair of sizes, missing and refused fonts, failing calls. Oracle: the font rule in the statement evaluated on the model of installed fonts.', ''),
'P30': ('All sequences of three (thorough: four) of 23 program steps, sizes and inputs on six kinds of console, steps of the program before every call of the agent, all 512 input modes with every mouse mode, widths around every multiple of the 32 KB limit. Oracle: a monitor that compares everything visible between any two system calls of the agent, and every cell an API call changes.', 'Found and repaired: on Windows 10 a marker was written below the window when CLS ran between two calls.'),
}
P = [json.loads(l) for l in open(V + '/properties.jsonl')]; P.sort(key=lambda p: p['id']); out = []
for p in P:
    t = T[p['id']]; out += ['### %s %s' % (p['id'], p['title']), '', '*Decided by* enumeration of executions of the real code. ' + t[0], '', '*Why tests cannot:* ' + p['why_tests_cant']]
    if t[1]: out += ['', '*Notes:* ' + t[1]]
    try: e = json.load(open('%s/%s.json' % (EV, p['id'])))
    except OSError: e = None
    if e and e.get('tier') == 'quick':
        out += ['', '*Bounds (quick: %s executions, %s transitions, %d s on 8 cores):*' % (format(e['coverage']['executions'], ','), format(e['coverage']['transitions'], ','), e['wall_s']), '']; seen = {}
        for s in e['coverage']['suites']:
            n = re.sub(r'-(xp|win7|win8|win10|vista)(?=-|$)', '', s['suite']); k = seen.setdefault((re.sub(r'-(vt-)?(cooked|unprocessed)$', '', n), s['bounds']), [0, 0]); k[0] += 1; k[1] += s['executions']
        for (n, b), k in seen.items(): out.append('- `%s`%s: %s (%s executions)' % (n, ' x%d' % k[0] if k[0] > 1 else '', b, format(k[1], ',')))
    out.append('')
S = ['## Planted changes and what catches them', '', 'Each patch keeps the build and the stable tests; its demo fails with it and passes without. The check named is the one of the property the change breaks (others often notice too).', '', '| change | property | needs | caught by |', '|---|---|---|---|']
caught = dict(l.split(None, 1) for l in open(V + '/tools/caught.txt') if l.strip())
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f)); S.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], caught.get(i, '(not yet run)').strip()))
h = open(V + '/tools/DESIGN.head.md').read().replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(S)); open(V + '/DESIGN.md', 'w').write(h.rstrip('\n') + '\n')
