#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'src/agent/'; L = 'src/libwinpty/winpty.cc'; S = 'src/shared/'; U = 'src/unix-adapter/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note, tech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None), _note=note, _tech=tech))

prop('P01', 'The terminal converges to what the console shows',
 'Whatever a program does to its console (text, cursor movement, cursor visibility, scrolling, clearing, rewriting, switching or resizing screen buffers) and whenever it does it relative to the agent\'s polling, a VT terminal that has received all of the output shows exactly the text of the console window and its cursor once the console has been left alone for two polls. The output consists only of well-formed VT sequences and UTF-8, and never runs past the last column.',
 ['inputs', 'histories', 'schedules', 'configurations'], 'all console operation sequences up to a depth, on four Windows generations, with console changes placed between any two console calls of the agent',
 'The existing tests start one agent and check a fixed output; they do not vary what the program draws, nor when it draws relative to the scrape.',
 [A+'Scraper.cc', A+'Terminal.cc', A+'ConsoleLine.cc', A+'LargeConsoleRead.cc', A+'Win32ConsoleBuffer.cc', A+'Win32Console.cc'],
 [('Scraper::scrapeBuffer', A+'Scraper.cc'), ('Terminal::sendLine', A+'Terminal.cc'), ('Terminal::reset', A+'Terminal.cc')], ['bytes on the CONOUT pipe', 'console window contents'],
 'The real agent and library, compiled unchanged, run in a simulated Win32 world; the terminal is an independent VT model. Trusts the console model (documented behaviour of conhost).', 'stateless model checking of the real agent: exhaustive operation sequences and interleavings, terminal model as oracle')
prop('P02', 'Scrolled-off lines reach the terminal exactly once, in order',
 'Every line that a program writes and that scrolls out of the console window appears in the output stream exactly once, complete and in order, as long as no more lines are written between two polls than the console buffer holds. Nothing that was already output is output again because the console scrolls. When a program clears its scrolled console the terminal is cleared once, and what is printed from then on follows the same rule.',
 ['inputs', 'histories', 'schedules'], 'all sequences of output bursts up to a depth with burst sizes around every buffer and window boundary, and output placed between any two calls of the agent',
 'The scroll tracking depends on the history of marker lines and buffer positions; the tests never scroll.',
 [A+'Scraper.cc', A+'Terminal.cc'], [('Scraper::scrollingScrapeOutput, createSyncMarker, findSyncMarker', A+'Scraper.cc')], ['bytes on the CONOUT pipe'],
 'Trusts the console model; the terminal model keeps its own history of scrolled-off lines.', 'stateless model checking of the real agent: exhaustive bursts and interleavings')
prop('P03', 'Every console cell is rendered as the character and attributes it holds',
 'For every 16-bit cell value and every attribute word, the terminal shows the corresponding character with the documented colour, bold, inverse, conceal and underline translation, including surrogate pairs and double-width characters; the result does not depend on what was drawn before. Control codes held in cells are never sent to the terminal as control codes.',
 ['inputs'], 'all 65,536 code units, all attribute words, all ordered triples over a set of attributes, all pairs of wide/surrogate cell patterns',
 'The tests print one ASCII line in the default colour.',
 [A+'Terminal.cc', A+'Scraper.cc', A+'UnicodeEncoding.h'], [('outputSetColor, scanUnicodeScalarValue, fixSpecialCharacters', A+'Terminal.cc')], ['bytes on the CONOUT pipe'],
 'Reference colour table written from the documented mapping.', 'exhaustive enumeration of cell values, attributes and transitions through the real agent')
prop('P04', 'Plain output holds only text; CONERR carries the error buffer only',
 'With plain output the stream contains no escape sequence at all (with colour escapes enabled, only colour sequences), never moves the cursor backwards, and contains every line exactly as it stands when the program moves past it. When a separate CONERR is requested, text written to the error buffer appears there and only there, and text written to the normal console appears only on CONOUT.',
 ['inputs', 'histories', 'configurations'], 'all operation sequences up to a depth under every combination of the plain, colour and CONERR flags',
 'The tests use one flag combination and fixed text.',
 [A+'Terminal.cc', A+'Scraper.cc', A+'Agent.cc'], [('Terminal plain mode', A+'Terminal.cc'), ('error scraper', A+'Agent.cc')], ['bytes on the CONOUT and CONERR pipes'],
 'As P01.', 'stateless model checking of the real agent over operation sequences and flags')
prop('P05', 'The terminal title is the console title',
 'After the console title changes, the terminal is told the new title once, completely and as UTF-8, whatever its length or characters and whenever the change happens; control characters in a title cannot end the title sequence early. An unchanged title is not sent again.',
 ['inputs', 'histories', 'schedules', 'configurations'], 'all title sequences up to a depth over lengths around every buffer size, on every Windows generation, with changes between any two calls of the agent',
 'No test looks at the title.',
 [A+'Win32Console.cc', A+'Agent.cc'], [('Win32Console::title', A+'Win32Console.cc'), ('Agent::syncConsoleTitle', A+'Agent.cc')], ['OSC sequences on the CONOUT pipe'],
 'Trusts the modelled GetConsoleTitle variants of XP, Vista/7 and 8+.', 'stateless model checking of the real agent: title histories and races')
prop('P06', 'Keys and characters are decoded to the right console events',
 'Every documented key encoding (with any modifier, Alt prefix and terminal dialect) and every Unicode character, alone or with an ESC prefix for Alt, produces exactly the key-down and key-up events, modifiers, virtual keys, scan codes and characters that pressing that key would, in both normal and escape-sequence input mode of the console. Any other byte string is decoded deterministically without losing the valid items around it.',
 ['inputs', 'configurations'], 'all key encodings, all Unicode scalar values, all byte strings of up to 2 bytes after every introducer and longer ones over reduced alphabets, in four console input modes',
 'No test sends input.',
 [A+'ConsoleInput.cc', A+'DefaultInputMap.cc', A+'InputMap.cc', A+'ConsoleInputReencoding.cc', A+'UnicodeEncoding.h'], [('ConsoleInput::scanInput', A+'ConsoleInput.cc'), ('addDefaultEntriesToInputMap', A+'DefaultInputMap.cc')], ['input records and window messages received by the console'],
 'Reference decoder written independently from the documented encodings; US keyboard layout.', 'exhaustive input enumeration through the real agent against a reference decoder')
prop('P07', 'Input arrives once and in order, however it is fragmented',
 'The console receives the same events in the same order for a given byte stream no matter how the stream is cut into writes and reads, how long it is, or when the terminal\'s status replies arrive between items. Nothing is lost, duplicated or reordered.',
 ['inputs', 'schedules'], 'all pairs (thorough: triples) of 33 kinds of items with all placements of two cuts or replies, all cuts of each single item, all partial reads, and pastes of 70,000 bytes and more at every offset',
 'No test sends input, let alone cut inside a sequence.',
 [A+'ConsoleInput.cc', A+'InputMap.cc', A+'NamedPipe.cc', A+'Agent.cc'], [('ConsoleInput::writeInput, doWrite', A+'ConsoleInput.cc'), ('Agent::pollConinPipe', A+'Agent.cc')], ['input records received by the console'],
 'As P06.', 'stateless model checking: exhaustive fragmentation of input through the real agent')
prop('P08', 'Incomplete escape sequences wait for the reply or one second, no longer',
 'An incomplete escape sequence (a lone ESC in particular) is held until more input, the terminal\'s reply to a status query, or one second without input decides it, and is then delivered as the keys it stands for. A query is sent once per ambiguity and never in plain output; replies are consumed and never delivered as keys.',
 ['inputs', 'schedules', 'histories'], 'all incomplete prefixes with pauses on both sides of the limit, continuations, replies and tick-counter wrap; all histories of 4 (thorough: 5) fragments, replies and pauses',
 'It depends on time and on the terminal\'s behaviour, which no test provides.',
 [A+'ConsoleInput.cc', A+'Agent.cc', A+'EventLoop.cc'], [('flushIncompleteEscapeCode, matchDsr', A+'ConsoleInput.cc'), ('Agent::sendDsr', A+'Agent.cc')], ['input records received by the console', 'bytes on the CONOUT pipe'],
 'Virtual clock; the exact polling phase is not prescribed.', 'stateless model checking over timed input histories')
prop('P09', 'Ctrl-C interrupts the program in the way it asked for',
 'A Ctrl-C byte becomes a console-wide Ctrl-C event when the program has processed input enabled at that moment and a Ctrl+C key press otherwise, in its place among the other input. It never ends the agent, and programs are started with Ctrl-C not ignored even if the client ignores it.',
 ['inputs', 'schedules', 'histories', 'configurations'], 'all histories of inputs and input-mode changes up to a depth, mode changes between any two calls of the agent',
 'No test sends input.',
 [A+'ConsoleInput.cc', A+'Agent.cc'], [('scanInput', A+'ConsoleInput.cc'), ('consoleCtrlHandler', A+'Agent.cc')], ['console control events and input records'],
 'As P06.', 'stateless model checking over input/mode histories and races')
prop('P10', 'Mouse reports become the mouse events they describe',
 'A mouse report in any of the three supported encodings produces exactly one mouse event with the reported buttons, modifiers, wheel or motion, the position clamped into the current console window, and a double-click mark exactly when the same button is pressed twice at the same place within the system\'s double-click time. When the program does not want mouse input, the report is dropped without producing anything else.',
 ['inputs', 'histories', 'configurations'], 'every flags value and edge position, numbers of every width, all histories of 5 (thorough: 6) button events and pauses in every encoding, all mode-bit combinations',
 'No test sends input.',
 [A+'ConsoleInput.cc'], [('scanMouseInput, matchMouseRecord', A+'ConsoleInput.cc')], ['mouse records received by the console'],
 'As P06.', 'exhaustive enumeration of reports and histories through the real agent against a reference decoder')
prop('P11', 'Terminal mouse reporting follows the program\'s console mode',
 'At every quiescent point the terminal\'s mouse reporting is fully on exactly when it should be (mode "force" always, "auto" when the program has mouse input on, quick-edit off and extended flags set, "none" never; never with plain output), each change is sent once, and it is fully off after the program has ended in an auto-shutdown session. Quick-edit is initially on in "auto" mode and off otherwise.',
 ['histories', 'schedules', 'configurations'], 'all histories of mode-bit settings, resizes and output up to a depth for every mouse mode and output mode; the program ending between any two calls of the agent',
 'No test uses a mouse mode.',
 [A+'ConsoleInput.cc', A+'Terminal.cc', A+'Agent.cc'], [('shouldActivateTerminalMouse, updateInputFlags', A+'ConsoleInput.cc'), ('Terminal::enableMouseMode', A+'Terminal.cc')], ['private mode sequences on the CONOUT pipe'],
 'As P01.', 'stateless model checking over console-mode histories')

exec(open(os.path.join(V, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props2.py')) else None
NA = []
have = [p for p in P if os.path.exists(os.path.join(V, 'harness', p['id'] + '.cc'))]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in have: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
m = dict(version=1, setup_cmd='python3 run.py --build-all', checks=[dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'], technique=p['_tech'], level='model_checking', level_note=p['_note']) for p in have], not_applicable=NA,
         notes='Every check rebuilds the real sources from /repo/src, links them with a simulated operating system and enumerates executions; see DESIGN.md. No hooks in /repo are needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(have), 'properties')
for p in have:
    assert len(p['title']) <= 80, p['id']; assert p['statement'].count('. ') <= 2, p['id']
