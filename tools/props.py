#!/usr/bin/env python3
# Generates /verif/properties.jsonl.  Edit here, run, commit both.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed="none"))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

A='src/agent/'; L='src/libwinpty/'; S='src/shared/'; X='src/unix-adapter/'
prop('C01','The terminal converges to the console screen',
 'Whatever a console program writes, moves, clears, recolours or scrolls, once it pauses for a bounded time a VT terminal that has consumed the terminal output stream shows exactly the text, colours, cursor position and cursor visibility of the console window; output also shows up within a bounded time while input, size requests or queries keep the agent busy.  Scraping and resizing never alter what a program put into the visible window.',
 ['programs','schedules','inputs'],
 'every sequence of console operations by the programs in the session, every interleaving of them with the scraping, every consumer speed, every supported Windows generation',
 'The repository has no test of the screen scraper; divergence needs a particular interleaving of console writes with the incremental scrape, cursor hiding, line cache and scroll detection.',
 [A+'Scraper.cc',A+'Terminal.cc',A+'ConsoleLine.cc',A+'Win32ConsoleBuffer.cc',A+'LargeConsoleRead.cc',A+'Agent.cc'],
 [('scrape loop and dirty-line cache',A+'Scraper.cc:scrollingScrapeOutput'),('cell/attribute to VT encoding',A+'Terminal.cc:sendLine'),('line comparison',A+'ConsoleLine.cc:detectChangeAndSetLine')],
 ['bytes read from the conout pipe, fed to a strict VT emulator','the simulated console screen buffer'],
 [('line buffer','what the terminal is believed to show per line',A+'Scraper.h:m_bufferData')])
prop('C02','Scrolled-off output is kept exactly once and in order',
 'Every complete line a program prints sequentially appears in the terminal stream (scrollback plus screen) exactly once, in order and unmodified, as long as it does not outrun the screen buffer between two scrapes.',
 ['programs','schedules','histories'],
 'every stream of printed lines, burst size up to the documented buffer slack, every scheduling of writer against scraper, including wrap of the 3000-line buffer',
 'Line loss or duplication appears only when the buffer wraps, the sync marker moves or a write lands between two reads of one scrape; no test drives a console.',
 [A+'Scraper.cc',A+'Win32ConsoleBuffer.cc',A+'Terminal.cc'],
 [('sync marker create/find',A+'Scraper.cc:createSyncMarker,findSyncMarker'),('scroll counting and virtual lines',A+'Scraper.cc:scrollingScrapeOutput'),('line clearing behind the marker',A+'Win32ConsoleBuffer.cc:clearLines')],
 ['line history of the VT emulator fed from conout','the list of lines the simulated program printed'])
prop('C03','All final output is delivered before end of stream',
 'When the spawned process exits in an auto-shutdown session, everything it and its descendants wrote before exiting reaches the client before end-of-file on the output pipe, however late or slowly the client connects and reads; then the output pipe reports end-of-file.',
 ['schedules','programs','fault_sequences'],
 'every final burst of output, every order of child exit, pipe connection, scrape and shutdown, every reader delay up to the shutdown grace period',
 'It depends on the order of child exit, last scrape, pipe drain and pipe close, across two processes; a test sees one order.',
 [A+'Agent.cc',A+'NamedPipe.cc',A+'Scraper.cc',L+'winpty.cc'],
 [('child exit then final scrape',A+'Agent.cc:onPollTimeout'),('auto close of data pipes',A+'Agent.cc:autoClosePipesForShutdown')],
 ['bytes and EOF at the client end of conout/conerr'])
prop('C04','Output stream is well-formed and escape-safe',
 'The output stream is valid UTF-8 made only of printable text, CR/LF/BS-free line structure and escape sequences from the documented set, no console cell content or console title can inject a control or escape sequence, and with colour escapes disabled (plain mode) the stream carries no escape sequences at all.',
 ['programs','inputs','configurations'],
 'every cell value and attribute, every title, every combination of output flags',
 'Cells hold all 65536 code units times attributes in any adjacency; tests cannot enumerate the contexts, and no existing test covers the encoder.',
 [A+'Terminal.cc',A+'ConsoleLine.cc',A+'Agent.cc',A+'UnicodeEncoding.h'],
 [('special character mapping',A+'Terminal.cc:fixSpecialCharacters'),('UTF-8 scanning',A+'Terminal.cc:scanUnicodeScalarValue'),('title OSC',A+'Agent.cc:syncConsoleTitle'),('plain mode',A+'Terminal.cc:m_plainMode')],
 ['every byte of conout/conerr through a strict parser'])
prop('C05','Resizing takes effect, is bounded and keeps the screen coherent',
 'A successful size request leaves the console window at exactly the requested size (within the documented clamps and the largest window the font allows), programs are told about it, interleaved resizes in any order with output never kill the session, and the terminal again matches the console afterwards, without losing, repeating or altering lines that scrolled off, also when the terminal keeps or brings back what it hid while it was smaller.',
 ['schedules','inputs','programs'],
 'every sequence of sizes (1..32767, including absurd ones), any interleaving with program output, program-made buffer changes and selection freezes',
 'Resize does half a dozen ordered console calls, each with preconditions that depend on the state the program left behind; only a search over interleavings reaches the failing ones.',
 [A+'Scraper.cc',A+'Agent.cc',A+'ConsoleFont.cc',A+'Win32ConsoleBuffer.cc',L+'winpty.cc'],
 [('resize procedure',A+'Scraper.cc:resizeImpl'),('size clamp',A+'Agent.cc:resizeWindow'),('font search',A+'ConsoleFont.cc:setSmallFont')],
 ['simulated console window/buffer rectangles','input records seen by the program','emulator screen'])
prop('C06','Teardown is complete and bounded',
 'After the client frees the session, closes the control pipe or dies at any moment, the agent and every process on its console terminate within a bounded time and nothing the session created (console, desktop, pipes) stays behind.',
 ['crash_points','schedules'],
 'every point of the session protocol at which the client frees, exits or crashes, and every state of the child',
 'The crash point is arbitrary; leaks show only in the processes left behind after the test would have ended.',
 [A+'Agent.cc',A+'EventLoop.cc',A+'NamedPipe.cc',L+'winpty.cc',S+'BackgroundDesktop.cc'],
 [('shutdown on control pipe loss',A+'Agent.cc:onPipeIo,agentShutdown'),('free',L+'winpty.cc:winpty_free')],
 ['simulated process table and console attachments'])
prop('C07','Typed text reaches the program exactly once and in order',
 'Any valid UTF-8 text written to the input pipe, in whatever fragments and timing, is delivered to the console program as key events carrying exactly that text, once, in order, with nothing inserted.',
 ['inputs','schedules'],
 'every text including non-BMP characters, every fragmentation down to single bytes, every delay between fragments and any reader speed',
 'Fragmentation of multi-byte characters against read boundaries and timeouts is a schedule space; no test covers the input path.',
 [A+'ConsoleInput.cc',A+'InputMap.cc',A+'DefaultInputMap.cc',A+'NamedPipe.cc',A+'UnicodeEncoding.h'],
 [('queueing and flush',A+'ConsoleInput.cc:writeInput,doWrite'),('scan',A+'ConsoleInput.cc:scanInput'),('UTF-8 keypress',A+'ConsoleInput.cc:appendUtf8Char')],
 ['key event records in the simulated console input queue'])
prop('C08','A lone ESC is released after the timeout, never earlier or lost',
 'An incomplete escape sequence is held while it may still complete and, if nothing follows, is delivered as literal key presses within a bounded time after the documented delay; completing it before the delay yields the decoded key instead.',
 ['schedules','inputs'],
 'every prefix of every known sequence, every gap between bytes and every clock behaviour including tick-counter wraparound',
 'The outcome depends on the gap measured on a wrapping 32-bit clock against polling; real-time tests cannot place the wrap or the boundary.',
 [A+'ConsoleInput.cc',A+'Agent.cc'],
 [('flush timer',A+'ConsoleInput.cc:flushIncompleteEscapeCode'),('poll',A+'Agent.cc:onPollTimeout')],
 ['key event records with virtual timestamps'],
 [('last write tick','time of last input',A+'ConsoleInput.h:m_lastWriteTick')])
prop('C09','Terminal key sequences decode to the right keys',
 'Each key escape sequence of the supported terminals, with any modifier encoding, produces the console key event for that key and those modifiers, independent of how the bytes are fragmented and of what precedes or follows them, and unknown sequences never corrupt later input.',
 ['inputs','schedules'],
 'every concatenation of known sequences, modifiers, text and unknown CSI sequences, every fragmentation',
 'The greedy prefix decoder must be right for all concatenations and splits; tests would sample a few keys.',
 [A+'InputMap.cc',A+'DefaultInputMap.cc',A+'ConsoleInput.cc'],
 [('sequence table',A+'DefaultInputMap.cc'),('longest match',A+'InputMap.cc:lookupKey'),('key expansion',A+'ConsoleInput.cc:appendKeyPress')],
 ['key event records in the simulated console input queue'])
prop('C10','Ctrl-C interrupts exactly when the program asked for it',
 'A Ctrl-C byte raises one console interrupt for the attached programs if and only if processed input is enabled at that time, and is otherwise delivered as a key event; it is never lost, duplicated or applied to the agent itself.',
 ['schedules','programs','inputs'],
 'every interleaving of console-mode changes with Ctrl-C bytes among other input',
 'The decision races with a program changing the console mode, and the agent shares the console it signals.',
 [A+'ConsoleInput.cc',A+'Agent.cc'],
 [('Ctrl-C special case',A+'ConsoleInput.cc:appendKeyPress'),('own handler',A+'Agent.cc:consoleCtrlHandler')],
 ['console control events and key records of the simulated console'])
prop('C11','Mouse mode follows the program and mouse reports decode faithfully',
 'The terminal is asked for mouse reports exactly when the configured mouse policy and the console modes say so, and each mouse report becomes one console mouse event with the right position (relative to the window), buttons, modifiers, movement and double-click flags, or is ignored if no program wants it.  When the session output ends the terminal is no longer asked for mouse reports.',
 ['programs','inputs','schedules'],
 'every sequence of console-mode changes and mouse reports in all report encodings, every timing',
 'Mode tracking is polled and double-click detection depends on the clock and on history.',
 [A+'ConsoleInput.cc',A+'Terminal.cc',A+'Agent.cc'],
 [('mode tracking',A+'ConsoleInput.cc:updateInputFlags,shouldActivateTerminalMouse'),('mouse decode',A+'ConsoleInput.cc:scanMouseInput'),('double click',A+'ConsoleInput.cc:m_doubleClick')],
 ['mouse event records of the simulated console','mode sequences on conout'])
prop('C12','Every client call returns in bounded time with a truthful outcome',
 'Each library call that talks to the agent returns within its timeout plus a small bound whatever happens to the agent (crash, hang, stall, broken pipe, malformed reply), reporting success only if the operation took effect and otherwise the error class that matches the cause.',
 ['fault_sequences','schedules','crash_points'],
 'every fault kind at every point of every call, every timeout setting',
 'Needs crashes, hangs and garbage at chosen points inside another process; unit tests cannot place them.',
 [L+'winpty.cc',S+'Buffer.cc'],
 [('bounded overlapped I/O',L+'winpty.cc:handlePendingIo'),('exception to error mapping',L+'winpty.cc:translateException'),('RPC guard',L+'winpty.cc:RpcOperation')],
 ['return values and error objects of the public API against the injected fault and virtual time'])
prop('C13','A failed session stays failed and never mixes up replies',
 'After a call on a session fails in transport, every later call on it fails with an error rather than delivering a stale or foreign reply, while failures that leave the protocol intact (a program that cannot be started) keep the session fully usable.',
 ['fault_sequences','histories'],
 'every call sequence after every failure point, including replies that arrive after the timeout',
 'The bad history needs a late reply that belongs to an earlier call.',
 [L+'winpty.cc'],
 [('poisoning',L+'winpty.cc:RpcOperation'),('agent shutdown flag',L+'winpty.cc:controlPipe.reset')],
 ['call history against a reference model of the session'])
prop('C14','Concurrent calls on one session are linearizable',
 'When several threads use the same session object, each call behaves as if executed alone at some instant between its start and its end: it gets the reply to its own request, and no call is lost, duplicated or deadlocked.',
 ['schedules'],
 'every interleaving, at basic-block granularity, of any number of threads issuing any mix of calls',
 'Races need a preemption inside a few instructions of the call path.',
 [L+'winpty.cc',S+'Mutex.h',L+'WinptyInternal.h'],
 [('session mutex',L+'winpty.cc:LockGuard')],
 ['call/return history against a sequential model; agent-side request log'])
prop('C15','No handle, event or pending I/O leaks out of any call',
 'Every library call, successful or failing at any internal step, leaves exactly the handles its contract promises, never closes or uses a handle twice, never returns while an I/O operation still targets its memory, and passes none of the caller\'s inheritable handles on to the agent.',
 ['fault_sequences','crash_points','schedules'],
 'a failure injected at every system call of every public operation, including cancellation that loses its race',
 'The cleanup paths run only when a chosen inner call fails; a leaked overlapped operation corrupts memory later and non-deterministically.',
 [L+'winpty.cc',S+'OwnedHandle.cc',A+'NamedPipe.cc',S+'WindowsSecurity.cc',A+'Agent.cc'],
 [('RAII handle',S+'OwnedHandle.cc'),('pending I/O guard',L+'winpty.cc:PendingIo'),('pipe workers',A+'NamedPipe.cc:~IoWorker')],
 ['simulated per-process handle table and outstanding-I/O list'])
prop('C16','Opening a session is all-or-nothing',
 'From whatever directory the library is installed in, opening a session either starts the agent next to it and returns a usable session or a null handle plus an error object whose code fits the cause, and on failure leaves no agent process, pipe or desktop running.',
 ['fault_sequences','crash_points','configurations'],
 'every failure of every step of opening (agent missing, exits early, hangs, denies, wrong process connects), any configuration',
 'The failure must be placed inside a two-process handshake.',
 [L+'winpty.cc',L+'AgentLocation.cc',S+'BackgroundDesktop.cc',A+'Agent.cc',A+'main.cc'],
 [('agent start',L+'winpty.cc:startAgentProcess,connectControlPipe'),('session creation',L+'winpty.cc:createAgentSession')],
 ['return value, error object, simulated process/pipe tables'])
prop('C17','Only the session owner can reach its pipes',
 'The control and data pipes of a session are unguessable, created first-instance-only and with a single server instance, restricted to the owner and local, the client accepts a control connection only from the agent process it started, and a foreign process squatting on, racing for or connecting to a pipe can never obtain or feed session data; the client and the agent never lend their identity to the server end of a pipe they connect to, and names stay distinct when the random source fails.',
 ['fault_sequences','schedules'],
 'an adversarial process that pre-creates, connects to or disconnects any pipe at any point of the handshake',
 'Needs a hostile third process winning a race.',
 [L+'winpty.cc',A+'Agent.cc',A+'NamedPipe.cc',S+'WindowsSecurity.cc',S+'GenRandom.cc'],
 [('pid check',L+'winpty.cc:verifyPipeClientPid'),('pipe creation flags',L+'winpty.cc:createControlPipe'),('owner SD',S+'WindowsSecurity.cc:createPipeSecurityDescriptorOwnerFullControl'),('data pipe server',A+'NamedPipe.cc:openServerPipe')],
 ['pipe creation parameters and connection outcomes in the simulated pipe namespace'])
prop('C18','The program is started exactly as requested',
 'A spawn request starts one process with exactly the given application name, command line, working directory, environment block and desktop, attached to the session console with the promised standard handles, and hands back usable process and thread handles, owned by the caller alone, and the real creation error on failure.',
 ['inputs','configurations','fault_sequences'],
 'every string content including embedded quotes, non-BMP characters and environment blocks, present and absent optional parts, with and without the error pipe',
 'The strings cross a hand-written binary protocol and the NUL-separated environment block has its own length rule.',
 [L+'winpty.cc',A+'Agent.cc',S+'Buffer.cc'],
 [('marshalling',S+'Buffer.cc'),('agent-side CreateProcess',A+'Agent.cc:handleStartProcessPacket'),('handle theft',L+'winpty.cc:stealHandle')],
 ['arguments of the simulated process creation, handles in the client table'])
prop('C19','Process list query is truthful for any buffer size',
 'The console process list call returns the true number of processes on the session console, fills at most the given capacity with exactly those ids when they fit, and leaves the session usable for every capacity and process count.',
 ['inputs','histories'],
 'every number of attached processes and every buffer capacity, with processes starting and exiting in between',
 'The interesting case is count larger than capacity, on a live session that is used again afterwards.',
 [L+'winpty.cc',A+'Agent.cc'],
 [('client side',L+'winpty.cc:winpty_get_console_process_list'),('agent side',A+'Agent.cc:handleGetConsoleProcessListPacket')],
 ['return value, array contents, follow-up call'])
prop('C20','Control protocol survives any byte stream and any fragmentation',
 'Control packets are processed identically however the pipe fragments or coalesces them, one reply per request in order, and a malformed packet from either side can never crash, hang or corrupt the receiver: it ends with a clean refusal or an error.',
 ['inputs','fault_sequences','schedules'],
 'every fragmentation of every packet and every mutated or truncated packet in both directions',
 'The framing code must handle every split point and length.',
 [A+'Agent.cc',S+'Buffer.cc',L+'winpty.cc',A+'NamedPipe.cc'],
 [('agent framing',A+'Agent.cc:pollControlPipe'),('decoder bounds',S+'Buffer.cc:ReadBuffer'),('client read',L+'winpty.cc:readPacket')],
 ['replies on the control pipe, process exit status'])
prop('C21','Allocation failure is reported, never fatal to the host',
 'If memory runs out anywhere inside a library call, the call returns its failure value with an out-of-memory error object, leaks nothing and leaves the process running.',
 ['fault_sequences'],
 'an allocation failure at every allocation of every public call, once or persistently',
 'Each allocation site must be made to fail in turn.',
 [L+'winpty.cc',L+'LibWinptyException.h',S+'WinptyException.cc'],
 [('boundary catch',L+'winpty.cc:API_TRY,translateException'),('static out-of-memory error',L+'winpty.cc:kOutOfMemory')],
 ['API results, simulated handle table, allocation ledger'])
prop('C22','Full-screen programs with their own buffers are shown faithfully',
 'When a program replaces or resizes the screen buffer so that it is not the scrolling buffer, and when it goes back, the terminal converges to the program window each time without corrupting what is shown later.  Size requests made meanwhile size the window that is shown and redraw it, and take effect on the scrolling buffer when the program goes back.',
 ['programs','schedules'],
 'every sequence of buffer switches, sizes and window positions interleaved with scraping',
 'Mode switches race with the scraper reading buffer info and content in separate calls.',
 [A+'Scraper.cc',A+'Agent.cc'],
 [('direct mode',A+'Scraper.cc:directScrapeOutput'),('mode switch',A+'Scraper.cc:scrapeBuffer')],
 ['emulator screen against the simulated active screen buffer'])
prop('C23','The terminal title follows the console title',
 'In colour mode the terminal title becomes the console title within a bounded time after each change, set once per change, for any title text and length, and stays untouched in plain mode.',
 ['programs','inputs'],
 'every title text and length and any rate of changes, on every Windows generation',
 'The title length protocol of the system differs per Windows version and length.',
 [A+'Agent.cc',A+'Win32Console.cc'],
 [('title read',A+'Win32Console.cc:title'),('title sync',A+'Agent.cc:syncConsoleTitle')],
 ['OSC sequences on conout'])
prop('C24','The console adapter relays every byte exactly once and in order',
 'The terminal-side adapter passes every keyboard byte to the session and every session byte to the terminal exactly once and in order, under any partial reads, partial writes, interrupts and stalls, and never exits while session output is still undelivered.',
 ['schedules','fault_sequences'],
 'every interleaving of its relay threads with signals, EINTR at any call, short reads and writes, slow terminal',
 'Needs EINTR and short writes at chosen calls and preemption between threads.',
 [X+'main.cc',X+'InputHandler.cc',X+'OutputHandler.cc',X+'WakeupFd.cc',X+'Util.cc'],
 [('input relay',X+'InputHandler.cc:threadProc'),('output relay',X+'OutputHandler.cc:threadProc'),('write loop',X+'Util.cc:writeAll'),('main loop',X+'main.cc')],
 ['bytes at the simulated tty and at the simulated session pipes'])
prop('C25','The adapter restores the terminal, mirrors size and exit status',
 'The adapter starts the given program, found as PATH says, with exactly the given arguments and environment (TERM hidden, the WINPTY_ variables passed on), honours its options, puts the terminal in raw mode only while the session runs and restores it before it exits by itself (normally or after any failure), tells the session the current terminal size after every size change including one racing with start-up, never sends a size the terminal does not have, and exits with the child exit status, or with a message and status 1 if the session could not be started.',
 ['schedules','fault_sequences','crash_points'],
 'every time at which the terminal is resized, every exit status, every failing step',
 'A size change landing between the first size query and signal registration is a window of a few instructions.',
 [X+'main.cc',X+'WakeupFd.cc'],
 [('raw mode',X+'main.cc:setRawTerminalMode'),('argument quoting',X+'main.cc:argvToCommandLine'),('size handling',X+'main.cc:terminalResized'),('exit status',X+'main.cc')],
 ['simulated tty attributes, size requests, child command line, exit status'])
prop('C26','Tracing never disturbs the session and the trace server keeps serving',
 'Enabling debug tracing changes nothing a user observes, with the trace server absent, present, slow or crashing, and the trace server goes on accepting and printing messages from any number of clients that connect, disconnect or die at any time. The server serves clients of its own user and, only with --everyone, those of any other user, never shares its pipe name with another server, and refuses arguments it does not know; a session that does not ask for tracing never contacts it, a traced process never lends its identity to it, and every message the server acknowledged has been printed when it ends.',
 ['fault_sequences','schedules','configurations'],
 'every arrival, departure and crash order of trace clients and server',
 'A client that connects and vanishes between two server calls changes the result code of the connect call.',
 ['src/debugserver/DebugServer.cc',S+'DebugClient.cc',S+'DebugClient.h'],
 [('server loop','src/debugserver/DebugServer.cc:main'),('client transaction',S+'DebugClient.cc:sendToDebugServer')],
 ['server output and liveness; session result with tracing on and off'])
prop('C27','A slow or vanished output consumer does not disturb the rest of the session',
 'While a consumer of the output (or error) pipe has stopped reading, control requests, input delivery and teardown keep working within their bounds, and when it resumes nothing that had been sent is lost, duplicated or torn; a consumer that disconnects one data pipe does not end the session, and the agent does not accumulate output for a pipe nobody can read any more.',
 ['fault_sequences','schedules','histories'],
 'every stop, resume and disconnect of either data pipe at any point, any amount of output meanwhile',
 'Needs a long history with a stalled or vanished peer next to live control and input traffic.',
 [A+'NamedPipe.cc',A+'Agent.cc',A+'EventLoop.cc'],
 [('write queue',A+'NamedPipe.cc:write,OutputWorker'),('pipe closing',A+'NamedPipe.cc:serviceIo,closePipe'),('pipe event dispatch',A+'Agent.cc:onPipeIo')],
 ['agent heap use after a disconnect, control-pipe liveness, resumed stream'])
prop('C28','The session console is hidden and the caller desktop is left alone',
 'On systems or flags that use a background desktop the agent console is created there, the calling process keeps its original window station and desktop after every outcome, the background objects vanish with the session, and a session that cannot have a background desktop in the calling process still opens on the caller\'s desktop.',
 ['configurations','fault_sequences'],
 'every Windows generation, station type and flag combination, failure at any step',
 'Needs a failing step between switching and restoring the station.',
 [S+'BackgroundDesktop.cc',L+'winpty.cc',A+'AgentCreateDesktop.cc'],
 [('desktop switch',S+'BackgroundDesktop.cc'),('agent-made desktop',A+'AgentCreateDesktop.cc')],
 ['window station/desktop of the calling process and of the agent'])
prop('C29','The separate error stream carries exactly the error output',
 'With the error pipe enabled, what programs write to standard error appears only on the error stream and what they write to standard output only on the output stream, each converging and ordered on its own.',
 ['programs','schedules','configurations'],
 'every interleaving of writes to the two streams',
 'Two scrapers share one console and swap its active buffer.',
 [A+'Agent.cc',A+'Scraper.cc',A+'Win32ConsoleBuffer.cc'],
 [('error buffer',A+'Agent.cc:m_errorBuffer'),('two scrapers',A+'Agent.cc:syncConsoleContentAndSize')],
 ['conout and conerr streams'])
prop('C30','The terminal position query handshake is invisible',
 'The agent asks the terminal for its cursor position only to find the end of an escape sequence, consumes the reply wherever it lands in the input, never forwards it to the program, and keeps working with terminals that reply late or never.',
 ['schedules','inputs','fault_sequences'],
 'every delay, loss and interleaving of the reply with typed input',
 'The reply is asynchronous input mixed with typing.',
 [A+'ConsoleInput.cc',A+'Agent.cc',A+'InputMap.cc'],
 [('query',A+'ConsoleInput.cc:writeInput'),('reply match',A+'ConsoleInput.cc:scanInput')],
 ['query sequences on conout, key records'])
prop('C31','No input, console state or timing brings the agent down',
 'While its client is alive and the system calls it needs succeed, the agent never crashes, asserts, hangs or exits, whatever programs do to the console, whatever bytes arrive, however the scheduler treats it.',
 ['programs','inputs','schedules','configurations'],
 'every mixture of console manipulation, input, resize, selection and stalls on every Windows generation',
 'Assertions guard states that only arise when the console changes between two calls of one operation.',
 [A+'Agent.cc',A+'Scraper.cc',A+'EventLoop.cc',A+'NamedPipe.cc',A+'ConsoleInput.cc',A+'Win32Console.cc'],
 [('assertions',S+'WinptyAssert.h'),('event loop',A+'EventLoop.cc:run')],
 ['agent process liveness and exit status'])
prop('C32','UTF-8 and UTF-16 codecs agree with the standard',
 'The character codec functions encode and decode every Unicode scalar value exactly as the standard says and reject everything else.',
 ['inputs'],'every code point and every byte string up to the maximum encoded length',
 'A test samples a few code points; the codec must be right for all.',
 [A+'UnicodeEncoding.h'],[('codec',A+'UnicodeEncoding.h')],['function results'])
prop('C33','Formatting helpers are exact',
 'Integer, hexadecimal and string formatting helpers produce exactly the text that parses back to the same values.',
 ['inputs'],'every integer value',
 'Tests sample a few values.',
 [S+'StringBuilder.h',S+'StringUtil.cc'],[('formatting',S+'StringBuilder.h')],['function results'])

ids=[p['id'] for p in P]; assert len(set(ids))==len(ids)
for p in P: assert len(p['title'])<=80,(p['id'],len(p['title']))
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
