#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
        "mechanism":[{"name":n,"where":w} for n,w in mech],
        "observe_at":list(observe),"hook_needed":hook}})

prop("C01","Raw mode is entered and left in pairs on every exit",
 "Every line or password read switches the terminal to raw mode before it waits for input and leaves raw mode again on every way out of the read: a line, EOF, an interrupt, an error or a panic in user code. Suspending with Ctrl-Z leaves raw mode before the process stops and re-enters it after it resumes; closing the terminal, and the end of a remote client session, leave raw mode.",
 ["inputs","schedules","fault_sequences"],"all exits (returns and panics) of every function that reads a line, suspends, closes, or serves a remote client",
 "the tests never run a read against a terminal; an exit path that skips the restore only shows as a broken shell after the program ended",
 ["operation.go","terminal.go","remote.go","utils.go"],
 [("Operation.Runes enters raw mode and defers the exit","operation.go"),("Terminal.SleepToResume","terminal.go"),("Terminal.Close","terminal.go"),("RemoteCli.ServeBy defers raw.Exit","remote.go")],
 observe=["Config.FuncMakeRaw / FuncExitRaw calls"])

prop("C02","The saved terminal state is the original and raw mode sets the right bits",
 "Entering raw mode returns the settings the terminal had before the change, never the modified ones, and restoring writes exactly the saved settings back. Raw mode turns off echo, canonical input, signal keys, extended input, CR/NL translation and flow control, makes reads return after one byte, and apart from the other input-processing and 8-bit settings of cfmakeraw leaves every setting as it was, output processing included (on Windows: exactly echo, line and processed input); reading a password with the file-descriptor API turns echo off and puts the original settings back on every exit.",
 ["configurations","fault_sequences"],"every initial terminal setting, every exit of the functions, on each supported operating system",
 "no test has a tty, and three of the four platform variants never run on the test machine",
 ["term.go","term_linux.go","term_bsd.go","term_nosyscall6.go","term_windows.go","utils.go"],
 [("MakeRaw / restoreTerm / ReadPassword / RawMode","term.go")],
 observe=["the termios structure passed to the set-attributes ioctl"])

prop("C03","Every key leaves the session responsive",
 "After any key that does not finish the read, the session keeps reading further keys: whenever input delivery pauses after a line-ending or interrupt key (Enter, Ctrl-J, Ctrl-C, Ctrl-D, Delete) and that key does not deliver a result, reading is resumed. This holds in every mode (insert, vi normal mode including keys consumed as the argument of a command, search, completion menu) and when a key filter drops or translates the key.",
 ["inputs","histories","configurations"],"every key in every reachable mode, with and without a key filter",
 "the tests type a handful of keys; a swallowed terminator hangs the session only for one key in one mode",
 ["operation.go","terminal.go","vim.go","complete.go","search.go"],
 [("Terminal.ioloop pauses after terminators until kicked","terminal.go"),("Operation.ioloop kicks or delivers","operation.go")],
 observe=["Readline keeps returning after further keys"])

prop("C04","Readline returns exactly the typed line with nil, EOF or ErrInterrupt",
 "A read reports only nil, io.EOF or ErrInterrupt. On Enter (outside the completion menu and search) the returned line is exactly the edited text at that moment without the newline, wherever the cursor is; on Ctrl-C it returns ErrInterrupt with exactly the text typed so far, without the interrupt hint; Ctrl-D on an empty line returns io.EOF and on a non-empty line never ends the read.",
 ["inputs","configurations"],"every edited text, cursor position, prompt text and UniqueEditLine setting",
 "the tests return at most one fixed line",
 ["operation.go","runebuf.go","readline.go"],
 [("Operation.ioloop Enter / Interrupt / Delete cases","operation.go"),("Operation.Runes maps the error","operation.go")],
 observe=["values returned by Readline, ReadSlice, Line"])

prop("C05","Editing and vi commands never crash and keep the cursor inside the line",
 "No editing operation or vi-mode command crashes, whatever the text, the cursor position and the argument key. After every operation the cursor lies between the start and the end of the text.",
 ["inputs","histories"],"every text, cursor position and command sequence",
 "the tests exercise no editing command on an edge position; each crash needs one particular command at one particular cursor position",
 ["runebuf.go","vim.go","operation.go"],
 [("RuneBuffer methods keep 0 <= idx <= len(buf)","runebuf.go"),("opVim key handlers","vim.go")],
 state=[("RuneBuffer.buf / idx","text and cursor","runebuf.go")],
 observe=["process stays alive; cursor reported to Listener"])

prop("C06","The completion menu never crashes",
 "Opening, navigating, refreshing, accepting from and leaving the completion menu never crashes, whatever the candidates' number and width, the shared prefix, the screen width (including unknown or smaller than a candidate) and the keys pressed.",
 ["inputs","histories","configurations"],"every candidate list, screen width and key sequence in the menu, for completers that honour their documented contract",
 "no test opens the menu; crashes need a candidate wider than the screen, a wide-character prefix or an edit between two Tabs",
 ["complete.go","operation.go"],
 [("opCompleter.CompleteRefresh / HandleCompleteSelect / nextCandidate","complete.go")],
 state=[("candidate, candidateChoise, candidateColNum, candidateOff","menu state","complete.go")])

prop("C07","History navigation and search never crash",
 "Moving through history and incremental search (start, type, backspace, repeat, change direction, accept, cancel) never crash, whatever the history (empty, freshly reset, disabled, limit -1), the line being edited, and the order in which lines are saved, searched and cancelled.",
 ["inputs","histories","configurations"],"every history content and every sequence of navigation, search and save operations",
 "no test navigates or searches history",
 ["history.go","search.go","operation.go"],
 [("opHistory.current may be absent","history.go"),("opSearch.search / ExitSearchMode","search.go")],
 state=[("opHistory.current","list element being edited, may be nil","history.go")])

prop("C08","A malformed or truncated remote message cannot crash either side",
 "Whatever bytes a remote peer sends (any length field, type or payload, truncated anywhere), decoding and handling them ends in an error or is ignored; it never crashes the process and never allocates a buffer from an unvalidated negative length.",
 ["inputs","fault_sequences"],"every byte stream from the peer",
 "no test speaks the remote protocol",
 ["remote.go"],
 [("ReadMessage","remote.go"),("RemoteSvr.GotIsTerminal / GotReportWidth","remote.go")])

prop("C09","The edit buffer shares no memory with history, callbacks or returned lines",
 "Editing the current line never changes a stored history entry, a line already returned, cut text, or a slice owned by user callbacks: text recalled from history or found by search, text supplied by a Listener, text passed to a Listener or a completer, the line returned by a read and the cut text are all copies.",
 ["inputs","histories"],"every route by which text enters or leaves the edit buffer",
 "sharing is invisible until a later edit of the right length overwrites the other holder; no test edits a recalled line",
 ["runebuf.go","history.go","search.go","operation.go","complete.go"],
 [("runes.Copy at Prev/Next/Update/Reset, pushKill","history.go, runebuf.go")])

prop("C10","History never grows beyond its limit and drops the oldest first",
 "After a line is saved or history is loaded, the number of remembered entries is at most the configured limit (plus the entry being edited), and entries are dropped from the oldest end. A negative limit keeps no history.",
 ["histories","configurations"],"every sequence of saves and loads, every limit",
 "no test saves more lines than the limit",
 ["history.go"],
 [("opHistory.Compact after every insertion","history.go")],
 state=[("opHistory.history","list of entries","history.go")])

prop("C11","The history file is replaced atomically and otherwise only appended to",
 "The history file is never truncated or rewritten in place: saving a line appends to it, and compaction writes all remembered entries to a temporary file and renames it over the history file only after every write succeeded; if anything fails before the rename the old file stays untouched and in use. After a successful replacement later lines go to the new file.",
 ["crash_points","fault_sequences"],"a crash or I/O error at any point of saving, loading or compacting",
 "tests never inject a failing write or a crash",
 ["history.go"],
 [("opHistory.rewriteLocked: write temp, flush, rename, swap descriptor","history.go"),("historyUpdatePath opens with append","history.go")])

prop("C12","Accepted lines are recorded first; disabled history records nothing",
 "An accepted line is recorded in history before the caller receives it unless automatic saving or history is disabled, in which case nothing is recorded or written. Saving a line explicitly returns the error of the history-file write when it fails, and a line that ends in EOF or interrupt is not recorded. A line equal to the newest recorded one counts as recorded already.",
 ["inputs","schedules","fault_sequences","configurations"],"every accepted line and every interleaving of the reader with its caller",
 "the tests do not look at history after a read and never make a write fail",
 ["operation.go","history.go","readline.go"],
 [("Operation.ioloop saves before delivering","operation.go"),("opHistory.New / Update propagate the write error","history.go")])

prop("C13","Masked input is never echoed",
 "While input is masked nothing derived from the typed characters is written to the terminal: only the mask rune, repeated once per character, the prompt and control sequences. This holds for every key, including completion, search and cursor movement, and for output written by the application during the read.",
 ["inputs","histories","configurations"],"every typed text and key sequence while masking is on",
 "no test reads a masked line",
 ["runebuf.go","operation.go","search.go","complete.go","password.go"],
 [("RuneBuffer.output masks","runebuf.go"),("opPassword config enables the mask","password.go")],
 observe=["bytes written to Config.Stdout"])

prop("C14","Unset configuration gets a working default, set values are kept",
 "After initialising any configuration, every hook, stream and strategy the library uses is non-nil, whichever of them the user left unset, so no later operation crashes on an unset field; values the user set are kept. Initialising twice changes nothing.",
 ["configurations"],"every subset of unset configuration fields, for constructors, runtime configuration changes and password reads",
 "tests build one or two configurations",
 ["readline.go","operation.go","terminal.go","password.go"],
 [("Config.Init","readline.go")])

prop("C15","No self-deadlock: locks are released on every path and ordered",
 "Every lock the library takes is released on every return and panic-free path, is never taken again by the goroutine that already holds it, and two locks are never taken in opposite orders by different code paths. No user callback that may call back into the edit buffer runs while the edit buffer is locked.",
 ["schedules","inputs"],"every path and every interleaving",
 "a deadlock needs one interleaving or one early return",
 ["runebuf.go","operation.go","terminal.go","history.go","remote.go","std.go"],
 [("sync.Mutex fields","all files")])

prop("C16","Shared state is only touched under its lock or atomically",
 "State shared between the input goroutine, the caller and background writers is protected: the edit buffer's text, cursor, prompt, width and kill text, pre-filled input, the remote receive buffer, remote client writes and the history file descriptor are only accessed with their lock held, and flags accessed atomically anywhere are accessed atomically everywhere.",
 ["schedules"],"every interleaving of the goroutines the library starts with API callers",
 "a race needs a schedule the tests do not produce",
 ["runebuf.go","std.go","remote.go","history.go","terminal.go"],
 [("sync.Mutex in each structure; sync/atomic flags","all files")])

prop("C17","Close is idempotent, never panics and unblocks pending operations",
 "Closing an instance, terminal, remote server or cancelable input any number of times from any goroutine closes each channel once and never panics. Every goroutine the library starts for it can leave every blocking channel operation once it is closed, closing the input wrapper closes what it wraps, and blocked reads and writes return.",
 ["schedules","fault_sequences"],"every point at which Close is called",
 "tests close an idle instance once",
 ["terminal.go","std.go","remote.go","readline.go","operation.go"],
 [("closed flag by atomic swap","terminal.go, std.go, remote.go"),("select on the stop channel","terminal.go, std.go, remote.go")])

prop("C18","Application output during a read is written once and cannot tear the line",
 "A write through the instance's stdout or stderr writers hands exactly the caller's bytes to the configured stream exactly once and returns its result. While a line is being read the write happens with the edit buffer locked, after the input line was cleared and before it is redrawn; when no line is read, or the session is not interactive, nothing is redrawn.",
 ["schedules","inputs"],"every interleaving of application writes with key handling",
 "needs concurrent writers at a particular moment",
 ["operation.go","runebuf.go"],
 [("wrapWriter.Write","operation.go"),("RuneBuffer.Refresh: clean, write, print under the lock","runebuf.go")])

prop("C19","Remote protocol: encoder and decoder agree and frames are never interleaved",
 "What one side encodes the other decodes: the length, type and payload fields are written and read in the same order, width and byte order, and the length counts the type and the payload. The client sends the terminal report and then the width report before anything else, which is the order the server requires, every message is written to the connection by one write that cannot interleave with another, and each message type sent by one side is handled by the other.",
 ["inputs","schedules"],"every message and every interleaving of senders",
 "no test speaks the remote protocol",
 ["remote.go"],
 [("Message.WriteTo / ReadMessage","remote.go"),("RemoteCli.init / RemoteSvr.init","remote.go"),("RemoteSvr.writeLoop; RemoteCli.dataM","remote.go")])

prop("C20","Readers and writers honour the io contracts and lose no input",
 "Every Read returns a count between 0 and the size of the buffer it was given and every Write returns a count between 0 and the number of bytes it was given, with an error if it is short. Pre-filled input is delivered completely, in order and once, however small the reads are.",
 ["inputs","schedules","fault_sequences"],"every buffer size, every pre-filled text",
 "tests use one buffer size",
 ["std.go","remote.go","operation.go","terminal.go","ansi_windows.go","rawreader_windows.go"],
 [("FillableStdin.Read, CancelableStdin.Read, RemoteSvr.Read/Write, RemoteCli.Write","std.go, remote.go")])

prop("C21","Each documented key has its documented editing effect",
 "In normal editing each documented shortcut has its documented effect on text and cursor for every text and cursor position: movement keys change only the cursor, printable keys insert exactly that character at the cursor, deletion keys remove exactly the documented range, and transpose swaps two neighbouring characters. Escape sequences for arrows, Home, End, Delete and Meta keys map to the same actions.",
 ["inputs"],"every text and cursor position for each documented key",
 "tests press no editing key",
 ["operation.go","runebuf.go","utils.go","doc/shortcut.md"],
 [("Operation.ioloop key switch","operation.go"),("escapeKey, escapeExKey, escapeSS3Key","utils.go")])

prop("C22","Cut text is exactly what was removed and yank inserts it unchanged",
 "Every command that cuts (Ctrl-K, Ctrl-U, Ctrl-W, Meta-D, Ctrl-D, and the vi delete commands built on them) removes one contiguous range, leaves everything outside it unchanged, and stores exactly the removed text; Ctrl-Y inserts the stored text unchanged at the cursor and moves the cursor past it. Later edits never alter the stored text.",
 ["inputs","histories"],"every text, cursor position and sequence of edits between cut and yank",
 "tests cut nothing",
 ["runebuf.go"],
 [("RuneBuffer.pushKill / Yank","runebuf.go")],
 state=[("RuneBuffer.lastKill","cut text","runebuf.go")])

prop("C23","Built-in completers never crash and honour the completer contract",
 "The prefix and segment completers never crash for any line, any cursor position inside it and any tree; the shared length they report lies between 0 and the number of runes before the cursor. They do not write into slices owned by the candidate tree or the user's segment function.",
 ["inputs","configurations"],"every line, cursor position and candidate tree",
 "the tests use a few fixed trees",
 ["complete_helper.go","complete_segment.go"],
 [("doInternal","complete_helper.go"),("SplitSegment / RetSegment","complete_segment.go")])

prop("C24","Text and escape-sequence helpers are total",
 "The exported rune helpers, colour filtering, width and line computations, comparison, search and prefix functions return for every input without crashing, including empty slices, truncated escape sequences and non-positive screen widths, and equality, prefix and search results agree with their definition in the positions they compare.",
 ["inputs"],"every rune sequence",
 "tests use a few strings; the colour filter crash needs a truncated escape at the end",
 ["runes.go","runes/runes.go","utils.go"],
 [("Runes methods","runes.go"),("SplitByLine, LineCount, readEscKey","utils.go")])

prop("C25","The Windows console layer never crashes on any output or key event",
 "The Windows ANSI writer accepts every byte stream, including unknown colour codes, missing and malformed parameters and truncated sequences, without crashing, reports every byte consumed, and flushes what it buffered; the Windows key reader never writes beyond the buffer it is given.",
 ["inputs"],"every byte stream written and every key event, on the Windows build",
 "the code does not run on the test machine at all",
 ["ansi_windows.go","rawreader_windows.go"],
 [("ANSIWriter.Write / ioloopEscSeq","ansi_windows.go"),("RawReader.Read","rawreader_windows.go")])

prop("C26","Changing configuration and reading a password leave no trace in the session",
 "After a password read ends, in any way, prompt, mask, history, completer, search and listener of the session are those in force before it. Installing a configuration makes its prompt, mask, history, search and completer take effect together, and installing the configuration already in force changes nothing.",
 ["configurations","histories"],"every configuration pair, every way a password read can end",
 "no test reads a password or swaps configurations",
 ["operation.go","password.go","readline.go"],
 [("Operation.SetConfig","operation.go"),("opPassword.EnterPasswordMode / ExitPasswordMode","password.go")])

prop("C27","No operation runs for ever",
 "Nothing the library does spins: on every way round a loop it either waits for input, for another goroutine or for the system, or takes the next of a finite number of elements, or gets nearer to the end by a measure that cannot fall for ever; recursion only descends into a part of its argument. A loop that reads ends when its source fails or is exhausted, and a loop that waits on a channel ends when that channel is closed. This holds for every text, width (also zero and unknown), history and input stream.",
 ["inputs","configurations","histories"],"every text, cursor position, screen width, prompt, history, completion tree and input stream, including exhausted and failing sources",
 "a hang needs one unusual width, text or failing source; tests that would hang are not written",
 ["runebuf.go","runes.go","complete_helper.go","complete.go","history.go","utils.go","terminal.go","remote.go","std.go","ansi_windows.go","rawreader_windows.go"],
 [("RuneBuffer.getBackspaceSequence","runebuf.go"),("Terminal.ioloop","terminal.go"),("doInternal","complete_helper.go"),("readEscKey","utils.go"),("RemoteSvr.Read","remote.go")])

prop("C28","Incremental search finds the nearest matching history entry",
 "Incremental search looks at the entries one by one from the current one in the search direction and passes none over that contains the keyword; in the current entry only matches on that side of the cursor count. It uses the configured case folding, takes the last match of an entry when searching back and the first when searching forward, makes that entry current, shows it whole (as edited in this session) and puts the cursor at the start (back) or end (forward) of the match; when no entry matches, line and current entry stay. Pressing the search key again looks strictly further on. Cancelling goes back to the entry that was current when the search key was last pressed and shows it; accepting keeps line and entry; both forget the keyword.",
 ["inputs","histories","configurations"],"every history, keyword, cursor position, direction and folding",
 "no test searches; a search that passes an entry over needs one particular history and cursor",
 ["history.go","search.go"],[("opHistory.FindBck / FindFwd","history.go"),("opSearch.search / ExitSearchMode","search.go")])

# --- properties this family cannot decide ---
prop("C90","The redrawn screen shows the prompt, the line and the cursor at the right cell",
 "After every key the terminal shows exactly prompt plus line with the cursor on the right cell, for every width, wide or zero-width characters and wrapped lines.",
 ["inputs","histories","configurations"],"every line, width and key sequence","needs a terminal emulator and numeric wrap arithmetic",
 ["runebuf.go"],[("RuneBuffer.output / getBackspaceSequence","runebuf.go")])
prop("C92","History written to disk reads back as the same entries in order",
 "The entries loaded from a history file equal the last limit entries saved to it, in order.",
 ["inputs","histories"],"every sequence of saved lines","no test reloads a history file",
 ["history.go"],[("opHistory.historyUpdatePath / Update","history.go")])
prop("C93","Completion offers exactly the matching candidates",
 "The prefix completer offers exactly the children whose name extends the typed word at that tree position.",
 ["inputs","configurations"],"every tree and line","tests use a few trees",
 ["complete_helper.go"],[("doInternal","complete_helper.go")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),[ (p["id"],len(p["title"])) for p in P if len(p["title"])>80])
