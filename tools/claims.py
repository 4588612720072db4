CLAIMS["C15"] = ("interprocedural context-sensitive lockset dataflow over SSA (lock typestate, lock-order graph, callbacks under locks)",
  "Covers every function of the module on linux and windows (thorough: also darwin and solaris). Locks are named by type and field. Does not cover deadlocks through channels (C17).")
CLAIMS["C16"] = ("interprocedural context-sensitive lockset dataflow over SSA with a frozen guarded-by table; atomic-access consistency query",
  "Covers every function of the module on linux and windows. The guarded-by table was inferred from the code and confirmed by reading. Memory handed over through channels and the fields not in the table are not covered.")
NA["C90"] = "exact screen contents depend on string lengths, rune widths and terminal behaviour; no sound static argument in reach bounds them"
NA["C92"] = "round-trip equality of file contents is a runtime relation; its structural parts are claimed in C10, C11 and C12"
NA["C93"] = "which candidates match is a relation between runtime strings; the structural part (memory safety, offset range) is claimed in C23"
_num = "abstract interpretation of the SSA (linear-inequality domain, inferred inductive object invariants, interprocedural)"
CLAIMS["C05"] = (_num, "Every exported method of the session types and every session goroutine, with all they call. Ranges, divisions and nil dereferences in the edit buffer, vi mode and key dispatch; the cursor range is an inductive invariant. One goroutine at a time; user callbacks keep their contracts.")
CLAIMS["C06"] = (_num, "Every obligation raised in or below a method of the completion menu, for every state the session can reach. The shared prefix is modelled by Aggregate's contract.")
CLAIMS["C07"] = (_num, "Every obligation raised in or below history navigation and search, for every state the session can reach.")
CLAIMS["C08"] = (_num, "ReadMessage, the constructors and every exported method and goroutine of RemoteSvr and RemoteCli, for arbitrary bytes from the peer: ranges, nil dereferences, divisions, double closes. Does not bound the memory a peer can ask for.")
CLAIMS["C23"] = (_num + "; contracts on the completer methods", "Every completer method and constructor in complete_helper.go and complete_segment.go, for arbitrary trees and lines; the length contract 0 <= n <= pos is checked at every return. Children, callbacks and completers stored in the tree are taken to be non-nil. Which candidates match is not decided (C93).")
CLAIMS["C24"] = (_num + "; result contracts proved from return-path facts; ranking measures; comparison and search results against their definition by Skolemised positions (one arbitrary mismatch or match assumed, contradicting results shown infeasible)", "Every exported rune and string helper, for arbitrary arguments. Slices taken inside Aggregate need a fact about each element of a slice of slices and are not decided; what the width and line helpers compute is not decided. A search for an empty text is only held to its length contract.")
CLAIMS["C25"] = (_num, "The exported methods of ANSIWriter, ANSIWriterCtx, RawReader and the exported functions of the *_windows.go files, type-checked and compiled to SSA for GOOS=windows. System-call results are arbitrary.")
_ev = "path-sensitive abstract interpretation of the SSA with typestate events (every path, symbolic arguments)"
CLAIMS["C10"] = (_ev, "Every path of the history operations that grow or load the list, linux. The limit is compared against the list length symbolically; entries leave from the front only. Assumes the container/list model and that the list was within its limit before the operation.")
CLAIMS["C11"] = (_ev, "Every path of every function that touches the history file: open flags, order of write, flush, rename, and which file stays in use. Does not decide durability (fsync).")
CLAIMS["C14"] = (_ev, "Every field of Config that the library reads or calls, after Init, for every combination of unset fields, linux and windows; user-set values are kept; Init is idempotent.")
CLAIMS["C03"] = (_ev, "Every path of Operation.ioloop (with vi mode and menu dispatch interpreted) and Terminal.ioloop, for every key; keys that pause the terminal are computed. Filters do not return rune 0 with true; callbacks return. Lost wake-ups through the scheduler are covered only by the buffered kick channel rule.")
CLAIMS["C04"] = (_ev + "; provenance of the delivered slice", "Every path of Operation.ioloop, Runes and the reading methods. Exact text is decided for insert mode outside search and menu without a filter, on top of the edit buffer's contracts. Schedules between Close and a pending read are not decided.")
CLAIMS["C12"] = (_ev + "; provenance of the saved slice", "Every path of Operation.ioloop to a delivery, opHistory.New with and without a file and disabled, SaveHistory.")
CLAIMS["C18"] = (_ev + "; lock typestate at the write", "Every path of the wrapped writers and of Refresh's callback: one write with the caller's bytes, under the edit buffer's lock, after the clean and before the redraw, results returned unchanged. Which cells the redraw covers is not decided (C90).")
CLAIMS["C19"] = (_ev + "; agreement of symbolic frame layouts between encoder and decoder; message-type exhaustiveness query", "Message.WriteTo against ReadMessage, the client's first messages against the server's expectations, every write to a connection, every message type sent by one side. Payloads fit 31 bits.")
CLAIMS["C20"] = (_ev + "; linear inequalities on the returned counts", "Every Read and Write method in the module for linux and windows; order and completeness of the pre-filled input in FillableStdin. Wrapped readers and writers keep their io contracts.")
CLAIMS["C01"] = (_ev + "; pending deferred calls at every call of user code", "Every path of every exported function that waits for a line, suspends the process, closes the terminal or serves a remote client. Panics are covered by requiring a deferred FuncExitRaw at every call of user code made in raw mode. The hooks themselves do not panic.")
CLAIMS["C02"] = (_ev + "; bit-level symbolic comparison of the settings written with the settings read", "MakeRaw, GetState, restoreTerm and ReadPassword with the system calls they make, type-checked for linux, darwin and windows (thorough: also the BSDs), each system call succeeding and failing; RawMode.Enter/Exit and the default hooks of Config.")
CLAIMS["C17"] = (_ev + "; close-site and wait-site queries over channel fields; go-statement escape query", "Every close site and every channel close in the module, every blocking channel operation of every goroutine the library starts, linux and windows. User callbacks and wrapped Close, Read and Write return; signal-handler channels live as long as the process.")
CLAIMS["C22"] = (_ev + "; abstract domain of texts as sequences of ranges of the entry text", "Every path of every exported method of the edit buffer that changes it, for every text, cursor and cut text; loops are decided by inferred invariants. The cut range must be contiguous, stored exactly and privately; the documented cut commands and Yank are compared with their documented effect. At entry text and cut text share no memory (C09 establishes it) and the cursor is inside the text (C05).")
CLAIMS["C09"] = (_ev + "; ownership of arrays at the exits of the edit buffer; context-sensitive interprocedural origin analysis of slices of runes", "Every exit of every RuneBuffer method that takes, stores or returns runes: text, kill text, saved text, the caller's slices and results share no array, and the caller's memory is not written. Every function of the module outside: where runes come from (allocation, field, channel, user code), call by call; history entries, the lines sent to the reader and the edit buffer only receive memory nobody else holds, callbacks and users never receive private memory, memory and candidate lists of user code are never changed in place. Flow-insensitive inside a function. What Painter.Paint receives is not part of it.")
CLAIMS["C13"] = ("interprocedural content-flow (taint) analysis of the SSA specialised for EnableMask = true by conditional constant propagation; symbolic count of mask runes on every path of a redraw", "Every function reachable from the exported API, linux and windows, with the mask on: every write that can reach the terminal is checked not to receive anything derived from the content of the edit buffer, cut text, search text, history entries or keys read. Explicit flows only; lengths, widths and positions are not content. The number of mask runes is counted symbolically on every path of RuneBuffer.Refresh (not decided when they are written one by one in a loop). The mask is not switched on while a search or menu is open; methods promoted from unexported parts are not called by the application.")
CLAIMS["C21"] = (_ev + "; abstract domain of texts as sequences of ranges of the entry text; input scripts executed symbolically through Terminal.ioloop", "Every path of one round of Operation.ioloop in normal mode (no vim, search or completion mode, no listener, no filter), for every key, text and cursor: the buffer methods it uses are analysed through their bodies and the result is compared with the documented effect of the key. Every exported edit method likewise. Terminal.ioloop is executed on the input of each documented key followed by an ordinary key and must deliver exactly the rune that stands for it. IsWordBreak is decided on the ranges of letters, digits and punctuation. Entry: 0<=cursor<=len (C05), no shared memory (C09).")
CLAIMS["C26"] = (_ev + "; comparison of the session's symbolic state before and after", "Every path of Operation.SetConfig, Instance.SetConfig, SetHistoryPath and every exported method that reads a password, each for a new, a fresh and the same configuration. What keys typed during the password read do is not part of it (C04, C13). Callbacks do not change the configuration.")
CLAIMS["C27"] = ("termination analysis: ranking measures (linear and boolean, lexicographic) proved on the back edges of every loop with the abstract interpreter; must-wait and finite-walk dataflow for the other loops; size-change analysis of recursion", "Every natural loop and every recursive call of the module, for linux and windows, each function for arbitrary arguments and object states (no invariants assumed). Loops justified by a wait are checked to end on a failed read or a closed channel. Library calls, callbacks and completion trees are finite; container/list lists are.")
CLAIMS["C28"] = (_ev + "; list elements as distinct symbolic objects, per-path bookkeeping of the range searched in each", "Every path of SearchMode, SearchChar, SearchBackspace and ExitSearchMode with the history search inlined: both directions, with and without a current entry, entries edited or not, any history, keyword, cursor and folding. That IndexAllEx and IndexAllBckEx find the first and last match is C24. The search display is not part of it (C90).")
