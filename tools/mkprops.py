#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as the single editable source of the property texts).
import json,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

T_PIPE="The shell tests feed cligen_file from a here-document (stdin is not a terminal, no delays, no signals, no faults) and grep its output once. "

p("C01","An edited line is what the typed keys mean, however they arrive",
 "For any sequence of typed bytes, each line the interactive read returns is exactly the one the documented editing keys (printing, backslash quoting, cursor and word motion, delete, kill/yank, transpose, overwrite, history recall and incremental search) produce from an empty line, trimmed of leading, trailing and repeated blanks and of comments, with blank lines skipped and lines returned in typing order. The result does not depend on how the bytes are split over reads, on reads or waits being interrupted by signals, on registered background descriptors firing, or on the window being resized. No typed byte is lost, duplicated or reordered, including bytes typed ahead while a command runs.",
 ["inputs","schedules","fault_sequences"],"every key sequence (up to ~200 keys and lines longer than any internal buffer), every chunking of it, every placement of EINTR, SIGWINCH and descriptor readiness between any two system calls, with UTF-8 mode, scrolling/wrapping mode and history size as configuration",
 T_PIPE+"They type a handful of fixed key sequences without interleaving.",
 ["cligen_getline.c","cligen_read.c","cligen_history.c","cligen_handle.c"],
 [("gl_getline key dispatch","cligen_getline.c"),("gl_getc EINTR retry","cligen_getline.c"),("cligen_buf_increase / cligen_killbuf_increase","cligen_handle.c"),("cli_trim, cliread","cligen_read.c")],
 [("line buffer, cursor, count","text being edited","cligen_getline.c gl_pos/gl_cnt, cligen_handle.c ch_buf"),("kill buffer","last killed text","cligen_handle.c ch_killbuf")],
 ["return of cliread","read(0) byte order"])

p("C02","The screen shows the prompt, the line being edited and the cursor",
 "Whenever the line editor waits for a key, the terminal shows the current prompt (or the incremental-search prompt) followed by the line under edit with the cursor on the character the next key will act on, and nothing left over from earlier contents after the end of the line. In horizontal-scrolling mode the visible part is one contiguous window of the line that contains the cursor, with $ marking a cut-off left or right end; in wrapping mode the whole line is visible. This holds for every window width of at least 21 columns (prompt shorter than the width) fixed before the line is started, with printable single-byte input.",
 ["inputs","configurations","schedules"],"every key sequence in both display modes, over window widths, prompts and line lengths up to several times the width, with key bytes arriving in arbitrary chunks and background descriptors firing without output",
 T_PIPE+"No test interprets the control sequences written to the terminal.",
 ["cligen_getline.c","cligen_handle.c"],
 [("gl_fixup_scroll / gl_fixup_noscroll incremental redraw","cligen_getline.c"),("gl_putc, gl_puts","cligen_getline.c")],
 [("gl_pos, fixup_gl_shift, fixup_off_left/right, gl_extent","editor's belief about the screen","cligen_getline.c")],
 ["bytes written to fd 1 through a VT emulator at each wait for input"])

p("C03","The terminal is in raw mode only while the library waits for a key",
 "Whenever a command or history callback runs, a signal is raised on behalf of a key, and whenever an interactive read or paged output call made by the application outside of editing has returned - by line, end of input, exit key, read failure or failed callback - the terminal attributes are exactly those in force before that call, also when output was paged while a line was being edited. While keys are being waited for, the terminal delivers each byte at once, without echo and without turning keys into signals.",
 ["histories","fault_sequences","schedules"],"every sequence of interactive reads, paged outputs, callbacks that themselves read or page, exit keys, job-control keys, EOF, read errors and allocation-free callback failures, with attributes changed by the application between calls",
 T_PIPE+"stdin is never a terminal, so no attribute is ever changed.",
 ["cligen_getline.c","cligen_io.c","cligen_read.c"],
 [("gl_char_init / gl_char_cleanup","cligen_getline.c"),("gl_init1 / gl_cleanup on every exit path of gl_getline","cligen_getline.c"),("--More-- prompt","cligen_io.c cligen_output_scroll")],
 [("old_termios","saved attributes","cligen_getline.c")],
 ["tcsetattr/tcgetattr on fd 0","entry of each callback, return of each API call"])

p("C04","End of input or a dead terminal ends the session promptly and cleanly",
 "When terminal input ends or persistently fails - hang-up, end of file at any byte including inside an escape or multi-byte sequence, or a read error other than interruption - the interactive read returns end-of-input within a bounded number of further system calls instead of hanging or spinning. The unfinished line is neither returned, executed nor added to the history. A later read on a live terminal starts from an empty line in normal mode.",
 ["crash_points","fault_sequences"],"end of file, EIO and other hard errors at every byte position of every key sequence, in normal, search and paging state, transient or persistent, combined with EINTR and background descriptors",
 T_PIPE+"All inputs end right after a complete line.",
 ["cligen_getline.c","cligen_read.c","cligen_io.c"],
 [("gl_getc end-of-file handling, gl_eof","cligen_getline.c"),("cliread/cliread_eval CG_EOF","cligen_read.c")],
 [("gl_iseof","end-of-input flag","cligen_getline.c")],
 ["return of cliread/cliread_eval","system-call count after the fault"])

p("C05","Registered background descriptors are serviced while a line is edited",
 "While the editor waits for a key, each time a registered descriptor is readable its currently registered callback is called with that descriptor and its registered argument, within a bounded number of waits, whether or not the user types, whether or not waits are interrupted by signals or another callback fails. A descriptor that is not registered (never, or after unregistering, including from inside a callback) gets no call, and re-registering replaces callback and argument. Servicing descriptors changes neither the line being edited nor the set of other registrations.",
 ["schedules","histories","fault_sequences"],"every history of register, re-register and unregister calls (also from within callbacks), readiness orders, EINTR placements and interleavings with typed keys",
 "No test registers a descriptor at all.",
 ["cligen_getline.c","cligen_io.c"],
 [("gl_regfd / gl_unregfd / gl_select","cligen_getline.c"),("cligen_regfd / cligen_unregfd","cligen_io.c")],
 [("extfds,nextfds","registration table","cligen_getline.c")],
 ["callback invocations","select sets and returns"])

p("C06","History recalls the latest N entered lines, in order, however it is used",
 "The history holds exactly the most recent N entered lines (N as configured; blank lines and a line equal to the entry just before it are not entered), oldest dropped first, across any interleaving of entering, recalling and editing recalled lines, resizing (which empties it) and loading from a file. Recall up steps to older entries and down to newer ones, an incremental search stops only at entries containing the search text, nearest first, and editing a recalled line never alters the stored entry. The history callback is called once, in order, for each non-blank line returned to the application and a failing callback makes that read report an error without losing the entry.",
 ["histories","inputs"],"every sequence of line entry, recall, search, edit-after-recall, resize and load operations, for history sizes 1 upwards and wrap-around",
 "Tests recall one or two entries with the default size of 100; wrap-around, tiny sizes, resize and search are untested.",
 ["cligen_history.c","cligen_getline.c","cligen_read.c"],
 [("hist_add/hist_prev/hist_next ring buffer","cligen_history.c"),("search_back/search_forw","cligen_getline.c"),("cligen_hist_init","cligen_history.c")],
 [("ch_hist_buf ring","stored lines","cligen_handle_internal.h")],
 ["lines returned after recall keys","cligen_hist_file_save output","history callback"])

p("C07","Saving and loading the history is lossless and reports I/O failure",
 "For history entries of one line each: saving writes exactly the stored entries, oldest first, one per line, and loading that file into an empty history of at least that size reproduces them; a file cut off at any byte loads a prefix of the saved entries and never a partial or altered one. If any write or read of the file fails the save or load call reports failure, and a save that reports success has had every byte accepted by the stream's device. The history in memory is not changed by a save, failed or not, and after a failed load it holds only its previous entries and complete entries read from the file.",
 ["fault_sequences","crash_points","histories"],"every history content (including long lines and wrap-around), every truncation point of the file, every read or write error, short transfer, full disk and interrupted call position, any stdio buffering",
 "The history-file test uses one small file on a working disk.",
 ["cligen_history.c"],
 [("cligen_hist_file_save","cligen_history.c"),("cligen_hist_file_load","cligen_history.c")],
 [("history file","one line per entry","cligen_history.c")],
 ["return value","bytes accepted by the simulated disk","recall after load"])

p("C08","Paged output is complete, ordered and stops for the reader",
 "With paging on, text given to the output function appears on the terminal complete, in order and unaltered apart from the --More-- prompts, however it is split over calls and whatever the window size, including sizes that change during the output. Between two keypresses at --More-- at most rows-1 lines of text, folded at the window width, are produced (one after RETURN), and a whole page of them before a prompt appears unless the window changed or RETURN was pressed; any key other than q or ^C continues, and after q or ^C nothing more is printed until output is reset, which the status call reports. With paging off, zero rows, or a stream other than standard output, the text is passed through with no prompt; keys typed ahead beyond the one answering a prompt are left for the line editor, and end of input at a prompt does not hang or lose output.",
 ["inputs","configurations","schedules","fault_sequences"],"every text, division into calls, window size and sequence of resizes, key answers at the prompts, type-ahead and end-of-input",
 "Paging needs a terminal; the tests run without one so no --More-- is ever shown.",
 ["cligen_io.c","cligen_handle.c"],
 [("cligen_output_scroll line accounting","cligen_io.c"),("cli_output_reset/cli_output_status","cligen_io.c"),("terminal_rows_set1, sigwinch_handler","cligen_handle.c")],
 [("D_LINES,D_COLUMNS","position within the page","cligen_io.c")],
 ["bytes on standard output","reads at --More--"])

p("C09","A command's output pipe delivers every byte exactly once and always unwinds",
 "When a command has an output pipe, the pipe function's process receives exactly the bytes the command's callbacks output, in order, then end of file, and everything that process writes until it ends appears on the terminal, unaltered and in order, before evaluation returns. Evaluation reports failure if the callback, the pipe function or setting up the pipe fails. However evaluation ends - short or interrupted writes, a child that exits early or fails, a failing callback, failed process or socket creation - no descriptor stays open, no child is left unreaped, and later output goes to the terminal again.",
 ["schedules","fault_sequences","inputs"],"every output size and division into calls (text output), child read/write pacing, short writes, EINTR at every call, failure of socketpair/fork, failing callbacks and child exit codes",
 "Tests pipe a few lines through grep; no short write, signal, slow or dying child ever occurs.",
 ["cligen_read.c","cligen_io.c"],
 [("cligen_eval_pipe_pre / cligen_eval_pipe_post","cligen_read.c"),("cligen_output pipe branch","cligen_io.c")],
 [("PIPE_OUTPUT_SOCKET","current redirection","cligen_io.c")],
 ["bytes through the simulated socket","descriptor table and child table after evaluation","terminal output"])

p("C10","A line runs exactly the callbacks of the one command it matches",
 "Evaluating an entered line calls, each exactly once and in specification order, the callbacks of the command it uniquely matches (keywords may be abbreviated to an unambiguous prefix, an exact keyword wins) with the callback's declared arguments and with a variable vector that starts with the whole command and then holds each keyword and variable in order with the typed value; a line that is unknown, incomplete, ambiguous or has an invalid value calls none and says which of these it is. When a callback fails no later callback of that line runs and the failure is returned to the caller. Callbacks that output, read input, change prompt, mode, options or history, or load further syntax do not disturb the ongoing or later evaluations.",
 ["programs","inputs","histories","fault_sequences"],"every command tree of keywords, choices, options, typed variables and expansion variables (within the generator's size bounds), every line, and every sequence of lines with callbacks failing at any point or performing nested operations",
 "Tests check a fixed set of specs and lines with callbacks that always succeed and do nothing else.",
 ["cligen_read.c","cligen_match.c","cligen_expand.c","cligen_callback.c","cligen_syntax.c"],
 [("cliread_parse / match_pattern_exact","cligen_read.c, cligen_match.c"),("cligen_eval callback loop","cligen_read.c"),("pt_expand","cligen_expand.c")],
 None,["callback invocations and arguments","result code and reason of the evaluation"])

p("C11","Using a grammar never changes it",
 "Whatever has been evaluated, completed, helped or expanded before - including operations that were rejected, or in which a command, expansion or history callback failed - the same line entered with the same expansion values gives the same result, callbacks, arguments, completion and help as it gives on a freshly loaded copy of the grammar, and the printed form of the grammar stays the same. No expansion value from an earlier operation remains visible.",
 ["histories","fault_sequences"],"every history of evaluate, complete, help, query and expansion operations with changing expansion results and injected callback failures, over generated grammars with tree references, expansion variables, choices and options",
 "Each test loads a grammar, runs a few successful lines and exits, so lasting damage to the tree is never observed.",
 ["cligen_expand.c","cligen_read.c","cligen_match.c","cligen_parsetree.c","cligen_object.c"],
 [("pt_expand shadow tree and pt_expand_cleanup","cligen_expand.c"),("CO flags / references reset after use","cligen_expand.c, cligen_match.c")],
 None,["pt_print output, evaluation results, terminal output before and after a history"])

p("C12","Completion and help offer exactly the legal continuations of the moment",
 "On TAB the editor inserts at the cursor exactly the characters common to all keywords, choices and expansion values that legally continue the word left of the cursor (with a blank when a single one is completed; variables count only in the mode that says so, where one that fits means nothing is inserted), judged by the grammar and by what the expansion callbacks, given their declared arguments, return at that moment, and otherwise leaves the line, the cursor and any text right of it unchanged. The alternatives listed by TAB and ? are exactly the legal continuations of the whole line, without hidden ones; a variable is among them when what is typed so far is a legal value of it. Neither ever runs a command callback; a failing expansion callback is reported by that read and leaves the editor usable and the grammar intact.",
 ["programs","histories","fault_sequences"],"every generated grammar, every line prefix and cursor position, expansion results that change between keypresses, failing expansion callbacks",
 "Tests press TAB in a few fixed grammars with constant expansion results at the end of the line.",
 ["cligen_read.c","cligen_match.c","cligen_expand.c"],
 [("cli_tab_hook, cli_complete, match_complete","cligen_read.c, cligen_match.c"),("show_help_columns/show_help_line","cligen_read.c")],
 None,["line returned after TAB","text listed on standard output"])

p("C13","Mode switching always leaves a defined current tree, prompt and position",
 "The active command tree, once there is one, changes only by an explicit activation: of an existing tree by its name, or of an unknown name, which (as documented) leaves no tree active - then evaluation reports an error and completion and help do nothing - until a known tree is activated. The working point of a tree, moved down, up and to top by mode commands, always designates the sub-tree that the sequence of moves denotes (up is the parent in the tree the word is defined in; a move command entered without a word of the tree leaves it), is kept per tree while other trees are active, and wherever the tree is referenced evaluation, completion and help see exactly the commands under it. Adding or finding other trees does not affect it, and each tree keeps the prompt set for it.",
 ["histories","programs"],"every sequence of tree additions, lookups, activations (known and unknown names), working-point moves and evaluations",
 "One test walks two edit modes down and up once.",
 ["cligen_pt_head.c","cligen_syntax.c","cligen_parse.y"],
 [("cligen_ph_active_set_byname, cligen_ph_add/find","cligen_pt_head.c"),("cligen_ph_workpoint and pt_active_get","cligen_pt_head.c")],
 [("active tree, working point","current mode","cligen_handle_internal.h")],
 ["commands accepted after each step"])

p("C14","Any session runs without memory errors and gives back all it took",
 "For any session - loading syntax, editing, completing, help, evaluating, paging, piping, history and mode operations, with callbacks, I/O and input failing at any point - no memory is accessed outside its lifetime or bounds, and after the handle is released all memory and descriptors the library acquired have been released. Repeating the same successful command does not make the memory held by the library grow without bound.",
 ["histories","inputs","fault_sequences"],"mixed random sessions over all interactive parts with every injected fault kind except allocation failure",
 "The optional memory test runs valgrind over a few fixed scripts; error paths and unusual sequences are not run.",
 ["cligen_handle.c","cligen_read.c","cligen_expand.c","cligen_match.c","cligen_history.c","cligen_getline.c","cligen_io.c","cligen_parse.y"],
 [("cligen_exit, cligen_ph_free, hist_exit, cligen_buf_cleanup","cligen_handle.c"),("ownership in pt_expand/mr_free/cvec_free","cligen_expand.c, cligen_result.c")],
 None,["AddressSanitizer/UBSan verdict, live-allocation table after cligen_exit"])

p("C15","A failed memory allocation is reported and leaves the session usable",
 "If memory allocation fails at any point of an editing, history, completion, evaluation or history-file operation, the call either still gives its normal result or reports an error; it does not crash, hang, corrupt memory or return a wrong line. Afterwards, with memory available again, the same handle, grammar and history work as before, the history holding only complete entered lines.",
 ["fault_sequences","crash_points"],"a failure at every single allocation index, and runs of consecutive failures, within generated sessions",
 "No test makes an allocation fail.",
 ["cligen_handle.c","cligen_history.c","cligen_read.c","cligen_getline.c","cligen_buf.c","cligen_match.c","cligen_expand.c","cligen_cvec.c","cligen_cv.c"],
 [("NULL checks and goto done clean-up paths","throughout"),("cligen_buf_increase, hist_add","cligen_handle.c, cligen_history.c")],
 None,["return values, crash, later behaviour"])

p("C16","Two handles in one process do not disturb each other",
 "Using two command-line handles alternately in one process, each with its own grammar, prompt, line buffer, kill buffer, history and settings of its own, gives on each handle the lines, history, callbacks and results it would give if the other did not exist. Growing, using or releasing one never affects the memory of the other. Settings that are global in the library (terminal size and scrolling, paging, help layout, insert/overwrite mode, exit characters, hooks, sort order, UTF-8 mode) are exempt.",
 ["histories","schedules"],"every interleaving of reads, edits, history, evaluation and release on two or three handles, line lengths beyond every buffer size",
 "No test creates a second handle.",
 ["cligen_handle.c","cligen_getline.c","cligen_history.c","cligen_read.c"],
 [("per-handle state in struct cligen_handle","cligen_handle_internal.h"),("line and kill buffer growth","cligen_handle.c")],
 [("_getline_bufsize","buffer size","cligen_handle.c")],
 ["lines and results per handle versus a solo run"])

p("C17","The string buffer is an exact log of what was appended, or says it failed",
 "A string buffer's content is always exactly the concatenation of the successful appends since creation or the last reset, NUL-terminated, with the length reported accordingly, and truncation gives the stated prefix. An append for which memory cannot be obtained reports failure and leaves the previous content intact and the buffer usable. This holds for every append form, for its own content as argument source copied beforehand, for any starting size and growth path.",
 ["inputs","histories","fault_sequences"],"every sequence of append, formatted append, single-character append, truncate, reset with lengths around every growth boundary, allocation failure at any step",
 "Tests only use it indirectly with short strings.",
 ["cligen_buf.c"],
 [("cbuf_realloc growth policy","cligen_buf.c"),("cprintf, cbuf_append, cbuf_append_str, cbuf_append_buf, cbuf_trunc","cligen_buf.c")],
 None,["cbuf_get/cbuf_len after each operation"])

p("C19","Loading syntax is independent of delivery and all-or-error",
 "Loading a specification from a stream gives the same trees, variables, callbacks and later behaviour however the stream's bytes are divided over reads or interrupted, and the same as loading the text from a string. A syntactically wrong or truncated specification, or a read failure, is reported as an error, never as success with part of the commands. After a failed load the trees loaded earlier work as before.",
 ["inputs","fault_sequences","crash_points"],"every generated specification, every division of the stream into reads, truncation and read errors at every byte, any number of earlier and later loads",
 "Tests load complete files from a working disk.",
 ["cligen_parse.l","cligen_parse.y","cligen_syntax.c"],
 [("clispec_parse_file / clispec_parse_str","cligen_syntax.c"),("clicon parser error path","cligen_parse.y")],
 None,["return value, printed trees, evaluation results"])

p("C20","Job-control keys deliver one signal in normal mode and discard the line",
 "While a line is edited, typing the terminal's own quit key, or its interrupt or suspend key when that key is not an editor key, sends the process group exactly that one signal, once, with the terminal attributes restored at the moment of delivery. After the process continues, raw mode is re-entered, the prompt is redrawn on an empty line and editing goes on with the following keys, none lost. An editor-assigned key (exit or suspend-hook key) never sends a signal.",
 ["inputs","schedules","configurations"],"every position of a job-control key in any key sequence, any assignment of the terminal's control characters, any change of attributes or size made by the handler, extra exit characters",
 "stdin is not a terminal in the tests, no control character is ever typed.",
 ["cligen_getline.c"],
 [("default branch: gl_cleanup, kill, gl_init1, gl_redraw, gl_kill","cligen_getline.c"),("gl_exitchar","cligen_getline.c")],
 [("gl_intrc, gl_quitc, gl_suspc","terminal's control characters","cligen_getline.c")],
 ["kill calls, terminal attributes, line returned"])

p("C30","Typed values are accepted exactly within their declared type and range",
 "A variable accepts a word exactly if it denotes a value of the declared type within the declared ranges, length or pattern, and the stored value prints back to an equivalent word.",
 ["inputs"],"every type, range set, pattern and word","Tests sample a few boundary values per type.",
 ["cligen_cv.c","cligen_regex.c"],[("cv_parse1, cv_validate","cligen_cv.c")])
p("C31","Printing a loaded grammar and loading the result gives the same grammar",
 "The printed form of any loaded grammar is a specification that, when loaded, yields a grammar accepting the same lines with the same callbacks and prints identically.",
 ["programs"],"every specification","Tests print two specifications.",
 ["cligen_print.c","cligen_parse.y"],[("pt_print1, co_print","cligen_print.c")])
p("C32","Command order and merging follow the declared sort order",
 "Sibling commands are kept sorted by the configured order with equal commands merged, independent of the order in which they are written or loaded.",
 ["programs"],"every set of sibling commands and order of declaration","One test checks one lexical-order example.",
 ["cligen_parsetree.c","cligen_object.c"],[("co_insert, co_eq","cligen_object.c")])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
