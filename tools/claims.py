COMMON=" Sampled by seed, not exhaustive. Trusts the simulated world (terminal, descriptors, signals, processes, files, allocator) and the reference model in sim/."
T="deterministic simulation with fault injection: "
CLAIMS={
"C01":(T+"seeded terminal sessions against a reference line editor","Every line returned in random simulated sessions equals the reference editor's, under chunked input, EINTR, resize, background descriptors, type-ahead and terminal write errors."+COMMON),
"C02":(T+"seeded terminal sessions, emulated screen against a reference editor at every wait","At every wait for a key in random sessions the emulated VT screen shows prompt, line window and cursor as the reference editor."+COMMON),
"C03":(T+"seeded sessions on a simulated terminal driver, attributes checked at every key wait, callback, signal and return","At every observed point of random sessions the terminal attributes were raw or restored as stated, under failing callbacks, read errors, hang-up, EINTR (including from tcsetattr), nested paging and attribute changes by the application."+COMMON),
"C04":(T+"seeded hang-ups and read errors at arbitrary input bytes against a reference editor","Random sessions ended at arbitrary bytes by hang-up or read errors always end with end-of-input within 3 further reads, nothing of the unfinished line is returned, executed or stored, and later sessions on the handle behave as the reference."+COMMON),
"C05":(T+"seeded readiness of background descriptors and registration changes against a reference table","Every callback call matches the reference registration table, readable descriptors are served within 6 waits or keys, and lines equal the reference editor's."+COMMON),
"C06":(T+"seeded history-heavy sessions against a reference history","Returned lines, history callbacks and the whole stored history equal the reference in random sessions with recall, search, resize, file load, failing callbacks."+COMMON),
"C07":(T+"seeded disk faults, full disk and crash-torn files against a reference history","File contents, reported results and history equal the reference under write/read errors at any byte, short transfers, any stream buffering, and files cut at any byte."+COMMON),
"C08":(T+"seeded texts, windows, resizes, keys and hang-ups at prompts against the text given to the output function","The terminal's text cut at the --More-- prompts equals the text given, keys consumed equal prompts shown, and page lengths obey rows and width, under resizes, EINTR, type-ahead, hang-up and read errors."+COMMON),
"C09":(T+"seeded schedules of simulated pipe processes with bounded socket buffers and failing calls, compared byte for byte","For simulated child processes of eight kinds with random pacing, buffer sizes and faults, bytes received and shown, result, descriptors, reaped processes and redirection are as stated."+COMMON),
"C10":(T+"seeded command lines over random grammars against a reference matcher","Every callback call, its variables and arguments, the result and the stated reason of every evaluated line of random grammars equal a reference matcher's, while callbacks fail, evaluate further lines, switch trees and options, load syntax, and change prompt and history."+COMMON),
"C11":(T+"seeded histories on one handle against a freshly loaded copy of its grammar","After random histories of typed lines, completions, help and rejected operations with failing callbacks, everything later operations show and the printed grammar equal those of a fresh copy. Alternatives that expand to the same word are excluded from the comparison (known finding, see DESIGN.md) and checked for memory safety only."+COMMON),
"C12":(T+"seeded keys over random grammars at a simulated terminal against a reference matcher","At every wait for a key in random sessions the line, cursor and listed alternatives equal those a reference matcher computes from the grammar and the momentary expansion values, in all completion modes, with failing expansions, chunked input and EINTR; no command callback runs."+COMMON),
"C13":(T+"seeded mode commands over random grammars against a reference with working points","After every step of random sessions the active tree, every tree's working point and prompt, and every result, callback, completion and listing equal the reference, with activations of unknown and empty trees and trees added, loaded and activated from callbacks."+COMMON),
"C14":(T+"seeded whole sessions with AddressSanitizer and an exact table of held allocations","No invalid access, leak, left descriptor, unreaped process or growth in random sessions that combine every part of the library, wild grammars, broken syntax, failing callbacks, calls and I/O, signals and hang-ups."+COMMON),
"C15":(T+"every allocation of an operation can fail, compared with the same operation from the same state without the failure","In random grammars, reads with completion and help, evaluations, history files and settings, an operation in which one, several or all further allocations fail gives its normal result or an error; callbacks see nothing else, history holds only whole lines, and later operations give what they give in a fork that never failed. Only the library's own allocations fail, not those inside libc."+COMMON),
"C16":(T+"two or three handles used in turns and inside each other's callbacks, each compared with its own run alone","Every operation of two or three handles with random grammars, reads, evaluation, completion, history, modes, aliases and settings gave, in random turns and nested in each other's callbacks, the results, callbacks, terminal bytes, history and prompt of the same handle alone; nothing stayed allocated."+COMMON),
"C17":(T+"seeded append sequences with injected allocation failures against an exact log","Content, length, terminator and capacity equal an exact log after every call of every append form, with random starting sizes, growth thresholds and allocation failures."+COMMON),
"C19":(T+"divided, interrupted, failing and cut-off streams against loading the text from a string","Random specifications of every feature loaded through streams with random read sizes, buffers, EINTR, errors and cuts gave the trees, variables and behaviour of the same text as a string; cuts inside statements, read errors, NUL bytes, wrong statements and unbalanced braces were errors and left earlier trees as they were."+COMMON),
"C20":(T+"seeded job-control keys on a simulated terminal driver, checked at delivery and after","Each signal is checked for kind, number, target, attributes at delivery, redrawn prompt, raw mode and following lines."+COMMON),
}
LATER="Check not built yet."
NA={
"C30":"A pure function of its input (type, range, word): no schedule, clock, fault or interleaving for a simulator to decide.",
"C31":"A pure function of the specification text: no schedule, clock, fault or interleaving for a simulator to decide.",
"C32":"A pure function of the specification text: no schedule, clock, fault or interleaving for a simulator to decide.",
}
for i in ["C%02d"%k for k in range(1,21)]:
    if i not in CLAIMS: NA[i]=LATER
