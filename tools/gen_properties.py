#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

MOD = "src/buffer/mod.rs"; GB = "src/buffer/gap_buffer.rs"; WS = "src/workspace.rs"
HIS = "src/buffer/operation/history.rs"; GRP = "src/buffer/operation/group.rs"
INS = "src/buffer/operation/insert.rs"; DEL = "src/buffer/operation/delete.rs"; REP = "src/buffer/operation/replace.rs"
CUR = "src/buffer/cursor.rs"

prop("P01", "A save that reports success has written exactly the buffer's text",
 "Whenever saving a buffer reports success, the file at the buffer's path holds exactly the buffer's text, byte for byte, with nothing of the former content left over, however the operating system splits, interrupts or shortens the writes. Any failure of the operating system to take part of the text is reported as an error and never as success; and when nothing stands in the way, saving succeeds.",
 ["fault_sequences", "inputs", "histories"],
 "for every text and edit history, every former content of the file, and every sequence of interrupted, short, zero-length and failing opens and writes, disk-full points and path faults during the save",
 "The only test that saves is one doc-test writing six ASCII bytes to a healthy disk into a new file; no test sees a short write, EINTR, a full disk, or an existing longer file.",
 [MOD, GB], [("Buffer::save opens with truncation, writes everything, propagates errors", MOD), ("GapBuffer Display excludes the gap", GB)],
 observe=["bytes of the simulated file at the buffer's path when save returns"])

prop("P02", "A failed save loses nothing in memory and can be retried",
 "When saving fails, at whatever point, the buffer keeps its text, cursor, path, identity, syntax and complete undo/redo history exactly as they were. Once the cause of the failure is gone, one further save succeeds and writes the complete text.",
 ["fault_sequences", "histories"],
 "for every edit history, every sequence of failed saves (missing path, permission, directory in the way, disk full, I/O error, at any system call), followed by recovery of the environment",
 "No test makes a save fail.",
 [MOD, HIS], [("Buffer::save takes no state before the write is done", MOD)],
 observe=["buffer state before and after the failed save; the retry after faults stop; full undo walk afterwards"])

prop("P03", "Disk effects are confined to the file being saved, even when killed midway",
 "Only saving changes the file system, and a save changes nothing but the file at the buffer's path: every other file, directory and link stays as it was and no temporary file remains after it returns. If the process is killed or the save fails at any instant, that file holds its former content or a leading part of the text being saved (possibly empty, possibly all of it), never anything else.",
 ["crash_points", "fault_sequences", "histories"],
 "for every session of edits, opens, reloads, saves and workspace operations, and a process kill or error at every system call of a save, with in-flight writes torn at any byte",
 "Tests never kill the process, never interrupt a save, and never look at any other file.",
 [MOD, WS], [("Buffer::save is the only writer; it creates/truncates, then writes once, front to back", MOD)],
 observe=["the whole simulated disk before and after each operation, and the disk image frozen at the kill"])

prop("P04", "A buffer claims to be unmodified only while it matches its file",
 "A buffer reports itself unmodified only if its text equals what its last successful load, save or reload read from or wrote to the file, and no later failed save has damaged that file. It does report itself unmodified immediately after each successful load, save or reload, and again whenever undo or redo brings it back to exactly that point in its history. A buffer that was never loaded, saved or reloaded is always modified.",
 ["histories", "fault_sequences"],
 "for every interleaving of edits, operation groups (open or closed), undo, redo, saves, reloads and replacements, each of which may fail at any system call",
 "Tests check five short histories without operation groups, and no failing save or reload.",
 [MOD, HIS, GRP, REP], [("history mark set at load/save/reload; cleared when overwritten by a new operation", HIS)],
 state=[("marked_position", "history depth that equals the file", HIS)],
 observe=["modified() after every operation"])

prop("P05", "Opening a file yields exactly its text or a reported error",
 "Opening a file either yields a buffer whose text is exactly the sequence of bytes the file system served for that file from beginning to end, or reports an error; it never yields partial, repaired, padded or re-encoded text, however reads are split, interrupted or fail, whatever size the file system announces, and even while another process rewrites the file. A readable UTF-8 file on a healthy disk always opens.",
 ["fault_sequences", "schedules", "inputs"],
 "for every file content (including CRLF, BOM, NUL, invalid UTF-8), every split/interruption/failure of the reads, every announced size, and every interleaving of another process's truncations, appends and rewrites with the system calls of the open",
 "Tests open one ten-byte file on a healthy disk with nobody else writing.",
 [MOD, WS], [("Buffer::from_file reads to end of file and validates UTF-8", MOD)],
 observe=["buffer text against bytes served by the simulated file system"])

prop("P06", "Reload takes over the file completely or changes nothing",
 "A successful reload leaves the buffer with exactly the file's current text, unmodified, with its cursor at the same position if that exists in the new text, otherwise at the start of the same line if that exists, otherwise at the beginning, and with identity, path, syntax and change observer kept. Reloading a readable UTF-8 file on a healthy disk succeeds. A failed reload leaves text, cursor, modification status, path and undo/redo history exactly as they were.",
 ["fault_sequences", "schedules", "histories"],
 "for every buffer history, every change another process made to the file (in place or by replacement, also with unchanged size and timestamp, or removed), and every failure or interruption at any system call of the reload",
 "Tests reload the same unchanged sample file on a healthy disk; none sees external changes, errors, or non-trivial line endings.",
 [MOD, REP, CUR], [("content is fully read before the buffer is touched; the replacement retains the cursor", MOD), ("replace_content cursor fallback", REP)],
 observe=["buffer state before and after reload; cursor rule evaluated on a reference text model"])

prop("P07", "Undo and redo retrace the exact texts of the history",
 "Each undo restores, byte for byte, the text from before the last change still applied, and each redo restores the text from after the last change undone; a new change discards whatever could be redone, and undo or redo with nothing left does nothing. This holds across saves and reloads, whether they succeed or fail, with a successful reload that alters the text counting as one change.",
 ["histories", "fault_sequences", "inputs"],
 "for every sequence of insertions, deletions (also reaching past the end of a line), replacements, reloads of externally changed files, groups, undos and redos, over all Unicode text, interleaved with failing and succeeding I/O",
 "Tests undo one or two ASCII edits; none redoes after I/O, undoes an out-of-range deletion or text that merges with its neighbours.",
 [MOD, HIS, INS, DEL, REP, GRP], [("reversible operations kept on two stacks", HIS), ("each operation's reverse", INS)],
 observe=["text after every undo/redo against recorded texts"])

prop("P08", "A group of changes is undone and redone as one unit",
 "All changes made between starting and ending a group are undone by a single undo, restoring exactly the text from before the group, and redone by a single redo, restoring exactly the text from its end; undoing while the group is still open treats the changes so far as the whole group. Empty groups leave no trace, starting an already started group changes nothing, and saves or reloads inside a group, successful or failed, do not break it.",
 ["histories", "fault_sequences"],
 "for every placement of group boundaries among edits, undos, redos, saves and reloads, with I/O failing at any system call",
 "Tests build two groups of two ASCII inserts; none mixes groups with redo, save, reload or errors.",
 [GRP, HIS, MOD], [("OperationGroup runs/reverses members in order", GRP)],
 observe=["text after undo/redo of grouped changes against recorded texts"])

prop("P09", "Every change of text is announced at or before its first difference",
 "Whenever any operation (edit, replacement, undo, redo, or reload) changes a buffer's text, the buffer's change observer is called during that operation with a position at or before the first place where old and new text differ, so an observer that drops its derived data from that position on is never stale. The observer stays installed across every operation, including failed I/O and switching between buffers, and hears only about its own buffer.",
 ["histories", "fault_sequences", "schedules"],
 "for every history of edits, groups, undos, redos, reloads of concurrently changed files and buffer switches, with I/O failing at any point, and observers attached to several buffers",
 "Tests call the observer once per operation kind on one ASCII text; no groups, no undo of reloads, no several buffers, no failures.",
 [INS, DEL, REP, MOD, WS], [("each operation invokes change_callback when run and reversed", INS)],
 observe=["positions received by the observer during each operation against the difference of the texts"])

prop("P10", "A workspace never opens the same file twice",
 "Opening a path that names a file already opened in the workspace, under whatever spelling (relative, absolute, dotted, through file or directory links), selects the existing buffer with its unsaved content and adds none, even when links are retargeted or the file is replaced while the open is in progress. A path lookup that fails transiently may make the open report an error, but never makes it add a second buffer: opening never leaves two buffers for one path.",
 ["fault_sequences", "schedules", "histories"],
 "for every sequence of opens under every spelling, closes, switches and external renames/retargetings, with transient faults at every system call of the open",
 "Tests open one path twice on a healthy, quiet file system.",
 [WS, MOD], [("Workspace::open_buffer / select_buffer_by_path compare canonical paths", WS)],
 observe=["set of buffer paths and ids in the workspace after each open"])

prop("P11", "Switching, opening and closing never lose or mix up buffer contents",
 "Every open buffer keeps its text, cursor, path, modification status, syntax and undo history, exactly as last left, while other buffers are opened, selected, edited, saved, reloaded or closed, and while opens fail. A failed open changes nothing in the workspace, and closing removes the selected buffer and no other.",
 ["histories", "fault_sequences"],
 "for every sequence of open, add, select, edit, save, reload and close on any number of buffers, with I/O failing at any system call",
 "Tests use three buffers with one word each and look at texts once; no failing opens, no cursors, no undo after switching.",
 [WS], [("select_buffer checks the current buffer in and the target out", WS)],
 state=[("buffers/current_buffer/current_buffer_index", "checked-in buffers and the checked-out one", WS)],
 observe=["state of each buffer when it becomes current, against its state when last current"])

prop("P12", "Buffer order, selection and identifiers stay consistent",
 "A newly opened or added buffer is placed directly after the selected one and selected; next and previous walk the buffers in order and wrap around; closing selects the preceding buffer (or the new first one), or none if no buffer is left. The reported index, path list and current path always describe the same order and selection, with paths relative to the workspace when inside it, and identifiers are never reused during the life of the workspace.",
 ["histories", "fault_sequences"],
 "for every sequence of open, add, close, next, previous, failed opens and changes of paths, on any number of buffers",
 "Tests use at most three buffers in fixed short sequences without failures or closings in the middle.",
 [WS], [("Workspace::add_buffer, close_current_buffer, next_buffer, previous_buffer, buffer_paths", WS)],
 state=[("next_buffer_id", "source of unique ids", WS)],
 observe=["index, ids and paths against a list model after every operation"])

prop("P13", "User syntax definitions are all loaded or the failure is reported",
 "Creating a workspace with a folder of syntax definitions either makes every definition in that folder and its subfolders available alongside the built-in ones, or reports an error; no read, directory or parse failure is swallowed. Buffers then get the definition claiming their file extension (or file name when there is no extension), user definitions winning over built-in ones, and plain text otherwise, also after their path changes and the syntax is updated.",
 ["fault_sequences", "configurations", "inputs"],
 "for every folder tree of valid and broken definitions, every directory order, and every failing, short or interrupted system call while it is read",
 "Tests never pass a syntax folder.",
 [WS], [("Workspace::new adds the folder and propagates errors", WS), ("update_current_syntax looks up by extension, then name, then plain text", WS)],
 observe=["syntax name assigned to probe buffers after construction"])

prop("P14", "A buffer stays bound to the file it was loaded from",
 "A loaded buffer records the absolute, link-free path of the very file its text came from, also when links are retargeted while it is being opened. Later changes of working directory or of links do not change it: saving and reloading always go to that file and no other, until the user sets another path.",
 ["schedules", "fault_sequences", "histories"],
 "for every spelling used to open the file, every retargeting of file and directory links at any system call of the open or between operations, and every later change of working directory",
 "Tests open one regular file and never change links or the working directory.",
 [MOD, WS], [("Buffer::from_file stores the canonical path", MOD)],
 observe=["which simulated file's bytes were read, and which one receives bytes on save"])

prop("P15", "Text never depends on memory contents, storage growth or edit position",
 "After any sequence of insertions, deletions, replacements and reads, a buffer (or bare gap buffer) holds and returns exactly what the same edits give on a plain string, addressed by line and grapheme offset in the current text. What uninitialised or recycled memory contains, where and how storage grows, and where earlier edits happened never shows; out-of-range insertions and reads have no effect, and a deletion that ends past the end of a line removes up to and including that line's line break (or up to the end of the text).",
 ["histories", "inputs", "configurations"],
 "for every sequence of edits and reads over all Unicode text, positions in and out of range, under an adversarial allocator that fills fresh and freed memory with chosen bytes and relocates storage on growth",
 "Tests perform at most two edits on short ASCII or one Devanagari text with whatever memory the allocator returns.",
 [GB, INS, DEL], [("GapBuffer insert/delete/read/find_offset/move_gap", GB)],
 state=[("data/gap_start/gap_length", "bytes with an uninitialised gap", GB)],
 observe=["text and reads against a plain-string reference model after every step"])

prop("P16", "No file handle stays open after any operation",
 "After every operation returns, successfully or with any error, no file or directory handle opened by it is still open.",
 ["fault_sequences", "histories"],
 "for every session of opens, saves, reloads, workspace and syntax loading, with failures at every system call",
 "Tests never look at handles and never fail an operation midway.",
 [MOD, WS], [("scoped file handles in Buffer::from_file, save, reload", MOD)],
 observe=["open descriptors in the simulated kernel after each operation"])

prop("P17", "No session makes the library panic",
 "No sequence of buffer, cursor and workspace operations through the public interface panics, whatever the text, wherever earlier edits left the cursor, and however file-system calls fail; failures surface as errors.",
 ["histories", "fault_sequences", "inputs"],
 "for every session over all Unicode text with cursors left out of range by undo, deletion or reload, and with failures at every system call",
 "Tests run short fixed sessions without failures.",
 [MOD, GB, CUR, WS, HIS], [("bounds-checked positions; errors returned through Result", GB)],
 observe=["unwinding out of any library call"])

TI = "src/buffer/token/token_iterator.rs"; TS = "src/buffer/token/token_set.rs"; LI = "src/util/line_iterator.rs"

prop("P18", "The cursor moves only where it was told to, through any history",
 "Moving the cursor to a position succeeds exactly if the current text has that position, and otherwise leaves it alone; a single step left, right, to either end of the line, up, down, to the first or to the last line lands on exactly the expected position of the current text, counted in grapheme clusters with every kind of line break. Vertical movement keeps aiming for the column last chosen, across shorter lines, edits elsewhere, saves, failed I/O and switching between buffers. Nothing else moves the cursor: insertions, deletions, undo, redo, grouping, saving, failed reloads and switching leave it where it was, and only replacing or reloading the whole text (or undoing or redoing that) may move it, and then only to the start of its line or of the text if its position is gone.",
 ["histories", "inputs", "fault_sequences"],
 "for every history of edits, groups, undos, redos, saves, reloads of externally changed files, buffer switches and cursor movements, over all Unicode text, with I/O failing at any point",
 "Tests make one or two movements in fresh two- or three-line ASCII texts; none moves after undo, reload, failed I/O or a switch, over CRLF or multi-scalar clusters.",
 [CUR, MOD, REP, WS], [("Cursor::move_to bounds check and sticky offset", CUR), ("replace_content cursor fallback", REP)],
 state=[("sticky_offset", "column vertical movement aims for", CUR)],
 observe=["cursor after every operation against a reference cursor with a desired column"])

prop("P19", "Tokens cover the current text exactly, with true positions and scopes",
 "At any point of a session, the tokens of the selected buffer, put together (with a line break for each newline token), give back exactly its current text; each lexeme carries the line and the grapheme-cluster column at which it starts, and the scopes the buffer's syntax definition gives to that stretch of text when the lines before it are taken into account. If the definition fails on the text, the tokens before the failure are delivered, iteration ends and the error is recorded; otherwise no error is reported and the tokens reach the end of the text. Asking for tokens changes nothing.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "for every session of edits, undos, reloads, path and syntax changes and buffer switches, over all Unicode text, with built-in and user definitions including ones that load but fail while parsing",
 "Tests tokenise three short texts with built-in definitions, never after an edit, reload or change of syntax, and no definition that fails.",
 [TI, TS, LI, WS], [("TokenIterator splits each line at the parser's scope changes", TI), ("parser state carried from line to line", TI), ("current_buffer_tokens snapshots the text", WS)],
 state=[("current_byte_offset/current_position", "where the next token starts", TI)],
 observe=["token stream, and the iterator's error field, against the parser run directly over the model's text"])

prop("P20", "Search finds every occurrence in the current text and nothing else",
 "At any point of a session, searching the selected buffer for a (non-empty) text reports, in order, exactly the positions at which that text occurs within a line, overlapping occurrences included, as line and grapheme-cluster column, so that moving the cursor to a result and reading the length of the needle yields the needle. The result reflects the text as it is now, after whatever edits, undos and reloads, and searching changes nothing.",
 ["histories", "inputs", "fault_sequences"],
 "for every history of edits, undos, redos, reloads and buffer switches over all Unicode text and every needle that starts at a cluster boundary of the text or does not occur at all",
 "Tests search one fresh ASCII text for one needle; nothing is searched after an edit, and no column after a wide cluster is checked.",
 [MOD, GB], [("Buffer::search scans the text line by line", MOD)],
 observe=["search results against a scan of the model's text by clusters"])

prop("P21", "Harmless disturbances never change what a session does",
 "The same session (same disk, same calls, same changes by other processes between them) gives exactly the same texts, cursors, paths, syntaxes, modification statuses, undo histories, buffer orders, results and final files whether or not its system calls are interrupted and must be repeated, reads and writes are split, calls are slow, the clock jumps, files announce a wrong size, hash seeds differ or memory comes uncleared and storage moves.",
 ["fault_sequences", "schedules", "histories", "configurations"],
 "for every session and every schedule of disturbances that give no operation a reason to fail",
 "No test runs a session twice, and none under any disturbance.",
 [MOD, WS, GB], [("reads and writes repeated by the standard library until complete", MOD), ("nothing depends on time, announced sizes or hash order", WS)],
 observe=["everything observable after every operation, and the final disk, of the disturbed and the undisturbed execution of one session"])

prop("P22", "What a buffer says about itself follows its text and path",
 "At any point of a session, the number of lines a buffer reports is the number of line feeds in its current text plus one; the file name it reports is the last component of its current path, and none where it has no path, the path has no last component or that component is not Unicode; the extension it reports is the extension of that last component (decoded with replacement characters where it is not Unicode), and none where there is none. Asking changes nothing.",
 ["histories", "inputs", "fault_sequences"],
 "for every history of edits, undos, redos, reloads of changed files, saves, path changes and buffer switches, over all Unicode texts and all paths, with I/O failing at any point",
 "Tests ask a few fresh buffers with plain paths; none asks after an undo, a reload, a failed operation, or with a path that is not Unicode or has no last component.",
 [MOD], [("line_count, file_name and file_extension computed from the text and the path", MOD)],
 observe=["line_count, file_name, file_extension after every operation, against the model's text and path"])

prop("P23", "Every operation ends, and lasting failures are reported",
 "Every operation ends, after a number of system calls that is bounded in terms of the size of the files and texts involved. A file-system call that keeps failing is not repeated without end: the operation comes back, with an error where it cannot do its work without that call.",
 ["fault_sequences", "histories", "inputs"],
 "for every operation at any point of any session, with any class of system call failing for good from any moment on, and for all texts, search texts and movements",
 "No test makes a call fail, let alone for good.",
 [MOD, WS, GB, CUR], [("errors of system calls returned at once; only interrupted calls repeated by the standard library", MOD)],
 observe=["system calls made per operation; real time and a cap on calls for operations that make none"])

prop("P24", "Sessions side by side in one process share nothing but the disk",
 "Several workspaces and buffers may live in one process, and calls on them may interleave in any way: each behaves exactly as it would if the others did not exist and some other process had changed the disk at the same moments. Nothing done in one (edits, undo, groups, loading syntax definitions, opening, closing, failing) shows in another except through files.",
 ["schedules", "histories", "fault_sequences"],
 "for every interleaving of two sessions in one process, on shared or separate files, with I/O failing at any point",
 "No test has two workspaces at once, or interleaves calls on two buffers.",
 [MOD, WS, GRP, HIS], [("all state held in Buffer and Workspace values, none in statics", MOD)],
 observe=["everything observable of a session interleaved with another, against the same session alone with the disk's changes replayed"])

prop("P25", "Closed buffers and ended sessions give back their memory",
 "Once a buffer has been closed or dropped, or a workspace dropped, the memory it took has been given back, whatever was done with it and however that ended (failed loads, saves and reloads, groups left open, token iterations abandoned or ended by an error, observers installed). A workspace whose last buffer has been closed holds no more than when it was new, apart from what its syntax definitions prepared when they were used. What the library keeps for the life of the process or thread it takes once and not again.",
 ["fault_sequences", "histories", "inputs"],
 "for every session, with I/O failing at any point, whatever is open when it ends",
 "No test looks at memory.",
 [MOD, WS, HIS, TS], [("Buffer owns its text, history and group; the cursor shares only the text", MOD), ("close_current_buffer drops the buffer", WS)],
 observe=["blocks and bytes the library has taken from the simulated heap and not returned: after the last buffer of a workspace is closed, and after everything is dropped"])

prop("P26", "Positions, ranges and distances agree with the text they describe",
 "At any point of a session: the distance of a stretch of the buffer's text, added (by + or +=) to the position at which the stretch starts, gives the position at which it ends; positions are ordered as they lie in a text, first by line, then by offset; a range has its ends in order whichever way round they were given, and includes exactly the positions from its start up to but excluding its end; and a range of lines has its ends in order, includes exactly the lines from its start up to but excluding its end, and as a (plain or inclusive) range covers exactly those lines (with the last one, if inclusive).",
 ["histories", "inputs"],
 "for every text a session arrives at, every pair of positions in and around it, and every stretch and range of lines between them",
 "Tests use single short, mostly ASCII texts; none measures what a buffer holds after edits, undo or reloads.",
 ["src/buffer/position.rs", "src/buffer/distance.rs", "src/buffer/range.rs", "src/buffer/line_range.rs"], [("Position: PartialOrd, Add and AddAssign of Distance", "src/buffer/position.rs"), ("Distance::of_str", "src/buffer/distance.rs"), ("Range::new, includes", "src/buffer/range.rs"), ("LineRange::to_range, to_inclusive_range, includes", "src/buffer/line_range.rs")],
 observe=["the values returned, for the text the buffer returns at that moment"])

prop("P27", "Iterating over lines gives back the whole text, line by line",
 "At any point of a session, iterating over the lines of the buffer's text yields consecutively numbered slices, starting with number zero, each ending with its line feed (except the last), whose concatenation is exactly the text; a text that is empty or ends in a line feed ends with one empty line; and after the last line the iteration stays ended. There are as many lines as the buffer reports.",
 ["histories", "inputs"],
 "for every text a session arrives at, however it was arrived at",
 "Tests iterate over three short texts.",
 ["src/util/line_iterator.rs"], [("LineIterator::next", "src/util/line_iterator.rs")], observe=["yielded lines, for the text the buffer returns at that moment"])

prop("P28", "A reported error is the one that stopped the operation",
 "When opening, saving, reloading or creating a workspace reports an error, it is what stopped that very operation: the error of a file-system call that failed during it (with its code or kind, so that a missing file can be told from a forbidden one or a full disk), invalid data only where the bytes the file system served are not UTF-8, a write that took nothing, a size announced that no memory holds, or a syntax definition that cannot be understood. Reloading a buffer without a path, asking an empty workspace for tokens or a new syntax, and asking for the tokens of a buffer without a syntax are reported as exactly that, and a definition that fails on the text as a failure of the definition. No error is made up, exchanged for another, or left over from an earlier operation.",
 ["faults", "histories"],
 "for every failing file-system call of every operation, every error code, every unreadable file and folder, and every history before it",
 "Tests look at whether one or two errors (a missing path, an empty workspace) are reported, and at none of the file system's.",
 ["src/errors.rs", "src/buffer/mod.rs", "src/workspace.rs"], [("error_chain! (foreign_links)", "src/errors.rs"), ("Buffer::from_file, save, reload", "src/buffer/mod.rs"), ("Workspace::new, open_buffer, current_buffer_tokens, update_current_syntax", "src/workspace.rs")],
 observe=["the error's kind and operating-system code", "the codes the simulated calls of that operation were answered with", "the bytes it was served"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
