#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
L = "pw_diff_lib/src/"
U = "pw_cub_diff_lib/src/unified_diff.rs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

FIX = "The existing tests try a handful of hand-written 13-20 line documents; "

p("D01", "The computed change list is a faithful edit script",
  "For any two sequences (lines or bytes), the computed list of changes walks both sequences from start to end without gap or overlap: unchanged runs are item-for-item equal on both sides, every other entry is a non-empty deletion, insertion or replacement at the right positions, and unchanged and changed entries strictly alternate. Replaying the list over the first sequence therefore yields exactly the second one. The start, end, length and range queries offered on each change and on each group of changes agree with that list in both directions.",
  ["inputs"], "all pairs of line sequences and byte sequences, including empty, identical, disjoint and highly repetitive ones",
  FIX + "one doc-test checks one change list; nothing samples adjacent near-misses, repeats or empty sides.",
  [L+"changes.rs", L+"common_subsequence.rs", L+"range.rs"],
  [("ChangesGenerator::generate", L+"changes.rs"), ("longest_common_subsequences (sort and merge)", L+"changes.rs"), ("ChangeBasics for Change / ChangeClump", L+"changes.rs")],
  ["Changes::changes", "ChangeBasics", "ChangeClump::starts/ends/ranges"])
p("D02", "Matching keeps the longest common run and never re-adds a removed item",
  "The longest-common-run query over any two sub-ranges returns a run that is really common to both sub-ranges, lies inside them, and is as long as the longest one that exists; it returns nothing only if the sub-ranges share no item. In the full change list some unchanged run is at least as long as the longest run common to both inputs, and no single change both removes and adds an equal item.",
  ["inputs"], "all pairs of sequences and all pairs of sub-ranges of them",
  FIX + "one doc-test asks one longest-run query.",
  [L+"changes.rs", L+"sequence.rs"],
  [("ChangesGenerator::longest_common_subsequence", L+"changes.rs"), ("work-list recursion in longest_common_subsequences", L+"changes.rs"), ("ContentItemIndices", L+"sequence.rs")],
  ["longest_common_subsequence", "Changes::changes"])
p("D03", "A diff is empty exactly when the two inputs are identical",
  "Comparing two inputs (in memory or as files, as text or as bytes) produces no hunks if and only if the inputs are identical; a difference of a single line, byte, or final newline is never reported as no difference.",
  ["inputs", "configurations"], "all input pairs, all context sizes 0..255, including inputs that differ in one isolated place",
  FIX + "no test diffs identical inputs or inputs with one isolated changed line.",
  [L+"changes.rs", L+"text_diff.rs", L+"byte_diff.rs", L+"diff.rs"],
  [("ChangesGenerator::generate", L+"changes.rs"), ("ChangeClumpIter::next", L+"changes.rs")],
  ["Changes::change_clumps", "Diff::new"])
p("D04", "Hunks carry every change once with exactly the requested context",
  "For any inputs and context size c in 0..255, the hunks cover every change exactly once and in order, overlap nowhere, and begin and end with exactly c unchanged items, or as many as exist before the first or after the last change. Changes separated by fewer than 2c unchanged items share a hunk and changes separated by 2c or more do not; the reported context lengths and ranges match the hunk's content. pw_diff does so with the number given by -c, 2 if none is given.",
  ["inputs", "configurations"], "all input pairs and all context sizes 0..255",
  FIX + "contexts other than 2 are never tried; runs longer than 255 and gaps of exactly 2c-1, 2c and 2c+1 are not sampled.",
  [L+"changes.rs", L+"common_subsequence.rs"],
  [("ChangeClumpIter::next", L+"changes.rs"), ("starts_trimmed/ends_trimmed/split", L+"common_subsequence.rs"), ("ChangeClump::context_lengths/ranges", L+"changes.rs")],
  ["Changes::change_clumps"])
p("D05", "A saved diff is self-contained",
  "Each hunk of a text or byte diff records the exact items and 0-based position of its region in both inputs, with regions ascending and disjoint, and equal leading and trailing context on both sides. Replacing each recorded before-region by its recorded after-region, using nothing but the saved diff and the first input, reproduces the second input exactly, and symmetrically backwards.",
  ["inputs", "configurations"], "all text and byte file pairs and all context sizes",
  FIX + "no test looks at the recorded positions or content of a hunk, and byte diffs have no tests at all.",
  [L+"text_diff.rs", L+"byte_diff.rs", L+"snippet.rs", L+"sequence.rs"],
  [("From<ChangeClump> for TextChangeClump / ByteChangeClump", L+"text_diff.rs, "+L+"byte_diff.rs"), ("Seq::extract_snippet", L+"sequence.rs")],
  ["Diff::to_writer JSON", "TextChangeClump::before/after", "ByteChangeClump::before/after"])
p("D06", "Diffing is deterministic",
  "Comparing the same two inputs with the same context always gives the same diff, byte for byte, whatever the number of worker threads, the process, or the diffs computed before or concurrently.",
  ["inputs", "schedules"], "all input pairs; all thread-pool sizes; repeated and concurrent computation",
  "Every test computes each diff once, in one process, with one thread-pool size.",
  [L+"changes.rs"], [("raw_lcses.par_sort (total order)", L+"changes.rs"), ("index-ordered item positions", L+"sequence.rs")],
  ["Diff::to_writer"])

p("S01", "Reading and writing text or bytes is lossless",
  "Splitting any text into lines, from memory or from a reader, keeps every byte: the lines concatenate to the original, each ends at a newline except possibly the last, none is empty, and carriage returns and other control or separator characters are not line breaks. The result does not depend on how the reader chunks or interrupts its data; reader errors and invalid UTF-8 are reported as errors, never as truncated content. Writing any range of a sequence emits exactly those items.",
  ["inputs", "fault_sequences"], "all texts and byte strings, all read chunkings, interruptions and read failures",
  FIX + "all use LF-only ASCII text; no test reads through a short-reading or failing reader.",
  [L+"sequence.rs", L+"text_diff.rs", L+"byte_diff.rs"],
  [("Seq<String>::read / From<String>", L+"sequence.rs"), ("Seq<u8>::read", L+"sequence.rs"), ("WriteDataInto", L+"sequence.rs"), ("PathAndLines::new / PathAndBytes::new", L+"text_diff.rs, "+L+"byte_diff.rs")],
  ["Seq::read", "WriteDataInto", "PathAndLines::write_into"])
p("S02", "The consumable cursor never duplicates, drops or reorders data",
  "For any sequence of 'copy up to n', 'skip k' and 'copy the rest' operations on a consumable sequence (staying within its bounds), the output is exactly the items not skipped, in order, each at most once; asking to copy up to a point already passed writes nothing and moves nothing. The consumed position always equals the number of items copied or skipped.",
  ["histories"], "all operation sequences over all text and byte sequences",
  FIX + "the cursor is only exercised through a few fixed patches.",
  [L+"sequence.rs"], [("ConsumableSeq::write_into_upto / advance_consumed_by / write_remainder", L+"sequence.rs")],
  ["ConsumableSeqIfce"])
p("S03", "Sequence queries agree with a direct scan",
  "For any sequence, the item index lists exactly the positions of an item in ascending order (or nothing if it is absent), the 'has this subsequence here' query is true exactly when the items are equal there (an empty subsequence fits at every position up to and including the end), and sub-range, snippet and trim/split operations return exactly the requested items and positions.",
  ["inputs"], "all sequences, items, positions, ranges and sizes",
  FIX + "the byte index and the boundary positions of these queries are untested.",
  [L+"sequence.rs", L+"snippet.rs", L+"common_subsequence.rs", L+"range.rs"],
  [("ContentItemIndices", L+"sequence.rs"), ("Seq::has_subsequence_at / subsequence / extract_snippet", L+"sequence.rs"), ("CommonSubsequence::starts_trimmed / ends_trimmed / split", L+"common_subsequence.rs")],
  ["Seq", "StringItemIndices", "ByteItemIndices", "CommonSubsequence", "Range", "Snippet"])

p("T01", "Applying a text diff to its original gives the modified file",
  "For any two texts and any context size, applying their diff to the first text yields the second text byte for byte, with every hunk reported as applied cleanly and none as fuzzy, already applied or failed.",
  ["inputs", "configurations"], "all pairs of texts (any line content, with or without final newline, empty files included), all context sizes 0..255",
  FIX + "only context 2 and two edit patterns are tried.",
  [L+"apply_text.rs", L+"text_diff.rs", L+"changes.rs"],
  [("ApplyClumpsFuzzy::apply_into", L+"apply_text.rs"), ("ApplyClumpFuzzy::will_apply / apply_into", L+"apply_text.rs")],
  ["ApplyClumpsFuzzy::apply_into output", "Statistics"])
p("T02", "Applying a text diff in reverse restores the original file",
  "For any two texts and any context size, applying their diff in reverse to the second text yields the first text byte for byte with every hunk applied cleanly, and applying forwards and then in reverse (or in reverse and then forwards) is the identity.",
  ["inputs", "configurations"], "all pairs of texts and all context sizes",
  FIX + "one fixed pair is reversed.",
  [L+"apply_text.rs", L+"text_diff.rs", L+"changes.rs"],
  [("reverse parameter through ChangeBasics / TextClumpBasics", L+"changes.rs, "+L+"apply_text.rs")],
  ["ApplyClumpsFuzzy::apply_into(reverse = true)"])
p("T03", "Hunks still land correctly in a file whose other parts changed",
  "If the target differs from the text the diff was made from only outside the hunks (lines inserted, deleted or replaced there), hunk content is unambiguous, and no hunk moves further down (beyond the previous hunk's shift) than there are unchanged lines between it and the next hunk, then applying the diff, in either direction, makes exactly the recorded changes at the moved positions and keeps all other edits, with no failure. Hunks at the expected shifted position count as clean and moved ones as fuzzy.",
  ["inputs", "histories"], "all diffs, all edits of the target outside the hunks within the displacement bound, both directions, all context sizes",
  FIX + "one fixed three-line displacement is tried, forwards only.",
  [L+"apply_text.rs"], [("will_apply_nearby search and running offset", L+"apply_text.rs"), ("ApplyClumpsFuzzy::apply_into", L+"apply_text.rs")],
  ["ApplyClumpsFuzzy::apply_into output", "Statistics"])
p("T04", "Hunks apply when outer context lines were edited, keeping those edits",
  "If, besides moving, outermost context lines of a hunk were changed, removed or joined by new ones in the target while at least the innermost line of the longer context and all changed lines survive, the hunk is still applied at its place in either direction: exactly the recorded change is made, the target's own version of the altered context is kept, and the hunk is counted as fuzzy, not failed.",
  ["inputs"], "all diffs with context of at least two lines, all alterations (replacements, removals, insertions) of outer context lines, also at the start and the end of the file, with and without displacement, both directions",
  FIX + "no test ever applies (rather than probes) a hunk with reduced context.",
  [L+"apply_text.rs"], [("will_apply context reductions", L+"apply_text.rs"), ("before_write_into / before_adjusted_length with reductions", L+"apply_text.rs")],
  ["ApplyClumpsFuzzy::apply_into output", "Statistics"])
p("T05", "Any text diff applied to any text is fully accounted for and never crashes",
  "Applying any computed text diff to any text whatever, in either direction, returns without crashing and reports each hunk exactly once as clean, fuzzy, already applied or failed. The output is the target with exactly the reported hunks replaced, in order and without overlap, at places whose lines match the hunk up to dropped outer context, plus one conflict block per failed hunk; no other text of the target is lost, duplicated, reordered or altered. A hunk whose lines are all found at the expected position (its recorded one, shifted as the previous hunk was) is applied there cleanly.",
  ["inputs"], "all triples (before, after, target) and context sizes, both directions, including unrelated, truncated, empty and partly patched targets",
  FIX + "targets are always the original, the result, or the original with a three-line prefix.",
  [L+"apply_text.rs", L+"sequence.rs"],
  [("ApplyClumpsFuzzy::apply_into decision chain", L+"apply_text.rs"), ("ConsumableSeq", L+"sequence.rs")],
  ["ApplyClumpsFuzzy::apply_into output", "Statistics"])
p("T06", "Already applied text changes are recognised and not applied twice",
  "Asked whether a diff is already applied, the answer is yes for the patched text (and, in reverse, for the original), and no for a text lacking a line that some hunk adds. Re-applying a diff to the text it produced, when every hunk removes a line no longer present there, leaves that text unchanged, even after unrelated edits outside the hunks, and reports every hunk as already applied.",
  ["inputs", "histories"], "all text pairs and context sizes, both directions; re-application with and without unrelated edits",
  FIX + "one pair is re-applied and three queries are made.",
  [L+"apply_text.rs"], [("is_already_applied / is_already_applied_nearby / already_applied_into", L+"apply_text.rs")],
  ["ApplyClumpsFuzzy::is_already_applied", "ApplyClumpsFuzzy::apply_into"])
p("T07", "A hunk that cannot be applied is recorded as a conflict and loses nothing",
  "When the changed lines of some hunks are absent from the target in both old and new form, each such hunk is counted as failed and written as one conflict block (a line of seven '<', the lines it looks for, a line of seven '=', the lines it would put there, a line of seven '>'), each marker on a line of its own. All other hunks are still applied and every target line survives.",
  ["inputs"], "all diffs, all choices of hunks whose target region was overwritten, both directions, with and without final newline",
  "No test ever applies a hunk that fails.",
  [L+"apply_text.rs"], [("write_failure_data_into", L+"apply_text.rs"), ("ApplyClumpsFuzzy::apply_into failure branch", L+"apply_text.rs")],
  ["ApplyClumpsFuzzy::apply_into output", "Statistics::failed"])

p("T08", "The log tells the outcome of every hunk under its own number",
  "Applying any text or byte diff to any target logs exactly one line per hunk, in order, naming the hunk by its number counted from 1: at info level if it applied cleanly, as a warning if it applied with an offset or reduced context (naming the offset) or was already applied, as an error if it could not be applied. The lines agree with the returned statistics and with what was written. Asking whether a diff is already applied logs the hunks found applied, up to and including the first that is not, as an error.",
  ["inputs"], "all diffs and all targets, both directions, text and bytes",
  "No test looks at the log, which is all that tells the user which hunk of a diff failed.",
  [L+"apply_text.rs", L+"apply_bytes.rs"],
  [("log lines of ApplyClumpsFuzzy::apply_into and is_already_applied", L+"apply_text.rs"), ("log lines of ApplyClumpsClean::apply_into and already_applied", L+"apply_bytes.rs")],
  ["log records", "Statistics", "ApplyClumpsFuzzy::apply_into output"])

p("B01", "Applying a byte diff reproduces the other file exactly, both ways",
  "For any two byte strings and any context size, applying their byte diff to the first yields the second exactly, and applying it in reverse to the second yields the first exactly, including when either is empty.",
  ["inputs", "configurations"], "all pairs of byte strings and all context sizes, both directions",
  "Byte diffs and byte patches have no tests.",
  [L+"apply_bytes.rs", L+"byte_diff.rs", L+"sequence.rs"],
  [("ApplyClumpsClean::apply_into", L+"apply_bytes.rs"), ("ByteChangeClump::will_apply / apply_into", L+"byte_diff.rs")],
  ["ApplyClumpsClean::apply_into output"])
p("B02", "Byte hunks only ever replace exactly matching bytes, on any target",
  "Applying any byte diff to any byte string, in either direction, never crashes: each hunk replaces bytes only where the target holds exactly the recorded bytes at the recorded position, and replaces them by exactly the recorded new bytes. A hunk that matches there and does not overlap earlier hunks is applied; for any other hunk the target's bytes pass through unchanged, with none lost, duplicated or reordered.",
  ["inputs"], "all triples (before, after, target) of byte strings, all context sizes, both directions, including partly patched and truncated targets",
  "Byte patches have no tests.",
  [L+"apply_bytes.rs", L+"byte_diff.rs", L+"sequence.rs"],
  [("ApplyClumpsClean::apply_into decision chain", L+"apply_bytes.rs"), ("Seq::has_subsequence_at", L+"sequence.rs"), ("ConsumableSeq", L+"sequence.rs")],
  ["ApplyClumpsClean::apply_into output"])
p("B03", "Already applied byte changes are recognised and not applied twice",
  "Asked whether a byte diff is already applied, the answer is yes for the patched bytes (and, in reverse, for the original), and in general exactly when every hunk's new bytes are present at their recorded position. Re-applying a byte diff to its own result leaves it unchanged whenever no hunk's old bytes are found at their old position there.",
  ["inputs"], "all pairs and triples of byte strings, all context sizes, both directions",
  "Byte patches have no tests.",
  [L+"apply_bytes.rs", L+"byte_diff.rs"], [("ApplyClumpsClean::already_applied", L+"apply_bytes.rs"), ("ByteChangeClump::is_already_applied / already_applied_into", L+"byte_diff.rs")],
  ["ApplyClumpsClean::already_applied", "ApplyClumpsClean::apply_into"])

p("F01", "A saved diff reloads to the same diff",
  "Writing any diff (text or byte; change, addition or removal) and reading it back gives a diff that writes out identically, keeps paths and contents, and applies with the same result; any line content, including control characters, quotes, backslashes and non-ASCII text, survives. Loading anything that is not a complete saved diff is reported as an error, never a crash or a partial diff.",
  ["inputs"], "all diffs of all kinds, all contents; all truncations and random corruptions of saved diffs",
  "No test saves or loads a diff.",
  [L+"diff.rs", L+"text_diff.rs", L+"byte_diff.rs", L+"snippet.rs"],
  [("Diff::to_writer / from_reader", L+"diff.rs"), ("TextChangeDiff / ByteChangeDiff to_writer / from_reader", L+"text_diff.rs, "+L+"byte_diff.rs")],
  ["Diff JSON"])
p("F02", "The kind of diff and its recorded contents match the files given",
  "Comparing two paths gives a change if both exist, a removal if only the first exists, an addition if only the second exists, and an error if neither does; it is a text diff exactly when every file involved is valid UTF-8 and a byte diff otherwise. Additions and removals carry the whole content unaltered and name the first path; changes name both paths. Asked directly for a text or a byte diff or content, a file that is missing, unreadable or (for text) not UTF-8 is an error; so is a path that cannot be looked up. All this holds for pipes, which can be read only once, as for files.",
  ["inputs"], "all presence combinations and all contents of the two files",
  "No test constructs a diff from files.",
  [L+"diff.rs", L+"text_diff.rs", L+"byte_diff.rs"], [("Diff::new", L+"diff.rs"), ("PathAndLines / PathAndBytes", L+"text_diff.rs, "+L+"byte_diff.rs")],
  ["Diff::new", "Diff JSON"])
p("F03", "I/O errors while writing or reading are reported, never swallowed",
  "If the destination fails at any byte while a patch result, a saved diff, a file's recorded content or any part of a sequence or snippet is being written, the operation returns an error and what was written is a prefix of the correct output; destinations that accept only part of each write or are interrupted still receive the complete output. A reader that fails while a saved diff is loaded makes loading fail.",
  ["inputs", "fault_sequences"], "all diffs and targets; a failure injected at every byte offset; all short-write and interruption patterns",
  "Tests only write to in-memory buffers that cannot fail.",
  [L+"apply_text.rs", L+"apply_bytes.rs", L+"sequence.rs", L+"snippet.rs", L+"diff.rs"],
  [("? propagation in apply_into / write_into / to_writer", L+"apply_text.rs, "+L+"apply_bytes.rs, "+L+"sequence.rs")],
  ["apply_into", "write_into", "to_writer", "from_reader"])

p("P01", "pw_diff then pw_patch turns the old file into the new one",
  "For any old and new file contents (text or binary), including a missing old file (addition) or a missing new file (removal), and any -c context, running pw_diff and then pw_patch on its output exits 0 and leaves the old path with exactly the new content (or absent), the new path and every other file untouched, and nothing behind. The same holds however the paths are written (absolute, through other directories), wherever the patch is kept, when the new content or the patch comes through a pipe, and when other files of the directory are patched at the same time.",
  ["inputs", "configurations"], "all file contents, presence combinations, context options, nested relative paths and unusual file names",
  "The two programs have no tests.",
  ["pw_diff/src/main.rs", "pw_patch/src/main.rs", L+"diff.rs"],
  [("main of pw_diff", "pw_diff/src/main.rs"), ("main of pw_patch", "pw_patch/src/main.rs")],
  ["process exit status", "file system after the run"])
p("P02", "pw_patch --reverse undoes pw_patch",
  "For any old and new file contents as above, running pw_patch --reverse with the same diff on the patched tree exits 0 and restores exactly the old state: original content, removed file recreated with its content, added file deleted, and no other file behind.",
  ["inputs", "configurations"], "all file contents, presence combinations and context options",
  "The two programs have no tests.",
  ["pw_patch/src/main.rs"], [("main of pw_patch, reverse branches", "pw_patch/src/main.rs")],
  ["process exit status", "file system after the run"])
p("P03", "A failing or killed pw_patch never leaves the patched file damaged",
  "If any file operation of pw_patch fails, or the process is killed at any file operation or write, while applying a change, the file being patched holds either exactly its old content or exactly its fully patched content. Exit status 0 implies the latter, a failure of reading or writing its data implies a non-zero status and the former, interrupted and partial reads and writes are harmless, and unless killed it leaves no stray file behind. Every non-zero exit comes with a message on standard error.",
  ["crash_points", "fault_sequences", "inputs"], "every file operation of every run (failing, short, interrupted, killed), every output-size limit, unreadable or malformed patch files, missing targets",
  "The programs have no tests; no fault is ever injected.",
  ["pw_patch/src/main.rs"], [("write to a temporary file, then rename over the target", "pw_patch/src/main.rs"), ("exit(1) on each error", "pw_patch/src/main.rs")],
  ["process exit status", "file system after the run"])
p("P04", "pw_diff reports success only for a complete diff and changes no file",
  "pw_diff never creates, modifies or removes any file; its output is a complete, loadable diff whenever it exits 0. If an input cannot be read, neither input exists, or the output cannot be written completely, it exits non-zero with a message on standard error.",
  ["fault_sequences", "inputs"], "all inputs; a failure at every file operation and at every output byte",
  "The programs have no tests.",
  ["pw_diff/src/main.rs", L+"diff.rs"], [("error exits in main", "pw_diff/src/main.rs"), ("Diff::to_writer", L+"diff.rs")],
  ["process exit status", "standard output", "file system after the run"])
p("P05", "pw_patch never overwrites on creation and never fails silently",
  "Applying an addition (or reversing a removal) never overwrites an existing file and exits non-zero if the file exists or cannot be created or written completely; applying a removal (or reversing an addition) deletes exactly the named file and exits non-zero if it cannot. A missing or unreadable patch file, malformed patch data, or a missing file to patch gives a non-zero exit and changes nothing. Every non-zero exit comes with a message on standard error.",
  ["inputs", "fault_sequences"], "all patch kinds and directions against all pre-existing states of the target path; write failures at every byte",
  "The programs have no tests.",
  ["pw_patch/src/main.rs"], [("File::create_new / remove_file branches", "pw_patch/src/main.rs"), ("error exits", "pw_patch/src/main.rs")],
  ["process exit status", "file system after the run"])
p("P06", "A stack of patches can be pushed and popped through any history",
  "For any history of edits to a set of files (creating, changing, deleting, switching between text and binary), the series of diffs between successive versions can be applied forwards and undone in reverse in any push/pop order: after every step each file equals the version at that depth, exactly.",
  ["histories"], "all edit histories and all push/pop walks over the resulting patch series",
  "Tests apply single patches; no test applies a series.",
  [L+"diff.rs", "pw_patch/src/main.rs", "pw_diff/src/main.rs"], [("Diff kinds and reverse", L+"diff.rs"), ("main of pw_patch", "pw_patch/src/main.rs")],
  ["file system after each step"])
p("P07", "pw_patch patches any version of the file and names every hunk that failed",
  "For any text or byte change and any existing version of the file that is readable as the diff's kind, pw_patch (forwards or in reverse) exits 0, leaves in the file exactly what the library makes of it (hunks applied, recognised as already applied, or recorded as conflicts) and touches nothing else. On standard error it names, by number and in order, each hunk that could not be applied and no other; with -v also those not applied cleanly, with -vv all.",
  ["inputs", "configurations"], "all change diffs and all target contents, both directions, all verbosities",
  "The programs have no tests.",
  ["pw_patch/src/main.rs", L+"apply_text.rs", L+"apply_bytes.rs"], [("stderrlog set-up and the change branches of main", "pw_patch/src/main.rs"), ("ApplyClumps*::apply_into", L+"apply_text.rs")],
  ["process exit status", "standard error", "file system after the run"])

p("U01", "Standard unified hunks are parsed to the exact lines they describe",
  "Parsing any well-formed unified diff hunk gives the header's numbers, exactly the old and the new lines it describes without their one-character prefixes, with a line's newline (and only that) removed where a 'No newline at end of file' marker follows it, the numbers of leading and trailing context lines, and the number of diff lines it occupies. Positions and ranges queried on it are 0-based and agree with the lines, in both directions.",
  ["inputs"], "all well-formed hunks: any line content, counts, order of +/- lines, omitted counts of 1, no-newline markers anywhere, trailing section text, anything following the hunk",
  "Two tests only check that a hunk at one index is or is not recognised.",
  [U, "pw_cub_diff_lib/src/text_diff.rs"], [("UnifiedDiffClump::get_from_at", U), ("ChangeBasics / TextClumpBasics for UnifiedDiffClump", U)],
  ["UnifiedDiffClump fields", "TextClumpBasics"])
p("U02", "Rendered unified hunks are valid and describe exactly the change",
  "For any two texts and context size, the rendered unified hunks are well-formed standard hunks: counts match the body, starts are 1-based (the preceding line if the count is 0), every line starts with its one-character prefix on a line of its own, and a missing final newline is marked. Applying them with standard unified-diff rules turns the first text into exactly the second, and the second into the first in reverse.",
  ["inputs", "configurations"], "all text pairs, with and without final newlines on either side, all context sizes",
  "Rendering has no tests.",
  [U], [("UnifiedClumpIter::next", U), ("Display for StartsAndLengths", U)],
  ["UnifiedClumpText"])
p("U03", "The unified parser accepts or rejects any text without crashing",
  "For any text and any line index up to its end, parsing a hunk there returns a hunk, 'no hunk here', or an error, and never crashes; a line that is not a hunk header is 'no hunk here'. A returned hunk's line counts always equal those its header announces and lie within the text; a hunk that is cut short, has a body line with an unknown prefix, or whose body contradicts its header is an error of the matching kind, which names the first line that cannot belong to the hunk (or the header, for a number too large).",
  ["inputs"], "all texts and line indices, in particular mutated, truncated and random hunks and absurd header numbers",
  "Two tests feed one valid diff each.",
  [U], [("UnifiedDiffClump::get_from_at error paths", U), ("CLUMP_HEADER_REGEX", U)],
  ["UnifiedDiffClump::get_from_at"])
p("U04", "Hunk header numbers survive formatting and parsing",
  "Formatting any four header numbers and parsing the result gives the same numbers, counts of 1 are left out and others are not, and any spelling allowed by the format (explicit count 1, trailing section text, line end or none) parses to the same numbers. Numbers too large are an error that names the line and lines that are not hunk headers are not accepted.",
  ["inputs"], "all starts and lengths; all spellings",
  "No test looks at parsed header numbers.",
  [U], [("starts_and_lengths", U), ("Display for StartsAndLengths", U)], ["starts_and_lengths", "Display"])
p("U05", "File header lines yield the exact path and timestamp",
  "For any '---' or '+++' header line with a plain or double-quoted path and optionally a timestamp in either supported format, the parsed path and timestamp are exactly those in the line (quotes removed, no timestamp if there is none), and the line is recognised only as its own kind.",
  ["inputs"], "all paths without whitespace or quotes, all quoted paths without quotes, all timestamps in the two formats",
  "No test parses a file header.",
  [U, "pw_cub_diff_lib/src/lib.rs"], [("before_path_and_time_stamp / after_path_and_time_stamp", U), ("TIMESTAMP_RE_STR / ALT_TIMESTAMP_RE_STR / PATH_RE_STR", "pw_cub_diff_lib/src/lib.rs")],
  ["before_path_and_time_stamp", "after_path_and_time_stamp"])
p("U06", "A parsed unified diff patches like a native one",
  "For any two texts and context size, rendering the diff as unified text, parsing all its hunks back and using them as patch hunks applies cleanly to the first text giving exactly the second, and in reverse to the second giving exactly the first; hunks found one after another by their consumed line counts are all the hunks there are. The same holds for equivalent hunks written in GNU diff's form.",
  ["inputs", "configurations"], "all text pairs and context sizes, both directions",
  "No test connects parsing, rendering and application.",
  [U, L+"apply_text.rs"], [("TextClumpBasics for UnifiedDiffClump", U), ("UnifiedDiffClump::lines_consumed", U), ("ApplyClumpFuzzy default methods", L+"apply_text.rs")],
  ["UnifiedDiffClump", "ApplyClumpsFuzzy"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
