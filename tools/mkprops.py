#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids, anchors and texts stay in one place)."""
import json, os
A = "src/apply.rs"; D = "src/diff/mod.rs"; MY = "src/diff/myers.rs"; C = "src/diff/cleanup.rs"
R = "src/range.rs"; U = "src/utils.rs"; M = "src/merge/mod.rs"; P = "src/patch/mod.rs"; PA = "src/patch/parse.rs"; F = "src/patch/format.rs"
mech = lambda *xs: [{"name": n, "where": w} for n, w in xs]
st = lambda *xs: [{"name": n, "meaning": m, "where": w} for n, m, w in xs]
ps = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    ps.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=list(state), mechanism=mechanism,
        observe_at=list(observe), hook_needed=None)))

prop("P01", "Applying a created patch to the original yields exactly the modified text",
 "For any two texts and any context length, the patch created from the original to the modified text applies to the original without error and the result is byte for byte the modified text. This includes texts without a final newline, empty texts, texts of repeated lines and a context length of zero.",
 ["inputs", "configurations"], "every pair of texts (UTF-8 or bytes) and every context length",
 "The tests apply a handful of hand-written pairs, nearly all with the default context length; repeated lines, zero context and missing final newlines interact and only some combinations are wrong.",
 [D, MY, C, A, U], mech(("edit script and hunk construction", D + ":236"), ("middle snake divide and conquer", MY + ":185"), ("diff compaction", C + ":6"), ("hunk placement and replacement", A + ":120")),
 st(("edit script", "aligned equal/delete/insert runs of the two line sequences", D), ("image", "lines of the file being patched, with a patched flag", A)),
 ["create_patch / create_patch_bytes / DiffOptions::create_patch*", "apply / apply_bytes"])
prop("P02", "Reversing a patch undoes it",
 "For any two texts and any context length, the reverse of the created patch applies to the modified text and gives back the original byte for byte. Reversing swaps file names, ranges and insertions with deletions, keeps the order of hunks and lines, and reversing twice gives a patch equal to the first.",
 ["inputs", "configurations"], "every pair of texts and context length; every patch, created or parsed",
 "One unit test reverses a few patches; reversal swaps which side has the empty range, so pure insertions at the edges and zero context only fail one way round.",
 [P, A, D], mech(("patch and hunk reversal", P + ":56"), ("line reversal", P + ":402"), ("hunk placement", A + ":142")), (),
 ["Patch::reverse, Hunk::reverse", "apply(modified, patch.reverse())"])
prop("P03", "Every hunk states the truth about both files",
 "In a created patch each hunk's ranges are the lengths of its old and new sides, its lines are exactly the lines of the two files at the stated positions, hunks are in order without overlap, and everything outside the hunks is identical in both files. There are no hunks if and only if the texts are equal, every hunk contains a change, and an empty range is numbered by the line before it.",
 ["inputs", "configurations"], "every pair of texts and every context length",
 "Tests compare a few expected patches; that numbers and lines tell the truth for all alignments is not a comparison with examples.",
 [D, P, MY, C], mech(("hunk construction from the edit script", D + ":236"), ("hunk extent", D + ":328"), ("edit script", D + ":361"), ("range accessors", P + ":338")),
 st(("hunk ranges", "1-based start and length per side, start = line before when empty", P + ":331")),
 ["Patch::hunks, Hunk::old_range/new_range/lines, HunkRange accessors"])
prop("P04", "The requested number of context lines is honoured",
 "With context length n, each hunk of a created patch starts with exactly min(n, available) unchanged lines and ends with exactly min(n, available); inside a hunk two changes are never separated by more than 2n unchanged lines, and changes in different hunks are never separated by fewer than 2n. This holds for every n including zero and the largest representable value.",
 ["inputs", "configurations"], "every pair of texts, every context length from 0 to usize::MAX",
 "Tests use the default and one or two other lengths on one document; merging of nearby changes has off-by-one cases at gaps 2n-1, 2n, 2n+1 and at both file ends.",
 [D], mech(("merging of nearby edits", D + ":236"), ("hunk end", D + ":328")), (), ["DiffOptions::set_context_len + create_patch", "Patch::hunks"])
prop("P05", "A created patch is minimal",
 "The number of lines a created patch deletes plus inserts is the least possible for turning the original lines into the modified lines. Tidying the diff for readability never adds changes.",
 ["inputs"], "every pair of texts",
 "Tests check minimality only implicitly for examples; a divide-and-conquer slip yields correct but larger diffs, which every round-trip test still accepts.",
 [MY, C, U, D], mech(("middle snake search", MY + ":80"), ("conquer", MY + ":185"), ("compaction", C + ":31"), ("line classification", U + ":28")),
 st(("furthest-reaching points", "per-diagonal frontier of the bidirectional search", MY)), ["create_patch", "Patch::hunks"])
prop("P06", "Printing a patch and parsing it back gives the same patch",
 "For every created patch, its reverse, and every patch obtained by parsing, the printed form parses to an equal patch: same names, ranges, section heading and lines including which line lacks its newline. Printing that patch again gives the same bytes, and equality of patches agrees with equality of their contents.",
 ["inputs", "configurations"], "every created, reversed or parsed patch; default and blank-suppressing printing",
 "Tests round-trip a few patches; lines that look like headers or markers, blank lines, headings and odd names each need their own combination.",
 [F, PA, P], mech(("printing", F + ":125"), ("parsing", PA + ":205"), ("no-newline marker", PA + ":284")), (),
 ["Patch::to_string / to_bytes / PatchFormatter", "Patch::from_str / from_bytes", "Patch == Patch"])
prop("P07", "Patches print in exact unified diff form",
 "The printed form is the unified diff format: optional '---' and '+++' lines, for each hunk a '@@ -a,b +c,d @@' line (the count omitted when 1) with its section heading, then each line with its sign, and after a line without newline the no-newline message. The formatter options change only what they name: the message is left out when disabled and the blank of empty context lines is left out when suppressed.",
 ["inputs", "configurations"], "every patch and every combination of formatter options and printing entry points",
 "Tests compare a few strings; the interaction of options, line kinds, missing newlines and ranges of length 0 and 1 is a product.",
 [F, P], mech(("patch printing", F + ":125"), ("hunk printing", F + ":184"), ("line printing", F + ":249"), ("range printing", P + ":369")), (),
 ["Display for Patch, Patch::to_bytes, PatchFormatter::fmt_patch / write_patch_into"])
prop("P08", "A well-formed patch document parses to what it says",
 "Any well-formed unified diff document is accepted and the patch holds precisely its names, ranges, section headings and lines, ignoring any preamble before the headers. Header lines may come in either order or be missing, ranges may omit a count of one, a context line may be blank, and a no-newline marker removes the newline from the line before it.",
 ["inputs"], "every document of the unified diff grammar",
 "Tests parse about ten documents; the grammar's optional parts multiply and body lines may imitate every other kind of line.",
 [PA, U], mech(("preamble and headers", PA + ":86"), ("hunk header", PA + ":232"), ("hunk body", PA + ":284"), ("line splitting", U + ":53")),
 st(("parser position", "remaining lines of the document", PA + ":33")), ["Patch::from_str / from_bytes"])
prop("P09", "Malformed patch documents are rejected",
 "A document whose hunk header counts disagree with the hunk's body, whose hunks are out of order or overlap, whose headers are repeated, whose numbers or names are malformed, or that has stray lines inside or after hunks is reported as an error. It never yields a patch.",
 ["inputs"], "every document outside the unified diff grammar",
 "Tests reject a handful of documents; there are many ways to be wrong and each guard must hold for all of them.",
 [PA], mech(("count check", PA + ":219"), ("order check", PA + ":194"), ("line kinds", PA + ":284"), ("name check", PA + ":155")), (), ["Patch::from_str / from_bytes"])
prop("P10", "Applying replaces only matched old lines and never silently corrupts",
 "When applying succeeds on any base text, the result is that text with, for each hunk, one block of lines equal to the hunk's context and deleted lines replaced by its context and inserted lines; blocks of different hunks never overlap one another's output. Everything else is byte for byte unchanged, and if a hunk's lines occur nowhere the call fails instead of guessing.",
 ["inputs"], "every base text and every patch, whether or not the patch was made for that text",
 "Tests apply patches to their own originals; foreign or drifted base texts are unbounded and corruption is silent.",
 [A], mech(("fragment match", A + ":185"), ("patched flag", A + ":38"), ("splice", A + ":120")),
 st(("image", "sequence of lines with a flag for those written by an earlier hunk", A + ":22")), ["apply / apply_bytes"])
prop("P11", "Hunks land at the nearest matching position, errors name the hunk",
 "Each hunk, in order, is applied at the matching position nearest to the line it states in the file as earlier hunks left it, over the whole file however far it drifted, so a patch whose lines match at their stated place is applied there. If some hunk matches nowhere, the call fails and the error names the first such hunk, counting from one.",
 ["inputs"], "every base text and patch, any displacement in either direction",
 "Tests cover no drift or a single one; the search alternates directions, stops at file ends, and its distance rule only shows with several candidate matches.",
 [A], mech(("position search", A + ":142"), ("interleaved outward search", A + ":213"), ("error number", A + ":91")), (), ["apply / apply_bytes", "ApplyError display"])
prop("P12", "A clean merge combines the changes of both sides",
 "When a three-way merge reports success, the result is the ancestor with every change of both sides made and nothing else: regions changed by one side come out as that side has them, regions changed identically come out once, and unchanged regions stay. Changes that both sides made to disjoint, separated regions never conflict, and a side equal to the ancestor yields the other side.",
 ["inputs"], "every triple of texts",
 "Tests merge a dozen triples; the walk over two edit scripts has many relative positions of edits that examples do not reach, and a lost edit looks like a successful merge.",
 [M, R], mech(("walk over two edit scripts", M + ":280"), ("range classification", M + ":384"), ("range joining", M + ":441"), ("conflict cleanup", M + ":468")),
 st(("merge ranges", "equal / both / conflict / ancestor / ours / theirs runs", M + ":46")), ["merge / merge_bytes / MergeOptions::merge*"])
prop("P13", "Overlapping different changes are always reported as conflicts",
 "When both sides change the same region differently the merge reports a conflict, and the conflict region shows the complete text of our side and of their side (and of the ancestor in the three-version style) for that region. No line of either side is lost or silently chosen, and regions outside conflicts are merged as in a clean merge.",
 ["inputs", "configurations"], "every triple of texts, both conflict styles",
 "Tests check a few conflicts; a dropped line or a conflict resolved silently needs particular adjacent edits.",
 [M], mech(("range joining", M + ":384"), ("conflict cleanup", M + ":468"), ("output", M + ":493")), (), ["merge / merge_bytes, Err value"])
prop("P14", "Conflict regions are rendered exactly in the requested style",
 "Each conflict is rendered as the opening marker with ' ours', our text, in the three-version style the ancestor marker with ' original' and its text, the separator, their text, and the closing marker with ' theirs'; markers have the configured length and each stands on a line of its own even when a side lacks a final newline. The style and the length change nothing else, and in particular not whether there is a conflict.",
 ["inputs", "configurations"], "every conflicting triple, both styles, every marker length including zero",
 "Tests use length 7 and texts ending with newline; the two renderers (text and bytes) are separate code.",
 [M], mech(("text rendering", M + ":493"), ("bytes rendering", M + ":564"), ("markers", M + ":542")), (), ["MergeOptions::set_conflict_style / set_conflict_marker_length", "merge result"])
prop("P15", "Merging treats the two sides alike",
 "Swapping the two sides of a three-way merge swaps the two sides' sections in every conflict and changes nothing else: not whether there is a conflict, and no text outside the conflicts. In particular a clean merge gives the same result whichever side is called ours.",
 ["inputs", "configurations"], "every triple of texts, both conflict styles",
 "No test swaps the sides; an asymmetry only shows at particular adjacencies of edits.",
 [M], mech(("walk over two edit scripts", M + ":280"), ("range classification", M + ":384")), (), ["merge(o, a, b) and merge(o, b, a)"])
prop("P16", "The text and the byte interfaces agree",
 "For every UTF-8 input the text call and the byte call of each operation (create, parse, print, apply, merge, with any options) return the same result, success or failure alike, up to the type. The byte interface handles arbitrary bytes by the same line rules.",
 ["inputs", "configurations"], "every operation, input and option set; byte inputs that are not UTF-8 for the byte calls",
 "The two paths are separate implementations (line iteration, searching, formatting, rendering); tests exercise them on the same few samples.",
 [U, F, M, PA, P, D], mech(("text abstraction over str and bytes", U + ":75"), ("byte search", U + ":197"), ("two formatters", F + ":125"), ("two merge renderers", M + ":493")), (), ["each str API next to its _bytes twin"])
prop("P17", "No input makes the library panic, abort or hang",
 "Every call with any texts, documents, patches and options returns normally, with a value or an error, in bounded time and stack: no panic, arithmetic overflow, stack exhaustion or endless loop. This includes hostile patch documents with huge numbers, patches applied to unrelated texts, and very large or entirely different files.",
 ["inputs", "configurations"], "every call of the public interface on every input",
 "Tests pass well-behaved input only; panics need particular numbers, boundaries or sizes.",
 [PA, A, D, MY, C, M, R, U, P, F], mech(("checked numbers", PA + ":260"), ("bounded position search", A + ":142"), ("recursion on halves", MY + ":185"), ("slicing by checked ranges", R + ":136")), (), ["every public call"])
prop("P18", "Results depend only on the arguments",
 "Equal calls give equal results, in the same process after any other calls, on any thread and concurrently, and in a new process. No call changes a patch it is given, and a copy of a patch is the same patch.",
 ["histories", "schedules", "inputs"], "every history of earlier calls, every interleaving with other threads, every process",
 "Unit tests call once and compare once; dependence on hash seeds, caches or shared state shows only across repetitions, threads or processes.",
 [U, D, MY, M], mech(("line classification by hash map", U + ":14"), ("no global state", D + ":107")), st(("none", "the library is meant to hold no state between calls", "src/lib.rs")), ["every public call, repeated"])
prop("P19", "Coloured output is the plain output plus styling",
 "With colours on, removing the terminal style sequences from the printed patch gives exactly the plain printed patch, for every patch, option combination and entry point. Coloured and plain output thus say the same thing.",
 ["inputs", "configurations"], "every patch (whose own text has no style sequences) and every formatter option combination",
 "One or two coloured strings are compared in tests; every line kind, option and entry point has its own coloured branch.",
 [F], mech(("coloured branches", F + ":249"), ("style", F + ":23")), (), ["PatchFormatter::with_color + fmt_patch / write_patch_into"])
prop("P20", "File names survive creation, printing and parsing",
 "A file name given to the diff options is reported by the patch and, for every name, the printed patch parses back to a patch with the same name; names with control characters, quotes or backslashes are quoted with escapes and others are printed as they are. Names that are written with invalid escapes or unquoted special characters are rejected.",
 ["inputs", "configurations"], "every pair of names, created or parsed, through text and byte interfaces",
 "Tests use a few names; each special character has its own escape in four places that must agree.",
 [P, PA, D], mech(("quoting", P + ":151"), ("quoting in bytes", P + ":176"), ("unquoting", PA + ":165"), ("name checks", PA + ":155")), (), ["DiffOptions::set_original_filename / set_modified_filename", "Patch::original / modified", "print and parse"])
prop("P21", "A history of patches replays forward and backward",
 "For any sequence of versions of a text, the patches between successive versions, after any printing and parsing and reversing on the way, take the first version to the last and back through every intermediate version. When all lines are different, patches with context that touch separate regions give the same result applied in either order.",
 ["histories", "inputs"], "every sequence of versions and of print, parse, reverse and apply steps",
 "No test chains operations; errors that cancel in one step or depend on an earlier step only show in longer histories.",
 [D, A, P, PA, F], mech(("creation", D + ":236"), ("placement", A + ":142"), ("reversal", P + ":56"), ("round trip", PA + ":205")), (), ["sequences of create, print, parse, reverse, apply"])
prop("P22", "Printing into a writer hands over all of it, or reports the writer's failure",
 "Printing a patch into a writer (write_patch_into, or the Display forms into any fmt::Write) hands over exactly the printed form, in order, however the writer shortens, splits or interrupts the writes. The call succeeds only if all of it was handed over. If the writer fails, the call returns that failure, and what the writer took before is a beginning of the printed form.",
 ["inputs", "configurations", "fault_sequences"], "every patch, formatter option and writer: any room, any split of writes, interruptions, failures at any byte",
 "Tests print into vectors and strings, which take everything at once and never fail.",
 [F, P], mech(("patch, hunk and line writing", F + ":125"), ("name writing", P + ":176"), ("Display forms", F + ":150")), (),
 ["PatchFormatter::write_patch_into with any io::Write", "Display of Patch and of PatchFormatter::fmt_patch into any fmt::Write"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in ps: f.write(json.dumps(p) + "\n")
print(len(ps))
