#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})
G = "gitdiff/"
prop("C01", "Strict text apply is exact: the right bytes or an error",
 "Applying a text patch succeeds exactly when every fragment's old lines (context and deleted) occur byte for byte at the fragment's stated position in the source and the fragments do not overlap; the output is then the source with each old range replaced by the fragment's new lines, every other byte (including a missing final newline) unchanged. A fragment with an empty old range inserts after the stated line, a fragment at position 0 requires an empty source, and a '+0,0' fragment requires that nothing of the source is left after it. In every other case Apply returns an error and a mismatch with the source is reported as a Conflict (positions beyond any source, near 2^63, need only give an error).",
 ["inputs"], "every source content and every list of fragments (positions, line counts, line operations, line contents, missing final newlines)",
 "The tests apply about 30 fixed patch/source pairs; which position, content or end-of-file shape is mishandled cannot be settled by samples.",
 [G+"apply.go", G+"apply_text.go", G+"io.go"],
 [("TextApplier.ApplyFragment", G+"apply_text.go"), ("readPreimage", G+"apply_text.go"), ("lineReaderAt", G+"io.go"), ("copyLinesFrom", G+"io.go")],
 ["gitdiff.Apply", "TextApplier.ApplyFragment/Close", "bytes written to dst"])
prop("C02", "Apply does not depend on fragment order and never mutates the patch",
 "Applying a file gives the same output or fails whichever order its text fragments are listed in (two pure insertions at the same point excepted, whose order is not defined), and overlapping fragments are always rejected as a Conflict. Applying, formatting or validating a File leaves the File, its fragments and their lines exactly as they were, so the same File can be applied again with the same result.",
 ["inputs", "histories"], "every permutation of every set of fragments with distinct positions, and every repetition of Apply/String/Validate on one File",
 "No test lists fragments out of order with more than one shape or compares the File before and after.",
 [G+"apply.go", G+"apply_text.go", G+"format.go"],
 [("sorted copy of the fragment slice", G+"apply.go"), ("overlap check", G+"apply_text.go")],
 ["gitdiff.Apply", "File value before and after"])
prop("C03", "Binary literal apply yields exactly the inflated data or an error",
 "Applying a literal binary fragment, or reading its Data, yields exactly the decompressed content when the zlib stream is intact and its length equals the declared size, whatever the source holds. A stream that is truncated, fails its checksum, or inflates to more or fewer bytes than declared is always an error, never a silent success, and at most size+1 bytes are ever produced.",
 ["inputs"], "every content, declared size, checksum and truncation of the compressed stream, every read-buffer size",
 "Tests cover one intact and two wrong-size streams; off-by-one sizes, checksum damage and read-boundary cases need every size/split.",
 [G+"binary_reader.go", G+"apply_binary.go"],
 [("binaryReader.Read", G+"binary_reader.go"), ("BinaryApplier.ApplyFragment", G+"apply_binary.go")],
 ["gitdiff.Apply", "BinaryFragment.Data().Read"])
prop("C04", "Delta apply implements Git's delta format exactly and rejects corruption",
 "Applying a delta fragment writes exactly the bytes described by Git's packfile delta encoding (little-endian 7-bit sizes; insert opcodes; copy opcodes with sparse offset/size bytes and size 0 meaning 0x10000). A delta whose source size differs from the source, whose header or an instruction is truncated, that uses opcode 0, copies outside the source, or produces more or fewer bytes than its declared target size is always an error; so is one whose compressed stream is corrupt or not as long as declared, with nothing written.",
 ["inputs"], "every source, every delta instruction stream (opcodes, operands, sizes, truncations)",
 "Tests run one real delta and a handful of broken ones; there are 128 copy opcodes with up to 7 operand bytes each and arbitrary size encodings.",
 [G+"apply_binary.go", G+"io.go"],
 [("applyBinaryDeltaFragment", G+"apply_binary.go"), ("readBinaryDeltaSize", G+"apply_binary.go"), ("applyBinaryDeltaCopy", G+"apply_binary.go"), ("applyBinaryDeltaAdd", G+"apply_binary.go"), ("isLen", G+"io.go")],
 ["gitdiff.Apply", "bytes written to dst"])
prop("C05", "Binary size limits are enforced before data is produced",
 "With a non-negative limit L, a binary fragment whose declared size exceeds L, or a delta whose declared target size exceeds L, is rejected with nothing written, and no apply ever writes more than L bytes (one more, with an error, when a literal inflates to more than its declared size) or more than the delta's declared target size; a fragment within the limit is unaffected by it. A negative limit disables the check, the last option given wins, and the default is 100 MiB.",
 ["inputs", "configurations"], "every limit value, declared size and target size, every instruction stream",
 "Tests use a few limits; boundary equality and the interplay of both size fields with the running output need every value.",
 [G+"apply_binary.go", G+"apply_options.go"],
 [("limit checks", G+"apply_binary.go"), ("limitWriter", G+"apply_binary.go"), ("collectApplyOptions", G+"apply_options.go")],
 ["gitdiff.Apply with WithMaxBinaryFragmentBytes", "bytes written to dst"])
prop("C06", "Text fragments are parsed faithfully and line counts are enforced",
 "Parsing a fragment yields exactly the positions, counts, section comment and the lines of its body, in order, with their operation and content (an empty line counts as an empty context line and a 'no newline' marker removes the newline of the line before it). If the body does not contain exactly the numbers of old and new lines the header states, contains an unknown line marker, or changes nothing, Parse returns an error; a fragment header that belongs to no file is an error, ranges are never negative and every returned fragment passes Validate (but for one that claims old lines at position 0).",
 ["inputs"], "every fragment header (positions, counts, omitted counts, comments) and every body (line markers, contents, end of input)",
 "The parser tests fix about 15 bodies; counter arithmetic and marker placement must hold for all interleavings of line kinds.",
 [G+"text.go", G+"gitdiff.go"],
 [("ParseTextFragmentHeader", G+"text.go"), ("ParseTextChunk", G+"text.go"), ("parseRange", G+"text.go"), ("removeLastNewline", G+"text.go")],
 ["gitdiff.Parse", "File.TextFragments"])
prop("C07", "Formatting a text File and parsing it back is the identity",
 "For every well-formed text File, that is one Git's format can represent (modified, new, deleted, renamed, copied, mode change, with or without fragments), parsing File.String() yields exactly one File with no preamble and equal fields: names, flags, modes, object ids, score, and every fragment with its positions, counts, comment and lines. The same holds for the file parsed from a patch, for several files concatenated, and TextFragment.String and Header agree with the text in File.String().",
 ["inputs"], "every well-formed File value (header kinds, positions, counts, comments, line contents, missing newlines)",
 "Round-trip tests cover 12 fixture patches; equality must hold for every combination of header fields and line contents.",
 [G+"format.go", G+"file_header.go", G+"text.go", G+"gitdiff.go"],
 [("FormatFile", G+"format.go"), ("FormatTextFragment", G+"format.go"), ("ParseGitFileHeader", G+"file_header.go")],
 ["File.String", "gitdiff.Parse"])
prop("C08", "File names survive quoting and header parsing, whatever bytes they contain",
 "A relative file name without empty components made of any bytes except NUL (spaces, tabs, quotes, backslashes, newlines, control and non-ASCII bytes included) is recovered exactly when a File using it is formatted and parsed, in every header position: the diff --git line alone, ---/+++, and rename/copy lines. Names are written quoted as Git does by default, names Git writes as C-quoted strings are decoded exactly, and names it writes unquoted are taken literally. The two names of a diff --git line may be separated by a space or a tab, or any number of them after a quoted name.",
 ["inputs"], "every byte string as relative path component, old and new name independently",
 "Tests contain a dozen names; quoting has 256 byte classes in every position, with interactions at the ends of names.",
 [G+"format.go", G+"file_header.go"],
 [("WriteQuotedName/quoteByte", G+"format.go"), ("parseQuotedName/parseName/parseGitHeaderName", G+"file_header.go")],
 ["File.String", "gitdiff.Parse", "File.OldName/NewName"])
prop("C09", "Binary fragments survive formatting and parsing byte for byte",
 "For every binary File, parsing File.String() yields an equal File: method, size and every byte of raw data of the forward and, if present, the reverse fragment, for data of any length, and the text is the encoding Git uses (52 bytes per line, length letter, Git's base85 alphabet, blank line). A binary file without data round-trips as a no-data marker.",
 ["inputs"], "every raw data length and content, both methods, any size, with and without reverse fragment",
 "The fuzz seed corpus holds four inputs; line splitting at 52 bytes and 4-byte groups must hold for all lengths and bytes.",
 [G+"format.go", G+"binary.go", G+"base85.go"],
 [("FormatBinaryFragment", G+"format.go"), ("ParseBinaryChunk", G+"binary.go"), ("base85Encode/base85Decode", G+"base85.go")],
 ["File.String", "gitdiff.Parse", "BinaryFragment.RawData"])
prop("C10", "Corrupt binary data lines are rejected, valid ones decoded as Git does",
 "A base85 data line is accepted exactly when its length letter matches its number of 5-character groups and every group uses Git's alphabet and encodes a 32-bit value; the bytes obtained are those of Git's encoding. Any other line, a missing terminating blank line, a bad or negative size (an explicit plus sign and -0 aside), or missing data after the binary marker makes Parse return an error.",
 ["inputs"], "every data line (length byte, characters, line length) and every fragment header",
 "Tests try a few corrupt lines; 256 byte values in each position and all length/letter pairs need a symbolic line.",
 [G+"binary.go", G+"base85.go"],
 [("ParseBinaryChunk", G+"binary.go"), ("ParseBinaryFragmentHeader", G+"binary.go"), ("base85Decode", G+"base85.go")],
 ["gitdiff.Parse"])
prop("C11", "Git extended headers are interpreted exactly and contradictions rejected",
 "Each extended header line (old/new/deleted/new-file mode, rename and copy from/to, similarity and dissimilarity, index with optional mode, ---, +++) sets exactly the corresponding fields of the File for every value, and nothing else. Names that contradict each other, a created file with an old name or old content, a deleted file with a new name or new content, malformed modes, scores or index lines, and headers without any file name are errors (scores above 100 are ignored as Git does; a header with only one of --- and +++ may name /dev/null).",
 ["inputs"], "every header-line combination and every mode, score, object id and name value within it",
 "The header tests are single lines with fixed values; interactions between lines need combinations and symbolic values.",
 [G+"file_header.go", G+"text.go"],
 [("ParseGitFileHeader", G+"file_header.go"), ("parseGitHeaderData", G+"file_header.go"), ("verifyGitHeaderName", G+"file_header.go")],
 ["gitdiff.Parse", "File fields"])
prop("C12", "Traditional unified diff headers give the right names and file kind",
 "For a '---'/'+++' header followed by a fragment header, names end at the first tab or end of line; /dev/null or a UNIX-epoch timestamp (any zone notation, in the layouts diff and Git write) on exactly one side marks creation or deletion; otherwise both names are the old name if it is a prefix of the new one, else the new name. Lines that merely look like such a header but are not followed by a fragment header are not treated as a file.",
 ["inputs"], "every pair of names and timestamps, and every following line",
 "Tests hold about ten fixed headers; the heuristics must be right for all names and timestamps.",
 [G+"file_header.go"],
 [("ParseTraditionalFileHeader", G+"file_header.go"), ("hasEpochTimestamp", G+"file_header.go")],
 ["gitdiff.Parse"])
prop("C13", "Multi-file patches: files are independent, preamble is verbatim",
 "Parsing a concatenation of file diffs yields the files that parsing each alone yields, in order, whatever their kinds (text, binary, mode-only, rename, traditional) and whatever non-diff lines lie between them (a header-only diff directly followed by ---/+++ lines is one diff). The second result is exactly the text before the first file (all of the text when there is none), and on an error the files completed before it are returned.",
 ["inputs"], "every sequence of file kinds, every preamble and interleaved text",
 "Fixture patches combine two files at most; state leaking from one file kind to the next needs all ordered pairs and arbitrary preambles.",
 [G+"gitdiff.go", G+"parser.go", G+"file_header.go"],
 [("Parse", G+"parser.go"), ("ParseNextFileHeader", G+"file_header.go"), ("three-line look-ahead", G+"parser.go")],
 ["gitdiff.Parse results"])
prop("C14", "Results depend only on the bytes, not on how readers deliver them",
 "Parse returns the same files, preamble and error for the same bytes however the reader splits them, whether end of input comes with or after the last data, and whether or not the reader has its own ReadString. Apply writes the same bytes and returns the same error for every conforming source reader (io.EOF together with a full final read or not; with or without line access) and however the destination accepts whole writes.",
 ["inputs", "schedules"], "every way of splitting reads allowed by io.Reader/io.ReaderAt, for every content",
 "Tests use strings.Reader and bytes.Reader only, which never split reads and never combine data with io.EOF.",
 [G+"parser.go", G+"io.go", G+"apply_binary.go", G+"apply_text.go"],
 [("parser.Next/shiftLines", G+"parser.go"), ("lineReaderAt", G+"io.go"), ("copyFrom/isLen", G+"io.go"), ("delta copy ReadAt", G+"apply_binary.go")],
 ["gitdiff.Parse", "gitdiff.Apply"])
prop("C15", "I/O failures are always reported, never turned into success",
 "If the patch reader, the source or the destination fails at any operation, Parse or Apply returns an error that matches the underlying failure, the bytes written before it are a prefix of what a successful run would write, and nothing is written after a failed write. A source that ends early or a write that is short is reported too, and Parse returns the files completed before a read failure. Only io.EOF itself ends a patch; any other error, one that wraps io.EOF included, is a failure.",
 ["fault_sequences", "inputs"], "a failure at every read, ReadAt or Write call of every operation",
 "No test injects I/O failures at more than one point; every call site and position in the stream has to propagate.",
 [G+"parser.go", G+"io.go", G+"apply_text.go", G+"apply_binary.go"],
 [("error returns of Next/shiftLines", G+"parser.go"), ("copyFrom/copyLinesFrom/indexTo/readBytes", G+"io.go"), ("ApplyFragment", G+"apply_text.go")],
 ["errors returned by Parse/Apply", "bytes written"])
prop("C16", "No input makes the library panic or loop forever",
 "Parse, Apply, String, Validate, ParsePatchHeader, ParsePatchIdentity and ParsePatchDate terminate without panicking on every input, however malformed, including Files and fragments returned by Parse applied to any source and fragments with arbitrary field values (nil entries in a fragment list given to String excepted; Apply answers them with an error).",
 ["inputs"], "every byte string given to the parsers; every fragment and delta given to the appliers",
 "Tests and the small fuzz corpus sample the space; a panic needs one specific malformed byte or number at one place.",
 [G+"parser.go", G+"file_header.go", G+"text.go", G+"binary.go", G+"apply_text.go", G+"apply_binary.go", G+"patch_header.go", G+"patch_identity.go"],
 [("index and slice bounds", "all parsing code"), ("bounds overflow check", G+"apply_text.go")],
 ["panics, non-termination"])
prop("C17", "Applier life cycle: close once, apply in order, no writes after close",
 "After Close an applier rejects ApplyFragment and writes nothing more, and closing again does nothing and returns nil. A binary applier accepts at most one fragment, even if it failed; a text applier rejects a nil or invalid fragment or one that starts before the end of the previous one without writing anything and stays usable; closing an applier to which nothing was applied copies the source unchanged, and applying an empty File does the same.",
 ["histories", "inputs"], "every sequence of ApplyFragment (valid, conflicting, nil) and Close calls",
 "Tests check a few two-call sequences; the state flags have to be right for every call history.",
 [G+"apply_text.go", G+"apply_binary.go", G+"apply.go"],
 [("closed/dirty flags", G+"apply_text.go"), ("closed/dirty flags", G+"apply_binary.go")],
 ["errors and bytes written by call sequences"])
prop("C18", "Validate accepts exactly the self-consistent fragments",
 "TextFragment.Validate returns nil if and only if every line has a known operation, the old, new, added, deleted, leading-context and trailing-context counts equal those of its lines, and a fragment at old position 0 has no old lines; a nil fragment is invalid. Apply never writes anything for a fragment Validate rejects, nor for a File whose kind contradicts its fragments (binary with text fragments or without a binary one, text with a binary one), and reports an error that is no Conflict.",
 ["inputs"], "every combination of field values and every sequence of line operations",
 "Tests check one deviation per field; the equivalence needs all sequences of operations and all field values.",
 [G+"gitdiff.go", G+"apply_text.go"],
 [("TextFragment.Validate", G+"gitdiff.go")],
 ["TextFragment.Validate", "TextApplier.ApplyFragment"])
prop("C19", "Apply errors are classified and located correctly",
 "Every error from applying is an *ApplyError; when the patch does not match the source it matches Conflict, and when it is for another reason (invalid patch, I/O failure) it does not. For a mismatching line the error names the one-based source line, fragment and fragment line of the first mismatch, for a failed write of a fragment or of the lines before it those whose output it was, and io.EOF is never exposed as the cause.",
 ["inputs"], "every mismatch position in every fragment of every patch",
 "Tests check the location of a few fixed conflicts; the arithmetic must hold for each position.",
 [G+"apply.go", G+"apply_text.go", G+"apply_binary.go"],
 [("applyError", G+"apply.go"), ("Conflict.Is", G+"apply.go")],
 ["errors returned by Apply and ApplyFragment"])
prop("C20", "Identity strings: canonical identities round-trip, email is never lost",
 "ParsePatchIdentity(id.String()) returns id for every identity with an ordinary name (no quoting, angle bracket, parenthesis, or at sign, single inner spaces) and an email without spaces, brackets, quotes, parentheses or backslashes. For every input, an error is returned only if neither a name nor an email is found (no bracketed part and no at sign), space means space, tab, CR and LF, name and email have no surrounding whitespace, a missing name falls back to the email, and 'Name <email>', 'email (Name)', quoted names and backslash escapes are decoded as in Git.",
 ["inputs"], "every identity string",
 "Tests list 15 strings; the splitting heuristics must hold for all positions of spaces, quotes, brackets and at signs.",
 [G+"patch_identity.go"],
 [("ParsePatchIdentity", G+"patch_identity.go"), ("unquotePairs", G+"patch_identity.go"), ("normalizeSpace", G+"patch_identity.go")],
 ["gitdiff.ParsePatchIdentity"])
prop("C21", "Commit-style headers: SHA, people, title and body are extracted exactly",
 "For git show/log pretty headers (message after one blank line, lines up to 64 KiB), ParsePatchHeader returns the commit id, author, committer and dates from their lines, the title as the first paragraph with its lines joined by single spaces, and the body as the remaining paragraphs with the title's indent removed, trailing space dropped and runs of blank lines collapsed to one. Unknown header lines are ignored, malformed identities or dates are errors, and Message is the title and body separated by one blank line.",
 ["inputs"], "every combination of header lines and every message content",
 "Tests have a dozen fixed headers; indentation, blank-line and paragraph handling must hold for every message.",
 [G+"patch_header.go"],
 [("parseHeaderPretty", G+"patch_header.go"), ("scanMessageTitle/scanMessageBody", G+"patch_header.go")],
 ["gitdiff.ParsePatchHeader", "PatchHeader.Message"])
prop("C22", "Mail headers: subject cleaning loses nothing, appendix is split exactly",
 "For mail headers, SubjectPrefix is exactly the leading reply markers, separators and bracketed tags that the selected clean mode removes and Title is the rest, so that joined and trimmed they equal the trimmed subject; a title encoded (=?UTF-8?q?) as Git writes it is decoded; in patch-only mode a tag is one with PATCH anywhere in its brackets. The body is everything before the first '---' line and BodyAppendix everything after it, only the first such line is dropped, and the SHA, author and date come from the From and Date lines.",
 ["inputs", "configurations"], "every subject string and message body, all three clean modes",
 "Tests list about 20 subjects; the cleaning loop must be right for every string and mode.",
 [G+"patch_header.go"],
 [("cleanSubject", G+"patch_header.go"), ("decodeSubject", G+"patch_header.go"), ("scanMessageBody", G+"patch_header.go"), ("parseHeaderMail", G+"patch_header.go")],
 ["gitdiff.ParsePatchHeader"])
prop("C23", "Dates in every supported Git format denote the same instant",
 "A time written in any supported format (iso, iso-strict, rfc, short, default, default-local, unix, raw) is parsed to exactly that instant and zone offset; an empty string gives the zero time and any other text is an error rather than a wrong time (what Go's time package tolerates within these layouts excepted: zone minutes 60, fractional seconds, letter case, a wrong weekday, one-digit hours).",
 ["inputs"], "every timestamp and zone offset in every format",
 "Tests check one instant per format.",
 [G+"patch_header.go"],
 [("ParsePatchDate", G+"patch_header.go")],
 ["gitdiff.ParsePatchDate"])
prop("C24", "Calls on different inputs share no mutable state",
 "What an exported function or method returns and writes depends on its arguments only, not on what was called before or is called at the same time: calls on different values may run concurrently (without a data race), in any order and from inside each other's readers and writers, and returned values do not alias data that a later call changes.",
 ["schedules", "histories"], "every interleaving of calls on distinct inputs, every call history",
 "Single-threaded tests cannot see it and the race detector only sees the schedules that ran.",
 [G+"base85.go", G+"format.go", G+"parser.go", G+"apply.go"],
 [("package-level tables written only by init", G+"base85.go"), ("per-call parser/applier objects", G+"parser.go")],
 ["stores to package-level memory", "results of repeated calls"])
prop("C25", "Parse errors name the line at fault",
 "The error Parse returns for malformed input reads 'gitdiff: line N: ...', where N is the one-based number in the whole input of the line at fault: the git header line, file name line, fragment header, body line or binary line that is malformed; the fragment header when its line counts do not fit its body, when it contradicts the creation or deletion of the file, or when it belongs to no file; and the first line after what is incomplete when something required is missing (names, changed lines, binary data).",
 ["inputs"], "every kind of malformed line after every kind of text and file diff before it",
 "Tests check a few line numbers; a parser that looks ahead by three lines can be off by one after any combination of lines read before.",
 [G+"parser.go", G+"text.go", G+"file_header.go", G+"binary.go"],
 [("parser.Errorf", G+"parser.go"), ("ParseTextFragments", G+"text.go"), ("ParseGitFileHeader/ParseTraditionalFileHeader", G+"file_header.go"), ("ParseBinaryFragments", G+"binary.go")],
 ["gitdiff.Parse"])
prop("C26", "The patch made from two contents turns the first into the second",
 "For any two contents of a file, the patch that Git or diff writes for them (text with any number of context lines and missing final newlines, a new or deleted file, a rename with changes; binary as a literal or delta) is accepted by Parse, and Apply to the first content gives exactly the second; so does the patch formatted by File.String() and parsed again, the reverse binary fragment leads back, and the patches of a series applied one after the other give the last content. (Without context lines, additions or deletions at the very top are written with position 0 and excepted.)",
 ["inputs", "histories"], "every pair of contents and every edit script between them",
 "Tests apply a handful of fixed patches; it is the composition of parsing, formatting and applying that users rely on, for every pair of contents.",
 [G+"parser.go", G+"apply.go", G+"format.go"],
 [("Parse", G+"parser.go"), ("Apply", G+"apply.go"), ("File.String", G+"format.go")],
 ["gitdiff.Parse", "gitdiff.Apply", "File.String"])
prop("C27", "Claimed sizes and counts cost no memory",
 "Parsing, formatting and applying use memory in proportion to the real data (the input, the source, what is written): never for a number the patch merely claims, such as line counts or positions of fragments, sizes of binary data, and source or target sizes of deltas (less than a few megabytes, and the 16 MiB a single delta copy may name), and never in proportion to the square of the input.",
 ["inputs"], "every claimed number in every kind of patch, inputs of any length",
 "Tests use small, honest patches; preallocating what a header claims passes all of them and lets 60 bytes exhaust the memory.",
 [G+"text.go", G+"binary.go", G+"apply_text.go", G+"apply_binary.go", G+"binary_reader.go"],
 [("readPreimage", G+"apply_text.go"), ("ParseTextChunk", G+"text.go"), ("ParseBinaryChunk", G+"binary.go"), ("applyBinaryDeltaFragment", G+"apply_binary.go"), ("binaryReader.Read", G+"binary_reader.go")],
 ["memory allocated by Parse, Apply, String, ParsePatchHeader"])
prop("C28", "A commit's text gives back its metadata, message and files",
 "For a commit as git show, git log -p or git format-patch write it with its patch, Parse returns exactly the text before the first file as preamble and the files of the patch, and ParsePatchHeader of that preamble returns the commit's id, author, committer, dates, title and body (and, for a mail, its subject prefix and appendix), even if the message quotes parts of a patch (indented as git show does, or in a mail short of whole diff headers).",
 ["inputs"], "every message content, format and patch",
 "Tests parse headers and patches separately; users rely on the composition, and a message may look like a patch.",
 [G+"parser.go", G+"patch_header.go", G+"file_header.go"],
 [("Parse", G+"parser.go"), ("ParseNextFileHeader", G+"file_header.go"), ("ParsePatchHeader", G+"patch_header.go")],
 ["gitdiff.Parse", "gitdiff.ParsePatchHeader"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
