{
'C01': """**Oracle:** a twenty-line splice: split the source after each `\\n`, for every fragment in order check position
and old lines, append. `Apply`'s result (nil or error, bytes, Conflict or not) must equal it. **Outside:** more than three
fragments with several arbitrary lines each (C02_many has 14), more than about 100 arbitrary source lines.""",
'C02': """**Oracle:** the result of the same fragments in ascending order (and of C01's splice), and a deep copy of the File taken
before each call (all fields, slices beyond their length included). All permutations of 2 and 3, rotations and reversal of 13/14 (the sort of the standard
library switches algorithm above 12).""",
'C03': """**Oracle:** the payload of stored blocks and its Adler-32, computed in the harness; for arbitrary
streams, `compress/zlib` itself (executed symbolically as well) read to the end is the definition of the content, and the
library's answer must agree with it. **Outside:** dynamic-Huffman blocks with symbolic code lengths are cut by the length of C03_any_stream.""",
'C04': """**Oracle:** an interpreter of pack-format deltas written from Git's `patch-delta.c`. **Outside:** more than 5
arbitrary instruction bytes at once; sizes between the boundaries.""",
'C05': """**Oracle:** the limit rules of the statement as a formula over the 64-bit limit and sizes, and the number of bytes that
reached the destination on every path, success or not.""",
'C06': """**Oracle:** a reference parser of one fragment (header grammar, then body lines by count) in the harness. The fragment is
parsed inside a fixed file header. **Outside:** bodies of more than 7 arbitrary bytes not on templates.""",
'C07': """**Oracle:** the File that was formatted (field by field). 'Well-formed' is generated, not filtered: the harness builds
Files Git can write.""",
'C08': """**Oracle:** the name itself for round trips; Git's `quote_c_style` (both settings of core.quotepath) written in
the harness for the text.""",
'C09': """**Oracle:** the fragments themselves, and Git's `encode_85` applied to the same symbolic bytes: the encoding of each 4-byte group is proved equal
for all 2^32 values as one bit-vector query.""",
'C10': """**Oracle:** the arithmetic value of each group (Σ digit·85^k in 64 bits, ≤ 2^32−1), the length letter, and a grammar
of the lines of a binary patch.""",
'C11': """**Oracle:** per line a function from its text to the fields it sets; for combinations a model of
git's `parse_git_diff_header` plus the consistency rules of the statement.""",
'C12': """**Oracle:** name = text up to the first tab, the prefix rule, /dev/null and the epoch as instants (the harness computes the
instant from the digits and the zone, not with the library's layouts).""",
'C13': """**Oracle:** parsing each diff alone (same library, smaller input), and the text before the first file by position.""",
'C14': """**Oracle:** the result for the plainest delivery (all bytes at once through a `strings.Reader`/`bytes.Reader`). Readers and writers are
harness values whose choices (cut point, EOF with data, empty reads, own ReadString, ReadLinesAt) are symbolic.""",
'C15': """**Oracle:** an injected error value (compared with errors.Is), the bytes of the run without a failure (prefix), and a destination that fails
the path if it is written to after a failure. Every operation index is symbolic.""",
'C16': """**Oracle:** the absence of panics and of exhausted step budgets (40–60 M SSA steps, 4 Mi elements of allocation), which the engine asserts at every
instruction of every path; here the inputs are the most hostile.""",
'C17': """**Oracle:** a state machine (open/closed, position of the last fragment, used) with the expected output. All call
sequences of the stated length are symbolic choices.""",
'C18': """**Oracle:** the biconditional of the statement as one formula over eight 64-bit numbers and the operations.""",
'C19': """**Oracle:** which line differs first is computed in the harness; ApplyError's numbers and Conflict matching must equal it.""",
'C20': """**Oracle:** a reference scanner of the forms in the statement; for arbitrary bytes, the one-sided claims (error iff nothing found, no outer white space).""",
'C21': """**Oracle:** a line model of the message (paragraphs, indent) in the harness.""",
'C22': """**Oracle:** a reference scanner for prefixes per clean mode, an encoder for RFC 2047 as Git writes it, and the body split at the first `---` line.""",
'C23': """**Oracle:** days-from-civil arithmetic in the harness; the symbolic time of day and zone go through the library's `time` layouts, executed symbolically.""",
'C24': """**Oracle:** self-composition: the result of a call repeated after another one, or made from inside another's reader, or in a fresh process
(`sym.Fresh`: all package-level memory as after initialisation), must be identical. Stores to shared memory are observed on every path.
**Outside:** interleavings as such: non-interference is shown by the absence of writes to shared memory, so any interleaving is equivalent to a sequential one; if
there are such writes, candidates are confirmed by the race detector before they are reported. State behind correct locks is covered by the history harnesses only.""",
'C25': """**Oracle:** the harness builds the input line by line and knows which line it made malformed; the number in the error must be that
of this line in the whole text, after any of the preambles and file diffs before it. Only `gitdiff: line N:` is read, never the wording. For bodies the harness
counts the lines itself. **Outside:** several faults in one input (except bodies), more than 4 (5) binary lines.""",
'C26': """**Oracle:** the edit script: it defines both contents and (by a forty-line writer of unified hunks) the patch, so no diff algorithm and nothing of the
library is trusted. **Outside:** more than 5 arbitrary script lines at once, lines longer than a byte (C06, C07, C14 have those), copies of files.""",
'C27': """**Oracle:** a budget: 2 MiB and 100 bytes per byte of input; the executor counts what every `make`, `append`, conversion and concatenation
on the path allocates (never more than the compiled code), the replay asks the Go runtime. Claims are seven magnitudes from 2^18 to 2^63-1.
**Outside:** delta copies above 2^18 bytes from a shorter source (16 MiB buffers are allocated by design), stack depth.""",
'C28': """**Oracle:** the commit the harness made the text from. **Outside:** messages whose lines have leading or trailing space or exceed
two lines per paragraph (C21, C22 have those), encoded mail subjects (C22).""",
}
