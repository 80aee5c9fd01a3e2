#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a program so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Patching reproduces the reference file exactly",
  "For every local file, every reference file (including empty, shorter than a block, with a partial last block or with repeated blocks), every block size and every number of concurrent matchers, patching against a faithful source of the reference succeeds and writes exactly the bytes of the reference, nothing more and nothing less.",
  ["inputs", "configurations"],
  "all pairs of local and reference files over a small alphabet up to a length bound, all small block sizes, 1..N matchers; plus structured families (every single and double edit of a medium file, files with more than 64, 256 and 65536 blocks, files above the 1 MB read buffers, local files much longer or shorter than the reference)",
  "The suite patches one pair of English sentences with block size 4; it never has a local file longer than the reference, a partial block match in the middle of the local file, or an empty file.",
  ["rsync.go", "comparer/comparer.go", "comparer/merger.go", "patcher/sequential/sequential.go", "index/index.go"],
  [("splitting the local file into overlapping sections, one matcher each", "rsync.go RSync.Patch"),
   ("found and missing spans partition the reference", "comparer/merger.go GetMergedBlocks, GetMissingBlocks"),
   ("strictly sequential assembly", "patcher/sequential/sequential.go SequentialPatcher")],
  ["RSync.Output after RSync.Patch", "return value of RSync.Patch"])

p("C02", "Data that is available locally is never downloaded",
  "Patching never requests a block whose content occurs in the local file (for a short last block: at its very end) at a place that no other matching block overlaps, wherever that lies in the local file and however many concurrent matchers are used; and patching a file that already equals the reference requests nothing. No block of the reference is requested more than once, and no block outside the reference is requested at all.",
  ["inputs", "configurations"],
  "the same input families as C01, with a recording block source",
  "Existing tests check the list of matches of a handful of strings at one block size and a single downloaded-bytes figure; none has the shared content beyond the reference's length, at section borders, or in files smaller than a block.",
  ["rsync.go", "comparer/comparer.go", "comparer/merger.go"],
  [("sections overlap by one block so a block on a border is seen whole", "rsync.go RSync.Patch"),
   ("rolling scan advances one byte on a mismatch and one block on a match", "comparer/comparer.go startFindMatchingBlocks_int")],
  ["MissingBlockSpan values passed to BlockSource.RequestBlocks"])

p("C03", "The matcher reports exactly the true block matches",
  "Scanning a stream against an index reports, for each offset of a left-to-right scan that resumes right behind each matched block, every reference block whose content equals the bytes at that offset, and, at the end of the stream, every short last block that equals the remaining tail. Every reported offset (shifted by the given base offset) and block number is right, no other match is reported, and the stream of results then ends without an error.",
  ["inputs"],
  "all streams and references over small alphabets up to a length bound, block sizes 1..5, several base offsets including beyond 2^32, and structured long streams; compared result by result with an independent reference scan",
  "The tests scan about ten fixed strings, all with block size 4; misaligned matches followed by partial blocks and block size 1 are never exercised.",
  ["comparer/comparer.go", "circularbuffer/noalloc.go", "rollsum/rollsum_32_base.go", "index/index.go"],
  [("window kept in a circular buffer, rolled hash kept in step with it", "comparer/comparer.go startFindMatchingBlocks_int"),
   ("strong hash confirms a weak hit", "comparer/comparer.go, index/index.go")],
  ["BlockMatchResult channel returned by Comparer.StartFindMatchingBlocks"])

p("C04", "Matching ignores read chunking and reports read errors",
  "The matches reported for a stream depend only on its bytes, not on how the reader splits them into reads, returns empty reads, or delivers the end-of-file together with the last bytes. When the reader fails, the scan ends after finitely many steps with that failure as its last result, and every match reported before is a true match.",
  ["inputs", "fault_sequences"],
  "every composition of short streams into read sizes, both end-of-file styles, an empty read at every position, and a read failure (with and without data, persistent or one-off) at every byte position",
  "Tests only use readers that never fail and never return data together with end-of-file.",
  ["comparer/comparer.go"],
  [("first block, next byte and next block reads and their error handling", "comparer/comparer.go startFindMatchingBlocks_int"),
   ("error results", "comparer/comparer.go ReportErr")],
  ["BlockMatchResult channel returned by Comparer.StartFindMatchingBlocks"])

p("C05", "Merging match results is independent of order and interleaving",
  "However match results are divided over concurrently merged streams and however these streams interleave, the merged list is sorted and disjoint, covers exactly the blocks that were reported, and gives every block a local offset that was reported for that block. Two listed spans that follow each other both in block number and in local offset never stay separate, and a stream that ends with an error takes nothing away from the results delivered before it.",
  ["schedules", "histories"],
  "all sequences of match results over a small domain of blocks and offsets (colliding on blocks, adjacent and non-adjacent), divided over 1..3 streams, under every interleaving with a bounded number of preemptions between statements; plus long structured sequences",
  "The merger tests feed a few fixed sequences through one stream; no test has two streams race or a block that borders the next span but not the previous one.",
  ["comparer/merger.go"],
  [("one lock around look-up, overlap test and insertion", "comparer/merger.go StartMergeResultStream"),
   ("start and end keys of spans in an ordered tree", "comparer/merger.go merge")],
  ["MatchMerger.GetMergedBlocks"],
  [("tree of span starts and ends", "set of disjoint maximal spans found so far")])

p("C06", "Missing blocks are the exact complement of the found blocks",
  "For every sorted list of disjoint found spans, the list of missing spans is sorted and disjoint, and found and missing spans together contain every block from the first to the given last block exactly once, with no block outside that range.",
  ["inputs"],
  "every subset of up to ten or more blocks in every grouping into spans, with block numbers near zero and near the limits of 32-bit numbers",
  "Tests check four hand-written lists.",
  ["comparer/merger.go"],
  [("gap computation between neighbouring spans", "comparer/merger.go BlockSpanList.GetMissingBlocks")],
  ["BlockSpanList.GetMissingBlocks"])

p("C07", "Assembly is exact or fails with an error, under any fault",
  "Given spans that partition the reference into locally found and missing blocks, the sequential patcher either returns success after writing exactly the described bytes in order, or returns an error. It succeeds when nothing fails, and it reports an error, rather than hanging or succeeding with wrong or missing bytes, whenever the local file cannot be positioned or read or is too short, the source refuses a request, fails, is closed, or answers with the wrong block or the wrong number of bytes, or the output cannot be written. A whole patch that knows the size of the reference likewise reports success only after writing exactly the bytes of the reference, under the same faults and when the summary announces another number of blocks.",
  ["fault_sequences", "inputs"],
  "all partitions of up to five blocks into found and missing spans, with every single fault of a menu (and pairs of them) at every step",
  "The patcher tests run three fault-free patches; no test injects any failure.",
  ["patcher/sequential/sequential.go", "patcher/blocksource.go"],
  [("block cursor over both span lists", "patcher/sequential/sequential.go SequentialPatcher"),
   ("checks on start block and number of blocks of a response", "patcher/sequential/sequential.go SequentialPatcher")],
  ["return value of SequentialPatcher", "bytes received by the output writer"])

p("C08", "Every requested range is delivered exactly once and correctly",
  "For every list of block ranges requested from a block source in any order, every completion order of the underlying transfers and every timing of the consumer, the consumer receives each requested range exactly once (a block as often as it is in a range) with exactly the bytes of its blocks, and nothing else. Ranges requested in ascending order arrive in ascending order, there are never more simultaneous transfers than the configured limit, and the reported number of downloaded bytes is the number of bytes received.",
  ["schedules", "histories", "configurations"],
  "two to four requested ranges in all submission orders, with and without splitting into smaller requests, concurrency limits 1..3, under every interleaving of requester, consumer and transfers with a bounded number of preemptions between statements of the real code",
  "Tests cover one out-of-order completion of two requests made in ascending order, with wall-clock waits.",
  ["blocksources/blocksourcebase.go", "blocksources/helpers.go", "blocksources/sortableBlockResponse.go", "blocksources/fixed_size_block_resolver.go"],
  [("single event loop owning queue, in-flight count and the two orderings", "blocksources/blocksourcebase.go loop"),
   ("response offered only when it is the lowest outstanding", "blocksources/blocksourcebase.go loop")],
  ["GetResultChannel", "BlockSourceRequester.DoRequest", "ReadBytes"],
  [("request and response orderings", "block numbers of transfers started and of responses not yet taken")])

p("C09", "A failed or corrupt transfer is always reported, never delivered",
  "When transfers of a block source fail or return bytes that do not verify or more bytes than were asked for, in any number, order and timing, the consumer is given an error, no byte of a failed or unverified range is ever delivered, no transfer is started after the source has observed the failure, and the process neither crashes nor hangs.",
  ["schedules", "fault_sequences"],
  "every combination of success, failure and corruption over two to four concurrent ranges, concurrency limits 1..3, all completion orders and consumer timings with a bounded number of preemptions",
  "One test has a single failing request and one a single corrupt response; two concurrent failures never happen.",
  ["blocksources/blocksourcebase.go", "blocksources/helpers.go"],
  [("error state of the event loop", "blocksources/blocksourcebase.go loop, blocksources/helpers.go errorWatcher"),
   ("verification before delivery", "blocksources/blocksourcebase.go loop")],
  ["EncounteredError", "GetResultChannel", "BlockSourceRequester.DoRequest"])

p("C10", "Closing a block source always terminates it safely",
  "Closing a block source at any moment (idle, with transfers queued, running or waiting for delivery, after an error that nobody read, concurrently with requests or another close, or repeatedly) returns without crashing or blocking, starts no further transfer, and once the running transfers have ended releases everyone waiting on its channels and leaves nothing running. Once it has ended, using the source gives an error, never a crash or a hang.",
  ["schedules", "histories"],
  "a closer racing with requesters, a consumer and transfers (successful or failing) at every point, single and double closes, under every interleaving with a bounded number of preemptions",
  "The only test closes an idle source and carries a comment about a race it cannot rule out.",
  ["blocksources/blocksourcebase.go"],
  [("exit channel and closing of all channels when the loop ends", "blocksources/blocksourcebase.go Close, loop")],
  ["BlockSourceBase.Close", "BlockSourceBase.RequestBlocks", "closing of result and error channels"])

p("C11", "Verification accepts exactly the data with matching checksums",
  "A downloaded range verifies if and only if the checksum of each of its blocks, including a short last one, equals the expected checksum of that block where one is known. The verdict depends only on the range and the expected checksums: not on what was verified before, whether that passed or failed.",
  ["inputs", "histories"],
  "all ranges of up to four blocks with block sizes 1..5, every single corrupted, dropped or added byte, every pattern of unknown checksums, and all sequences of up to three verifications on one verifier",
  "Tests verify three good ranges, each with a fresh verifier, and never a bad one directly.",
  ["filechecksum/verifier.go"],
  [("per-block hashing and comparison", "filechecksum/verifier.go VerifyBlockRange")],
  ["HashVerifier.VerifyBlockRange"])

p("C12", "HTTP transfers ask for the exact range and accept only that",
  "An HTTP block source asks for exactly the byte range of the requested blocks, without compression (Accept-Encoding: identity), and delivers data only when the server answers with partial content that is not gzip encoded and whose body has exactly the requested length; those bytes are delivered unchanged. Every other answer (other status codes, a shorter, longer or broken body, a dropped connection) is reported as an error.",
  ["inputs", "fault_sequences"],
  "all small block ranges and ranges beyond 4 GB, times a menu of server behaviours: status codes, content encodings, length framings, and body truncated or connection dropped at every byte",
  "Tests cover two good transfers, a 404 and one corrupt body against a well-behaved server.",
  ["blocksources/httpblocksource.go", "blocksources/fixed_size_block_resolver.go"],
  [("range header and response checks", "blocksources/httpblocksource.go HttpRequester.DoRequest")],
  ["HTTP request on the wire", "GetResultChannel", "EncounteredError"])

p("C13", "Block ranges map to exact byte ranges and split without loss",
  "Blocks map to contiguous, non-overlapping byte ranges of the block size, cut off at the file size where it is known, also for offsets beyond 4 GB. Splitting a block range gives consecutive pieces that together are exactly that range, each at most the desired request size (but at least one block).",
  ["inputs", "configurations"],
  "all small block sizes, file sizes, desired sizes and block ranges, plus values around 2^31, 2^32 and 2^33",
  "Tests check five hand-picked splits and one truncation.",
  ["blocksources/fixed_size_block_resolver.go", "blocksources/helpers.go"],
  [("offset arithmetic", "blocksources/fixed_size_block_resolver.go")],
  ["FixedSizeBlockResolver methods"])

p("C14", "Checksum generation describes the whole input or fails",
  "Generating checksums yields, for every input and however it is split into reads or results into batches, one entry per block in order, with the block's number and its weak and strong checksums, then the checksum of the whole input; results already handed out never change. If reading the input, compressing a block or writing the output fails at any point, an error is reported instead of a checksum for a truncated input.",
  ["inputs", "fault_sequences"],
  "all inputs of small length over a small alphabet and all lengths up to several hundred blocks, batch sizes 1..5 and 64, every read composition of short inputs, and a failure of the reader, the compressor or the writer at every position",
  "Tests count checksums of zero-filled buffers; no reader or writer ever fails.",
  ["filechecksum/filechecksum.go", "indexbuilder/indexbuilder.go"],
  [("block loop", "filechecksum/filechecksum.go generate"), ("serialisation", "filechecksum/filechecksum.go GenerateChecksums")],
  ["StartChecksumGeneration results", "GenerateChecksums output and return values", "BuildChecksumIndex"])

p("C15", "A checksum generator can be reused as soon as it has finished",
  "Checksums generated with a generator that has been used before, one generation after another, are the same as with a fresh generator, for every schedule of the work that the earlier generation does in the background.",
  ["schedules", "histories"],
  "two and three consecutive generations (complete, empty, failing) on one generator, under every interleaving with a bounded number of preemptions between statements",
  "No test reuses a generator under contention; the bug needs one particular interleaving.",
  ["filechecksum/filechecksum.go"],
  [("hash reset when a generation ends", "filechecksum/filechecksum.go generate"), ("end of a generation", "filechecksum/filechecksum.go GenerateChecksums")],
  ["GenerateChecksums output and return values"])

p("C16", "Index lookups find exactly the blocks with equal checksums",
  "For every list of block checksums, looking up a weak and then a strong checksum returns all blocks that have both, each once and with its right block number, and nothing else; a weak checksum that no block has is reported as absent. Lookups do not influence each other, also when made concurrently, and the order of the input does not matter.",
  ["inputs", "histories", "schedules"],
  "all lists of up to five entries over colliding weak and strong checksums, all queries and all pairs of queries, large structured lists, and concurrent look-ups under a preemption bound",
  "Tests look up a handful of entries in indexes of at most a few blocks.",
  ["index/index.go"],
  [("two-level map on the weak checksum", "index/index.go MakeChecksumIndex, FindWeakChecksumInIndex"), ("binary search on the strong checksum", "index/index.go FindStrongChecksum")],
  ["ChecksumIndex.FindWeakChecksum2", "ChecksumIndex.FindStrongChecksum2"])

p("C17", "Stored checksums load back exactly, and torn ones are rejected",
  "Checksums read from a stream are exactly the written sequence of weak and strong checksums, numbered consecutively from zero, however the stream is split into reads. A stream that ends inside an entry or fails while being read gives an error, never a silently shortened or altered list. Two checksums match if and only if both their weak and their strong parts are equal.",
  ["inputs", "crash_points", "fault_sequences"],
  "every number of entries up to a bound and beyond the initial capacity, several checksum sizes, every truncation point, every read composition of short streams and a read failure at every position",
  "Tests cover two truncations.",
  ["chunks/chunks.go"],
  [("alternating full reads", "chunks/chunks.go LoadChecksumsFromReader"), ("comparison of both parts", "chunks/chunks.go ChunkChecksum.Match")],
  ["LoadChecksumsFromReader", "ChunkChecksum.Match", "StrongChecksumGetter.GetStrongChecksumForBlock"])

p("C18", "The rolling checksum always equals that of the current window",
  "After every sequence of additions, removals, combined moves, block loads, writes and resets, the rolling checksum equals the checksum computed from scratch over the bytes currently in the window, for window contents and lengths up to and beyond where the sums overflow. Reading the sum changes nothing and appends exactly four bytes to what it is given.",
  ["histories", "inputs"],
  "all operation sequences up to a depth over boundary byte values and window sizes 1..5, and long windows that overflow 16 and 32 bits",
  "Tests check a few fixed sequences.",
  ["rollsum/rollsum_32.go", "rollsum/rollsum_32_base.go", "circularbuffer/noalloc.go"],
  [("incremental update of the two sums", "rollsum/rollsum_32_base.go"), ("evicted bytes from the window buffer", "rollsum/rollsum_32.go Write")],
  ["Rollsum32Base.GetSum", "Rollsum32.Sum"],
  [("a, b", "the two running sums")])

p("C19", "The window buffer returns the last bytes written and the evicted ones",
  "After every sequence of writes of at most one block, truncations and resets, the buffer holds exactly the most recent bytes (at most a block, less those truncated from its old end), reports their number, and reports as evicted exactly the bytes that the last write pushed out, oldest first; truncating returns exactly the oldest bytes it removes.",
  ["histories"],
  "all sequences of writes of every length, truncations and resets up to a depth for block sizes 1..5, with unique byte values so that any mixed-up byte shows",
  "Tests cover about ten short sequences, none of which wraps around in the middle of a write and then reads the wrapped part.",
  ["circularbuffer/noalloc.go"],
  [("two half-shifted double-size buffers", "circularbuffer/noalloc.go")],
  ["C2.GetBlock", "C2.Evicted", "C2.Truncate", "C2.Len"])

p("C20", "The output file holds exactly the reference whatever was there before",
  "When patching files by name succeeds, the output file contains exactly the reference, whether it did not exist, or existed with shorter or longer content, or is the local file itself under the same or another name. The local file is unchanged unless it is the output, patching in place leaves no other file behind, and a patch that fails leaves the local file as it was, also when it is closed afterwards.",
  ["configurations", "histories", "inputs"],
  "every prior state of the output (absent, empty, shorter, equal, longer, same path, relative and absolute path, hard link, symbolic link) times small local and reference files times success and failure of the source",
  "No test patches files on disk at all.",
  ["rsync.go"],
  [("choice between a temporary and the real output file", "rsync.go MakeRSync, IsSameFile"), ("copy back on close", "rsync.go fileCopyCloser")],
  ["files on disk after RSync.Patch and RSync.Close"])

p("C21", "A crash during in-place patching never loses both versions",
  "If the process stops at any point while a file is patched in place, either the local file still has its complete old content or the complete new content is in a file on disk; before the new content is complete the local file is not touched, and a patch that fails before that, whatever the block source or the output did, never touches it. When copying the complete new content onto the local file fails, the file that has it stays.",
  ["crash_points"],
  "every statement boundary of patching and closing, and every byte position at which writing to the output or copying back can stop, for all prior configurations that select in-place patching",
  "No test patches in place, let alone stops half-way.",
  ["rsync.go"],
  [("new content is completed in a temporary file before the local file is truncated", "rsync.go MakeRSync, RSync.Close")],
  ["files on disk at each crash point"])

p("C22", "Errors while finishing a patch are always reported",
  "If any step of finishing a patch fails (writing or closing the output, opening or reading the temporary file, opening, writing or closing the final file), patching or closing returns an error; success is only returned when the final file is complete. If the temporary file cannot be created, an error is returned rather than a crash.",
  ["fault_sequences"],
  "a failure of every closing step, and a write failure after every number of bytes, in the output file, the temporary file and the final file",
  "No test makes any file operation fail.",
  ["rsync.go"],
  [("error propagation in the closers", "rsync.go RSync.Close, fileCopyCloser.Close, fileCloser.Close")],
  ["return values of RSync.Patch and RSync.Close"])

p("C23", "The command-line tool round-trips and rejects damaged index files",
  "An index file built by the tool lets the tool patch any local file into the indexed file over HTTP. With an index file that is truncated at any byte, has a wrong signature or another major version, or that does not describe as many blocks as its file size calls for, patching exits with an error status instead of crashing or reporting success, and touches neither the local file nor an existing output.",
  ["inputs", "crash_points", "configurations"],
  "build and patch over small files and block sizes, with every truncation point of the index file, every damaged signature byte, and other versions",
  "The command has no tests at all.",
  ["cmd/gosync/build.go", "cmd/gosync/patch.go", "cmd/gosync/common.go", "cmd/gosync/fileformat.md"],
  [("header and index parsing", "cmd/gosync/common.go readHeadersAndCheck, readIndex"), ("order of checks and of opening the output", "cmd/gosync/patch.go Patch")],
  ["exit status and files after running the gosync command"])

p("C24", "Patching gives the same result under every schedule",
  "For every interleaving of the concurrent matchers, mergers, transfers and the patcher, patching terminates, succeeds and writes exactly the reference, and concurrent scans that share a matcher and an index find the same matches and count the same statistics as when run one after another.",
  ["schedules"],
  "the complete pipeline on small files with 1..3 matchers, and 2..3 concurrent scans sharing one matcher and index, under every interleaving with a bounded number of deviations from the default schedule, at statement granularity",
  "Go tests run one unspecified schedule per run, on one processor.",
  ["rsync.go", "comparer/comparer.go", "comparer/merger.go", "blocksources/blocksourcebase.go", "index/index.go"],
  [("result channels, merger lock and wait group", "comparer/merger.go"), ("atomic statistics", "comparer/comparer.go")],
  ["RSync.Output", "Comparer statistics"])

p("C25", "A failing or lying server never produces a wrong file",
  "Whatever a server does when files are patched by name over HTTP (wrong, corrupted, shortened or extended content, error statuses, dropped connections, at any request and any byte), patching either writes exactly the reference and succeeds or returns an error; it never succeeds with different content, crashes or hangs.",
  ["fault_sequences", "inputs"],
  "every single-byte corruption, every truncation, every status code of a menu, at every request of a patch, including faults that appear only at the second or third request, for several local files",
  "One test serves a corrupt body to a block source with a hand-made verifier; no test patches from a failing server.",
  ["rsync.go", "blocksources/httpblocksource.go", "blocksources/blocksourcebase.go", "filechecksum/verifier.go", "patcher/sequential/sequential.go"],
  [("each block is verified against the index before use", "rsync.go MakeRSync, filechecksum/verifier.go")],
  ["return value of RSync.Patch", "output file"])

p("C26", "The diff command reports exactly how much is shared",
  "For every local file and index, and any number of streams, the diff command reports every block of the reference that occurs in the local file at a place no other matching block overlaps as matched, wherever it lies with respect to the division into streams, and the reported matched blocks are never more than the blocks that really occur.",
  ["inputs", "configurations"],
  "local files above the single-stream limit with a block planted at every position around every stream border, 1..8 streams, several block sizes; and all small files with one stream",
  "The command has no tests.",
  ["cmd/gosync/common.go", "cmd/gosync/diff.go"],
  [("overlapping sections", "cmd/gosync/common.go multithreadedMatching")],
  ["standard output of gosync diff"])

p("C27", "Stream helpers deliver exactly the described bytes",
  "The reader helpers (uniform, non-repeating, size-limited sequence, injection into a stream) deliver exactly the described bytes for every way of splitting the reading into non-empty reads, deliver all bytes before or with the end of file, and never end early.",
  ["inputs", "histories"],
  "all small lengths, offsets and all compositions of reads, and long reads",
  "Tests read each helper once or twice.",
  ["util/readers/uniformreader.go", "util/readers/nonrepeating.go", "util/readers/injectedreader.go", "util/readers/sequencelimit.go"],
  [("position kept across reads", "util/readers")],
  ["bytes returned by the readers"])

p("C28", "A finished patch leaves nothing behind",
  "When a patch made by file names (MakeRSync, Patch) has been closed, whether it succeeded, failed at any step or was never started, every file it opened is closed even if closing another one failed, every goroutine it started ends once the requests already under way have been answered, its block source takes no more requests, every response body has been read to its end or closed, and no temporary file remains (except a complete result whose copying onto the local file failed). The same holds for files and goroutines when MakeRSync itself returns an error.",
  ["fault_sequences", "schedules"],
  "all kinds of output and name, every failing step of files, names, writing (at every byte) and requests (at each request, in many ways), one answer that arrives only after Close, closing twice, without patching; and all schedules up to a preemption bound",
  "No test closes a patch that failed, and none looks at open files, goroutines or temporary files.",
  ["rsync.go", "blocksources/blocksourcebase.go", "blocksources/httpblocksource.go"],
  [("list of what to close", "rsync.go MakeRSync, RSync.Close"), ("removal of the temporary file", "rsync.go RSync.Close, fileCopyCloser.Close"), ("end of the block source's goroutine", "blocksources/blocksourcebase.go loop")],
  ["open file descriptors, goroutines, response bodies and files after RSync.Close"])

p("C29", "Commands report failure and touch only their own output",
  "The commands build, diff and patch exit with status zero only when they have done what they were asked: build has written the complete index in the documented format, patch has written exactly the reference. With missing or unusable files, names, options, block sizes or sources, a damaged index, a failing server, or an output that cannot be written at any byte, they end with another exit status and a message. They never change or create any file except their own output (build: the index next to the file, which is never the file itself; diff: none; patch: the output), and a patch in place that fails leaves the local file as it was and no other file.",
  ["fault_sequences", "configurations", "inputs"],
  "a menu of names, links, options, block sizes, sources, servers and damaged indexes for each command, and a write failure after every number of bytes",
  "The command has no tests.",
  ["cmd/gosync/main.go", "cmd/gosync/build.go", "cmd/gosync/diff.go", "cmd/gosync/patch.go", "cmd/gosync/common.go", "rsync.go"],
  [("exit status of failed commands", "cmd/gosync/main.go main, cmd/gosync/common.go errorWrapper"), ("name of the index", "cmd/gosync/build.go Build"), ("closing after a failed patch", "cmd/gosync/patch.go Patch")],
  ["exit status, messages and files after running the gosync command"])

p("C30", "A block source over a local reader delivers exactly the file's bytes",
  "A block source over a local seekable reader delivers, for every set of requested block ranges in any order and under every schedule, exactly the bytes that the file has in them, however the reader splits its reads, and uses the reader for one request at a time. When positioning or reading fails before all bytes of a range were read, or nothing of a range exists, it reports an error; no wrong or shifted bytes are ever delivered as a success.",
  ["inputs", "fault_sequences", "schedules"],
  "small files, block sizes and lists of ranges, with known or unknown file size and with splitting into smaller requests, all simple ways of reading, a failure of each seek and at each byte; and all schedules up to a preemption bound",
  "One test reads a single block from a reader that never fails.",
  ["blocksources/readseeker_blocksource.go", "blocksources/blocksourcebase.go", "blocksources/fixed_size_block_resolver.go"],
  [("seek, then full read", "blocksources/readseeker_blocksource.go ReadSeekerRequester.DoRequest"), ("one request at a time", "blocksources/readseeker_blocksource.go NewReadSeekerBlockSource")],
  ["GetResultChannel", "EncounteredError", "ReadBytes"])

p("C31", "An index works wherever it comes from and in whatever pieces it arrives",
  "The commands patch and diff accept an index by file name, from a pipe, and by an http(s) URL, in whatever pieces its bytes arrive, and do with it exactly what they do with the same index read at once from a file: the index of a file always patches into that file. Only names that start with http:// or https:// are fetched; others are files, however odd. Indexes that differ only in their minor or patch version are accepted. When the index does not arrive completely (cut off at any byte, reset, a status other than success, no server), patch exits with an error status and creates and changes nothing.",
  ["inputs", "fault_sequences"],
  "small indexes in every division into two and three pieces and in single bytes through a pipe, with a pause, an end and a reset at every byte in several HTTP framings, a menu of statuses, odd file names and all pairs of a menu of minor and patch versions",
  "The command has no tests.",
  ["cmd/gosync/common.go", "cmd/gosync/patch.go", "cmd/gosync/diff.go", "filechecksum/filechecksum.go", "chunks/chunks.go"],
  [("reading of the header", "cmd/gosync/common.go readHeadersAndCheck"), ("opening of files and URLs", "cmd/gosync/common.go"), ("reading of the blocks", "cmd/gosync/common.go readIndex")],
  ["exit status, output and files after running the gosync command"])

p("C32", "Every documented way to set up a patch gives the reference",
  "A patch set up in any documented way writes exactly the reference: with a BasicSummary (with a ChecksumLookup, or without one to disable verification) or an own FileSummary, an index from the indexbuilder or from a stream of checksums, a block source over a local reader or file (with or without known file size), over HTTP, over an own requester or an own BlockSource, with input and output in memory or in files, or by names. A summary can be used for many patches, one after another and at the same time, and patches that run at the same time, also in place in the same directory, do not disturb each other.",
  ["configurations", "inputs", "schedules"],
  "all combinations of 5 kinds of summary and 7 kinds of block source for all pairs of short files and for edited files; two patches at once under every schedule up to a preemption bound",
  "The tests make one patch with one set-up.",
  ["rsync.go", "README.md", "indexbuilder/indexbuilder.go", "blocksources/readseeker_blocksource.go", "blocksources/helpers.go", "filechecksum/verifier.go"],
  [("interfaces of the parts", "rsync.go FileSummary, RSync"), ("names of temporary files", "rsync.go getTempFile"), ("verification without a checksum", "rsync.go BasicSummary, filechecksum/verifier.go")],
  ["RSync.Output", "files after RSync.Close", "return values"])

p("C33", "The figures of a scan are true",
  "When scans have ended, their Comparer has counted as Comparisons every window that was looked up in the index, as WeakHashHits every window whose weak checksum the index knew, and as StrongHashHits every place of the stream at which matching blocks were reported, also over several scans and when reading fails. What diff prints fits: the same counts, the hit rates that follow from them, the number of blocks of the index, and matched and missing bytes as the matched and the other blocks times the block size.",
  ["inputs", "fault_sequences"],
  "all pairs of short references and streams, one to three scans with one Comparer, a failure of reading at every byte, edited files; diff on all pairs of short files and on files of several megabytes in several streams",
  "Tests do not look at the figures.",
  ["comparer/comparer.go", "cmd/gosync/diff.go"],
  [("counters", "comparer/comparer.go Comparer"), ("sums and rates", "cmd/gosync/diff.go Diff")],
  ["Comparer.Comparisons, WeakHashHits, StrongHashHits", "standard output of gosync diff"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
