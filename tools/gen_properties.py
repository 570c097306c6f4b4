#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand when a property's text changes)."""
import json
ALL = ["src/bup.rs","src/buzhash.rs","src/fastcdc.rs","src/gear.rs","src/gzip.rs","src/mii.rs","src/pigz.rs","src/ram.rs","src/zpaq.rs","src/zstd.rs"]
FCE = "find_chunk_edge"
def P(id, title, statement, over, text, why, files, mech, state=(), observe=("hash_roll public API",)):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=n, meaning=m, where=w) for n,m,w in state],
                     mechanism=[dict(name=n, where=w) for n,w in mech], observe_at=list(observe), hook_needed=None))
CONF = "all input streams, all ways of dividing them between calls, all parameters of a sane configuration"
out = []
out.append(P("C01", "Cuts and discards stay inside the slice, and nothing panics",
 "For every sanely configured algorithm, after any history of calls made the documented way, push and find_chunk_edge return without panicking (also with overflow checks on) for every slice, empty ones included. A reported cut lies in 1..=data.len(), so searching always makes progress (FastCDC's incremental interface may report 0 for a match on the first byte of a slice); the discard count never exceeds data.len() nor, when there is a cut, the cut.",
 ["inputs","histories","configurations"], "every algorithm, every sane configuration, every history of previous calls, every slice",
 "Tests feed a few fixed-seed streams with default parameters; an off-by-one at a slice end, an empty slice, a window that is not a power of two or a cut right after another cut is only met by chance.",
 ["src/lib.rs"]+ALL, [("Chunk::find_chunk_edge / ChunkIncr::push of every algorithm","src/*.rs"),("Trait contracts","src/lib.rs")]))
out.append(P("C02", "All-at-once cuts do not depend on how the input is buffered",
 "The absolute positions of the cuts find_chunk_edge produces on a stream are the same however the stream arrives in the buffer, as long as the caller keeps the bytes that were not discarded. That includes repeating the call with no new bytes, growing the buffer one byte at a time, and handing over everything at once.",
 ["inputs","histories","configurations"], CONF,
 "The property test varies one buffer size per run over random data that rarely cuts; cuts next to a buffer border, windows straddling two calls and limits reached exactly at the end of a buffer are hardly sampled.",
 ALL, [("find_chunk_edge loops and the offset/discard bookkeeping","src/*.rs"),("SearchState types carrying hash and counters between calls","src/*.rs")],
 [("offset","how much of the next buffer was already examined","src/bup.rs, src/buzhash.rs, src/gzip.rs, src/zstd.rs")]))
out.append(P("C03", "Incremental cuts do not depend on how the stream is divided",
 "The absolute positions of the cuts an incremental chunker reports are the same however the stream is divided into pushed slices, where after a cut at n the bytes from n on are pushed next. Empty slices change nothing. (FastCDC's incremental interface with minimum size 0 can report 0 for a match on the first byte and is listed as a known finding.)",
 ["inputs","histories","configurations"], CONF,
 "Existing tests push whole streams or single bytes of a few random streams and ignore the index that push returns.",
 ALL, [("ChunkIncr::push of every algorithm","src/*.rs")]))
out.append(P("C04", "The incremental and the all-at-once interface find the same cuts",
 "For every algorithm and configuration, on the same stream, the incremental chunker made by to_chunk_incr and find_chunk_edge (for any two divisions of the stream) give the same list of absolute cut positions. (FastCDC's incremental interface, which reports the index of the matching byte rather than the end of the chunk, is listed as a known finding.)",
 ["inputs","histories","configurations"], CONF,
 "Tests compare the two interfaces on fixed streams pushed byte by byte, without looking at the returned index, so errors of the index, of second and later chunks and of non-default parameters pass.",
 ALL, [("two implementations of each algorithm: push and find_chunk_edge","src/*.rs"),("circular windows vs. look-back into data","src/bup.rs, src/buzhash.rs, src/gzip.rs, src/zstd.rs")]))
out.append(P("C05", "Slice iterators partition the data",
 "iter_slices yields consecutive slices whose concatenation is exactly the given data, ends for every algorithm (FastCDC with minimum size 0 excepted, see known findings), and splits exactly where push reports cuts on the rest. iter_slices_strict yields only the complete chunks, leaves exactly the unsplit rest for take_rem (which empties it) and into_parts, and both hand back the chunker.",
 ["inputs","configurations"], "every implementation of the incremental interface, every slice",
 "Iterators are only exercised by a handful of FastCDC streams in the existing tests; the strict variant, take_rem and into_parts are not tested at all.",
 ["src/lib.rs"], [("IterSlices::next, IterSlicesStrict::next, take_rem, into_parts","src/lib.rs")],
 [("rem","data not yet yielded","src/lib.rs")]))
out.append(P("C06", "After a cut every chunk starts afresh (except in zstd)",
 "For every algorithm but zstd, the cuts found after a cut are those a newly created chunker of the same parameters finds on the bytes after that cut, through either interface: nothing of an emitted chunk influences later ones. Zstd, as documented, carries its rolling hash and window over cuts.",
 ["inputs","histories","configurations"], CONF,
 "Fixed streams hardly ever have cuts close enough together for stale state (window contents, counters, previous byte) to matter.",
 ALL, [("reset paths of every state type","src/*.rs")]))
out.append(P("C07", "Rolling-hash cuts depend only on the bytes of the window",
 "For bup, buzhash and gzip the decision to cut after a byte depends only on the parameters and the last window bytes since the previous cut (plus, in buzhash, the chunk length limit); for zstd only on the last 32 bytes of the input, once more than 32 were seen. The rolling update equals hashing the window from scratch, so insertions and deletions move cuts only locally.",
 ["inputs","histories","configurations"], "every window length, every prefix leading to the same window, either interface",
 "It quantifies over all pairs of histories ending in the same window; tests check no such pair, and an error of the removal term only shows after the window has been filled, for particular window lengths.",
 ["src/bup.rs","src/buzhash.rs","src/gzip.rs","src/zstd.rs"],
 [("RollSumState::add, RollSumIncr::roll_byte","src/bup.rs"),("BuzHashState::add/add_overflow/add_buf, BuzHashIncr::push_byte","src/buzhash.rs"),("GzipRsyncableState::add, GzipRsyncableIncr::push","src/gzip.rs"),("ZstdState::append/rotate","src/zstd.rs")],
 [("window / buf","circular copy of the last bytes","src/bup.rs, src/buzhash.rs, src/gzip.rs, src/zstd.rs")]))
out.append(P("C08", "Configured chunk size limits are respected",
 "Every chunk ended by a cut respects the limits of its configuration: FastCDC at least the minimum and at most the maximum size; RAM longer than its window w; zpaq inside of the configured range (when it has a value); buzhash at most max_chunk_size + 1 bytes; mii longer than w bytes. A chunk that reaches its upper limit is cut there even if no hash matches.",
 ["inputs","histories","configurations"], CONF,
 "Limits bind only for particular data (long runs without a match, matches just under the minimum) and at particular divisions of the input.",
 ["src/fastcdc.rs","src/ram.rs","src/zpaq.rs","src/buzhash.rs","src/mii.rs","src/range.rs"],
 [("FastCdcState::push","src/fastcdc.rs"),("RamState::push","src/ram.rs"),("Zpaq::split_here","src/zpaq.rs"),("max_chunk_size checks","src/buzhash.rs"),("MiiIncr::push","src/mii.rs")],
 [("l, i, idx, input_idx, increment","bytes examined since the last cut","src/*.rs")]))
out.append(P("C09", "Look-back is bounded by the window",
 "find_chunk_edge never asks the caller to keep more than the window: without a cut it keeps exactly the last min(len, window) bytes for bup, buzhash and gzip, at most 32 for zstd, and none for the other algorithms; with a cut everything up to the cut can be discarded (all but the 32 bytes before it for zstd). Later results do not depend on discarded bytes.",
 ["inputs","histories","configurations"], CONF,
 "Tests keep whatever is returned and never measure it; discarding too much or too little only changes cuts for later data of particular shape.",
 ALL, [("discard_ct computation in find_chunk_edge","src/bup.rs, src/buzhash.rs, src/gzip.rs, src/zstd.rs")]))
def conf(id, title, st, f, mech):
    out.append(P(id, title, st, ["inputs","histories","configurations"], CONF+"; both interfaces",
      "Existing tests pin the cuts of one or two random streams with default parameters; the rule has to hold for each byte value, table entry, parameter and division of the input.", [f], mech))
conf("C10","bup cuts exactly where its rolling checksum says",
 "Both interfaces cut after exactly those bytes where the low 13 bits of the rolling checksum are all ones: with all arithmetic modulo 2^32, s1 starts at 31*w and s2 at 31*w*(w-1); a byte adds itself and subtracts the byte leaving the w-byte window (0 while it is not full) in s1, then s2 grows by s1 minus w*(leaving+31). The digest is (s1 << 16) | (s2 & 0xffff), the state restarts after each cut, and the default window is 64 bytes.",
 "src/bup.rs",[("RollSumState::add/digest/at_split/from, RollSumIncr::roll_byte/push, RollSum::find_chunk_edge","src/bup.rs")])
conf("C11","buzhash cuts exactly where the cyclic polynomial or the limit says",
 "Both interfaces cut after exactly those bytes where hash & mask == mask or the chunk became longer than max_chunk_size; the hash is the xor, over the last (up to k) bytes since the cut, of the byte's table value rotated left by its distance from the end. The three provided hash functions look the byte (xor the salt, if any) up in their table, for any caller-provided hash the same holds, and new_nom uses k 67, mask 2^12-1, the nom table and limit 2^24.",
 "src/buzhash.rs",[("BuzHashState, BuzHashIncr::push/push_byte, BuzHash::find_chunk_edge, BuzHashHash impls, new, new_nom","src/buzhash.rs")])
conf("C12","FastCDC cuts exactly where its two-mask gear hash or the maximum says",
 "Per chunk, the first min_size bytes are skipped; each following byte updates fp = (fp << 1) + gear[byte] modulo 2^64, and the chunk ends after the byte when fp has no bit in common with 0x3590703530000 (before normal_size bytes) or 0xd90003530000 (from there on), or at max_size bytes. find_chunk_edge reports the end of the chunk; the incremental interface reports the index of the matching byte, or the end at max_size. The state restarts after each cut; defaults are 2 KiB, 8 KiB, 64 KiB and the built-in 64-bit table.",
 "src/fastcdc.rs",[("FastCdcState::push, FastCdcIncr::push, FastCdc::find_chunk_edge","src/fastcdc.rs")])
conf("C13","Gear cuts exactly where its masked fingerprint is zero",
 "Both interfaces cut after exactly those bytes where the fingerprint, fp = (fp << 1) + table[byte] modulo 2^32 starting from 0 in each chunk, has its top log2 bits (log2 being the configured average size, 1 to 31) all zero. The default average is 2^13 bytes and the table is the built-in 32-bit one.",
 "src/gear.rs",[("GearState32::push/reset, msb_mask, GearIncr32::push, Gear32::find_chunk_edge","src/gear.rs")])
conf("C14","gzip cuts exactly where the window sum is a multiple of the modulus",
 "Both interfaces cut after exactly those bytes where the sum of the last (up to window) bytes since the previous cut is divisible by the modulus (the first byte of a chunk included). The defaults are window 8192 and modulus 4096.",
 "src/gzip.rs",[("GzipRsyncableState::add, GzipRsyncableIncr::push, GzipRsyncable::find_chunk_edge","src/gzip.rs")])
conf("C15","MII cuts exactly after w consecutive increments",
 "Both interfaces cut after exactly those bytes that complete w increases in a row (each byte greater than the one before it in the same chunk; the first byte of a chunk is never an increase). The default w is 5.",
 "src/mii.rs",[("MiiIncr::push/reset, Mii::find_chunk_edge","src/mii.rs")])
conf("C16","pigz cuts exactly where its masked hash hits",
 "Both interfaces cut after exactly those bytes where hash = ((hash << 1) ^ byte) & (2^bits - 1) equals (2^bits - 1) >> 1, the hash starting at that same value in each chunk. The default is 12 bits.",
 "src/pigz.rs",[("PigzRsyncableState::add, with_bits, PigzRsyncableIncr::push, PigzRsyncable::find_chunk_edge","src/pigz.rs")])
conf("C17","RAM cuts exactly at the first maximum past its window",
 "Both interfaces cut after exactly those bytes that are at 0-based position greater than w in their chunk and are at least as large as every byte before them in the chunk.",
 "src/ram.rs",[("RamState::push, Ram::find_chunk_edge, RamIncr::push","src/ram.rs")])
conf("C18","zpaq cuts exactly where its prediction hash or the range says",
 "Both interfaces cut after exactly those bytes where (the hash is below 2^(32-average) and the chunk is not under the minimum) or the chunk could not grow by one byte and stay within the maximum. Per chunk hash starts at 0 and becomes (hash + byte + 1) * 314159265 if the byte is the one that last followed the same previous byte (0 initially), else * 271828182, modulo 2^32.",
 "src/zpaq.rs",[("ZpaqHash::feed, Zpaq::split_here, ZpaqIncr::push/reset, Zpaq::find_chunk_edge","src/zpaq.rs"),("RangeExt","src/range.rs")])
conf("C19","zstd cuts exactly where its 32-byte rolling hash says",
 "Both interfaces cut after exactly those bytes, from the 33rd byte of the input on, where all bits of the hit mask are set in the hash of the last 32 bytes: the sum of (byte + 10) * 0xCF1BBCDCB7A56463^(distance from the end) modulo 2^64. The mask is 2^(floor(log2(target size in MiB)) + 20) - 1 and the default target is 8 MiB.",
 "src/zstd.rs",[("ZstdState::append/rotate/at_split, ZstdIncr::push, Zstd::find_chunk_edge, with_target_section_size","src/zstd.rs")])
out.append(P("C20","Range helpers agree with the mathematical interval",
 "For every kind of range and item, contains is true exactly when the item satisfies both bounds, under_min exactly when it violates the lower one, exceeds_max exactly when it violates the upper one. into_tuple and bound_cloned keep kind and value of each bound.",
 ["inputs","configurations"], "all combinations of included, excluded and missing bounds, all items",
 "Only one doc example covers bound_cloned; no test covers the predicates, which decide zpaq's block sizes.",
 ["src/range.rs"], [("RangeExt for RangeBounds, bound_cloned","src/range.rs")]))
out.append(P("C21","Constructors give exactly the documented parameters",
 "Every constructor and Default yields the algorithm its documentation describes. For zpaq: with_average_size_pow_2(a) has average 2^a and sizes from 64*2^(a-10) to 8128*2^(a-10) inclusive (10<=a<=32), default is a=16; with_max_size(m) has sizes m/64..=m and average about m/4 (2^floor(log2(m/4)), at least 2); with_range derives the average from its maximum the same way and keeps the range. to_chunk_incr and to_search_state start at the beginning of a chunk with these parameters and leave the configuration unchanged.",
 ["inputs","configurations"], "all constructor arguments in their documented ranges",
 "Tests build default configurations or one literal set of parameters; wrong derivations for other arguments go unnoticed.",
 ALL, [("with_*/new/Default/From of every algorithm","src/*.rs")]))
out.append(P("C22","Lookup tables hold their published values",
 "The built-in tables (32- and 64-bit gear, the Go buzhash table, the Borg base table) hold their published values, so that cuts stay the same from release to release; borg_buzhash_table(seed) is the Borg base table with each of its 256 entries xored with the seed, for every seed.",
 ["inputs","configurations"], "all 256 entries of each table, all seeds",
 "A wrong entry changes the cuts only of data containing that byte at a decisive place; no test reads the tables, and nothing calls borg_buzhash_table.",
 ["src/buzhash_table.rs","src/gear_table/gear32.rs","src/gear_table/gear64.rs"], [("GEAR_32, GEAR_64, GO_BUZHASH, borg_buzhash_table","src/buzhash_table.rs, src/gear_table/")]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(o)+"\n" for o in out))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for o in out: jsonschema.validate(o,s)
print(len(out))
