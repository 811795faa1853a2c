#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and specs.py."""
import json
import os

import specs

HERE = os.path.dirname(os.path.abspath(__file__))
HOOK = "e7483dd281b2b521c5b4170021f6cb96f2d65d01"
A = "src/codec/adhoc.rs"
F = "src/codec/adhoc/frame.rs"
W = "src/codec/wav.rs"
C = "src/codec.rs"
B = "src/collections/bitstream.rs"


def m(name, where):
    return {"name": name, "where": where}


P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    anchors = {"files": files, "mechanism": mechanism, "hook_needed": hook}
    if state:
        anchors["state"] = [{"name": n, "meaning": w, "where": x} for n, w, x in state]
    if observe:
        anchors["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})


PRIVATE = "cfg(adhoc_verif) re-exports the private collections and math"

p(
    "C01",
    "Compression level 0 is lossless for 16-bit audio",
    "Whatever samples are encoded at compression level 0, decoding returns exactly as many samples per channel, each being the input sample rounded to the nearest 16-bit level (clamped to full scale, silence for NaN). "
    "16-bit audio therefore comes back bit for bit, however the input was cut into encode calls and whether it was decoded from memory or from a saved file.",
    ["inputs", "histories", "configurations"],
    "all sample values, all divisions into encode calls, any number of channels, frame lengths and bit positions",
    "the tests compare one sine and one wav file within a tolerance; residuals near full scale, chunk boundaries, short and very long calls never occur in them",
    [A, F, B],
    [m("prediction and residual are undone in the same order", F + ":FrameCodec::encode_frame, decode_frame"), m("Rice code", B + ":write_compressed, read_compressed"), m("interleaving", A + ":encode, decode")],
    [("sample_history", "last samples of the channel, the same in encoder and decoder", F)],
    ["AdhocCodec::decode"],
)
p(
    "C02",
    "Lossy levels stay within their quantiser step",
    "At compression level L from 1 to 10, every decoded sample differs from the encoded one (within -1..1) by at most half of 2^L 16-bit steps plus the fixed dither amplitude of 0.001 and float rounding.",
    ["inputs", "configurations"],
    "all sample values from -1 to 1, all eleven levels, all channels",
    "a test can look at single samples; the worst case over all values and the dither is what the level promises",
    [A, "src/math/noise.rs"],
    [m("dither and scaling in encode", A + ":AdhocCodec::encode"), m("scaling back in decode", A + ":AdhocCodec::decode"), m("noise", "src/math/noise.rs")],
    observe=["AdhocCodec::decode"],
)
p(
    "C03",
    "Decoding does not depend on buffer sizes",
    "The sequence of decoded samples is the same for every sequence of buffer lengths passed to decode; each call fills as many whole groups of channels as fit or are left, returns that number (or None at the end), and leaves the rest of the buffer alone.",
    ["inputs", "histories", "configurations"],
    "all sequences of buffer lengths, including zero and those that are no multiple of the number of channels",
    "tests decode with one buffer of 1024 or of the whole length",
    [A],
    [m("buffered samples per channel and the output cursor", A + ":AdhocCodec::decode")],
    [("buffered_channel", "decoded, not yet delivered", F)],
    ["AdhocCodec::decode"],
)
p(
    "C04",
    "A saved and loaded recording is the same recording",
    "Loading what save_to wrote gives a codec with the same stream information, sample count, compression level and decoded samples as the original, wherever the original's position was when it was saved; saving the copy again writes the same bytes.",
    ["inputs", "histories", "configurations"],
    "all recordings, levels, sample rates, and moments of saving",
    "tests write one file and read back one resource; nothing compares the two",
    [A, F, B, "src/codec/adhoc/audio_stream.rs"],
    [m("serialisation", A + ":save_to, load"), m("fields of the lists and the stream", F + ":FrameHeaders")],
    observe=["AdhocCodec::load"],
)
p(
    "C05",
    "filesize_upperbound bounds the size of the saved file, tightly",
    "filesize_upperbound() is never below the number of bits save_to writes at that moment, and exceeds it by no more than a word and a byte per frame; for wav streams it is exact.",
    ["inputs", "histories", "configurations"],
    "all histories of encoding, decoding, loading and reuse",
    "no test compares it with a saved file",
    [A, F, B, W],
    [m("sum of the parts", A + ":filesize_upperbound"), m("header lists", F + ":calculate_weight_upperbound"), m("wav", W + ":filesize_upperbound")],
    observe=["Streamable::filesize_upperbound", "save_to"],
)
p(
    "C06",
    "Seeking a compressed stream lands on the right sample",
    "After seeking to t milliseconds from the start, decoding continues with exactly the samples that full decoding gives from sample t * rate / 1000 (rounded down, exact for every rate and length) on, all channels aligned, whatever the position before; seeking to or past the end leaves nothing to decode.",
    ["inputs", "histories", "configurations"],
    "all times, recordings made of frames of any length, channel numbers, rates, and positions before",
    "no test seeks anywhere but to 0",
    [A, F],
    [m("search for the frame, history from its header, pruning", A + ":seek")],
    [("stack_history", "samples before the frame", F + ":FrameHeader"), ("bit_cursor", "where the frame starts", F + ":FrameHeader")],
    ["AdhocCodec::decode after seek"],
)
p(
    "C07",
    "Reusing a codec leaves nothing of the earlier recording",
    "After init() or seek(Start(0)), encoding a new recording into the same codec gives the same samples, count and file contents as encoding it into a new one, whether the new one is shorter or longer, at whatever point the old one had been decoded to.",
    ["histories", "inputs"],
    "all pairs of recordings and ways of starting over",
    "the tests encode once per codec; stale frames, bits and history only show in the second recording",
    [A, F, B],
    [m("reset of cursors and histories", A + ":init, seek"), m("truncation of old headers", F + ":FrameHeaders::push"), m("stale bits are cleared", B + ":write_bits")],
    [("header_cursor", "next header to read or to overwrite", F)],
    ["AdhocCodec::decode", "save_to"],
)
p(
    "C08",
    "Reported sample counts are what was encoded and what will be decoded",
    "encode returns the number of samples it took (whole groups of one sample per channel), calculate_sample_count_per_channel is the sum over all calls, stays the same through saving and loading, and is exactly what decoding then returns; wav streams agree with compressed ones.",
    ["inputs", "histories", "configurations"],
    "all sequences of call lengths, including empty ones and partial groups, for any number of channels",
    "no test passes partial groups or empty input, or looks at the count",
    [A, W],
    [m("chunks", A + ":encode"), m("sum over headers", A + ":calculate_sample_count_per_channel"), m("valid length", W + ":encode")],
    observe=["Streamable::encode", "calculate_sample_count_per_channel"],
)
p(
    "C09",
    "Loading damaged compressed files is refused or harmless",
    "AdhocCodec::load of any bytes either returns None or a codec on which every operation (info, count, size, decode, seek, save) ends without panicking and returns whole groups of samples; a file that is cut off is refused.",
    ["inputs"],
    "all byte strings",
    "the tests load good files only",
    [A, F, B],
    [m("validation after deserialising", A + ":load"), m("consistency of lists", F + ":is_consistent"), m("reads beyond the end give zeros", B + ":peek_bits")],
    observe=["AdhocCodec::load"],
)
p(
    "C10",
    "The bit stream returns what was written",
    "Any sequence of bit fields of 0 to 128 bits written to the stream, over old contents or not, reads back with the same widths as the same values, moves the cursor by exactly those widths, changes nothing in front of where it started, and reading past the end gives zeros.",
    ["inputs", "histories"],
    "all values, widths, positions and earlier contents",
    "tests write a few fixed patterns from position 0 into an empty stream",
    [B],
    [m("masking and splitting over two chunks", B + ":write_bits, peek_bits")],
    [("bit_cursor", "position in bits", B), ("bit_buffer", "chunks of 128 bits", B)],
    hook=PRIVATE,
)
p(
    "C11",
    "Rice coding is a bijection on 16-bit values",
    "For every exponent from 0 to 15, every 16-bit value written at any position reads back as itself, takes exactly sign + quotient + 1 + exponent bits, and leaves the cursor at the next value; the divisor variant means the same code, and the capped variant keeps every value of its range.",
    ["inputs"],
    "all values, exponents, positions",
    "tests use a few dozen small values with one or two exponents",
    [B],
    [m("sign, unary quotient, remainder", B + ":write_compressed, read_compressed and their variants")],
    hook=PRIVATE,
)
p(
    "C12",
    "Frame header lists behave like lists, also when overwritten",
    "A header list returns every header as pushed, in order, by index and by iteration; pushing after moving the cursor back replaces everything from there on; the packed nibble and bit lists under it are lists of 4-bit and 1-bit numbers under push, set, truncate and clear.",
    ["inputs", "histories"],
    "all contents, lengths and cut-back positions",
    "tests push a fixed list once and read it",
    [F, "src/collections/nibble_list.rs", "src/collections/bitvec.rs"],
    [m("truncation at the cursor", F + ":FrameHeaders::push"), m("packing", "src/collections/nibble_list.rs, src/collections/bitvec.rs")],
    hook=PRIVATE,
)
p(
    "C13",
    "Wav streams store and return 16-bit samples unchanged",
    "Any 16-bit audio encoded into a wav stream is stored bit for bit as little-endian PCM in order, and a saved file decodes to exactly the levels it holds; loading a 16-bit file and saving it again gives identical bytes.",
    ["inputs", "configurations"],
    "all sample values, lengths, channel numbers and divisions into calls",
    "the tests copy one file and never compare the copy",
    [W, C],
    [m("rounding", C + ":quantize_sample, normalize_sample"), m("byte order", W + ":write_sample, decode")],
    observe=["WavCodec::save_to", "WavCodec::decode"],
)
p(
    "C14",
    "A wav stream behaves like a tape",
    "Under any sequence of encode, decode and seek a wav stream behaves like an array of samples with a position: encoding overwrites at the position and extends at the end, decoding returns what is there, both advance by what they report, seeks move within the array.",
    ["histories", "inputs"],
    "all sequences of operations and their arguments",
    "no test mixes operations",
    [W],
    [m("cursor", W + ":write_sample, decode, seek")],
    [("short_cursor", "position in samples", W), ("pcm", "samples as bytes", W)],
    ["WavCodec::decode", "WavCodec::save_to"],
)
p(
    "C15",
    "Saved wav files have a consistent, standard header",
    "Every saved wav file has a 44-byte PCM header whose sizes, rate, channels, byte rate and block size agree with each other and with the data, and loading it gives the same stream information and the same file when saved again.",
    ["inputs", "configurations"],
    "all rates, channel numbers and lengths",
    "the tests write files and never look at them",
    [W],
    [m("header fields", W + ":save_to")],
    observe=["WavCodec::save_to"],
)
p(
    "C16",
    "Loading wav files finds exactly the audio, and refuses what it cannot play",
    "A well-formed PCM wav file of 8 or 16 bits loads with its rate, channels and exactly the samples of its data chunk, whatever other chunks surround it and however long its format chunk is (8-bit audio keeps order and extremes). "
    "Any other bytes are refused or give a stream of whole blocks that can be decoded and moved in without panic.",
    ["inputs"],
    "all files",
    "one ordinary file is loaded by the tests",
    [W],
    [m("walk over chunks", W + ":find_data_chunk"), m("validation, conversion from 8 bits, truncation to blocks", W + ":load")],
    observe=["WavCodec::load"],
)
p(
    "C17",
    "Seeking a wav stream lands on the right block",
    "seek from start, position or end by any number of milliseconds moves to exactly that time's block (rate * ms / 1000 from the base, cut towards the base, for every rate and length), limited to the stream, always on a block boundary.",
    ["inputs", "configurations"],
    "all offsets, bases, positions and rates",
    "no test seeks a wav stream anywhere but to 0",
    [W],
    [m("offset in blocks, clamped", W + ":seek")],
    [("short_cursor", "position in samples", W)],
    ["WavCodec::decode"],
)
p(
    "C18",
    "Short, interrupted or failing reads and writes are never taken for success",
    "Saving reports success only if every byte of the file was accepted, in order, by the destination, also when it takes a few bytes at a time or is interrupted; loading from a source that gives few bytes at a time reads the same stream, and one that fails or ends early is reported or, for wav data, gives the whole blocks up to there.",
    ["fault_sequences", "inputs"],
    "all points of failure and all sizes of partial transfers",
    "tests use files and vectors, which never do less than asked",
    [A, W],
    [m("write_all, read_to_end", W + ":save_to, load"), m("bincode", A + ":save_to, load")],
    observe=["save_to", "load"],
)
p(
    "C19",
    "Samples become the nearest 16-bit value, in both codecs alike",
    "Both codecs turn a sample into the nearest 16-bit value, symmetric around zero, in order, clamped at full scale, with NaN as silence, and every 16-bit level is a fixed point of decoding and encoding again.",
    ["inputs"],
    "all 2^32 float bit patterns",
    "tests use a few hundred ordinary samples and a tolerance of 0.01",
    [C, W, F],
    [m("clamp, scale, round", C + ":quantize_sample"), m("scale back", C + ":normalize_sample")],
    observe=["saved samples"],
)
p(
    "C20",
    "Linked list and LRU cache keep order, contents and capacity",
    "The linked list equals a deque under pushes, pops, removal, insertion and overwriting at any node, in both ends and iteration; the cache holds the most recently used keys up to its capacity, with their last values, and evicts the least recently used one.",
    ["histories", "inputs"],
    "all sequences of operations",
    "tests run one fixed script each",
    ["src/collections/linked_list.rs", "src/collections/lru_cache.rs"],
    [m("links and free list", "src/collections/linked_list.rs"), m("recency list and map", "src/collections/lru_cache.rs")],
    hook=PRIVATE,
)
p(
    "C21",
    "The ring buffer is a bounded deque",
    "Under any sequence of pushes and pops at both ends and clear, the ring buffer equals a deque that ignores pushes when full, in length, ends and iteration.",
    ["histories", "inputs"],
    "all sequences of operations",
    "the test runs one fixed script",
    ["src/collections/queue.rs"],
    [m("wrapping indices", "src/collections/queue.rs:FixedRingBuffer")],
    hook=PRIVATE,
)
p(
    "C22",
    "The sample history keeps the most recent samples",
    "A push adds one to the samples the history holds, up to four, and a pop takes one away and returns the newest; after any pushes and pops it returns the most recent samples, newest first, for as many as it holds, and a copy is independent of the original.",
    ["histories", "inputs"],
    "all sequences of pushes and pops",
    "the test pushes one fixed sequence",
    ["src/collections/stack.rs"],
    [m("wrapping cursor", "src/collections/stack.rs:CircularStack")],
    hook=PRIVATE,
)
p(
    "C23",
    "The dither noise stays in range and is reproducible",
    "From any state, the noise generator's numbers stay strictly within one for the triangular kind and within -1 (included) and 1 for the uniform kind, and two generators with the same seed give the same sequence.",
    ["inputs", "histories"],
    "all states",
    "the test prints some numbers",
    ["src/math/noise.rs"],
    [m("fraction of a linear sequence", "src/math/noise.rs:PseudoRandom")],
    hook=PRIVATE,
)
p(
    "C24",
    "The predictor's parabola interpolates its samples",
    "For any three 16-bit samples the parabola passes exactly through all three at 0, 1 and 2, and continues at 3 with the value of the exact parabola.",
    ["inputs"],
    "all triples of 16-bit samples",
    "the test has one triple",
    ["src/math/parabola.rs"],
    [m("coefficients", "src/math/parabola.rs:FixedParabola::compute_coefs, eval")],
    hook=PRIVATE,
)
p(
    "C25",
    "Signal helpers compute what they are named for",
    "Both convolutions agree for all inputs and shift a signal for a kernel with a single one; resampling keeps the ends, stays between neighbours and is the identity at equal length; the mean squared error is the mean of the squared differences over the common length, zero for equal signals and never negative; nothing is written beyond the result.",
    ["inputs", "configurations"],
    "all signals, kernels and lengths",
    "tests use one signal each and print it",
    ["src/math/signal.rs", "src/math.rs"],
    [m("loops over windows", "src/math/signal.rs")],
    hook=PRIVATE,
)
p(
    "C26",
    "The compressed file format is stable",
    "Saved files follow the documented layout (level, frame headers, stream information, bit stream of raw or Rice-coded residuals of the quadratic prediction), and any file following it decodes to what it says, so files of one version can be read by another.",
    ["inputs", "histories", "configurations"],
    "all recordings written, all contents read",
    "round trips pass when encoder and decoder change together; no test has a file of known contents to compare with",
    [A, F, B, "src/codec/adhoc/audio_stream.rs"],
    [m("order and width of fields", A + ":save_to, load"), m("bits of a frame", F + ":encode_frame, decode_frame")],
    observe=["bytes of save_to", "AdhocCodec::load"],
)
p(
    "C27",
    "Each frame uses the Rice exponent that needs the fewest bits",
    "For every frame, no other exponent from 1 to 15 would store its residuals in fewer bits.",
    ["inputs"],
    "all frames",
    "a worse choice still decodes, so no round trip notices",
    [F],
    [m("sums of bits for all exponents", F + ":compute_optimal_divisor_exponent")],
    observe=["size of the saved stream"],
)
p(
    "C28",
    "The command line tool converts a file completely, or leaves no trace",
    "Converting a wav file (convert_file) puts one file of its name, with only the extension replaced whatever other dots there are, into the output directory: a compressed file with the same rate, channels and number of samples that decodes to the wav file's samples at level 0, and within the bound of C02 at levels 1 to 10. "
    "Converting a compressed file puts a wav file of exactly its decoded samples there, replacing an older one, so that there and back at level 0 gives the same file again, for any number of samples and channels. "
    "The input is not changed; a file that cannot be read leaves nothing behind; success is only reported for a wav or compressed file when the output was written.",
    ["inputs", "configurations", "faults"],
    "all files, names and levels",
    "no test runs the tool",
    ["src/main.rs"],
    [m("buffers of 1024 samples, name of the output", "src/main.rs:convert_file")],
    observe=["files in the output directory", "result of convert_file"],
)

NOT_APPLICABLE = {}

NOTE = (
    "Every path of the harnesses through the compiled code is followed for all inputs at once and each assertion, overflow, bounds check and panic on it is decided by z3 or cvc5 (or by rewriting alone), within the bounds of the evidence file. "
    "Trusted: rustc's translation to LLVM IR, the engine (compared with native runs on sampled paths in every run), the solvers, and that memory suffices. Bounds: "
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    checks = []
    for x in P:
        if x["id"] in specs.SPECS:
            s = specs.SPECS[x["id"]]
            checks.append(
                {
                    "property": x["id"],
                    "quick_cmd": f"./check {x['id']} quick",
                    "thorough_cmd": f"./check {x['id']} thorough",
                    "technique": "symbolic execution of the compiled code (LLVM IR) with z3/cvc5",
                    "level": "model_checking",
                    "level_note": NOTE + s["bounds"] + ". Outside: " + s["outside"] + ".",
                }
            )
    missing = [x["id"] for x in P if x["id"] not in specs.SPECS and x["id"] not in NOT_APPLICABLE]
    assert not missing, missing
    manifest = {
        "version": 1,
        "setup_cmd": "./setup",
        "hooks": {
            "guard": "cfg(adhoc_verif)",
            "enable": 'RUSTFLAGS="--cfg adhoc_verif"',
            "source_commits": [HOOK],
        },
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
        "notes": "DESIGN.md describes the engine, the harnesses and their bounds; known-findings lists the defects that were repaired.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
