"""What each check explores: harnesses, bounds, and what lies outside them.

h(name, shards=, time=, thorough=, reach=, opts=, tier=):
  shards  processes the choices of the harness are divided among
  time    limit in seconds for each of them (thorough: for the thorough tier)
  reach   points of the harness that some path has to reach, or nothing was checked
  tier    "thorough": too long for every change
"""

SPECS = {}
LONG = ["--steps", "400000000"]
# floating-point queries that take a minute on a busy machine
HARD = ["--fptime", "240000"]
LONGER = ["--steps", "2000000000"]


def prop(pid, features, harnesses, bounds, outside, assumptions=()):
    SPECS[pid] = dict(features=features, harnesses=harnesses, bounds=bounds, outside=outside, assumptions=list(assumptions))


def h(name, **kw):
    kw.setdefault("reach", [1])
    return dict(name=name, **kw)


prop(
    "C01",
    ["codec", "frame"],
    [
        h("frame_step1", shards=5, reach=[1, 9], time=200),
        h("frame_step2", shards=3, reach=[1, 9], time=400),
        h("lossless_mono", shards=8, reach=[1, 2], time=300),
        h("lossless_stereo", shards=8, reach=[1, 2], time=300),
        h("lossless_long", shards=8, time=120, opts=LONG),
        h("lossless_wide", shards=8, time=120, opts=LONG),
        h("lossless_shapes", shards=12, time=120),
        h("lossless_longer", shards=3, time=300, opts=LONGER),
        h("lossless_many", shards=6, time=300, opts=LONGER),
    ],
    "frame_step: one frame of 1 or 2 samples (any f32 bits) after any history of four 16-bit values, onto stale bits, at bit offsets 0, 1, 63, 100, 127 (two samples: 0, 77, 125); "
    "the decoder ends with the history of the encoder, so frames chain to any length. lossless: recordings of 1 to 5 samples per channel in two calls (every split listed in codec.rs), "
    "one and two channels, any f32 bits, from memory and through a file. lossless_long: one call of 65537 samples, mostly silence, the odd one at seven places; lossless_longer: of 70000, 131071 and 196612. lossless_many: 65540 calls of mono, 33000 of stereo, 22000 of three channels. lossless_wide: one call of 65600 to 65700 samples of 2, 3, 10 and 65 channels, the same way. "
    "lossless_shapes: 24 recordings of 1 to 300 channels, up to 300 calls and up to 5000 samples in one, where only the first one or two samples are arbitrary",
    "more than two arbitrary predicted samples in one frame",
)
prop(
    "C02",
    ["lossy"],
    [
        h("lossy_predicted_some", shards=4, time=600, opts=HARD),
        h("lossy_near", shards=8, time=600, thorough=1500, opts=HARD),
        h("lossy_later", shards=8, time=600, thorough=1500, opts=HARD),
        h("lossy_long", shards=12, time=120, opts=LONG),
        h("lossy_predicted", shards=8, time=600, thorough=1500, tier="thorough", opts=HARD),
    ],
    "levels 1 to 10; one channel (sixth sample of eight, and the sample after 400) and two channels (first sample), and for four levels each three channels (the last of the seventh) and two channels in a codec that was loaded and is encoded to again; "
    "decoded from memory or through a file; every f32 from -1 to 1 for that sample, stored without prediction (levels 3, 5, 8 and 10, thorough tier all: also a predicted one), the noise of the dither at that position; the others silent. Bound: 2^level/2 quantiser steps + 0.001 of dither + 0.00001 of rounding. lossy_long: the 24 shapes of recording of C01 at every level, every sample of a fixed full-scale signal",
    "predicted samples at the other levels in the quick tier (exact once quantised: C01), other positions of the dither (its range for every state: C23)",
)
prop(
    "C03",
    ["play"],
    [h("partition_any", shards=8, time=120), h("partition_long", shards=12, time=120, opts=LONG)],
    "four recordings of 3 to 8 samples per channel in up to four calls, one and two channels, level 0 and 5, from memory and through a file; "
    "samples of raw frames any f32, predicted ones from a fixed waveform; all sequences of three buffer lengths from 0 to 3 frames plus a partial one, then the rest; "
    "the 24 recordings of C01 with six sequences of buffers of 0 to 5000 samples per channel, some with room for a part of a group",
    "other sequences of buffers longer than four",
)
prop(
    "C04",
    ["play"],
    [h("file_any", shards=8, time=120), h("file_long", shards=12, time=120, opts=LONG)],
    "six recordings of 1 to 8 samples per channel, one and two channels, levels 0 to 10, any 32-bit sample rate; written right after encoding, after init(), in the middle of decoding; samples of raw frames any f32; the 24 recordings of C01 at levels 0 and 10",
    "other recordings longer than a few frames; predicted samples are fixed (any residual: C26)",
)
prop(
    "C05",
    ["play", "headers", "wav"],
    [h("size_any", shards=4, time=120), h("reuse_any", shards=8, time=120), h("file_long", shards=12, time=120, opts=LONG), h("wav_header", shards=9, time=120), h("wav_long", shards=12, time=200, opts=LONG), h("headers_weight", shards=4, time=120)],
    "six recordings of up to five calls, one and two channels, any rate; right after encoding, after init(), after decoding, after loading, and after re-encoding a shorter or longer one; the 24 recordings of C01; "
    "the header list alone for 0 to 6 and 63 to 5000 entries, cut back or not; wav: 1 to 32767 channels, 0 to 2 blocks, and streams of up to 80000 samples",
    "recordings above 300 calls through AdhocCodec (their header lists: headers_weight)",
)
prop(
    "C06",
    ["play", "robust"],
    [h("seek_exact", shards=8, time=300), h("seek_close", shards=8, time=300), h("seek_far", shards=8, time=60), h("seek_long", shards=12, time=200, opts=LONG), h("seek_many", shards=8, time=400, opts=LONGER)],
    "any 64-bit number of milliseconds in seven recordings of 1 to 10 samples per channel, one and two channels, rates 500, 1000, 8000, 11025, 44100 and 192000; "
    "from the end, from the middle, and in a file just loaded; seek_far: recordings of 65535 * 1, 2, 5 and 300 samples at 8000, 11025 and 44100 Hz followed by three more; "
    "seek_long: the 24 recordings of C01 at levels 0, 3 and 8, in memory and loaded, up to 2 ms before and 1 ms after the start of the second, third, fourth and last call, and the end; "
    "seek_many: 65540 calls of mono and 33000 of stereo, four places in the middle and any from the last two samples on",
    "seeking from the current position or the end, which is documented as not implemented",
)
prop(
    "C07",
    ["play"],
    [h("reuse_any", shards=8, time=120), h("reuse_long", shards=12, time=200, opts=LONG), h("reuse_many", shards=8, time=400, opts=LONGER)],
    "three first recordings, six second ones, one and two channels; init(), seek(0), decoding a part or all before it, a loaded copy, and another number of channels; samples of raw frames any f32; "
    "the 24 recordings of C01 at levels 0 and 4, each followed by one of four others of 1 to 1300 samples; 3 to 65600 calls followed by 3 to 66000 others",
    "a second recording without any samples",
)
prop(
    "C08",
    ["play", "robust", "codec"],
    [
        h("counts_any", shards=8, time=120),
        h("counts_far", shards=3, time=60),
        h("lossless_long", shards=8, time=120, opts=LONG),
        h("lossless_wide", shards=8, time=120, opts=LONG),
        h("lossless_shapes", shards=12, time=120),
        h("lossless_longer", shards=3, time=300, opts=LONGER),
    ],
    "one, two and three channels; three calls of any length from 0 to three frames per channel (partial ones included), to one frame and a bit, and of eight lengths; both codecs; samples stored raw any f32; "
    "the 24 recordings of C01 and one call of 65537 to 196612 samples; files whose three frames per channel say any number of samples up to 65535",
    "more than 300 calls",
)
prop(
    "C09",
    ["robust"],
    [h("load_bytes", time=120), h("load_cut", shards=8, time=120), h("load_damaged", shards=8, time=200, reach=[1, 2, 3]), h("load_frames", shards=8, time=120, reach=[1, 2]), h("load_lists", shards=8, time=120, reach=[1, 2, 3])],
    "any 0, 3, 4, 11, 16, 24 or 40 bytes; a small file of one or two channels cut off at every even length; the same with any four bytes on a multiple of four overwritten "
    "(frame sizes up to 15, channels up to 15 or more than 65535); files whose one to three frame headers hold any start, size up to 3, flags, history; files with any two of twelve list lengths, counts and cursors wrong; accepted files are decoded (up to four buffers), seeked, saved again",
    "damage to more than four neighbouring bytes; lengths in the file that ask for more memory than there is",
)
prop(
    "C10",
    ["bits"],
    [
        h("bits_write_read", shards=8, time=120),
        h("bits_single", time=120),
        h("bits_fields", time=120),
        h("bits_sequence", shards=4, time=120),
        h("bits_past_end", shards=8, time=120),
        h("bits_long", shards=8, time=120),
        h("bits_cursor", time=120),
    ],
    "a field of every width from 0 to 128 bits with any value at every position of two 128-bit chunks of any stale bits, followed by eight more bits; runs of eight typed fields, written twice; "
    "four fields of widths 0, 1, 28, 64, 127, 128 with a part written again; reads up to 256 bits past the end of any length up to 127, and at any position up to 2^60 behind 136 bits; 150 and 700 fields of all widths, of which up to 20 are written again",
    "writing past the end after moving the cursor there",
)
prop(
    "C11",
    ["bits"],
    [
        h("rice_wide", shards=8, time=200),
        h("rice_mid", shards=8, time=200),
        h("rice_edges", shards=6, time=120),
        h("rice_capped", time=120),
        h("rice_divisor", time=120),
        h("rice_all", shards=8, time=600, thorough=3600, tier="thorough"),
    ],
    "exponents 6 to 15: every 16-bit value; exponents 0 to 5: the values whose unary part is shorter than two, about one or two chunks, or as long as can be; "
    "at positions 0, 61, 101, 126, 127 of any stale bits, each followed by a second number and 16 more bits; the capped variant for every 14-bit value with divisors 2, 16, 512; the divisor variant for 2^9, 2^12, 2^14",
    "the remaining unary lengths of exponents 0 to 5 (thorough tier: rice_all, as far as its time goes)",
)
prop(
    "C12",
    ["headers"],
    [h("headers_rewrite", time=120), h("headers_long", shards=4, time=120), h("headers_many", shards=4, time=120, opts=LONG), h("lists_long", shards=8, time=120), h("nibbles", time=120), h("bitvec", shards=4, time=120)],
    "header lists of 0 to 5 entries with any content, cut back anywhere and extended by up to 3; lists of 63 to 1030 entries cut back near the ends and the word boundaries, of 65535 to 70001 entries cut back at five places; "
    "nibble lists of 0 to 9 and bit lists of 0 to 132 entries with set, truncate and clear, and of 15 to 4100 entries with an arbitrary last step",
    "longer lists",
)
prop(
    "C13",
    ["wav"],
    [h("wav_levels", shards=8, time=200), h("wav_identity", shards=3, time=120), h("wav_playback", time=120), h("wav_long", shards=12, time=200, opts=LONG)],
    "every 16-bit level but -32768; up to 4 blocks of 1 to 3 channels of any f32 bits in two calls; up to 3 blocks of any 16-bit data read from a file and written again; wav_long: 9000 to 80000 samples of 1, 2, 3, 8 and 300 channels with two arbitrary ones, in one and many calls, overwritten at three places, saved, loaded and read in one and many pieces",
    "longer files",
)
prop(
    "C14",
    ["wav"],
    [h("wav_ops_mono", shards=8, time=120), h("wav_ops_stereo", shards=8, time=120), h("wav_ops_three", shards=8, time=120), h("wav_ops_more", shards=8, time=200), h("wav_long", shards=12, time=200, opts=LONG)],
    "all sequences of three (mono: four; three channels: two) of encode, decode, seek from start, position and end, and a trip through a file, on streams of 0 to 2 blocks; lengths of encode from 0 to 2 blocks, of decode to 3, partial ones included; any f32 samples; wav_long of C13",
    "longer histories on arbitrary streams",
)
prop(
    "C15",
    ["wav"],
    [h("wav_header", shards=9, time=120), h("wav_identity", shards=3, time=120), h("wav_long", shards=12, time=200, opts=LONG)],
    "1, 2, 6, 64, 2047, 2048, 16383, 16384 and 32767 channels, any rate whose byte rate fits the header; 0 to 2 blocks, and the long streams of C13",
    "more channels or higher byte rates than the header has room for; more than 4 GB",
)
prop(
    "C16",
    ["wav"],
    [
        h("wav_load", shards=8, time=200, reach=[1, 2]),
        h("wav_eight_bits", time=200),
        h("wav_load_fields", time=120, reach=[1, 2, 3]),
        h("wav_load_any", shards=16, time=400, reach=[1, 2, 3]),
        h("wav_load_order", shards=10, time=200),
        h("wav_load_long", shards=12, time=200, opts=LONG),
    ],
    "well-formed files of 1 to 3 channels, 8 and 16 bits, any rate, a fmt chunk of 16, 18 or 40 bytes, another chunk of 7 or 150 bytes (six of them arbitrary) before the data or not, one after it or not, 0 to 2 blocks, cut off in the last one; "
    "all 8-bit values and their successors; a good file with any of six header fields replaced by anything or cut off at every length up to 50; any 0, 12, 43, 44 and 46 bytes with 1, 2, 3 or a negative number of channels; other chunks of 1 to 5001 bytes before the format, 9 to 3000 before the data; files of 6000 and 70002 bytes of data",
    "more than two other chunks",
)
prop(
    "C17",
    ["wav"],
    [h("wav_seek", shards=16, time=400), h("wav_seek_far", shards=16, time=200)],
    "any 64-bit number of milliseconds from the start, the position and the end of a stream of two blocks, one and two channels, from every position; rates 3, 500, 1000, 2000, 8000, 11025, 44100 and 192000; "
    "numbers of 11 bits (every position is reached), from 2048 to 2^40 and from 2^41 up, in both directions. wav_seek_far: streams of 441 to 80001 blocks at 37 to 96000 Hz, any number up to 2^40 that leads to the last five blocks or past the end",
    "streams longer than 80001 blocks; positions in the middle of long streams",
)
prop(
    "C18",
    ["io"],
    [
        h("adhoc_writes", shards=8, time=120, reach=[1, 2]),
        h("wav_writes", shards=8, time=120, reach=[1, 2]),
        h("adhoc_reads", shards=8, time=120, reach=[1, 2]),
        h("wav_reads", shards=8, time=120, reach=[1, 2, 3]),
        h("adhoc_long_files", shards=9, time=120, reach=[1, 2], opts=LONG),
        h("wav_long_files", shards=9, time=120, reach=[1, 2], opts=LONG),
    ],
    "a recording of two calls and a stereo wav stream of three blocks; devices that move any number of bytes at a time, are interrupted every other call, fail or run out after any number of bytes up to the length of the file; files of about 20 kB, with the point of failure at nine places",
    "devices that change their behaviour in between; errors of seeking other than at the failed position",
)
prop(
    "C19",
    ["quant"],
    [
        h("quant_agree", time=120),
        h("quant_ends", time=120, reach=[1, 2, 3, 4]),
        h("quant_odd", time=120),
        h("quant_silent", time=120),
        h("quant_stable", shards=8, time=200),
        h("quant_nearest", shards=8, time=400),
        h("quant_monotone", shards=8, time=600, thorough=1800, tier="thorough"),
    ],
    "every f32 bit pattern (agree, ends, odd, silent); nearest: every f32 from 2^-17 to 1, within half a step and 1/256 of one for rounding; stable: every 16-bit level, as either decoder returns it; thorough: neighbours keep their order",
    "nothing below the resolution of f32",
)
prop(
    "C20",
    ["coll"],
    [h("list_ops", shards=8, time=200), h("list_drain", time=120), h("lru_ops", shards=3, time=120), h("lru_any_keys", shards=4, time=120), h("list_long", shards=3, time=120), h("lru_long", shards=3, time=200)],
    "lists of 1 to 3 values under all sequences of three operations (push, pop, remove, insert and overwrite at any node), filled, emptied and filled again; caches for 1 to 3 entries, filled, under all sequences of three operations on four keys, and empty ones under all sequences of four on any 32-bit keys that all hash alike; any 32-bit values; fixed histories of 300 steps on lists of up to 100 and of 240 steps on caches of up to 40, with arbitrary steps at the end",
    "longer histories of arbitrary steps; a cache without room for anything",
)
prop("C21", ["coll"], [h("ring_ops", shards=2, time=120), h("ring_states", shards=2, time=120), h("ring_long", shards=3, time=120)], "rings of 2 and 4 places under all sequences of five of push, pop at both ends and clear, and of 1, 4 and 8 places from every rotation and filling under two; any 32-bit values; fixed histories of up to 1000 steps on rings of 4, 16 and 256 places with an arbitrary step at the end", "other sizes, longer histories of arbitrary steps")
prop("C22", ["coll"], [h("history", shards=4, time=120), h("history_long", shards=6, time=120)], "all sequences of up to six pushes, each followed by a pop or not; any 16-bit values at any of the distances that are kept; and a copy; 7 to 70000 pushes, up to three pops and two pushes of any value", "longer histories of arbitrary steps")
prop("C23", ["math"], [h("noise_range", time=120)], "any state up to 2^40, the next two numbers of both kinds, from two generators", "states from 2^44 on, where the arithmetic of the generator no longer fits")
prop("C24", ["math"], [h("parabola_samples", time=120)], "every triple of 16-bit samples: through the three, and the fourth value", "samples that are not whole numbers (the predictor: C01, C26)")
prop(
    "C25",
    ["math"],
    [h("convolutions", time=120), h("convolve_shift", time=120), h("resample", time=120), h("resample_between", shards=2, time=200), h("mse", time=120), h("mse_lengths", shards=8, time=200), h("convolutions_long", shards=4, time=120), h("convolve_shift_long", shards=4, time=120), h("resample_long", shards=3, time=120), h("mse_long", shards=3, time=200)],
    "signals and kernels of 0 to 4 numbers, any f32 bits; kernels of up to 3 with a single one; resampling 1 to 4 whole numbers to 2 to 5, and 8-bit ones to 2 to 4 between their neighbours; the error of up to two 16-bit numbers, and its value for signals of 1 to 4 whole numbers of four bits, of the same length or not; convolutions of 5 to 33 with 1 to 40 numbers, any f32 bits; shifts of up to 16 16-bit numbers; fixed signals of 10 to 1000 numbers resampled to 10 to 1000; errors of up to 64 numbers with one arbitrary",
    "other lengths; resampling to fewer than two numbers",
)
prop(
    "C26",
    ["format"],
    [
        h("format_writes", shards=8, time=120),
        h("format_levels", time=120),
        h("format_reads_raw", shards=8, time=120),
        h("format_reads", shards=8, time=120),
    ],
    "writing: six recordings of up to five calls, one and two channels, levels 0 to 10, any rate, any f32 in raw frames; any 32-bit level; reading: one to three raw samples of any value at all levels and exponents, "
    "one residual of 12 bits (6 below exponent 6) after one frame or in a second one, exponents 1 to 15",
    "frames with more than one arbitrary residual (C01)",
)
prop(
    "C27",
    ["format"],
    [h("format_small", shards=8, time=300)],
    "frames of one or two predicted samples in four shapes of recording, the last sample any 16-bit level, all fifteen exponents",
    "longer frames",
)
prop(
    "C28",
    ["cli"],
    [
        h("cli_compress", shards=16, time=120),
        h("cli_levels", shards=8, time=120),
        h("cli_expand", shards=16, time=120, reach=[2]),
        h("cli_round_trip", shards=16, time=120, reach=[3]),
        h("cli_names", shards=10, time=120, reach=[4]),
        h("cli_two_takes", time=120, reach=[5]),
        h("cli_refused", shards=8, time=120, reach=[6]),
        h("cli_full", shards=2, time=120, reach=[7]),
    ],
    "one file at a time through convert_file, on a file system in memory: 16 lengths of 1 to 1030 channels and up to 2050 samples (one, several and partial buffers; the first up to four samples with any low or any high bits), two rates, wav to compressed at level 0, levels 1 to 10 for one recording of eight samples, "
    "compressed to wav over an older and longer file, there and back; ten names with dots, folders, blanks and accents; two names that differ only in front of the extension; missing, empty, short, cut off (44 equal and 9 different bytes, any) and foreign files; an output without room",
    "the arguments and worker threads of the program (clap, rayon); names that are not UTF-8; two inputs with the same name in different folders",
)
