//! AdhocCodec: decoding in pieces, files, seeking, reuse, counts.
use super::common::*;
use super::sx::*;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};

/// level 0 and a lossy one
fn recording(index: usize, rate: u32, channels: usize, compression: u32) -> (AdhocCodec, Vec<f32>) {
    let mut c = codec_at(rate, channels as u32, compression);
    let x = record(&mut c, channels, RECORDINGS[index]);
    (c, x)
}
fn total(index: usize) -> usize {
    RECORDINGS[index].iter().sum()
}

/// the same file, read once more
fn reopened(c: &AdhocCodec) -> AdhocCodec {
    loaded(&saved(c))
}

/// decoding with buffers of any size gives the same samples as decoding with a large one
fn partition(channels: usize, compression: u32, index: usize) {
    let (c, _) = recording(index, 8000, channels, compression);
    let all = rest(&mut reopened(&c), channels);
    check(all.len() == total(index) * channels, 1);
    let mut c = playback(c, choose(2) == 1);
    let mut at = 0;
    let mut calls = 0;
    while at < all.len() && calls < 4 {
        // the last call takes what is left, in a larger buffer
        let most = 3 * channels + 1;
        let n = if calls == 3 { 24 } else { between(0, most) };
        let mut out = [5f32; 24];
        let want = (n / channels * channels).min(all.len() - at);
        let got = decode(&mut c, &mut out[..n]);
        check(got == if want > 0 { Some(want) } else { None }, 2);
        for k in 0..want {
            check(same(out[k], all[at + k]), 3);
            observe_f(out[k]);
        }
        for k in want..24 {
            check(same(out[k], 5.0), 4);
        }
        at += want;
        calls += 1;
    }
    let mut out = [5f32; 24];
    if at == all.len() {
        reach(2);
        check(decode(&mut c, &mut out) == None, 5);
        check(decode(&mut c, &mut out[..channels]) == None, 5);
    }
    reach(1);
}

/// a file holds everything the codec that wrote it knows
fn file(channels: usize, compression: u32, index: usize) {
    let rate = any_u32();
    let (mut c, x) = recording(index, rate, channels, compression);
    // the position in the stream isn't part of a recording
    let when = choose(3);
    if when > 0 {
        c.init();
        let mut out = [0f32; 24];
        if when == 2 {
            decode(&mut c, &mut out[..2 * channels]);
        }
    }
    let b = saved(&c);
    let mut r = loaded(&b);
    check(r.info().frequency() == rate as usize && r.info().channels() == channels, 1);
    check(c.info().frequency() == rate as usize && c.info().channels() == channels, 1);
    check(r.calculate_sample_count_per_channel() == (x.len() / channels) as u64, 2);
    check(r.calculate_sample_count_per_channel() == c.calculate_sample_count_per_channel(), 3);
    // a copy of the copy
    let again = saved(&r);
    let mut r2 = loaded(&again);
    let third = saved(&r2);
    same_bytes(&again, &third, 4);
    c.init();
    let want = rest(&mut c, channels);
    check(want.len() == x.len(), 6);
    same_all(&rest(&mut r, channels), &want, 7);
    same_all(&rest(&mut r2, channels), &want, 8);
    for k in 0..want.len() {
        observe_f(want[k]);
    }
    reach(1);
}
fn same_bytes(a: &[u8], b: &[u8], id: u32) {
    check(a.len() == b.len(), id);
    for k in 0..a.len().min(b.len()) {
        check(a[k] == b[k], id);
    }
}

/// the promised size is never too small, and close
fn size_is_bounded(c: &AdhocCodec, frames: u64) {
    let real = saved(c).len() as u64 * 8;
    let bound = Streamable::filesize_upperbound(c);
    check(bound >= real, 50);
    check(bound <= real + 64 + 8 * frames, 51);
    observe(bound);
}

/// position in samples per channel
fn found(left: usize, channels: usize, index: usize) -> u64 {
    check(left % channels == 0, 60);
    (total(index) - left / channels) as u64
}
fn seek_to(channels: usize, rate: u32, index: usize, compression: u32) {
    let (mut c, _) = recording(index, rate, channels, compression);
    c.init();
    let all = rest(&mut c, channels);
    check(all.len() == total(index) * channels, 1);
    // from wherever the codec is: the end, a copy just loaded, the middle
    match choose(3) {
        0 => {}
        1 => c = reopened(&c),
        _ => {
            c.init();
            let mut out = [0f32; 24];
            decode(&mut c, &mut out[..channels]);
        }
    }
    let t = any_u64();
    seek(&mut c, t);
    let left = rest(&mut c, channels);
    let pos = found(left.len(), channels, index);
    let len = total(index) as u64;
    same_all(&left, &all[pos as usize * channels..], 2);
    let bounded = t.min(1 << 40);
    check(pos == (bounded * rate as u64 / 1000).min(len), 3);
    observe(pos);
    reach(1);
}

/// a codec that has held something else is as good as a new one
fn reuse(channels: usize, first: usize, second: usize) {
    let mut c = codec(channels as u32);
    record(&mut c, channels, RECORDINGS[first]);
    match choose(6) {
        0 => c.init(),
        1 => seek(&mut c, 0),
        2 => {
            c.init();
            let mut out = [0f32; 24];
            decode(&mut c, &mut out[..channels]);
            c.init();
        }
        3 => {
            c.init();
            rest(&mut c, channels);
            seek(&mut c, 0);
        }
        4 => {
            c = reopened(&c);
        }
        _ => {
            // even with other channels
            c = codec(3 - channels as u32);
            record(&mut c, 3 - channels, RECORDINGS[first]);
            c.set_info(StreamInfo::new(8000, channels as u32));
            c.init();
        }
    }
    let x = record(&mut c, channels, RECORDINGS[second]);
    check(c.calculate_sample_count_per_channel() == (x.len() / channels) as u64, 1);
    let mut r = reopened(&c);
    check(r.calculate_sample_count_per_channel() == (x.len() / channels) as u64, 2);
    c.init();
    let got = rest(&mut c, channels);
    check(got.len() == x.len(), 3);
    for k in 0..x.len() {
        check(same(got[k], heard(x[k])), 4);
        observe_f(got[k]);
    }
    same_all(&rest(&mut r, channels), &got, 5);
    size_is_bounded(&c, RECORDINGS[first].len().max(RECORDINGS[second].len()) as u64 * channels as u64);
    reach(1);
}

/// calls of any length: whole groups of samples are taken, and counted
fn counts(channels: usize, calls: [usize; 3]) {
    let mut c = codec(channels as u32);
    let mut w = WavCodec::new(StreamInfo::new(8000, channels as u32));
    let mut kept: Vec<f32> = Vec::new();
    let mut raw = true;
    for n in calls {
        raw = raw && n < 3 * channels;
        let mut x = Vec::new();
        for k in 0..n {
            x.push(if raw { any_f32() } else { wave(k, 0) });
        }
        let whole = n / channels * channels;
        check(encode(&mut c, &x) == Some(whole), 1);
        check(w.encode(&x) == Some(whole), 2);
        kept.extend_from_slice(&x[..whole]);
        check(c.calculate_sample_count_per_channel() == (kept.len() / channels) as u64, 3);
    }
    check(c.info().channels() == channels && c.info().frequency() == 8000, 4);
    let mut c = playback(c, choose(2) == 1);
    check(c.calculate_sample_count_per_channel() == (kept.len() / channels) as u64, 5);
    let got = rest(&mut c, channels);
    check(got.len() == kept.len(), 6);
    w.seek(SeekFrom::Start(0));
    let mut out = [0f32; 40];
    let n = w.decode(&mut out).unwrap_or(0);
    check(n == kept.len(), 7);
    for k in 0..kept.len() {
        check(same(got[k], heard(kept[k])) && same(out[k], got[k]), 8);
        observe_f(out[k]);
    }
    check(c.calculate_sample_count_per_channel() == (kept.len() / channels) as u64, 9);
    reach(1);
}

/// one of the long recordings
fn long(shape: usize, rate: u32, compression: u32) -> (AdhocCodec, usize, Vec<f32>) {
    let (channels, calls) = SHAPES[shape];
    let mut c = codec_at(rate, channels as u32, compression);
    let x = record_long(&mut c, channels, calls);
    (c, channels, x)
}
/// the start of the call number `k`, in samples per channel
fn boundary(shape: usize, k: usize) -> usize {
    SHAPES[shape].1[..k].iter().sum()
}

harnesses! {
    fn partition_long() {
        let c = choose(48) as usize;
        let (r, channels, x) = long(c % 24, 8000, [0, 7][c / 24]);
        let all = rest_long(&mut reopened(&r), x.len() + 1);
        check(all.len() == x.len(), 1);
        let mut c = playback(r, choose(2) == 1);
        // some buffers over and over
        let sizes: [usize; 4] = pick(&[
            [1, 2, 3, 4],
            [1, 0, 0, 1],
            [255, 256, 257, 1000],
            [64, 1, 64, 63],
            [5000, 1, 1, 3],
            [32, 32, 32, 32],
        ]);
        let (mut at, mut call) = (0, 0);
        while at < all.len() {
            let n = sizes[call % 4] * channels + if call % 3 == 2 { channels - 1 } else { 0 };
            let mut out = vec![5f32; n];
            let want = (n / channels * channels).min(all.len() - at);
            check(decode(&mut c, &mut out) == if want > 0 { Some(want) } else { None }, 2);
            for k in 0..want {
                check(same(out[k], all[at + k]), 3);
            }
            for k in want..n {
                check(same(out[k], 5.0), 4);
            }
            at += want;
            call += 1;
        }
        check(decode(&mut c, &mut [0f32; 64]) == None, 5);
        reach(1);
    }
    fn file_long() {
        let c = choose(48) as usize;
        let frames = SHAPES[c % 24].0 * SHAPES[c % 24].1.len();
        let (mut c, channels, x) = long(c % 24, any_u32(), [0, 10][c / 24]);
        if choose(2) == 1 {
            c.init();
            decode(&mut c, &mut vec![0f32; 20 * channels]);
        }
        let b = saved(&c);
        let mut r = loaded(&b);
        check(r.calculate_sample_count_per_channel() == (x.len() / channels) as u64, 2);
        check(r.info().frequency() == c.info().frequency() && r.info().channels() == channels, 1);
        same_bytes(&saved(&r), &saved(&loaded(&saved(&r))), 4);
        c.init();
        let want = rest_long(&mut c, x.len() + 1);
        check(want.len() == x.len(), 6);
        same_all(&rest_long(&mut r, x.len() + 1), &want, 7);
        size_is_bounded(&c, frames as u64);
        size_is_bounded(&r, frames as u64);
        reach(1);
    }
    fn seek_long() {
        let c = choose(72) as usize;
        let (rate, shape) = (pick(&[1000, 8000]), c % 24);
        let (mut c, channels, x) = long(shape, rate, [0, 3, 8][c / 24]);
        let len = x.len() / channels;
        c.init();
        let all = rest_long(&mut c, x.len() + 1);
        check(all.len() == x.len(), 1);
        if choose(2) == 1 {
            c = reopened(&c);
        }
        // around the start of a frame
        let calls = SHAPES[shape].1.len();
        let call = pick(&[1, 2, 3, calls - 1, calls]);
        assume(call <= calls);
        let base = boundary(shape, call) as u64 * 1000 / rate as u64;
        let t = (base + choose(4) as u64).saturating_sub(2);
        seek(&mut c, t);
        let left = rest_long(&mut c, x.len() + 1);
        let pos = (t * rate as u64 / 1000).min(len as u64);
        check(left.len() % channels == 0 && pos == (len - left.len() / channels) as u64, 3);
        same_all(&left, &all[x.len() - left.len()..], 2);
        reach(1);
    }
    // more calls than a 16-bit number counts
    fn seek_many() {
        let s = choose(8) as usize;
        let (channels, calls) = [(1, 65_540), (2, 33_000)][s / 4];
        let mut c = codec_at(1000, channels as u32, 0);
        let x = record_many(&mut c, channels, calls);
        let len = x.len() / channels;
        let mut c = if s % 2 == 1 { loaded(&saved(&c)) } else { c };
        // one sample is one millisecond
        let t = if s & 2 == 0 { 32_766 + any(2) } else { len as u64 - 2 + any(40) };
        seek(&mut c, t);
        let mut out = [0f32; 64];
        let want = len.saturating_sub(t as usize).min(64 / channels) * channels;
        check(decode(&mut c, &mut out).unwrap_or(0) == want, 1);
        for k in 0..want {
            check(same(out[k], heard(x[t as usize * channels + k])), 2);
        }
        reach(1);
    }
    fn reuse_many() {
        let s = choose(8) as usize;
        let channels = 1 + s / 4;
        let (first, second) = [(65_540, 3), (3, 65_540), (65_600, 65_540), (40_000, 66_000)][s % 4];
        let mut c = codec(channels as u32);
        record_many(&mut c, channels, first / channels);
        if choose(2) == 1 {
            c.init();
            decode(&mut c, &mut [0f32; 8]);
        }
        seek(&mut c, 0);
        let x = record_many(&mut c, channels, second / channels + 2);
        check(c.calculate_sample_count_per_channel() == (x.len() / channels) as u64, 1);
        let mut c = reopened(&c);
        let got = rest_long(&mut c, x.len() + channels);
        check(got.len() == x.len(), 2);
        for k in 0..x.len() {
            check(same(got[k], heard(x[k])), 3);
        }
        check(decode(&mut c, &mut [0f32; 64]) == None, 4);
        reach(1);
    }
    fn reuse_long() {
        let c = choose(48) as usize;
        let lossless = c < 24;
        let (mut c, channels, first) = long(c % 24, 8000, [4, 0][lossless as usize]);
        match choose(3) {
            0 => c.init(),
            1 => seek(&mut c, 0),
            _ => {
                c.init();
                decode(&mut c, &mut vec![0f32; 7 * channels]);
                seek(&mut c, 0);
            }
        }
        let second: &[usize] = pick(&[&[1], &[2, 5], &[40, 3, 3], if channels > 4 { &[60, 7] } else { &[600, 700] }]);
        let x = record_long(&mut c, channels, second);
        check(c.calculate_sample_count_per_channel() == (x.len() / channels) as u64, 1);
        let mut r = reopened(&c);
        check(r.calculate_sample_count_per_channel() == (x.len() / channels) as u64, 2);
        c.init();
        let got = rest_long(&mut c, x.len() + first.len() + 1);
        check(got.len() == x.len(), 3);
        // without loss, or close where the input was within range
        let any = if second[0] < 3 { second[0] * channels } else { 0 };
        for k in 0..x.len() {
            if lossless {
                check(same(got[k], heard(x[k])), 4);
            } else if k >= any {
                let d = got[k] - quantised(x[k]) as f32 / 32767.0;
                check(d.abs() < 0.0013, 4);
            }
        }
        same_all(&rest_long(&mut r, x.len() + first.len() + 1), &got, 5);
        reach(1);
    }
    fn counts_any() {
        let c = choose(24) as usize;
        let channels = c % 3 + 1;
        let first = between(0, 3 * channels);
        let second = between(0, channels + 1);
        let last = [0, 1, channels, 3 * channels + 1, 5, 2 * channels, 4, 2 * channels - 1][c / 3];
        counts(channels, [first, second, last]);
    }
    fn partition_any() {
        let c = choose(32) as usize;
        partition(1 + c / 4 % 2, if c % 2 == 0 { 0 } else { 5 }, [0, 1, 2, 3][c / 8]);
    }
    fn file_any() {
        let c = choose(24) as usize;
        file(1 + c % 2, if c / 2 % 2 == 0 { 0 } else { between(1, 10) as u32 }, c / 4);
    }
    fn size_any() {
        let c = choose(12) as usize;
        let channels = 1 + c % 2;
        let (mut r, _) = recording(c / 2, any_u32(), channels, 0);
        let frames = RECORDINGS[c / 2].len() as u64 * channels as u64;
        size_is_bounded(&r, frames);
        r.init();
        size_is_bounded(&r, frames);
        rest(&mut r, channels);
        size_is_bounded(&r, frames);
        size_is_bounded(&reopened(&r), frames);
        reach(1);
    }
    fn seek_exact() {
        let c = choose(42) as usize;
        seek_to(1 + c % 2, [1000, 8000, 500][c / 2 % 3], [0, 1, 2, 3, 4, 5, 7][c / 6], 0);
    }
    fn seek_close() {
        let c = choose(12) as usize;
        seek_to(1 + c % 2, [44100, 11025, 192000][c / 2 % 3], [3, 4][c / 6], 3);
    }
    fn reuse_any() {
        let c = choose(36) as usize;
        reuse(1 + c % 2, [0, 6, 3][c / 2 % 3], c / 6);
    }
}
