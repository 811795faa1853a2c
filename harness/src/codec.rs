//! AdhocCodec as an application uses it, without loss.
use super::common::*;
use super::sx::*;

/// encodes `n` arbitrary samples in two calls and compares what comes back
fn lossless(channels: u32, n: usize, split: usize, through_file: bool) {
    let ch = channels as usize;
    let mut pcm = [0f32; 8];
    for k in 0..n * ch {
        pcm[k] = any_f32();
    }
    let mut c = codec(channels);
    encode(&mut c, &pcm[..split * ch]);
    encode(&mut c, &pcm[split * ch..n * ch]);
    reach(1);
    let mut c = playback(c, through_file);
    let mut out = [7f32; 10];
    check(decode(&mut c, &mut out) == Some(n * ch), 1);
    for k in 0..n * ch {
        check(same(out[k], heard(pcm[k])), 2);
        observe_f(out[k]);
    }
    check(decode(&mut c, &mut out) == None, 3);
    reach(2);
}

/// a long recording in one call: frames are bounded, what comes back is not
fn long(n: usize) {
    let mut pcm = vec![0f32; n];
    let at = if n > 65537 { pick(&[65536, n - 1]) } else { pick(&[0, 1, 32767, 65533, 65534, 65535, 65536]) };
    for k in [3usize, 65530, 65540] {
        if k < n {
            pcm[k] = 0.25;
        }
    }
    pcm[at] = -0.5;
    let mut c = codec(1);
    check(encode(&mut c, &pcm) == Some(n), 1);
    check(c.calculate_sample_count_per_channel() == n as u64, 2);
    let mut c = playback(c, choose(2) == 1);
    let mut out = vec![9f32; n + 1];
    check(decode(&mut c, &mut out) == Some(n), 3);
    for k in 0..n {
        check(same(out[k], heard(pcm[k])), 4);
    }
    check(same(out[n], 9.0), 5);
    check(decode(&mut c, &mut out) == None, 6);
    reach(1);
}

/// the same with several channels, together more than 65535 samples
fn wide(channels: usize, n: usize, through_file: bool) {
    let mut pcm = vec![0f32; n * channels];
    let at = pick(&[32766, 65536, n * channels - 1]);
    pcm[5] = 0.25;
    pcm[n * channels - 3] = 0.125;
    pcm[at] = -0.5;
    let mut c = codec(channels as u32);
    check(encode(&mut c, &pcm) == Some(n * channels), 1);
    check(c.calculate_sample_count_per_channel() == n as u64, 2);
    let mut c = playback(c, through_file);
    let mut out = vec![9f32; n * channels + 1];
    check(decode(&mut c, &mut out) == Some(n * channels), 3);
    for k in 0..n * channels {
        check(same(out[k], heard(pcm[k])), 4);
    }
    check(same(out[n * channels], 9.0), 5);
    check(decode(&mut c, &mut out) == None, 6);
    reach(1);
}

/// many channels, many calls, long frames
fn shapes(channels: usize, calls: &[usize]) {
    let mut c = codec(channels as u32);
    let x = record_long(&mut c, channels, calls);
    check(c.calculate_sample_count_per_channel() == (x.len() / channels) as u64, 1);
    let mut c = playback(c, choose(2) == 1);
    let got = rest_long(&mut c, x.len() + channels);
    check(got.len() == x.len(), 2);
    for k in 0..x.len() {
        check(same(got[k], heard(x[k])), 3);
    }
    check(decode(&mut c, &mut [0f32; 64]) == None, 4);
    for k in 0..got.len().min(4) {
        observe_f(got[k]);
    }
    reach(1);
}
fn many(channels: usize, calls: usize, through_file: bool) {
    let mut c = codec(channels as u32);
    let x = record_many(&mut c, channels, calls);
    check(c.calculate_sample_count_per_channel() == (x.len() / channels) as u64, 1);
    let mut c = playback(c, through_file);
    let got = rest_long(&mut c, x.len() + channels);
    check(got.len() == x.len(), 2);
    for k in 0..x.len() {
        check(same(got[k], heard(x[k])), 3);
    }
    check(decode(&mut c, &mut [0f32; 64]) == None, 4);
    reach(1);
}
harnesses! {
    fn lossless_shapes() {
        let (channels, calls) = SHAPES[choose(24) as usize];
        shapes(channels, calls)
    }
    fn lossless_mono() {
        // (samples, samples in the first call)
        let s = [(1, 0), (2, 1), (3, 0), (3, 2), (4, 0), (4, 3), (5, 0), (5, 1), (5, 3)];
        let c = choose(18) as usize;
        lossless(1, s[c / 2].0, s[c / 2].1, c % 2 == 1);
    }
    fn lossless_stereo() {
        let s = [(1, 0), (2, 1), (3, 0), (4, 1), (4, 3)];
        let c = choose(10) as usize;
        lossless(2, s[c / 2].0, s[c / 2].1, c % 2 == 1);
    }
    fn lossless_long() {
        long(65537)
    }
    fn lossless_longer() {
        long(pick(&[70000, 131071, 196612]))
    }
    // more calls than a 16-bit number counts
    fn lossless_many() {
        let c = choose(6) as usize;
        many([1, 2, 3][c / 2], [65_540, 33_000, 22_000][c / 2], c % 2 == 1)
    }
    fn lossless_wide() {
        let c = choose(8);
        match c / 2 {
            0 => wide(2, 32800, c % 2 == 1),
            1 => wide(3, 21900, c % 2 == 1),
            2 => wide(10, 6560, c % 2 == 1),
            _ => wide(65, 1010, c % 2 == 1),
        }
    }
}
