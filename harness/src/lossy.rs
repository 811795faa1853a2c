//! Levels 1 to 10: how far a decoded sample may be from what was encoded.
use super::common::*;
use super::sx::*;

/// half a step of the quantiser, the dither, and rounding
pub fn allowed(compression: u32) -> f64 {
    (1u32 << compression) as f64 * 0.5 / 32767.0 + 0.00101
}
/// sample number `at` of channel `at % channels` is arbitrary, the others are not
fn one_sample(compression: u32, channels: usize, at: usize) {
    let x = any_f32();
    assume(x >= -1.0 && x <= 1.0);
    let mut c = codec_at(8000, channels as u32, compression);
    let mut pcm = [0f32; 8];
    pcm[at] = x;
    // calls of two samples per channel, stored without prediction
    let mut k = 0;
    while k < 8 {
        encode(&mut c, &pcm[k..k + 2 * channels]);
        k += 2 * channels;
    }
    let mut c = playback(c, at % 2 == 1);
    let mut out = [0f32; 8];
    check(decode(&mut c, &mut out) == Some(8), 1);
    let d = out[at] as f64 - x as f64;
    let most = allowed(compression);
    check(d <= most && d >= -most, 2);
    observe_f(out[at]);
    reach(1);
}

/// the same sample as the last one of a long recording, in a call that is stored without prediction or not
fn later(compression: u32, channels: usize, before: usize, predicted: bool, resumed: bool) {
    let x = any_f32();
    assume(x >= -1.0 && x <= 1.0);
    let mut c = codec_at(8000, channels as u32, compression);
    let mut n = 0;
    while n < before {
        encode(&mut c, &[0.0; 32][..2 * channels]);
        n += 2;
    }
    if resumed {
        // what was loaded is encoded to again
        c = loaded(&saved(&c));
        seek(&mut c, 0);
        n = 0;
    }
    let len = if predicted { 4 } else { 1 };
    let mut pcm = vec![0f32; len * channels];
    let at = len * channels - 1;
    pcm[at] = x;
    encode(&mut c, &pcm);
    let total = n * channels + at + 1;
    let mut c = playback(c, choose(2) == 1);
    let mut out = vec![0f32; total];
    check(decode(&mut c, &mut out) == Some(total), 1);
    let d = out[total - 1] as f64 - x as f64;
    let most = allowed(compression);
    check(d <= most && d >= -most, 2);
    observe_f(out[total - 1]);
    reach(1);
}

/// long recordings at full scale, every sample of which is looked at
fn everywhere(shape: usize, compression: u32) {
    let (channels, calls) = SHAPES[shape];
    let mut c = codec_at(8000, channels as u32, compression);
    let mut x: Vec<f32> = Vec::new();
    for &n in calls {
        let from = x.len();
        for k in 0..n * channels {
            let k = from + k;
            // jumps over the whole range, then slow and quiet ones; and between the levels
            let v = if k / channels % 200 < 120 { (k * k * 37 + k * 5) % 65535 } else { 32767 + k * 3 % 500 };
            x.push((v as f32 - 32767.0 + (k % 7) as f32 * 0.25).clamp(-32767.0, 32767.0) / 32767.0);
        }
        check(encode(&mut c, &x[from..]) == Some(n * channels), 1);
    }
    let mut c = playback(c, choose(2) == 1);
    let got = rest_long(&mut c, x.len() + 1);
    check(got.len() == x.len(), 2);
    let most = allowed(compression);
    for k in 0..x.len() {
        let d = got[k] as f64 - x[k] as f64;
        check(d <= most && d >= -most, 3);
    }
    observe_f(got[x.len() - 1]);
    reach(1);
}

harnesses! {
    fn lossy_long() {
        let c = choose(240) as usize;
        everywhere(c % 24, 1 + c as u32 / 24)
    }
    fn lossy_later() {
        let c = choose(18) as usize;
        match c {
            0..=9 => later(c as u32 + 1, 1, 400, false, false),
            10..=13 => later([1, 4, 7, 10][c - 10], 3, 6, false, false),
            _ => later([2, 5, 8, 10][c - 14], 2, 4, false, true),
        }
    }
    fn lossy_predicted() {
        let c = choose(10) as usize;
        later(c as u32 % 10 + 1, 1, 0, true, false);
    }
    fn lossy_predicted_some() {
        later([3, 5, 8, 10][choose(4) as usize], 1, 0, true, false);
    }
    fn lossy_near() {
        let c = choose(20) as usize;
        one_sample(c as u32 % 10 + 1, [1, 2][c / 10], [5, 0][c / 10]);
    }
}
