//! What harnesses of the codecs share.
#![allow(dead_code)]
use super::sx::*;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable};

/// the 16-bit value an input sample stands for
pub fn quantised(x: f32) -> i16 {
    (x.clamp(-1.0, 1.0) * 32767.0).round() as i16
}
/// what a decoder returns for a 16-bit value
pub fn level(k: i16) -> f32 {
    k as f32 * (1.0 / 32767.0)
}
/// how a sample comes back at level 0
pub fn heard(x: f32) -> f32 {
    level(quantised(x))
}
pub fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}

pub fn codec_at(rate: u32, channels: u32, compression: u32) -> AdhocCodec {
    AdhocCodec::new().with_compression_level(compression).with_info(StreamInfo::new(rate, channels))
}
pub fn codec(channels: u32) -> AdhocCodec {
    codec_at(8000, channels, 0)
}
pub fn encode(c: &mut AdhocCodec, pcm: &[f32]) -> Option<usize> {
    Streamable::encode(c, pcm)
}
pub fn decode(c: &mut AdhocCodec, out: &mut [f32]) -> Option<usize> {
    Streamable::decode(c, out)
}
pub fn saved(c: &AdhocCodec) -> Vec<u8> {
    let mut v = Vec::new();
    c.save_to(&mut v).unwrap();
    v
}
pub fn loaded(b: &[u8]) -> AdhocCodec {
    AdhocCodec::load(b).unwrap()
}
/// the codec, ready to decode: as it is, or written out and read back
pub fn playback(mut c: AdhocCodec, through_file: bool) -> AdhocCodec {
    if through_file {
        loaded(&saved(&c))
    } else {
        c.init();
        c
    }
}

/// a waveform with smooth stretches, jumps and full scale
pub fn wave(k: usize, channel: usize) -> f32 {
    const W: [i16; 16] = [120, 1900, 5300, 9100, 12000, 13100, -32767, -32000, 32767, 32766, 4, 3, 2, -7, -900, 20000];
    // predictions are cut at full scale in the first channel, never in the second
    level(W[(k + 5 * channel) % 16] / if channel % 2 == 1 { 16 } else { 1 })
}
/// a waveform for long recordings: curves and jumps, another one for each channel
pub fn long_wave(k: usize, channel: usize) -> f32 {
    let v = (k * k * 37 + k * 5 + channel * 9001) % 20011;
    level(v as i16 - 10000)
}
/// Calls of encode with `sizes[k]` samples per channel of a long waveform.  The samples of the
/// first call are arbitrary if it is so short that they are stored without prediction.
pub fn record_long(c: &mut AdhocCodec, channels: usize, sizes: &[usize]) -> Vec<f32> {
    let mut all: Vec<f32> = Vec::new();
    for (call, &n) in sizes.iter().enumerate() {
        let mut pcm: Vec<f32> = Vec::with_capacity(n * channels);
        for k in 0..n {
            for ch in 0..channels {
                let any = call == 0 && n < 3 && ch < 2;
                pcm.push(if any { any_f32() } else { long_wave(all.len() / channels + k, ch) });
            }
        }
        check(encode(c, &pcm) == Some(pcm.len()), 902);
        all.extend_from_slice(&pcm);
    }
    all
}
/// `calls` calls of encode, most of them with one sample per channel; arbitrary samples at the start
pub fn record_many(c: &mut AdhocCodec, channels: usize, calls: usize) -> Vec<f32> {
    let mut x: Vec<f32> = Vec::with_capacity((calls + 8) * channels);
    for call in 0..calls {
        // the first call is stored without prediction
        let n = match call {
            0 => 2,
            1 => 4,
            _ => 1,
        };
        let from = x.len();
        for k in 0..n {
            for ch in 0..channels {
                // a tone, so that the residuals are short
                let t = (from / channels + k) % 64;
                x.push(if call == 0 && ch < 2 { any_f32() } else { level((t * (64 - t)) as i16 * (ch as i16 + 1)) });
            }
        }
        check(encode(c, &x[from..]) == Some(n * channels), 903);
    }
    x
}
/// everything that is left, by way of one large buffer
pub fn rest_long(c: &mut AdhocCodec, most: usize) -> Vec<f32> {
    let mut out = vec![0f32; most];
    let n = decode(c, &mut out).unwrap_or(0);
    out.truncate(n);
    out
}

/// Calls of encode with `sizes[k]` samples per channel.  Samples of calls with at most two are
/// arbitrary as long as nothing but such calls came before: these are stored without prediction.
pub fn record(c: &mut AdhocCodec, channels: usize, sizes: &[usize]) -> Vec<f32> {
    let mut all: Vec<f32> = Vec::new();
    let mut raw = true;
    for &n in sizes {
        raw = raw && n < 3;
        let mut pcm: Vec<f32> = Vec::new();
        for k in 0..n {
            for ch in 0..channels {
                pcm.push(if raw { any_f32() } else { wave(all.len() / channels + k, ch) });
            }
        }
        check(encode(c, &pcm) == Some(pcm.len()), 900);
        all.extend_from_slice(&pcm);
    }
    all
}
/// recordings made of short calls, of long calls, and of both
pub const RECORDINGS: [&[usize]; 8] = [&[2, 1], &[4], &[3, 2], &[1, 2, 4, 1], &[5, 0, 1], &[1], &[9], &[3, 4, 3]];

/// everything that is left
pub fn rest(c: &mut AdhocCodec, channels: usize) -> Vec<f32> {
    let mut all = Vec::new();
    let mut out = [0f32; 24];
    let n = 24 / channels * channels;
    while let Some(got) = decode(c, &mut out[..n]) {
        all.extend_from_slice(&out[..got]);
        check(all.len() < 100, 901);
    }
    all
}
pub fn same_all(a: &[f32], b: &[f32], id: u32) {
    check(a.len() == b.len(), id);
    for k in 0..a.len().min(b.len()) {
        check(same(a[k], b[k]), id);
    }
}
pub fn seek(c: &mut AdhocCodec, ms: u64) {
    Streamable::seek(c, SeekFrom::Start(ms))
}

/// (channels, samples per channel of each call): many channels, many calls, long frames
pub const SHAPES: [(usize, &[usize]); 24] = [
    (1, &[1000]),
    (1, &[1, 1300]),
    (1, &[2, 300, 300]),
    (1, &[2050]),
    (2, &[1024, 1024, 100]),
    (2, &[2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2]),
    (3, &[2, 40, 1, 3]),
    (3, &[3, 0, 0, 2, 500]),
    (4, &[1, 1, 1, 1, 30, 1, 1]),
    (5, &[7, 7, 7, 7, 7]),
    (6, &[1, 255, 2]),
    (7, &[33, 2, 2]),
    (8, &[2, 64, 64]),
    (12, &[1, 5, 5, 5]),
    (40, &[2, 4]),
    (2, &[4; 45]),
    (1, &[4; 300]),
    (2, &[1; 260]),
    (1, &[3; 70]),
    (1, &[5000]),
    (16, &[1, 130]),
    (130, &[1, 1, 3]),
    (300, &[2, 4]),
    (2, &[700, 1, 700]),
];
