//! From samples to 16-bit values, in both codecs.
use super::common::*;
use super::sx::*;
use adhoc_audio::codec::adhoc::*;
use adhoc_audio::{StreamInfo, Streamable, WavCodec};

/// as stored by AdhocCodec at level 0
fn adhoc(x: f32) -> i16 {
    let mut stream = AudioStream::new();
    stream.set_info(Some(StreamInfo::new(8000, 1)));
    let mut headers = FrameHeaders::new();
    let mut f = FrameCodec::new();
    f.encode_frame(&mut stream, &mut headers, &[x]);
    stream.set_bit_cursor(0);
    stream.read::<u16>() as i16
}
/// as stored by WavCodec
fn wav(x: f32) -> i16 {
    let mut w = WavCodec::new(StreamInfo::new(8000, 1));
    w.encode(&[x]);
    let mut v = Vec::new();
    w.save_to(&mut v).unwrap();
    i16::from_le_bytes([v[44], v[45]])
}

/// a 16-bit value as WavCodec returns it
fn from_wav(k: i16) -> f32 {
    let mut v = Vec::new();
    WavCodec::new(StreamInfo::new(8000, 1)).save_to(&mut v).unwrap();
    v[40] = 2;
    v.extend_from_slice(&k.to_le_bytes());
    let mut out = [0f32; 1];
    check(WavCodec::load(std::io::Cursor::new(v)).unwrap().decode(&mut out) == Some(1), 90);
    out[0]
}
/// as AdhocCodec does
fn from_adhoc(k: i16) -> f32 {
    let mut stream = AudioStream::new();
    stream.set_info(Some(StreamInfo::new(8000, 1)));
    stream.write::<u16>(k as u16);
    stream.set_bit_cursor(0);
    let mut headers = FrameHeaders::new();
    headers.push(FrameHeader { exponent: 1, size: 1, bit_cursor: 0, is_init: true, stack_history: [0, 0, k] });
    headers.reset();
    let mut f = FrameCodec::new();
    check(f.decode_frame(&mut stream, &mut headers) == Some(1), 91);
    f.buffered_channel_mut().pop_front().unwrap()
}

/// a number from 2^-17 up to 1 is 2^-e * (1 + m / 2^23), cut into pieces
fn magnitude() -> (u32, u32) {
    let c = choose(13 + 4 * 16);
    if c < 13 {
        (5 + c, any(23) as u32)
    } else {
        ((c - 13) / 16 + 1, (c - 13) % 16 << 19 | any(19) as u32)
    }
}

harnesses! {
    // the same in both, whatever the bits
    fn quant_agree() {
        let x = any_f32();
        let a = adhoc(x);
        check(a == wav(x), 1);
        check(a >= -32767, 2);
        observe(a as u16 as u64);
        reach(1);
    }
    // silence for what is not a number, full scale for what is too loud
    fn quant_ends() {
        let x = any_f32();
        let a = adhoc(x);
        if x.is_nan() {
            check(a == 0, 1);
            reach(2);
        } else if x >= 1.0 {
            check(a == 32767, 2);
            reach(3);
        } else if x <= -1.0 {
            check(a == -32767, 3);
            reach(4);
        }
        reach(1);
    }
    // no value is nearer
    fn quant_nearest() {
        let (e, m) = magnitude();
        let x = f32::from_bits((127 - e) << 23 | m);
        let k = adhoc(x) as i64;
        // x * 32767 * 2^(23+e)
        let m = (1 << 23 | m) as i64;
        let exact = (m << 15) - m;
        let unit = 1i64 << (23 + e);
        let d = (k << (23 + e)) - exact;
        let most = (unit >> 1) + (unit >> 8);
        check(d <= most && -d <= most, 1);
        observe(k as u64);
        reach(1);
    }
    // the next number, up to 1, isn't stored lower
    fn quant_monotone() {
        let (e, m) = magnitude();
        let bits = (127 - e) << 23 | m;
        check(adhoc(f32::from_bits(bits)) <= adhoc(f32::from_bits(bits + 1)), 1);
        reach(1);
    }
    fn quant_silent() {
        let x = any_f32();
        assume(x < 1.0 / 65536.0 && x > -1.0 / 65536.0);
        check(adhoc(x) == 0, 1);
        reach(1);
    }
    fn quant_odd() {
        let e = between(1, 17) as u32;
        let m = any(23) as u32;
        let bits = (127 - e) << 23 | m;
        let k = adhoc(f32::from_bits(bits));
        check(k >= 0 && adhoc(f32::from_bits(bits | 1 << 31)) == -k, 1);
        reach(1);
    }
    // what comes out goes in again unchanged
    fn quant_stable() {
        let top = choose(8) as u16;
        let k = (top << 13 | any(13) as u16) as i16;
        assume(k != i16::MIN);
        let x = from_wav(k);
        check(same(x, level(k)) && same(x, from_adhoc(k)), 2);
        check(adhoc(x) == k && wav(x) == k, 1);
        observe(k as u16 as u64);
        reach(1);
    }
}
