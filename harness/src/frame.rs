//! One frame of one channel through FrameCodec.
use super::common::{level, quantised};
use super::sx::*;
use adhoc_audio::codec::adhoc::*;

fn same_history(a: &mut FrameCodec, b: &mut FrameCodec, id: u32) {
    for k in 1..4 {
        check(a.sample_history_mut().prev(k) == b.sample_history_mut().prev(k), id);
    }
}

/// Encoder and decoder share an arbitrary history; one more frame of `n` samples, at bit `offset`.
fn step(n: usize, offset: usize) {
    let mut stream = AudioStream::new();
    stream.set_info(Some(adhoc_audio::StreamInfo::new(8000, 1)));
    stream.write_bits(any_u128(), 128);
    stream.set_bit_cursor(offset as u128);

    let mut headers = FrameHeaders::new();
    let mut enc = FrameCodec::new();
    let mut dec = FrameCodec::new();
    for _ in 0..4 {
        let h = any_i16();
        enc.sample_history_mut().push(h);
        dec.sample_history_mut().push(h);
    }
    *enc.state_mut() = CodecState::Encoding;
    *dec.state_mut() = CodecState::Decoding;

    let mut pcm = [0f32; 4];
    for k in 0..n {
        pcm[k] = any_f32();
    }
    enc.encode_frame(&mut stream, &mut headers, &pcm[..n]);
    let end = stream.bit_cursor();
    reach(1);

    headers.reset();
    let h = headers.get(0).unwrap();
    check(h.size as usize == n && !h.is_init, 2);
    check(h.bit_cursor == offset as u128, 3);
    stream.set_bit_cursor(offset as u128);
    check(dec.decode_frame(&mut stream, &mut headers) == Some(n), 4);
    check(stream.bit_cursor() == end, 5);
    check(dec.buffered_channel().len() == n, 6);
    for k in 0..n {
        let out = dec.buffered_channel()[k];
        check(out.to_bits() == level(quantised(pcm[k])).to_bits(), 7);
        observe_f(out);
    }
    same_history(&mut enc, &mut dec, 8);
    reach(9);
}

harnesses! {
    fn frame_step1() {
        let offset = pick(&[0, 1, 63, 100, 127]);
        step(1, offset);
    }
    fn frame_step2() {
        let offset = pick(&[0, 77, 125]);
        step(2, offset);
    }
}
