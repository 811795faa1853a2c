//! WavCodec: the file format, and the stream in memory.
use super::common::{level, quantised, same};
use super::sx::*;
use adhoc_audio::{SeekFrom, StreamInfo, Streamable, WavCodec};
use std::io::Cursor;

/// where `dt` milliseconds from block `base` are, in a stream of `frames` blocks
fn block_after(base: i64, dt: i64, rate: u32, frames: i64) -> i64 {
    (base + dt * rate as i64 / 1000).clamp(0, frames)
}
pub fn wav(rate: u32, channels: u32) -> WavCodec {
    WavCodec::new(StreamInfo::new(rate, channels))
}
pub fn saved(w: &WavCodec) -> Vec<u8> {
    let mut v = Vec::new();
    w.save_to(&mut v).unwrap();
    v
}
fn pcm_of(w: &WavCodec) -> Vec<i16> {
    saved(w)[44..].chunks(2).map(|b| i16::from_le_bytes([b[0], b[1]])).collect()
}
fn u32_at(b: &[u8], at: usize) -> u32 {
    u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]])
}
fn u16_at(b: &[u8], at: usize) -> u16 {
    u16::from_le_bytes([b[at], b[at + 1]])
}

/// a file with the given fields, extra chunks and data
struct File {
    channels: u16,
    rate: u32,
    bits: u16,
    /// size of another chunk in front of everything
    first: usize,
    /// bytes of the fmt chunk past the sixteen everyone has
    fmt_extra: usize,
    /// size of another chunk in front of the data
    before: usize,
    data: Vec<u8>,
    after: usize,
}
impl File {
    fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        v.extend_from_slice(b"RIFF\0\0\0\0WAVE");
        if self.first > 0 {
            v.extend_from_slice(b"JUNK");
            v.extend_from_slice(&(self.first as u32).to_le_bytes());
            for k in 0..(self.first + 1) & !1 {
                // what looks like a format
                v.push(if (4..12).contains(&k) { any_u8() } else { 1 });
            }
        }
        v.extend_from_slice(b"fmt ");
        v.extend_from_slice(&(16 + self.fmt_extra as u32).to_le_bytes());
        v.extend_from_slice(&1u16.to_le_bytes());
        v.extend_from_slice(&self.channels.to_le_bytes());
        v.extend_from_slice(&self.rate.to_le_bytes());
        let block = self.channels * self.bits / 8;
        v.extend_from_slice(&self.rate.wrapping_mul(block as u32).to_le_bytes());
        v.extend_from_slice(&block.to_le_bytes());
        v.extend_from_slice(&self.bits.to_le_bytes());
        for _ in 0..self.fmt_extra {
            v.push(0);
        }
        if self.before > 0 {
            v.extend_from_slice(b"LIST");
            v.extend_from_slice(&(self.before as u32).to_le_bytes());
            for k in 0..self.before {
                // enough for a word like metadata
                v.push(if k < 6 { any_u8() } else { k as u8 });
            }
            if self.before % 2 == 1 {
                v.push(0);
            }
        }
        v.extend_from_slice(b"data");
        v.extend_from_slice(&(self.data.len() as u32).to_le_bytes());
        v.extend_from_slice(&self.data);
        if self.after > 0 {
            if self.data.len() % 2 == 1 {
                v.push(0);
            }
            v.extend_from_slice(b"id3 ");
            v.extend_from_slice(&(self.after as u32).to_le_bytes());
            for k in 0..self.after {
                v.push(0x11u8.wrapping_add(k as u8));
            }
        }
        let len = v.len() as u32 - 8;
        v[4..8].copy_from_slice(&len.to_le_bytes());
        v
    }
}
fn any_bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(any_u8());
    }
    v
}

/// what the stream should be: the samples and the position
struct Model {
    pcm: Vec<i16>,
    at: usize,
    channels: usize,
}
impl Model {
    fn seek(&mut self, base: usize, frames: i64) {
        let to = base as i64 + frames * self.channels as i64;
        self.at = to.clamp(0, self.pcm.len() as i64) as usize;
    }
}
/// at 1000 Hz a millisecond is one frame
fn wav_op(w: &mut WavCodec, m: &mut Model, op: u32) {
    let ch = m.channels;
    match op {
        0 => {
            let n = between(0, 2 * ch);
            let mut x = [0f32; 8];
            for k in 0..n {
                x[k] = any_f32();
            }
            let whole = n / ch * ch;
            check(w.encode(&x[..n]) == Some(whole), 1);
            for k in 0..whole {
                let q = quantised(x[k]);
                if m.at < m.pcm.len() {
                    m.pcm[m.at] = q;
                } else {
                    m.pcm.push(q);
                }
                m.at += 1;
            }
        }
        1 => {
            let n = between(0, 3 * ch);
            let mut out = [5f32; 12];
            let want = (n / ch * ch).min(m.pcm.len() - m.at);
            let got = w.decode(&mut out[..n]);
            check(got == if want > 0 { Some(want) } else { None }, 2);
            for k in 0..want {
                check(same(out[k], level(m.pcm[m.at + k])), 3);
            }
            for k in want..12 {
                check(out[k] == 5.0, 4);
            }
            m.at += want;
        }
        2 => {
            let d = pick(&[0u64, 1, 2, 9]);
            w.seek(SeekFrom::Start(d));
            m.seek(0, d as i64);
        }
        3 => {
            let d = pick(&[-9i64, -1, 0, 1]);
            w.seek(SeekFrom::Current(d));
            m.seek(m.at, d);
        }
        4 => {
            let d = pick(&[-9i64, -2, -1, 0, 1]);
            w.seek(SeekFrom::End(d));
            m.seek(m.pcm.len(), d);
        }
        _ => {
            // out to a file and back in
            let b = saved(w);
            *w = WavCodec::load(Cursor::new(b)).unwrap();
            m.at = 0;
        }
    }
}
fn wav_history(channels: u32, ops: usize) {
    let c = choose(18);
    let start = c as usize / 6;
    let mut w = wav(1000, channels);
    let mut m = Model { pcm: Vec::new(), at: 0, channels: channels as usize };
    let n = start * m.channels;
    let mut x = [0f32; 8];
    for k in 0..n {
        x[k] = any_f32();
        m.pcm.push(quantised(x[k]));
    }
    m.at = n;
    check(w.encode(&x[..n]) == Some(n), 10);
    for k in 0..ops {
        wav_op(&mut w, &mut m, if k == 0 { c % 6 } else { choose(6) });
    }
    let pcm = pcm_of(&w);
    check(pcm.len() == m.pcm.len(), 11);
    for k in 0..pcm.len() {
        check(pcm[k] == m.pcm[k], 12);
    }
    check(w.filesize_upperbound() == saved(&w).len() as u64 * 8, 13);
    reach(1);
}

harnesses! {
    // long streams: written in several calls, saved, read in pieces, overwritten in the middle
    fn wav_long() {
        let c = choose(12) as usize;
        let (ch, frames) = [(1usize, 70000usize), (2, 40000), (3, 3000), (8, 600), (300, 40), (1, 9000)][c % 6];
        let n = ch * frames;
        let mut x: Vec<f32> = (0..n).map(|k| level((k * 31 % 30011) as i16 - 15000)).collect();
        // an arbitrary one somewhere
        let at = pick(&[0, n / 3, n - 1]);
        x[at] = any_f32();
        let mut w = wav(44100, ch as u32);
        let call = [n, 1021 * ch + ch - 1][c / 6];
        let mut k = 0;
        while k < n {
            let m = call.min(n - k);
            check(w.encode(&x[k..k + m]) == Some(m / ch * ch), 1);
            k += m / ch * ch;
        }
        check(w.filesize_upperbound() == (44 + 2 * n as u64) * 8, 2);
        // again, over the old ones
        let over = pick(&[0, frames / 2, frames - 1]);
        let v: Vec<f32> = (0..2 * ch).map(|k| if k == 1 { any_f32() } else { level(k as i16) }).collect();
        w.seek(SeekFrom::Start(over as u64 * 1000 / 44100));
        let over = (over as u64 * 1000 / 44100 * 44100 / 1000) as usize * ch;
        check(w.encode(&v) == Some(2 * ch), 3);
        for k in 0..2 * ch {
            if over + k < n {
                x[over + k] = v[k];
            } else {
                x.push(v[k]);
            }
        }
        let b = saved(&w);
        check(b.len() == 44 + 2 * x.len() && u32_at(&b, 40) as usize == 2 * x.len() && u32_at(&b, 4) as usize == 36 + 2 * x.len(), 4);
        for k in 0..x.len() {
            check(u16_at(&b, 44 + 2 * k) == quantised(x[k]) as u16, 5);
        }
        let mut r = WavCodec::load(Cursor::new(&b[..])).unwrap();
        check(r.info().channels() == ch, 6);
        let buffer = [x.len() + 1, 1000 * ch + 1][c / 6];
        let mut out = vec![9f32; buffer];
        let mut k = 0;
        while let Some(m) = r.decode(&mut out) {
            check(m == (buffer / ch * ch).min(x.len() - k), 7);
            for i in 0..m {
                check(same(out[i], level(quantised(x[k + i]))), 8);
            }
            k += m;
        }
        check(k == x.len(), 9);
        reach(1);
    }
    // long files of others: other chunks of any size after the data, 8 bits
    fn wav_load_long() {
        let c = choose(12) as usize;
        let channels = [1u16, 2, 3][c % 3];
        let bits = [8u16, 16][c / 3 % 2];
        let n = [6000, 70002][c / 6];
        let mut data: Vec<u8> = (0..n).map(|k| (k * 7 + k / 256) as u8).collect();
        for k in [0, n - 1] {
            data[k] = any_u8();
        }
        let f = File { channels, rate: 8000, bits, first: 0, fmt_extra: 2, before: 100, data, after: pick(&[0, 3000]) };
        let mut r = WavCodec::load(Cursor::new(f.bytes())).unwrap();
        let samples = n / (bits as usize / 8) / channels as usize * channels as usize;
        let mut out = vec![9f32; samples + 3];
        check(r.decode(&mut out) == Some(samples), 1);
        for k in 0..samples {
            if bits == 16 {
                check(same(out[k], level(i16::from_le_bytes([f.data[2 * k], f.data[2 * k + 1]]))), 2);
            } else {
                let d = out[k] - (f.data[k] as f32 / 127.5 - 1.0);
                check(d < 0.0002 && d > -0.0002, 3);
            }
        }
        check(r.decode(&mut out) == None, 4);
        reach(1);
    }
    // every 16-bit value is stored as it is
    fn wav_levels() {
        // in pieces
        let top = choose(8) as u16;
        let k = (top << 13 | any(13) as u16) as i16;
        assume(k != i16::MIN);
        let mut w = wav(44100, 1);
        check(w.encode(&[level(k)]) == Some(1), 1);
        let b = saved(&w);
        check(b.len() == 46 && u16_at(&b, 44) == k as u16, 2);
        observe(k as u16 as u64);
        reach(1);
    }
    // samples go to a file and come back
    fn wav_identity() {
        let ch = between(1, 3);
        let n = between(1, 4) * ch;
        let mut x = [0f32; 12];
        for i in 0..n {
            x[i] = any_f32();
        }
        let mut w = wav(44100, ch as u32);
        let cut = between(0, n / ch) * ch;
        check(w.encode(&x[..cut]) == Some(cut), 1);
        check(w.encode(&x[cut..n]) == Some(n - cut), 1);
        let b = saved(&w);
        check(b.len() == 44 + 2 * n, 2);
        for i in 0..n {
            check(u16_at(&b, 44 + 2 * i) == quantised(x[i]) as u16, 3);
        }
        let mut r = WavCodec::load(Cursor::new(&b[..])).unwrap();
        let mut out = [9f32; 12];
        check(r.decode(&mut out) == Some(n), 4);
        for i in 0..n {
            check(same(out[i], level(quantised(x[i]))), 5);
            observe_f(out[i]);
        }
        check(r.decode(&mut out) == None, 6);
        reach(1);
    }
    // any stored sample is heard at its level
    fn wav_playback() {
        let ch = between(1, 2);
        let n = between(1, 3) * ch;
        let f = File { channels: ch as u16, rate: 8000, bits: 16, first: 0, fmt_extra: 0, before: 0, data: any_bytes(2 * n), after: 0 };
        let b = f.bytes();
        let mut r = WavCodec::load(Cursor::new(&b[..])).unwrap();
        let c = saved(&r);
        for i in 0..b.len() {
            check(b[i] == c[i], 1);
        }
        check(b.len() == c.len(), 1);
        let mut out = [9f32; 6];
        check(r.decode(&mut out) == Some(n), 2);
        for i in 0..n {
            let k = i16::from_le_bytes([f.data[2 * i], f.data[2 * i + 1]]);
            check(same(out[i], level(k)), 3);
            observe_f(out[i]);
        }
        reach(1);
    }
    // the header says what is in the file
    fn wav_header() {
        let ch = pick(&[1u32, 2, 6, 64, 2047, 2048, 16383, 16384, 32767]);
        let rate = any_u32();
        // the byte rate has to fit
        assume(rate >= 1 && rate <= u32::MAX / (2 * ch));
        let n = between(0, 2) * ch as usize;
        let x = vec![0.25f32; n];
        let mut w = wav(rate, ch);
        w.encode(&x);
        let b = saved(&w);
        let len = 2 * n as u32;
        check(b.len() == 44 + len as usize, 1);
        check(&b[0..4] == b"RIFF" && u32_at(&b, 4) == 36 + len && &b[8..12] == b"WAVE", 2);
        check(&b[12..16] == b"fmt " && u32_at(&b, 16) == 16 && u16_at(&b, 20) == 1, 3);
        check(u16_at(&b, 22) as u32 == ch && u32_at(&b, 24) == rate, 4);
        check(u32_at(&b, 28) == rate * ch * 2, 5);
        check(u16_at(&b, 32) as u32 == ch * 2 && u16_at(&b, 34) == 16, 6);
        check(&b[36..40] == b"data" && u32_at(&b, 40) == len, 7);
        check(w.filesize_upperbound() == b.len() as u64 * 8, 8);
        let r = WavCodec::load(Cursor::new(&b[..])).unwrap();
        check(r.info().channels() == ch as usize && r.info().frequency() == rate as usize, 9);
        let c = saved(&r);
        check(c.len() == b.len(), 10);
        for i in 0..b.len() {
            check(b[i] == c[i], 11);
        }
        observe(u32_at(&b, 28) as u64);
        reach(1);
    }
    // any well-formed file: 8 or 16 bits, other chunks around the data, data cut off
    fn wav_load() {
        let c = choose(24) as usize;
        let channels = [1u16, 2, 3, 2][c % 4];
        let bits = [8u16, 16][c / 4 % 2];
        let before = [0, 7, 150][c / 8];
        let unit = channels as usize * bits as usize / 8;
        let n = between(0, 2) * unit;
        // one arbitrary sample is enough of the slower kind
        let mut data = any_bytes(if bits == 8 { n.min(1) } else { n });
        while data.len() < n {
            data.push(40 * data.len() as u8);
        }
        let f = File { channels, rate: any_u32(), bits, first: 0, fmt_extra: pick(&[0, 2, 24]), before, data, after: pick(&[0, 6]) };
        let mut b = f.bytes();
        let whole = b.len();
        let lost = if f.after > 0 { 0 } else { between(0, unit.min(n)) };
        b.truncate(whole - lost);
        if b.len() < 44 {
            return;
        }
        let mut r = match WavCodec::load(Cursor::new(&b[..])) {
            Ok(r) => r,
            Err(_) => {
                check(false, 1);
                return;
            }
        };
        check(r.info().channels() == channels as usize && r.info().frequency() == f.rate as usize, 2);
        let samples = (n - lost) / unit * channels as usize;
        let mut out = [9f32; 10];
        let got = r.decode(&mut out);
        let room = 10 / channels as usize * channels as usize;
        check(got == if samples > 0 { Some(samples.min(room)) } else { None }, 3);
        for k in 0..samples.min(room) {
            if bits == 16 {
                let v = i16::from_le_bytes([f.data[2 * k], f.data[2 * k + 1]]);
                check(same(out[k], level(v)), 4);
            } else {
                let d = out[k] - (f.data[k] as f32 / 127.5 - 1.0);
                check(d < 0.0002 && d > -0.0002, 5);
            }
            observe_f(out[k]);
        }
        reach(if bits == 8 { 2 } else { 1 });
    }
    // the chunks of a file in any order and of any size
    fn wav_load_order() {
        let c = choose(20) as usize;
        let channels = [1u16, 2][c % 2];
        let bits = [8u16, 16][c / 2 % 2];
        let unit = channels as usize * bits as usize / 8;
        let mut data = vec![40u8; 3 * unit];
        data[0] = any_u8();
        data[3 * unit - 1] = 128;
        let f = File { channels, rate: any_u32(), bits, first: [1, 16, 28, 300, 5001][c / 4], fmt_extra: pick(&[0, 24]), before: pick(&[0, 9, 256, 3000]), data, after: pick(&[0, 6]) };
        let mut r = WavCodec::load(Cursor::new(f.bytes())).unwrap();
        check(r.info().channels() == channels as usize && r.info().frequency() == f.rate as usize, 1);
        let mut out = [9f32; 10];
        let samples = 3 * channels as usize;
        check(r.decode(&mut out) == Some(samples), 2);
        for k in 0..samples {
            if bits == 16 {
                check(same(out[k], level(i16::from_le_bytes([f.data[2 * k], f.data[2 * k + 1]]))), 3);
            } else {
                let d = out[k] - (f.data[k] as f32 / 127.5 - 1.0);
                check(d < 0.0002 && d > -0.0002, 4);
            }
        }
        reach(1);
    }
    // 8-bit samples keep their order and their extremes
    fn wav_eight_bits() {
        let data = vec![any_u8(), 0];
        let data = vec![data[0], data[0].saturating_add(1)];
        let f = File { channels: 1, rate: 8000, bits: 8, first: 0, fmt_extra: 0, before: 0, data, after: 0 };
        let mut r = WavCodec::load(Cursor::new(f.bytes())).unwrap();
        let mut out = [0f32; 2];
        check(r.decode(&mut out) == Some(2), 1);
        let (a, b) = (f.data[0], f.data[1]);
        check(if a < b { out[0] < out[1] } else { same(out[0], out[1]) }, 2);
        check(out[0] >= -1.0 && out[0] <= 1.0, 3);
        if a == 0 {
            check(out[0] < -0.9999, 4);
        }
        if a == 255 {
            check(out[0] > 0.9999, 5);
        }
        reach(1);
    }
    // any bytes at all
    fn wav_load_any() {
        let c = choose(16) as usize;
        // long enough for a header or not, and where the second chunk is
        let (n, channels, second) = match c {
            0 => (0, 0, 0),
            1 => (12, 0, 0),
            2 => (43, 0, 0),
            3 => (46, 0x8001u16, 3),
            _ => ([46, 44, 46][c / 4 - 1], [1u16, 2, 3][c / 4 - 1], c % 4),
        };
        let mut b = any_bytes(n);
        if n >= 44 {
            b[22..24].copy_from_slice(&channels.to_le_bytes());
            let size = u32_at(&b, 16);
            assume(if second == 3 { size >= 18 } else { size / 6 == second as u32 });
        }
        robust(&b);
        reach(1);
    }
    // a header with any field, data found anywhere
    fn wav_load_fields() {
        let mut b = File { channels: 2, rate: 8000, bits: 16, first: 0, fmt_extra: 0, before: 0, data: any_bytes(6), after: 0 }.bytes();
        match choose(6) {
            0 => b[16..20].copy_from_slice(&any_u32().to_le_bytes()),
            1 => b[20..24].copy_from_slice(&any_u32().to_le_bytes()),
            2 => b[22..28].copy_from_slice(&any(48).to_le_bytes()[..6]),
            3 => b[28..36].copy_from_slice(&any_u64().to_le_bytes()),
            4 => b[36..44].copy_from_slice(&any_u64().to_le_bytes()),
            _ => {
                b.truncate(between(0, 50));
            }
        }
        robust(&b);
        reach(1);
    }
    fn wav_ops_mono() {
        wav_history(1, 3)
    }
    fn wav_ops_stereo() {
        wav_history(2, 3)
    }
    fn wav_ops_more() {
        wav_history(1, 4)
    }
    fn wav_ops_three() {
        wav_history(3, 2)
    }
    // the same near the end of a long stream, from the start, the end, and a position in between
    fn wav_seek_far() {
        let c = choose(16) as usize;
        let ch = c / 8 + 1;
        let (rate, frames) = [(44100, 441), (44100, 4411), (22050, 2206), (11025, 4411), (44100, 44102), (8000, 80001), (96000, 9601), (37, 1000)][c % 8];
        // silence, and numbers at the end
        let mut b = saved(&wav(rate, ch as u32));
        b.resize(44 + 2 * frames * ch, 0);
        for k in 0..6 * ch {
            let at = b.len() - 12 * ch + 2 * k;
            b[at] = k as u8 + 1;
        }
        let n = b.len() as u32;
        b[4..8].copy_from_slice(&(n - 8).to_le_bytes());
        b[40..44].copy_from_slice(&(n - 44).to_le_bytes());
        let mut w = WavCodec::load(Cursor::new(b)).unwrap();
        let (base, dt) = match choose(3) {
            0 => {
                let d = any_u64();
                assume(d < 1 << 40);
                assume(d as i64 * rate as i64 / 1000 >= frames as i64 - 5);
                w.seek(SeekFrom::Start(d));
                (0, d as i64)
            }
            1 => {
                let t = 1 + (frames / 2) as u64 * 1000 / rate as u64;
                let at = t as i64 * rate as i64 / 1000;
                w.seek(SeekFrom::Start(t));
                let d = any_u64() as i64;
                assume(d < 1 << 40 && d > -(1 << 40));
                assume(at + d * rate as i64 / 1000 >= frames as i64 - 5);
                w.seek(SeekFrom::Current(d));
                (at, d)
            }
            _ => {
                let d = any_u64() as i64;
                assume(d < 1 << 40 && d > -(1 << 40));
                assume(d * rate as i64 / 1000 >= -5);
                w.seek(SeekFrom::End(d));
                (frames as i64, d)
            }
        };
        let mut out = [0f32; 20];
        let left = w.decode(&mut out).unwrap_or(0);
        check(left % ch == 0, 1);
        let pos = frames - left / ch;
        for k in 0..left {
            check(same(out[k], level((6 * ch - left + k + 1) as i16)), 2);
        }
        check(pos as i64 == block_after(base, dt, rate, frames as i64), 3);
        observe(pos as u64);
        reach(1);
    }
    // seeking by any number of milliseconds
    fn wav_seek() {
        let c = choose(16) as usize;
        let ch = c / 8 + 1;
        let rate = [1000u32, 2000, 8000, 500, 44100, 11025, 3, 192_000][c % 8];
        let frames = 2;
        let mut w = wav(rate, ch as u32);
        let mut x = [0f32; 8];
        for k in 0..frames * ch {
            x[k] = level(k as i16 + 1);
        }
        w.encode(&x[..frames * ch]);
        // somewhere
        let at = between(0, frames);
        w.seek(SeekFrom::Start(0));
        let mut skip = [0f32; 8];
        w.decode(&mut skip[..at * ch]);
        // near, where every position is reached, and far, in either direction
        let forward = choose(2) == 0;
        let near = choose(3);
        let d = match near {
            0 => any(11),
            1 => 2048 + any(40),
            _ => (1 << 41) + any(62),
        };
        let dt = if forward { d as i64 } else { -(d as i64) };
        let (base, back) = match choose(3) {
            0 => {
                // from the start there is no way back: the upper half of the numbers instead
                w.seek(SeekFrom::Start(if forward { d } else { d | 1 << 63 }));
                (if forward { 0 } else { 1 << 50 }, false)
            }
            1 => {
                w.seek(SeekFrom::Current(dt));
                (at as i64, !forward)
            }
            _ => {
                w.seek(SeekFrom::End(dt));
                (frames as i64, !forward)
            }
        };
        let mut out = [0f32; 10];
        let left = w.decode(&mut out[..10 / ch * ch]).unwrap_or(0);
        check(left % ch == 0, 1);
        let pos = frames - left / ch;
        for k in 0..left {
            check(same(out[k], x[pos * ch + k]), 2);
        }
        if near == 0 {
            check(pos as i64 == block_after(base, dt, rate, frames as i64), 3);
        } else {
            check(pos == if back { 0 } else { frames }, 4);
        }
        observe(pos as u64);
        reach(1);
    }
}

/// the first format chunk, or where it should have been
fn format_of(b: &[u8]) -> usize {
    let mut at = 12usize;
    while at + 24 <= b.len() {
        if &b[at..at + 4] == b"fmt " {
            return at + 8;
        }
        let size = u32_at(b, at + 4) as usize;
        at += 8 + size + (size & 1);
    }
    20
}
/// whatever is loaded is a stream of whole frames that can be read, moved in and written
fn robust(b: &[u8]) {
    if let Ok(mut w) = WavCodec::load(Cursor::new(b)) {
        let ch = w.info().channels();
        check(ch >= 1, 100);
        check(b.len() >= 44, 101);
        // where the format is
        let f = format_of(b);
        check(u16_at(b, f) == 1, 101);
        check(u16_at(b, f + 14) == 16 || u16_at(b, f + 14) == 8, 102);
        check(u16_at(b, f + 2) as usize == ch && u32_at(b, f + 4) as usize == w.info().frequency(), 103);
        if ch <= 4 {
            let ch = concrete(ch as u64) as usize;
            let mut total = 0;
            let mut out = [0f32; 8];
            while let Some(n) = w.decode(&mut out) {
                check(n % ch == 0, 104);
                total += n;
                check(total <= b.len(), 105);
            }
            w.seek(SeekFrom::End(0));
            check(w.decode(&mut out) == None, 106);
            w.seek(SeekFrom::Start(0));
            check(w.decode(&mut out).is_some() == (total > 0), 107);
        }
        reach(2);
    } else {
        reach(3);
    }
}
