//! AdhocCodec::load on anything.
use super::common::*;
use super::format::{written, Frame, Parsed};
use super::sx::*;
use adhoc_audio::{AdhocCodec, Streamable};

/// whatever is accepted can be asked, read, moved in and written again
fn usable(b: &[u8], ms: u64) {
    if let Some(mut c) = AdhocCodec::load(b) {
        let info = c.info();
        let channels = info.channels();
        check(channels >= 1, 100);
        c.calculate_sample_count_per_channel();
        let s = saved(&c);
        check(Streamable::filesize_upperbound(&c) >= s.len() as u64 * 8, 101);
        check(AdhocCodec::load(&s[..]).is_some(), 102);
        if channels > 6 {
            reach(4);
            return;
        }
        let mut out = [0f32; 6];
        let mut calls = 0;
        while let Some(n) = decode(&mut c, &mut out) {
            check(n > 0 && n % channels == 0, 103);
            calls += 1;
            if calls == 4 {
                break;
            }
        }
        seek(&mut c, ms);
        if let Some(n) = decode(&mut c, &mut out) {
            check(n > 0 && n % channels == 0, 104);
        }
        reach(2);
    } else {
        reach(3);
    }
}
/// a small recording, one or two channels
fn small(channels: u32) -> (Vec<u8>, usize) {
    let mut p = Parsed { compression: 0, frames: Vec::new(), rate: 8000, channels, bits: Vec::new(), len: 0 };
    for init in [true, false] {
        for _ in 0..channels {
            let at = p.len as u64;
            if init {
                for v in [1000u32, 2000, 3500] {
                    p.put(v, 16);
                }
            } else {
                p.put_rice(4, 20);
                p.put_rice(4, -300);
            }
            p.frames.push(Frame { exponent: 4, init, size: if init { 3 } else { 2 }, at, history: [1000, 2000, 3500] });
        }
    }
    // and where the number of channels is
    let b = written(&p);
    let at = b.len() - 32 - 16 * p.bits.len() - 8 - 4;
    (b, at)
}

/// how many entries the lists of a file have, and what it says about that
struct Lists {
    nibbles: usize,
    count: u32,
    flags: usize,
    flag_count: u128,
    sizes: usize,
    starts: usize,
    histories: usize,
    at: u32,
    has_info: u8,
    words: usize,
    cursor: u128,
    len: u128,
}
impl Lists {
    fn damage(&mut self, k: usize) {
        match k {
            0 => self.nibbles = pick(&[0, 3]),
            1 => self.count = any_u32(),
            2 => self.flags = pick(&[0, 2]),
            3 => self.flag_count = any_u128(),
            4 => self.sizes = pick(&[0, 1, 5]),
            5 => self.starts = pick(&[0, 1, 5]),
            6 => self.histories = pick(&[0, 1, 5]),
            7 => self.at = any_u32(),
            8 => self.has_info = any_u8(),
            9 => self.words = pick(&[0, 2]),
            10 => self.cursor = any_u128(),
            _ => self.len = any_u128(),
        }
    }
    fn bytes(&self, channels: u32) -> Vec<u8> {
        let mut v = vec![0, 0, 0, 0];
        let length = |v: &mut Vec<u8>, n: usize| v.extend_from_slice(&(n as u64).to_le_bytes());
        length(&mut v, self.nibbles);
        v.resize(v.len() + self.nibbles, 0x22);
        v.extend_from_slice(&self.count.to_le_bytes());
        length(&mut v, self.flags);
        for _ in 0..self.flags {
            // the first frames are stored without prediction
            v.extend_from_slice(&((1u64 << channels) - 1).to_le_bytes());
        }
        v.extend_from_slice(&self.flag_count.to_le_bytes());
        length(&mut v, self.sizes);
        for _ in 0..self.sizes {
            v.extend_from_slice(&3u16.to_le_bytes());
        }
        length(&mut v, self.starts);
        v.resize(v.len() + 8 * self.starts, 0);
        length(&mut v, self.histories);
        v.resize(v.len() + 6 * self.histories, 0);
        v.extend_from_slice(&self.at.to_le_bytes());
        v.push(self.has_info);
        v.extend_from_slice(&8000u32.to_le_bytes());
        v.extend_from_slice(&channels.to_le_bytes());
        length(&mut v, self.words);
        v.resize(v.len() + 16 * self.words, 0x91);
        v.extend_from_slice(&self.cursor.to_le_bytes());
        v.extend_from_slice(&self.len.to_le_bytes());
        v
    }
}

harnesses! {
    // any bytes
    fn load_bytes() {
        let n = [0usize, 3, 4, 11, 16, 24, 40][choose(7) as usize];
        let mut b = vec![0u8; n];
        for k in 0..n {
            b[k] = any_u8();
        }
        usable(&b, 0);
        reach(1);
    }
    // a file cut off anywhere
    fn load_cut() {
        let c = choose(260) as usize;
        let (b, _) = small(1 + c as u32 % 2);
        let n = c / 2 * 2;
        if n < b.len() {
            check(AdhocCodec::load(&b[..n]).is_none(), 1);
            check(AdhocCodec::load(&b[..b.len() - 1]).is_none(), 2);
        }
        reach(1);
    }
    // a good file with any four bytes in a row overwritten
    fn load_damaged() {
        let c = choose(120) as usize;
        let (mut b, channels) = small(1 + c as u32 % 2);
        let at = c / 2 * 4;
        if at + 4 <= b.len() {
            let v = any_u32().to_le_bytes();
            // sizes of frames: up to 15 samples
            let count = 2 * (1 + c as usize % 2);
            let sizes = 4 + 8 + count / 2 + 4 + 8 + 8 + 16 + 8;
            for k in 0..4 {
                let p = at + k;
                if p >= sizes && p < sizes + 2 * count {
                    assume(if (p - sizes) % 2 == 0 { v[k] < 16 } else { v[k] == 0 });
                }
                // and up to 15 channels, or far too many
                if p == channels {
                    assume(v[k] < 16);
                } else if p == channels + 1 {
                    assume(v[k] == 0);
                }
            }
            b[at..at + 4].copy_from_slice(&v);
            usable(&b, 0);
        }
        reach(1);
    }
    // lists that do not belong together: any two numbers of entries, lengths or cursors are wrong
    fn load_lists() {
        let c = choose(66 * 2) as usize;
        let channels = 1 + c as u32 % 2;
        let (mut i, mut j) = (0, 1);
        for _ in 0..c / 2 {
            j += 1;
            if j == 12 {
                i += 1;
                j = i + 1;
            }
        }
        let n = 2 * channels as usize;
        let mut l = Lists { nibbles: n / 2, count: n as u32, flags: 1, flag_count: n as u128, sizes: n, starts: n, histories: n, at: 0, has_info: 1, words: 1, cursor: 0, len: 120 };
        l.damage(i);
        l.damage(j);
        let b = l.bytes(channels);
        usable(&b, 0);
        reach(1);
    }
    // a frame that says anything about itself
    fn load_frames() {
        let c = choose(36) as usize;
        let channels = 1 + c as u32 % 2;
        let count = [1usize, 2, 3][c / 2 % 3];
        let strange = [0, count - 1][c / 6 % 2];
        let ms = [0, 1, u64::MAX][c / 12];
        let mut p = Parsed { compression: 0, frames: Vec::new(), rate: 8000, channels, bits: Vec::new(), len: 0 };
        p.put(0x5a3cfe01, 32);
        for k in 0..count {
            let history = [any_i16(), 5, 6];
            p.frames.push(if k == strange {
                let at = any(57) << 7 | pick(&[0, 100, 127]);
                Frame { exponent: pick(&[0, 1, 9, 15]), init: any_bool(), size: any(2) as u16, at, history }
            } else {
                Frame { exponent: 2, init: k < 2, size: 2, at: 0, history }
            });
        }
        usable(&written(&p), ms);
        reach(1);
    }
    // counts up to the largest frames
    fn counts_far() {
        let channels = 1 << choose(3);
        let mut p = Parsed { compression: 0, frames: Vec::new(), rate: 8000, channels, bits: Vec::new(), len: 0 };
        let mut sum = 0;
        for k in 0..3 {
            let size = any_u16();
            sum += size as u64;
            for _ in 0..channels {
                p.frames.push(Frame { exponent: 3, init: k == 0, size, at: 0, history: [0; 3] });
            }
        }
        let c = loaded(&written(&p));
        check(c.calculate_sample_count_per_channel() == sum, 1);
        check(loaded(&saved(&c)).calculate_sample_count_per_channel() == sum, 2);
        observe(c.calculate_sample_count_per_channel());
        reach(1);
    }
    // the end of a long recording
    fn seek_far() {
        let c = choose(24) as usize;
        let (channels, blocks) = ([1u32, 2][c % 2], [1usize, 2, 5, 300][c / 2 % 4]);
        let rate = [8000, 44100, 11025][c / 8];
        let mut p = Parsed { compression: 0, frames: Vec::new(), rate, channels, bits: Vec::new(), len: 0 };
        // nothing looks into these
        for _ in 0..blocks * channels as usize {
            p.frames.push(Frame { exponent: 3, init: false, size: 65535, at: 0, history: [0; 3] });
        }
        let mut v = Vec::new();
        for ch in 0..channels {
            p.frames.push(Frame { exponent: 1, init: true, size: 3, at: 48 * ch as u64, history: [1, 2, 3] });
            for _ in 0..3 {
                v.push(any_k());
                p.put(v[v.len() - 1] as u16 as u32, 16);
            }
        }
        let before = blocks as u64 * 65535;
        let mut c = loaded(&written(&p));
        check(c.calculate_sample_count_per_channel() == before + 3, 1);
        // where the last three begin, at the earliest
        let first = (before * 1000 + rate as u64 - 1) / rate as u64;
        let t = first + pick(&[0, 1, 1 << 20, 1 << 33]);
        seek(&mut c, t);
        let left = rest(&mut c, channels as usize);
        let pos = (t as u128 * rate as u128 / 1000).min(before as u128 + 3) as u64;
        check(left.len() as u64 == (before + 3 - pos) * channels as u64, 2);
        for k in 0..left.len() {
            let (i, ch) = (pos - before + k as u64 / channels as u64, k as u64 % channels as u64);
            check(same(left[k], level(v[(3 * ch + i) as usize])), 3);
        }
        observe(pos);
        reach(1);
    }
}
