//! The bytes of a saved AdhocCodec, read and written without the code under test.
use super::common::*;
use super::sx::*;
use adhoc_audio::{AdhocCodec, StreamInfo};

pub struct Frame {
    pub exponent: u8,
    pub init: bool,
    pub size: u16,
    pub at: u64,
    pub history: [i16; 3],
}
pub struct Parsed {
    pub compression: u32,
    pub frames: Vec<Frame>,
    pub rate: u32,
    pub channels: u32,
    pub bits: Vec<u128>,
    pub len: usize,
}
struct Reader<'a>(&'a [u8], usize);
impl<'a> Reader<'a> {
    fn get(&mut self, n: usize) -> u128 {
        let mut v = 0u128;
        for k in 0..n {
            v |= (self.0[self.1 + k] as u128) << (8 * k);
        }
        self.1 += n;
        v
    }
}
pub fn parse(b: &[u8]) -> Parsed {
    let mut r = Reader(b, 0);
    let compression = r.get(4) as u32;
    let n = r.get(8) as usize;
    let mut nibbles = Vec::new();
    for _ in 0..n {
        nibbles.push(r.get(1) as u8);
    }
    let count = r.get(4) as usize;
    let n = r.get(8) as usize;
    let mut flags = Vec::new();
    for _ in 0..n {
        flags.push(r.get(8) as u64);
    }
    check(r.get(16) as usize == count, 70);
    check(nibbles.len() * 2 >= count && flags.len() * 64 >= count, 71);
    let mut frames = Vec::new();
    check(r.get(8) as usize == count, 72);
    for k in 0..count {
        frames.push(Frame {
            exponent: nibbles[k / 2] >> (k % 2 * 4) & 15,
            init: flags[k / 64] >> (k % 64) & 1 == 1,
            size: r.get(2) as u16,
            at: 0,
            history: [0; 3],
        });
    }
    check(r.get(8) as usize == count, 73);
    for f in &mut frames {
        f.at = r.get(8) as u64;
    }
    check(r.get(8) as usize == count, 74);
    for f in &mut frames {
        for h in &mut f.history {
            *h = r.get(2) as i16;
        }
    }
    check(r.get(4) as usize <= count, 75);
    check(r.get(1) == 1, 76);
    let rate = r.get(4) as u32;
    let channels = r.get(4) as u32;
    let n = r.get(8) as usize;
    let mut bits = Vec::new();
    for _ in 0..n {
        bits.push(r.get(16));
    }
    let cursor = r.get(16);
    let len = r.get(16);
    check(cursor <= len && len <= n as u128 * 128, 77);
    check(r.1 == b.len(), 78);
    Parsed { compression, frames, rate, channels, bits, len: len as usize }
}
pub fn written(p: &Parsed) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    let count = p.frames.len();
    v.extend_from_slice(&p.compression.to_le_bytes());
    let mut nibbles = vec![0u8; (count + 1) / 2];
    let mut flags = vec![0u64; (count + 63) / 64];
    for (k, f) in p.frames.iter().enumerate() {
        nibbles[k / 2] |= f.exponent << (k % 2 * 4);
        flags[k / 64] |= (f.init as u64) << (k % 64);
    }
    v.extend_from_slice(&(nibbles.len() as u64).to_le_bytes());
    v.extend_from_slice(&nibbles);
    v.extend_from_slice(&(count as u32).to_le_bytes());
    v.extend_from_slice(&(flags.len() as u64).to_le_bytes());
    for f in &flags {
        v.extend_from_slice(&f.to_le_bytes());
    }
    v.extend_from_slice(&(count as u128).to_le_bytes());
    v.extend_from_slice(&(count as u64).to_le_bytes());
    for f in &p.frames {
        v.extend_from_slice(&f.size.to_le_bytes());
    }
    v.extend_from_slice(&(count as u64).to_le_bytes());
    for f in &p.frames {
        v.extend_from_slice(&f.at.to_le_bytes());
    }
    v.extend_from_slice(&(count as u64).to_le_bytes());
    for f in &p.frames {
        for h in &f.history {
            v.extend_from_slice(&h.to_le_bytes());
        }
    }
    v.extend_from_slice(&(count as u32).to_le_bytes());
    v.push(1);
    v.extend_from_slice(&p.rate.to_le_bytes());
    v.extend_from_slice(&p.channels.to_le_bytes());
    v.extend_from_slice(&(p.bits.len() as u64).to_le_bytes());
    for c in &p.bits {
        v.extend_from_slice(&c.to_le_bytes());
    }
    v.extend_from_slice(&(p.len as u128).to_le_bytes());
    v.extend_from_slice(&(p.len as u128).to_le_bytes());
    v
}

impl Parsed {
    fn bit(&self, at: usize) -> bool {
        self.bits[at / 128] >> (at % 128) & 1 == 1
    }
    fn field(&self, at: usize, n: usize) -> u32 {
        let mut v = 0;
        for k in 0..n {
            v |= (self.bit(at + k) as u32) << k;
        }
        v
    }
    pub fn put(&mut self, value: u32, n: usize) {
        for k in 0..n {
            if self.len % 128 == 0 {
                self.bits.push(0);
            }
            let last = self.bits.len() - 1;
            self.bits[last] |= ((value >> k & 1) as u128) << (self.len % 128);
            self.len += 1;
        }
    }
    /// sign, quotient in unary, zero, remainder
    pub fn put_rice(&mut self, exponent: u8, value: i16) {
        let m = value.unsigned_abs() as u32;
        self.put((value < 0) as u32, 1);
        for _ in 0..m >> exponent {
            self.put(1, 1);
        }
        self.put(0, 1);
        self.put(m & ((1 << exponent) - 1), exponent as usize);
    }
    fn rice(&self, at: &mut usize, exponent: u8) -> i16 {
        let negative = self.bit(*at);
        *at += 1;
        let mut q = 0u32;
        while self.bit(*at) {
            q += 1;
            *at += 1;
        }
        *at += 1;
        let m = q << exponent | self.field(*at, exponent as usize);
        *at += exponent as usize;
        check(m <= 32768, 80);
        if negative {
            (m as u16).wrapping_neg() as i16
        } else {
            m as u16 as i16
        }
    }
}
/// the value on the parabola through the last three
pub fn predicted(h: &[i16]) -> i16 {
    let n = h.len();
    let f = [level(h[n - 3]), level(h[n - 2]), level(h[n - 1])];
    let d = f[1] - f[0];
    let e = f[2] - f[0];
    let c1 = (4.0 * d - e) * 0.5;
    let c2 = (e - 2.0 * d) * 0.5;
    let y = f[0] + (c1 + c2 * 3.0) * 3.0;
    (y.clamp(-1.0, 1.0) * 32767.0) as i16
}
/// 16-bit values of all channels, interleaved
pub fn values(p: &Parsed) -> Vec<i16> {
    let channels = p.channels as usize;
    let mut all: Vec<Vec<i16>> = vec![Vec::new(); channels];
    let mut at = 0;
    check(p.frames.len() % channels == 0, 81);
    for (k, f) in p.frames.iter().enumerate() {
        let out = &mut all[k % channels];
        check(f.at as usize == at, 82);
        let start = out.len();
        for i in 0..f.size as usize {
            if f.init && i < 3 {
                out.push(p.field(at, 16) as u16 as i16);
                at += 16;
            } else {
                let r = p.rice(&mut at, f.exponent);
                let v = predicted(out).wrapping_add(r);
                out.push(v);
            }
        }
        if f.init {
            let n = (f.size as usize).min(3);
            for i in 0..n {
                check(f.history[3 - n + i] == out[start + i], 83);
            }
        } else {
            check(start >= 3 && f.history[..] == out[start - 3..start], 84);
        }
    }
    check(at == p.len, 85);
    let n = all[0].len();
    let mut v = Vec::new();
    for i in 0..n {
        for c in 0..channels {
            check(all[c].len() == n, 86);
            v.push(all[c][i]);
        }
    }
    v
}

/// what encode and save write is what the format says
fn writes(channels: usize, index: usize, compression: u32) {
    let rate = any_u32();
    let mut c = codec_at(rate, channels as u32, compression);
    let x = record(&mut c, channels, RECORDINGS[index]);
    let p = parse(&saved(&c));
    check(p.compression == compression && p.rate == rate && p.channels as usize == channels, 1);
    let v = values(&p);
    check(v.len() == x.len(), 2);
    let scale = (1 << compression) as f32;
    c.init();
    let out = rest(&mut c, channels);
    for k in 0..v.len() {
        if compression == 0 {
            check(v[k] == quantised(x[k]), 3);
        }
        check(same(out[k], level(v[k]) * scale), 4);
        observe(v[k] as u16 as u64);
    }
    reach(1);
}
/// load and decode read what the format says
fn reads(first: usize, exponents: [u8; 2], residuals: &[i16], compression: u32) {
    let mut p = Parsed { compression, frames: Vec::new(), rate: any_u32(), channels: 1, bits: Vec::new(), len: 0 };
    // one frame that starts over, and one that goes on
    let mut h: Vec<i16> = Vec::new();
    for k in 0..3.min(first) {
        let v = if residuals.is_empty() { any_k() } else { [300, 900, 1200][k] };
        p.put(v as u16 as u32, 16);
        h.push(v);
    }
    let mut history = [0; 3];
    for k in 0..h.len() {
        history[3 - h.len() + k] = h[k];
    }
    let mut next = residuals.iter();
    for _ in 3..first {
        let r = *next.next().unwrap();
        p.put_rice(exponents[0], r);
        h.push(predicted(&h).wrapping_add(r));
    }
    p.frames.push(Frame { exponent: exponents[0], init: true, size: first as u16, at: 0, history });
    let more = next.as_slice();
    if !more.is_empty() {
        let n = h.len();
        p.frames.push(Frame { exponent: exponents[1], init: false, size: more.len() as u16, at: p.len as u64, history: [h[n - 3], h[n - 2], h[n - 1]] });
        for &r in more {
            p.put_rice(exponents[1], r);
            h.push(predicted(&h).wrapping_add(r));
        }
    }
    let mut c = AdhocCodec::load(&written(&p)[..]).unwrap();
    check(c.info().frequency() == p.rate as usize && c.info().channels() == 1, 1);
    check(c.calculate_sample_count_per_channel() == h.len() as u64, 2);
    let out = rest(&mut c, 1);
    check(out.len() == h.len(), 3);
    let scale = (1 << compression) as f32;
    for k in 0..out.len() {
        let want = if k < 3 { level(h[k]) } else { level(h[k]).clamp(-1.0, 1.0) };
        check(same(out[k], want * scale), 4);
        observe_f(out[k]);
    }
    reach(1);
}

harnesses! {
    fn format_writes() {
        let c = choose(24) as usize;
        writes(1 + c % 2, c / 4, if c / 2 % 2 == 0 { 0 } else { between(1, 10) as u32 });
    }
    // any level is one of the eleven, and set_info() is as good as with_info()
    fn format_levels() {
        let (comp, rate) = (any_u32(), any_u32());
        let channels = between(1, 2);
        let mut c = AdhocCodec::new().with_compression_level(comp);
        c.set_info(StreamInfo::new(rate, channels as u32));
        let v = vec![0f32; 2 * channels];
        encode(&mut c, &v);
        let p = parse(&saved(&c));
        check(p.compression == comp.min(10), 1);
        check(p.rate == rate && p.channels as usize == channels && c.info().frequency() == rate as usize, 2);
        let b = c.info();
        let b = b.as_bytes();
        check(b.len() == 8 && b[..4] == rate.to_le_bytes() && b[4..] == (channels as u32).to_le_bytes(), 3);
        // lossy levels store smaller numbers
        let mut d = AdhocCodec::new().with_info(StreamInfo::new(rate, channels as u32)).with_compression_level(pick(&[0, 1, 5, 10, 11, 400, u32::MAX]));
        let x = self::level(any_k());
        encode(&mut d, &[x; 2][..channels]);
        let p = parse(&saved(&d));
        let v = values(&p);
        let most = (32767 >> p.compression) as i32 + 40;
        check((v[0] as i32).abs() <= most, 4);
        observe(p.compression as u64);
        reach(1);
    }
    // stored without prediction: any sample
    fn format_reads_raw() {
        let c = choose(33);
        reads(c as usize % 3 + 1, [between(1, 15) as u8, 1], &[], c / 3);
    }
    // one arbitrary residual, last in its frame
    fn format_reads() {
        let c = choose(30) as usize;
        let e = [(c % 15 + 1) as u8, (15 - c % 15) as u8];
        let r = any(12) as i16 - 2048;
        let r = if e[c / 15] < 6 { r >> 5 } else { r };
        if c / 15 == 0 {
            reads(4, e, &[r], 0);
        } else {
            reads(5, e, &[40, -7, 100, r], 2);
        }
    }
    // no other exponent would have taken fewer bits
    fn format_small() {
        let c = choose(8) as usize;
        const SHAPES: [&[usize]; 4] = [&[4], &[5], &[3, 1], &[3, 2]];
        let sizes = SHAPES[c / 2];
        let mut codec = codec(1);
        let n: usize = sizes.iter().sum();
        let mut x = Vec::new();
        for k in 0..n {
            x.push(wave(k + 7 * (c % 2), c % 2));
        }
        // the last one is arbitrary
        x[n - 1] = level(any_k());
        encode(&mut codec, &x[..sizes[0]]);
        if sizes.len() > 1 {
            encode(&mut codec, &x[sizes[0]..]);
        }
        let p = parse(&saved(&codec));
        let v = values(&p);
        let f = p.frames.len() - 1;
        let at = p.frames[f].at as usize;
        let start = n - p.frames[f].size as usize;
        let raw = if p.frames[f].init { 3 } else { 0 };
        let used = p.len - at - 16 * raw;
        for e in 1..16 {
            let mut bits = 0;
            for k in start + raw..n {
                let m = v[k].wrapping_sub(predicted(&v[..k])).unsigned_abs() as usize;
                bits += 2 + (m >> e) + e;
            }
            check(used <= bits, 1);
        }
        observe(used as u64);
        reach(1);
    }
}
