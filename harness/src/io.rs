//! Saving to and loading from things that do less than asked, or fail.
use super::common::*;
use super::sx::*;
use adhoc_audio::{AdhocCodec, StreamInfo, Streamable, WavCodec};
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

#[derive(Clone, Copy, PartialEq)]
enum Way {
    /// at most this many bytes each time
    Short(usize),
    /// the same, with every other call interrupted
    Interrupted(usize),
    /// works up to this many bytes
    Fails(usize),
    /// takes or gives nothing any more after this many
    Full(usize),
}
struct Device<'a> {
    way: Way,
    at: usize,
    calls: usize,
    content: &'a mut Vec<u8>,
}
impl<'a> Device<'a> {
    fn new(way: Way, content: &'a mut Vec<u8>) -> Self {
        Device { way, at: 0, calls: 0, content }
    }
    fn amount(&mut self, want: usize) -> Result<usize> {
        self.calls += 1;
        match self.way {
            Way::Short(n) => Ok(n.min(want)),
            Way::Interrupted(_) if self.calls % 2 == 1 => Err(Error::from(ErrorKind::Interrupted)),
            Way::Interrupted(n) => Ok(n.min(want)),
            Way::Fails(n) if self.at >= n => Err(Error::from(ErrorKind::BrokenPipe)),
            Way::Fails(n) | Way::Full(n) => Ok(want.min(n - n.min(self.at))),
        }
    }
}
impl<'a> Write for Device<'a> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let n = self.amount(b.len())?;
        self.content.extend_from_slice(&b[..n]);
        self.at += n;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl<'a> Read for Device<'a> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let left = self.content.len() - self.at.min(self.content.len());
        let n = self.amount(b.len().min(left))?;
        b[..n].copy_from_slice(&self.content[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl<'a> Seek for Device<'a> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        if let (Way::Fails(n), SeekFrom::Start(k)) = (self.way, to) {
            if k as usize >= n {
                return Err(Error::from(ErrorKind::BrokenPipe));
            }
        }
        self.at = match to {
            SeekFrom::Start(n) => n as usize,
            SeekFrom::Current(d) => (self.at as i64 + d) as usize,
            SeekFrom::End(d) => (self.content.len() as i64 + d) as usize,
        };
        Ok(self.at as u64)
    }
}

fn adhoc() -> AdhocCodec {
    let mut c = codec_at(any_u32(), 1, 0);
    record(&mut c, 1, &[2, 3]);
    c.init();
    c
}
fn wav() -> WavCodec {
    let mut w = WavCodec::new(StreamInfo::new(8000, 2));
    w.encode(&[any_f32(), any_f32(), any_f32(), any_f32(), any_f32(), any_f32()]);
    w
}
/// any way, up to a little past `len` bytes; `k` is below 64
fn way(k: usize, len: usize) -> Way {
    // the point of failure is any number that ends in one of sixteen
    let n = any(12) as usize * 16 + k / 4;
    assume(n <= len + 1);
    let n = concrete(n as u64) as usize;
    match k % 4 {
        0 => Way::Short(n + 1),
        1 => Way::Interrupted(n + 1),
        2 => Way::Fails(n),
        _ => Way::Full(n),
    }
}
/// nothing is reported as written that is not
fn check_write(ok: bool, way: Way, got: &[u8], whole: &[u8]) {
    let enough = match way {
        Way::Fails(n) | Way::Full(n) => n >= whole.len(),
        _ => true,
    };
    check(ok == enough, 1);
    check(got.len() <= whole.len(), 2);
    for k in 0..got.len() {
        check(got[k] == whole[k], 3);
    }
    check(!ok || got.len() == whole.len(), 4);
    observe(got.len() as u64);
    reach(if ok { 1 } else { 2 });
}

harnesses! {
    fn adhoc_writes() {
        let k = choose(64) as usize;
        let c = adhoc();
        let whole = saved(&c);
        let way = way(k, whole.len());
        let mut got = Vec::new();
        let ok = c.save_to(Device::new(way, &mut got)).is_some();
        check_write(ok, way, &got, &whole);
    }
    fn wav_writes() {
        let k = choose(64) as usize;
        let w = wav();
        let mut whole = Vec::new();
        w.save_to(&mut whole).unwrap();
        let way = way(k, whole.len());
        let mut got = Vec::new();
        let ok = w.save_to(Device::new(way, &mut got)).is_ok();
        check_write(ok, way, &got, &whole);
    }
    // a file that ends early or can't be read is no recording
    fn adhoc_reads() {
        let k = choose(64) as usize;
        let mut c = adhoc();
        let mut whole = saved(&c);
        let len = whole.len();
        let way = way(k, len);
        let r = AdhocCodec::load(Device::new(way, &mut whole));
        let enough = match way {
            Way::Fails(n) | Way::Full(n) => n >= len,
            _ => true,
        };
        check(r.is_some() == enough, 1);
        if let Some(mut r) = r {
            same_all(&rest(&mut r, 1), &rest(&mut c, 1), 2);
            check(r.info().frequency() == c.info().frequency(), 3);
            reach(1);
        } else {
            reach(2);
        }
    }
    // a wav file that ends early holds the samples up to there
    fn wav_reads() {
        let k = choose(64) as usize;
        let mut w = wav();
        let mut whole = Vec::new();
        w.save_to(&mut whole).unwrap();
        let len = whole.len();
        let way = way(k, len);
        w.seek(SeekFrom::Start(0));
        let mut all = [0f32; 6];
        w.decode(&mut all);
        match (WavCodec::load(Device::new(way, &mut whole)), way) {
            (Ok(mut r), _) => {
                let mut out = [7f32; 6];
                let n = r.decode(&mut out).unwrap_or(0);
                let want = match way {
                    Way::Full(n) => n.clamp(44, len) - 44,
                    _ => len - 44,
                } / 4 * 2;
                check(n == want, 1);
                same_all(&out[..n], &all[..n], 2);
                check(match way { Way::Full(n) => n >= 44, Way::Fails(n) => n >= len, _ => true }, 3);
                reach(1);
            }
            (Err(_), Way::Fails(n)) => {
                check(n <= len, 4);
                reach(2);
            }
            (Err(_), Way::Full(n)) => {
                check(n < 44, 5);
                reach(3);
            }
            _ => check(false, 6),
        }
    }
    fn adhoc_long_files() {
        let c = long_adhoc();
        let mut whole = saved(&c);
        let way = long_way(whole.len());
        let mut got = Vec::new();
        let ok = c.save_to(Device::new(way, &mut got)).is_some();
        check_write(ok, way, &got, &whole);
        let len = whole.len();
        let r = AdhocCodec::load(Device::new(way, &mut whole));
        check(r.is_some() == match way { Way::Fails(n) | Way::Full(n) => n >= len, _ => true }, 5);
        if let Some(r) = r {
            let again = saved(&r);
            check(again.len() == got.len(), 6);
            for k in 0..again.len() {
                check(again[k] == got[k], 7);
            }
        }
    }
    fn wav_long_files() {
        let w = long_wav();
        let mut whole = Vec::new();
        w.save_to(&mut whole).unwrap();
        let len = whole.len();
        let way = long_way(len);
        let mut got = Vec::new();
        let ok = w.save_to(Device::new(way, &mut got)).is_ok();
        check_write(ok, way, &got, &whole);
        match (WavCodec::load(Device::new(way, &mut whole)), way) {
            (Ok(r), _) => {
                let want = match way {
                    Way::Full(n) => n.clamp(44, len) - 44,
                    _ => len - 44,
                } / 4 * 4;
                let mut again = Vec::new();
                r.save_to(&mut again).unwrap();
                check(again.len() == 44 + want, 8);
                for k in 44..again.len() {
                    check(again[k] == whole[k], 9);
                }
                check(match way { Way::Full(n) => n >= 44, Way::Fails(n) => n >= len, _ => true }, 10);
            }
            (Err(_), Way::Fails(n)) => check(n <= len, 11),
            (Err(_), Way::Full(n)) => check(n < 44, 12),
            _ => check(false, 13),
        }
    }
}

/// devices for long files
fn long_way(len: usize) -> Way {
    let n = pick(&[0, 100, 4096, 8191, 8192, 8193, len / 2, len - 1, len]).min(len);
    match choose(4) {
        0 => Way::Short(n + 1 + n / 7),
        1 => Way::Interrupted(n + 100),
        2 => Way::Fails(n),
        _ => Way::Full(n),
    }
}
fn long_adhoc() -> AdhocCodec {
    let mut c = codec_at(44100, 2, 0);
    let x: Vec<f32> = (0..12000).map(|k| long_wave(k / 2, k % 2)).collect();
    for part in x.chunks(4000) {
        encode(&mut c, part);
    }
    c.init();
    c
}
fn long_wav() -> WavCodec {
    let mut w = WavCodec::new(StreamInfo::new(8000, 2));
    let x: Vec<f32> = (0..10000).map(|k| if k == 7000 { any_f32() } else { long_wave(k / 2, k % 2) }).collect();
    w.encode(&x);
    w
}
