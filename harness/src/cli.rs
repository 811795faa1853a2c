//! The command-line program: the function that converts one file, over files.
use super::common::*;
use super::lossy::allowed;
use super::sx::*;
use super::wav::saved as wav_bytes;
use adhoc_audio::{AdhocCodec, StreamInfo, Streamable, WavCodec};
use std::fs;
use std::io::Read;
use std::path::Path;

#[allow(unused)]
#[path = "/repo/src/main.rs"]
mod program;

/// a folder of its own when run for real; the engine starts with no files
fn scratch() {
    #[cfg(feature = "native")]
    {
        let d = std::env::temp_dir().join(format!("cli-{}", std::process::id()));
        fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
    }
    fs::create_dir("out").unwrap();
    fs::create_dir("in.d").unwrap();
}
/// removes what `scratch` made
fn done() {
    #[cfg(feature = "native")]
    {
        let d = std::env::temp_dir().join(format!("cli-{}", std::process::id()));
        std::env::set_current_dir("/").unwrap();
        let _ = fs::remove_dir_all(&d);
    }
}
/// a sample with any low or any high bits
fn any_sample() -> i16 {
    let b = any(8) as i16;
    if choose(2) == 0 {
        b - 128
    } else {
        ((b - 128) * 256).max(-32767)
    }
}
fn exists(p: &str) -> bool {
    fs::File::open(p).is_ok()
}
fn convert(input: &str, output: &str, compression: u32) -> Option<()> {
    program::convert_file(Path::new(input), Path::new(output), compression)
}
/// a 16-bit wav file
fn wav_file(rate: u32, channels: usize, pcm: &[i16]) -> Vec<u8> {
    let mut v = Vec::with_capacity(44 + 2 * pcm.len());
    v.extend_from_slice(b"RIFF");
    v.extend_from_slice(&(36 + 2 * pcm.len() as u32).to_le_bytes());
    v.extend_from_slice(b"WAVEfmt \x10\0\0\0\x01\0");
    v.extend_from_slice(&(channels as u16).to_le_bytes());
    v.extend_from_slice(&rate.to_le_bytes());
    v.extend_from_slice(&(rate * 2 * channels as u32).to_le_bytes());
    v.extend_from_slice(&(2 * channels as u16).to_le_bytes());
    v.extend_from_slice(b"\x10\0data");
    v.extend_from_slice(&(2 * pcm.len() as u32).to_le_bytes());
    for k in pcm {
        v.extend_from_slice(&k.to_le_bytes());
    }
    v
}
fn tone(frames: usize, channels: usize) -> Vec<i16> {
    (0..frames * channels).map(|k| quantised(long_wave(k / channels, k % channels))).collect()
}
fn same_file(name: &str, bytes: &[u8], id: u32) {
    match fs::read(name) {
        Ok(b) => {
            check(b.len() == bytes.len(), id);
            for k in 0..b.len().min(bytes.len()) {
                check(b[k] == bytes[k], id);
            }
        }
        Err(_) => check(false, id),
    }
}
fn opened(name: &str) -> AdhocCodec {
    let b = fs::read(name).unwrap_or_default();
    check(!b.is_empty(), 90);
    loaded(&b)
}

/// wav to adhoc: the audio, the stream information, the level, and nothing else changes
fn compress(channels: usize, rate: u32, compression: u32, pcm: &[i16]) {
    scratch();
    let file = wav_file(rate, channels, pcm);
    fs::write("in.d/a.wav", &file).unwrap();
    check(convert("in.d/a.wav", "out", compression).is_some(), 1);
    same_file("in.d/a.wav", &file, 2);
    let mut c = opened("out/a.adhoc");
    check(c.info().frequency() == rate as usize && c.info().channels() == channels, 3);
    check(c.calculate_sample_count_per_channel() as usize == pcm.len() / channels, 4);
    let mut again = AdhocCodec::new().with_compression_level(compression).with_info(StreamInfo::new(rate, channels as u32));
    again.encode(&[0.0; 0]);
    check(saved(&again)[..4] == fs::read("out/a.adhoc").unwrap()[..4], 5);
    let all = rest_long(&mut c, pcm.len() + 2 * channels);
    check(all.len() == pcm.len(), 6);
    for k in 0..all.len().min(pcm.len()) {
        if compression == 0 {
            check(same(all[k], level(pcm[k].max(-32767))), 7);
        } else {
            let d = all[k] as f64 - level(pcm[k].max(-32767)) as f64;
            let most = allowed(compression);
            check(d <= most && d >= -most, 8);
        }
    }
    done();
    reach(1);
}
/// and back: what the compressed file decodes to, as a wav file
fn expand(channels: usize, rate: u32, compression: u32, pcm: &[f32]) {
    scratch();
    let mut c = codec_at(rate, channels as u32, compression);
    check(encode(&mut c, pcm) == Some(pcm.len()), 10);
    let file = saved(&c);
    fs::write("in.d/b.adhoc", &file).unwrap();
    // an older, longer file is replaced
    fs::write("out/b.wav", &[1u8; 20000][..]).unwrap();
    check(convert("in.d/b.adhoc", "out", 3).is_some(), 11);
    same_file("in.d/b.adhoc", &file, 12);
    let mut c = loaded(&file);
    let all = rest_long(&mut c, pcm.len() + 2 * channels);
    let mut want = WavCodec::new(StreamInfo::new(rate, channels as u32));
    want.encode(&all);
    same_file("out/b.wav", &wav_bytes(&want), 13);
    done();
    reach(2);
}
/// there and back at level 0: the same file
fn round_trip(channels: usize, rate: u32, pcm: &[i16]) {
    scratch();
    let file = wav_file(rate, channels, pcm);
    fs::write("in.d/c.wav", &file).unwrap();
    check(convert("in.d/c.wav", "in.d", 0).is_some(), 20);
    check(convert("in.d/c.adhoc", "out", 5).is_some(), 21);
    same_file("out/c.wav", &file, 22);
    same_file("in.d/c.wav", &file, 23);
    done();
    reach(3);
}
/// samples: the first few arbitrary
fn pcm(channels: usize, frames: usize, free: usize) -> Vec<i16> {
    let mut v = tone(frames, channels);
    for k in 0..free.min(v.len()) {
        v[k] = if k == 0 { any_sample() } else { any(8) as i16 * 100 };
    }
    v
}
/// (channels, samples per channel): in one piece, in several, with pieces that end within a group
const LENGTHS: [(usize, usize, usize); 16] = [
    (1, 1, 1),
    (1, 2, 2),
    (2, 1, 2),
    (2, 2, 4),
    (3, 1, 3),
    (1, 5, 0),
    (1, 1023, 0),
    (1, 1024, 0),
    (1, 1025, 0),
    (1, 2050, 0),
    (2, 513, 0),
    (3, 342, 0),
    (5, 410, 0),
    (7, 300, 0),
    (600, 2, 4),
    (1030, 2, 4),
];
const NAMES: [(&str, &str); 10] = [
    ("a.wav", "out/a"),
    ("take.one.wav", "out/take.one"),
    ("./x.wav", "out/x"),
    ("in.d/v1.0.2.wav", "out/v1.0.2"),
    ("../in.d/y.z.wav", "out/y.z"),
    ("two words.wav", "out/two words"),
    ("a..wav", "out/a."),
    ("\u{e9}t\u{e9}.x.wav", "out/\u{e9}t\u{e9}.x"),
    (".hidden.wav", "out/.hidden"),
    ("in.d/../in.d/b.wav.wav", "out/b.wav"),
];

harnesses! {
    fn cli_compress() {
        let (channels, frames, free) = pick(&LENGTHS);
        let rate = pick(&[8000, 44100]);
        let p = pcm(channels, frames, free);
        compress(channels, rate, 0, &p);
    }
    fn cli_levels() {
        let compression = choose(10) + 1;
        let p = [120i16, -3000, 0, 32767, -32767, 9000, 5, 800];
        compress(pick(&[1, 2]), 22050, compression, &p);
    }
    fn cli_expand() {
        let (channels, frames, free) = pick(&LENGTHS);
        let p: Vec<f32> = pcm(channels, frames, free).into_iter().map(level).collect();
        expand(channels, pick(&[8000, 48000]), 0, &p);
    }
    fn cli_round_trip() {
        let (channels, frames, free) = pick(&LENGTHS);
        let p = pcm(channels, frames, free);
        round_trip(channels, 11025, &p);
    }
    fn cli_names() {
        scratch();
        let (name, want) = pick(&NAMES);
        let k = any_sample();
        let file = wav_file(8000, 1, &[k]);
        let name = if name.starts_with("..") { &name[3..] } else { name };
        fs::write(name, &file).unwrap();
        let wav = format!("{want}.wav");
        let adhoc = format!("{want}.adhoc");
        check(convert(name, "out", 0).is_some(), 40);
        check(exists(&adhoc), 41);
        let mut c = opened(&adhoc);
        let all = rest(&mut c, 1);
        check(all.len() == 1 && same(all[0], level(k)), 42);
        check(convert(&adhoc, "out", 0).is_some(), 43);
        same_file(&wav, &file, 44);
        done();
        reach(4);
    }
    fn cli_two_takes() {
        // files whose names differ only in front of the extension
        scratch();
        let (a, b) = (any_sample(), any_sample());
        fs::write("s.left.wav", &wav_file(8000, 1, &[a])).unwrap();
        fs::write("s.right.wav", &wav_file(8000, 1, &[b])).unwrap();
        check(convert("s.left.wav", "out", 0).is_some() && convert("s.right.wav", "out", 0).is_some(), 50);
        let (mut x, mut y) = (opened("out/s.left.adhoc"), opened("out/s.right.adhoc"));
        check(same(rest(&mut x, 1)[0], level(a)), 51);
        check(same(rest(&mut y, 1)[0], level(b)), 52);
        done();
        reach(5);
    }
    fn cli_full() {
        // a device without room is not taken for a file that was written
        scratch();
        let file = wav_file(8000, 1, &[1, 2, any_sample()]);
        fs::write("in.d/a.wav", &file).unwrap();
        let mut c = codec(1);
        encode(&mut c, &[0.5, level(any_sample())]);
        fs::write("in.d/b.adhoc", &saved(&c)).unwrap();
        let (input, output) = pick(&[("in.d/a.wav", "out/a.adhoc"), ("in.d/b.adhoc", "out/b.wav")]);
        std::os::unix::fs::symlink("/dev/full", output).unwrap();
        if convert(input, "out", 0).is_some() {
            let mut start = [0u8; 44];
            let n = fs::File::open(output).and_then(|mut f| f.read(&mut start)).unwrap_or(0);
            check(n == 44 && start != [0; 44], 70);
        }
        done();
        reach(7);
    }
    fn cli_refused() {
        // nothing is left behind by a file that cannot be read
        scratch();
        let good = wav_file(8000, 1, &[1, 2, 3]);
        let (name, content): (&str, Option<Vec<u8>>) = match choose(8) {
            0 => ("a.wav", None),
            1 => ("a.adhoc", None),
            2 => ("a.wav", Some(vec![])),
            3 => ("a.adhoc", Some(vec![])),
            4 => ("a.wav", Some(vec![any_u8(); 44])),
            5 => ("a.adhoc", Some((0..9).map(|_| any_u8()).collect())),
            6 => ("a.wav", Some(good[..30].to_vec())),
            _ => ("a.txt", Some(good)),
        };
        if let Some(b) = &content {
            fs::write(name, b).unwrap();
        }
        let result = convert(name, "out", 0);
        check(!exists("out/a.adhoc") && !exists("out/a.wav"), 60);
        // other kinds of files are passed over
        check(result.is_none() || name == "a.txt", 63);
        match &content {
            Some(b) => same_file(name, b, 61),
            None => check(!exists(name), 62),
        }
        done();
        reach(6);
    }
}
