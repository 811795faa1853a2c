//! BitStream and the Rice code.
use super::sx::*;
use adhoc_audio::verif::{BitStream, CAPPED_MAX, CAPPED_MIN};

fn low(v: u128, n: usize) -> u128 {
    if n == 128 {
        v
    } else {
        v & ((1 << n) - 1)
    }
}
/// a stream with arbitrary bits in it and the cursor at `at`; what is behind the cursor is free space
fn dirty(at: usize) -> BitStream {
    let mut s = BitStream::new();
    s.write_bits(any_u128(), 128);
    s.write_bits(any_u128(), 128);
    s.set_bit_cursor(at as u128);
    s
}
/// what the first `n` bits of a stream are
fn prefix(s: &mut BitStream, n: usize) -> u128 {
    let at = s.bit_cursor();
    s.set_bit_cursor(0);
    let v = s.peek_bits(n);
    s.set_bit_cursor(at);
    v
}

harnesses! {
    // one write anywhere in two chunks of stale bits, then a second one that ends it
    fn bits_write_read() {
        let at = between(0, 255);
        let n = between(0, 128);
        let v = any_u128();
        let before = at.min(128);
        let mut s = dirty(at);
        let kept = prefix(&mut s, before);
        s.write_bits(v, n);
        check(s.bit_cursor() == (at + n) as u128, 1);
        check(s.len() == at + n, 2);
        check(s.capacity() == (at + n).max(256), 3);
        let m = any_u8();
        s.write::<u8>(m);
        check(s.bit_cursor() == (at + n + 8) as u128, 4);
        check(prefix(&mut s, before) == kept, 5);
        s.set_bit_cursor(at as u128);
        check(s.read_bits(n) == low(v, n), 6);
        check(s.peek::<u8>() == m as u128, 7);
        check(s.read::<u8>() == m as u128, 8);
        check(s.bit_cursor() == (at + n + 8) as u128, 9);
        check(s.capacity_upperbound() >= at + n + 8 && s.capacity_upperbound() == s.blocks_allocated() * 128, 10);
        reach(1);
    }
    // single bits
    fn bits_single() {
        let at = between(0, 255);
        let mut s = dirty(at);
        let before = at.min(128);
        let kept = prefix(&mut s, before);
        let b = [any_u8(), any_u8(), any_u8()];
        for v in b {
            s.write_bit(v);
        }
        check(s.bit_cursor() == at as u128 + 3, 1);
        check(prefix(&mut s, before) == kept, 2);
        s.set_bit_cursor(at as u128);
        for v in b {
            check(s.read_bit() == (v & 1) as u128, 3);
        }
        s.set_bit_cursor(at as u128);
        check(s.read_bits(3) == (b[0] & 1 | (b[1] & 1) << 1 | (b[2] & 1) << 2) as u128, 4);
        reach(1);
    }
    // a run of fields of different types from the start, twice into the same stream
    fn bits_fields() {
        let mut s = BitStream::new();
        for round in 0..2 {
            s.seek_start();
            let (a, b, c, d, e) = (any_u8(), any_u16(), any_u32(), any_u64(), any_u128());
            let w = pick(&[1usize, 7, 31, 64, 100, 127]);
            let f = any_u128();
            s.write::<u8>(a);
            s.write::<u16>(b);
            s.write_bits(f, w);
            s.write::<u32>(c);
            s.write::<u64>(d);
            s.write_bit(1);
            s.write::<u128>(e);
            s.write_bits(f, w);
            let end = s.bit_cursor();
            check(end == (8 + 16 + 32 + 64 + 1 + 128 + 2 * w) as u128, 1);
            s.seek_start();
            check(s.read::<u8>() == a as u128, 2);
            check(s.read::<u16>() == b as u128, 3);
            check(s.read_bits(w) == low(f, w), 4);
            check(s.read::<u32>() == c as u128, 5);
            check(s.read::<u64>() == d as u128, 6);
            check(s.read_bit() == 1, 7);
            check(s.read::<u128>() == e, 8);
            check(s.read_bits(w) == low(f, w), 9);
            check(s.bit_cursor() == end, 10);
            if round == 1 {
                reach(1);
            }
        }
    }
    // writes of mixed widths, then a part of them again
    fn bits_sequence() {
        let at = pick(&[0, 1, 100, 127]);
        let mut s = dirty(at);
        let kept = prefix(&mut s, at);
        let mut w = [0usize; 4];
        let mut v = [0u128; 4];
        let mut ends = [at as u128; 5];
        for k in 0..4 {
            w[k] = pick(&[0, 1, 28, 64, 127, 128]);
            v[k] = any_u128();
            s.write_bits(v[k], w[k]);
            ends[k + 1] = s.bit_cursor();
            check(ends[k + 1] == ends[k] + w[k] as u128, 1);
        }
        let again = between(1, 4);
        s.set_bit_cursor(ends[again]);
        for k in again..4 {
            v[k] = any_u128();
            s.write_bits(v[k], w[k]);
        }
        let m = any_u8();
        s.write(m);
        check(prefix(&mut s, at) == kept, 2);
        s.set_bit_cursor(at as u128);
        for k in 0..4 {
            check(s.peek_bits(w[k]) == low(v[k], w[k]), 3);
            check(s.read_bits(w[k]) == low(v[k], w[k]), 4);
        }
        check(s.read::<u8>() == m as u128, 5);
        reach(1);
    }
    // hundreds of fields, the last ones written again
    fn bits_long() {
        let n = pick(&[150usize, 700]);
        let step = pick(&[1usize, 7, 32, 37]);
        let width = |k: usize| (k * step + k / 9) % 129;
        let mut s = BitStream::new();
        let mut v: Vec<u128> = Vec::new();
        let mut ends = vec![0u128];
        for k in 0..n {
            let x = if k % 50 == 49 { any_u128() } else { (k as u128 + 1).wrapping_mul(0x9e3779b97f4a7c15_f39cc0605cedc835) };
            v.push(x);
            s.write_bits(x, width(k));
            ends.push(s.bit_cursor());
            check(ends[k + 1] == ends[k] + width(k) as u128, 1);
        }
        let most = ends[n];
        check(s.capacity() as u128 == most, 2);
        let again = pick(&[1, n / 2, n - 1]);
        s.set_bit_cursor(ends[again]);
        for k in again..n.min(again + 20) {
            v[k] = if k == again { any_u128() } else { !v[k] };
            s.write_bits(v[k], width(k));
        }
        let last = n.min(again + 20);
        check(s.bit_cursor() == ends[last] && s.len() as u128 == ends[last] && s.capacity() as u128 == most, 3);
        check(s.capacity_upperbound() as u128 >= most && s.capacity_upperbound() == s.blocks_allocated() * 128, 4);
        s.seek_start();
        for k in 0..last {
            check(s.read_bits(width(k)) == low(v[k], width(k)), 5);
        }
        reach(1);
    }
    // the cursor may be anywhere; far past the end there is nothing either
    fn bits_cursor() {
        let mut s = BitStream::new();
        s.write_bits(any_u128(), 128);
        s.write::<u8>(any_u8());
        let at = any_u64();
        assume(at >= 136 && at < 1 << 60);
        s.set_bit_cursor(at as u128);
        check(s.bit_cursor() == at as u128 && s.len() == at as usize, 1);
        let n = pick(&[0, 1, 64, 128]);
        check(s.peek_bits(n) == 0, 2);
        check(s.bit_cursor() == at as u128, 3);
        check(s.read_bits(n) == 0, 4);
        check(s.bit_cursor() == at as u128 + n as u128, 5);
        reach(1);
    }
    // past the end there is nothing but zeros
    fn bits_past_end() {
        let at = between(0, 127);
        let n = between(0, 128);
        let v = any_u128();
        let mut s = BitStream::new();
        s.write_bits(v, at);
        // ends the field
        s.write_bits(0u128, 0);
        let m = pick(&[0, 1, 17, 64, 127, 128]);
        let first = s.read_bits(n);
        check(first == 0, 1);
        check(s.read_bits(m) == 0, 2);
        check(s.read_bit() == 0, 3);
        reach(1);
    }

    // two numbers with one exponent, anywhere in stale bits
    fn rice_wide() {
        let c = choose(24);
        rice([15, 14, 13, 12, 11, 10, 9, 8][c as usize / 3], [0, 127, 61][c as usize % 3], |_| true)
    }
    fn rice_mid() {
        // a shard takes every eighth quotient
        let c = choose(8);
        rice(pick(&[7, 6]), 101, |q| q % 8 == c)
    }
    // where a long run of ones starts, passes a multiple of the chunk size, or is as long as it gets
    fn rice_edges() {
        let c = choose(12);
        let e = [5, 4, 3, 2, 1, 0][c as usize / 2];
        let most = 32768u32 >> e;
        rice(e, [0, 126][c as usize % 2], |q| q < 2 || (126..=129).contains(&q) || (254..=257).contains(&q) || q + 2 > most)
    }
    fn rice_all() {
        let c = choose(24);
        rice(c as i16 / 3, [0, 3, 126][c as usize % 3], |_| true)
    }
    // the capped variant keeps values of 14 bits
    fn rice_capped() {
        let at = pick(&[0, 1, 64, 99, 113, 114, 126, 127]);
        let v = any_i16();
        assume(v >= CAPPED_MIN && v <= CAPPED_MAX);
        let tail = any_u16();
        let mut s = dirty(at);
        match choose(3) {
            0 => capped::<2>(&mut s, v, tail, at),
            1 => capped::<16>(&mut s, v, tail, at),
            _ => capped::<512>(&mut s, v, tail, at),
        }
        reach(1);
    }
    // a divisor stands for its exponent
    fn rice_divisor() {
        let at = pick(&[0, 1, 64, 99, 113, 114, 126, 127]);
        let v = any_i16();
        let tail = any_u16();
        let e = pick(&[14, 12, 9]);
        let d = 1i16 << e;
        let mut s = dirty(at);
        s.write_compressed_divisor(d, v);
        let end = s.bit_cursor();
        s.write::<u16>(tail);
        s.set_bit_cursor(at as u128);
        check(s.read_compressed(e) == v, 1);
        s.set_bit_cursor(at as u128);
        check(s.read_compressed_divisor(d) == v, 2);
        check(s.bit_cursor() == end, 3);
        check(s.read::<u16>() == tail as u128, 4);
        reach(1);
    }
}

fn rice(exponent: i16, at: usize, quotients: impl Fn(u32) -> bool) {
    let (a, b) = (any_i16(), any_i16());
    let tail = any_u16();
    assume(quotients(a.unsigned_abs() as u32 >> exponent));
    // the second one only shows that the first one ends where it should
    assume(b.unsigned_abs() >> exponent < 1);
    let mut s = dirty(at);
    let kept = prefix(&mut s, at);
    s.write_compressed(exponent, a);
    let mid = s.bit_cursor();
    check(mid == at as u128 + 2 + ((a as i32).abs() >> exponent) as u128 + exponent as u128, 1);
    s.write_compressed(exponent, b);
    let end = s.bit_cursor();
    s.write::<u16>(tail);
    check(prefix(&mut s, at) == kept, 2);
    s.set_bit_cursor(at as u128);
    check(s.read_compressed(exponent) == a, 3);
    check(s.bit_cursor() == mid, 4);
    check(s.read_compressed(exponent) == b, 5);
    check(s.bit_cursor() == end, 6);
    check(s.read::<u16>() == tail as u128, 7);
    reach(1);
}
fn capped<const D: i16>(s: &mut BitStream, v: i16, tail: u16, at: usize) {
    s.write_compressed_capped::<D>(v);
    let end = s.bit_cursor();
    s.write::<u16>(tail);
    s.set_bit_cursor(at as u128);
    check(s.read_compressed_capped(D) == v, 1);
    check(s.bit_cursor() == end, 2);
    check(s.read::<u16>() == tail as u128, 3);
}
