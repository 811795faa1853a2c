//! FrameHeaders and the packed lists under it.
use super::sx::*;
use adhoc_audio::codec::adhoc::{FrameHeader, FrameHeaders};
use adhoc_audio::verif::{BitVec, NibbleList};

#[derive(Clone, Copy, Default)]
struct H {
    exponent: u8,
    size: u16,
    at: u64,
    init: bool,
    hist: [i16; 3],
}
fn any_h() -> H {
    H { exponent: any(4) as u8, size: any_u16(), at: any_u64(), init: any_bool(), hist: [any_i16(), any_i16(), any_i16()] }
}
/// the k-th of a long list
fn nth_h(k: usize) -> H {
    H { exponent: (k * 7 + 3) as u8 & 15, size: (k * 257 + 1) as u16, at: k as u64 * 0x1_0000_0011, init: k % 3 == 1, hist: [k as i16, (k as i16).wrapping_neg(), (k as i16).wrapping_mul(3)] }
}
fn push(l: &mut FrameHeaders, h: H) {
    l.push(FrameHeader { exponent: h.exponent, size: h.size, bit_cursor: h.at as u128, is_init: h.init, stack_history: h.hist })
}
fn is(g: Option<FrameHeader>, h: H) -> bool {
    match g {
        None => false,
        Some(g) => g.exponent == h.exponent && g.size == h.size && g.bit_cursor == h.at as u128 && g.is_init == h.init && g.stack_history == h.hist,
    }
}
fn all(l: &mut FrameHeaders, want: &[H], id: u32) {
    check(l.len() == want.len(), id);
    for (k, &h) in want.iter().enumerate() {
        check(is(l.get(k), h), id + 1);
    }
    check(l.get(want.len()).is_none(), id + 2);
    check(l.get(want.len() + 1).is_none(), id + 2);
    l.reset();
    for &h in want {
        check(is(l.next(), h), id + 3);
    }
    check(l.next().is_none(), id + 4);
    check(l.next().is_none(), id + 4);
}

harnesses! {
    // pushed after the cursor, a header replaces everything behind it
    fn headers_rewrite() {
        let n = between(0, 5);
        let mut want = [H::default(); 8];
        let mut l = FrameHeaders::new();
        for k in 0..n {
            want[k] = any_h();
            push(&mut l, want[k]);
        }
        let back = between(0, n);
        match choose(2) {
            0 => l.set_cursor(back as u32),
            _ => {
                l.reset();
                for _ in 0..back {
                    l.next();
                }
            }
        }
        let m = between(0, 3);
        let len = if m == 0 { n } else { back + m };
        for k in 0..m {
            want[back + k] = any_h();
            push(&mut l, want[back + k]);
        }
        all(&mut l, &want[..len], 1);
        reach(1);
    }
    // long lists, cut back and extended around the sizes where the packing changes
    fn headers_long() {
        let n = pick(&[63, 64, 65, 127, 128, 129, 200, 300, 1030]);
        let back = pick(&[0, 1, 2, 31, 62, 63, 255, 256, 257]);
        let mut want = Vec::new();
        let mut l = FrameHeaders::new();
        for k in 0..n {
            want.push(nth_h(k));
            push(&mut l, want[k]);
        }
        let back = if choose(2) == 0 || back >= n { back.min(n) } else { n - 1 - back };
        l.set_cursor(back as u32);
        want.truncate(back);
        for k in 0..3 {
            want.push(any_h());
            push(&mut l, want[back + k]);
        }
        all(&mut l, &want, 1);
        reach(1);
    }
    // more headers than 16 bits count
    fn headers_many() {
        let n = pick(&[65535, 65536, 65537, 70001]);
        let mut l = FrameHeaders::new();
        for k in 0..n {
            push(&mut l, nth_h(k));
        }
        let back = pick(&[n, n - 1, 65535, 40000, 0]);
        l.set_cursor(back as u32);
        let new = any_h();
        push(&mut l, new);
        check(l.len() == back + 1, 1);
        for k in 0..back {
            check(is(l.get(k), nth_h(k)), 2);
        }
        check(is(l.get(back), new), 3);
        check(l.get(back + 1).is_none(), 4);
        let at = pick(&[0, 30000, 65535, 65536, n - 3]);
        l.set_cursor(at as u32);
        for k in at..(at + 3).min(back + 1) {
            check(is(l.next(), if k == back { new } else { nth_h(k) }), 5);
        }
        reach(1);
    }
    // the promised size of a list, against what is written
    fn headers_weight() {
        let n = pick(&[0, 1, 2, 3, 4, 5, 6, 63, 64, 65, 127, 128, 129, 200, 500, 5000]);
        let mut l = FrameHeaders::new();
        for k in 0..n {
            push(&mut l, nth_h(k));
        }
        if choose(2) == 1 {
            let back = between(0, 3).min(n);
            l.set_cursor((n - back) as u32);
            for k in 0..between(0, 2) {
                push(&mut l, nth_h(k));
            }
        }
        let real = bincode::serialized_size(&l).unwrap() * 8;
        let bound = l.calculate_weight_upperbound();
        check(bound >= real, 1);
        // the packed lists may keep a little
        check(bound <= real + 64 + 8 * n as u64, 2);
        observe(real);
        reach(1);
    }
    // the same lists, long
    fn lists_long() {
        let n = pick(&[15, 16, 17, 31, 32, 33, 64, 129, 255, 256, 257, 1025, 4100]);
        let (mut a, mut b) = (NibbleList::new(), BitVec::new());
        let mut want = Vec::with_capacity(n + 3);
        for k in 0..n {
            want.push((k * k * 5 + k / 16) as u8);
            a.push(want[k]);
            b.push(want[k] as u64);
        }
        match choose(4) {
            0 => {
                let k = pick(&[0, 1, 14, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300, 511, 1024, 3000, n / 2, n - 2, n - 1]).min(n - 1);
                for _ in 0..2 {
                    want[k] = any_u8();
                    a.set(k, want[k]);
                    b.set(k, want[k] as u64);
                }
            }
            1 => {
                let k = pick(&[0, 1, 15, 16, 17, 64, n / 2, n - 1, n]).min(n);
                a.truncate(k);
                b.truncate(k);
                want.truncate(k);
            }
            2 => {
                a.clear();
                b.clear();
                want.clear();
            }
            _ => {}
        }
        for _ in 0..2 {
            want.push(any_u8());
            a.push(want[want.len() - 1]);
            b.push(want[want.len() - 1] as u64);
        }
        check(a.len() == want.len() && b.len() == want.len(), 1);
        let (mut p, mut q) = (a.iter(), b.iter());
        for k in 0..want.len() {
            check(a.get(k) == want[k] & 15 && b.get(k) == (want[k] & 1) as u64, 2);
            check(p.next() == Some(want[k] & 15) && q.next() == Some((want[k] & 1) as u64), 3);
        }
        check(p.next() == None && q.next() == None, 4);
        reach(1);
    }
    // a nibble list is a list of numbers below 16
    fn nibbles() {
        let n = between(0, 6);
        let mut want = [0u8; 10];
        let mut len = n;
        let mut l = NibbleList::new();
        for k in 0..n {
            let v = any_u8();
            want[k] = v & 15;
            l.push(v);
        }
        match choose(4) {
            0 => {
                let k = between(0, 6);
                let v = any_u8();
                if k < n {
                    want[k] = v & 15;
                    l.set(k, v);
                }
            }
            1 => {
                let k = between(0, 6);
                l.truncate(k);
                len = len.min(k);
            }
            2 => {
                l.clear();
                len = 0;
            }
            _ => {}
        }
        for _ in 0..between(0, 3) {
            let v = any_u8();
            want[len] = v & 15;
            len += 1;
            l.push(v);
        }
        check(l.len() == len && l.is_empty() == (len == 0), 1);
        check(l.capacity() >= len * 4, 2);
        for k in 0..len {
            check(l.get(k) == want[k], 3);
        }
        let mut k = 0;
        for v in l.iter() {
            check(k < len && v == want[k], 4);
            k += 1;
        }
        check(k == len, 5);
        check(l.get(len + 20) == 0, 6);
        reach(1);
    }
    // a bit vector is a list of bits
    fn bitvec() {
        let n = pick(&[0, 1, 5, 63, 64, 65, 127, 128, 130]);
        let mut want = Vec::new();
        let mut l = BitVec::new();
        for k in 0..n {
            let v = if k < 2 || k + 3 >= n || (60..68).contains(&k) { any_u64() } else { (k * k % 7) as u64 };
            want.push(v & 1);
            l.push(v);
        }
        match choose(4) {
            0 if n > 0 => {
                let k = pick(&[0, n / 2, n - 1]);
                let v = any_u64();
                want[k] = v & 1;
                l.set(k, v);
            }
            1 => {
                let k = pick(&[0, 1, 64, 63, 100]);
                l.truncate(k);
                want.truncate(k);
            }
            2 => {
                l.clear();
                want.clear();
            }
            _ => {}
        }
        for _ in 0..between(0, 2) {
            let v = any_u64();
            want.push(v & 1);
            l.push(v);
        }
        check(l.len() == want.len(), 1);
        check(l.capacity() >= want.len() && l.capacity() % 64 == 0, 2);
        for k in 0..want.len() {
            check(l.get(k) == want[k], 3);
        }
        let mut k = 0;
        for v in l.iter() {
            check(k < want.len() && v == want[k], 4);
            k += 1;
        }
        check(k == want.len(), 5);
        check(l.get(want.len() + 200) == 0, 6);
        let bits = any(32);
        let r = BitVec::compute_bits_required(bits) as u64;
        check(r % 64 == 0 && r >= bits && r < bits + 64, 7);
        reach(1);
    }
}
