//! The general collections.
use super::sx::*;
use adhoc_audio::verif::*;

/// a deque on an array, to compare with
struct Model {
    v: Vec<u32>,
}

fn same_list(l: &mut LinkedList<u32>, m: &Model) {
    check(l.len() == m.v.len(), 20);
    let mut k = 0;
    for x in l.iter() {
        check(k < m.v.len() && *x == m.v[k], 21);
        k += 1;
    }
    check(k == m.v.len(), 22);
    k = 0;
    for x in l.iter_mut() {
        check(k < m.v.len() && *x == m.v[k], 23);
        k += 1;
    }
    check(k == m.v.len(), 24);
    let f = l.get(l.front()).and_then(|n| n.data()).copied();
    let r = l.get(l.rear()).and_then(|n| n.data()).copied();
    check(f == m.v.first().copied() && r == m.v.last().copied(), 25);
}
/// the k-th node from the front
fn node_at(l: &LinkedList<u32>, k: usize) -> Ptr {
    LinkedListIterator::new(l).nth(k).unwrap()
}
fn list_op(l: &mut LinkedList<u32>, m: &mut Model) {
    match choose(7) {
        0 => {
            let x = any_u32();
            l.push_front(x);
            m.v.insert(0, x);
        }
        1 => {
            let x = any_u32();
            l.push_rear(x);
            m.v.push(x);
        }
        2 => {
            let want = if m.v.is_empty() { None } else { Some(m.v.remove(0)) };
            check(l.pop_front() == want, 1);
        }
        3 => check(l.pop_rear() == m.v.pop(), 2),
        4 if !m.v.is_empty() => {
            let k = between(0, m.v.len() - 1);
            let p = node_at(l, k);
            check(l.remove_at(p) == Some(m.v.remove(k)), 3);
        }
        5 if !m.v.is_empty() => {
            let k = between(0, m.v.len() - 1);
            let x = any_u32();
            let p = node_at(l, k);
            if choose(2) == 0 {
                l.insert_at(p, InsertDirection::Left, x);
                m.v.insert(k, x);
            } else {
                l.insert_at(p, InsertDirection::Right, x);
                m.v.insert(k + 1, x);
            }
        }
        6 if !m.v.is_empty() => {
            let k = between(0, m.v.len() - 1);
            let x = any_u32();
            let p = node_at(l, k);
            l.get_mut(p).unwrap().set_data(x);
            m.v[k] = x;
        }
        _ => assume(false),
    }
}

/// most recent first
struct LruModel {
    v: Vec<(u8, u32)>,
    cap: usize,
}
fn lru_op(c: &mut LruCache<u8, u32>, m: &mut LruModel) {
    let key = choose(4) as u8;
    let at = m.v.iter().position(|e| e.0 == key);
    match choose(5) {
        0 => {
            let x = any_u32();
            c.put(key, x);
            if let Some(k) = at {
                m.v.remove(k);
            } else if m.v.len() == m.cap {
                m.v.pop();
            }
            m.v.insert(0, (key, x));
        }
        1 => {
            let want = at.map(|k| {
                let e = m.v.remove(k);
                m.v.insert(0, e);
                e.1
            });
            check(c.get(&key).copied() == want, 1);
        }
        2 => {
            let x = any_u32();
            let got = c.get_mut(&key).map(|v| std::mem::replace(v, x));
            let want = at.map(|k| {
                let e = m.v.remove(k);
                m.v.insert(0, (key, x));
                e.1
            });
            check(got == want, 2);
        }
        3 => {
            let want = at.map(|k| m.v.remove(k).1);
            check(c.remove(&key) == want, 3);
        }
        _ => check(c.lookup(&key).copied() == at.map(|k| m.v[k].1), 4),
    }
    check(c.len() == m.v.len() && c.len() <= m.cap, 5);
    for k in 0..4u8 {
        let want = m.v.iter().find(|e| e.0 == k).map(|e| e.1);
        check(c.lookup(&k).copied() == want, 6);
    }
}

/// A key that may be any 32-bit value.  All hash alike, so that the map has to compare them.
#[derive(Clone, Copy, PartialEq, Eq, serde::Serialize)]
struct AnyKey(u32);
impl std::hash::Hash for AnyKey {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(0)
    }
}
/// the same as `lru_op` for keys of any value
fn lru_any_op(c: &mut LruCache<AnyKey, u32>, m: &mut Vec<(u32, u32)>, cap: usize) {
    let key = any_u32();
    let at = m.iter().position(|e| e.0 == key);
    match choose(4) {
        0 => {
            let x = any_u32();
            c.put(AnyKey(key), x);
            if let Some(k) = at {
                m.remove(k);
            } else if m.len() == cap {
                m.pop();
            }
            m.insert(0, (key, x));
        }
        1 => {
            let want = at.map(|k| {
                let e = m.remove(k);
                m.insert(0, e);
                e.1
            });
            check(c.get(&AnyKey(key)).copied() == want, 11);
        }
        2 => {
            let want = at.map(|k| m.remove(k).1);
            check(c.remove(&AnyKey(key)) == want, 13);
        }
        _ => check(c.lookup(&AnyKey(key)).copied() == at.map(|k| m[k].1), 14),
    }
    check(c.len() == m.len() && c.len() <= cap, 15);
}

fn ring_op<const N: usize>(r: &mut FixedRingBuffer<[u32; N]>, m: &mut Model) {
    let full = m.v.len() == N;
    match choose(5) {
        0 => {
            let x = any_u32();
            r.push_front(x);
            if !full {
                m.v.insert(0, x);
            }
        }
        1 => {
            let x = any_u32();
            r.push_rear(x);
            if !full {
                m.v.push(x);
            }
        }
        2 => {
            let want = if m.v.is_empty() { None } else { Some(m.v.remove(0)) };
            check(r.pop_front().copied() == want, 1);
        }
        3 => check(r.pop_rear().copied() == m.v.pop(), 2),
        _ => {
            r.clear();
            m.v.clear();
        }
    }
    same_ring(r, m);
}
fn same_ring<const N: usize>(r: &FixedRingBuffer<[u32; N]>, m: &Model) {
    check(r.len() == m.v.len() && r.is_empty() == m.v.is_empty() && r.is_full() == (m.v.len() == N), 3);
    let mut k = 0;
    for x in r.iter() {
        check(k < m.v.len() && *x == m.v[k], 4);
        k += 1;
    }
    check(k == m.v.len(), 5);
}

harnesses! {
    fn list_ops() {
        let mut l = LinkedList::new();
        let mut m = Model { v: Vec::new() };
        for _ in 0..between(1, 3) {
            let x = any_u32();
            l.push_rear(x);
            m.v.push(x);
        }
        for _ in 0..3 {
            list_op(&mut l, &mut m);
        }
        same_list(&mut l, &m);
        reach(1);
    }
    fn list_drain() {
        // empties and fills again, so that freed nodes are used again
        let mut l = LinkedList::new();
        let mut m = Model { v: Vec::new() };
        for round in 0..2 {
            for _ in 0..between(0, 3) {
                let x = any_u32();
                if choose(2) == 0 {
                    l.push_front(x);
                    m.v.insert(0, x);
                } else {
                    l.push_rear(x);
                    m.v.push(x);
                }
            }
            same_list(&mut l, &m);
            if round == 0 {
                for _ in 0..m.v.len() + 1 {
                    if choose(2) == 0 {
                        let want = if m.v.is_empty() { None } else { Some(m.v.remove(0)) };
                        check(l.pop_front() == want, 1);
                    } else {
                        check(l.pop_rear() == m.v.pop(), 2);
                    }
                }
                same_list(&mut l, &m);
            }
        }
        reach(1);
    }
    fn lru_ops() {
        let cap = between(1, 3);
        let mut c = LruCache::new(cap);
        let mut m = LruModel { v: Vec::new(), cap };
        // fill it
        for k in 0..cap as u8 {
            let x = any_u32();
            c.put(k, x);
            m.v.insert(0, (k, x));
        }
        for _ in 0..3 {
            lru_op(&mut c, &mut m);
        }
        reach(1);
    }
    fn lru_any_keys() {
        let cap = between(1, 3);
        let mut c = LruCache::new(cap);
        let mut m = Vec::new();
        for _ in 0..4 {
            lru_any_op(&mut c, &mut m, cap);
        }
        // and any key afterwards finds what it should
        let key = any_u32();
        let want = m.iter().find(|e| e.0 == key).map(|e| e.1);
        check(c.lookup(&AnyKey(key)).copied() == want, 16);
        reach(1);
    }
    fn ring_ops() {
        if choose(2) == 0 {
            ring::<4>(5)
        } else {
            ring::<2>(5)
        }
    }
    // from every rotation and filling of larger rings
    fn ring_states() {
        match choose(3) {
            0 => ring_state::<1>(),
            1 => ring_state::<4>(),
            _ => ring_state::<8>(),
        }
    }
    // long histories on larger ones: (almost) everything concrete, an arbitrary step at the end
    fn list_long() {
        let n = pick(&[20, 70, 300]);
        let mut l = LinkedList::new();
        let mut m = Model { v: Vec::new() };
        for k in 0..n {
            let x = (k * 77) as u32;
            match k % 5 {
                0 | 1 => {
                    l.push_rear(x);
                    m.v.push(x);
                }
                2 => {
                    l.push_front(x);
                    m.v.insert(0, x);
                }
                3 => {
                    let at = m.v.len() / 2;
                    let p = node_at(&l, at);
                    l.insert_at(p, InsertDirection::Right, x);
                    m.v.insert(at + 1, x);
                }
                _ => {
                    let at = m.v.len() / 3;
                    let p = node_at(&l, at);
                    check(l.remove_at(p) == Some(m.v.remove(at)), 3);
                }
            }
        }
        same_list(&mut l, &m);
        let keep = pick(&[0, 1, 5]);
        while m.v.len() > keep {
            if m.v.len() % 3 == 0 {
                check(l.pop_rear() == m.v.pop(), 4);
            } else {
                check(l.pop_front() == Some(m.v.remove(0)), 5);
            }
        }
        same_list(&mut l, &m);
        for k in 0..n / 2 {
            let x = if k < 2 { any_u32() } else { k as u32 };
            l.push_front(x);
            m.v.insert(0, x);
        }
        same_list(&mut l, &m);
        reach(1);
    }
    fn lru_long() {
        let cap = pick(&[5usize, 16, 40]);
        let mut c = LruCache::new(cap);
        let mut m: Vec<(u32, u32)> = Vec::new();
        for k in 0..6 * cap as u32 {
            // keys of their own, keys just used, keys about to go
            let key = match k % 4 {
                0 | 1 => 1000 + k,
                2 => m[m.len() / 2].0,
                _ => m[m.len() - 1].0,
            };
            let at = m.iter().position(|e| e.0 == key);
            match k % 11 {
                7 => {
                    let want = at.map(|i| m.remove(i).1);
                    check(c.remove(&AnyKey(key)) == want, 1);
                }
                3 => {
                    let want = at.map(|i| {
                        let e = m.remove(i);
                        m.insert(0, e);
                        e.1
                    });
                    check(c.get(&AnyKey(key)).copied() == want, 2);
                }
                _ => {
                    c.put(AnyKey(key), k);
                    if let Some(i) = at {
                        m.remove(i);
                    } else if m.len() == cap {
                        m.pop();
                    }
                    m.insert(0, (key, k));
                }
            }
            check(c.len() == m.len(), 3);
        }
        lru_any_op(&mut c, &mut m, cap);
        for &(k, v) in &m {
            check(c.lookup(&AnyKey(k)).copied() == Some(v), 4);
        }
        for k in 0..6 * cap as u32 {
            if m.iter().all(|e| e.0 != 1000 + k) {
                check(c.lookup(&AnyKey(1000 + k)).is_none(), 5);
            }
        }
        reach(1);
    }
    // many turns of a ring, then an arbitrary step
    fn ring_long() {
        match choose(3) {
            0 => ring_turns::<4>(),
            1 => ring_turns::<16>(),
            _ => ring_turns::<256>(),
        }
    }
    fn history_long() {
        let n = pick(&[7usize, 100, 255, 256, 257, 70000]);
        let mut s = CircularStack::<i16>::new();
        let mut m: Vec<i16> = Vec::new();
        for k in 0..n {
            let x = k as i16;
            s.push(x);
            m.push(x);
            check(s.len() == (k + 1).min(4), 4);
        }
        let mut held = 4;
        for _ in 0..between(0, 3) {
            check(s.pop() == m.pop().unwrap(), 1);
            held -= 1;
        }
        for _ in 0..between(0, 2) {
            let x = any_i16();
            s.push(x);
            m.push(x);
            held = 4.min(held + 1);
        }
        check(s.len() == held, 2);
        for k in 1..=s.len() {
            check(s.prev(k as u32) == m[m.len() - k], 3);
        }
        reach(1);
    }
    // the last samples, newest first
    fn history() {
        let n = between(0, 6);
        let mut s = CircularStack::<i16>::new();
        let mut m: Vec<i16> = Vec::new();
        let mut held = 0;
        for _ in 0..n {
            let x = any_i16();
            s.push(x);
            m.push(x);
            held = 4.min(held + 1);
            if choose(3) == 0 {
                check(s.pop() == m.pop().unwrap(), 1);
                held -= 1;
            }
            check(s.len() == held, 5);
        }
        // only four are kept, and pops may have uncovered lost ones
        let copy = s;
        for t in [s, copy] {
            check(t.len() <= 4 && t.len() <= m.len() && t.is_empty() == (t.len() == 0), 2);
            for k in 1..=t.len() {
                check(t.prev(k as u32) == m[m.len() - k], 3);
            }
        }
        // any distance
        let mut newest = [0; 4];
        for k in 1..=s.len() {
            newest[k - 1] = m[m.len() - k];
        }
        let k = any(2) as usize;
        assume(k < s.len());
        check(s.prev(k as u32 + 1) == newest[k], 4);
        if n >= 4 {
            reach(1);
        }
    }
}
fn ring_state<const N: usize>() {
    let mut r = FixedRingBuffer::new([0u32; N], N as u32);
    let mut m = Model { v: Vec::new() };
    // turn it, from either end
    let turns = between(0, N - 1);
    let forward = choose(2) == 0;
    for _ in 0..turns {
        if forward {
            r.push_rear(7);
            r.pop_front();
        } else {
            r.push_front(7);
            r.pop_rear();
        }
    }
    for _ in 0..between(0, N) {
        let x = any_u32();
        r.push_rear(x);
        m.v.push(x);
    }
    same_ring(&r, &m);
    for _ in 0..2 {
        ring_op(&mut r, &mut m);
    }
    reach(1);
}
fn ring<const N: usize>(ops: usize) {
    let mut r = FixedRingBuffer::new([0u32; N], N as u32);
    let mut m = Model { v: Vec::new() };
    for _ in 0..ops {
        ring_op(&mut r, &mut m);
    }
    reach(1);
}

fn ring_turns<const N: usize>() {
    let mut r = FixedRingBuffer::new([0u32; N], N as u32);
    let mut m = Model { v: Vec::new() };
    for k in 0..3 * N as u32 + 300 {
        // grows, shrinks, and is pushed to when full
        match (k / (N as u32 / 2) + k) % 5 {
            0 | 1 | 2 => {
                r.push_rear(k);
                if m.v.len() < N {
                    m.v.push(k);
                }
            }
            3 => check(r.pop_front().copied() == if m.v.is_empty() { None } else { Some(m.v.remove(0)) }, 6),
            _ => {
                r.push_front(k);
                if m.v.len() < N {
                    m.v.insert(0, k);
                }
            }
        }
    }
    if choose(2) == 1 {
        while !m.v.is_empty() {
            check(r.pop_rear().copied() == m.v.pop(), 7);
        }
    }
    same_ring(&r, &m);
    ring_op(&mut r, &mut m);
    reach(1);
}
