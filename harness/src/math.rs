//! The numeric helpers.
use super::sx::*;
use adhoc_audio::verif::*;

fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

harnesses! {
    // wherever the sequence is, the noise stays in its range and repeats
    fn noise_range() {
        let seed = any(40);
        let mut a = PseudoRandom::new(seed);
        let mut b = PseudoRandom::new(seed);
        if choose(2) == 0 {
            for (x, y) in a.triangle().zip(b.triangle()).take(2) {
                check(x > -1.0 && x < 1.0, 1);
                check(same(x, y), 2);
                observe_f(x);
            }
        } else {
            for (x, y) in a.uniform().zip(b.uniform()).take(2) {
                check(x >= -1.0 && x < 1.0, 3);
                check(same(x, y), 4);
                observe_f(x);
            }
        }
        reach(1);
    }
    // the parabola goes through its three samples, and continues them
    fn parabola_samples() {
        let f = [any_i16(), any_i16(), any_i16()];
        let mut p = FixedParabola::from_samples([f[0] as f32, f[1] as f32, f[2] as f32]);
        p.compute_coefs();
        for k in 0..3 {
            check(p.eval(k as f32) == f[k] as f32, 1);
        }
        check(p.eval(3.0) == (f[0] as i32 + 3 * (f[2] as i32 - f[1] as i32)) as f32, 2);
        reach(1);
    }
    // both convolutions are the same function
    fn convolutions() {
        let n = between(0, 4);
        let m = between(0, 4);
        let mut s = [0f32; 4];
        let mut k = [0f32; 4];
        for x in &mut s[..n] {
            *x = any_f32();
        }
        for x in &mut k[..m] {
            *x = any_f32();
        }
        let (mut a, mut b) = ([3f32; 4], [3f32; 4]);
        convolve_1d(&s[..n], &k[..m], &mut a[..n]);
        convolve_1d_branchless(&s[..n], &k[..m], &mut b[..n]);
        for i in 0..4 {
            check(same(a[i], b[i]), 1);
            if i >= n {
                check(a[i] == 3.0, 2);
            }
        }
        reach(1);
    }
    // the same for longer ones
    fn convolutions_long() {
        let n = pick(&[5, 8, 17, 33]);
        let m = pick(&[1, 5, 8, 9, 16, 40]);
        let s: Vec<f32> = (0..n).map(|_| any_f32()).collect();
        let k: Vec<f32> = (0..m).map(|_| any_f32()).collect();
        let (mut a, mut b) = (vec![3f32; n + 1], vec![3f32; n + 1]);
        convolve_1d(&s, &k, &mut a[..n]);
        convolve_1d_branchless(&s, &k, &mut b[..n]);
        for i in 0..=n {
            check(same(a[i], b[i]), 1);
        }
        check(a[n] == 3.0, 2);
        reach(1);
    }
    fn convolve_shift_long() {
        let n = pick(&[5, 9, 16]);
        let m = pick(&[4, 7, 8, 12]);
        let at = pick(&[0, 1, m / 2, m - 1]);
        let s: Vec<f32> = (0..n).map(|_| any_i16() as f32).collect();
        let mut k = vec![0f32; m];
        k[at] = 1.0;
        let mut a = vec![3f32; n];
        convolve_1d(&s, &k, &mut a);
        for i in 0..n {
            let from = i as isize + at as isize - m as isize / 2;
            let want = if from < 0 || from >= n as isize { 0.0 } else { s[from as usize] };
            check(a[i] == want, 1);
        }
        reach(1);
    }
    fn resample_long() {
        let n = pick(&[10usize, 64, 1000]);
        let m = pick(&[10usize, 19, 64, 127, 640, 1000]);
        let (mut lo, mut hi) = (f32::MAX, f32::MIN);
        let s: Vec<f32> = (0..n).map(|k| (k * k * 7 % 1009) as f32 - 500.0).collect();
        for x in &s {
            lo = lo.min(*x);
            hi = hi.max(*x);
        }
        let mut out = vec![1e9f32; m + 2];
        check(scale_signal(&s, m, &mut out).len() == m, 1);
        check(same(out[0], s[0]) && (out[m - 1] - s[n - 1]).abs() < 0.5, 2);
        for k in 0..m {
            check(out[k] >= lo - 0.001 && out[k] <= hi + 0.001, 3);
            // between its neighbours
            let at = k as f64 * (n - 1) as f64 / (m - 1) as f64;
            let (i, t) = (at.floor() as usize, at - at.floor());
            let want = s[i] as f64 * (1.0 - t) + s[(i + 1).min(n - 1)] as f64 * t;
            check((out[k] as f64 - want).abs() < 1.0, 4);
            if n == m {
                check(same(out[k], s[k]), 5);
            }
        }
        check(out[m] == 1e9 && out[m + 1] == 1e9, 6);
        reach(1);
    }
    fn mse_long() {
        let n = pick(&[5usize, 16, 64]);
        let mut a: Vec<f32> = (0..n).map(|k| (k % 7) as f32).collect();
        let b: Vec<f32> = (0..n + 3).map(|k| (k % 4) as f32).collect();
        let at = pick(&[0, 4, n - 1]);
        a[at] = any(3) as f32;
        let sum: f32 = (0..n).map(|k| (a[k] - b[k]) * (a[k] - b[k])).sum();
        let d = compute_mse(&a, &b[..n]);
        let want = sum / n as f32;
        check(d >= want - 0.01 && d <= want + 0.01, 1);
        let e = compute_mse(&a, &b);
        check(same(d, e), 2);
        reach(1);
    }
    // a kernel with a single one moves the signal
    fn convolve_shift() {
        let n = between(1, 4);
        let m = between(1, 3);
        let at = between(0, m - 1);
        let mut s = [0f32; 4];
        for x in &mut s[..n] {
            *x = any_f32();
            assume(x.is_finite());
        }
        let mut k = [0f32; 3];
        k[at] = 1.0;
        let mut a = [3f32; 4];
        convolve_1d(&s[..n], &k[..m], &mut a[..n]);
        for i in 0..n {
            let from = i as isize + at as isize - m as isize / 2;
            let want = if from < 0 || from >= n as isize { 0.0 } else { s[from as usize] };
            check(a[i] == want, 1);
        }
        reach(1);
    }
    // resampling keeps both ends, stays between neighbours, and is the identity at the same length
    fn resample() {
        let n = between(1, 4);
        let m = between(2, 5);
        let mut s = [0f32; 4];
        for x in &mut s[..n] {
            *x = any_i16() as f32;
        }
        let mut out = [1e9f32; 6];
        let r = scale_signal(&s[..n], m, &mut out);
        check(r.len() == m, 1);
        check(out[0] == s[0] && out[m - 1] == s[n - 1], 2);
        if n == m {
            for k in 0..n {
                check(out[k] == s[k], 3);
            }
        }
        for k in m..6 {
            check(out[k] == 1e9, 4);
        }
        reach(1);
    }
    fn resample_between() {
        let n = between(2, 3);
        let m = between(2, 4);
        let mut s = [0f32; 4];
        let (mut lo, mut hi) = (f32::MAX, f32::MIN);
        for x in &mut s[..n] {
            *x = any(8) as i8 as f32;
            lo = lo.min(*x);
            hi = hi.max(*x);
        }
        let mut out = [1e9f32; 6];
        scale_signal(&s[..n], m, &mut out);
        for k in 0..m {
            check(out[k] >= lo - 0.001 && out[k] <= hi + 0.001, 1);
        }
        reach(1);
    }
    // the mean is over what both signals have
    fn mse_lengths() {
        let n = between(1, 4);
        let m = between(1, 4);
        let (mut a, mut b) = ([0f32; 4], [0f32; 4]);
        let mut sum = 0f32;
        let most = n.min(m);
        for k in 0..4 {
            let (x, y) = (any(4) as f32, any(4) as f32);
            a[k] = x;
            b[k] = y;
            if k < most {
                sum += (x - y) * (x - y);
            }
        }
        let d = compute_mse(&a[..n], &b[..m]);
        if most == 3 {
            // thirds are rounded
            let want = sum / 3.0;
            check(d >= want - 0.01 && d <= want + 0.01, 1);
        } else {
            check(d == sum / most as f32, 2);
        }
        reach(1);
    }
    // the error of a signal with itself is nothing, and no error is negative
    fn mse() {
        let n = between(1, 2);
        let (mut a, mut b) = ([0f32; 2], [0f32; 2]);
        for k in 0..n {
            a[k] = any_i16() as f32;
            b[k] = any_i16() as f32;
        }
        check(compute_mse(&a[..n], &a[..n]) == 0.0, 1);
        let d = compute_mse(&a[..n], &b[..n]);
        check(d >= 0.0, 2);
        reach(1);
    }
}
