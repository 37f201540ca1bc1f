//! Independent double-precision references and error metrics.
use crate::fw::{Case, Rng};
use kofft::{Complex, Complex32, Complex64};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Z {
    pub re: f64,
    pub im: f64,
}
pub fn z(re: f64, im: f64) -> Z {
    Z { re, im }
}
impl std::ops::Add for Z {
    type Output = Z;
    fn add(self, o: Z) -> Z {
        z(self.re + o.re, self.im + o.im)
    }
}
impl std::ops::Sub for Z {
    type Output = Z;
    fn sub(self, o: Z) -> Z {
        z(self.re - o.re, self.im - o.im)
    }
}
impl std::ops::Mul for Z {
    type Output = Z;
    fn mul(self, o: Z) -> Z {
        z(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    }
}
impl Z {
    pub fn conj(self) -> Z {
        z(self.re, -self.im)
    }
    pub fn scale(self, s: f64) -> Z {
        z(self.re * s, self.im * s)
    }
    pub fn abs(self) -> f64 {
        self.re.hypot(self.im)
    }
    pub fn n2(self) -> f64 {
        self.re * self.re + self.im * self.im
    }
}

/// The two element types of the library.
pub trait Sc: kofft::Float + kofft::rfft::RealFftNum + PartialOrd + Copy + Send + Sync + 'static {
    const EPS: f64;
    const NAME: &'static str;
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
    fn bits(self) -> u64;
    fn big() -> f64;
}
impl Sc for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    fn f(self) -> f64 {
        self as f64
    }
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn big() -> f64 {
        9.0
    }
}
impl Sc for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    fn f(self) -> f64 {
        self
    }
    fn of(x: f64) -> f64 {
        x
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn big() -> f64 {
        80.0
    }
}
pub fn cx<T: Sc>(re: f64, im: f64) -> Complex<T> {
    Complex { re: T::of(re), im: T::of(im) }
}
pub fn toz<T: Sc>(v: &[Complex<T>]) -> Vec<Z> {
    v.iter().map(|c| z(c.re.f(), c.im.f())).collect()
}
pub fn same_bits<T: Sc>(a: &[Complex<T>], b: &[Complex<T>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.re.bits() == y.re.bits() && x.im.bits() == y.im.bits())
}
pub fn same_bits_r<T: Sc>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits())
}
/// exp(-2 pi i k / n), evaluated with the angle reduced to the first octant.
pub fn root(k: u64, n: u64) -> Z {
    let k = k % n;
    // 8k/n octant
    let (oct, num) = ((8 * k) / n, (8 * k) % n);
    // angle = 2 pi k / n = (pi/4) * (oct + num/n)
    let f = num as f64 / n as f64;
    let q = std::f64::consts::FRAC_PI_4;
    let (s, c) = if oct % 2 == 0 {
        let a = q * f;
        (a.sin(), a.cos())
    } else {
        let a = q * ((n - num) as f64 / n as f64);
        (a.cos(), a.sin())
    };
    // (c, s) of the angle inside its quadrant
    let (c, s) = match oct / 2 {
        0 => (c, s),
        1 => (-s, c),
        2 => (-c, -s),
        _ => (s, -c),
    };
    z(c, -s)
}
thread_local! { static TAB: RefCell<HashMap<usize, Rc<Vec<Z>>>> = RefCell::new(HashMap::new()); }
pub fn roots(n: usize) -> Rc<Vec<Z>> {
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() > 400 {
            t.clear();
        }
        t.entry(n).or_insert_with(|| Rc::new((0..n as u64).map(|k| root(k, n as u64)).collect())).clone()
    })
}
/// Naive DFT with compensated summation.
pub fn dft_naive(x: &[Z]) -> Vec<Z> {
    let n = x.len();
    let w = roots(n.max(1));
    (0..n)
        .map(|k| {
            let (mut s, mut c) = (Z::default(), Z::default());
            let mut idx = 0usize;
            for &v in x {
                let t = v * w[idx];
                // Neumaier per component
                for (sv, cv, tv) in [(&mut s.re, &mut c.re, t.re), (&mut s.im, &mut c.im, t.im)] {
                    let y = *sv + tv;
                    *cv += if sv.abs() >= tv.abs() { (*sv - y) + tv } else { (tv - y) + *sv };
                    *sv = y;
                }
                idx += k;
                if idx >= n {
                    idx -= n;
                }
            }
            s + c
        })
        .collect()
}
/// Reference FFT for any length (mixed radix, Bluestein for large prime factors).
pub fn fft_ref(x: &[Z]) -> Vec<Z> {
    let n = x.len();
    if n <= 64 {
        return if n == 0 { vec![] } else { dft_naive(x) };
    }
    let mut p = 0;
    for f in [4usize, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47] {
        if n % f == 0 {
            p = f;
            break;
        }
    }
    if p == 0 {
        return if n <= 600 { dft_naive(x) } else { bluestein_ref(x) };
    }
    let m = n / p;
    let subs: Vec<Vec<Z>> = (0..p).map(|r| fft_ref(&(0..m).map(|i| x[i * p + r]).collect::<Vec<_>>())).collect();
    let w = roots(n);
    let mut out = vec![Z::default(); n];
    for (k, o) in out.iter_mut().enumerate() {
        let mut s = subs[0][k % m];
        for (r, sub) in subs.iter().enumerate().skip(1) {
            s = s + sub[k % m] * w[(r * k) % n];
        }
        *o = s;
    }
    out
}
fn bluestein_ref(x: &[Z]) -> Vec<Z> {
    let n = x.len();
    let m = (2 * n - 1).next_power_of_two();
    let ch: Vec<Z> = (0..n as u64).map(|i| root((i * i) % (2 * n as u64), 2 * n as u64)).collect();
    let mut a = vec![Z::default(); m];
    let mut b = vec![Z::default(); m];
    for i in 0..n {
        a[i] = x[i] * ch[i];
        b[i] = ch[i].conj();
        if i > 0 {
            b[m - i] = ch[i].conj();
        }
    }
    let (fa, fb) = (fft_ref(&a), fft_ref(&b));
    let c: Vec<Z> = fa.iter().zip(&fb).map(|(&p, &q)| (p * q).conj()).collect();
    let r = fft_ref(&c);
    (0..n).map(|i| r[i].conj().scale(1.0 / m as f64) * ch[i]).collect()
}
pub fn ifft_ref(x: &[Z]) -> Vec<Z> {
    let n = x.len() as f64;
    let c: Vec<Z> = x.iter().map(|v| v.conj()).collect();
    fft_ref(&c).iter().map(|v| v.conj().scale(1.0 / n)).collect()
}
pub fn norm(v: &[Z]) -> f64 {
    let m = v.iter().fold(0.0f64, |m, x| m.max(x.re.abs()).max(x.im.abs()));
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    m * v.iter().map(|x| x.scale(1.0 / m).n2()).sum::<f64>().sqrt()
}
pub fn rnorm(v: &[f64]) -> f64 {
    norm(&v.iter().map(|&x| z(x, 0.0)).collect::<Vec<_>>())
}
/// Relative error in units of `eps * (log2 n + 3)`; infinite when lengths differ or a value is
/// not finite.
pub fn err_units(got: &[Z], want: &[Z], eps: f64, nref: f64) -> f64 {
    if got.len() != want.len() || got.iter().any(|v| !v.re.is_finite() || !v.im.is_finite()) {
        return f64::INFINITY;
    }
    let d: Vec<Z> = got.iter().zip(want).map(|(&a, &b)| a - b).collect();
    let e = norm(&d);
    if e == 0.0 {
        return 0.0;
    }
    let l = ((got.len().max(2)) as f64).log2() + 3.0;
    e / (eps * l * nref.max(f64::MIN_POSITIVE))
}
pub fn rz(v: &[f64]) -> Vec<Z> {
    v.iter().map(|&x| z(x, 0.0)).collect()
}
pub fn brief(v: &[Z]) -> String {
    let s: Vec<String> = v.iter().take(4).map(|c| format!("{:.6e}{:+.6e}i", c.re, c.im)).collect();
    format!("[{}{}]", s.join(", "), if v.len() > 4 { ", …" } else { "" })
}
/// Judge a complex result against a reference; the bound is `c` error units.
#[allow(clippy::too_many_arguments)]
pub fn judge(c: &mut Case, what: &str, label: &str, got: &[Z], want: &[Z], eps: f64, nref: f64, bound: f64) -> bool {
    c.ev();
    let e = err_units(got, want, eps, nref);
    c.ratio(label, e / bound, || format!("{what} n={} err={e:.3} units", want.len()));
    if e <= bound {
        return true;
    }
    let at = got
        .iter()
        .zip(want)
        .enumerate()
        .map(|(i, (&a, &b))| (i, if a.re.is_finite() && a.im.is_finite() { (a - b).abs() } else { f64::INFINITY }))
        .fold((0, -1.0), |m, v| if v.1 > m.1 { v } else { m })
        .0;
    c.fail(
        format!("{what}: wrong values"),
        format!(
            "n={} (got {} values) error {e:.3e} units (bound {bound}); worst at index {at}: got {} want {}; head got {} want {}",
            want.len(),
            got.len(),
            got.get(at).map(|v| brief(&[*v])).unwrap_or_default(),
            want.get(at).map(|v| brief(&[*v])).unwrap_or_default(),
            brief(got),
            brief(want)
        ),
    );
    false
}

// ---------------------------------------------------------------- signals
/// A complex test signal; the pattern name goes into the distinct-situation signature.
pub fn signal(rng: &mut Rng, n: usize, decades: f64) -> (&'static str, Vec<Z>) {
    let pat = rng.below(24);
    let amp = if rng.chance(1, 3) { 10f64.powf(rng.uni(-decades, decades)) } else { 1.0 };
    let mut v = vec![Z::default(); n];
    let name = match pat {
        0 if n > 0 => {
            v[rng.below(n)] = z(rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0));
            "impulse"
        }
        1 => {
            let k = rng.below(n.max(1)) as u64;
            for (i, x) in v.iter_mut().enumerate() {
                *x = root((i as u64 * k) % n as u64, n as u64).conj();
            }
            "tone"
        }
        2 => {
            let c = z(rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0));
            v.iter_mut().for_each(|x| *x = c);
            "constant"
        }
        3 => {
            for x in v.iter_mut() {
                x.re = rng.uni(-1.0, 1.0);
            }
            "real"
        }
        4 => {
            for x in v.iter_mut() {
                x.im = rng.uni(-1.0, 1.0);
            }
            "imag"
        }
        5 => {
            for x in v.iter_mut() {
                if rng.chance(1, 8) {
                    *x = z(rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0));
                }
            }
            "sparse"
        }
        6 => {
            for x in v.iter_mut() {
                let s = 10f64.powf(rng.uni(-3.0, 3.0));
                *x = z(s * rng.uni(-1.0, 1.0), s * rng.uni(-1.0, 1.0));
            }
            "wide-range"
        }
        7 => {
            for (i, x) in v.iter_mut().enumerate() {
                *x = z(if i % 2 == 0 { 1.0 } else { -1.0 }, 0.25 * (i % 3) as f64);
            }
            "alternating"
        }
        8 => {
            for (i, x) in v.iter_mut().enumerate() {
                *x = z(i as f64 / n as f64 + 0.01, -(i as f64) / n as f64);
            }
            "ramp"
        }
        9 => {
            for x in v.iter_mut() {
                *x = z(rng.below(201) as f64 - 100.0, rng.below(201) as f64 - 100.0);
            }
            "integers"
        }
        10 => {
            // even or odd symmetry, or the symmetry of a real signal's spectrum
            let s = rng.below(4);
            for i in 0..n {
                let j = (n - i) % n;
                v[i] = if j >= i {
                    let im = rng.uni(-1.0, 1.0);
                    let re = rng.uni(-1.0, 1.0);
                    if i == j && s == 1 { z(0.0, 0.0) } else if i == j && s >= 2 { z(re, 0.0) } else { z(re, im) }
                } else {
                    let o = v[j];
                    match s {
                        0 => o,
                        1 => z(-o.re, -o.im),
                        _ => o.conj(),
                    }
                };
            }
            "symmetric"
        }
        11 => {
            // zero-padded at either end
            let k = rng.below(n + 1);
            let head = rng.chance(1, 3);
            for (i, x) in v.iter_mut().enumerate() {
                if (i < k) != head {
                    *x = z(rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0));
                }
            }
            "padded"
        }
        12 if rng.chance(1, 3) => "silent",
        13 => {
            // periodic, or constant in blocks
            let p = rng.logsize(1, n.max(1));
            let block = rng.chance(1, 2);
            let t: Vec<Z> = (0..n.max(1)).map(|_| z(rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0))).collect();
            for (i, x) in v.iter_mut().enumerate() {
                *x = if block { t[i / p] } else { t[i % p] };
            }
            "periodic"
        }
        14 => {
            // small steps on a large offset
            for x in v.iter_mut() {
                *x = z(1.0 + 1e-3 * rng.uni(-1.0, 1.0), -1.0 + 1e-3 * rng.uni(-1.0, 1.0));
            }
            "offset"
        }
        15 => {
            // interleaved channels, some of them silent, constant or a copy of another
            let p = rng.range(2, 4);
            let kinds: Vec<usize> = (0..p).map(|_| rng.below(4)).collect();
            let level = z(rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0));
            for i in 0..n {
                v[i] = match kinds[i % p] {
                    0 => Z::default(),
                    1 => level,
                    2 if i % p > 0 => v[i - 1],
                    _ => z(rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0)),
                };
            }
            "interleaved"
        }
        16 => {
            // bursts between runs of silence or of one level
            let mut left = 0;
            let mut on = true;
            for x in v.iter_mut() {
                if left == 0 {
                    left = rng.logsize(1, n);
                    on = !on;
                }
                left -= 1;
                if on {
                    *x = z(rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0));
                }
            }
            "bursts"
        }
        17 => {
            // halves that mirror, repeat or negate each other
            let s = rng.below(4);
            let f = if rng.chance(1, 2) { 1.0 } else { -1.0 };
            for i in 0..n {
                let j = if s < 2 { n - 1 - i } else { (i + n / 2) % n };
                v[i] = if j < i { v[j].scale(f) } else { z(rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0)) };
                if s == 3 {
                    v[i].im = 0.0;
                }
            }
            "halves"
        }
        18 => {
            // a few spectral lines, some of them weak
            for _ in 0..rng.range(1, 3) {
                let k = rng.below(n.max(1)) as u64;
                let a = z(10f64.powf(rng.uni(-5.0, 0.0)), 0.0);
                for (i, x) in v.iter_mut().enumerate() {
                    *x = *x + root((i as u64 * k) % n as u64, n as u64).conj() * a;
                }
            }
            "lines"
        }
        _ => {
            for x in v.iter_mut() {
                *x = z(rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0));
            }
            "uniform"
        }
    };
    // structure that holds almost everywhere: what a shortcut takes it for, it is not
    let name = if n > 0 && pat < 19 && rng.chance(1, 4) {
        for _ in 0..rng.range(1, 2) {
            let at = match rng.below(6) {
                0 => 0,
                1 => n - 1,
                2 => n / 2,
                _ => rng.below(n),
            };
            v[at] = v[at] + z(rng.uni(-1.0, 1.0), if rng.chance(1, 2) { rng.uni(-1.0, 1.0) } else { 0.0 });
        }
        "almost"
    } else {
        name
    };
    v.iter_mut().for_each(|x| *x = x.scale(amp));
    (name, v)
}
pub fn csignal<T: Sc>(rng: &mut Rng, n: usize) -> (&'static str, Vec<Complex<T>>) {
    let (name, v) = signal(rng, n, T::big());
    (name, v.iter().map(|c| cx(c.re, c.im)).collect())
}
pub fn rsignal<T: Sc>(rng: &mut Rng, n: usize) -> (&'static str, Vec<T>) {
    let (name, v) = signal(rng, n, T::big());
    (name, v.iter().map(|c| T::of(if name == "imag" { c.im } else { c.re })).collect())
}
#[allow(dead_code)]
pub type C32 = Complex32;
#[allow(dead_code)]
pub type C64 = Complex64;
pub fn r64(v: &[f32]) -> Vec<f64> {
    v.iter().map(|&x| x as f64).collect()
}
/// A test length: every small length, then powers of two and their neighbours, primes,
/// composites and random lengths.
/// A length related to `n`: doubled, halved, a neighbour, a multiple.
pub fn kin(rng: &mut Rng, n: usize, max: usize) -> usize {
    let k = if cfg!(feature = "std") { rng.below(14) } else { rng.below(4) };
    match k {
        0 => 2 * n,
        1 => n / 2,
        2 => 4 * n,
        3 => n / 4,
        4 => 2 * n + 1,
        5 => (2 * n).saturating_sub(1),
        6 => 2 * n + 2,
        7 => n / 2 + 1,
        8 => (n / 2).saturating_sub(1),
        9 => n + 1,
        10 => n.saturating_sub(1),
        11 => 3 * n,
        12 => n / 3,
        _ => n + 2 + rng.below(8),
    }
    .clamp(1, max)
}
pub fn length(rng: &mut Rng, idx: u64, small: usize, max: usize) -> usize {
    if (idx as usize) < small {
        return idx as usize + 1;
    }
    match rng.below(10) {
        0..=3 => 1usize << rng.range(1, (max as f64).log2() as usize),
        4 => {
            let p = 1usize << rng.range(2, (max as f64).log2() as usize);
            (p + rng.below(3)).saturating_sub(1).clamp(1, max)
        }
        5 => {
            let mut n = rng.logsize(3, max) | 1;
            while (2..).take_while(|d| d * d <= n).any(|d| n % d == 0) {
                n -= 2;
                if n < 3 {
                    n = 3;
                    break;
                }
            }
            n
        }
        6 => {
            // 2^a 3^b 5^c
            let mut n = 1usize;
            loop {
                let f = *rng.pick(&[2usize, 3, 5]);
                if n * f > max || (n > 16 && rng.chance(1, 6)) {
                    break;
                }
                n *= f;
            }
            n.max(2)
        }
        7 => {
            let k = (max as f64).sqrt() as usize;
            let r = rng.range(2, k.max(3));
            r * r
        }
        _ => rng.logsize(1, max),
    }
}

/// A row that stands in some relation to the rows before it: the coincidences (equal or negated data,
/// equal energy, equal prefixes, unequal lengths) that independent draws never produce.
pub fn related_row<V: Copy>(rng: &mut Rng, rows: &[Vec<V>], fresh: Vec<V>, scale: impl Fn(V, f64) -> V) -> (&'static str, Vec<V>) {
    if rows.is_empty() || rng.chance(1, 3) {
        return ("fresh", fresh);
    }
    let b = rng.pick(rows).clone();
    let n = b.len();
    match rng.below(14) {
        0 => ("copy", b),
        1 => ("negated", b.iter().map(|&v| scale(v, -1.0)).collect()),
        2 => ("reversed", b.into_iter().rev().collect()),
        3 => {
            let mut b = b;
            for i in (1..n).rev() {
                let j = rng.below(i + 1);
                b.swap(i, j);
            }
            ("permuted", b)
        }
        4 if n > 0 => ("prefix", b[..rng.below(n)].to_vec()),
        5 => {
            let mut b = b;
            b.extend(fresh);
            b.truncate(2 * n + 8);
            ("extension", b)
        }
        6 => {
            let s = *rng.pick(&[2.0, 0.5, -3.0, 0.0]);
            ("scaled", b.iter().map(|&v| scale(v, s)).collect())
        }
        7 if n > 1 => {
            let mut b = b;
            b.rotate_left(rng.range(1, n - 1));
            ("rotated", b)
        }
        8 if n > 0 => {
            let mut b = b;
            let i = rng.below(n);
            b[i] = scale(b[i], *rng.pick(&[-1.0, 0.0, 2.0]));
            ("one sample changed", b)
        }
        9 if n > 0 => {
            // same ends, different inside
            let mut b = b;
            for v in b.iter_mut().take(n - 1).skip(1) {
                *v = scale(*v, -0.75);
            }
            ("same ends", b)
        }
        10 => ("silent", b.iter().map(|&v| scale(v, 0.0)).collect()),
        11 => {
            // alternate samples negated: equal energy, other spectrum
            ("modulated", b.iter().enumerate().map(|(i, &v)| if i % 2 == 0 { v } else { scale(v, -1.0) }).collect())
        }
        12 => ("empty", vec![]),
        _ if n > 0 => {
            let mut f: Vec<V> = b.clone();
            for (x, y) in f.iter_mut().zip(fresh) {
                *x = y;
            }
            ("same length", f)
        }
        _ => ("fresh", fresh),
    }
}
/// A batch of `k` rows around `x` (at the returned position), the others fresh or related to it.
pub fn related_rows<V: Copy>(rng: &mut Rng, x: Vec<V>, k: usize, mut fresh: impl FnMut(&mut Rng) -> Vec<V>, scale: impl Fn(V, f64) -> V + Copy) -> (usize, Vec<Vec<V>>) {
    let mut rows = vec![x];
    for _ in 1..k {
        let f = fresh(rng);
        let r = related_row(rng, &rows, f, scale).1;
        rows.push(r);
    }
    let pos = rng.below(k);
    rows.swap(0, pos);
    (pos, rows)
}

/// A row of exactly `n` values: fresh, or a variation of an earlier row of that length.
pub fn related_same<V: Copy>(rng: &mut Rng, rows: &[Vec<V>], fresh: Vec<V>, scale: impl Fn(V, f64) -> V + Copy) -> Vec<V> {
    let same: Vec<Vec<V>> = rows.iter().filter(|r| r.len() == fresh.len()).cloned().collect();
    let (_, r) = related_row(rng, &same, fresh.clone(), scale);
    if r.len() == fresh.len() {
        r
    } else {
        fresh
    }
}
/// Run on a thread of its own (no thread-local state), or right here.
pub fn elsewhere<R: Send>(away: bool, f: impl FnOnce() -> R + Send) -> R {
    if !away {
        return f();
    }
    std::thread::scope(|s| match s.spawn(f).join() {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    })
}
