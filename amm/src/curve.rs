//! Exact curves: what the pools would do with unlimited precision.

use svm::big::Big;

pub fn b(n: u64) -> Big {
    Big::from(n)
}

pub fn wad() -> Big {
    Big::pow10(18)
}

/// The reserves in units of 1e-18 of a token.
pub fn fine(x: &[u64]) -> Vec<Big> {
    let w = wad();
    x.iter().map(|v| &b(*v) * &w).collect()
}

pub fn product(x: &[Big]) -> Big {
    x.iter().fold(Big::one(), |a, v| &a * v)
}

pub fn sum(x: &[Big]) -> Big {
    x.iter().fold(Big::zero(), |a, v| &a + v)
}

/// The polynomial of the stable curve whose positive root is the invariant:
/// D^(n+1) + D (A n^n - 1) n^n P - A n^n S n^n P, for A the amplifier, S the sum
/// and P the product of the reserves.
struct Poly {
    n: u32,
    c1: Big,
    c0: Big,
}

impl Poly {
    fn new(amp: u64, x: &[Big]) -> Poly {
        let n = x.len() as u32;
        let nn = b((n as u64).pow(n));
        let np = &nn * &product(x);
        let ann = &b(amp) * &nn;
        Poly { n, c1: &(&ann - &Big::one()) * &np, c0: &(&ann * &np) * &sum(x) }
    }
    /// whether d is not above the root
    fn below(&self, d: &Big) -> bool {
        &d.pow(self.n + 1) + &(&self.c1 * d) <= self.c0
    }
}

/// The invariant, rounded down to the unit which the reserves are given in.
pub fn root(amp: u64, x: &[Big]) -> Big {
    if x.iter().any(|v| v.is_zero()) {
        return Big::zero();
    }
    let p = Poly::new(amp, x);
    let mut d = &sum(x) + &Big::one();
    // Newton from above, the polynomial is convex
    for _ in 0..400 {
        if p.below(&d) {
            break;
        }
        let f = &(&d.pow(p.n + 1) + &(&p.c1 * &d)) - &p.c0;
        let df = &(&b(p.n as u64 + 1) * &d.pow(p.n)) + &p.c1;
        let step = &f / &df;
        if step.is_zero() {
            break;
        }
        d = &d - &step;
    }
    while !p.below(&d) {
        d = &d - &Big::one();
    }
    loop {
        let up = &d + &Big::one();
        if !p.below(&up) {
            return d;
        }
        d = up;
    }
}

/// Whether the invariant of the reserves is at least d.
pub fn at_least(amp: u64, x: &[Big], d: &Big) -> bool {
    if x.iter().any(|v| v.is_zero()) {
        return d.is_zero();
    }
    Poly::new(amp, x).below(d)
}

/// The most that can be taken out of reserve `buy` (in whole tokens) so that
/// the invariant stays at least d.
pub fn most_out(amp: u64, x: &[u64], buy: usize, d: &Big) -> u64 {
    let (mut lo, mut hi) = (0, x[buy]);
    let mut z = fine(x);
    let w = wad();
    // lo is possible, hi is not
    z[buy] = &b(x[buy]) * &w;
    if !at_least(amp, &z, d) {
        return 0;
    }
    while lo + 1 < hi {
        let m = lo + (hi - lo) / 2;
        z[buy] = &b(x[buy] - m) * &w;
        if at_least(amp, &z, d) {
            lo = m;
        } else {
            hi = m;
        }
    }
    lo
}

/// The pool is balanced enough for the precision of the program: scaled down as
/// the program does, the product of reserves is well above the 1e-12 under which
/// it refuses to calculate.
pub fn balanced(x: &[u64]) -> bool {
    if x.iter().any(|v| *v == 0) {
        return false;
    }
    // the scale may be taken from the sum as well as from the invariant, which
    // is up to that much smaller
    let sum: u128 = x.iter().map(|v| *v as u128).sum();
    let mut exp = 0;
    let mut s = sum as f64;
    while s > 1000.0 {
        s /= 1000.0;
        exp += 1;
    }
    let p: f64 = x.iter().map(|v| *v as f64 / 1000f64.powi(exp)).product();
    p >= 1e-9 && s < 999.0 && (s > 1.001 || exp == 0)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn it_finds_roots() {
        let x = fine(&[100, 10]);
        let d = root(10, &x);
        // the example in the repository
        assert!(d.to_string().starts_with("105329"), "{}", d);
        for (amp, r) in [(1, vec![7, 9, 1_000_000]), (1000, vec![u64::MAX, 3]), (85, vec![5, 5, 5, 5])] {
            let x = fine(&r);
            let d = root(amp, &x);
            assert!(at_least(amp, &x, &d));
            assert!(!at_least(amp, &x, &(&d + &Big::one())));
        }
        assert_eq!(root(85, &fine(&[5, 5, 5, 5])), &b(20) * &wad());
    }
}
