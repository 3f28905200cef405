//! Offline stand-in for `aldrin-exchange/solana-decimal` tag 0.4.0.
//!
//! The real crate is a git dependency that this sandbox cannot fetch. This
//! implements the documented contract which the repository relies upon, and
//! which the repository's own unit tests pin down to the last digit: a
//! non-negative fixed point number with 18 decimal places stored as an
//! unsigned 192-bit integer, whose operations truncate, use a wide
//! intermediate product, and fail with an error (never wrap) if the result
//! does not fit.

use anchor_lang::prelude::*;
use std::fmt;

#[error_code]
pub enum ErrorCode {
    #[msg("Math operation with overflow/underflow/division by zero")]
    MathOverflow,
}

/// Scale of precision
pub const SCALE: usize = 18;
/// Identity
pub const WAD: u64 = 1_000_000_000_000_000_000;
pub const HALF_WAD: u64 = WAD / 2;

pub trait TrySub<RHS = Self>: Sized {
    fn try_sub(self, rhs: RHS) -> Result<Self>;
}
pub trait TryAdd<RHS = Self>: Sized {
    fn try_add(self, rhs: RHS) -> Result<Self>;
}
pub trait TryDiv<RHS>: Sized {
    fn try_div(self, rhs: RHS) -> Result<Self>;
}
pub trait TryMul<RHS>: Sized {
    fn try_mul(self, rhs: RHS) -> Result<Self>;
}
pub trait TryPow<RHS>: Sized {
    fn try_pow(self, rhs: RHS) -> Result<Self>;
}
pub trait TrySqrt: Sized {
    fn try_sqrt(self) -> Result<Self>;
}
pub trait TryRound<T> {
    fn try_floor(&self) -> Result<T>;
    fn try_ceil(&self) -> Result<T>;
    fn try_round(&self) -> Result<T>;
}
pub trait AlmostEq {
    fn almost_eq(&self, other: &Self, precision: u32) -> bool;
}
pub trait ScaledVal {
    fn to_scaled_val(&self) -> Result<u128>;
}

// ---------------------------------------------------------------- limb helpers

const MAXL: usize = 12;

fn overflow<T>() -> Result<T> {
    Err(error!(ErrorCode::MathOverflow))
}

/// Number of significant limbs.
fn sig(a: &[u64]) -> usize {
    let mut n = a.len();
    while n > 0 && a[n - 1] == 0 {
        n -= 1;
    }
    n
}

fn cmp_limbs(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
    let n = a.len().max(b.len());
    for i in (0..n).rev() {
        let x = a.get(i).copied().unwrap_or(0);
        let y = b.get(i).copied().unwrap_or(0);
        if x != y {
            return x.cmp(&y);
        }
    }
    std::cmp::Ordering::Equal
}

fn mul_limbs(a: &[u64], b: &[u64]) -> [u64; MAXL] {
    let mut out = [0u64; MAXL];
    let (na, nb) = (sig(a), sig(b));
    for i in 0..na {
        let mut carry = 0u128;
        for j in 0..nb {
            let t = (a[i] as u128) * (b[j] as u128) + out[i + j] as u128 + carry;
            out[i + j] = t as u64;
            carry = t >> 64;
        }
        out[i + nb] = carry as u64;
    }
    out
}

fn div_small(a: &[u64; MAXL], d: u64) -> ([u64; MAXL], u64) {
    let mut q = [0u64; MAXL];
    let mut rem = 0u128;
    for i in (0..sig(a)).rev() {
        let cur = (rem << 64) | a[i] as u128;
        q[i] = (cur / d as u128) as u64;
        rem = cur % d as u128;
    }
    (q, rem as u64)
}

/// Knuth's algorithm D.
fn div_limbs(num: &[u64; MAXL], den: &[u64]) -> [u64; MAXL] {
    let n = sig(den);
    let m = sig(num);
    debug_assert!(n > 0);
    if m < n || cmp_limbs(num, den) == std::cmp::Ordering::Less {
        return [0; MAXL];
    }
    if n == 1 {
        return div_small(num, den[0]).0;
    }
    let s = den[n - 1].leading_zeros();
    let shl = |a: &[u64], i: usize| -> u64 {
        let cur = a.get(i).copied().unwrap_or(0);
        if s == 0 {
            cur
        } else {
            let lo = if i > 0 { a.get(i - 1).copied().unwrap_or(0) >> (64 - s) } else { 0 };
            (cur << s) | lo
        }
    };
    let mut v = [0u64; MAXL];
    for i in 0..n {
        v[i] = shl(&den[..n], i);
    }
    let mut u = [0u64; MAXL + 1];
    for (i, slot) in u.iter_mut().enumerate().take(m + 1) {
        *slot = shl(&num[..m], i);
    }
    let mut q = [0u64; MAXL];
    let b = 1u128 << 64;
    for j in (0..=(m - n)).rev() {
        let top = ((u[j + n] as u128) << 64) | u[j + n - 1] as u128;
        let mut qhat = top / v[n - 1] as u128;
        let mut rhat = top % v[n - 1] as u128;
        while qhat >= b || qhat * v[n - 2] as u128 > ((rhat << 64) | u[j + n - 2] as u128) {
            qhat -= 1;
            rhat += v[n - 1] as u128;
            if rhat >= b {
                break;
            }
        }
        let mut borrow: i128 = 0;
        let mut carry: u128 = 0;
        for i in 0..n {
            let p = qhat * v[i] as u128 + carry;
            carry = p >> 64;
            let t = u[i + j] as i128 - borrow - (p as u64) as i128;
            u[i + j] = t as u64;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i128 - borrow - carry as i128;
        u[j + n] = t as u64;
        if t < 0 {
            qhat -= 1;
            let mut c = 0u128;
            for i in 0..n {
                let t = u[i + j] as u128 + v[i] as u128 + c;
                u[i + j] = t as u64;
                c = t >> 64;
            }
            u[j + n] = u[j + n].wrapping_add(c as u64);
        }
        q[j] = qhat as u64;
    }
    q
}

fn bits(a: &[u64]) -> u32 {
    let n = sig(a);
    if n == 0 {
        0
    } else {
        n as u32 * 64 - a[n - 1].leading_zeros()
    }
}

/// floor(sqrt(a))
fn isqrt(a: &[u64; MAXL]) -> [u64; MAXL] {
    if sig(a) == 0 {
        return [0; MAXL];
    }
    // x0 = 2^ceil(bits/2) >= sqrt(a); the iteration decreases until the floor
    let e = (bits(a) + 1) / 2;
    let mut x = [0u64; MAXL];
    x[(e / 64) as usize] = 1 << (e % 64);
    loop {
        let q = div_limbs(a, &x);
        let mut sum = [0u64; MAXL];
        let mut c = 0u128;
        for i in 0..MAXL {
            let t = x[i] as u128 + q[i] as u128 + c;
            sum[i] = t as u64;
            c = t >> 64;
        }
        for i in 0..MAXL {
            let hi = if i + 1 < MAXL { sum[i + 1] & 1 } else { 0 };
            sum[i] = (sum[i] >> 1) | (hi << 63);
        }
        if cmp_limbs(&sum, &x) != std::cmp::Ordering::Less {
            return x;
        }
        x = sum;
    }
}

macro_rules! decimal {
    ($uint:ident, $dec:ident, $n:expr) => {
        /// Little-endian limbs.
        #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
        pub struct $uint(pub [u64; $n]);

        impl PartialOrd for $uint {
            fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
                Some(self.cmp(other))
            }
        }
        impl Ord for $uint {
            fn cmp(&self, other: &Self) -> std::cmp::Ordering {
                cmp_limbs(&self.0, &other.0)
            }
        }
        impl From<u128> for $uint {
            fn from(v: u128) -> Self {
                let mut l = [0u64; $n];
                l[0] = v as u64;
                l[1] = (v >> 64) as u64;
                Self(l)
            }
        }
        impl From<u64> for $uint {
            fn from(v: u64) -> Self {
                Self::from(v as u128)
            }
        }
        impl $uint {
            fn fit(w: [u64; MAXL]) -> Result<Self> {
                if sig(&w) > $n {
                    return overflow();
                }
                let mut l = [0u64; $n];
                l.copy_from_slice(&w[..$n]);
                Ok(Self(l))
            }
            fn wide(&self) -> [u64; MAXL] {
                let mut w = [0u64; MAXL];
                w[..$n].copy_from_slice(&self.0);
                w
            }
            pub fn is_zero(&self) -> bool {
                sig(&self.0) == 0
            }
            pub fn as_u128(&self) -> Option<u128> {
                if sig(&self.0) > 2 {
                    None
                } else {
                    Some(self.0[0] as u128 | (self.0[1] as u128) << 64)
                }
            }
        }

        /// Large decimal values, precise to 18 digits
        #[derive(Copy, Clone, Debug, Default, PartialEq, PartialOrd, Eq, Ord, Hash)]
        pub struct $dec(pub $uint);

        impl $dec {
            pub fn one() -> Self {
                Self($uint::from(WAD))
            }
            pub fn zero() -> Self {
                Self($uint::default())
            }
            pub fn from_percent(percent: u64) -> Self {
                Self($uint::from(percent as u128 * (WAD / 100) as u128))
            }
            pub fn from_permillion(permillion: u64) -> Self {
                Self($uint::from(permillion as u128 * (WAD / 1_000_000) as u128))
            }
            /// Create scaled decimal from value scaled by WAD
            pub fn from_scaled_val(scaled_val: u128) -> Self {
                Self($uint::from(scaled_val))
            }
            fn rounded(&self, add: u64) -> Result<u64> {
                let mut w = self.0.wide();
                let mut c = add as u128;
                for l in w.iter_mut() {
                    let t = *l as u128 + c;
                    *l = t as u64;
                    c = t >> 64;
                    if c == 0 {
                        break;
                    }
                }
                let (q, _) = div_small(&w, WAD);
                if sig(&q) > 1 {
                    return overflow();
                }
                Ok(q[0])
            }
        }

        impl From<u64> for $dec {
            fn from(v: u64) -> Self {
                Self($uint::from(v as u128 * WAD as u128))
            }
        }
        impl From<u128> for $dec {
            fn from(v: u128) -> Self {
                let w = mul_limbs(&[v as u64, (v >> 64) as u64], &[WAD]);
                // 128 + 60 bits
                let mut l = [0u64; $n];
                l.copy_from_slice(&w[..$n]);
                Self($uint(l))
            }
        }
        impl TryAdd for $dec {
            fn try_add(self, rhs: Self) -> Result<Self> {
                let mut out = [0u64; $n];
                let mut c = false;
                for i in 0..$n {
                    let (a, x) = self.0 .0[i].overflowing_add(rhs.0 .0[i]);
                    let (a, y) = a.overflowing_add(c as u64);
                    out[i] = a;
                    c = x || y;
                }
                if c {
                    return overflow();
                }
                Ok(Self($uint(out)))
            }
        }
        impl TrySub for $dec {
            fn try_sub(self, rhs: Self) -> Result<Self> {
                let mut out = [0u64; $n];
                let mut c = false;
                for i in 0..$n {
                    let (a, x) = self.0 .0[i].overflowing_sub(rhs.0 .0[i]);
                    let (a, y) = a.overflowing_sub(c as u64);
                    out[i] = a;
                    c = x || y;
                }
                if c {
                    return overflow();
                }
                Ok(Self($uint(out)))
            }
        }
        impl TryMul<u64> for $dec {
            fn try_mul(self, rhs: u64) -> Result<Self> {
                Ok(Self($uint::fit(mul_limbs(&self.0 .0, &[rhs]))?))
            }
        }
        impl TryMul<$dec> for $dec {
            fn try_mul(self, rhs: Self) -> Result<Self> {
                let w = mul_limbs(&self.0 .0, &rhs.0 .0);
                Ok(Self($uint::fit(div_small(&w, WAD).0)?))
            }
        }
        impl TryDiv<u64> for $dec {
            fn try_div(self, rhs: u64) -> Result<Self> {
                if rhs == 0 {
                    return overflow();
                }
                Ok(Self($uint::fit(div_small(&self.0.wide(), rhs).0)?))
            }
        }
        impl TryDiv<$dec> for $dec {
            fn try_div(self, rhs: Self) -> Result<Self> {
                if rhs.0.is_zero() {
                    return overflow();
                }
                let w = mul_limbs(&self.0 .0, &[WAD]);
                Ok(Self($uint::fit(div_limbs(&w, &rhs.0 .0))?))
            }
        }
        impl TryPow<u64> for $dec {
            /// Exponentiation by squaring.
            fn try_pow(self, mut exp: u64) -> Result<Self> {
                let mut base = self;
                let mut ret = if exp % 2 != 0 { base } else { Self::one() };
                while exp > 1 {
                    exp /= 2;
                    base = base.try_mul(base)?;
                    if exp % 2 != 0 {
                        ret = ret.try_mul(base)?;
                    }
                }
                Ok(ret)
            }
        }
        impl TrySqrt for $dec {
            fn try_sqrt(self) -> Result<Self> {
                let w = mul_limbs(&self.0 .0, &[WAD]);
                Ok(Self($uint::fit(isqrt(&w))?))
            }
        }
        impl TryRound<u64> for $dec {
            fn try_floor(&self) -> Result<u64> {
                self.rounded(0)
            }
            fn try_ceil(&self) -> Result<u64> {
                self.rounded(WAD - 1)
            }
            fn try_round(&self) -> Result<u64> {
                self.rounded(HALF_WAD)
            }
        }
        impl ScaledVal for $dec {
            fn to_scaled_val(&self) -> Result<u128> {
                self.0.as_u128().ok_or_else(|| error!(ErrorCode::MathOverflow))
            }
        }
        impl AlmostEq for $dec {
            /// Equal up to the given number of the least significant decimal
            /// places.
            fn almost_eq(&self, other: &Self, precision: u32) -> bool {
                let diff = if self > other { self.try_sub(*other) } else { other.try_sub(*self) };
                match diff.map(|d| d.0.as_u128()) {
                    Ok(Some(d)) => d < 10u128.pow(precision),
                    _ => false,
                }
            }
        }
        impl fmt::Display for $dec {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let mut w = self.0.wide();
                let mut digits = vec![];
                while sig(&w) > 0 {
                    let (q, r) = div_small(&w, 10);
                    digits.push(b'0' + r as u8);
                    w = q;
                }
                while digits.len() <= SCALE {
                    digits.push(b'0');
                }
                digits.reverse();
                let s = String::from_utf8(digits).unwrap();
                let (int, frac) = s.split_at(s.len() - SCALE);
                write!(f, "{}.{}", int, frac)
            }
        }
    };
}

decimal!(U192, Decimal, 3);
decimal!(U320, LargeDecimal, 5);

impl From<Decimal> for LargeDecimal {
    fn from(d: Decimal) -> Self {
        let l = d.0 .0;
        Self(U320([l[0], l[1], l[2], 0, 0]))
    }
}

impl std::convert::TryFrom<LargeDecimal> for Decimal {
    type Error = anchor_lang::error::Error;
    fn try_from(d: LargeDecimal) -> Result<Self> {
        Ok(Self(U192::fit(d.0.wide())?))
    }
}
