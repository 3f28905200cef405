//! Exact unsigned integers, with 32-bit limbs.

use std::cmp::Ordering;
use std::fmt;
use std::ops::{Add, Div, Mul, Rem, Sub};

#[derive(Clone, PartialEq, Eq, Default, Hash)]
pub struct Big(Vec<u32>);

impl Big {
    pub fn zero() -> Self {
        Big(vec![])
    }
    pub fn one() -> Self {
        Big(vec![1])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    fn trim(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn bits(&self) -> u32 {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() as u32 * 32 - t.leading_zeros(),
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        self.0.get((i / 32) as usize).map(|l| l >> (i % 32) & 1 == 1).unwrap_or(false)
    }
    pub fn pow10(n: u32) -> Self {
        let mut r = Big::one();
        for _ in 0..n {
            r = &r * &Big::from(10u64);
        }
        r
    }
    pub fn pow(&self, n: u32) -> Self {
        let mut r = Big::one();
        for _ in 0..n {
            r = &r * self;
        }
        r
    }
    pub fn shl(&self, n: u32) -> Self {
        if self.is_zero() {
            return self.clone();
        }
        let (w, b) = ((n / 32) as usize, n % 32);
        let mut v = vec![0u32; w];
        let mut c = 0u64;
        for l in &self.0 {
            let t = (*l as u64) << b | c;
            v.push(t as u32);
            c = t >> 32;
        }
        v.push(c as u32);
        Big(v).trim()
    }
    pub fn shr(&self, n: u32) -> Self {
        let (w, b) = ((n / 32) as usize, n % 32);
        if w >= self.0.len() {
            return Big::zero();
        }
        let mut v = Vec::with_capacity(self.0.len() - w);
        for i in w..self.0.len() {
            let hi = self.0.get(i + 1).copied().unwrap_or(0) as u64;
            v.push(((self.0[i] as u64 | hi << 32) >> b) as u32);
        }
        Big(v).trim()
    }
    pub fn checked_sub(&self, o: &Big) -> Option<Big> {
        if (&*self).cmp(o) == Ordering::Less {
            return None;
        }
        let mut v = self.0.clone();
        let mut borrow = 0i64;
        for i in 0..v.len() {
            let t = v[i] as i64 - o.0.get(i).copied().unwrap_or(0) as i64 - borrow;
            v[i] = t as u32;
            borrow = (t < 0) as i64;
        }
        Some(Big(v).trim())
    }
    pub fn sat_sub(&self, o: &Big) -> Big {
        self.checked_sub(o).unwrap_or_default()
    }
    /// Quotient and remainder.
    pub fn div_rem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero(), "oracle divides by zero");
        if (&*self).cmp(d) == Ordering::Less {
            return (Big::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let mut q = vec![0u32; self.0.len()];
            let mut r = 0u64;
            for i in (0..self.0.len()).rev() {
                let cur = r << 32 | self.0[i] as u64;
                q[i] = (cur / d.0[0] as u64) as u32;
                r = cur % d.0[0] as u64;
            }
            return (Big(q).trim(), Big::from(r));
        }
        // Knuth D on 32-bit limbs
        let s = d.0.last().unwrap().leading_zeros();
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        let n = v.len();
        while u.len() < self.0.len() + 1 {
            u.push(0);
        }
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        for j in (0..=m).rev() {
            let top = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
            let mut qh = top / v[n - 1] as u64;
            let mut rh = top % v[n - 1] as u64;
            while qh >> 32 != 0 || qh * v[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >> 32 != 0 {
                    break;
                }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + carry;
                carry = p >> 32;
                let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
                u[i + j] = t as u32;
                borrow = (t < 0) as i64;
            }
            let t = u[j + n] as i64 - borrow - carry as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = t as u32;
                    c = t >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        (Big(q).trim(), Big(u).trim().shr(s))
    }
    pub fn div_ceil(&self, d: &Big) -> Big {
        let (q, r) = self.div_rem(d);
        if r.is_zero() {
            q
        } else {
            &q + &Big::one()
        }
    }
    /// floor(sqrt(self))
    pub fn isqrt(&self) -> Big {
        if self.is_zero() {
            return Big::zero();
        }
        let mut x = Big::one().shl((self.bits() + 1) / 2);
        loop {
            let y = (&x + &(self / &x)).shr(1);
            if y >= x {
                return x;
            }
            x = y;
        }
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.0.len() > 4 {
            return None;
        }
        Some(self.0.iter().enumerate().map(|(i, l)| (*l as u128) << (32 * i)).sum())
    }
    pub fn to_u64(&self) -> Option<u64> {
        self.to_u128().and_then(|v| u64::try_from(v).ok())
    }
    pub fn to_f64(&self) -> f64 {
        self.0.iter().rev().fold(0f64, |a, l| a * 4294967296.0 + *l as f64)
    }
    pub fn from_limbs64(l: &[u64]) -> Self {
        Big(l.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect()).trim()
    }
    pub fn abs_diff(&self, o: &Big) -> Big {
        if self >= o {
            self.sat_sub(o)
        } else {
            o.sat_sub(self)
        }
    }
}

impl From<u64> for Big {
    fn from(v: u64) -> Self {
        Big(vec![v as u32, (v >> 32) as u32]).trim()
    }
}
impl From<u128> for Big {
    fn from(v: u128) -> Self {
        Big((0..4).map(|i| (v >> (32 * i)) as u32).collect()).trim()
    }
}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0
            .len()
            .cmp(&o.0.len())
            .then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}
impl<'a> Add<&'a Big> for &Big {
    type Output = Big;
    fn add(self, o: &Big) -> Big {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            let t = self.0.get(i).copied().unwrap_or(0) as u64
                + o.0.get(i).copied().unwrap_or(0) as u64
                + c;
            v.push(t as u32);
            c = t >> 32;
        }
        v.push(c as u32);
        Big(v).trim()
    }
}
impl<'a> Sub<&'a Big> for &Big {
    type Output = Big;
    fn sub(self, o: &Big) -> Big {
        self.checked_sub(o).expect("oracle subtraction underflow")
    }
}
impl<'a> Mul<&'a Big> for &Big {
    type Output = Big;
    fn mul(self, o: &Big) -> Big {
        let mut v = vec![0u32; self.0.len() + o.0.len()];
        for (i, a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, b) in o.0.iter().enumerate() {
                let t = *a as u64 * *b as u64 + v[i + j] as u64 + c;
                v[i + j] = t as u32;
                c = t >> 32;
            }
            v[i + o.0.len()] = c as u32;
        }
        Big(v).trim()
    }
}
impl<'a> Div<&'a Big> for &Big {
    type Output = Big;
    fn div(self, o: &Big) -> Big {
        self.div_rem(o).0
    }
}
impl<'a> Rem<&'a Big> for &Big {
    type Output = Big;
    fn rem(self, o: &Big) -> Big {
        self.div_rem(o).1
    }
}
impl fmt::Display for Big {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.is_zero() {
            return write!(f, "0");
        }
        let mut parts = vec![];
        let mut x = self.clone();
        let d = Big::from(1_000_000_000u64);
        while !x.is_zero() {
            let (q, r) = x.div_rem(&d);
            parts.push(r.to_u64().unwrap());
            x = q;
        }
        write!(f, "{}", parts.pop().unwrap())?;
        for p in parts.iter().rev() {
            write!(f, "{:09}", p)?;
        }
        Ok(())
    }
}
impl fmt::Debug for Big {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use proptest::prelude::*;
    proptest! {
        #[test]
        fn div(a in prop::collection::vec(prop_oneof![any::<u32>(), Just(u32::MAX), Just(0)], 0..12),
               b in prop::collection::vec(prop_oneof![any::<u32>(), Just(u32::MAX), Just(0)], 1..8)) {
            let (a, b) = (Big(a).trim(), Big(b).trim());
            prop_assume!(!b.is_zero());
            let (q, r) = a.div_rem(&b);
            prop_assert!(r < b);
            prop_assert_eq!(&(&q * &b) + &r, a.clone());
            let s = a.isqrt();
            prop_assert!(&s * &s <= a);
            let s1 = &s + &Big::one();
            prop_assert!(&s1 * &s1 > a);
            prop_assert_eq!(a.shl(45).shr(45), a);
        }
        #[test]
        fn small(a in any::<u128>(), b in 1u128..) {
            prop_assert_eq!((&Big::from(a) / &Big::from(b)).to_u128(), Some(a / b));
            prop_assert_eq!(Big::from(a).to_string(), a.to_string());
        }
    }
}
