//! Number and interval generators.

use crate::engine::Src;
use num::Float;
use std::fmt::{Debug, Display};

pub trait Fl:
    Float + Debug + Display + rand::distributions::uniform::SampleUniform + std::iter::Sum + 'static
{
    const NAME: &'static str;
    const EPS: f64;
    const TINY: f64; // smallest normal
    const MANT: u32;
    fn bits(self) -> u64;
    fn from_b(b: u64) -> Self;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    const WIDTH: u32;
}

impl Fl for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const TINY: f64 = f32::MIN_POSITIVE as f64;
    const MANT: u32 = 23;
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_b(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
    fn of(x: f64) -> Self {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    const WIDTH: u32 = 32;
}

impl Fl for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = f64::MIN_POSITIVE;
    const MANT: u32 = 52;
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn from_b(b: u64) -> Self {
        f64::from_bits(b)
    }
    fn of(x: f64) -> Self {
        x
    }
    fn f(self) -> f64 {
        self
    }
    const WIDTH: u32 = 64;
}

/// Same number: equal bits, or both NaN.
pub fn same<T: Fl>(a: T, b: T) -> bool {
    a.bits() == b.bits() || (a.is_nan() && b.is_nan())
}

pub fn same_vec<T: Fl>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y))
}

/// Next representable number towards +inf.
pub fn up<T: Fl>(x: T) -> T {
    if x.is_nan() || x == T::infinity() {
        return x;
    }
    if x.is_zero() {
        return T::from_b(1);
    }
    let b = x.bits();
    if x > T::zero() {
        T::from_b(b + 1)
    } else {
        T::from_b(b - 1)
    }
}

pub fn down<T: Fl>(x: T) -> T {
    -up(-x)
}

/// A unit number with a coarse simplest value 0.
pub fn unit(s: &mut Src) -> f64 {
    s.n(1 << 30) as f64 / (1u64 << 30) as f64
}

/// Moderate finite number.
pub fn moderate<T: Fl>(s: &mut Src) -> T {
    match s.weighted(&[4, 3, 3]) {
        0 => T::of(s.r(0, 20) as f64 - if s.flag() { 0.0 } else { 10.0 }),
        1 => T::of((unit(s) - 0.5) * 200.0),
        _ => {
            let e = s.r(0, 40) as i32 - 20;
            let m = 1.0 + unit(s);
            let v = m * (2f64).powi(e);
            T::of(if s.flag() { -v } else { v })
        }
    }
}

/// Any finite number, all magnitudes.
pub fn finite<T: Fl>(s: &mut Src) -> T {
    match s.weighted(&[6, 2, 2]) {
        0 => moderate(s),
        1 => *s.pick(&[
            T::zero(),
            -T::zero(),
            T::of(T::TINY),
            -T::of(T::TINY),
            T::from_b(1),
            -T::from_b(1),
            T::max_value(),
            T::min_value(),
            T::of(T::EPS),
            T::one() + T::of(T::EPS),
            T::one() - T::of(T::EPS / 2.0),
        ]),
        _ => {
            let v = T::from_b(s.word() & if T::WIDTH == 32 { 0xffff_ffff } else { u64::MAX });
            if v.is_finite() {
                v
            } else {
                T::from_b(v.bits() & !(1u64 << T::MANT))
            }
        }
    }
}

/// Any number including NaN and infinities.
pub fn any<T: Fl>(s: &mut Src) -> T {
    if s.chance(15) {
        *s.pick(&[T::nan(), T::infinity(), T::neg_infinity(), -T::nan()])
    } else {
        finite(s)
    }
}

/// Interval with lo < hi and finite width.
pub fn interval<T: Fl>(s: &mut Src) -> (T, T) {
    let r = match s.weighted(&[3, 3, 3, 2, 2, 1, 1]) {
        0 => (T::of(0.0), T::of(s.r(1, 10) as f64)),
        1 => {
            let a = s.r(1, 1000) as f64 / 8.0;
            (T::of(-a), T::of(a))
        }
        2 => {
            let c: T = moderate(s);
            let w: T = moderate::<T>(s).abs();
            (c, c + w)
        }
        3 => {
            // few ulps wide
            let c: T = moderate(s);
            let mut h = c;
            for _ in 0..s.r(1, 4) {
                h = up(h);
            }
            (c, h)
        }
        4 => {
            let e = s.r(0, if T::WIDTH == 32 { 200 } else { 1600 }) as i32 - if T::WIDTH == 32 { 100 } else { 800 };
            let sc = (2f64).powi(e);
            let lo = T::of((unit(s) - 0.5) * sc);
            let hi = T::of((unit(s) + 0.5) * sc);
            (lo, hi)
        }
        5 => {
            let m = T::max_value() / T::of(4.0);
            (-m, m)
        }
        _ => {
            let c = T::of(-(s.r(1, 1000) as f64));
            (c, c / T::of(2.0))
        }
    };
    let (lo, hi) = r;
    if lo < hi && (hi - lo).is_finite() && lo.is_finite() && hi.is_finite() {
        (lo, hi)
    } else {
        (T::zero(), T::one())
    }
}

/// Interval of ordinary size.
pub fn plain_interval<T: Fl>(s: &mut Src) -> (T, T) {
    match s.weighted(&[3, 3, 3]) {
        0 => (T::of(0.0), T::of(s.r(1, 10) as f64)),
        1 => {
            let a = s.r(1, 1000) as f64 / 8.0;
            (T::of(-a), T::of(a))
        }
        _ => {
            let c = T::of(s.r(0, 400) as f64 / 4.0 - 50.0);
            let w = T::of(s.r(1, 400) as f64 / 4.0);
            (c, c + w)
        }
    }
}

/// A coordinate related to an interval: inside, on, next to and outside the bounds.
pub fn around<T: Fl>(s: &mut Src, iv: (T, T)) -> T {
    match s.weighted(&[6, 2, 2, 2, 2, 3, 2]) {
        0 => {
            let v = iv.0 + (iv.1 - iv.0) * T::of(unit(s));
            if v >= iv.0 && v <= iv.1 {
                v
            } else {
                iv.0
            }
        }
        1 => iv.0,
        2 => iv.1,
        3 => down(iv.0),
        4 => up(iv.1),
        5 => any(s),
        _ => {
            if s.flag() {
                iv.1 + (iv.1 - iv.0)
            } else {
                iv.0 - (iv.1 - iv.0)
            }
        }
    }
}

/// Distinct values in ascending order: far apart, or next to each other.
pub fn ladder(s: &mut Src, n: usize) -> Vec<f64> {
    let base = *s.pick(&[1.0, -1.0, 1000.0, 1e300, -1e300, 1e-300, 0.0]);
    let style = s.n(5);
    let mut x: f64 = base;
    (0..n)
        .map(|i| match style {
            0 => i as f64 - 1.5,
            1 => {
                x = up(x);
                x
            }
            2 => base + (i as f64 + 1.0) * base.abs().max(1e-300) * 1e-12,
            3 => (i as f64 - n as f64 / 2.0) * 1e-14,
            _ => (i as f64 - n as f64 / 2.0) * 1e305,
        })
        .collect()
}

/// A pool of goal values with ties and specials. `hostile` admits NaN and infinities.
pub fn goal_pool(s: &mut Src, hostile: bool) -> Vec<f64> {
    let n = s.size(1, 64);
    let mut v = Vec::with_capacity(n);
    let style = s.n(5);
    if style == 4 {
        // neighbours, in any order
        let mut v = ladder(s, n);
        for i in (1..n).rev() {
            v.swap(i, s.n(i as u64 + 1) as usize);
        }
        return v;
    }
    for i in 0..n {
        let x = match style {
            0 => s.n(6) as f64,
            1 => {
                if hostile && s.chance(25) {
                    *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN])
                } else {
                    s.n(2000) as f64 - 1000.0
                }
            }
            2 => {
                if hostile {
                    any::<f64>(s)
                } else {
                    finite::<f64>(s)
                }
            }
            _ => 1.0 + i as f64,
        };
        v.push(x);
    }
    v
}
