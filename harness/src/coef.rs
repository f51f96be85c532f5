//! Coefficients <-> JSON.  Values are built from one() with the field operations and decoded with ==
//! against values built that way, so nothing here depends on the representation.
use crate::json::Val;
use phlite::fields::*;
use std::fmt::Debug;

pub trait Coef: Invertible + Debug + 'static {
    const P: i64;
    fn enc(v: &Val) -> Self;
    fn dec(self) -> Val;
    fn zero() -> Val;
}

pub fn times<C: NonZeroCoefficient>(n: u64) -> C {
    // n >= 1, double and add
    let mut acc: Option<C> = None;
    for bit in (0..64 - n.leading_zeros()).rev() {
        acc = match acc {
            Some(x) => x + x,
            None => None,
        };
        if (n >> bit) & 1 == 1 {
            acc = C::one() + acc;
        }
    }
    acc.expect("multiple of one vanished")
}

macro_rules! zp {
    ($t:ty, $p:expr) => {
        impl Coef for $t {
            const P: i64 = $p;
            fn enc(v: &Val) -> Self {
                let mut acc: Option<Self> = None;
                for _ in 0..v.int() {
                    acc = Self::one() + acc;
                }
                acc.expect("non-zero multiple of one vanished")
            }
            fn dec(self) -> Val {
                let mut acc = Self::one();
                for k in 1..$p {
                    if acc == self {
                        return Val::I(k);
                    }
                    match Self::one() + acc {
                        Some(x) => acc = x,
                        None => break,
                    }
                }
                Val::I(-1)
            }
            fn zero() -> Val {
                Val::I(0)
            }
        }
    };
}
zp!(Z2, 2);
zp!(Z3, 3);
zp!(Z5, 5);
zp!(Z7, 7);
zp!(Z11, 11);
zp!(Z13, 13);

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn mkq(n: i64, d: i64) -> Q {
    let num: Q = times(n.unsigned_abs());
    let den: Q = times(d as u64);
    let r = if d == 1 { num } else { num * den.mult_inverse() };
    if n < 0 {
        r.additive_inverse()
    } else {
        r
    }
}

thread_local! {
    static QTAB: std::cell::OnceCell<Vec<(i64, i64, Q)>> = const { std::cell::OnceCell::new() };
}

impl Coef for Q {
    const P: i64 = 0;
    fn enc(v: &Val) -> Self {
        let a = v.ints();
        mkq(a[0], a[1])
    }
    fn dec(self) -> Val {
        // Any two integers shown by Debug serve as a guess, == decides.
        let txt = format!("{self:?}");
        let mut nums = vec![];
        let mut cur = String::new();
        for ch in txt.chars().chain(" ".chars()) {
            if ch.is_ascii_digit() || (ch == '-' && cur.is_empty()) {
                cur.push(ch);
            } else {
                if let Ok(x) = cur.parse::<i64>() {
                    nums.push(x);
                }
                cur.clear();
            }
        }
        if nums.len() == 1 {
            nums.push(1);
        }
        if nums.len() >= 2 && nums[0] != 0 && nums[1] > 0 {
            let (n, d) = (nums[0], nums[1]);
            let g = gcd(n.unsigned_abs(), d as u64) as i64;
            let (n, d) = (n / g, d / g);
            if mkq(n, d) == self {
                return Val::A(vec![Val::I(n), Val::I(d)]);
            }
        }
        QTAB.with(|t| {
            let t = t.get_or_init(|| {
                let mut t = vec![];
                for d in 1..=40 {
                    for n in -40i64..=40 {
                        if n != 0 && gcd(n.unsigned_abs(), d as u64) == 1 {
                            t.push((n, d, mkq(n, d)));
                        }
                    }
                }
                t
            });
            for (n, d, q) in t {
                if *q == self {
                    return Val::A(vec![Val::I(*n), Val::I(*d)]);
                }
            }
            Val::A(vec![Val::I(0), Val::I(0)])
        })
    }
    fn zero() -> Val {
        Val::A(vec![Val::I(0), Val::I(1)])
    }
}

pub fn dec_opt<C: Coef>(c: Option<C>) -> Val {
    match c {
        Some(c) => c.dec(),
        None => C::zero(),
    }
}

#[macro_export]
macro_rules! with_cf {
    ($p:expr, $C:ident => $e:expr) => {
        match $p {
            2 => { type $C = phlite::fields::Z2; $e }
            3 => { type $C = phlite::fields::Z3; $e }
            5 => { type $C = phlite::fields::Z5; $e }
            7 => { type $C = phlite::fields::Z7; $e }
            11 => { type $C = phlite::fields::Z11; $e }
            13 => { type $C = phlite::fields::Z13; $e }
            0 => { type $C = phlite::fields::Q; $e }
            x => $crate::json::bad(&format!("field {x}")),
        }
    };
}
