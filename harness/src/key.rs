//! Index and filtration types <-> integers, by monotone maps (so that the integer order of the
//! specification is the Rust order of the type).
use ordered_float::NotNan;
use phlite::matrices::{BasisElement, FiltrationValue};
use std::cmp::Reverse;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Key: Ord + Clone + Debug + 'static {
    const OFF: i64 = 4000;
    fn enc(x: i64) -> Self;
    fn dec(&self) -> i64;
}

/// not the image of any number
const NONE: i64 = 2_000_000_000;

/// A user-supplied index type and a user-supplied filtration type.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Ix(pub i64);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Fv(pub i64);
impl BasisElement for Ix {}
impl FiltrationValue for Fv {}

/// A user type whose Ord is not the order of its representation and that is not Copy
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Name(pub String);
impl PartialOrd for Name {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Name {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.len().cmp(&o.0.len()).then(o.0.cmp(&self.0))
    }
}
impl BasisElement for Name {}
impl FiltrationValue for Name {}

impl Key for Name {
    fn enc(x: i64) -> Self {
        // length grows every 3, within a length the order is reversed
        let y = x + 300;
        Name(format!("{}{}", "k".repeat((y / 3) as usize), ["c", "b", "a"][(y % 3) as usize]))
    }
    fn dec(&self) -> i64 {
        let n = self.0.len() as i64 - 1;
        n * 3 + match self.0.as_bytes()[n as usize] { b'c' => 0, b'b' => 1, _ => 2 } - 300
    }
}
impl Key for Ix {
    fn enc(x: i64) -> Self {
        Ix(x)
    }
    fn dec(&self) -> i64 {
        self.0
    }
}
impl Key for Fv {
    fn enc(x: i64) -> Self {
        Fv(x)
    }
    fn dec(&self) -> i64 {
        self.0
    }
}
impl Key for usize {
    fn enc(x: i64) -> Self {
        usize::try_from(x).unwrap_or_else(|_| crate::json::bad("index out of range"))
    }
    fn dec(&self) -> i64 {
        *self as i64
    }
}
impl Key for isize {
    fn enc(x: i64) -> Self {
        (x as isize - 7) << 33
    }
    fn dec(&self) -> i64 {
        if *self & ((1 << 33) - 1) == 0 { (*self >> 33) as i64 + 7 } else { NONE }
    }
}
impl Key for NotNan<f64> {
    fn enc(x: i64) -> Self {
        // odd numbers are the neighbouring double of an even one
        let y = x.div_euclid(2) as f64 * 0.25 - 2.0;
        NotNan::new(if x & 1 == 1 { y.next_up() } else { y }).unwrap()
    }
    fn dec(&self) -> i64 {
        let v = self.into_inner();
        for (y, odd) in [(v, 0), (v.next_down(), 1)] {
            let k = (y + 2.0) * 4.0;
            if k.fract() == 0.0 && k / 4.0 - 2.0 == y {
                return k as i64 * 2 + odd;
            }
        }
        NONE
    }
}
impl Key for NotNan<f32> {
    fn enc(x: i64) -> Self {
        let y = x.div_euclid(2) as f32 * 0.5 - 1.0;
        NotNan::new(if x & 1 == 1 { y.next_up() } else { y }).unwrap()
    }
    fn dec(&self) -> i64 {
        let v = self.into_inner();
        for (y, odd) in [(v, 0), (v.next_down(), 1)] {
            let k = (y + 1.0) * 2.0;
            if k.fract() == 0.0 && k / 2.0 - 1.0 == y {
                return k as i64 * 2 + odd;
            }
        }
        NONE
    }
}
impl Key for () {
    const OFF: i64 = 0;
    fn enc(_x: i64) -> Self {}
    fn dec(&self) -> i64 {
        0
    }
}
impl<T: Key> Key for Reverse<T> {
    const OFF: i64 = T::OFF;
    fn enc(x: i64) -> Self {
        Reverse(T::enc(T::OFF - x))
    }
    fn dec(&self) -> i64 {
        T::OFF - self.0.dec()
    }
}
pub trait RKey: Key + BasisElement + Hash {}
impl<T: Key + BasisElement + Hash> RKey for T {}
pub trait FKey: Key + FiltrationValue {}
impl<T: Key + FiltrationValue> FKey for T {}

#[macro_export]
macro_rules! with_rt {
    ($s:expr, $R:ident => $e:expr) => {
        match $s {
            "usize" => { type $R = usize; $e }
            "isize" => { type $R = isize; $e }
            "rusize" => { type $R = std::cmp::Reverse<usize>; $e }
            "rrix" => { type $R = std::cmp::Reverse<std::cmp::Reverse<$crate::key::Ix>>; $e }
            "name" => { type $R = $crate::key::Name; $e }
            x => $crate::json::bad(&format!("row type {x}")),
        }
    };
}
#[macro_export]
macro_rules! with_ft {
    ($s:expr, $F:ident => $e:expr) => {
        match $s {
            "unit" => { type $F = (); $e }
            "usize" => { type $F = usize; $e }
            "isize" => { type $F = isize; $e }
            "f64" => { type $F = ordered_float::NotNan<f64>; $e }
            "f32" => { type $F = ordered_float::NotNan<f32>; $e }
            "rf64" => { type $F = std::cmp::Reverse<ordered_float::NotNan<f64>>; $e }
            "runit" => { type $F = std::cmp::Reverse<()>; $e }
            "name" => { type $F = $crate::key::Name; $e }
            x => $crate::json::bad(&format!("filtration type {x}")),
        }
    };
}
