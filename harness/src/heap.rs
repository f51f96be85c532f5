//! C02: programs over column heaps.
use crate::coef::Coef;
use crate::json::{bad, Val};
use crate::key::{FKey, RKey};
use crate::{with_cf, with_ft, with_rt, Rec};
use phlite::columns::{BHCol, ColumnEntry};

pub fn run(case: &Val, rec: &Rec) {
    let p = case.at("p").int();
    let (rt, ft) = (case.at("rt").str(), case.at("ft").str());
    if p == 3 || p == 2 {
        // the full product of types only for the two smallest fields
        if p == 2 {
            with_rt!(rt, R => with_ft!(ft, F => go::<phlite::fields::Z2, R, F>(case, rec)))
        } else {
            with_rt!(rt, R => with_ft!(ft, F => go::<phlite::fields::Z3, R, F>(case, rec)))
        }
    } else {
        with_cf!(p, C => go::<C, usize, ordered_float::NotNan<f64>>(case, rec))
    }
}

fn tup<C: Coef, R: RKey, F: FKey>(v: &Val) -> (C, R, F) {
    let a = v.arr();
    (C::enc(&a[0]), R::enc(a[1].int()), F::enc(a[2].int()))
}
pub fn ent<C: Coef, R: RKey, F: FKey>(e: ColumnEntry<F, R, C>) -> Val {
    let (c, r, f): (C, R, F) = e.into();
    Val::A(vec![c.dec(), Val::I(r.dec()), Val::I(f.dec())])
}
fn opt<C: Coef, R: RKey, F: FKey>(e: Option<ColumnEntry<F, R, C>>) -> Val {
    Val::A(e.into_iter().map(ent).collect())
}

fn go<C: Coef, R: RKey, F: FKey>(case: &Val, rec: &Rec) {
    let mut hs: Vec<BHCol<F, R, C>> = (0..case.at("nh").us()).map(|_| BHCol::default()).collect();
    for e in case.at("ev").arr() {
        let h = e.at("h").us() - 1;
        match e.at("op").str() {
            "add" => {
                // one entry, as an entry or as a tuple
                let t = tup::<C, R, F>(e.at("t"));
                if e.at("via").str() == "entry" {
                    hs[h].add_entry(t.into());
                } else {
                    hs[h].add_tuple(t);
                }
                rec.ev(e.clone());
            }
            "adds" => {
                let ts: Vec<(C, R, F)> = e.at("ts").arr().iter().map(tup).collect();
                match e.at("via").str() {
                    "entries" => hs[h].add_entries(ts.into_iter().map(ColumnEntry::from)),
                    "filtered" => {
                        // an iterator without a useful size hint
                        let k = ts.len() as i64;
                        hs[h].add_entries(crate::hint::hinted(ts.into_iter().map(ColumnEntry::from), k))
                    }
                    _ => hs[h].add_tuples(ts),
                }
                rec.ev(e.clone());
            }
            "addsc" => {
                // entries scaled on the way in, as the reduction does
                let ts: Vec<(C, R, F)> = e.at("ts").arr().iter().map(tup).collect();
                let c = C::enc(e.at("c"));
                hs[h].add_entries(ts.into_iter().map(|t| ColumnEntry::from(t) * c));
                rec.ev(e.clone());
            }
            "pop" => {
                let r = hs[h].pop_pivot();
                rec.res(e, opt(r));
            }
            "clone" => {
                let r = hs[h].clone_pivot();
                rec.res(e, opt(r));
            }
            "peek" => {
                let r = hs[h].peek_pivot().cloned();
                rec.res(e, opt(r));
            }
            "drain" => {
                let k = e.at("n").us();
                let r: Vec<Val> = hs[h].drain_sorted().take(k).map(ent).collect();
                rec.res(e, Val::A(r));
            }
            "vec" => {
                let r: Vec<Val> = std::mem::take(&mut hs[h]).to_sorted_vec().into_iter().map(ent).collect();
                rec.res(e, Val::A(r));
            }
            "copy" => {
                hs[h] = hs[e.at("from").us() - 1].clone();
                rec.ev(e.clone());
            }
            "scale" => {
                let x = ColumnEntry::from(tup::<C, R, F>(e.at("t")));
                let r = x * C::enc(e.at("c"));
                rec.res(e, Val::A(vec![ent(r)]));
            }
            "cmp" => {
                // comparison operators of entries: ==, <, <=, and the ordering as -1, 0, 1
                let a = ColumnEntry::from(tup::<C, R, F>(e.at("a")));
                let b = ColumnEntry::from(tup::<C, R, F>(e.at("b")));
                let o = a.cmp(&b) as i64;
                let same = a.partial_cmp(&b) == Some(a.cmp(&b));
                rec.res(e, Val::A(vec![Val::B(a == b), Val::B(a < b), Val::B(a >= b), Val::I(o), Val::B(same)]));
            }
            o => bad(o),
        }
    }
}
