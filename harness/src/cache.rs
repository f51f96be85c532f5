//! C05: caches under live iterators.
use crate::coef::Coef;
use crate::json::{bad, Val};
use crate::key::{Fv, Ix};
use crate::lazy::*;
use crate::{with_cf, Rec};
use phlite::matrices::adaptors::WithCachedCols;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::{HasRowFiltration, MatrixOracle};
use phlite::reduction::standard::standard_algo;
use std::collections::{BTreeMap, HashMap};

pub fn run(case: &Val, rec: &Rec) {
    with_cf!(case.at("p").int(), C => go::<C>(case, rec))
}

fn terms<C: Coef>(v: &Val) -> Vec<(C, Ix)> {
    v.arr().iter().map(|t| (C::enc(&t.arr()[0]), Ix(t.arr()[1].int()))).collect()
}
fn vt<C: Coef>(t: impl Iterator<Item = (C, Ix)>) -> Val {
    Val::A(t.map(|(c, r)| Val::A(vec![c.dec(), Val::I(r.0)])).collect())
}
fn vft<C: Coef>(t: impl Iterator<Item = (C, Ix, Fv)>) -> Val {
    Val::A(t.map(|(c, r, f)| Val::A(vec![c.dec(), Val::I(r.0), Val::I(f.0)])).collect())
}
fn ixs(v: &Val) -> Vec<Ix> {
    v.ints().into_iter().map(Ix).collect()
}

macro_rules! er {
    ($m:expr, $f:expr, $b:expr) => {{
        let m = leak($m);
        let mut l = if $f { lazyf(m) } else { lazy0(m) };
        if $b {
            l.basis = Some(basis_of(m));
        }
        LDyn(leak(l))
    }};
}

/// the cache itself, or a reference to it (which has a filtered column of its own)
macro_rules! cached {
    ($c:expr, $direct:expr, $f:expr, $b:expr) => {{
        let c: &'static WithCachedCols<LDyn<C>> = $c;
        if $direct {
            let mut l = if $f { lazyf(c) } else { lazy0(c) };
            if $b {
                l.basis = Some(basis_of(c));
            }
            LDyn(leak(l))
        } else {
            er!(c, $f, $b)
        }
    }};
}

fn go<C: Coef>(case: &Val, rec: &Rec) {
    let log: Log = leak(Default::default());
    let mut regs: Vec<LDyn<C>> = vec![];
    let mut caches: HashMap<usize, &'static WithCachedCols<LDyn<C>>> = HashMap::new();
    let mut its: BTreeMap<i64, It<(C, Ix)>> = BTreeMap::new();
    for e in case.at("ev").arr() {
        let reg = |k: &str| regs[e.at(k).us() - 1];
        let f = |m: LDyn<C>| m.0.filt.is_some();
        let b = |m: LDyn<C>| m.0.basis.is_some();
        let mut new = None;
        let mut out = e.clone();
        match e.at("op").str() {
            "base" => {
                let cols = e.at("cols").arr().iter().map(|c| (c.arr()[0].int(), terms(&c.arr()[1]))).collect();
                let fl = e.at("f").arr().iter().map(|q| (q.ints()[0], q.ints()[1])).collect();
                let t = table::<C>(cols, Some(fl), Some(ixs(e.at("b"))));
                new = Some(er!(Recorder { id: regs.len() as i64 + 1, m: t, log }, true, true));
            }
            "rec" => {
                let m = reg("m");
                new = Some(er!(Recorder { id: regs.len() as i64 + 1, m, log }, f(m), b(m)));
            }
            "cache" => {
                let m = reg("m");
                let c: &'static WithCachedCols<LDyn<C>> = match e.get("via").map(|v| v.str()) {
                    Some("manual") => leak(WithCachedCols { oracle: m, cache: Default::default() }),
                    _ => leak(m.cache_cols()),
                };
                caches.insert(regs.len() + 1, c);
                new = Some(cached!(c, e.get("ref").is_none(), f(m), b(m)));
            }
            "clone" => {
                let m = reg("m");
                let c: &'static WithCachedCols<LDyn<C>> = leak(caches[&e.at("m").us()].clone());
                caches.insert(regs.len() + 1, c);
                new = Some(cached!(c, e.get("ref").is_none(), f(m), b(m)));
            }
            "cons" => {
                let m = reg("m");
                new = Some(er!(m.consolidate(), f(m), b(m)));
            }
            "rev" => {
                let m = reg("m");
                new = Some(er!(m.reverse(), f(m), b(m)));
            }
            "prod" => {
                let (x, y) = (reg("a"), reg("b"));
                new = Some(er!(product(x, y), f(x), b(y)));
            }
            "sum" => new = Some(LDyn(leak(lazy0(leak(sum(reg("a"), reg("b"))))))),
            "open" => {
                let it = (reg("m").0.col)(Ix(e.at("x").int()));
                its.insert(e.at("i").int(), it);
            }
            "next" => {
                let i = e.at("i").int();
                let Some(it) = its.get_mut(&i) else { continue }; // already exhausted
                let r = it.next();
                if r.is_none() {
                    its.remove(&i);
                }
                out.set("r", vt(r.into_iter()));
            }
            "drop" => {
                if its.remove(&e.at("i").int()).is_none() {
                    continue;
                }
            }
            "col" => out.set("r", vt((reg("m").0.col)(Ix(e.at("x").int())))),
            "colf" => out.set("r", vft((reg("m").0.colf.as_ref().unwrap())(Ix(e.at("x").int())))),
            "heap" => {
                let m: &'static LDyn<C> = leak(reg("m"));
                let mut h = m.build_bhcol(Ix(e.at("x").int()));
                out.set("r", vft(h.drain_sorted().map(Into::into)));
            }
            "meta" => {
                let m = reg("m");
                let fl = match &m.0.filt {
                    Some(fl) => ixs(e.at("rs")).into_iter().map(|r| Val::from(vec![r.0, fl(r).0])).collect(),
                    None => vec![],
                };
                out.set("hf", Val::B(f(m)));
                out.set("hb", Val::B(b(m)));
                out.set("f", Val::A(fl));
                out.set("b", Val::from(m.0.basis.as_ref().map(|b| b().iter().map(|x| x.0).collect::<Vec<_>>()).unwrap_or_default()));
            }
            "reduce" => {
                let _ = standard_algo(reg("m"));
            }
            o => bad(o),
        }
        let q = log.borrow_mut().drain(..).filter(|x| x.1 == 0).map(|x| Val::from(vec![x.0, x.2])).collect();
        out.set("q", Val::A(q));
        rec.ev(out);
        if let Some(n) = new {
            regs.push(n);
        }
    }
}
