//! C07-C11: reductions.
use crate::coef::Coef;
use crate::dynm::*;
use crate::json::{bad, obj, Val};
use crate::key::{FKey, Fv, Ix, Key, RKey};
use crate::oracle::{wrap, Has};
use crate::{with_cf, with_ft, with_rt, Rec};
use phlite::matrices::combinators::product;
use phlite::matrices::{BasisElement, ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension, SquareMatrix};
use phlite::reduction::clearing::ClearedReductionMatrix;
use phlite::reduction::standard::{read_off_diagram, standard_algo, standard_algo_with_diagram};
use phlite::reduction::Diagram;
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::Hash;
use std::rc::Rc;

/// User basis: an order of all elements, and the elements of each dimension
#[derive(Clone)]
pub struct UB<R> {
    all: Vec<R>,
    dims: Vec<Vec<R>>,
}
impl<R: BasisElement> ColBasis for UB<R> {
    type ElemT = R;
    fn element(&self, i: usize) -> R {
        self.all[i].clone()
    }
    fn size(&self) -> usize {
        self.all.len()
    }
}
impl<R: BasisElement> SplitByDimension for UB<R> {
    type SubBasisT = Vec<R>;
    fn in_dimension(&self, d: usize) -> &Vec<R> {
        &self.dims[d]
    }
}
pub type Log = Rc<RefCell<Vec<(u8, i64)>>>;
/// User matrix that records requests (0: column, 1: filtration value)
#[derive(Clone)]
pub struct UM<C, R, F> {
    cols: Rc<HashMap<i64, Vec<(C, R)>>>,
    filt: Rc<HashMap<i64, F>>,
    basis: Rc<UB<R>>,
    log: Log,
}
impl<C: Coef, R: RKey, F: FKey> UM<C, R, F> {
    fn new(case: &Val, log: Log) -> Self {
        let cols = case
            .at("cols")
            .arr()
            .iter()
            .map(|c| {
                let t = c.arr()[1].arr().iter().map(|t| (C::enc(&t.arr()[0]), R::enc(t.arr()[1].int()))).collect();
                (c.arr()[0].int(), t)
            })
            .collect();
        let filt = case.at("filt").arr().iter().map(|f| (f.ints()[0], F::enc(f.ints()[1]))).collect();
        let ids = |v: &Val| v.ints().into_iter().map(R::enc).collect::<Vec<R>>();
        let dims = case.at("dims").arr().iter().map(ids).collect();
        UM { cols: Rc::new(cols), filt: Rc::new(filt), basis: Rc::new(UB { all: ids(case.at("basis")), dims }), log }
    }
    fn f(&self, r: &R) -> F {
        self.log.borrow_mut().push((1, r.dec()));
        self.filt.get(&r.dec()).unwrap_or_else(|| panic!("filtration of an unknown row")).clone()
    }
}
impl<C: Coef, R: RKey, F: FKey> MatrixOracle for UM<C, R, F> {
    type CoefficientField = C;
    type ColT = R;
    type RowT = R;
    fn column(&self, col: R) -> impl Iterator<Item = (C, R)> {
        self.log.borrow_mut().push((0, col.dec()));
        let kind = col.dec();
        let it = self.cols.get(&col.dec()).unwrap_or_else(|| panic!("request for an unknown column")).iter().cloned();
        crate::hint::hinted(it, kind)
    }
}
impl<C: Coef, R: RKey, F: FKey> HasRowFiltration for UM<C, R, F> {
    type FiltrationT = F;
    fn filtration_value(&self, row: R) -> F {
        self.f(&row)
    }
}
impl<C: Coef, R: RKey, F: FKey> HasColBasis for UM<C, R, F> {
    type BasisT = UB<R>;
    type BasisRef<'a>
        = &'a UB<R>
    where
        Self: 'a;
    fn basis(&self) -> &UB<R> {
        &self.basis
    }
}
/// The same matrix without filtration and basis
#[derive(Clone)]
struct Bare<C, R, F>(UM<C, R, F>);
impl<C: Coef, R: RKey, F: FKey> MatrixOracle for Bare<C, R, F> {
    type CoefficientField = C;
    type ColT = R;
    type RowT = R;
    fn column(&self, col: R) -> impl Iterator<Item = (C, R)> {
        self.0.column(col)
    }
}

pub fn run(case: &Val, rec: &Rec) {
    let (rt, ft) = (case.at("rt").str(), case.at("ft").str());
    match (case.at("p").int(), rt, ft) {
        (_, "ix", "fv") => with_cf!(case.at("p").int(), C => full::<C>(case, rec)),
        (3, "usize", ft) => with_ft!(ft, F => typed::<phlite::fields::Z3, usize, F>(case, rec)),
        (3, rt, "usize") => with_rt!(rt, R => typed::<phlite::fields::Z3, R, usize>(case, rec)),
        _ => bad("unsupported types"),
    }
}

fn typed<C: Coef, R: RKey, F: FKey>(case: &Val, rec: &Rec) {
    let log = Log::default();
    let um = UM::<C, R, F>::new(case, log.clone());
    rec.ev(obj(vec![("op", "setup".into())]));
    if case.at("rev").bool() {
        let m = (&um).reverse();
        algos(&m, case, rec, &log, &|c| c.0.dec());
    } else {
        algos(&um, case, rec, &log, &|c| c.dec());
    }
}

fn full<C: Coef>(case: &Val, rec: &Rec) {
    let log = Log::default();
    let um = UM::<C, Ix, Fv>::new(case, log.clone());
    let n = um.basis.dims.len();
    let h = || Has { f: true, b: true, d: Some(n) };
    rec.ev(obj(vec![("op", "setup".into())]));
    let rev = case.at("rev").bool();
    macro_rules! fin {
        ($m:expr) => {{
            let m = $m;
            if rev {
                wrap!(m.reverse(), h())
            } else {
                wrap!(m, h())
            }
        }};
    }
    let um2 = um.clone();
    let m: Dyn<C> = match case.at("via").str() {
        "plain" => fin!(um),
        "ref" => fin!(&*Box::leak(Box::new(um))),
        "cached" => fin!(um.cache_cols()),
        "cons" => fin!(um.consolidate()),
        "attach" => {
            let b = (*um.basis).clone();
            fin!(Bare(um).with_filtration(move |r| um2.f(&r)).with_basis(b))
        }
        "attach2" => {
            let b = (*um.basis).clone();
            fin!(Bare(um).with_basis(b).with_filtration(move |r| um2.f(&r)))
        }
        "prod" => {
            let mut id = UM::<C, Ix, Fv>::new(case, Log::default());
            id.cols = Rc::new(id.cols.keys().map(|k| (*k, vec![(C::one(), Ix(*k))])).collect());
            fin!(product(um, id))
        }
        "revunrev" => fin!(MatrixOracle::unreverse::<Ix, Ix>(um.reverse())),
        "cachedrev" => fin!(um.cache_cols().reverse().unreverse().cache_cols()),
        o => bad(o),
    };
    let sign = if rev { -1 } else { 1 };
    algos(&m, case, rec, &log, &|c: &Ix| sign * c.0)
}

fn req(rec: &Rec, log: &Log, phase: &str) {
    reqb(rec, log, phase, vec![])
}
fn reqb(rec: &Rec, log: &Log, phase: &str, births: Vec<i64>) {
    let l: Vec<(u8, i64)> = log.borrow_mut().drain(..).collect();
    let k = |t: u8| Val::from(l.iter().filter(|x| x.0 == t).map(|x| x.1).collect::<Vec<i64>>());
    rec.ev(obj(vec![("op", "req".into()), ("phase", phase.into()), ("cols", k(0)), ("filts", k(1)), ("births", Val::from(births))]));
}

fn diag<T>(rec: &Rec, d: &Diagram<T>, alg: &str, flag: bool, dec: &dyn Fn(&T) -> i64) {
    let mut e: Vec<i64> = d.essential.iter().map(dec).collect();
    let mut q: Vec<Vec<i64>> = d.pairings.iter().map(|(b, x)| vec![dec(b), dec(x)]).collect();
    e.sort();
    q.sort();
    let q = Val::A(q.into_iter().map(Val::from).collect());
    rec.ev(obj(vec![("op", "diag".into()), ("alg", alg.into()), ("flag", Val::B(flag)), ("ess", Val::from(e)), ("pairs", q)]));
}

fn vcol<C: Coef, T>(rec: &Rec, j: i64, v: impl Iterator<Item = (C, T)>, dec: &dyn Fn(&T) -> i64) {
    let t = v.map(|(c, r)| Val::A(vec![c.dec(), Val::I(dec(&r))])).collect();
    rec.ev(obj(vec![("op", "v".into()), ("j", Val::I(j)), ("v", Val::A(t))]));
}

fn elems<B: ColBasis>(b: &B) -> Vec<B::ElemT> {
    (0..b.size()).map(|i| b.element(i)).collect()
}

fn standard<M, C>(m: M, o: &Val, rec: &Rec, log: &Log, dec: &dyn Fn(&M::ColT) -> i64)
where
    C: Coef,
    M: MatrixOracle<CoefficientField = C> + SquareMatrix + HasRowFiltration + HasColBasis + Copy,
    M::ColT: Hash + 'static,
    M::RowT: 'static,
{
    let flag = o.at("flag").bool();
    let (v, d) = match o.at("how").str() {
        "diag" => {
            let (v, d) = standard_algo_with_diagram(m, flag);
            (v, Some(d))
        }
        _ => (standard_algo(m), None),
    };
    if o.get("log").is_some() {
        req(rec, log, "std");
    }
    let see = |k: &str| o.at("see").arr().iter().any(|s| s.str() == k);
    for e in elems(&*m.basis()).into_iter().filter(|_| see("v")) {
        vcol(rec, dec(&e), v.column(e), dec);
    }
    if let Some(d) = d.filter(|_| see("diag")) {
        diag(rec, &d, "std", flag, dec);
    }
    if o.at("how").str() == "both" {
        for flag in [flag, !flag] {
            let d = read_off_diagram(m, &v, flag);
            if o.get("log").is_some() {
                req(rec, log, "std");
            }
            if see("diag") {
                diag(rec, &d, "std", flag, dec);
            }
        }
    }
}

fn algos<M, C>(m: &M, case: &Val, rec: &Rec, log: &Log, dec: &dyn Fn(&M::ColT) -> i64)
where
    C: Coef,
    M: MatrixOracle<CoefficientField = C> + SquareMatrix + HasRowFiltration + HasColBasis,
    M::BasisT: SplitByDimension,
    M::ColT: Hash + std::fmt::Debug + 'static,
    M::RowT: 'static,
{
    for o in case.at("ops").arr() {
        let logged = o.get("log").is_some();
        match o.at("op").str() {
            "std" => {
                rec.ev(o.clone());
                if logged {
                    req(rec, log, "construct");
                }
                let d = o.at("sub").us();
                if d == 0 {
                    standard(m, o, rec, log, dec);
                } else {
                    standard(&m.sub_matrix_in_dimension(d - 1), o, rec, log, dec);
                }
            }
            "clr" => {
                rec.ev(o.clone());
                if logged {
                    req(rec, log, "construct");
                }
                let order: Vec<usize> = o.at("order").ints().iter().map(|d| *d as usize - 1).collect();
                let (v, dg) = ClearedReductionMatrix::build_with_diagram(m, order.clone());
                if logged {
                    reqb(rec, log, "clr", dg.pairings.iter().map(|q| dec(&q.0)).collect());
                }
                let see = |k: &str| o.at("see").arr().iter().any(|s| s.str() == k);
                if see("v") {
                    // V has the basis of the matrix, also by dimension
                    let vb = v.basis();
                    let all: Vec<i64> = elems(&*vb).iter().map(dec).collect();
                    let by: Vec<Val> = order.iter().map(|d| elems(&*vb.in_dimension(*d)).iter().map(dec).collect::<Vec<i64>>().into()).collect();
                    rec.ev(obj(vec![("op", "vbasis".into()), ("all", Val::from(all)), ("order", o.at("order").clone()), ("by", Val::A(by))]));
                }
                for d in order.iter().filter(|_| see("v")) {
                    for e in elems(m.basis().in_dimension(*d)) {
                        vcol(rec, dec(&e), v.column(e.clone()), dec);
                        let r = v.col_is_cycle(e.clone());
                        rec.ev(obj(vec![("op", "cyc".into()), ("j", Val::I(dec(&e))), ("r", Val::B(r))]));
                    }
                }
                if see("diag") {
                    diag(rec, &dg, "clr", false, dec);
                }
                if logged {
                    req(rec, log, "obs");
                }
            }
            o => bad(o),
        }
    }
}
