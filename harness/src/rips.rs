//! C12-C14: Vietoris-Rips.
use crate::coef::Coef;
use crate::json::{bad, obj, Val};
use crate::{with_cf, Rec};
use ordered_float::NotNan;
use phlite::columns::ColumnEntry;
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension, SquareMatrix};
use phlite::reduction::clearing::ClearedReductionMatrix;
use phlite::reduction::standard::{read_off_diagram, standard_algo, standard_algo_with_diagram};
use phlite::reduction::Diagram;
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::{build_rips_bases, RipsIndex};
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const INF: i64 = 999_999;
type Dist = Vec<Vec<NotNan<f64>>>;

fn list(s: RipsIndex, n: usize) -> Val {
    Val::from(s.to_vec(n).into_iter().map(|x| x as i64).collect::<Vec<i64>>())
}
fn idx(s: &[usize], n: usize) -> RipsIndex {
    RipsIndex::from_indices(s.iter().copied(), n).expect("no index for a non-empty list")
}
/// how the integers of a case stand for distances: by a factor, or as places in an increasing table
pub enum Sc {
    By(f64),
    Table(Vec<f64>),
}
fn dist(case: &Val) -> (Dist, Sc) {
    let sc = match case.get("vals") {
        Some(t) => Sc::Table(t.arr().iter().map(|x| x.str().parse().unwrap()).collect()),
        None => Sc::By(case.get("scale").map_or(4, |s| s.int()) as f64),
    };
    let f = |x: &i64| {
        NotNan::new(match &sc {
            _ if *x == INF => f64::INFINITY,
            Sc::By(q) => *x as f64 / q,
            Sc::Table(t) => t[*x as usize],
        })
        .unwrap()
    };
    (case.at("d").arr().iter().map(|r| r.ints().iter().map(f).collect()).collect(), sc)
}
fn defilt(x: f64, sc: &Sc) -> i64 {
    if x == f64::INFINITY {
        return INF;
    }
    let y = match sc {
        Sc::By(q) => x * q,
        Sc::Table(t) => return t.iter().position(|v| *v == x).map_or(-7_777_777, |i| i as i64),
    };
    if y.fract() == 0.0 && y.abs() < 1e8 {
        y as i64
    } else {
        -7_777_777
    }
}
fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    // all increasing lists of k vertices
    if k == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for s in subsets(n, k - 1) {
        for v in s.last().map_or(0, |x| x + 1)..n {
            let mut t = s.clone();
            t.push(v);
            r.push(t);
        }
    }
    r
}

pub fn run(case: &Val, rec: &Rec) {
    with_cf!(case.at("p").int(), C => go::<C>(case, rec))
}

fn go<C: Coef>(case: &Val, rec: &Rec) {
    let n = case.at("n").us();
    let (d, sc) = dist(case);
    let mut known: Vec<RipsIndex> = vec![];
    for o in case.at("ops").arr() {
        match o.at("op").str() {
            "enc" => {
                let s = o.at("s").uss();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let i = idx(&s, n);
                    (i, list(i, n), i.dimension(n) as i64)
                }));
                let mut e = o.clone();
                match r {
                    Ok((i, back, dim)) => {
                        let id = known.iter().position(|x| *x == i).unwrap_or(known.len());
                        known.push(i);
                        e.set("back", back);
                        e.set("dim", Val::I(dim));
                        e.set("same", Val::I(id as i64 + 1));
                    }
                    Err(_) => {
                        known.push(idx(&[0], n));
                        e.set("failed", Val::B(true));
                    }
                }
                rec.ev(e);
            }
            "order" => {
                let mut all: Vec<RipsIndex> = subsets(n, o.at("k").us() + 1).iter().map(|s| idx(s, n)).collect();
                all.sort();
                rec.res(o, Val::A(all.into_iter().map(|i| list(i, n)).collect()));
            }
            "basis" | "long" => {
                let k = o.at("k").us();
                match o.at("how").str() {
                    "build" => basis(&build_rips_bases(&d, k), n, k, o, rec),
                    "bd" => basis(build_rips_boundary_matrix::<C>(d.clone(), k).basis(), n, k, o, rec),
                    "cobd" => basis(build_rips_coboundary_matrix::<C>(d.clone(), k).basis(), n, k, o, rec),
                    h => bad(h),
                }
            }
            "cols" => {
                let k = o.at("k").us();
                match o.at("mat").str() {
                    "bd" => views(&build_rips_boundary_matrix::<C>(d.clone(), k), n, &sc, o, rec),
                    "cobd" => views(&build_rips_coboundary_matrix::<C>(d.clone(), k), n, &sc, o, rec),
                    h => bad(h),
                }
                let k = o.at("k").us();
                if o.at("view").str() == "inner" {
                    match o.at("mat").str() {
                        "bd" => cols(&build_rips_boundary_matrix::<C>(d.clone(), k).matrix, n, &sc, o, rec, &|s| s, &|r| *r, &|f| f.into_inner()),
                        _ => cols(&build_rips_coboundary_matrix::<C>(d.clone(), k).matrix, n, &sc, o, rec, &|s| s, &|r| *r, &|f| f.into_inner()),
                    }
                }
            }
            "bars" => {
                let k = o.at("k").us();
                let route = o.at("route").str();
                let (mat, alg) = route.split_once('_').unwrap();
                let up: Vec<usize> = (0..=k).collect();
                let down: Vec<usize> = (0..=k).rev().collect();
                if mat == "b" {
                    let m = build_rips_boundary_matrix::<C>(d.clone(), k);
                    let dec = |x: &RipsIndex| *x;
                    let f = |x: &RipsIndex| m.filtration_value(*x).into_inner();
                    match o.at("via").str() {
                        "plain" => emit(&diagram(&m, alg, &down), n, &sc, o, rec, &dec, &f, false),
                        "cached" => emit(&diagram(&(&m).cache_cols(), alg, &down), n, &sc, o, rec, &dec, &f, false),
                        "cons" => emit(&diagram(&(&m).consolidate(), alg, &down), n, &sc, o, rec, &dec, &f, false),
                        h => bad(h),
                    }
                } else {
                    let c = build_rips_coboundary_matrix::<C>(d.clone(), k);
                    let m = (&c).reverse();
                    let dec = |x: &std::cmp::Reverse<RipsIndex>| x.0;
                    let f = |x: &std::cmp::Reverse<RipsIndex>| m.filtration_value(*x).0.into_inner();
                    match o.at("via").str() {
                        "plain" => emit(&diagram(&m, alg, &up), n, &sc, o, rec, &dec, &f, true),
                        "cached" => emit(&diagram(&(&c).cache_cols().reverse(), alg, &up), n, &sc, o, rec, &dec, &f, true),
                        "cons" => emit(&diagram(&(&m).consolidate(), alg, &up), n, &sc, o, rec, &dec, &f, true),
                        h => bad(h),
                    }
                }
            }
            x => bad(x),
        }
    }
}

fn basis<B: SplitByDimension<ElemT = RipsIndex>>(b: &B, n: usize, k: usize, o: &Val, rec: &Rec)
where
    B::SubBasisT: ColBasis<ElemT = RipsIndex>,
{
    let mut e = o.clone();
    let mut dims = vec![];
    for q in 0..=k {
        let s = b.in_dimension(q);
        dims.push(Val::A((0..s.size()).map(|i| list(s.element(i), n)).collect()));
    }
    e.set("dims", Val::A(dims));
    e.set("all", Val::A((0..b.size()).map(|i| list(b.element(i), n)).collect()));
    if o.at("op").str() == "long" {
        // instead of the order of all indices: how consecutive ones compare
        let lt = |q: usize| {
            let s = b.in_dimension(q);
            Val::A((1..s.size()).map(|i| Val::B(s.element(i - 1) < s.element(i))).collect())
        };
        e.set("lt", Val::A((0..=k).map(lt).collect()));
    }
    rec.ev(e);
}

fn views<M, C>(m: &M, n: usize, sc: &Sc, o: &Val, rec: &Rec)
where
    C: Coef,
    M: MatrixOracle<CoefficientField = C, ColT = RipsIndex, RowT = RipsIndex> + HasRowFiltration<FiltrationT = NotNan<f64>> + HasColBasis,
    M::BasisT: SplitByDimension + ColBasis<ElemT = RipsIndex>,
    <M::BasisT as SplitByDimension>::SubBasisT: ColBasis<ElemT = RipsIndex>,
{
    use std::cmp::Reverse;
    let (i, d, f) = (|s| s, |r: &RipsIndex| *r, |f: NotNan<f64>| f.into_inner());
    match o.at("view").str() {
        "inner" => (),
        "plain" => cols(m, n, sc, o, rec, &i, &d, &f),
        "ref" => cols(&m, n, sc, o, rec, &i, &d, &f),
        "cached" => cols(&m.cache_cols(), n, sc, o, rec, &i, &d, &f),
        "cons" => cols(&m.consolidate(), n, sc, o, rec, &i, &d, &f),
        "sub" => cols(&m.sub_matrix_in_dimension(0), n, sc, o, rec, &i, &d, &f),
        "unrev" => cols(&m.reverse().unreverse(), n, sc, o, rec, &i, &d, &f),
        "rev" => cols(&m.reverse(), n, sc, o, rec, &Reverse, &|r| r.0, &|f: Reverse<NotNan<f64>>| f.0.into_inner()),
        h => bad(h),
    }
}

#[allow(clippy::too_many_arguments)]
fn cols<M, C>(
    m: &M, n: usize, sc: &Sc, o: &Val, rec: &Rec,
    enc: &dyn Fn(RipsIndex) -> M::ColT,
    dec: &dyn Fn(&M::RowT) -> RipsIndex,
    fv: &dyn Fn(M::FiltrationT) -> f64,
) where
    C: Coef,
    M: MatrixOracle<CoefficientField = C> + HasRowFiltration,
    M::RowT: Clone,
{
    let (mat, view) = (o.at("mat").clone(), o.at("view").clone());
    let see: Vec<&str> = o.at("see").arr().iter().map(|s| s.str()).collect();
    for s in o.at("simplices").arr() {
        let v = s.uss();
        let mk = |op: &str, r: Val| {
            rec.ev(obj(vec![("op", op.into()), ("mat", mat.clone()), ("view", view.clone()), ("s", s.clone()), ("r", r)]))
        };
        if see.contains(&"col") {
            let t = m.column(enc(idx(&v, n))).map(|(c, r)| Val::A(vec![c.dec(), list(dec(&r), n)])).collect();
            mk("col", Val::A(t));
        }
        if see.contains(&"fcol") {
            let t = m
                .column_with_filtration(enc(idx(&v, n)))
                .map(|ColumnEntry { filtration_value, row_index, coeff }| {
                    Val::A(vec![coeff.dec(), list(dec(&row_index), n), Val::I(defilt(fv(filtration_value), sc))])
                })
                .collect();
            mk("fcol", Val::A(t));
        }
        if see.contains(&"heap") {
            // drained column heap: terms with filtration values, in decreasing order
            let mut h = m.build_bhcol(enc(idx(&v, n)));
            let mut t = vec![];
            while let Some(ColumnEntry { filtration_value, row_index, coeff }) = h.pop_pivot() {
                t.push(Val::A(vec![coeff.dec(), list(dec(&row_index), n), Val::I(defilt(fv(filtration_value), sc))]));
            }
            mk("heap", Val::A(t));
        }
    }
    if see.contains(&"fval") {
        // rows and columns have the same type in these matrices: rows are obtained from columns
        for s in o.at("simplices").arr() {
            let v = s.uss();
            for (_, r) in m.column(enc(idx(&v, n))) {
                let back = list(dec(&r), n);
                let x = defilt(fv(m.filtration_value(r)), sc);
                rec.ev(obj(vec![("op", "fval".into()), ("mat", mat.clone()), ("view", view.clone()), ("s", back), ("r", Val::I(x))]));
            }
        }
    }
}

fn diagram<M, C>(m: &M, alg: &str, order: &[usize]) -> Diagram<M::ColT>
where
    C: Coef,
    M: MatrixOracle<CoefficientField = C> + SquareMatrix + HasRowFiltration + HasColBasis,
    M::BasisT: SplitByDimension,
    M::ColT: Hash + std::fmt::Debug + 'static,
    M::RowT: 'static,
{
    match alg {
        "std" => standard_algo_with_diagram(m, false).1,
        "stdt" => standard_algo_with_diagram(m, true).1,
        "read" => {
            let v = standard_algo(m);
            read_off_diagram(m, &v, false)
        }
        "clr" => ClearedReductionMatrix::build_with_diagram(m, order.to_vec()).1,
        a => bad(a),
    }
}

#[allow(clippy::too_many_arguments)]
fn emit<T>(
    dg: &Diagram<T>, n: usize, sc: &Sc, o: &Val, rec: &Rec,
    dec: &dyn Fn(&T) -> RipsIndex,
    f: &dyn Fn(&T) -> f64,
    swap: bool,
) {
    let one = |x: &T| (dec(x).dimension(n) as i64, defilt(f(x), sc));
    let mut ess: Vec<Vec<i64>> = dg.essential.iter().map(|x| { let (k, b) = one(x); vec![k, b] }).collect();
    let mut fin: Vec<Vec<i64>> = dg
        .pairings
        .iter()
        .map(|(x, y)| {
            let (b, e) = if swap { (one(y), one(x)) } else { (one(x), one(y)) };
            vec![b.0, e.0, b.1, e.1]
        })
        .collect();
    ess.sort();
    fin.sort();
    let a = |v: Vec<Vec<i64>>| Val::A(v.into_iter().map(Val::from).collect());
    let mut e = o.clone();
    e.set("ess", a(ess));
    e.set("fin", a(fin));
    rec.ev(e);
}
