//! C03 C04 C06: programs over matrix oracles; each event applies one adaptor / combinator of phlite.
use crate::coef::Coef;
use crate::dynm::*;
use crate::json::{bad, obj, Val};
use crate::key::{Fv, Ix};
use crate::{with_cf, Rec};
use phlite::matrices::adaptors::{MatrixWithBasis, WithCachedCols};
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::{MapVecMatrix, StandardBasis, VecVecMatrix};
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use rustc_hash::FxHashMap;
use std::borrow::Cow;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

/// User-supplied basis split by dimension
pub struct UserBasis {
    all: Vec<Ix>,
    dims: Vec<Vec<Ix>>,
}
impl ColBasis for UserBasis {
    type ElemT = Ix;
    fn element(&self, i: usize) -> Ix {
        self.all[i]
    }
    fn size(&self) -> usize {
        self.all.len()
    }
}
impl SplitByDimension for UserBasis {
    type SubBasisT = Vec<Ix>;
    fn in_dimension(&self, d: usize) -> &Vec<Ix> {
        &self.dims[d]
    }
}

pub fn run(case: &Val, rec: &Rec) {
    with_cf!(case.at("p").int(), C => go::<C>(case, rec))
}

fn term<C: Coef>(v: &Val) -> (C, Ix) {
    (C::enc(&v.arr()[0]), Ix(v.arr()[1].int()))
}
fn terms<C: Coef>(v: &Val) -> Vec<(C, Ix)> {
    v.arr().iter().map(term).collect()
}
fn vt<C: Coef>(t: Vec<(C, Ix)>) -> Val {
    Val::A(t.into_iter().map(|(c, r)| Val::A(vec![c.dec(), Val::I(r.0)])).collect())
}
fn vft<C: Coef>(t: Vec<(C, Ix, Fv)>) -> Val {
    Val::A(t.into_iter().map(|(c, r, f)| Val::A(vec![c.dec(), Val::I(r.0), Val::I(f.0)])).collect())
}
fn ixs(v: &Val) -> Vec<Ix> {
    v.ints().into_iter().map(Ix).collect()
}
fn filt_fn(v: &Val) -> impl Fn(Ix) -> Fv + 'static {
    let t: HashMap<i64, i64> = v.arr().iter().map(|p| (p.ints()[0], p.ints()[1])).collect();
    move |r| Fv(*t.get(&r.0).unwrap_or_else(|| panic!("filtration of an unknown row")))
}

/// Wrap an adaptor back into a Dyn; f / b: does the wrapped matrix have a filtration / basis / sub-bases
pub struct Has {
    pub f: bool,
    pub b: bool,
    pub d: Option<usize>,
}
fn has<C: Coef>(m: &Dyn<C>) -> Has {
    Has { f: m.0.filt.is_some(), b: m.0.basis.is_some(), d: ndims(m) }
}
fn ndims<C: Coef>(m: &Dyn<C>) -> Option<usize> {
    m.0.basis.as_ref().and_then(|b| b.dims.as_ref().map(|d| d.len()))
}
macro_rules! wrap {
    // filtration and split basis possible
    ($m:expr, $h:expr) => {{
        let m = Rc::new($m);
        let h: Has = $h;
        let mut d = if h.f { erase_f(m.clone()) } else { DynIn { col: erase_col(m.clone()), filt: None, colf: None, bh: None, basis: None } };
        if h.b {
            d.basis = Some(Rc::new(match h.d {
                Some(n) => erase_split(m.clone(), n),
                None => erase_b(m.clone()),
            }));
        }
        Dyn(Rc::new(d))
    }};
    // the basis has no sub-bases by type
    (nosplit $m:expr, $h:expr) => {{
        let m = Rc::new($m);
        let h: Has = $h;
        let mut d = if h.f { erase_f(m.clone()) } else { DynIn { col: erase_col(m.clone()), filt: None, colf: None, bh: None, basis: None } };
        if h.b {
            d.basis = Some(Rc::new(erase_b(m.clone())));
        }
        Dyn(Rc::new(d))
    }};
    // no basis by type
    (nobasis $m:expr, $h:expr) => {{
        let m = Rc::new($m);
        let h: Has = $h;
        let d = if h.f { erase_f(m.clone()) } else { DynIn { col: erase_col(m.clone()), filt: None, colf: None, bh: None, basis: None } };
        Dyn(Rc::new(d))
    }};
}

pub(crate) use wrap;

fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

fn obs<C: Coef>(m: &Dyn<C>, e: &Val) -> Val {
    let cs = ixs(e.at("cs"));
    let rs = ixs(e.at("rs"));
    let mut o = vec![(
        "cols",
        Val::A(cs.iter().map(|x| Val::A(vec![Val::I(x.0), vt((m.0.col)(*x))])).collect()),
    )];
    o.push(("hasF", Val::B(m.0.filt.is_some())));
    if let Some(f) = &m.0.filt {
        o.push(("filt", Val::A(rs.iter().map(|r| Val::from(vec![r.0, f(*r).0])).collect())));
        let cf = m.0.colf.as_ref().unwrap();
        o.push(("colf", Val::A(cs.iter().map(|x| Val::A(vec![Val::I(x.0), vft(cf(*x))])).collect())));
        let bh = m.0.bh.as_ref().unwrap();
        o.push(("bh", Val::A(cs.iter().map(|x| Val::A(vec![Val::I(x.0), vft(bh(*x))])).collect())));
    }
    o.push(("hasB", Val::B(m.0.basis.is_some())));
    fn bo(b: &DynBasis) -> (Val, Val) {
        let el: Vec<i64> = (0..(b.size)()).map(|i| (b.elem)(i).0).collect();
        let lk: Vec<Val> = (b.look)().iter().map(|(k, v)| Val::from(vec![k.0, *v as i64])).collect();
        (Val::from(el), Val::A(lk))
    }
    if let Some(b) = &m.0.basis {
        let (el, lk) = bo(b);
        o.push(("basis", el));
        o.push(("look", lk));
        o.push(("hasD", Val::B(b.dims.is_some())));
        if let Some(ds) = &b.dims {
            let r: Vec<(Val, Val)> = ds.iter().map(bo).collect();
            o.push(("dims", Val::A(r.iter().map(|x| x.0.clone()).collect())));
            o.push(("dlook", Val::A(r.into_iter().map(|x| x.1).collect())));
        }
    }
    obj(o)
}

fn go<C: Coef>(case: &Val, rec: &Rec) {
    let mut regs: Vec<Dyn<C>> = vec![];
    // requests to the user-supplied matrices ("custom")
    let log: Rc<std::cell::RefCell<Vec<(usize, i64)>>> = Default::default();
    let drain = || Val::A(log.borrow_mut().drain(..).map(|(k, x)| Val::from(vec![k as i64, x])).collect());
    for e in case.at("ev").arr() {
        let reg = |k: &str| regs[e.at(k).us() - 1].clone();
        log.borrow_mut().clear();
        let via = e.get("via").map(|v| v.str()).unwrap_or("");
        let none = || Has { f: false, b: false, d: None };
        let new: Dyn<C> = match e.at("op").str() {
            "vecvec" => {
                let cols: Vec<Vec<(C, Ix)>> = e.at("cols").arr().iter().map(|c| terms(&c.arr()[1])).collect();
                let m: VecVecMatrix<'static, C, Ix> = match via {
                    "owned" => VecVecMatrix::from(cols),
                    "borrowed" => VecVecMatrix::from(leak(cols)),
                    "cow" => VecVecMatrix::from(Cow::<'static, Vec<Vec<(C, Ix)>>>::Borrowed(leak(cols))),
                    "allone" => VecVecMatrix::new_all_one(cols.into_iter().map(|c| c.into_iter().map(|t| t.1))),
                    _ => VecVecMatrix::new(cols),
                };
                wrap!(nosplit m.with_trivial_filtration(), Has { f: false, b: true, d: None })
            }
            "mapvec" => {
                let cols: FxHashMap<Ix, Vec<(C, Ix)>> =
                    e.at("cols").arr().iter().map(|c| (Ix(c.arr()[0].int()), terms(&c.arr()[1]))).collect();
                let m: MapVecMatrix<'static, C, Ix, Ix> = match via {
                    "owned" => MapVecMatrix::from(cols),
                    _ => MapVecMatrix::from(leak(cols)),
                };
                Dyn(Rc::new(erase0(m)))
            }
            "custom" => {
                let cols: HashMap<i64, Vec<(C, Ix)>> =
                    e.at("cols").arr().iter().map(|c| (c.arr()[0].int(), terms(&c.arr()[1]))).collect();
                let (log2, k) = (log.clone(), regs.len() + 1);
                Dyn(Rc::new(DynIn {
                    col: Box::new(move |x| {
                        log2.borrow_mut().push((k, x.0));
                        cols[&x.0].clone()
                    }),
                    filt: None,
                    colf: None,
                    bh: None,
                    basis: None,
                }))
            }
            "trivial" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(m.with_trivial_filtration(), Has { f: true, ..h })
            }
            "filt" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(m.with_filtration(filt_fn(e.at("f"))), Has { f: true, ..h })
            }
            "discard" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(m.with_filtration(filt_fn(e.at("f"))).discard_filtration(), h)
            }
            "basis" => {
                let m = reg("m");
                let h = Has { b: true, d: None, ..has(&m) };
                let b = ixs(e.at("b"));
                match via {
                    "vec" => wrap!(nosplit m.with_basis(b), h),
                    "ref" => wrap!(nosplit m.with_basis(leak(b)), h),
                    "new" => wrap!(nosplit MatrixWithBasis::new(m, b), h),
                    _ => wrap!(nosplit MatrixWithBasis { matrix: m, basis: b }, h),
                }
            }
            "split" => {
                let m = reg("m");
                let dims: Vec<Vec<Ix>> = e.at("d").arr().iter().map(ixs).collect();
                let h = Has { b: true, d: Some(dims.len()), ..has(&m) };
                let b = UserBasis { all: dims.concat(), dims };
                match via {
                    "ref" => wrap!(m.with_basis(leak(b)), h),
                    _ => wrap!(m.with_basis(b), h),
                }
            }
            "cons" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(m.consolidate(), h)
            }
            "cache" => {
                let m = reg("m");
                let h = has(&m);
                match via {
                    "manual" => wrap!(WithCachedCols { oracle: m, cache: Default::default() }, h),
                    "clone" => {
                        let c = m.clone().cache_cols();
                        // populate one column, then continue with a clone of the cache
                        if let Some(x) = e.get("x") {
                            let _ = c.column(Ix(x.int())).count();
                        }
                        wrap!(c.clone(), h)
                    }
                    _ => wrap!(m.cache_cols(), h),
                }
            }
            "ref" => {
                let m = reg("m");
                let h = has(&m);
                match via {
                    "refref" => wrap!(leak(leak(m) as &'static Dyn<C>), h),
                    _ => wrap!(leak(m) as &'static Dyn<C>, h),
                }
            }
            "ptr" => match via {
                "box" => Dyn(Rc::new(erase0(Box::new(reg("m"))))),
                "rc" => Dyn(Rc::new(erase0(Rc::new(reg("m"))))),
                _ => Dyn(Rc::new(erase0(Arc::new(reg("m"))))),
            },
            "rev" => {
                let m = reg("m");
                let h = has(&m);
                match via {
                    "ref" => wrap!((leak(m) as &'static Dyn<C>).reverse(), h),
                    _ => wrap!(m.reverse(), h),
                }
            }
            "unrev" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(AsRev(m).unreverse(), h)
            }
            // ---- static compositions
            "revunrev" => {
                let m = reg("m");
                let h = has(&m);
                match via {
                    "inherent" => wrap!(m.reverse().unreverse(), h),
                    "ref" => wrap!(MatrixOracle::unreverse::<Ix, Ix>(leak(m.reverse()) as &'static _), h),
                    _ => wrap!(MatrixOracle::unreverse::<Ix, Ix>(m.reverse()), h),
                }
            }
            "revrev" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(m.reverse().reverse(), h)
            }
            "revsub" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(nosplit m.reverse().sub_matrix_in_dimension(e.at("d").us() - 1), h)
            }
            "unrevsub" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(nosplit AsRev(m).unreverse().sub_matrix_in_dimension(e.at("d").us() - 1), h)
            }
            "subrev" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(nosplit m.sub_matrix_in_dimension(e.at("d").us() - 1).reverse(), h)
            }
            "sub" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(nosplit m.sub_matrix_in_dimension(e.at("d").us() - 1), h)
            }
            "index" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(nobasis m.using_col_basis_index(), h)
            }
            "revindex" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(nobasis m.reverse().using_col_basis_index(), h)
            }
            "subindex" => {
                let m = reg("m");
                let h = has(&m);
                wrap!(nobasis m.sub_matrix_in_dimension(e.at("d").us() - 1).using_col_basis_index(), h)
            }
            "prod" => {
                let (a, b) = (reg("a"), reg("b"));
                let h = Has { f: has(&a).f, ..has(&b) };
                match via {
                    "ref" => wrap!(product(leak(a) as &'static Dyn<C>, leak(b) as &'static Dyn<C>), h),
                    "clone" => {
                        let pr = product(leak(a) as &'static Dyn<C>, leak(b) as &'static Dyn<C>);
                        #[allow(clippy::clone_on_copy)]
                        let q = pr.clone();
                        wrap!(q, h)
                    }
                    _ => wrap!(product(a, b), h),
                }
            }
            "sum" => {
                let (a, b) = (reg("a"), reg("b"));
                match via {
                    "ref" => Dyn(Rc::new(erase0(sum(leak(a) as &'static Dyn<C>, Rc::new(b))))),
                    _ => Dyn(Rc::new(erase0(sum(a, b)))),
                }
            }
            "prodcons" => {
                let (a, b) = (reg("a"), reg("b"));
                let h = Has { f: has(&a).f, ..has(&b) };
                wrap!(product(a, b).consolidate(), h)
            }
            "prodprod" => {
                // a (b c) with intermediate caching
                let (a, b, c) = (reg("a"), reg("b"), reg("c"));
                let h = Has { f: has(&a).f, ..has(&c) };
                match via {
                    "cached" => wrap!(product(a, product(b, c).cache_cols()), h),
                    "cons" => wrap!(product(a, product(b, c).consolidate()), h),
                    _ => wrap!(product(a, product(b, c)), h),
                }
            }
            "sumprod" => {
                // a (b + c)
                let (a, b, c) = (reg("a"), reg("b"), reg("c"));
                let h = Has { f: has(&a).f, ..none() };
                wrap!(nobasis product(a, sum(b, c)), h)
            }
            // ---- observations
            "ask" => {
                let _ = (reg("m").0.col)(Ix(e.at("x").int()));
                let mut e = e.clone();
                e.set("q", drain());
                rec.ev(e);
                continue;
            }
            "obs" => {
                rec.res(e, obs(&reg("m"), e));
                continue;
            }
            "eq" => {
                let (a, b, x) = (reg("a"), reg("b"), Ix(e.at("x").int()));
                let r1 = a.eq_on_col(&b, x);
                let r2 = b.eq_on_col(&a, x);
                rec.res(e, Val::from(vec![r1, r2]));
                continue;
            }
            "bobs" => {
                // reversed and unreversed bases, observed directly
                let b = ixs(e.at("b"));
                let l = |n: usize, f: &dyn Fn(usize) -> i64| Val::from((0..n).map(f).collect::<Vec<i64>>());
                let r = match via {
                    "std" => {
                        // fully qualified: StandardBasis and ReverseBasis dereference to themselves
                        let s = StandardBasis::new(b.len());
                        let rv = ColBasis::reverse(s);
                        fn ob<B: ColBasis>(b: &B) -> Val
                        where
                            B::ElemT: IsIx,
                        {
                            Val::from((0..ColBasis::size(b)).map(|i| ColBasis::element(b, i).to().0).collect::<Vec<i64>>())
                        }
                        vec![ob(&s), ob(&rv), ob(&ColBasis::unreverse::<usize>(rv)), ob(&s)]
                    }
                    "split" => {
                        let u: &'static UserBasis = leak(UserBasis { all: b.clone(), dims: vec![vec![], b.clone()] });
                        let rv = u.reverse();
                        let un = ColBasis::unreverse::<Ix>(rv);
                        vec![
                            l(u.size(), &|i| u.element(i).to().0),
                            l(rv.in_dimension(1).size(), &|i| rv.in_dimension(1).element(i).to().0),
                            l(un.size(), &|i| un.element(i).to().0),
                            l(un.in_dimension(1).size(), &|i| un.in_dimension(1).element(i).to().0),
                        ]
                    }
                    _ => {
                        let v: &'static Vec<Ix> = leak(b.clone());
                        let rv = v.reverse();
                        vec![
                            l(v.size(), &|i| v.element(i).to().0),
                            l(rv.size(), &|i| rv.element(i).to().0),
                            l(rv.unreverse().size(), &|i| rv.unreverse().element(i).to().0),
                            l(ColBasis::unreverse::<Ix>(rv).size(), &|i| ColBasis::unreverse::<Ix>(rv).element(i).to().0),
                        ]
                    }
                };
                rec.res(e, Val::A(r));
                continue;
            }
            o => bad(o),
        };
        regs.push(new);
        let mut e = e.clone();
        if via != "clone" && case.get("log").is_some() {
            e.set("q", drain());
        }
        rec.ev(e);
    }
}

#[allow(dead_code)]
fn _uses<C: Coef>(m: &Dyn<C>) {
    let _ = m.filtration_value(Ix(0));
}
