//! Type-erased matrix oracles, so that programs over adaptors can be composed at run time.
//! All ids are Ix; Reverse<Ix(x)> is represented by Ix(-x), Reverse<Fv(x)> by Fv(-x).
use crate::coef::Coef;
use crate::key::{Fv, Ix};
use phlite::columns::ColumnEntry;
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use std::cmp::Reverse;
use std::collections::HashMap;
use std::rc::Rc;

pub type Terms<C> = Vec<(C, Ix)>;
pub type FTerms<C> = Vec<(C, Ix, Fv)>;

pub struct DynBasis {
    pub size: Box<dyn Fn() -> usize>,
    pub elem: Box<dyn Fn(usize) -> Ix>,
    pub look: Box<dyn Fn() -> HashMap<Ix, usize>>,
    pub dims: Option<Vec<DynBasis>>,
}
impl ColBasis for DynBasis {
    type ElemT = Ix;
    fn element(&self, i: usize) -> Ix {
        (self.elem)(i)
    }
    fn size(&self) -> usize {
        (self.size)()
    }
}
impl SplitByDimension for DynBasis {
    type SubBasisT = DynBasis;
    fn in_dimension(&self, d: usize) -> &DynBasis {
        &self.dims.as_ref().unwrap()[d]
    }
}

pub struct DynIn<C: Coef> {
    pub col: Box<dyn Fn(Ix) -> Terms<C>>,
    pub filt: Option<Box<dyn Fn(Ix) -> Fv>>,
    pub colf: Option<Box<dyn Fn(Ix) -> FTerms<C>>>,
    pub bh: Option<Box<dyn Fn(Ix) -> FTerms<C>>>,
    pub basis: Option<Rc<DynBasis>>,
}
pub struct Dyn<C: Coef>(pub Rc<DynIn<C>>);
impl<C: Coef> Clone for Dyn<C> {
    fn clone(&self) -> Self {
        Dyn(self.0.clone())
    }
}
impl<C: Coef> MatrixOracle for Dyn<C> {
    type CoefficientField = C;
    type ColT = Ix;
    type RowT = Ix;
    fn column(&self, col: Ix) -> impl Iterator<Item = (C, Ix)> {
        crate::hint::hinted((self.0.col)(col).into_iter(), col.0)
    }
}
impl<C: Coef> HasRowFiltration for Dyn<C> {
    type FiltrationT = Fv;
    fn filtration_value(&self, row: Ix) -> Fv {
        (self.0.filt.as_ref().unwrap())(row)
    }
    fn column_with_filtration(&self, col: Ix) -> impl Iterator<Item = ColumnEntry<Fv, Ix, C>> {
        (self.0.colf.as_ref().unwrap())(col).into_iter().map(Into::into)
    }
}
impl<C: Coef> HasColBasis for Dyn<C> {
    type BasisT = DynBasis;
    type BasisRef<'a> = Rc<DynBasis>;
    fn basis(&self) -> Rc<DynBasis> {
        self.0.basis.as_ref().unwrap().clone()
    }
}

/// Dyn seen through Reverse types (to apply the trait's unreverse): the same view with ids negated.
#[derive(Clone)]
pub struct AsRev<C: Coef>(pub Dyn<C>);
impl<C: Coef> MatrixOracle for AsRev<C> {
    type CoefficientField = C;
    type ColT = Reverse<Ix>;
    type RowT = Reverse<Ix>;
    fn column(&self, col: Reverse<Ix>) -> impl Iterator<Item = (C, Reverse<Ix>)> {
        self.0.column(Ix(-col.0 .0)).map(|(c, r)| (c, Reverse(Ix(-r.0)))).collect::<Vec<_>>().into_iter()
    }
}
impl<C: Coef> HasRowFiltration for AsRev<C> {
    type FiltrationT = Reverse<Fv>;
    fn filtration_value(&self, row: Reverse<Ix>) -> Reverse<Fv> {
        Reverse(Fv(-self.0.filtration_value(Ix(-row.0 .0)).0))
    }
    fn column_with_filtration(
        &self,
        col: Reverse<Ix>,
    ) -> impl Iterator<Item = ColumnEntry<Reverse<Fv>, Reverse<Ix>, C>> {
        self.0
            .column_with_filtration(Ix(-col.0 .0))
            .map(|e| {
                let (c, r, f): (C, Ix, Fv) = e.into();
                (c, Reverse(Ix(-r.0)), Reverse(Fv(-f.0))).into()
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
}
pub struct RevDynBasis(Rc<DynBasis>, Option<Vec<RevDynBasis>>);
pub struct RevDynSub(DynBasis);
fn rev_basis(b: Rc<DynBasis>, split: bool) -> RevDynBasis {
    let subs = if split {
        b.dims.as_ref().map(|ds| {
            (0..ds.len())
                .map(|d| {
                    let (b1, b2, b3) = (b.clone(), b.clone(), b.clone());
                    let sub = DynBasis {
                        size: Box::new(move || b1.dims.as_ref().unwrap()[d].size()),
                        elem: Box::new(move |i| b2.dims.as_ref().unwrap()[d].element(i)),
                        look: Box::new(move || b3.dims.as_ref().unwrap()[d].construct_reverse_lookup()),
                        dims: None,
                    };
                    RevDynBasis(Rc::new(sub), None)
                })
                .collect()
        })
    } else {
        None
    };
    RevDynBasis(b, subs)
}
impl ColBasis for RevDynBasis {
    type ElemT = Reverse<Ix>;
    fn element(&self, i: usize) -> Reverse<Ix> {
        Reverse(Ix(-self.0.element(i).0))
    }
    fn size(&self) -> usize {
        self.0.size()
    }
}
impl SplitByDimension for RevDynBasis {
    type SubBasisT = RevDynBasis;
    fn in_dimension(&self, d: usize) -> &RevDynBasis {
        &self.1.as_ref().unwrap()[d]
    }
}
impl<C: Coef> HasColBasis for AsRev<C> {
    type BasisT = RevDynBasis;
    type BasisRef<'a> = Rc<RevDynBasis>;
    fn basis(&self) -> Rc<RevDynBasis> {
        Rc::new(rev_basis(self.0.basis(), true))
    }
}

/// Types that stand for Ix (columns, rows) or Fv after adaptors
pub trait IsIx: Ord + Clone {
    fn to(&self) -> Ix;
    fn of(x: Ix) -> Self;
}
impl IsIx for Ix {
    fn to(&self) -> Ix {
        *self
    }
    fn of(x: Ix) -> Self {
        x
    }
}
impl IsIx for usize {
    fn to(&self) -> Ix {
        Ix(*self as i64)
    }
    fn of(x: Ix) -> Self {
        usize::try_from(x.0).unwrap()
    }
}
impl<T: IsIx> IsIx for Reverse<T> {
    fn to(&self) -> Ix {
        Ix(-self.0.to().0)
    }
    fn of(x: Ix) -> Self {
        Reverse(T::of(Ix(-x.0)))
    }
}
pub trait IsFv: Ord + Clone {
    fn to(&self) -> Fv;
}
impl IsFv for Fv {
    fn to(&self) -> Fv {
        *self
    }
}
impl IsFv for () {
    fn to(&self) -> Fv {
        Fv(0)
    }
}
impl<T: IsFv> IsFv for Reverse<T> {
    fn to(&self) -> Fv {
        Fv(-self.0.to().0)
    }
}

pub fn erase_col<M, C>(m: Rc<M>) -> Box<dyn Fn(Ix) -> Terms<C>>
where
    C: Coef,
    M: MatrixOracle<CoefficientField = C> + 'static,
    M::ColT: IsIx,
    M::RowT: IsIx,
{
    Box::new(move |x| (*m).column(M::ColT::of(x)).map(|(c, r)| (c, r.to())).collect())
}

/// Matrix without filtration
pub fn erase0<M, C>(m: M) -> DynIn<C>
where
    C: Coef,
    M: MatrixOracle<CoefficientField = C> + 'static,
    M::ColT: IsIx,
    M::RowT: IsIx,
{
    DynIn { col: erase_col(Rc::new(m)), filt: None, colf: None, bh: None, basis: None }
}
/// Matrix with filtration
pub fn erase_f<M, C>(m: Rc<M>) -> DynIn<C>
where
    C: Coef,
    M: HasRowFiltration<CoefficientField = C> + 'static,
    M::ColT: IsIx,
    M::RowT: IsIx,
    M::FiltrationT: IsFv,
{
    fn t<C: Coef, R: IsIx + phlite::matrices::BasisElement, F: IsFv + phlite::matrices::FiltrationValue>(
        e: ColumnEntry<F, R, C>,
    ) -> (C, Ix, Fv) {
        let (c, r, f): (C, R, F) = e.into();
        (c, r.to(), f.to())
    }
    let (m1, m2, m3) = (m.clone(), m.clone(), m.clone());
    DynIn {
        col: erase_col(m),
        filt: Some(Box::new(move |r| (*m1).filtration_value(M::RowT::of(r)).to())),
        colf: Some(Box::new(move |x| (*m2).column_with_filtration(M::ColT::of(x)).map(t).collect())),
        bh: Some(Box::new(move |x| (*m3).build_bhcol(M::ColT::of(x)).drain_sorted().map(t).collect())),
        basis: None,
    }
}
fn look<B: ColBasis>(b: &B) -> HashMap<Ix, usize>
where
    B::ElemT: IsIx + std::hash::Hash,
{
    b.construct_reverse_lookup().iter().map(|(k, v)| (k.to(), *v)).collect()
}
pub fn erase_b<M, C>(m: Rc<M>) -> DynBasis
where
    C: Coef,
    M: HasColBasis<CoefficientField = C> + 'static,
    M::ColT: IsIx + std::hash::Hash,
{
    let (m1, m2, m3) = (m.clone(), m.clone(), m.clone());
    DynBasis {
        size: Box::new(move || m1.basis().size()),
        elem: Box::new(move |i| m2.basis().element(i).to()),
        look: Box::new(move || look(&*m3.basis())),
        dims: None,
    }
}
pub fn erase_split<M, C>(m: Rc<M>, n: usize) -> DynBasis
where
    C: Coef,
    M: HasColBasis<CoefficientField = C> + 'static,
    M::BasisT: SplitByDimension,
    M::ColT: IsIx + std::hash::Hash,
{
    let mut b = erase_b(m.clone());
    b.dims = Some(
        (0..n)
            .map(|d| {
                let (m1, m2, m3) = (m.clone(), m.clone(), m.clone());
                DynBasis {
                    size: Box::new(move || m1.basis().in_dimension(d).size()),
                    elem: Box::new(move |i| m2.basis().in_dimension(d).element(i).to()),
                    look: Box::new(move || look(m3.basis().in_dimension(d))),
                    dims: None,
                }
            })
            .collect(),
    );
    b
}
