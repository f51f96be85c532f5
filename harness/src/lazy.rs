//! Lazy type-erased matrix oracles (iterators stay alive) and recording user matrices.
use crate::coef::Coef;
use crate::dynm::{IsFv, IsIx};
use crate::key::{Fv, Ix};
use phlite::columns::ColumnEntry;
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle};
use std::cell::RefCell;
use std::collections::HashMap;

pub type It<T> = Box<dyn Iterator<Item = T>>;
pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

pub struct LIn<C: Coef> {
    pub col: Box<dyn Fn(Ix) -> It<(C, Ix)>>,
    pub filt: Option<Box<dyn Fn(Ix) -> Fv>>,
    pub colf: Option<Box<dyn Fn(Ix) -> It<(C, Ix, Fv)>>>,
    pub basis: Option<Box<dyn Fn() -> Vec<Ix>>>,
}
pub struct LDyn<C: Coef>(pub &'static LIn<C>);
impl<C: Coef> Clone for LDyn<C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C: Coef> Copy for LDyn<C> {}
impl<C: Coef> MatrixOracle for LDyn<C> {
    type CoefficientField = C;
    type ColT = Ix;
    type RowT = Ix;
    fn column(&self, col: Ix) -> impl Iterator<Item = (C, Ix)> {
        (self.0.col)(col)
    }
}
impl<C: Coef> HasRowFiltration for LDyn<C> {
    type FiltrationT = Fv;
    fn filtration_value(&self, row: Ix) -> Fv {
        (self.0.filt.as_ref().unwrap())(row)
    }
    fn column_with_filtration(&self, col: Ix) -> impl Iterator<Item = ColumnEntry<Fv, Ix, C>> {
        (self.0.colf.as_ref().unwrap())(col).map(Into::into)
    }
}
pub struct Own(pub Vec<Ix>);
impl std::ops::Deref for Own {
    type Target = Vec<Ix>;
    fn deref(&self) -> &Vec<Ix> {
        &self.0
    }
}
impl<C: Coef> HasColBasis for LDyn<C> {
    type BasisT = Vec<Ix>;
    type BasisRef<'a> = Own;
    fn basis(&self) -> Own {
        Own((self.0.basis.as_ref().unwrap())())
    }
}

/// Erase a leaked matrix
pub fn lazy0<M, C>(m: &'static M) -> LIn<C>
where
    C: Coef,
    M: MatrixOracle<CoefficientField = C>,
    M::ColT: IsIx,
    M::RowT: IsIx,
{
    LIn {
        col: Box::new(move |x| Box::new(m.column(M::ColT::of(x)).map(|(c, r)| (c, r.to())))),
        filt: None,
        colf: None,
        basis: None,
    }
}
pub fn lazyf<M, C>(m: &'static M) -> LIn<C>
where
    C: Coef,
    M: HasRowFiltration<CoefficientField = C>,
    M::ColT: IsIx,
    M::RowT: IsIx,
    M::FiltrationT: IsFv,
{
    let mut l = lazy0(m);
    l.filt = Some(Box::new(move |r| m.filtration_value(M::RowT::of(r)).to()));
    l.colf = Some(Box::new(move |x| {
        Box::new(m.column_with_filtration(M::ColT::of(x)).map(|e| {
            let (c, r, f): (C, M::RowT, M::FiltrationT) = e.into();
            (c, r.to(), f.to())
        }))
    }));
    l
}
pub fn basis_of<M, C>(m: &'static M) -> Box<dyn Fn() -> Vec<Ix>>
where
    C: Coef,
    M: HasColBasis<CoefficientField = C>,
    M::ColT: IsIx,
{
    Box::new(move || {
        let b = m.basis();
        (0..b.size()).map(|i| b.element(i).to()).collect()
    })
}

/// A request made to a recorder: kind 0 = column, 1 = filtration value
pub type Log = &'static RefCell<Vec<(i64, u8, i64)>>;

/// User matrix that records what it is asked for
pub struct Recorder<C: Coef> {
    pub id: i64,
    pub m: LDyn<C>,
    pub log: Log,
}
impl<C: Coef> MatrixOracle for Recorder<C> {
    type CoefficientField = C;
    type ColT = Ix;
    type RowT = Ix;
    fn column(&self, col: Ix) -> impl Iterator<Item = (C, Ix)> {
        self.log.borrow_mut().push((self.id, 0, col.0));
        crate::hint::hinted(self.m.column(col), col.0)
    }
}
impl<C: Coef> HasRowFiltration for Recorder<C> {
    type FiltrationT = Fv;
    fn filtration_value(&self, row: Ix) -> Fv {
        self.log.borrow_mut().push((self.id, 1, row.0));
        self.m.filtration_value(row)
    }
}
impl<C: Coef> HasColBasis for Recorder<C> {
    type BasisT = Vec<Ix>;
    type BasisRef<'a> = Own;
    fn basis(&self) -> Own {
        self.m.basis()
    }
}

pub fn table<C: Coef>(
    cols: HashMap<i64, Vec<(C, Ix)>>,
    filt: Option<HashMap<i64, i64>>,
    basis: Option<Vec<Ix>>,
) -> LDyn<C> {
    let cols = leak(cols);
    LDyn(leak(LIn {
        col: Box::new(move |x| {
            Box::new(cols.get(&x.0).unwrap_or_else(|| panic!("request for an unknown column")).iter().copied())
        }),
        filt: filt.map(|f| {
            Box::new(move |r: Ix| Fv(*f.get(&r.0).unwrap_or_else(|| panic!("filtration of an unknown row"))))
                as Box<dyn Fn(Ix) -> Fv>
        }),
        colf: None,
        basis: basis.map(|b| Box::new(move || b.clone()) as Box<dyn Fn() -> Vec<Ix>>),
    }))
}
