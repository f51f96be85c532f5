//! C16: matrices of the grounded path complex.
use crate::coef::Coef;
use crate::json::{bad, obj, Val};
use crate::{with_cf, Rec};
use ordered_float::NotNan;
use phlite::columns::ColumnEntry;
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::{DigraphEdgeSet, DigraphFiltration, GrPPHCoboundary, MapDigraphFiltration, PathHom2Cell, PathHomCell, PathHomSingleBasis, VecDigraphFiltration};

fn cell(x: &PathHomCell) -> Val {
    let v: Vec<u16> = match *x {
        PathHomCell::Node(a) => vec![0, a],
        PathHomCell::Edge(a, b) => vec![1, a, b],
        PathHomCell::TwoCell(PathHom2Cell::DoubleEdge(a, b)) => vec![2, a, b],
        PathHomCell::TwoCell(PathHom2Cell::DirectedTriangle(a, b, c)) => vec![3, a, b, c],
        PathHomCell::TwoCell(PathHom2Cell::LongSquare(a, b, c, d)) => vec![4, a, b, c, d],
    };
    Val::from(v.into_iter().map(i64::from).collect::<Vec<i64>>())
}
fn time(x: NotNan<f64>, u: f64) -> Val {
    let x = x.into_inner();
    let y = (x / u).round();
    Val::I(if x == f64::INFINITY {
        999_999
    } else if y * u == x && y.abs() < 1e8 {
        y as i64
    } else {
        -7_777_777
    })
}

fn unit(case: &Val) -> f64 {
    case.at("u").str().parse().unwrap()
}

pub fn run(case: &Val, rec: &Rec) {
    with_cf!(case.at("p").int(), C => pick::<C>(case, rec))
}

fn pick<C: Coef>(case: &Val, rec: &Rec) {
    let n = case.at("n").us();
    let ts: Vec<Vec<i64>> = case.at("times").arr().iter().map(|t| t.ints()).collect();
    let u = unit(case);
    let t = |x: i64| NotNan::new(x as f64 * u).unwrap();
    match case.at("ft").str() {
        "vec" => {
            let mut f: VecDigraphFiltration = vec![vec![None; n]; n];
            for e in &ts {
                f[e[0] as usize][e[1] as usize] = Some(t(e[2]));
            }
            go::<C, _>(case, rec, f, n)
        }
        "map" => {
            let f: MapDigraphFiltration = ts.iter().map(|e| ((e[0] as u16, e[1] as u16), t(e[2]))).collect();
            go::<C, _>(case, rec, f, n)
        }
        o => bad(o),
    }
}

fn go<C: Coef, F: DigraphFiltration>(case: &Val, rec: &Rec, f: F, n: usize) {
    let ground: DigraphEdgeSet = case.at("ground").arr().iter().map(|e| (e.ints()[0] as u16, e.ints()[1] as u16)).collect();
    let view = case.at("view").str();
    let u = unit(case);
    rec.ev(obj(vec![("op", "digraph".into())]));
    // 2-cells chosen by the driver, whether the coboundary matrix uses them or not
    let more: Vec<PathHomCell> = case
        .at("more")
        .arr()
        .iter()
        .map(|x| {
            let v: Vec<u16> = x.ints().into_iter().map(|i| i as u16).collect();
            PathHomCell::TwoCell(match v[0] {
                2 => PathHom2Cell::DoubleEdge(v[1], v[2]),
                3 => PathHom2Cell::DirectedTriangle(v[1], v[2], v[3]),
                4 => PathHom2Cell::LongSquare(v[1], v[2], v[3], v[4]),
                _ => bad("no such cell"),
            })
        })
        .collect();
    if view == "bd" {
        // the boundary matrix alone, whose cost does not depend on the number of nodes
        let col = (0..more.len()).map(|i| (NotNan::new(i as f64).unwrap(), more[i])).collect();
        let bd = GrPPHBoundary::<C, _>::build(&f, &ground, PathHomSingleBasis(col));
        let mut cells: Vec<PathHomCell> = more.iter().flat_map(|s| bd.column(*s).map(|(_, r)| r).collect::<Vec<_>>()).collect();
        cells.extend(cells.clone().into_iter().flat_map(|s| bd.column(s).map(|(_, r)| r).collect::<Vec<_>>()));
        cells.extend(more);
        cells.sort();
        cells.dedup();
        cells.iter().for_each(|s| boundary_events(rec, &bd, *s, u));
        return;
    }
    let m = GrPPHCoboundary::<C, _>::build(&f, &ground, n as u16);
    let list = |b: &dyn Fn(usize) -> PathHomCell, k: usize| Val::A((0..k).map(|i| cell(&b(i))).collect());
    let b = m.basis();
    let (b0, b1) = (b.in_dimension(0), b.in_dimension(1));
    rec.ev(obj(vec![
        ("op", "basis".into()),
        ("all", list(&|i| b.element(i), b.size())),
        ("nodes", list(&|i| b0.element(i), b0.size())),
        ("edges", list(&|i| b1.element(i), b1.size())),
    ]));
    let mut cells = vec![];
    let todo: Vec<PathHomCell> = (0..b.size()).map(|i| b.element(i)).collect();
    for s in &todo {
        let (r, fr): (Vec<_>, Vec<_>) = match view {
            "plain" => (m.column(*s).collect(), m.column_with_filtration(*s).collect()),
            "inner" => (m.matrix.column(*s).collect(), m.matrix.column_with_filtration(*s).collect()),
            "cached" => {
                let k = (&m).cache_cols();
                (k.column(*s).collect(), k.column_with_filtration(*s).collect())
            }
            "rev" => {
                let k = (&m).reverse();
                let rs = std::cmp::Reverse(*s);
                (
                    k.column(rs).map(|(c, r)| (c, r.0)).collect(),
                    k.column_with_filtration(rs)
                        .map(|e| ColumnEntry { filtration_value: e.filtration_value.0, row_index: e.row_index.0, coeff: e.coeff })
                        .collect(),
                )
            }
            o => bad(o),
        };
        let a = r.iter().map(|(c, r)| Val::A(vec![c.dec(), cell(r)])).collect();
        rec.ev(obj(vec![("op", "cob".into()), ("s", cell(s)), ("r", Val::A(a))]));
        let a = fr.iter().map(|e| Val::A(vec![e.coeff.dec(), cell(&e.row_index), time(e.filtration_value, u)])).collect();
        rec.ev(obj(vec![("op", "fcob".into()), ("s", cell(s)), ("r", Val::A(a))]));
        cells.extend(r.into_iter().map(|x| x.1));
    }
    rec.ev(obj(vec![("op", "all".into())]));
    cells.extend(todo.iter().copied());
    cells.extend(more);
    cells.sort();
    cells.dedup();
    let col: Vec<(NotNan<f64>, PathHomCell)> = cells.iter().filter(|x| x.dimension() == 2).map(|x| (m.filtration_value(*x), *x)).collect();
    let bd = GrPPHBoundary::<C, _>::build(&f, &ground, PathHomSingleBasis(col));
    for s in &cells {
        boundary_events(rec, &bd, *s, u);
        rec.ev(obj(vec![("op", "fval".into()), ("mat", "cob".into()), ("s", cell(s)), ("r", time(m.filtration_value(*s), u))]));
    }
}

fn boundary_events<C: Coef, M>(rec: &Rec, bd: &M, s: PathHomCell, u: f64)
where
    M: MatrixOracle<CoefficientField = C, ColT = PathHomCell, RowT = PathHomCell> + HasRowFiltration<FiltrationT = NotNan<f64>>,
{
    let a = bd.column(s).map(|(c, r)| Val::A(vec![c.dec(), cell(&r)])).collect();
    rec.ev(obj(vec![("op", "bd".into()), ("s", cell(&s)), ("r", Val::A(a))]));
    let a = bd.column_with_filtration(s).map(|e| Val::A(vec![e.coeff.dec(), cell(&e.row_index), time(e.filtration_value, u)])).collect();
    rec.ev(obj(vec![("op", "fbd".into()), ("s", cell(&s)), ("r", Val::A(a))]));
    rec.ev(obj(vec![("op", "fval".into()), ("mat", "bd".into()), ("s", cell(&s)), ("r", time(bd.filtration_value(s), u))]));
}
