use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{ToPrimitive, Zero};
use std::fmt::Display;

use rust_systre::arithmetic::geometry::{
    AffineMap, CoordinateMap, ModZ, Point, ScalarProduct, Vector,
};
use rust_systre::arithmetic::linear_algebra::{extend_basis, gcdx, LinearAlgebra};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::arithmetic::modular_solver as ms;
use rust_systre::spacegroups::{basics, lattices};

use crate::guarded;
use crate::json::*;

type Q = BigRational;

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash)]
pub struct A {}
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash)]
pub struct B {}
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash)]
pub struct C {}

pub fn q(x: &Q) -> J { s(x) }

pub fn q_in(j: &J) -> Q {
    match j {
        J::Num(v) => Q::from(BigInt::from(*v)),
        J::Str(t) => {
            let mut it = t.split('/');
            let a: BigInt = it.next().unwrap().parse().unwrap_or_else(|_| bad("rational"));
            let b: BigInt = it.next().map(|x| x.parse().unwrap_or_else(|_| bad("rational"))).unwrap_or(BigInt::from(1));
            Q::new(a, b)
        }
        _ => bad("rational expected"),
    }
}

fn vec_in(j: &J) -> Vec<Q> { j.arr().iter().map(q_in).collect() }
fn vecs_in(j: &J) -> Vec<Vec<Q>> { j.arr().iter().map(vec_in).collect() }
fn ivec_in(j: &J) -> Vec<i64> { j.arr().iter().map(|x| x.num()).collect() }
fn imat_in(j: &J) -> Vec<Vec<i64>> { j.arr().iter().map(ivec_in).collect() }

fn vec_out<T: Display>(v: &[T]) -> J { J::Arr(v.iter().map(s).collect()) }
fn vecs_out<T: Display>(v: &[Vec<T>]) -> J { J::Arr(v.iter().map(|x| vec_out(x)).collect()) }

pub fn rows<T: Display + Clone>(m: &Matrix<T>) -> J {
    let (r, c) = m.shape();
    J::Arr((0..r).map(|i| J::Arr((0..c).map(|j| s(&m[(i, j)])).collect())).collect())
}

/// Matrix with its shape, so that degenerate shapes stay visible.
fn mat_out<T: Display + Clone>(m: &Matrix<T>) -> J {
    let (r, c) = m.shape();
    obj(vec![("nr", n(r)), ("nc", n(c)), ("rows", rows(m))])
}

fn opt<T, F: Fn(&T) -> J>(x: &Option<T>, f: F) -> J {
    match x { None => J::Null, Some(v) => J::Arr(vec![f(v)]) }
}

trait Elem: Sized + Clone + Display {
    fn of(j: &J) -> Self;
    /// the exact value
    fn out(&self) -> J { s(self) }
}
impl Elem for f64 {
    fn of(j: &J) -> Self { q_in(j).to_f64().unwrap_or_else(|| bad("float")) }
    fn out(&self) -> J {
        match Q::from_float(*self) { Some(x) => s(&x), None => s(self) }
    }
}
fn evec_out<T: Elem>(v: &[T]) -> J { J::Arr(v.iter().map(T::out).collect()) }
fn emat_out<T: Elem>(m: &Matrix<T>) -> J {
    let (r, c) = m.shape();
    let rows = (0..r).map(|i| J::Arr((0..c).map(|j| m[(i, j)].out()).collect())).collect();
    obj(vec![("nr", n(r)), ("nc", n(c)), ("rows", J::Arr(rows))])
}
impl Elem for Q { fn of(j: &J) -> Self { q_in(j) } }
impl Elem for i64 { fn of(j: &J) -> Self { j.num() } }
impl Elem for BigInt { fn of(j: &J) -> Self { let x = q_in(j); if x.is_integer() { x.to_integer() } else { bad("integer") } } }
impl Elem for i32 { fn of(j: &J) -> Self { j.num() as i32 } }

/// {"nc": columns, "rows": [[..]..]}: nc matters when there are no rows.
fn mat_in<T: Elem>(j: &J) -> Matrix<T> {
    let nc = j.get("nc").num() as usize;
    let mut d = vec![];
    for r in j.get("rows").arr() {
        if r.arr().len() != nc { bad::<()>("ragged matrix"); }
        for x in r.arr() { d.push(T::of(x)); }
    }
    Matrix::new(nc, &d)
}

pub fn linalg(rq: &J) -> J {
    match rq.get("ty").str() {
        "i32" => linalg_ty::<i32>(rq),
        "i64" => linalg_ty::<i64>(rq),
        "big" => linalg_ty::<BigInt>(rq),
        "rat" => linalg_ty::<Q>(rq),
        "f64" => linalg_ty::<f64>(rq),
        _ => bad("ty"),
    }
}

fn linalg_ty<T>(rq: &J) -> J
    where
        T: Elem + rust_systre::arithmetic::linear_algebra::Scalar + std::ops::Neg<Output = T>,
        Matrix<T>: LinearAlgebra<T>,
{
    match rq.get("what").str() {
        "extend" => {
            let mut basis: Vec<Vec<T>> = vec![];
            let mut out = vec![];
            for v in rq.get("vecs").arr() {
                let v: Vec<T> = v.arr().iter().map(T::of).collect();
                out.push(guarded(|| { extend_basis(&v, &mut basis); J::Arr(basis.iter().map(|x| evec_out(x)).collect()) }));
            }
            J::Arr(out)
        }
        "rank" => guarded(|| n(mat_in::<T>(rq.get("a")).rank())),
        "det" => guarded(|| mat_in::<T>(rq.get("a")).determinant().out()),
        "reduced" => guarded(|| emat_out(&mat_in::<T>(rq.get("a")).reduced_basis())),
        "null" => guarded(|| opt(&mat_in::<T>(rq.get("a")).null_space(), emat_out)),
        "inverse" => guarded(|| opt(&mat_in::<T>(rq.get("a")).inverse(), emat_out)),
        "solve" => guarded(|| opt(&mat_in::<T>(rq.get("a")).solve(&mat_in::<T>(rq.get("b"))), emat_out)),
        "gcdx" if rq.get("ty").str() == "i32" => guarded(|| {
            let (a, b) = (rq.get("x").num() as i32, rq.get("y").num() as i32);
            let (g, r, t, u, v) = gcdx(a, b);
            vec_out(&[g, r, t, u, v])
        }),
        "gcdx" => guarded(|| {
            let (a, b) = (rq.get("x").num(), rq.get("y").num());
            let (g, r, t, u, v) = gcdx(a, b);
            vec_out(&[g, r, t, u, v])
        }),
        _ => bad("linalg what"),
    }
}

/// The operators exist for operands by value and by reference; `form` picks.
macro_rules! bin {
    ($form:expr, $a:expr, $op:tt, $b:expr) => {
        match $form % 4 { 0 => &$a $op &$b, 1 => &$a $op $b, 2 => $a $op &$b, _ => $a $op $b }
    };
}
macro_rules! assign {
    ($form:expr, $a:expr, $op:tt, $b:expr) => {{ let mut m = $a; if $form % 2 == 0 { m $op &$b } else { m $op $b }; m }};
}
macro_rules! val {
    ($form:expr, $a:expr, $b:expr) => { if $form % 2 == 0 { &$a * &$b } else { $a * $b } };
}
macro_rules! neg {
    ($form:expr, $a:expr) => { if $form % 2 == 0 { -&$a } else { -$a } };
}

fn form(rq: &J) -> i64 { let f = rq.get("form"); if f.is_null() { 0 } else { f.num() } }

pub fn matrix(rq: &J) -> J {
    let k = form(rq);
    let a = || mat_in::<Q>(rq.get("a"));
    let b = || mat_in::<Q>(rq.get("b"));
    let x = || q_in(rq.get("x"));
    let i = |k: &str| rq.get(k).num() as usize;
    guarded(|| match rq.get("what").str() {
        "add" => mat_out(&bin!(k, a(), +, b())),
        "sub" => mat_out(&bin!(k, a(), -, b())),
        "mul" => mat_out(&bin!(k, a(), *, b())),
        "neg" => mat_out(&neg!(k, a())),
        "scale" => mat_out(&bin!(k, a(), *, x())),
        "scale_assign" => mat_out(&assign!(k, a(), *=, x())),
        "sdiv" => mat_out(&bin!(k, a(), /, x())),
        "sdiv_assign" => mat_out(&assign!(k, a(), /=, x())),
        "sadd" => mat_out(&bin!(k, a(), +, x())),
        "sadd_assign" => mat_out(&assign!(k, a(), +=, x())),
        "ssub" => mat_out(&bin!(k, a(), -, x())),
        "ssub_assign" => mat_out(&assign!(k, a(), -=, x())),
        "addassign" => mat_out(&assign!(k, a(), +=, b())),
        "subassign" => mat_out(&assign!(k, a(), -=, b())),
        "transpose" => mat_out(&a().transpose()),
        "hstack" => mat_out(&Matrix::hstack(&rq.get("ms").arr().iter().map(mat_in::<Q>).collect::<Vec<_>>())),
        "vstack" => mat_out(&Matrix::vstack(&rq.get("ms").arr().iter().map(mat_in::<Q>).collect::<Vec<_>>())),
        "submatrix" => mat_out(&a().submatrix(i("r0")..i("r1"), i("c0")..i("c1"))),
        "get_row" => vec_out(&a().get_row(i("i"))),
        "get_rows" => vecs_out(&a().get_rows()),
        "get_col" => vec_out(&a().get_col(i("i"))),
        "identity" => mat_out(&Matrix::<Q>::identity(i("i"))),
        "zero" => mat_out(&Matrix::<Q>::zero(i("i"), i("j"))),
        "unit_vector" => mat_out(&Matrix::<Q>::unit_vector(i("i"), i("j"))),
        "is_identity" => J::Bool(a().is_identity()),
        "collect" => {
            let m = a();
            let nc = m.shape().1;
            let t: Matrix<Q> = if k % 2 == 0 { m.iter().cloned().collect() } else { m.into_iter().collect() };
            mat_out(&t.reshape(nc))
        }
        "set" => { let mut m = a(); m[(i("r0"), i("c0"))] = x(); mat_out(&m) }
        "at" => s(&a()[(i("r0"), i("c0"))]),
        "reshape" => mat_out(&a().reshape(i("i"))),
        "row" => mat_out(&Matrix::row(&vec_in(rq.get("v")))),
        "col" => mat_out(&Matrix::col(&vec_in(rq.get("v")))),
        "eq" => J::Bool(a() == b()),
        _ => bad("matrix what"),
    })
}

pub fn modular(rq: &J) -> J {
    guarded(|| match rq.get("what").str() {
        "inverse" => opt(&ms::modular_inverse(rq.get("x").num(), rq.get("p").num()), |x| s(x)),
        "echelon" => vecs_out(&ms::modular_row_echelon_form(&imat_in(rq.get("a")), rq.get("p").num())),
        "minv" => opt(&ms::modular_matrix_inverse(&imat_in(rq.get("a")), rq.get("p").num()), |m| vecs_out(m)),
        "mprod" => vecs_out(&ms::modular_matrix_product(&imat_in(rq.get("a")), &imat_in(rq.get("b")), rq.get("p").num())),
        "iprod" => vecs_out(&ms::integer_matrix_product(&imat_in(rq.get("a")), &imat_in(rq.get("b")))),
        "solve" => opt(&ms::solve(&imat_in(rq.get("a")), &imat_in(rq.get("b"))), |m| vecs_out(m)),
        _ => bad("modular what"),
    })
}

fn aff_in<CS: Clone>(j: &J) -> AffineMap<Q, CS> {
    let r = vecs_in(j.get("m"));
    let nc = r.len();
    let d: Vec<Q> = r.into_iter().flatten().collect();
    AffineMap::new(&Matrix::new(nc, &d), &Vector::new(&vec_in(j.get("s"))))
}

pub fn aff_out<CS: Clone>(a: &AffineMap<Q, CS>) -> J {
    obj(vec![("m", rows(&a.linear_matrix())), ("s", v_out(&a.shift()))])
}

fn v_out<CS>(v: &Vector<Q, CS>) -> J { J::Arr(v.iter().map(q).collect()) }
fn p_out<CS>(v: &Point<Q, CS>) -> J { J::Arr(v.iter().map(q).collect()) }
fn v_in<CS>(j: &J) -> Vector<Q, CS> { Vector::new(&vec_in(j)) }
fn p_in<CS>(j: &J) -> Point<Q, CS> { Point::new(&vec_in(j)) }

fn cm_out<X: Clone, Y: Clone>(c: &CoordinateMap<Q, X, Y>) -> J {
    obj(vec![("fwd", aff_out(&c.forward())), ("bwd", aff_out(&c.inverse().forward()))])
}

fn sp_out<X>(p: &ScalarProduct<Q, X>) -> J {
    let d = p.dim();
    J::Arr((0..d).map(|i| J::Arr((0..d).map(|j| s(&p[(i, j)])).collect())).collect())
}

pub fn geom(rq: &J) -> J {
    let k = form(rq);
    let f = |k: &str| aff_in::<A>(rq.get(k));
    let v = |k: &str| v_in::<A>(rq.get(k));
    let p = |k: &str| p_in::<A>(rq.get(k));
    let c = |k: &str| CoordinateMap::<Q, A, B>::new(&aff_in::<A>(rq.get(k)));
    guarded(|| match rq.get("what").str() {
        "aff_mul" => aff_out(&bin!(k, f("f"), *, f("g"))),
        "aff_inv" => opt(&f("f").inverse(), aff_out),
        "aff_point" => p_out(&bin!(k, f("f"), *, p("p"))),
        "aff_vector" => v_out(&bin!(k, f("f"), *, v("v"))),
        "aff_modz" => aff_out(&f("f").mod_z()),
        "aff_isid" => J::Bool(f("f").is_identity()),
        "aff_id" => aff_out(&AffineMap::<Q, A>::identity(rq.get("n").num() as usize)),
        "vec_modz" => v_out(&v("v").mod_z()),
        "vec_add" => v_out(&bin!(k, v("v"), +, v("w"))),
        "vec_sub" => v_out(&bin!(k, v("v"), -, v("w"))),
        "vec_neg" => v_out(&neg!(k, v("v"))),
        "vec_scale" => v_out(&bin!(k, v("v"), *, q_in(rq.get("x")))),
        "vec_div" => v_out(&bin!(k, v("v"), /, q_in(rq.get("x")))),
        "vec_add_assign" => v_out(&assign!(k, v("v"), +=, v("w"))),
        "vec_sub_assign" => v_out(&assign!(k, v("v"), -=, v("w"))),
        "vec_scale_assign" => v_out(&assign!(k, v("v"), *=, q_in(rq.get("x")))),
        "vec_div_assign" => v_out(&assign!(k, v("v"), /=, q_in(rq.get("x")))),
        "point_add_assign" => p_out(&assign!(k, p("p"), +=, v("v"))),
        "point_sub_assign" => p_out(&assign!(k, p("p"), -=, v("v"))),
        "origin" => p_out(&Point::<Q, A>::origin(rq.get("n").num() as usize)),
        "vec_zero" => v_out(&Vector::<Q, A>::zero(rq.get("n").num() as usize)),
        "aff_from" => aff_out(&AffineMap::<Q, A>::from(mat_in::<Q>(rq.get("g")))),
        "cm_from" => cm_out(&CoordinateMap::<Q, A, B>::from(mat_in::<Q>(rq.get("g")))),
        "point_add" => p_out(&bin!(k, p("p"), +, v("v"))),
        "point_sub_v" => p_out(&bin!(k, p("p"), -, v("v"))),
        "point_sub_p" => v_out(&bin!(k, p("p"), -, p("q"))),
        "vec_unit" => v_out(&Vector::<Q, A>::unit(rq.get("n").num() as usize, rq.get("k").num() as usize)),
        "sp_apply" => {
            let g: ScalarProduct<Q, A> = mat_in::<Q>(rq.get("g")).into();
            s(g.apply(&v("v"), &v("w")))
        }
        "aff_new" => aff_out(&AffineMap::<Q, A>::new(&mat_in::<Q>(rq.get("g")), &v("v"))),
        "vec_set" => { let mut w = v("v"); w[rq.get("k").num() as usize] = q_in(rq.get("x")); v_out(&w) }
        "point_set" => { let mut w = p("v"); w[rq.get("k").num() as usize] = q_in(rq.get("x")); p_out(&w) }
        "vec_at" => s(&v("v")[rq.get("k").num() as usize]),
        "point_at" => s(&p("v")[rq.get("k").num() as usize]),
        "dims" => J::Arr(vec![
            n(v("v").dim()), n(p("v").dim()), n(f("f").dim()), n(c("f").dim()),
            n(ScalarProduct::<Q, A>::default(v("v").dim()).dim())
        ]),
        "listed" => J::Arr(vec![
            J::Arr(v("v").iter().map(q).collect()), J::Arr(v("v").into_iter().map(|x| q(&x)).collect()),
            J::Arr(p("v").iter().map(q).collect()), J::Arr(p("v").into_iter().map(|x| q(&x)).collect()),
            v_out(&v("v").into_iter().collect::<Vector<Q, A>>()), p_out(&p("v").into_iter().collect::<Point<Q, A>>()),
            v_out(&Vector::<Q, A>::from(Matrix::col(&vec_in(rq.get("v"))))), p_out(&Point::<Q, A>::from(Matrix::col(&vec_in(rq.get("v")))))
        ]),
        "sp_default" => sp_out(&ScalarProduct::<Q, A>::default(rq.get("n").num() as usize)),
        "sp_new" => { let g: ScalarProduct<Q, A> = mat_in::<Q>(rq.get("g")).into(); sp_out(&g) }
        "cm_new" => cm_out(&c("f")),
        "cm_id" => cm_out(&CoordinateMap::<Q, A, B>::identity(rq.get("n").num() as usize)),
        "cm_isid" => J::Bool(c("f").is_identity()),
        "cm_inv" => cm_out(&c("f").inverse()),
        "cm_mul" => {
            let d = CoordinateMap::<Q, B, C>::new(&aff_in::<B>(rq.get("g")));
            cm_out(&val!(k, d, c("f")))
        }
        "cm_point" => p_out(&val!(k, c("f"), p("p"))),
        "cm_vector" => v_out(&val!(k, c("f"), v("v"))),
        "cm_aff" => aff_out(&val!(k, c("f"), f("g"))),
        "cm_sp" => {
            let g: ScalarProduct<Q, A> = mat_in::<Q>(rq.get("g")).into();
            sp_out(&val!(k, c("f"), g))
        }
        "cm_det" => s(c("f").determinant()),
        "cm_from_basis" => {
            let b: Vec<Vector<Q, B>> = rq.get("vs").arr().iter().map(v_in).collect();
            cm_out(&CoordinateMap::<Q, A, B>::from_basis(&b))
        }
        "cm_to_basis" => {
            let b: Vec<Vector<Q, A>> = rq.get("vs").arr().iter().map(v_in).collect();
            cm_out(&CoordinateMap::<Q, A, B>::to_basis(&b))
        }
        _ => bad("geom what"),
    })
}

pub fn group(rq: &J) -> J {
    let ops: Vec<AffineMap<Q, A>> = rq.get("ops").arr().iter().map(aff_in).collect();
    guarded(|| match rq.get("what").str() {
        "generate" => {
            // generate() does not terminate for an infinite group; the caller bounds time and memory
            J::Arr(basics::generate(&ops).iter().map(aff_out).collect())
        }
        "gram" => opt(&basics::gram_matrix_configuration_space(&ops), mat_out),
        "shift_space" => opt(&basics::shift_space(&ops), mat_out),
        "primitive" => primitive(&ops),
        _ => bad("group what"),
    })
}

#[cfg(verif_hooks)]
fn primitive(ops: &Vec<AffineMap<Q, A>>) -> J {
    let ps: basics::PrimitiveSetting<A, B> = basics::PrimitiveSetting::verif_new(ops);
    obj(vec![
        ("cell", J::Arr(ps.verif_cell().iter().map(v_out).collect())),
        ("to", cm_out(ps.verif_to_primitive())),
        ("ops", J::Arr(ps.verif_ops().iter().map(aff_out).collect())),
    ])
}

#[cfg(not(verif_hooks))]
fn primitive(_: &Vec<AffineMap<Q, A>>) -> J { J::Null }

pub fn lattice(rq: &J) -> J {
    let vs = vecs_in(rq.get("vs"));
    let gram = rq.get("gram");
    let gram: Vec<Vec<Q>> = if gram.is_null() { vec![] } else { vecs_in(gram) };
    let dot = |v: &[Q], w: &[Q]| -> Q {
        let mut t = Q::zero();
        for i in 0..v.len() { for j in 0..w.len() { t += &v[i] * &gram[i][j] * &w[j]; } }
        t
    };
    let eps = if rq.get("eps").is_null() { Q::zero() } else { q_in(rq.get("eps")) };
    guarded(|| match rq.get("what").str() {
        "dirichlet" => vecs_out(&lattices::dirichlet_vectors(&vs, dot, &eps)),
        "reduced" => opt(&lattices::reduced_lattice_basis(&vs, dot, &eps), |b| vecs_out(b)),
        "shift" => vec_out(&lattices::shift_for_dirichlet_domain(&vec_in(rq.get("p")), &vs, dot, &eps)),
        "rational" => vecs_out(&lattices::rational_lattice_basis(&vs)),
        _ => bad("lattice what"),
    })
}

#[cfg(verif_hooks)]
pub fn finder(rq: &J) -> J {
    use rust_systre::spacegroups::finder::verif_hooks as vh;
    guarded(|| match rq.get("what").str() {
        "details" => {
            let d = vh::operator_details(mat_in::<Q>(rq.get("a")));
            obj(vec![
                ("axis", opt(&d.axis, |v| vec_out(v))),
                ("order", n(d.order)),
                ("op", J::Bool(d.is_orientation_preserving)),
                ("cw", J::Bool(d.is_clockwise)),
            ])
        }
        "system" => {
            let ms: Vec<Matrix<Q>> = rq.get("ms").arr().iter().map(mat_in::<Q>).collect();
            let (cs, b) = vh::crystal_system_2d(&ms);
            obj(vec![("system", s(cs)), ("basis", J::Arr(b.iter().map(mat_out).collect()))])
        }
        "primitive_cell" => {
            let ops: Vec<AffineMap<Q, A>> = rq.get("ops").arr().iter().map(aff_in).collect();
            J::Arr(vh::primitive_cell_of(&ops).iter().map(mat_out).collect())
        }
        "normalized" => {
            let cs = rust_systre::spacegroups::types::CrystalSystem::from_string(rq.get("system").str()).unwrap();
            let b: Vec<Matrix<Q>> = vecs_in(rq.get("basis")).iter().map(|v| Matrix::col(v)).collect();
            let (nb, cen) = vh::normalized_2d(cs, &b);
            obj(vec![("basis", J::Arr(nb.iter().map(mat_out).collect())), ("centering", s(cen))])
        }
        _ => bad("finder what"),
    })
}

#[cfg(not(verif_hooks))]
pub fn finder(_: &J) -> J { obj(vec![("r", s("unsupported")), ("v", J::Null)]) }
