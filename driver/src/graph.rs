use std::fmt::Display;

use rust_systre::partitions::Partition;
use rust_systre::pgraphs::*;
use rust_systre::symmetries;

use crate::algebra::{q, rows};
use crate::guarded;
use crate::json::*;

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct World {}

// elements that share few hash values; equality alone tells them apart
#[derive(Clone, Debug, Eq, PartialEq)]
struct Dull(i64);

impl std::hash::Hash for Dull {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) { (self.0 & 1).hash(state) }
}

pub fn partition(rq: &J) -> J {
    match rq.get("ty").str() {
        "str" => partition_of(rq, |j| j.num().to_string(), |x: &String| J::Num(x.parse().unwrap())),
        "dull" => partition_of(rq, |j| Dull(j.num()), |x| J::Num(x.0)),
        "list" => partition_of(rq, |j| vec![j.num(), -j.num()], |x| J::Num(x[0])),
        _ => partition_of(rq, |j| j.num(), |x| J::Num(*x)),
    }
}

fn partition_of<T, F, G>(rq: &J, from: F, to: G) -> J
    where T: Clone + Eq + std::hash::Hash, F: Fn(&J) -> T, G: Fn(&T) -> J
{
    let mut p: Partition<T> = Partition::new();
    let mut out = vec![];
    for op in rq.get("ops").arr() {
        let op = op.arr();
        out.push(match op[0].str() {
            "u" => { let (a, b) = (from(&op[1]), from(&op[2])); guarded(|| { p.unite(&a, &b); J::Null }) }
            "f" => { let a = from(&op[1]); guarded(|| to(&p.find(&a))) }
            "c" => {
                let xs: Vec<T> = op[1].arr().iter().map(&from).collect();
                guarded(|| J::Arr(p.classes(&xs).iter().map(|c| J::Arr(c.iter().map(&to).collect())).collect()))
            }
            _ => bad("partition op"),
        });
    }
    J::Arr(out)
}

pub fn run(rq: &J) -> J {
    match rq.get("dim").num() {
        2 => run_dim::<LabelVector2d<World>>(rq),
        3 => run_dim::<LabelVector3d<World>>(rq),
        _ => bad("dim"),
    }
}

thread_local! {
    // "names" of a request: the vertex the code sees for each number the request uses;
    // ascending, so that the specification may ignore the renaming
    static NAMES: std::cell::RefCell<Vec<Vertex>> = std::cell::RefCell::new(vec![]);
}

fn v_in(x: i64) -> Vertex {
    NAMES.with(|m| { let m = m.borrow(); if m.is_empty() { x as Vertex } else { m[x as usize] } })
}

fn v_out(v: Vertex) -> J {
    NAMES.with(|m| {
        let m = m.borrow();
        if m.is_empty() { n(v) } else { m.iter().position(|x| *x == v).map_or(J::Num(-1), n) }
    })
}

fn display_out(text: String) -> J {
    // vertex names at both ends of each line
    let one = |w: &str| w.parse::<Vertex>().map_or(w.to_string(), |v| match v_out(v) { J::Num(x) => x.to_string(), _ => bad("name") });
    if NAMES.with(|m| m.borrow().is_empty()) { return J::Str(text); }
    J::Str(text.split_inclusive('\n').map(|line| {
        let a = line.find(' ').unwrap_or(0);
        let b = line.rfind(' ').map_or(0, |b| b + 1);
        if a == 0 || b <= a { return line.to_string(); }
        let (last, end) = match line.strip_suffix('\n') { Some(l) => (&l[b..], "\n"), None => (&line[b..], "") };
        format!("{}{}{}{}", one(&line[..a]), &line[a..b], one(last), end)
    }).collect())
}

fn edge_in<T: LabelVector<World>>(j: &J) -> Edge<T, World> {
    let e = j.arr();
    let sh: Vec<i32> = e[2].arr().iter().map(|x| x.num() as i32).collect();
    Edge::new(v_in(e[0].num()), v_in(e[1].num()), T::from_vec(&sh))
}

fn edge_out<T: LabelVector<World>>(e: &Edge<T, World>) -> J {
    J::Arr(vec![v_out(e.head), v_out(e.tail), J::Arr(e.shift.to_vec().iter().map(|x| n(*x)).collect())])
}


// sums, differences and signs of two shift vectors
fn label<T: LabelVector<World>>(a: &J, b: &J) -> J {
    let from = |j: &J| T::from_vec(&j.arr().iter().map(|x| x.num() as i32).collect::<Vec<_>>());
    let vec = |x: T| J::Arr(x.to_vec().iter().map(|y| n(*y)).collect());
    let (a, b) = (from(a), from(b));
    let all = [a, b, -a, a + b, a - b, T::zero()];
    let signs = all.iter()
        .map(|x| J::Arr([x.is_zero(), x.is_negative(), x.is_positive()].iter().map(|y| n(*y as i32)).collect()))
        .collect();
    J::Arr(vec![
        J::Arr(all.iter().map(|x| vec(*x)).collect()), J::Arr(signs),
        n(a.cmp(&b) as i32), n((a == b) as i32)
    ])
}

fn edges_out<T: LabelVector<World>>(es: &[Edge<T, World>]) -> J {
    J::Arr(es.iter().map(edge_out).collect())
}

fn verts_out(vs: &[Vertex]) -> J { J::Arr(vs.iter().map(|v| v_out(*v)).collect()) }

fn undirected<T: LabelVector<World>>(g: &Graph<T, World>) -> J {
    // the printed form is the only public view of the canonical edge list
    let mut es: Vec<Edge<T, World>> = vec![];
    for e in g.directed_edges() {
        if e == e.canonical() && !es.contains(&e) { es.push(e); }
    }
    edges_out(&es)
}

#[cfg(verif_hooks)]
fn autos_out<T: LabelVector<World>>(autos: &[Automorphism<T, World>]) -> J {
    J::Arr(autos.iter().map(|a| {
        let mut vm: Vec<_> = a.verif_vertex_map().iter().map(|(x, y)| (*x, *y)).collect();
        vm.sort();
        let mut em: Vec<_> = a.verif_edge_map().iter().map(|(x, y)| (x.clone(), y.clone())).collect();
        em.sort();
        obj(vec![
            ("vm", J::Arr(vm.iter().map(|(x, y)| J::Arr(vec![v_out(*x), v_out(*y)])).collect())),
            ("em", J::Arr(em.iter().map(|(x, y)| J::Arr(vec![edge_out(x), edge_out(y)])).collect())),
            ("m", rows(&a.verif_transform().linear_matrix())),
            ("s", J::Arr(a.verif_transform().shift().iter().map(q).collect())),
        ])
    }).collect())
}

#[cfg(not(verif_hooks))]
fn autos_out<T: LabelVector<World>>(_: &[Automorphism<T, World>]) -> J { J::Null }

fn run_dim<T: LabelVector<World> + Display>(rq: &J) -> J {
    let names: Vec<Vertex> = match rq.get("names") { J::Arr(a) => a.iter().map(|x| x.num() as Vertex).collect(), _ => vec![] };
    let set_names = || NAMES.with(|m| *m.borrow_mut() = names.clone());
    set_names();
    let mut out = vec![];
    let edges: Vec<Edge<T, World>> = rq.get("edges").arr().iter().map(edge_in).collect();
    let mut g_opt: Option<Graph<T, World>> = None;
    let built = guarded(|| { g_opt = Some(Graph::new(&edges)); J::Null });
    let g = match &g_opt { Some(g) => g, None => return J::Arr(vec![built]) };

    for qr in rq.get("queries").arr() {
        set_names();
        let qr = qr.arr();
        let v = |i: usize| -> Vertex { v_in(qr[i].num()) };
        let k = |i: usize| -> usize { qr[i].num() as usize };
        out.push(match qr[0].str() {
            "dim" => guarded(|| n(Graph::<T, World>::dim())),
            "vertices" => guarded(|| verts_out(&g.vertices())),
            "directed_edges" => guarded(|| edges_out(&g.directed_edges())),
            "edges" => guarded(|| undirected(g)),
            "incidences" => guarded(|| edges_out(&g.incidences(&v(1)))),
            "display" => guarded(|| display_out(g.to_string())),
            "canonical" => guarded(|| edge_out(&edge_in::<T>(&qr[1]).canonical())),
            "neg" => guarded(|| edge_out(&-&edge_in::<T>(&qr[1]))),
            "label" => guarded(|| label::<T>(&qr[1], &qr[2])),
            "position" => guarded(|| J::Arr(g.position(&v(1)).iter().map(q).collect())),
            "position_normalized" => guarded(|| J::Arr(g.position_normalized(&v(1)).iter().map(q).collect())),
            "edge_vector" => guarded(|| J::Arr(g.edge_vector(&edge_in(&qr[1])).iter().map(q).collect())),
            "by_delta" => guarded(|| {
                let d: Vec<_> = qr[2].arr().iter().map(crate::algebra::q_in).collect();
                match g.edge_by_unique_delta(&v(1), &Vector::new(&d)) {
                    None => J::Null,
                    Some(e) => J::Arr(vec![edge_out(&e)]),
                }
            }),
            "is_stable" => guarded(|| J::Bool(g.is_stable())),
            "is_locally_stable" => guarded(|| J::Bool(g.is_locally_stable())),
            "second_order" => guarded(|| J::Bool(g.has_second_order_collisions())),
            "is_connected" => guarded(|| J::Bool(g.is_connected())),
            "coordination" => guarded(|| {
                let k = qr[2].num() as usize;
                J::Arr(g.coordination_sequence(&v(1)).take(k).map(n).collect())
            }),
            "coordination2" => guarded(|| {
                // two interleaved iterators over one graph
                let k = qr[3].num() as usize;
                let (mut a, mut b) = (g.coordination_sequence(&v(1)), g.coordination_sequence(&v(2)));
                let (mut xa, mut xb) = (vec![], vec![]);
                for _ in 0..k {
                    xa.push(n(a.next().unwrap()));
                    xb.push(n(b.next().unwrap()));
                }
                J::Arr(vec![J::Arr(xa), J::Arr(xb)])
            }),
            "shift_normalized" => guarded(|| {
                let h = g.shift_normalized();
                undirected(&h)
            }),
            "component" => guarded(|| {
                let (size, rank, mult) = graph_component_measures(g, &v(1));
                J::Arr(vec![n(size), n(rank), mult.map(|m| J::Arr(vec![n(m)])).unwrap_or(J::Null)])
            }),
            "symmetries" => guarded(|| autos_out(&g.symmetries())),
            "nr_symmetries" => guarded(|| n(g.symmetries().len())),
            "distinct_symmetries" => guarded(|| {
                let mut us: Vec<Automorphism<T, World>> = vec![];
                for a in g.symmetries() { if !us.contains(&a) { us.push(a); } }
                n(us.len())
            }),
            "closed" => guarded(|| {
                let syms = g.symmetries();
                let mut ok = syms.contains(&Automorphism::identity(g));
                for a in &syms { for b in &syms { ok = ok && syms.contains(&(a * b)); } }
                J::Bool(ok)
            }),
            "mul" => guarded(|| {
                // product of two reported symmetries, selected modulo the group order
                let syms = g.symmetries();
                let (a, b) = (&syms[k(1) % syms.len()], &syms[k(2) % syms.len()]);
                autos_out(&[a.clone(), b.clone(), a * b, Automorphism::identity(g)])
            }),
            "vertex_orbits" => guarded(|| J::Arr(g.vertex_orbits().iter().map(|c| verts_out(c)).collect())),
            "edge_orbits" => guarded(|| J::Arr(g.edge_orbits().iter().map(|c| edges_out(c)).collect())),
            "translational_orbits" => guarded(||
                J::Arr(symmetries::translational_orbits(g).iter().map(|c| verts_out(c)).collect())),
            "is_minimal" => guarded(|| J::Bool(symmetries::is_minimal(g))),
            "is_ladder" => guarded(|| J::Bool(symmetries::is_ladder(g))),
            "ladder_symmetries" => guarded(|| autos_out(&symmetries::ladder_symmetries(g))),
            "nr_ladder_symmetries" => guarded(|| n(symmetries::ladder_symmetries(g).len())),
            "minimal_image" => guarded(|| {
                match symmetries::minimal_image::<T, T, World, World>(g) {
                    None => J::Null,
                    Some(h) => {
                        // the image has its own vertex names
                        NAMES.with(|m| m.borrow_mut().clear());
                        J::Arr(vec![undirected(&h)])
                    }
                }
            }),
            _ => bad("graph query"),
        });
    }
    J::Arr(out)
}
