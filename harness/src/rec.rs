//! Node records used on their own (NodeMapTrait, MutNodeMapTrait).
use crate::by_cfg;
use crate::ctx::*;
use crate::json::*;
use crate::world::*;
use rust_graph::generic::{
    EdgeTrait, IdType, MutEdgeTrait, MutEdgeType, MutNodeTrait, NodeTrait, OwnedEdgeType,
};
use rust_graph::graph_impl::graph_map::{MutNodeMapTrait, NodeMap, NodeMapTrait};

fn tri<I: IdType, L: IdType, E: EdgeTrait<I, L>>(x: &E) -> V {
    if x.is_none() {
        return a(vec![]);
    }
    a(vec![enc(x.get_start()), enc(x.get_target()), enco(x.get_label_id())])
}
fn maybe<I: IdType, L: IdType, E: EdgeTrait<I, L>>(x: &E) -> V {
    opt(if x.is_some() { Some(tri(x)) } else { None })
}
fn write<I: IdType, L: IdType>(mut x: MutEdgeType<I, L>, l: Option<L>) -> V {
    let r = tri(&x);
    x.set_label_id(l);
    r
}

fn record<C: Cfg>(w: &mut W<C>) {
    let max = C::Id::max_usize();
    let me = *w.rng.pick(&[0, 1, 3, 5, max - 1, max]);
    let mut pool = vec![0, 1, 2, 3, 4, 5, 6, max - 1, max];
    if w.rng.chance(1, 4) && max > 300 {
        pool.extend(vec![255, 256, 257]);
    }
    if w.rng.chance(1, 6) {
        pool.extend(7..100);
    }
    let len = if pool.len() > 50 { 160 } else { w.rng.range(4, 30) };
    let lid = |w: &mut W<C>| -> Option<C::L> {
        match w.rng.below(6) {
            0 | 1 => None,
            2 => Some(C::L::new(C::L::max_usize())),
            _ => Some(C::L::new(w.rng.below(4))),
        }
    };
    let l0 = lid(w);
    let mut r: NodeMap<C::Id, C::L> = NodeMap::new(C::Id::new(me), l0);
    let mut xs = vec![];
    for i in 0..len {
        let x = C::Id::new(*w.rng.pick(&pool));
        let l = lid(w);
        let last = i + 1 == len;
        let kinds = ["add_edge", "add_edge", "add_edge", "add_in", "add_in", "rem_edge", "rem_in", "label", "handle", "ask", "view", "all", "upper"];
        let k = if last || (len < 40 && i % 5 == 4) { "view" } else { *w.rng.pick(&kinds) };
        if (k == "all" || k == "view") && !last && len > 40 {
            continue;
        }
        let ret = call(|| match k {
            "add_edge" => b(r.add_edge(x, l)),
            "add_in" => b(r.add_in_edge(x)),
            "rem_edge" => {
                let e: OwnedEdgeType<C::Id, C::L> = r.remove_edge(x);
                maybe(&e)
            }
            "rem_in" => b(r.remove_in_edge(x)),
            "label" => {
                r.set_label_id(l);
                b(r.is_some() && !r.is_none())
            }
            "handle" => {
                let e = r.get_neighbor_mut(x);
                if e.is_some() {
                    a(vec![write(e, l)])
                } else {
                    a(vec![])
                }
            }
            "all" => a(r.neighbors_iter_mut().map(|e| write(e, l)).collect::<Vec<_>>()),
            "upper" => a(r.non_less_neighbors_iter_mut().map(|e| write(e, l)).collect::<Vec<_>>()),
            "ask" => a(vec![b(r.has_neighbor(x)), b(r.has_in_neighbor(x)), opt(r.get_neighbor(x).map(enco))]),
            _ => {
                let ids = |v: Vec<C::Id>| a(v.into_iter().map(enc));
                let c = r.clone();
                let r = if i % 2 == 0 || c != r { &r } else { &c };
                V::O(vec![
                    ("id", enc(r.get_id())),
                    ("lid", enco(r.get_label_id())),
                    ("deg", n(r.degree() as i64)),
                    ("indeg", n(r.in_degree() as i64)),
                    ("nb", ids(r.neighbors())),
                    ("nbi", ids(r.neighbors_iter().collect())),
                    ("inb", ids(r.in_neighbors())),
                    ("inbi", ids(r.in_neighbors_iter().collect())),
                    ("up", ids(r.non_less_neighbors_iter().collect())),
                    ("full", a(r.neighbors_iter_full().map(|e| tri(&e)).collect::<Vec<_>>())),
                    ("upfull", a(r.non_less_neighbors_iter_full().map(|e| tri(&e)).collect::<Vec<_>>())),
                ])
            }
        });
        match ret {
            Ok(v) => xs.push(V::O(vec![("k", s(k)), ("a", enc(x)), ("l", enco(l)), ("ret", v)])),
            Err(()) => {
                w.ev("record", vec![("pan", b(true))]);
                return;
            }
        }
    }
    w.ev("record", vec![("id", enc(C::Id::new(me))), ("lid", enco(l0)), ("xs", a(xs))]);
}

pub fn records(c: &mut Ctx, quick: usize, thorough: usize) {
    for i in 0..c.n(quick, thorough) {
        by_cfg!(c, i, "record", w, {
            for _ in 0..3 {
                record(w)
            }
        });
    }
}
