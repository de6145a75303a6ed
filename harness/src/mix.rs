//! Histories over several graphs at once, in which the result of every
//! operation of the library is the argument of later ones: what a union, a
//! reordering or an import leaves behind must behave like any other graph.
use crate::alg;
use crate::by_cfg;
use crate::ctx::Ctx;
use crate::hist::{lab, rand_op, start, universe, Shadow, Space};
use crate::io;
use crate::world::*;
use rust_graph::generic::IdType;

fn read<C: Cfg>(g: &G<C>) -> Shadow {
    call(|| {
        let gg = g.gg();
        let mut sh = Shadow::new(gg.is_directed());
        for i in gg.node_indices().take(CAP) {
            sh.node(i.id());
        }
        for (x, y) in gg.edge_indices().take(CAP) {
            sh.edge(x.id(), y.id());
        }
        sh
    })
    .unwrap_or_default()
}

fn mutable<C: Cfg>(g: &G<C>) -> bool {
    match g {
        G::Un(_) | G::Di(_) => true,
        G::Bx(x) => match x.implementation() {
            rust_graph::graph_impl::GraphImpl::GraphMap => true,
            _ => false,
        },
        _ => false,
    }
}

fn mix<C: Cfg>(w: &mut W<C>, ops: usize, gen: Option<&dyn Fn(&mut W<C>, i64)>) {
    let nil = std::mem::size_of::<C::NL>() == 0;
    let max = C::Id::max_usize();
    let mut r = w.rng.clone();
    let ids: Vec<usize> = match r.below(4) {
        0 | 1 => (0..r.range(3, 6)).collect(),
        2 => vec![0, 1, 2, 4, 7, 30],
        _ => vec![0, 1, 5, max - 1, max],
    };
    let tall = ids.iter().any(|&x| x > 5000);
    let sp = Space { ids: ids.clone(), nl: vec!["a", "b", "c"], el: vec!["x", "y"] };
    let absent: Vec<usize> = vec![9, 40].into_iter().filter(|x| !ids.contains(x)).collect();
    w.rng = r;
    w.pair_limit = 50;
    universe(w, &ids, &absent);
    let mut next: i64 = 1;
    let mut files = 0;
    for _ in 0..2 {
        let mut r = w.rng.clone();
        let (dir, boxed) = (r.chance(1, 2), r.chance(1, 5));
        w.via_dyn = r.chance(1, 3);
        w.rng = r;
        let mut sh = start(w, next, dir, boxed, &sp);
        for _ in 0..w.rng.range(2, 8) {
            rand_op(w, next, &mut sh, &sp, !boxed, 0);
        }
        w.obs(next);
        next += 1;
    }
    for _ in 0..ops {
        if w.panicked || w.g.is_empty() {
            return;
        }
        let live: Vec<i64> = w.g.keys().cloned().collect();
        // what came last is taken more often
        let mut r = w.rng.clone();
        let x = if r.chance(1, 2) { *live.last().unwrap() } else { *r.pick(&live) };
        let y = *r.pick(&live);
        let op = r.below(21);
        w.rng = r;
        let sh = read(&w.g[&x]);
        let h = next;
        next += 1;
        let mut out: (i64, &'static str) = (h, "");
        match op {
            0..=4 if mutable(&w.g[&x]) => {
                let typed = w.g[&x].is_map();
                let mut sh = sh.clone();
                for _ in 0..w.rng.range(1, 5) {
                    rand_op(w, x, &mut sh, &sp, typed, 0);
                }
                out = (x, "");
            }
            5 => {
                w.clone_box(x, h);
                out.1 = "C09";
            }
            6 if w.g[&x].dup().is_some() => {
                w.clone_typed(x, h);
                out.1 = "C09";
            }
            7 | 8 => {
                let form = w.rng.below(5);
                let (ok, both) = (w.g[&x].dup().is_some(), w.g[&y].dup().is_some());
                alg::binop(w, "union", x, y, h, if ok && both { form } else { form.min(2) });
                out.1 = "C21";
            }
            9 => {
                let form = w.rng.below(3);
                alg::binop(w, "minus", x, y, h, form);
                out.1 = "C22";
            }
            10 if w.g[&x].is_map() => {
                let bits = w.rng.below(8);
                alg::reorder_once(w, x, h, bits & 1 != 0, bits & 2 != 0, bits & 4 != 0);
                out.1 = "C23";
            }
            11 if w.g[&x].is_map() && !tall && !sh.nodes.is_empty() => alg::rename_once(w, x, h, &sh),
            12 | 13 if w.g[&x].is_map() && sh.dense() => {
                w.to_static(x, h, false);
                out.1 = "C10";
            }
            14 => match w.g[&x] {
                G::SUn(_) | G::SDi(_) => {
                    files += 1;
                    let p = format!("d{:03}", files);
                    if w.dump(x, &p) {
                        w.load(&p, h);
                        out.1 = "C12";
                    }
                }
                _ => {}
            },
            15 | 16 if w.g[&x].dup().is_some() => {
                files += 1;
                let p = format!("f{:03}", files);
                let kind = if w.g[&x].is_map() { "map" } else { "static" };
                if w.export(x, &p) {
                    w.import(&p, h, kind, sh.dir);
                    out.1 = "C13";
                }
            }
            17 if !nil => {
                files += 1;
                let (pn, pe) = (format!("n{:03}", files), format!("e{:03}", files));
                if io::write_csv(w, x, &pn, &pe, "default") {
                    let z = if mutable(&w.g[&y]) && w.rng.chance(1, 2) {
                        y
                    } else {
                        w.new_graph(h, sh.dir, "new", &[], &[], &[]);
                        h
                    };
                    let pn = if w.rng.chance(2, 3) { Some(pn) } else { None };
                    io::read_csv(w, z, pn.as_ref().map(|x| x.as_ref()), &pe, "default", io::Via::Reader);
                    out = (z, "C14");
                }
            }
            18 => {
                if w.g[&x].gg().is_directed() == w.g[&y].gg().is_directed() {
                    w.cmp(x, y);
                }
                let boxed = match w.g[&x] {
                    G::Bx(_) => true,
                    _ => false,
                };
                // a traversal starts from a graph of a known type
                if !tall && !boxed {
                    let g = w.g.remove(&x).unwrap();
                    let st = sh.nodes.iter().next().map(|&i| W::<C>::id(i));
                    for k in 0..2 {
                        if st.is_some() {
                            let st = if w.rng.chance(1, 2) { st } else { None };
                            alg::whole_run(w, &g, x, 2 * h + k, k as usize, st);
                        }
                    }
                    w.g.insert(x, g);
                }
                alg::components_of(w, x, h, &ids);
            }
            19 => {
                alg::subgraphs_of(w, x, h);
                next += 10;
                out.1 = "C20";
            }
            20 => {
                if let Some(gen) = gen {
                    gen(w, h);
                    universe(w, &ids, &absent);
                    out.1 = "C24";
                }
            }
            _ => {}
        }
        if w.g.contains_key(&out.0) {
            let own: Vec<&str> = if out.1 == "" { vec![] } else { vec![out.1] };
            w.obs_own(out.0, &own);
        }
        if x != out.0 && w.rng.chance(1, 3) {
            w.obs(x);
        }
        // graphs leave in any order
        while w.g.len() > 6 {
            let live: Vec<i64> = w.g.keys().cloned().collect();
            let k = w.rng.below(live.len() - 1);
            w.forget(live[k]);
        }
    }
    let live: Vec<i64> = w.g.keys().cloned().collect();
    for h in live {
        w.obs(h);
    }
}

pub fn mixtures(c: &mut Ctx, quick: usize, thorough: usize) {
    for i in 0..c.n(quick, thorough) {
        macro_rules! with_gen {
            ($t:ty) => {
                c.scen::<$t, _>("mix", |w| mix::<$t>(w, 14, Some(&|w, h| alg::generate(w, h, false))))
            };
        }
        match i % 9 {
            7 => with_gen!(Std),
            8 => with_gen!(Big),
            k => by_cfg!(c, k, "mix", w, mix::<CC>(w, 14, None)),
        }
    }
}
