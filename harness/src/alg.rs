//! Traversals, connected components, subgraphs, union, difference, reordering, generators.
use crate::by_cfg;
use crate::ctx::Ctx;
use crate::hist::*;
use crate::json::*;
use crate::world::*;
use fixedbitset::FixedBitSet;
use rust_graph::algorithm::{graph_minus, graph_union, Bfs, ConnComp, ConnSubgraph, Dfs};
use rust_graph::generic::{Directed, Edge, GeneralGraph, IdType, MapTrait, MutMapTrait, Undirected};
use rust_graph::generic::{GraphLabelTrait, GraphTrait};
use rust_graph::graph_gen::*;
use rust_graph::map::{SetMap, VecMap};

/// k ids: dense, with gaps, or spread over what the id type can hold
fn some_ids<C: Cfg>(r: &mut crate::rng::Rng, k: usize, gap: (usize, usize), tall: bool) -> Vec<usize> {
    match r.below(4) {
        0 | 1 => (0..k).collect(),
        2 => (0..k).map(|x| x * gap.0 + gap.1).collect(),
        _ => {
            let max = C::Id::max_usize();
            // ids that only serve as keys may be anything; others size bit sets
            let mut v = if tall { tall_ids(r, max - 1).0 } else { wide_ids(r, max - 1).0 };
            let mut x = 0;
            while v.len() < k {
                if !v.contains(&x) {
                    v.push(x);
                }
                x += 1;
            }
            v.truncate(k);
            v
        }
    }
}

/// the same texts, starting elsewhere
fn turned(v: Vec<String>, by: usize) -> Vec<String> {
    let j = if v.is_empty() { 0 } else { by % v.len() };
    v[j..].iter().chain(v[..j].iter()).cloned().collect()
}

// ------------------------------------------------------------- traversals
trait Trav<'a, Id> {
    fn nxt(&mut self, inherent: bool) -> Option<Id>;
    fn dup(&self) -> Box<dyn Trav<'a, Id> + 'a>;
    fn reset(&mut self);
}
struct B<T>(T);
struct D<T>(T);

impl<'a, Id: IdType, NL: Label, EL: Label, L: IdType> Trav<'a, Id> for B<Bfs<'a, Id, NL, EL, L>> {
    fn nxt(&mut self, inherent: bool) -> Option<Id> {
        if inherent {
            self.0.next()
        } else {
            Iterator::next(&mut self.0)
        }
    }
    fn dup(&self) -> Box<dyn Trav<'a, Id> + 'a> {
        Box::new(B(self.0.clone()))
    }
    fn reset(&mut self) {}
}
impl<'a, Id: IdType, NL: Label, EL: Label, L: IdType> Trav<'a, Id> for D<Dfs<'a, Id, NL, EL, L>> {
    fn nxt(&mut self, inherent: bool) -> Option<Id> {
        if inherent {
            self.0.next()
        } else {
            Iterator::next(&mut self.0)
        }
    }
    fn dup(&self) -> Box<dyn Trav<'a, Id> + 'a> {
        Box::new(D(self.0.clone()))
    }
    fn reset(&mut self) {
        self.0.reset()
    }
}

fn bfs<'a, C: Cfg>(g: &'a G<C>, st: Option<C::Id>) -> Box<dyn Trav<'a, C::Id> + 'a> {
    match g {
        G::Un(g) => Box::new(B(Bfs::new(g, st))),
        G::Di(g) => Box::new(B(Bfs::new(g, st))),
        G::SUn(g) => Box::new(B(Bfs::new(g, st))),
        G::SDi(g) => Box::new(B(Bfs::new(g, st))),
        G::Mm(g, _) => Box::new(B(Bfs::new(g, st))),
        G::Bx(_) => unreachable!(),
    }
}
fn dfs<'a, C: Cfg>(g: &'a G<C>, st: Option<C::Id>) -> Box<dyn Trav<'a, C::Id> + 'a> {
    match g {
        G::Un(g) => Box::new(D(Dfs::new(g, st))),
        G::Di(g) => Box::new(D(Dfs::new(g, st))),
        G::SUn(g) => Box::new(D(Dfs::new(g, st))),
        G::SDi(g) => Box::new(D(Dfs::new(g, st))),
        G::Mm(g, _) => Box::new(D(Dfs::new(g, st))),
        G::Bx(_) => unreachable!(),
    }
}
fn dfs_parts<'a, C: Cfg>(g: &'a G<C>, st: Vec<C::Id>, bs: FixedBitSet) -> Box<dyn Trav<'a, C::Id> + 'a> {
    match g {
        G::Un(g) => Box::new(D(Dfs::from_parts(st, bs, g))),
        G::Di(g) => Box::new(D(Dfs::from_parts(st, bs, g))),
        G::SUn(g) => Box::new(D(Dfs::from_parts(st, bs, g))),
        G::SDi(g) => Box::new(D(Dfs::from_parts(st, bs, g))),
        G::Mm(g, _) => Box::new(D(Dfs::from_parts(st, bs, g))),
        G::Bx(_) => unreachable!(),
    }
}

type Tr<'a, C> = Box<dyn Trav<'a, <C as Cfg>::Id> + 'a>;

/// everything that is left of a traversal: sequence, and whether it ends (and stays ended)
fn drain<'a, C: Cfg>(t: &mut Tr<'a, C>, inherent: bool, limit: usize) -> (Vec<V>, bool) {
    let mut v = Vec::new();
    loop {
        match t.nxt(inherent) {
            Some(x) => {
                v.push(enc(x));
                if v.len() > limit {
                    return (v, false);
                }
            }
            None => break,
        }
    }
    let done = t.nxt(inherent).is_none() && t.nxt(!inherent).is_none();
    (v, done)
}

fn kind_name(k: usize) -> &'static str {
    if k == 0 {
        "bfs"
    } else {
        "dfs"
    }
}

fn build<'a, C: Cfg>(g: &'a G<C>, k: usize, st: Option<C::Id>) -> Result<Tr<'a, C>, ()> {
    call(|| if k == 0 { bfs(g, st) } else { dfs(g, st) })
}

/// run one traversal completely (one event), from a start
pub fn whole_run<C: Cfg>(w: &mut W<C>, g: &G<C>, h: i64, t: i64, k: usize, st: Option<C::Id>) {
    let limit = g.gg().node_count() + 3;
    let f = vec![("t", n(t)), ("k", s(kind_name(k))), ("a", n(h)), ("start", enco(st))];
    match build(g, k, st) {
        Err(()) => {
            w.ev("t_new", f.into_iter().chain(vec![("pan", b(true)), ("own", a(vec![s(if k == 0 { "C17" } else { "C18" })]))]).collect());
        }
        Ok(mut tr) => {
            w.ev("t_new", f);
            run_event(w, &mut tr, t, k, limit);
        }
    }
}

fn run_event<'a, C: Cfg>(w: &mut W<C>, tr: &mut Tr<'a, C>, t: i64, k: usize, limit: usize) {
    let inh = w.rng.chance(1, 2);
    let r = call(|| drain::<C>(tr, inh, limit));
    let mut f = vec![("t", n(t))];
    match r {
        Ok((v, done)) => {
            f.push(("seq", a(v)));
            f.push(("done", b(done)));
        }
        Err(()) => {
            f.push(("pan", b(true)));
            f.push(("own", a(vec![s(if k == 0 { "C17" } else { "C18" })])));
        }
    }
    w.ev("t_run", f);
}

fn step_event<'a, C: Cfg>(w: &mut W<C>, tr: &mut Tr<'a, C>, t: i64, k: usize) -> bool {
    let inh = w.rng.chance(1, 2);
    match call(|| tr.nxt(inh)) {
        Ok(x) => {
            w.ev("t_next", vec![("t", n(t)), ("ret", enco(x))]);
            x.is_some()
        }
        Err(()) => {
            w.ev("t_next", vec![("t", n(t)), ("pan", b(true)), ("own", a(vec![s(if k == 0 { "C17" } else { "C18" })]))]);
            false
        }
    }
}

/// all that is done to one graph with one kind of traversal
fn explore<C: Cfg>(w: &mut W<C>, h: i64, k: usize, nodes: &[usize], absent: &[usize], full: bool) {
    let g = match w.g.remove(&h) {
        Some(g) => g,
        None => return,
    };
    let limit = g.gg().node_count() + 3;
    let light = nodes.len() > 100;
    let id = |x: usize| W::<C>::id(x);
    let mut t = 0;
    // refusals
    let mut refuse = |w: &mut W<C>, st: Option<C::Id>| {
        let r = build(&g, k, st).is_err();
        w.ev("t_refused", vec![("k", s(kind_name(k))), ("ret", b(r))]);
    };
    for &x in absent {
        refuse(w, Some(id(x)));
    }
    if nodes.is_empty() {
        refuse(w, None);
        w.g.insert(h, g);
        return;
    }
    // complete runs
    let starts: Vec<Option<C::Id>> = if full {
        nodes.iter().map(|&x| Some(id(x))).chain(vec![None]).collect()
    } else {
        let mut r = w.rng.clone();
        let v = (0..if light { 1 } else { 3 }).map(|_| Some(id(*r.pick(nodes)))).chain(vec![None]).collect();
        w.rng = r;
        v
    };
    for st in starts {
        t += 1;
        whole_run(w, &g, h, t, k, st);
    }
    // step by step, with clones taken midway
    for _ in 0..if light { 1 } else { 2 } {
        let st = if w.rng.chance(3, 4) { Some(id(*w.rng.clone().pick(nodes))) } else { None };
        let mut live: Vec<(i64, Tr<C>)> = Vec::new();
        t += 1;
        match build(&g, k, st) {
            Ok(x) => {
                w.ev("t_new", vec![("t", n(t)), ("k", s(kind_name(k))), ("a", n(h)), ("start", enco(st))]);
                live.push((t, x));
            }
            Err(()) => continue,
        }
        let steps = w.rng.range(1, if light { 40 } else { nodes.len() + 4 });
        for _ in 0..steps {
            let j = w.rng.below(live.len());
            if live.len() < 3 && w.rng.chance(1, 4) {
                t += 1;
                let c = live[j].1.dup();
                w.ev("t_clone", vec![("t", n(live[j].0)), ("u", n(t))]);
                live.push((t, c));
            }
            let (tt, tr) = &mut live[j];
            step_event(w, tr, *tt, k);
            if k == 1 && w.rng.chance(1, 12) {
                let (tt, tr) = &mut live[j];
                tr.reset();
                w.ev("t_reset", vec![("t", n(*tt))]);
            }
        }
        for (tt, tr) in live.iter_mut() {
            // a clone continues identically
            let mut c = tr.dup();
            let r = call(|| (drain::<C>(tr, true, limit), drain::<C>(&mut c, false, limit)));
            let mut f = vec![("t", n(*tt))];
            match r {
                Ok(((x, dx), (y, dy))) => {
                    f.push(("seq", a(x)));
                    f.push(("done", b(dx && dy)));
                    f.push(("twin", a(y)));
                }
                Err(()) => {
                    f.push(("pan", b(true)));
                    f.push(("own", a(vec![s(if k == 0 { "C17" } else { "C18" })])));
                }
            }
            w.ev("t_run", f);
        }
    }
    // resumed from parts
    if k == 1 && light {
        t += 1;
        if let Ok(mut tr) = build(&g, k, Some(id(nodes[0]))) {
            w.ev("t_new", vec![("t", n(t)), ("k", s("dfs")), ("a", n(h)), ("start", enco(Some(id(nodes[0]))))]);
            step_event(w, &mut tr, t, k);
            step_event(w, &mut tr, t, k);
            tr.reset();
            w.ev("t_reset", vec![("t", n(t))]);
            run_event(w, &mut tr, t, k, limit);
        }
    } else if k == 1 {
        for _ in 0..3 {
            t += 1;
            let mut r = w.rng.clone();
            let mut pool = nodes.to_vec();
            r.shuffle(&mut pool);
            let np = r.below(pool.len() + 1);
            let nv = r.below(pool.len() - np + 1);
            let pend: Vec<C::Id> = pool[..np].iter().map(|&x| id(x)).collect();
            let pre: Vec<C::Id> = pool[np..np + nv].iter().map(|&x| id(x)).collect();
            let max = g.gg().max_seen_id().map_or(0, |x| x.id());
            let mut bs = FixedBitSet::with_capacity(max + 1);
            bs.insert_range(..);
            for x in &pre {
                bs.set(x.id(), false);
            }
            // pending nodes may be marked either way
            for x in &pend {
                bs.set(x.id(), r.chance(1, 2));
            }
            w.rng = r;
            let f = vec![
                ("t", n(t)),
                ("k", s("dfs")),
                ("a", n(h)),
                ("pre", a(pre.iter().map(|&x| enc(x)))),
                ("pend", a(pend.iter().map(|&x| enc(x)))),
            ];
            match call(|| dfs_parts(&g, pend, bs)) {
                Ok(mut tr) => {
                    w.ev("t_parts", f);
                    for _ in 0..w.rng.below(4) {
                        step_event(w, &mut tr, t, k);
                    }
                    run_event(w, &mut tr, t, k, limit);
                }
                Err(()) => w.ev("t_parts", f.into_iter().chain(vec![("pan", b(true)), ("own", a(vec![s("C18")]))]).collect()),
            }
        }
        // an empty start followed by a reset
        t += 1;
        if let Ok(mut tr) = build(&g, k, Some(id(nodes[0]))) {
            w.ev("t_new", vec![("t", n(t)), ("k", s("dfs")), ("a", n(h)), ("start", enco(Some(id(nodes[0]))))]);
            step_event(w, &mut tr, t, k);
            tr.reset();
            w.ev("t_reset", vec![("t", n(t))]);
            run_event(w, &mut tr, t, k, limit);
            tr.reset();
            w.ev("t_reset", vec![("t", n(t))]);
            run_event(w, &mut tr, t, k, limit);
        }
    }
    w.g.insert(h, g);
}

/// shapes that separate traversal orders from one another
fn shape(kind: usize, m: usize) -> Vec<(usize, usize)> {
    match kind {
        0 => (0..m - 1).map(|i| (i, i + 1)).collect(),
        1 => (0..m).map(|i| (i, (i + 1) % m)).collect(),
        2 => (1..m).map(|i| (0, i)).collect(),
        3 => (1..m).map(|i| ((i - 1) / 2, i)).collect(),
        4 => (0..m).flat_map(|i| (0..m).map(move |j| (i, j))).filter(|(i, j)| i < j).collect(),
        5 => (0..m).flat_map(|i| vec![(i, (i + 1) % m), (i, (i + m / 2) % m)]).collect(),
        6 => (0..m / 2).flat_map(|i| (m / 2..m).map(move |j| (i, j))).collect(),
        _ => (0..m).filter(|i| i % 3 != 0).map(|i| (i, i - 1)).collect(),
    }
}

fn derived_for_reading<C: Cfg>(w: &mut W<C>, h: i64, sh: &Shadow) -> Vec<i64> {
    let mut v = vec![h];
    if sh.dense() {
        w.to_static(h, h + 1, false);
        v.push(h + 1);
        if w.g.contains_key(&(h + 1)) && w.dump(h + 1, &format!("t{}", h)) {
            w.load(&format!("t{}", h), h + 2);
            v.push(h + 2);
        }
    }
    v
}

/// hub, chain, many small parts and isolated nodes
fn huge_shape<C: Cfg>(w: &mut W<C>, h: i64, dir: bool, m: usize, parts: usize, labels: (usize, usize)) -> bool {
    let mut r = w.rng.clone();
    let p = r.below(m / 2);
    let mut es: Vec<(usize, usize)> = vec![];
    // a star that feeds or is fed
    let mid = if m > 10_000 { m - 1_000 } else { m / 2 };
    for x in 0..mid {
        if x % 97 != 5 || parts < 3 {
            es.push(if dir && parts > 0 && x % 3 == 1 { (x, p) } else { (p, x) });
        }
    }
    // a chain, broken here and there
    let end = m - parts.min(m / 4);
    for x in mid..end - 1 {
        if parts < 3 || !r.chance(1, 40) {
            es.push((x, x + 1));
        }
    }
    es.push((r.below(mid), r.range(mid, end)));
    es.sort();
    es.dedup();
    w.rng = r;
    for e in es.iter_mut() {
        if !dir && e.1 < e.0 {
            *e = (e.1, e.0);
        }
    }
    es.sort();
    es.dedup();
    w.bulk(h, dir, m, 1, &texts("", labels.0), &texts("", labels.1), &es);
    if m > 10_000 {
        w.skip = NI | ND | EI | ED | CT | CNT;
    }
    w.g.contains_key(&h)
}

pub fn traversals(c: &mut Ctx, k: usize) {
    macro_rules! huge {
        ($cfg:ty, $m:expr, $dir:expr, $parts:expr) => {
            c.scen::<$cfg, _>("huge", |w| {
                if !huge_shape(w, 1, $dir, $m, $parts, (0, 0)) {
                    return;
                }
                let mut h = 1;
                if w.rng.chance(1, 2) {
                    w.to_static(1, 2, false);
                    if w.g.contains_key(&2) {
                        h = 2;
                    }
                }
                for j in 0..2 {
                    let st = if j == 0 { Some(W::<$cfg>::id(w.rng.below($m))) } else { None };
                    let mut f = vec![("k", s(kind_name(k))), ("a", n(h)), ("start", enco(st))];
                    let inh = w.rng.chance(1, 2);
                    let r = {
                        let g = w.get(h);
                        call(|| build(g, k, st).map(|mut t| drain::<$cfg>(&mut t, inh, $m + 3)))
                    };
                    match r {
                        Ok(Ok((v, done))) => {
                            f.push(("seq", a(v)));
                            f.push(("done", b(done)));
                        }
                        _ => {
                            f.push(("pan", b(true)));
                            f.push(("own", a(vec![s(if k == 0 { "C17" } else { "C18" })])));
                        }
                    }
                    w.ev("t_whole", f);
                }
            });
        };
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        huge!(Std, 20_000, dir, 0);
        huge!(Wide, 3_000, !dir, 300);
        huge!(Big, 3_000, dir, 300);
    }
    // every undirected graph on three nodes, every directed one on two or three
    let (dir3, und4) = (c.n(128, 512), c.n(256, 1024));
    for i in 0..und4 {
        c.scen::<Std, _>("all-undirected-4", |w| {
            universe(w, &[0, 1, 2, 3], &[]);
            let bits = if und4 == 1024 { i as u64 } else { i as u64 * 4 + w.rng.below(4) as u64 };
            tiny_graph(w, 1, false, 4, bits, 0);
            explore(w, 1, k, &[0, 1, 2, 3], &[], true);
        });
    }
    for i in 0..dir3 {
        c.scen::<Std, _>("all-directed-3", |w| {
            universe(w, &[0, 1, 2], &[]);
            let bits = if dir3 == 512 { i as u64 } else { i as u64 * 4 + w.rng.below(4) as u64 };
            tiny_graph(w, 1, true, 3, bits, 0);
            explore(w, 1, k, &[0, 1, 2], &[], true);
        });
    }
    for i in 0..c.n(64, 400) {
        by_cfg!(c, i, "shapes", w, {
            let dir = w.rng.chance(1, 2);
            let m = w.rng.range(2, 12);
            let mut perm: Vec<usize> = (0..m).collect();
            let mut r = w.rng.clone();
            r.shuffle(&mut perm);
            w.rng = r;
            w.new_graph(1, dir, "new", &[], &[], &[]);
            let mut sh = Shadow::new(dir);
            for x in 0..m {
                w.add_node(1, W::<CC>::id(x), None);
                sh.node(x);
            }
            for (x, y) in shape(i % 8, m) {
                w.add_edge(1, W::<CC>::id(perm[x]), W::<CC>::id(perm[y]), None);
                sh.edge(perm[x], perm[y]);
            }
            let all: Vec<usize> = (0..m).collect();
            for h in derived_for_reading(w, 1, &sh) {
                explore(w, h, k, &all, &[m, m + 5], false);
            }
        });
    }
    for i in 0..c.n(150, 1500) {
        by_cfg!(c, i, "random", w, {
            let dir = w.rng.chance(1, 2);
            let k2 = w.rng.range(1, 10);
            let ids: Vec<usize> = some_ids::<CC>(&mut w.rng, k2, (3, 1), true);
            let dens = *w.rng.clone().pick(&[10, 20, 35, 60]);
            w.rng.next();
            let mut sh = rand_graph(w, 1, dir, &ids, dens, &[], &[]);
            // leave holes behind
            for _ in 0..w.rng.below(3) {
                let x = *w.rng.clone().pick(&ids);
                w.remove_node(1, W::<CC>::id(x));
                sh.del_node(x);
            }
            let nodes: Vec<usize> = sh.nodes.iter().cloned().collect();
            let absent: Vec<usize> = ids.iter().cloned().filter(|x| !sh.nodes.contains(x)).chain(vec![200]).collect();
            for h in derived_for_reading(w, 1, &sh) {
                explore(w, h, k, &nodes, &absent, false);
            }
        });
    }
    for i in 0..c.n(4, 24) {
        by_cfg!(c, [0, 2, 3, 5][i % 4], "mid", w, {
            let dir = i % 2 == 0;
            let m = w.rng.range(40, 90);
            let ids: Vec<usize> = (0..m).collect();
            let sh = rand_graph(w, 1, dir, &ids, [10, 15, 25][i % 3], &[], &[]);
            for h in derived_for_reading(w, 1, &sh) {
                explore(w, h, k, &ids, &[m], false);
            }
        });
    }
    // many edges per node: more pending visits than nodes
    for i in 0..c.n(12, 80) {
        by_cfg!(c, i, "dense", w, {
            let dir = i % 2 == 0;
            let m = if i % 3 == 0 { w.rng.range(100, 200) } else { w.rng.range(15, 60) };
            let mut r = w.rng.clone();
            let per = r.range(5, 13);
            let es: Vec<(usize, usize)> = (0..m * per).map(|_| (r.below(m), r.below(m))).collect();
            w.rng = r;
            w.bulk(1, dir, m, 1, &[], &[], &es);
            let mut sh = Shadow::new(dir);
            (0..m).for_each(|x| sh.node(x));
            let hs = derived_for_reading(w, 1, &sh);
            let h = *w.rng.pick(&hs);
            if let Some(g) = w.g.remove(&h) {
                for t in 0..3 {
                    let st = if t == 0 { None } else { Some(W::<CC>::id(w.rng.below(m))) };
                    whole_run(w, &g, h, t, k, st);
                }
                w.g.insert(h, g);
            }
        });
    }
    for i in 0..c.n(4, 24) {
        by_cfg!(c, [0, 3, 5, 2][i % 4], "big", w, {
            let dir = (i / 2 + i) % 2 == 0;
            let m = if i % 4 == 3 { w.rng.range(150, 250) } else { w.rng.range(260, 320) };
            let step = if i % 3 == 0 && i % 4 != 3 { 3 } else { 1 };
            let mut r = w.rng.clone();
            let es = if i % 2 == 0 {
                let extra = r.below(m);
                hub_edges(&mut r, m, step, extra).2
            } else {
                let mut perm: Vec<usize> = (0..m).collect();
                r.shuffle(&mut perm);
                let kind = *r.pick(&[0, 1, 3, 5, 7]);
                shape(kind, m).into_iter().map(|(x, y)| (perm[x] * step, perm[y] * step)).collect()
            };
            w.rng = r;
            w.bulk(1, dir, m, step, &[], &[], &es);
            let mut sh = Shadow::new(dir);
            (0..m).for_each(|x| sh.node(x * step));
            let all: Vec<usize> = (0..m).map(|x| x * step).collect();
            let hs = derived_for_reading(w, 1, &sh);
            // one of the representations
            for h in vec![*w.rng.pick(&hs)] {
                explore(w, h, k, &all, &[m * step].iter().cloned().filter(|&x| x <= <CC as Cfg>::Id::max_usize()).collect::<Vec<_>>(), false);
            }
        });
    }
    for _ in 0..c.n(2, 6) {
        by_cfg!(c, 1, "empty", w, {
            w.new_graph(1, true, "new", &[], &[], &[]);
            w.new_graph(2, false, "new", &[], &[], &[]);
            w.add_node(2, W::<CC>::id(3), None);
            w.remove_node(2, W::<CC>::id(3));
            explore(w, 1, k, &[], &[0], false);
            explore(w, 2, k, &[], &[0, 3], false);
        });
    }
}

// ---------------------------------------------------- connected components
/// in any order
fn members<I: IdType>(mut v: Vec<I>) -> V {
    v.sort();
    a(v.into_iter().map(enc))
}
fn cc_query<C: Cfg>(w: &mut W<C>, c: i64, cc: &ConnComp<C::Id>, pool: &[usize]) {
    let mut r = w.rng.clone();
    let mut q = Vec::new();
    let mut m = Vec::new();
    let mut rt = Vec::new();
    let res = call(|| {
        // queries in random order: they must not disturb one another
        for _ in 0..r.range(4, 14) {
            match r.below(3) {
                0 => {
                    let (x, y) = (W::<C>::id(*r.pick(pool)), W::<C>::id(*r.pick(pool)));
                    q.push(a(vec![enc(x), enc(y), b(cc.is_connected(x, y))]));
                }
                1 => {
                    let x = W::<C>::id(*r.pick(pool));
                    m.push(a(vec![enc(x), opt(cc.get_connected_nodes(x).map(members))]));
                }
                _ => {
                    let x = W::<C>::id(*r.pick(pool));
                    let p = enco(cc.get_parent(x));
                    rt.push(a(vec![enc(x), enco(cc.get_root(x)), p]));
                }
            }
        }
        for &x in pool {
            let i = W::<C>::id(x);
            m.push(a(vec![enc(i), opt(cc.get_connected_nodes(i).map(members))]));
            rt.push(a(vec![enc(i), enco(cc.get_root(i)), enco(cc.get_parent(i))]));
            for &y in pool {
                let j = W::<C>::id(y);
                q.push(a(vec![enc(i), enc(j), b(cc.is_connected(i, j))]));
            }
        }
        let mut known: Vec<C::Id> = cc.parent().keys().cloned().collect();
        known.sort();
        let known: Vec<V> = known.into_iter().map(enc).collect();
        (cc.get_count(), known)
    });
    w.rng = r;
    let mut f = vec![("c", n(c))];
    match res {
        Ok((count, known)) => {
            f.push(("count", n(count as i64)));
            f.push(("q", a(q)));
            f.push(("m", a(m)));
            f.push(("r", a(rt)));
            f.push(("known", a(known)));
        }
        Err(()) => f.push(("pan", b(true))),
    }
    w.ev("cc_q", f);
}

fn pan_if(mut f: Vec<(&'static str, V)>, r: &Result<(), ()>) -> Vec<(&'static str, V)> {
    if r.is_err() {
        f.push(("pan", b(true)));
    }
    f
}

/// a walk through spec/UnionFind.tla: `c <n> ops...`
pub fn replay_cc<C: Cfg>(w: &mut W<C>, line: &str) {
    let mut it = line.split_whitespace().skip(1);
    let k: usize = it.next().unwrap().parse().unwrap();
    let pool: Vec<usize> = (0..k + 1).collect();
    let mut cc: ConnComp<C::Id> = ConnComp::empty();
    let mut fresh = true;
    for x in 0..k {
        w.new_graph(10 + x as i64, x % 2 == 0, "new", &[], &[], &[]);
        w.add_node(10 + x as i64, W::<C>::id(x), None);
    }
    for op in it {
        let d = |j: usize| (op.as_bytes()[j] - b'0') as usize;
        let id = |j: usize| W::<C>::id(d(j));
        match op.as_bytes()[0] {
            b'z' => {
                if fresh {
                    w.ev("cc_new", vec![("c", n(1))]);
                } else {
                    cc.reset();
                    w.ev("cc_reset", vec![("c", n(1))]);
                }
                fresh = false;
            }
            b'n' => {
                let h = 10 + d(1) as i64;
                let r = call(|| cc.run_detection(w.g[&h].gg()));
                w.ev("cc_run", pan_if(vec![("c", n(1)), ("a", n(h))], &r));
            }
            b'e' => {
                let e = Edge::new(id(1), id(2), None);
                let r = proc(w, &mut cc, &e);
                w.ev("cc_edge", pan_if(vec![("c", n(1)), ("s", enc(id(1))), ("t", enc(id(2)))], &r));
            }
            // queries rewrite the parent map; they must not change any answer
            b'q' => {
                call(|| cc.get_root(id(1))).ok();
            }
            b'l' => {
                call(|| cc.get_connected_nodes(W::<C>::id(0))).ok();
            }
            b'o' => cc_query(w, 1, &cc, &pool),
            _ => panic!("schedule"),
        }
    }
}

pub fn components(c: &mut Ctx) {
    crate::hist::schedules(c, "c");
    for i in 0..c.n(1024, 1024) {
        if !c.thorough && i % 4 != 0 {
            continue;
        }
        c.scen::<Std, _>("all-undirected-4", |w| {
            tiny_graph(w, 1, false, 4, i as u64, 0);
            let g = w.g.remove(&1).unwrap();
            w.ev("cc_new", vec![("c", n(1))]);
            let mut cc = ConnComp::empty();
            let r = call(|| cc.run_detection(g.gg()));
            w.ev("cc_run", pan_if(vec![("c", n(1)), ("a", n(1))], &r));
            cc_query(w, 1, &cc, &[0, 1, 2, 3, 4]);
        });
    }
    for i in 0..c.n(220, 2000) {
        by_cfg!(c, i, "components", w, {
            let dir = w.rng.chance(1, 2);
            let k = w.rng.range(1, 9);
            let ids: Vec<usize> = some_ids::<CC>(&mut w.rng, k, (2, 1), false);
            let dens = *w.rng.clone().pick(&[5, 10, 20, 40]);
            w.rng.next();
            let sh = rand_graph(w, 1, dir, &ids, dens, &[], &[]);
            let hs = derived_for_reading(w, 1, &sh);
            let sp = Space { ids: ids.iter().cloned().chain(vec![60, 61, 62]).collect(), nl: vec![], el: vec![] };
            let mut live: Vec<(i64, ConnComp<_>)> = Vec::new();
            let mut next = 1;
            let all: Vec<usize> = sp.ids.clone().into_iter().chain(vec![63]).collect();
            let nsteps = w.rng.range(4, 14);
            for _ in 0..nsteps {
                let j = if live.is_empty() { 0 } else { w.rng.below(live.len()) };
                match if live.is_empty() { 0 } else { w.rng.below(12) } {
                    0 | 1 => {
                        let how = w.rng.below(3);
                        let h = *w.rng.clone().pick(&hs);
                        let cid = next;
                        next += 1;
                        w.ev("cc_new", vec![("c", n(cid))]);
                        match how {
                            0 => {
                                let r = call(|| ConnComp::new(w.g[&h].gg()));
                                let rr = r.as_ref().map(|_| ()).map_err(|_| ());
                                w.ev("cc_run", pan_if(vec![("c", n(cid)), ("a", n(h))], &rr));
                                if let Ok(x) = r {
                                    live.push((cid, x));
                                }
                            }
                            1 => live.push((cid, ConnComp::empty())),
                            _ => live.push((cid, ConnComp::with_capacity(3))),
                        }
                    }
                    2 => {
                        let h = *w.rng.clone().pick(&hs);
                        w.rng.next();
                        let cid = live[j].0;
                        let r = {
                            let g = w.g[&h].gg();
                            let cc = &mut live[j].1;
                            call(|| cc.run_detection(g))
                        };
                        w.ev("cc_run", pan_if(vec![("c", n(cid)), ("a", n(h))], &r));
                    }
                    3 => {
                        let cid = next;
                        next += 1;
                        w.ev("cc_clone", vec![("c", n(live[j].0)), ("d", n(cid))]);
                        let x = live[j].1.clone();
                        live.push((cid, x));
                    }
                    4 => {
                        live[j].1.reset();
                        w.ev("cc_reset", vec![("c", n(live[j].0))]);
                    }
                    5..=9 => {
                        let (x, y) = some_pair(&mut w.rng, &sh, &sp.ids, 20);
                        let e = Edge::new(W::<CC>::id(x), W::<CC>::id(y), None);
                        let r = proc(w, &mut live[j].1, &e);
                        w.ev("cc_edge", pan_if(vec![("c", n(live[j].0)), ("s", enc(W::<CC>::id(x))), ("t", enc(W::<CC>::id(y)))], &r));
                    }
                    _ => {
                        let (cid, cc) = &live[j];
                        cc_query(w, *cid, cc, &all);
                    }
                }
            }
            for (cid, cc) in &live {
                cc_query(w, *cid, cc, &all);
            }
        });
    }
    for i in 0..c.n(4, 24) {
        by_cfg!(c, [0, 2, 3, 5][i % 4], "mid", w, {
            let m = w.rng.range(60, 120);
            let ids: Vec<usize> = (0..m).collect();
            rand_graph(w, 1, i % 2 == 0, &ids, [4, 7, 9][i % 3], &[], &[]);
            w.ev("cc_new", vec![("c", n(1))]);
            let r = call(|| ConnComp::new(w.g[&1].gg()));
            let rr = r.as_ref().map(|_| ()).map_err(|_| ());
            w.ev("cc_run", pan_if(vec![("c", n(1)), ("a", n(1))], &rr));
            if let Ok(cc) = r {
                let mut rg = w.rng.clone();
                let pool: Vec<usize> = (0..10).map(|_| rg.below(m + 3)).collect();
                cc_query(w, 1, &cc, &pool);
            }
        });
    }
    for i in 0..c.n(3, 20) {
        by_cfg!(c, [0, 3, 5][i % 3], "big", w, {
            let m = w.rng.range(260, 500);
            let mut r = w.rng.clone();
            // few large components and many small ones
            let parts = *r.pick(&[1, 2, 7, 40]);
            let mut es: Vec<(usize, usize)> = vec![];
            for x in parts..m {
                if !r.chance(1, 12) {
                    let y = if r.chance(1, 2) { x - parts } else { x % parts + parts * r.below(x / parts) };
                    es.push(if r.chance(1, 2) { (x, y) } else { (y, x) });
                }
            }
            let pool: Vec<usize> = (0..12).map(|_| r.below(m + 3)).collect();
            w.rng = r;
            w.bulk(1, i % 2 == 0, m, 1, &[], &[], &es);
            w.ev("cc_new", vec![("c", n(1))]);
            let r = call(|| ConnComp::new(w.g[&1].gg()));
            let rr = r.as_ref().map(|_| ()).map_err(|_| ());
            w.ev("cc_run", pan_if(vec![("c", n(1)), ("a", n(1))], &rr));
            if let Ok(cc) = r {
                cc_query(w, 1, &cc, &pool);
            }
        });
    }
    macro_rules! huge {
        ($cfg:ty, $m:expr, $dir:expr, $parts:expr) => {
            c.scen::<$cfg, _>("huge", |w| {
                if !huge_shape(w, 1, $dir, $m, $parts, (0, 0)) {
                    return;
                }
                let mut r = w.rng.clone();
                let pool: Vec<usize> = (0..5).map(|_| r.below($m + 3)).collect();
                w.rng = r;
                w.ev("cc_new", vec![("c", n(1))]);
                let r = call(|| ConnComp::new(w.g[&1].gg()));
                let rr = r.as_ref().map(|_| ()).map_err(|_| ());
                w.ev("cc_run", pan_if(vec![("c", n(1)), ("a", n(1))], &rr));
                if let Ok(cc) = r {
                    cc_query(w, 1, &cc, &pool);
                }
            });
        };
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        huge!(Std, 66_000, dir, 0);
        huge!(Wide, 3_000, !dir, 300);
        huge!(Big, 3_000, dir, 300);
    }
    // chains: edges fed in unfavourable orders
    for i in 0..c.n(12, 60) {
        by_cfg!(c, i, "chains", w, {
            let m = if i % 6 == 5 && <CC as Cfg>::Id::max_usize() > 1000 { w.rng.range(260, 330) } else { w.rng.range(6, 40) };
            let mut es: Vec<(usize, usize)> = (0..m - 1).map(|x| if i % 2 == 0 { (x, x + 1) } else { (x + 1, x) }).collect();
            match i % 3 {
                0 => es.reverse(),
                1 => {
                    let mut r = w.rng.clone();
                    r.shuffle(&mut es);
                    w.rng = r;
                }
                _ => {}
            }
            let mut cc = ConnComp::empty();
            w.ev("cc_new", vec![("c", n(1))]);
            let pool = [0, m / 2, m - 1, m];
            for (k, (x, y)) in es.into_iter().enumerate() {
                let e = Edge::new(W::<CC>::id(x), W::<CC>::id(y), None);
                let r = proc(w, &mut cc, &e);
                w.ev("cc_edge", pan_if(vec![("c", n(1)), ("s", enc(W::<CC>::id(x))), ("t", enc(W::<CC>::id(y)))], &r));
                if k % (1 + m / 8) == 4 {
                    cc_query(w, 1, &cc, &pool);
                }
            }
            cc_query(w, 1, &cc, &pool);
        });
    }
}

fn proc<C: Cfg>(_: &W<C>, cc: &mut ConnComp<C::Id>, e: &Edge<C::Id, C::L>) -> Result<(), ()> {
    call(|| cc.process_new_edge(e))
}

/// the components of graph h, once
pub fn components_of<C: Cfg>(w: &mut W<C>, h: i64, c: i64, pool: &[usize]) {
    let g = w.g.remove(&h).unwrap();
    w.ev("cc_new", vec![("c", n(c))]);
    let mut cc = ConnComp::empty();
    let r = call(|| cc.run_detection(g.gg()));
    w.ev("cc_run", pan_if(vec![("c", n(c)), ("a", n(h))], &r));
    cc_query(w, c, &cc, pool);
    w.g.insert(h, g);
}

// ----------------------------------------------------------- subgraphs
pub fn subgraphs_of<C: Cfg>(w: &mut W<C>, h: i64, base: i64) {
    if !w.g.contains_key(&h) {
        return;
    }
    let mode = w.rng.below(4);
    let pool: Vec<C::Id> = w.uni.clone();
    let r: Result<(Vec<Box<Dyn<C>>>, Vec<V>), ()> = call(|| {
        let g = w.g[&h].gg();
        let mut ask: Vec<C::Id> = pool.iter().cloned().filter(|&x| !g.has_node(x)).collect();
        if g.node_count() < 3000 {
            ask.extend(g.node_indices());
        }
        let cs = if mode < 2 {
            ConnSubgraph::new(g)
        } else {
            let mut cs = ConnSubgraph::empty(g);
            for &x in &ask {
                assert!(cs.root_to_subgraph(x).is_none());
            }
            // (saying everything twice adds nothing)
            for _ in 2..=mode {
                cs.run_subgraph_enumeration(g);
            }
            cs
        };
        // who stands for which subgraph
        let roots: Vec<V> = ask
            .iter()
            .filter_map(|&x| cs.root_to_subgraph(x).map(|i| a(vec![enc(x), n(i as i64)])))
            .collect();
        (cs.into_result(), roots)
    });
    let mut f = vec![("a", n(h))];
    match r {
        Ok((v, roots)) => {
            if v.len() < 3000 && w.g[&h].gg().node_count() < 3000 {
                f.push(("roots", a(roots)));
            }
            let mut hs = vec![];
            let mut ds = vec![];
            let mut gs = vec![];
            let mut ok = true;
            for (i, x) in v.iter().enumerate() {
                hs.push(n(base + i as i64));
                match (call(|| x.is_directed()), W::<C>::full(&**x)) {
                    (Ok(d), Ok(g)) => {
                        ds.push(b(d));
                        gs.push(g);
                    }
                    _ => ok = false,
                }
            }
            if ok {
                f.push(("hs", a(hs)));
                f.push(("ds", a(ds)));
                f.push(("gs", a(gs)));
                w.ev("csub", f);
                for (i, x) in v.into_iter().enumerate() {
                    w.g.insert(base + i as i64, G::Bx(x));
                    w.obs_own(base + i as i64, &["C20"]);
                }
                return;
            }
            f.push(("pan", b(true)));
        }
        Err(()) => f.push(("pan", b(true))),
    }
    w.ev("csub", f);
}

pub fn subgraphs(c: &mut Ctx) {
    for i in 0..c.n(160, 1024) {
        c.scen::<Std, _>("all-undirected-4", |w| {
            universe(w, &[0, 1, 2, 3], &[]);
            let (bits, l) = (i as u64 * if c_full(i) { 1 } else { 1 } + w.rng.below(1024) as u64, w.rng.next());
            tiny_graph(w, 1, i % 2 == 0, if i % 2 == 0 { 3 } else { 4 }, bits, l);
            subgraphs_of(w, 1, 10);
        });
    }
    for i in 0..c.n(150, 1500) {
        by_cfg!(c, i, "subgraphs", w, {
            let dir = w.rng.chance(1, 2);
            let k = w.rng.range(0, 9);
            let ids: Vec<usize> = some_ids::<CC>(&mut w.rng, k, (2, 1), false);
            universe(w, &ids, &[40].iter().cloned().filter(|x| !ids.contains(x)).collect::<Vec<_>>());
            let dens = *w.rng.clone().pick(&[4, 8, 16, 30]);
            w.rng.next();
            let sh = rand_graph(w, 1, dir, &ids, dens, &["a", "b", "c"], &["x", "y"]);
            for (j, h) in derived_for_reading(w, 1, &sh).into_iter().enumerate() {
                subgraphs_of(w, h, 100 + 50 * j as i64);
            }
            w.clone_box(1, 9);
            subgraphs_of(w, 9, 400);
        });
    }
    for i in 0..c.n(4, 16) {
        by_cfg!(c, [0, 2, 3, 5][i % 4], "mid", w, {
            let m = w.rng.range(30, 70);
            let ids: Vec<usize> = (0..m).collect();
            w.pair_limit = 40;
            universe(w, &[0, 1, 2, m - 1], &[m]);
            rand_graph(w, 1, i % 2 == 0, &ids, [5, 8, 10][i % 3], &["a", "b", "c"], &["x", "y"]);
            subgraphs_of(w, 1, 100);
        });
    }
    macro_rules! huge {
        ($cfg:ty, $m:expr, $dir:expr, $parts:expr) => {
            c.scen::<$cfg, _>("huge", |w| {
                if huge_shape(w, 1, $dir, $m, $parts, lots($m)) {
                    w.pair_limit = 20;
                    universe(w, &[0, 1, $m / 2, $m - 1], &[]);
                    subgraphs_of(w, 1, 100);
                }
            });
        };
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        huge!(Std, 66_000, dir, 0);
        huge!(Wide, 3_000, !dir, 2);
        huge!(Big, 1_000, dir, 100);
    }
    for i in 0..c.n(4, 20) {
        by_cfg!(c, [0, 3, 5, 2][i % 4], "big", w, {
            let few = <<CC as Cfg>::L as IdType>::max_usize() < 2000;
            let m = if few { 200 } else { w.rng.range(270, 400) };
            let mut r = w.rng.clone();
            // a few components; labels of all of them beyond 256
            let parts = r.range(1, 6);
            let mut es: Vec<(usize, usize)> = vec![];
            for x in parts..m {
                let y = if r.chance(1, 2) { x - parts } else { x % parts + parts * r.below(x / parts) };
                es.push(if r.chance(1, 2) { (x, y) } else { (y, x) });
            }
            let (ln, le) = if few { (150, 150) } else { (r.range(258, 400), r.range(258, 400)) };
            w.rng = r;
            w.bulk(1, i % 2 == 0, m, 1, &texts("n", ln), &texts("e", le), &es);
            w.pair_limit = 40;
            universe(w, &[0, 1, 2, m / 2, m - 1], &[m]);
            subgraphs_of(w, 1, 100);
        });
    }
}
fn c_full(_: usize) -> bool {
    true
}

// ------------------------------------------------ union and difference
pub fn binop<C: Cfg>(w: &mut W<C>, op: &'static str, x: i64, y: i64, h: i64, form: usize) {
    if !w.g.contains_key(&x) || !w.g.contains_key(&y) {
        return;
    }
    let union = op == "union";
    let r: Result<G<C>, ()> = call(|| {
        let (p, q) = (&w.g[&x], &w.g[&y]);
        macro_rules! go {
            ($p:expr, $q:expr) => {
                if union {
                    $p + $q
                } else {
                    $p - $q
                }
            };
        }
        match form {
            0 => G::Bx(if union { graph_union(p.gg(), q.gg()) } else { graph_minus(p.gg(), q.gg()) }),
            1 => {
                // operators on references
                let (gp, gq): (&Dyn<C>, &Dyn<C>) = (p.gg(), q.gg());
                let r = go!(gp, gq);
                // the result borrows the operands' lifetime: copy it out by union with itself
                let c = copy::<C>(&*r);
                G::Bx(c)
            }
            2 => G::Bx(go!(p.boxed().unwrap(), q.boxed().unwrap())),
            _ => match (p.dup(), q.dup()) {
                (Some(G::Un(p)), Some(G::Un(q))) if form == 3 => G::Un(go!(p, q)),
                (Some(G::Di(p)), Some(G::Di(q))) if form == 3 => G::Di(go!(p, q)),
                (Some(G::Un(p)), Some(G::Un(q))) => G::Un(go!(Box::new(p), Box::new(q))),
                (Some(G::Di(p)), Some(G::Di(q))) => G::Di(go!(Box::new(p), Box::new(q))),
                _ => G::Bx(if union { graph_union(p.gg(), q.gg()) } else { graph_minus(p.gg(), q.gg()) }),
            },
        }
    });
    let mut f = vec![("a", n(x)), ("b", n(y)), ("h", n(h)), ("form", n(form as i64))];
    match r {
        Ok(g) => {
            W::<C>::outcome(g.gg(), &mut f);
            w.g.insert(h, g);
        }
        Err(()) => f.push(("pan", b(true))),
    }
    w.ev(op, f);
}

/// an owned copy of a graph, made without the code under test
fn copy<C: Cfg>(g: &dyn GeneralGraph<C::Id, C::NL, C::EL, C::L>) -> Box<Dyn<C>> {
    use rust_graph::generic::{EdgeTrait, MutEdgeTrait, MutGraphTrait, MutNodeTrait, NodeTrait};
    macro_rules! fill {
        ($t:ty) => {{
            let mut x = <$t>::with_label_map(g.get_node_label_map().clone(), g.get_edge_label_map().clone());
            for v in g.nodes() {
                x.add_node(v.get_id(), None);
                x.get_node_mut(v.get_id()).set_label_id(v.get_label_id());
            }
            for e in g.edges() {
                let (s, t) = (e.get_start(), e.get_target());
                x.add_edge(s, t, None);
                x.get_edge_mut(s, t).set_label_id(e.get_label_id());
                if !g.is_directed() {
                    x.get_edge_mut(t, s).set_label_id(e.get_label_id());
                }
            }
            // the largest id the result has seen, if no node of that id is left
            if let Some(m) = g.max_seen_id() {
                if !x.has_node(m) {
                    x.add_node(m, None);
                    x.remove_node(m);
                }
            }
            Box::new(x) as Box<Dyn<C>>
        }};
    }
    if g.is_directed() {
        fill!(Di<C>)
    } else {
        fill!(Un<C>)
    }
}

pub fn binary(c: &mut Ctx, op: &'static str) {
    let own: &'static str = if op == "union" { "C21" } else { "C22" };
    for i in 0..c.n(260, 2600) {
        by_cfg!(c, i, op, w, {
            let da = w.rng.chance(1, 2);
            // mixed directions now and then
            let db = if w.rng.chance(1, 6) { !da } else { da };
            let big = i % 20 == 19;
            let mut r = w.rng.clone();
            let pool: Vec<usize> = if big {
                (0..25).collect()
            } else if r.chance(1, 4) {
                let mut v = wide_ids(&mut r, <CC as Cfg>::Id::max_usize()).0;
                v.retain(|&x| x != 50);
                v
            } else {
                (0..7).collect()
            };
            let pick = |r: &mut crate::rng::Rng| -> Vec<usize> {
                let den = r.range(1, 3);
                pool.iter().cloned().filter(|_| r.chance(den, 3)).collect()
            };
            let (ia, mut ib) = (pick(&mut r), pick(&mut r));
            match r.below(8) {
                0 => ib = ia.clone(),
                1 => ib = vec![],
                2 => ib = pool.iter().cloned().filter(|x| !ia.contains(x)).collect(),
                3 => ib = ia.iter().cloned().filter(|x| x % 2 == 0).collect(),
                _ => {}
            }
            let dens = *r.pick(&[10, 25, 50]);
            w.rng = r;
            universe(w, &pool, &[50]);
            w.pair_limit = if big { 60 } else { 100 };
            let sa = rand_graph(w, 1, da, &ia, dens, &["a", "b", "c"], &["x", "y", "z"]);
            let sb = rand_graph(w, 2, db, &ib, dens, &["c", "d", "a"], &["z", "u", "x"]);
            // other representations as operands
            let (mut hx, mut hy) = (1, 2);
            if w.rng.chance(1, 4) {
                w.clone_box(1, 3);
                hx = 3;
            } else if sa.dense() && w.rng.chance(1, 2) {
                w.to_static(1, 3, false);
                hx = 3;
            }
            if sb.dense() && w.rng.chance(1, 2) {
                w.to_static(2, 4, false);
                hy = 4;
                if w.g.contains_key(&4) && w.rng.chance(1, 2) && w.dump(4, "b") {
                    w.load("b", 5);
                    hy = 5;
                }
            }
            if w.rng.chance(1, 10) {
                hy = hx;
            }
            for form in 0..5 {
                let (p, q) = if form >= 3 { (1, 2) } else { (hx, hy) };
                let h = 20 + form as i64;
                binop(w, op, p, q, h, form);
                w.obs_own(h, &[own]);
            }
            // operands unchanged
            w.obs_own(hx, &[own]);
            w.obs_own(hy, &[own]);
            w.obs_own(1, &[own]);
            w.obs_own(2, &[own]);
        });
    }
    binary_big(c, op, own);
}

/// operands with hundreds of nodes and labels, their tables overlapping
fn binary_big(c: &mut Ctx, op: &'static str, own: &'static str) {
    macro_rules! huge {
        ($cfg:ty, $m:expr, $dir:expr) => {
            c.scen::<$cfg, _>("huge", |w| {
                if !huge_shape(w, 1, $dir, $m, 2, lots($m)) || !huge_shape(w, 2, $dir, $m / 2 + 3, 2, lots($m / 2 + 3)) {
                    return;
                }
                w.pair_limit = 20;
                universe(w, &[0, 1, $m / 2, $m - 1], &[]);
                for (x, y, form) in vec![(1, 2, 0), (2, 1, 3)] {
                    let h = 20 + x;
                    binop(w, op, x, y, h, form);
                    w.obs_own(h, &[own]);
                }
                w.obs_own(1, &[own]);
            });
        };
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        huge!(Std, 66_000, dir);
        huge!(Wide, 3_000, !dir);
    }
    for i in 0..c.n(5, 30) {
        by_cfg!(c, [0, 3, 5, 2, 4][i % 5], op, w, {
            let few = <<CC as Cfg>::L as IdType>::max_usize() < 2000;
            let (ka, kb) = if few { (150, 170) } else { (w.rng.range(200, 350), w.rng.range(200, 350)) };
            let mut r = w.rng.clone();
            let dir = r.chance(1, 2);
            let (xa, xb) = (r.below(ka), r.below(kb));
            let (p, q, ea) = hub_edges(&mut r, ka, 1, xa);
            let mut eb = hub_edges(&mut r, kb, 1, xb).2;
            // common edges as well
            eb.extend(ea.iter().filter(|&&(x, y)| x < kb && y < kb && (x + y) % 3 == 0));
            eb.sort();
            eb.dedup();
            let (la, lb) = if few { (60, 70) } else { (r.range(150, 280), r.range(150, 280)) };
            let (ta, tb) = (r.below(300), r.below(300));
            let all = texts("", la + lb);
            let cut = r.below(la + 1);
            let na: Vec<String> = turned(all[..la].to_vec(), ta);
            let nb: Vec<String> = turned(all[cut..cut + lb].to_vec(), tb);
            w.rng = r;
            w.bulk(1, dir, ka, 1, &na, &nb, &ea);
            w.bulk(2, dir, kb, 1, &nb, &na, &eb);
            ask_hubs(w, ka.max(kb), 1, p, q, 60);
            let (hx, mut hy) = (1, 2);
            if i % 2 == 0 {
                w.to_static(2, 4, false);
                hy = 4;
            }
            for form in vec![0, if i % 2 == 0 { 1 } else { 3 }] {
                let h = 20 + form as i64;
                let y = if form >= 3 { 2 } else { hy };
                binop(w, op, hx, y, h, form);
                w.obs_own(h, &[own]);
            }
            w.obs_own(hx, &[own]);
            w.obs_own(hy, &[own]);
        });
    }
}

// ------------------------------------------------------------ reordering
fn order_of<T: Eq + std::hash::Hash, I: IdType>(old: &SetMap<T>, new: &SetMap<T>) -> V {
    a(new.items().map(|x| old.find_index(x).map_or(n(-1), |i| enc(I::new(i)))))
}

pub fn reorder_once<C: Cfg>(w: &mut W<C>, x: i64, h: i64, rn: bool, rl: bool, re: bool) {
    let g = match w.g[&x].dup() {
        Some(g) => g,
        None => return,
    };
    let mut f = vec![("a", n(x)), ("h", n(h)), ("rn", b(rn)), ("rl", b(rl)), ("re", b(re))];
    macro_rules! go {
        ($g:expr, $wrap:expr) => {{
            let old_n = $g.get_node_label_map().clone();
            let old_e = $g.get_edge_label_map().clone();
            let ids: Vec<C::Id> = $g.node_indices().collect();
            call(move || {
                let mut r = $g.reorder_id(rn, rl, re);
                let nord = opt(r.get_node_id_map().map(|m| a(m.items().map(|&i| enc(i)))));
                let back: Vec<V> = ids
                    .iter()
                    .map(|&i| {
                        let y = r.find_new_node_id(i);
                        let z = r.get_original_node_id(y);
                        let fwd = r.find_new_node_id(z) == y;
                        a(vec![enc(i), enc(z), if fwd { enc(i) } else { n(-1) }])
                    })
                    .collect();
                let g = r.take_graph().unwrap();
                let gone = r.take_graph().is_none();
                let nl = if rl { opt(Some(order_of::<_, C::L>(&old_n, g.get_node_label_map()))) } else { opt(None) };
                let el = if re { opt(Some(order_of::<_, C::L>(&old_e, g.get_edge_label_map()))) } else { opt(None) };
                let mx = enco(g.max_seen_id());
                (nord, nl, el, mx, if gone { back } else { vec![a(vec![n(0), n(-1), n(-1)])] }, $wrap(g))
            })
        }};
    }
    let r = match g {
        G::Un(g) => go!(g, G::Un),
        G::Di(g) => go!(g, G::Di),
        _ => return,
    };
    match r {
        Ok((nord, nl, el, mx, back, g)) => {
            f.push(("nord", nord));
            f.push(("nlord", nl));
            f.push(("elord", el));
            f.push(("mx", mx));
            f.push(("back", a(back)));
            w.g.insert(h, g);
        }
        Err(()) => f.push(("pan", b(true))),
    }
    w.ev("reorder", f);
}

pub fn rename_once<C: Cfg>(w: &mut W<C>, x: i64, h: i64, sh: &Shadow) {
    let g = match w.g[&x].dup() {
        Some(g) => g,
        None => return,
    };
    let mut r = w.rng.clone();
    let (rn, rl, re, vecs) = (r.chance(2, 3), r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
    let mut ids: Vec<usize> = sh.nodes.iter().cloned().collect();
    // the map may hold more ids than the graph
    if rn && r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            let y = r.below(C::Id::max_usize().min(60));
            if !ids.contains(&y) {
                ids.push(y);
            }
        }
    }
    r.shuffle(&mut ids);
    let nlen = g.gg().get_node_label_map().len();
    let elen = g.gg().get_edge_label_map().len();
    let used = |it: Vec<Option<C::L>>, len: usize, r: &mut crate::rng::Rng| -> Vec<usize> {
        let mut u: Vec<usize> = it.into_iter().flatten().map(|l| l.id()).collect();
        u.sort();
        u.dedup();
        for x in 0..len {
            if !u.contains(&x) && r.chance(1, 2) {
                u.push(x);
            }
        }
        r.shuffle(&mut u);
        u
    };
    use rust_graph::generic::{EdgeTrait, NodeTrait};
    let un = used(g.gg().nodes().map(|v| v.get_label_id()).collect(), nlen, &mut r);
    let ue = used(g.gg().edges().map(|v| v.get_label_id()).collect(), elen, &mut r);
    w.rng = r;
    let no = |on: bool, v: &[usize]| -> V {
        if on {
            opt(Some(a(v.iter().map(|&x| enc(C::Id::new(x))))))
        } else {
            opt(None)
        }
    };
    let lo = |on: bool, v: &[usize]| -> V {
        if on {
            opt(Some(a(v.iter().map(|&x| enc(C::L::new(x))))))
        } else {
            opt(None)
        }
    };
    let mut f = vec![("a", n(x)), ("h", n(h)), ("nord", no(rn, &ids)), ("nlord", lo(rl, &un)), ("elord", lo(re, &ue))];
    macro_rules! maps {
        ($t:ident, $g:expr) => {{
            let nm: Option<$t<C::Id>> = if rn { Some(ids.iter().map(|&x| C::Id::new(x)).collect()) } else { None };
            let lm: Option<$t<C::L>> = if rl { Some(un.iter().map(|&x| C::L::new(x)).collect()) } else { None };
            let em: Option<$t<C::L>> = if re { Some(ue.iter().map(|&x| C::L::new(x)).collect()) } else { None };
            $g.reorder_id_with(&nm, &lm, &em)
        }};
    }
    let res = call(|| match g {
        G::Un(g) => G::Un(if vecs { maps!(VecMap, g) } else { maps!(SetMap, g) }),
        G::Di(g) => G::Di(if vecs { maps!(VecMap, g) } else { maps!(SetMap, g) }),
        _ => unreachable!(),
    });
    match res {
        Ok(g) => {
            f.push(("mx", enco(g.gg().max_seen_id())));
            w.g.insert(h, g);
        }
        Err(()) => f.push(("pan", b(true))),
    }
    w.ev("rename", f);
    if w.g.contains_key(&h) {
        let keep = w.uni.clone();
        universe(w, &(0..ids.len().max(1)).chain(ids.iter().cloned()).collect::<Vec<_>>(), &[]);
        w.obs_own(h, &["C23"]);
        w.uni = keep;
    }
}

pub fn reordering(c: &mut Ctx) {
    for i in 0..c.n(240, 2400) {
        by_cfg!(c, i, "reorder", w, {
            let dir = w.rng.chance(1, 2);
            let k = if i % 24 == 23 { 30 } else { w.rng.range(0, 8) };
            let ids: Vec<usize> = some_ids::<CC>(&mut w.rng, k, (3, 2), false);
            let dens = *w.rng.clone().pick(&[10, 20, 40, 70]);
            w.rng.next();
            universe(w, &(0..k).chain(ids.iter().cloned()).collect::<Vec<_>>(), &[100]);
            let mut sh = rand_graph(w, 1, dir, &ids, dens, &["a", "b", "c", "d"], &["x", "y", "z"]);
            // labels that nothing carries any more, nodes that left
            for _ in 0..w.rng.below(4) {
                if ids.is_empty() {
                    break;
                }
                let x = *w.rng.clone().pick(&ids);
                w.rng.next();
                match w.rng.below(4) {
                    0 => w.upd_node(1, W::<CC>::id(x), Some("e")),
                    1 => {
                        w.remove_node(1, W::<CC>::id(x));
                        sh.del_node(x);
                    }
                    2 => w.add_nl(1, Some("unused")),
                    _ => w.add_el(1, Some("unused")),
                }
            }
            let mut h = 10;
            for bits in 0..8 {
                if bits != 1 && bits != 7 && w.rng.chance(1, 2) {
                    continue;
                }
                h += 1;
                reorder_once(w, 1, h, bits & 1 != 0, bits & 2 != 0, bits & 4 != 0);
                w.obs_own(h, &["C23"]);
            }
            for _ in 0..2 {
                h += 1;
                rename_once(w, 1, h, &sh);
            }
            w.obs_own(1, &["C23"]);
        });
    }
    macro_rules! huge {
        ($cfg:ty, $m:expr, $dir:expr) => {
            c.scen::<$cfg, _>("huge", |w| {
                if !huge_shape(w, 1, $dir, $m, 300, lots($m)) {
                    return;
                }
                w.pair_limit = 20;
                universe(w, &[0, 1, $m / 2, $m - 1], &[]);
                for bits in vec![7, 1] {
                    reorder_once(w, 1, 10 + bits, bits & 1 != 0, bits & 2 != 0, bits & 4 != 0);
                    w.obs_own(10 + bits, &["C23"]);
                }
            });
        };
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        huge!(Std, 12_000, dir);
        huge!(Wide, 3_000, !dir);
    }
    for i in 0..c.n(6, 30) {
        by_cfg!(c, [0, 3, 5, 2, 4, 0][i % 6], "big", w, {
            let few = <<CC as Cfg>::L as IdType>::max_usize() < 2000;
            let k = if few { 180 } else { w.rng.range(270, 420) };
            let mut r = w.rng.clone();
            let extra = r.below(2 * k);
            let step = if few || r.chance(1, 2) { 1 } else { 2 };
            let (p, q, es) = hub_edges(&mut r, k, step, extra);
            let (ln, le) = if few { (90, 90) } else { (r.range(200, 400), r.range(200, 400)) };
            w.rng = r;
            w.bulk(1, i % 2 == 0, k, step, &texts("", ln), &texts("", le), &es);
            ask_hubs(w, k, step, p, q, 80);
            for (j, bits) in vec![7, 1, 2, 4].into_iter().enumerate() {
                if j > 0 && j != 1 + i % 3 {
                    continue;
                }
                let h = 10 + bits as i64;
                reorder_once(w, 1, h, bits & 1 != 0, bits & 2 != 0, bits & 4 != 0);
                w.obs_own(h, &["C23"]);
            }
        });
    }
}

// ------------------------------------------------------------ generators
pub fn generate<C: Cfg<L = <C as Cfg>::Id>>(w: &mut W<C>, h: i64, big: bool) {
    generate_at(w, h, big, None)
}

/// at: the kind of graph, its nodes and its edges
fn generate_at<C: Cfg<L = <C as Cfg>::Id>>(w: &mut W<C>, h: i64, big: bool, at: Option<(&'static str, usize, usize)>) {
    let mut r = w.rng.clone();
    let dir = r.chance(1, 2);
    let k = match at {
        Some((_, k, _)) => k,
        None if big => r.range(10, 24),
        None => r.below(7),
    };
    let kind = match at {
        Some((kind, _, _)) => kind,
        None => *r.pick(&["empty", "complete", "gnm", "gnm", "gnp", "gnp0", "gnp1"]),
    };
    let full = if k == 0 { 0 } else { k * (k - 1) / if dir { 1 } else { 2 } };
    let m = if r.chance(1, 8) { full + r.range(1, 3) } else if r.chance(1, 4) { full } else { r.below(full + 1) };
    let m = match at {
        Some((_, _, m)) => m,
        None => m,
    };
    let labels = |r: &mut crate::rng::Rng, p: &[&str]| -> Vec<String> {
        if r.chance(1, 3) {
            vec![]
        } else {
            (0..r.range(1, 4)).map(|_| r.pick(p).to_string()).collect()
        }
    };
    let plain = r.chance(1, 4);
    let nl: Vec<String> = if plain { vec![] } else { labels(&mut r, &["a", "b", "c", "d"]) };
    let el: Vec<String> = if plain { vec![] } else { labels(&mut r, &["x", "y", "z"]) };
    let (p, bad) = match kind {
        "gnp0" => (0.0f32, false),
        "gnp1" => (1.0, false),
        // few edges where there are many pairs
        "gnp" if k > 100 => (0.02, false),
        "gnp" if k > 30 => (*r.pick(&[0.02, 0.05, 0.1]), false),
        "gnp" => *r.pick(&[(0.3, false), (0.5, false), (0.9, false), (0.01, false), (-0.5, true), (1.01, true), (-0.001, true), (2.0, true)]),
        _ => (0.0, false),
    };
    w.rng = r;
    let nv: Vec<C::NL> = nl.iter().map(|x| C::NL::of(x)).collect();
    let ev: Vec<C::EL> = el.iter().map(|x| C::EL::of(x)).collect();
    macro_rules! go {
        ($ty:ty) => {
            match (kind, plain) {
                ("empty", false) => empty_graph::<C::Id, C::NL, C::EL, $ty>(k, nv, ev),
                ("complete", false) => complete_graph::<C::Id, C::NL, C::EL, $ty>(k, nv, ev),
                ("gnm", false) => random_gnm_graph::<C::Id, C::NL, C::EL, $ty>(k, m, nv, ev),
                (_, false) => random_gnp_graph::<C::Id, C::NL, C::EL, $ty>(k, p, nv, ev),
                ("empty", true) => empty_graph_unlabeled::<C::Id, C::NL, C::EL, $ty>(k),
                ("complete", true) => complete_graph_unlabeled::<C::Id, C::NL, C::EL, $ty>(k),
                ("gnm", true) => random_gnm_graph_unlabeled::<C::Id, C::NL, C::EL, $ty>(k, m),
                (_, true) => random_gnp_graph_unlabeled::<C::Id, C::NL, C::EL, $ty>(k, p),
            }
        };
    }
    let res = call(|| if dir { G::Di(go!(Directed)) } else { G::Un(go!(Undirected)) });
    let show_n = |x: &String| s(C::NL::of(x).show());
    let show_e = |x: &String| s(C::EL::of(x).show());
    let mut f = vec![
        ("kind", s(kind)),
        ("dir", b(dir)),
        ("n", n(k as i64)),
        ("m", n(m as i64)),
        ("bad", b(bad)),
        ("nl", a(nl.iter().map(show_n))),
        ("el", a(el.iter().map(show_e))),
        ("h", n(h)),
    ];
    match res {
        Ok(g) => {
            W::<C>::outcome(g.gg(), &mut f);
            w.g.insert(h, g);
        }
        Err(()) => f.push(("pan", b(true))),
    }
    w.ev("gen", f);
    if at.is_some() && h > 1 {
        w.forget(h);
        return;
    }
    universe(w, &(0..k).collect::<Vec<_>>(), &[k]);
    w.obs_own(h, &["C24"]);
}

/// What the random generators are able to produce: many draws of one small family, and
/// how often each pair came out and which labels were ever carried.
fn support<C: Cfg<L = <C as Cfg>::Id>>(w: &mut W<C>, kind: &str, dir: bool, k: usize, m: usize, p100: usize, nl: &[&str], el: &[&str], draws: usize) {
    use std::collections::{BTreeMap, BTreeSet};
    let mut outs: BTreeSet<Vec<(usize, usize)>> = BTreeSet::new();
    let mut freq: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut ln: BTreeSet<(usize, String)> = BTreeSet::new();
    let mut le: BTreeSet<((usize, usize), String)> = BTreeSet::new();
    let mut sizes: BTreeSet<usize> = BTreeSet::new();
    macro_rules! draw {
        ($ty:ty) => {
            for _ in 0..draws {
                let nv: Vec<C::NL> = nl.iter().map(|x| C::NL::of(x)).collect();
                let ev: Vec<C::EL> = el.iter().map(|x| C::EL::of(x)).collect();
                let g = if kind == "gnm" {
                    random_gnm_graph::<C::Id, C::NL, C::EL, $ty>(k, m, nv, ev)
                } else {
                    random_gnp_graph::<C::Id, C::NL, C::EL, $ty>(k, p100 as f32 / 100.0, nv, ev)
                };
                let mut es: Vec<(usize, usize)> = vec![];
                for (x, y) in g.edge_indices() {
                    let (x, y) = (x.id(), y.id());
                    let key = if dir || x <= y { (x, y) } else { (y, x) };
                    *freq.entry(key).or_insert(0) += 1;
                    if let Some(l) = g.get_edge_label(C::Id::new(x), C::Id::new(y)) {
                        le.insert((key, l.show()));
                    }
                    es.push(key);
                }
                for i in g.node_indices() {
                    if let Some(l) = g.get_node_label(i) {
                        ln.insert((i.id(), l.show()));
                    }
                }
                sizes.insert(g.node_count());
                es.sort();
                outs.insert(es);
            }
        };
    }
    let res = call(|| {
        if dir {
            draw!(Directed)
        } else {
            draw!(Undirected)
        }
    });
    let pair = |x: usize, y: usize| a(vec![n(x as i64), n(y as i64)]);
    let mut f = vec![
        ("kind", s(kind)),
        ("dir", b(dir)),
        ("n", n(k as i64)),
        ("m", n(m as i64)),
        ("p", n(p100 as i64)),
        ("k", n(draws as i64)),
        ("nl", a(nl.iter().map(|x| s(C::NL::of(x).show())))),
        ("el", a(el.iter().map(|x| s(C::EL::of(x).show())))),
        ("sizes", a(sizes.iter().map(|&x| n(x as i64)))),
        ("outs", a(outs.iter().map(|o| a(o.iter().map(|&(x, y)| pair(x, y)))))),
        ("freq", a(freq.iter().map(|(&(x, y), &c)| a(vec![n(x as i64), n(y as i64), n(c as i64)])))),
        ("ln", a(ln.iter().map(|(x, l)| a(vec![n(*x as i64), s(l)])))),
        ("le", a(le.iter().map(|(e, l)| a(vec![pair(e.0, e.1), s(l)])))),
    ];
    if res.is_err() {
        f.push(("pan", b(true)));
    }
    w.ev("support", f);
}

pub fn generators(c: &mut Ctx) {
    for i in 0..c.n(6, 36) {
        macro_rules! sc {
            ($t:ty) => {
                c.scen::<$t, _>("support", |w| {
                    let mut r = w.rng.clone();
                    for kind in vec!["gnm", "gnp"] {
                        let dir = r.chance(1, 2);
                        let k = if dir { 3 } else { r.range(3, 4) };
                        let m = if dir { r.range(1, 5) } else if k == 3 { r.range(1, 2) } else { r.range(1, 5) };
                        let p = *r.pick(&[25, 50, 75]);
                        let nl: Vec<&str> = vec!["a", "b", "c"][..r.below(4)].to_vec();
                        let el: Vec<&str> = vec!["x", "y", "z"][..r.below(4)].to_vec();
                        // the rarest outcome of p = 1/4 or 3/4 is one in 4^6
                        let rare = kind == "gnp" && p != 50 && (dir || k == 4);
                        support(w, kind, dir, if rare && !dir { 3 } else { k }, m, if rare && dir { 50 } else { p }, &nl, &el, 6000);
                    }
                    w.rng = r;
                })
            };
        }
        match i % 3 {
            0 => sc!(Std),
            1 => sc!(Tiny),
            _ => sc!(Big),
        }
    }
    for i in 0..c.n(2, 8) {
        c.scen::<Std, _>("pairs", |w| {
            let mut sizes = vec![0, 1, 2, 3];
            sizes.push(w.rng.range(4, 12));
            if i == 0 {
                sizes.push(40);
            }
            for k in sizes {
                for &dir in &[true, false] {
                    let r = call(|| {
                        let v: Vec<(usize, usize)> = if dir {
                            helper::complete_edge_pairs::<Directed>(k).collect()
                        } else {
                            helper::complete_edge_pairs::<Undirected>(k).collect()
                        };
                        a(v.into_iter().map(|(x, y)| a(vec![n(x as i64), n(y as i64)])))
                    });
                    let mut f = vec![("dir", b(dir)), ("n", n(k as i64))];
                    match r {
                        Ok(v) => f.push(("pairs", v)),
                        Err(()) => f.push(("pan", b(true))),
                    }
                    w.ev("pairs", f);
                }
            }
        });
    }
    for i in 0..c.n(120, 1200) {
        let big = i % 10 == 9;
        macro_rules! sc {
            ($t:ty) => {
                c.scen::<$t, _>("generators", |w| {
                    for j in 0..if big { 1 } else { 5 } {
                        generate(w, 1 + j, big)
                    }
                })
            };
        }
        match i % 3 {
            0 => sc!(Std),
            1 => sc!(Tiny),
            _ => sc!(Big),
        }
    }
    for i in 0..c.n(24, 200) {
        macro_rules! sc {
            ($t:ty, $cap:expr) => {
                c.scen::<$t, _>("large", |w| {
                    w.pair_limit = 60;
                    let k = w.rng.range(30, $cap);
                    let m = w.rng.range(1, 3 * k);
                    match i % 6 {
                        // far fewer edges than pairs, about as many, more than nodes
                        0 | 1 => {
                            // chance may hide what goes wrong: draw often
                            for j in 0..6 {
                                let m = if j < 3 { w.rng.range(k / 2, k - 1) } else { m };
                                generate_at(w, 1 + j, true, Some(("gnm", k, m)));
                            }
                        }
                        2 => generate_at(w, 1, true, Some(("gnm", k, 0))),
                        3 => {
                            let k = w.rng.range(30, 60);
                            let full = k * (k - 1) / 2;
                            let m = full - w.rng.below(full / 4);
                            generate_at(w, 1, true, Some(("gnm", k, m)))
                        }
                        4 => generate_at(w, 1, true, Some(("gnp", k, 0))),
                        _ => {
                            let k = w.rng.range(30, 50);
                            generate_at(w, 1, true, Some((if i % 12 == 5 { "complete" } else { "gnp1" }, k, 0)))
                        }
                    }
                    if w.g.contains_key(&1) && w.rng.chance(1, 3) {
                        w.forget(1);
                    }
                })
            };
        }
        match i % 4 {
            0 => sc!(Std, 300),
            1 => sc!(Tiny, 200),
            2 => sc!(Big, 300),
            _ => sc!(Std, 100),
        }
    }
    for i in 0..c.n(3, 12) {
        c.scen::<Std, _>("huge", |w| {
            w.pair_limit = 20;
            let k = match i % 3 {
                0 => ("gnp", 600, 0),
                1 => ("gnm", 1_500, 4_000),
                _ => ("empty", 66_000, 0),
            };
            universe(w, &[0, 1, k.1 / 2, k.1 - 1], &[k.1]);
            w.skip = NI | ND | EI | ED | CT | CNT;
            generate_at(w, 1, true, Some(k));
        });
    }
    for i in 0..c.n(1, 4) {
        c.scen::<Tiny, _>("capacity", |w| {
            // every id of the type
            let g = call(|| if i % 2 == 0 { G::Un(empty_graph_unlabeled(256)) } else { G::Di(empty_graph_unlabeled(256)) });
            let mut f = vec![
                ("kind", s("empty")),
                ("dir", b(i % 2 == 1)),
                ("n", n(256)),
                ("m", n(0)),
                ("bad", b(false)),
                ("nl", a(vec![])),
                ("el", a(vec![])),
                ("h", n(1)),
            ];
            match g {
                Ok(g) => {
                    W::<Tiny>::outcome(g.gg(), &mut f);
                    w.g.insert(1, g);
                }
                Err(()) => f.push(("pan", b(true))),
            }
            w.ev("gen", f);
        });
    }
}
