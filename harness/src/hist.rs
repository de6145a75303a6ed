//! Operation histories on mutable graphs and on everything derived from them.
use crate::by_cfg;
use crate::ctx::Ctx;
use crate::json::*;
use crate::rng::Rng;
use crate::world::*;
use rust_graph::generic::IdType;
use std::collections::BTreeSet;

/// what the driver knows of a graph it drives (only to choose arguments)
#[derive(Clone, Default)]
pub struct Shadow {
    pub dir: bool,
    pub nodes: BTreeSet<usize>,
    pub edges: BTreeSet<(usize, usize)>,
}

impl Shadow {
    pub fn new(dir: bool) -> Self {
        Shadow { dir, ..Default::default() }
    }
    fn key(&self, s: usize, t: usize) -> (usize, usize) {
        if self.dir || s <= t {
            (s, t)
        } else {
            (t, s)
        }
    }
    pub fn node(&mut self, x: usize) {
        self.nodes.insert(x);
    }
    pub fn edge(&mut self, s: usize, t: usize) {
        self.nodes.insert(s);
        self.nodes.insert(t);
        let k = self.key(s, t);
        self.edges.insert(k);
    }
    pub fn del_node(&mut self, x: usize) {
        self.nodes.remove(&x);
        self.edges.retain(|e| e.0 != x && e.1 != x);
    }
    pub fn del_edge(&mut self, s: usize, t: usize) {
        let k = self.key(s, t);
        self.edges.remove(&k);
    }
    pub fn dense(&self) -> bool {
        self.nodes.iter().enumerate().all(|(i, &x)| i == x)
    }
    pub fn max(&self) -> usize {
        self.nodes.iter().max().cloned().unwrap_or(0)
    }
}

#[derive(Clone)]
pub struct Space {
    pub ids: Vec<usize>,
    pub nl: Vec<&'static str>,
    pub el: Vec<&'static str>,
}

impl Space {
    pub fn small(k: usize) -> Self {
        Space { ids: (0..k).collect(), nl: vec!["a", "b", "c"], el: vec!["x", "y", "z"] }
    }
}

pub fn lab(rng: &mut Rng, pool: &[&'static str]) -> Option<&'static str> {
    if pool.is_empty() || rng.chance(1, 4) {
        None
    } else {
        Some(*rng.pick(pool))
    }
}

pub fn universe<C: Cfg>(w: &mut W<C>, ids: &[usize], absent: &[usize]) {
    let mut u: BTreeSet<C::Id> = ids.iter().map(|&i| W::<C>::id(i)).collect();
    u.extend(absent.iter().map(|&i| W::<C>::id(i)));
    u.insert(C::Id::max_value());
    w.uni = u.into_iter().collect();
}

/// pick an edge: often an existing one, in either orientation
pub fn some_pair(rng: &mut Rng, sh: &Shadow, ids: &[usize], existing: usize) -> (usize, usize) {
    if !sh.edges.is_empty() && rng.chance(existing, 100) {
        let v: Vec<_> = sh.edges.iter().cloned().collect();
        let (s, t) = *rng.pick(&v);
        if rng.chance(1, 3) {
            (t, s)
        } else {
            (s, t)
        }
    } else {
        let s = *rng.pick(ids);
        if rng.chance(15, 100) {
            (s, s)
        } else {
            (s, *rng.pick(ids))
        }
    }
}

pub fn rand_lid<C: Cfg>(rng: &mut Rng, hi: usize) -> Option<C::L> {
    if hi == 0 || rng.chance(1, 4) {
        None
    } else {
        Some(C::L::new(rng.below(hi)))
    }
}

/// sizes of the label tables of graph h
pub fn table_sizes<C: Cfg>(w: &W<C>, h: i64) -> (usize, usize) {
    use rust_graph::generic::MapTrait;
    call(|| {
        let g = w.get(h).gg();
        (g.get_node_label_map().len(), g.get_edge_label_map().len())
    })
    .unwrap_or((0, 0))
}

/// one random operation; `typed`: the graph is a concrete type; `handles`: share of handle writes
pub fn rand_op<C: Cfg>(w: &mut W<C>, h: i64, sh: &mut Shadow, sp: &Space, typed: bool, handles: usize) {
    let mut rng = w.rng.clone();
    let id = |x: usize| W::<C>::id(x);
    // label ids that name a label; handles may also write ids that name none (yet)
    let (nls, els) = if handles > 0 { (5, 5) } else { table_sizes(w, h) };
    let total = 100 + handles;
    let k = rng.below(total);
    match k {
        0..=14 => {
            let x = *rng.pick(&sp.ids);
            let l = lab(&mut rng, &sp.nl);
            w.add_node(h, id(x), l);
            sh.node(x);
        }
        15..=46 => {
            let (a, b) = some_pair(&mut rng, sh, &sp.ids, 25);
            let l = lab(&mut rng, &sp.el);
            w.add_edge(h, id(a), id(b), l);
            sh.edge(a, b);
        }
        47..=57 => {
            let x = *rng.pick(&sp.ids);
            w.remove_node(h, id(x));
            sh.del_node(x);
        }
        58..=71 => {
            let (a, b) = some_pair(&mut rng, sh, &sp.ids, 65);
            w.remove_edge(h, id(a), id(b));
            sh.del_edge(a, b);
        }
        72..=79 => {
            let x = *rng.pick(&sp.ids);
            let l = lab(&mut rng, &sp.nl);
            if typed {
                w.upd_node(h, id(x), l);
            } else {
                w.add_node(h, id(x), l);
                sh.node(x);
            }
        }
        80..=88 => {
            let (a, b) = some_pair(&mut rng, sh, &sp.ids, 75);
            let l = lab(&mut rng, &sp.el);
            if typed {
                w.upd_edge(h, id(a), id(b), l);
            } else {
                w.add_edge(h, id(a), id(b), l);
                sh.edge(a, b);
            }
        }
        89..=90 if typed => w.add_nl(h, lab(&mut rng, &sp.nl)),
        91..=92 if typed => w.add_el(h, lab(&mut rng, &sp.el)),
        93 if typed => w.refine(h),
        94 if typed => w.shrink(h),
        89..=96 => {
            let x = *rng.pick(&sp.ids);
            w.set_nlid(h, id(x), rand_lid::<C>(&mut rng, nls));
        }
        97..=99 => {
            let (a, b) = some_pair(&mut rng, sh, &sp.ids, 80);
            w.set_elid(h, id(a), id(b), rand_lid::<C>(&mut rng, els), true);
        }
        _ => match rng.below(4) {
            0 => {
                let x = *rng.pick(&sp.ids);
                w.set_nlid(h, id(x), rand_lid::<C>(&mut rng, 5));
            }
            1 => {
                let (a, b) = some_pair(&mut rng, sh, &sp.ids, 70);
                w.set_elid(h, id(a), id(b), rand_lid::<C>(&mut rng, 5), true);
            }
            2 => {
                let mut ws = Vec::new();
                for &x in &sp.ids {
                    if rng.chance(1, 3) {
                        ws.push((id(x), rand_lid::<C>(&mut rng, 5)));
                    }
                }
                w.nodes_mut(h, &ws);
            }
            _ => {
                let mut ws = Vec::new();
                for &(a, b) in &sh.edges {
                    if rng.chance(1, 3) {
                        ws.push((id(a), id(b), rand_lid::<C>(&mut rng, 5)));
                    }
                }
                w.edges_mut(h, &ws, true);
            }
        },
    }
    w.rng = rng;
}

pub fn start<C: Cfg>(w: &mut W<C>, h: i64, dir: bool, boxed: bool, sp: &Space) -> Shadow {
    let mut sh = Shadow::new(dir);
    let mut rng = w.rng.clone();
    let how = if boxed { "box" } else { *rng.pick(&["new", "new", "default", "capacity", "maps", "edges"]) };
    let strs = |rng: &mut Rng, p: &[&str]| -> Vec<String> {
        (0..rng.below(p.len() + 2)).map(|_| p[rng.below(p.len())].to_owned()).collect()
    };
    let (mut nm, mut em, mut es) = (vec![], vec![], vec![]);
    if how == "maps" {
        if !sp.nl.is_empty() {
            nm = strs(&mut rng, &sp.nl);
        }
        if !sp.el.is_empty() {
            em = strs(&mut rng, &sp.el);
        }
    }
    if how == "edges" {
        for _ in 0..rng.below(6) {
            let (a, b) = some_pair(&mut rng, &sh, &sp.ids, 20);
            es.push((W::<C>::id(a), W::<C>::id(b)));
            sh.edge(a, b);
        }
    }
    // the specification interns labels as they are shown
    let nm: Vec<String> = nm.iter().map(|x| C::NL::of(x).show()).collect();
    let em: Vec<String> = em.iter().map(|x| C::EL::of(x).show()).collect();
    w.rng = rng;
    w.new_graph(h, dir, how, &nm, &em, &es);
    sh
}

/// graphs derived from typed graph h: clones, static, memory-mapped
pub fn derive<C: Cfg>(w: &mut W<C>, h: i64, sh: &Shadow, typed: bool, base: i64, obs: &mut dyn FnMut(&mut W<C>, i64)) {
    w.clone_box(h, base);
    obs(w, base);
    if typed {
        w.clone_typed(h, base + 1);
        obs(w, base + 1);
        if sh.dense() {
            w.to_static(h, base + 2, false);
            obs(w, base + 2);
            w.clone_box(base + 2, base + 3);
            obs(w, base + 3);
            if w.g.contains_key(&(base + 2)) {
                let p = format!("d{}", base);
                if w.dump(base + 2, &p) {
                    w.load(&p, base + 4);
                    obs(w, base + 4);
                    if w.rng.chance(1, 3) {
                        w.drop_aux(&p);
                        w.load(&p, base + 5);
                        obs(w, base + 5);
                    }
                }
                if w.rng.chance(1, 3) {
                    w.shrink_static(base + 2);
                    obs(w, base + 2);
                }
            }
        } else if sh.max() < 2000 && !sh.nodes.is_empty() {
            w.to_static(h, base + 2, true);
            // only ids up to the largest one have adjacency
            let keep = w.uni.clone();
            let m = sh.max();
            w.uni.retain(|i| i.id() <= m);
            obs(w, base + 2);
            w.uni = keep;
        }
    }
    for i in 0..6 {
        if w.g.contains_key(&(base + i)) {
            w.forget(base + i);
        }
    }
}

pub struct Plan {
    pub dir: bool,
    pub boxed: bool,
    pub via_dyn: bool,
    pub nops: usize,
    pub every: usize,
    pub derive_every: usize,
    pub handles: usize,
    pub absent: Vec<usize>,
}

pub fn history<C: Cfg>(w: &mut W<C>, sp: &Space, p: &Plan) {
    w.via_dyn = p.via_dyn;
    universe(w, &sp.ids, &p.absent);
    let mut sh = start(w, 1, p.dir, p.boxed, sp);
    let typed = !p.boxed;
    w.obs(1);
    for i in 1..=p.nops {
        rand_op(w, 1, &mut sh, sp, typed, p.handles);
        if w.rng.chance(1, p.every) || i == p.nops {
            w.obs(1);
        }
        if p.derive_every > 0 && (i % p.derive_every == 0 || i == p.nops) {
            derive(w, 1, &sh, typed, 10, &mut |w, h| w.obs(h));
        }
    }
    // the original is unaffected by what was derived from it
    w.obs(1);
}

/// ids that coincide, or change their order, when cut to fewer bits or read as signed or floating
pub fn wide_ids(rng: &mut Rng, max: usize) -> (Vec<usize>, Vec<usize>) {
    let mut v: Vec<usize> = match rng.below(3) {
        // congruent modulo powers of two
        0 | 1 => {
            let b = rng.range(0, 5);
            let mut v = vec![b];
            v.extend([8u32, 15, 16, 17, 20, 31, 32, 33, 40, 48, 63].iter().filter(|&&x| x < 64).map(|&x| (1usize << x).saturating_add(b)));
            v
        }
        // around powers of two
        _ => {
            let mut v = vec![0];
            for &x in &[7u32, 8, 15, 16, 24, 31, 32, 53, 63] {
                let c = 1usize << x;
                v.extend(vec![c - 1, c, c + 1]);
            }
            v
        }
    };
    v.retain(|&x| x <= max);
    // traces name ids up to 2^30, around 2^31, 2^32, ... and at the top
    rng.shuffle(&mut v);
    let absent: Vec<usize> = v.iter().skip(6).take(4).cloned().collect();
    v.truncate(6);
    (v, absent)
}

/// the same, for what allocates in proportion to the largest id
pub fn tall_ids(rng: &mut Rng, max: usize) -> (Vec<usize>, Vec<usize>) {
    let b = rng.range(0, 5);
    let mut v: Vec<usize> = [0usize, 1 << 7, 1 << 8, 1 << 9, 1 << 12, 1 << 15, 1 << 16, 1 << 17, 3 << 16, 1 << 19, (1 << 19) + 256]
        .iter()
        .map(|x| x + b)
        .filter(|&x| x <= max)
        .collect();
    rng.shuffle(&mut v);
    let absent: Vec<usize> = v.iter().skip(8).cloned().collect();
    v.truncate(8);
    (v, absent)
}

/// id pools: dense, with gaps, at the ends of the id type
pub fn space_of<C: Cfg>(rng: &mut Rng) -> (Space, Vec<usize>) {
    let max = C::Id::max_usize();
    match rng.below(8) {
        6 | 7 => {
            let (ids, absent) = wide_ids(rng, max);
            (Space { ids, ..Space::small(0) }, absent)
        }
        0 => {
            let sp = Space { ids: vec![0, 1, 2, max - 1, max], ..Space::small(0) };
            (sp, vec![3, max - 2])
        }
        1 => (Space { ids: vec![1, 4, 7, 9], ..Space::small(0) }, vec![0, 2, 8, 10]),
        2 => {
            let mut sp = Space::small(3);
            sp.nl.clear();
            (sp, vec![3, 7])
        }
        3 => {
            let mut sp = Space::small(3);
            sp.el.clear();
            (sp, vec![3])
        }
        4 => (Space::small(5), vec![5, 9]),
        _ => (Space::small(4), vec![4, 100]),
    }
}

fn one<C: Cfg>(w: &mut W<C>, i: usize, derived: bool, handles: usize) {
    let mut rng = w.rng.clone();
    let (sp, absent) = space_of::<C>(&mut rng);
    let boxed = i % 5 == 4;
    let p = Plan {
        dir: (i / 6) % 2 == 0,
        boxed,
        via_dyn: rng.chance(1, 3),
        nops: rng.range(10, 40),
        every: rng.range(1, 3),
        derive_every: if derived { rng.range(6, 14) } else { 0 },
        handles,
        absent,
    };
    w.rng = rng;
    history(w, &sp, &p);
}

fn mid<C: Cfg>(w: &mut W<C>, i: usize, k: usize, nops: usize, derived: bool) {
    let dir = i % 2 == 0;
    let mut sp = Space::small(k);
    sp.nl = vec!["a", "b", "c", "d", "e", "f", "g", "h"];
    sp.el = vec!["x", "y", "z", "u", "v", "w"];
    w.pair_limit = 80;
    universe(w, &sp.ids, &[k, k + 3]);
    let mut sh = start(w, 1, dir, false, &sp);
    for x in 0..k {
        if w.rng.chance(4, 5) {
            let l = lab(&mut w.rng.clone(), &sp.nl);
            w.add_node(1, W::<C>::id(x), l);
            sh.node(x);
        }
    }
    // a hub with large adjacency lists
    let hub = w.rng.below(k);
    for x in 0..k {
        if w.rng.chance(2, 3) {
            let (a, b) = if w.rng.chance(1, 2) { (hub, x) } else { (x, hub) };
            let mut r = w.rng.clone();
            let l = lab(&mut r, &sp.el);
            w.rng = r;
            w.add_edge(1, W::<C>::id(a), W::<C>::id(b), l);
            sh.edge(a, b);
        }
    }
    w.obs(1);
    for _ in 0..nops {
        rand_op(w, 1, &mut sh, &sp, true, 0);
    }
    w.obs(1);
    for x in 0..k {
        w.add_node(1, W::<C>::id(x), None);
        sh.node(x);
    }
    if derived {
        derive(w, 1, &sh, true, 10, &mut |w, h| w.obs(h));
    }
    w.remove_node(1, W::<C>::id(hub));
    w.obs(1);
}

/// every id of a byte-sized id type in use
fn full_u8<C: Cfg>(w: &mut W<C>, dir: bool) {
    let sp = Space::small(256);
    w.pair_limit = 60;
    universe(w, &sp.ids, &[]);
    w.new_graph(1, dir, "new", &[], &[], &[]);
    let mut sh = Shadow::new(dir);
    let mut order: Vec<usize> = (0..256).collect();
    let mut r = w.rng.clone();
    r.shuffle(&mut order);
    for x in order {
        let l = lab(&mut r, &sp.nl);
        w.add_node(1, W::<C>::id(x), l);
        sh.node(x);
    }
    for _ in 0..60 {
        let (a, b) = match r.below(4) {
            0 => (255, r.below(256)),
            1 => (r.below(256), 255),
            2 => (255, 255),
            _ => (r.below(256), r.below(256)),
        };
        let l = lab(&mut r, &sp.el);
        w.add_edge(1, W::<C>::id(a), W::<C>::id(b), l);
        sh.edge(a, b);
    }
    w.rng = r;
    w.obs(1);
    derive(w, 1, &sh, true, 10, &mut |w, h| w.obs(h));
    w.remove_node(1, W::<C>::id(255));
    sh.del_node(255);
    w.obs(1);
    derive(w, 1, &sh, true, 10, &mut |w, h| w.obs(h));
}

/// a label table filled to the brim of what its label id type can express
fn many_labels<C: Cfg>(w: &mut W<C>, dir: bool, k: usize) {
    universe(w, &(0..4).collect::<Vec<_>>(), &[7]);
    w.new_graph(1, dir, "new", &[], &[], &[]);
    for i in 0..k {
        let l = format!("{}", 1000 + i);
        let x = i % 4;
        let y = (i / 4) % 4;
        match i % 3 {
            0 => {
                w.add_node(1, W::<C>::id(x), Some(&l));
            }
            1 => {
                w.add_edge(1, W::<C>::id(x), W::<C>::id(y), Some(&l));
            }
            _ => {
                w.add_nl(1, Some(&l));
                w.add_el(1, Some(&l));
            }
        }
        if i % 40 == 0 {
            w.obs(1);
        }
    }
    for i in 0..k {
        if i % 7 == 0 {
            let l = format!("{}", 1000 + i);
            w.add_nl(1, Some(&l));
            w.add_el(1, Some(&l));
        }
    }
    w.obs(1);
    w.to_static(1, 2, false);
    w.obs(2);
}

pub fn texts(prefix: &str, k: usize) -> Vec<String> {
    (0..k).map(|i| format!("{}{}", prefix, 1000 + i)).collect()
}

/// ids and edges of a graph with two hubs: one adjacent to everything, one to every third node
pub fn hub_edges(r: &mut Rng, k: usize, step: usize, extra: usize) -> (usize, usize, Vec<(usize, usize)>) {
    let (p, q) = (r.below(k), r.below(k));
    let mut set: BTreeSet<(usize, usize)> = BTreeSet::new();
    let flip = r.chance(1, 2);
    for x in 0..k {
        set.insert(if flip { (x, p) } else { (p, x) });
        if x % 3 == 0 {
            set.insert((q, x));
        }
        if r.chance(1, 4) {
            set.insert((x, (x + 1) % k));
        }
    }
    for _ in 0..extra {
        set.insert((r.below(k), r.below(k)));
    }
    (p * step, q * step, set.into_iter().map(|(x, y)| (x * step, y * step)).collect())
}

/// ask around the hubs: every pair with a hub, in both directions
pub fn ask_hubs<C: Cfg>(w: &mut W<C>, k: usize, step: usize, p: usize, q: usize, pairs: usize) {
    let id = |x: usize| W::<C>::id(x * step);
    let mut ids: Vec<usize> = vec![p, q, 0, (k - 1) * step, k / 2 * step];
    let mut r = w.rng.clone();
    for _ in 0..6 {
        ids.push(r.below(k) * step);
    }
    w.rng = r;
    let beyond: Vec<usize> = vec![k * step].into_iter().filter(|&x| x <= C::Id::max_usize()).collect();
    universe(w, &ids, &beyond);
    w.pair_limit = 40;
    w.hubs = vec![W::<C>::id(p), W::<C>::id(q)];
    let stride = (k / pairs).max(1);
    w.rim = (0..k).filter(|x| x % stride == 0).map(id).collect();
}

/// a graph with hubs of a high degree and, perhaps, many labels: in full, worn down, and derived from
fn hubs<C: Cfg>(w: &mut W<C>, dir: bool, k: usize, labels: (usize, usize), derived: bool) {
    let step = if derived || w.rng.chance(1, 2) || C::Id::max_usize() < 3 * k { 1 } else { 3 };
    let mut r = w.rng.clone();
    let (p, q, es) = hub_edges(&mut r, k, step, k / 2);
    w.rng = r;
    w.bulk(1, dir, k, step, &texts("", labels.0), &texts("", labels.1), &es);
    if !w.g.contains_key(&1) {
        return;
    }
    ask_hubs(w, k, step, p, q, 400);
    w.obs(1);
    let id = |x: usize| W::<C>::id(x);
    let mut sh = Shadow::new(dir);
    for x in 0..k {
        sh.node(x * step);
    }
    for &(x, y) in &es {
        sh.edge(x, y);
    }
    if derived {
        derive(w, 1, &sh, true, 10, &mut |w, h| w.obs(h));
    }
    // the hub loses edges, in no particular order
    let mut inc: Vec<(usize, usize)> = es.iter().cloned().filter(|e| e.0 == p || e.1 == p).collect();
    w.rng.shuffle(&mut inc);
    for &(x, y) in inc.iter().take(k / 3) {
        let (x, y) = if !dir && w.rng.chance(1, 2) { (y, x) } else { (x, y) };
        w.remove_edge(1, id(x), id(y));
        sh.del_edge(x, y);
    }
    for _ in 0..20 {
        let x = w.rng.below(k) * step;
        match w.rng.below(4) {
            0 if x != p => {
                w.remove_node(1, id(x));
                sh.del_node(x);
            }
            1 => {
                w.add_edge(1, id(p), id(x), Some("1001"));
                sh.edge(p, x);
            }
            2 => w.upd_edge(1, id(p), id(x), Some("7")),
            _ => w.upd_node(1, id(x), Some("1000")),
        }
    }
    w.obs(1);
    w.remove_node(1, id(p));
    w.obs(1);
}

/// a graph with more nodes, more edges and more neighbours than sixteen bits can count, as handle h;
/// seen through a few questions
/// so many labels that their ids need more than two bytes, in the largest graphs
pub fn lots(k: usize) -> (usize, usize) {
    match k {
        0..=10_000 => (5, 4),
        10_001..=60_000 => (k - 200, k - 300),
        _ => (65_800, 65_700),
    }
}

pub fn huge_graph<C: Cfg>(w: &mut W<C>, h: i64, dir: bool, k: usize, labels: (usize, usize)) -> Option<(usize, Vec<(usize, usize)>)> {
    let mut r = w.rng.clone();
    let p = r.below(k);
    let es: Vec<(usize, usize)> = (0..k).map(|x| if dir && x % 3 == 0 { (x, p) } else { (p, x) }).collect();
    w.rng = r;
    let key: Vec<(usize, usize)> = es.iter().map(|&(x, y)| if !dir && y < x { (y, x) } else { (x, y) }).collect();
    w.bulk(h, dir, k, 1, &texts("", labels.0), &texts("", labels.1), &key);
    if !w.g.contains_key(&h) {
        return None;
    }
    let beyond: Vec<usize> = vec![k].into_iter().filter(|&x| x <= C::Id::max_usize()).collect();
    universe(w, &[p, (p + 1) % k, 0, k - 1], &beyond);
    w.hubs = vec![W::<C>::id(p)];
    w.rim = (0..k).filter(|x| x % (k / 8) == 0).map(|x| W::<C>::id(x)).collect();
    w.pair_limit = 12;
    if k > 10_000 {
        w.skip = NI | ND | EI | ED | CT | CNT;
    }
    Some((p, es))
}

pub fn huge<C: Cfg>(w: &mut W<C>, dir: bool, k: usize, labels: (usize, usize), derived: bool) {
    let (p, es) = match huge_graph(w, 1, dir, k, labels) {
        Some(x) => x,
        None => return,
    };
    w.obs(1);
    let mut sh = Shadow::new(dir);
    if derived {
        for x in 0..k {
            sh.node(x);
        }
        for &(x, y) in &es {
            sh.edge(x, y);
        }
        derive(w, 1, &sh, true, 10, &mut |w, h| w.obs(h));
    } else {
        let id = |x: usize| W::<C>::id(x);
        let x = w.rng.below(k);
        w.remove_edge(1, id(p), id(x));
        w.add_edge(1, id(x), id(x), Some("1"));
        w.obs(1);
    }
}

pub struct Knobs {
    pub quick: usize,
    pub thorough: usize,
    pub derived: bool,
    pub handles: usize,
}

pub fn histories(c: &mut Ctx, k: Knobs) {
    let m = c.n(k.quick, k.thorough);
    for i in 0..m {
        let (derived, handles) = (k.derived, k.handles);
        by_cfg!(c, i, "history", w, one(w, i, derived, handles));
    }
    for i in 0..c.n(6, 60) {
        let derived = k.derived;
        by_cfg!(c, [0, 2, 3, 4, 6][i % 5], "mid", w, {
            let size = w.rng.range(30, 90);
            let nops = w.rng.range(30, 120);
            mid(w, i, size, nops, derived)
        });
    }
    for i in 0..c.n(5, 30) {
        let (derived, big) = (k.derived, c.thorough);
        by_cfg!(c, [0, 3, 4, 5, 2][i % 5], "hubs", w, {
            let size = w.rng.range(150, if big { 700 } else { 330 });
            let many = <<CC as Cfg>::L as IdType>::max_usize() > 2000;
            let labels = match i % 5 {
                0 if many => (w.rng.range(257, 1200), w.rng.range(257, 700)),
                2 if many => (3, w.rng.range(257, 1200)),
                3 if many => (w.rng.range(257, 1200), 2),
                _ => (w.rng.range(0, 200), w.rng.range(0, 200)),
            };
            hubs(w, (i + i / 5) % 2 == 0, size, labels, derived)
        });
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        c.scen::<Std, _>("huge", |w| huge(w, dir, 66_000, lots(66_000), k.derived));
        c.scen::<Std, _>("huge", |w| huge(w, !dir, 4_300, lots(4_300), k.derived));
    }
    if k.derived {
        for i in 0..c.n(2, 6) {
            c.scen::<Tiny, _>("full-u8", |w| full_u8(w, i % 2 == 0));
        }
    }
    for i in 0..c.n(2, 4) {
        c.scen::<Tiny, _>("labels", |w| many_labels(w, i % 2 == 0, 200));
        c.scen::<Mixed, _>("labels", |w| many_labels(w, i % 2 == 0, 230));
    }
    schedules(c, "du");
}

/// histories generated by TLC from GraphSM: one line per history,
/// "d|u ids ops...", ops: n<id><lab> e<s><t><lab> N<id> E<s><t> u<id><lab> v<s><t><lab>
pub fn schedules(c: &mut Ctx, kinds: &str) {
    let sched = c.sched.clone();
    for (i, line) in sched.iter().enumerate().filter(|x| x.1.starts_with(|y| kinds.contains(y))) {
        // the same behaviour on several instantiations and access paths
        let derived = c.prop != "C01" && c.prop != "C25";
        let each = c.thorough;
        match line.as_bytes().first() {
            Some(b'd') | Some(b'u') => {
                by_cfg!(c, [0, 1, 2, 0, 3, 4, 5, 6][i % 8], "schedule", w, replay(w, line, i, derived, each))
            }
            Some(b't') => {
                if i % 2 == 0 {
                    c.scen::<Std, _>("schedule", |w| crate::rep::replay::<_, String>(w, line, i));
                } else {
                    c.scen::<Num, _>("schedule", |w| crate::rep::replay::<_, u32>(w, line, i));
                }
            }
            Some(b'c') => by_cfg!(c, i, "schedule", w, crate::alg::replay_cc(w, line)),
            _ => {}
        }
    }
}

fn replay<C: Cfg>(w: &mut W<C>, line: &str, i: usize, derived: bool, each: bool) {
    let mut it = line.split_whitespace();
    let dir = it.next().unwrap() == "d";
    let k: usize = it.next().unwrap().parse().unwrap();
    w.via_dyn = i % 3 == 1;
    let boxed = i % 4 == 3;
    universe(w, &(0..k).collect::<Vec<_>>(), &[k]);
    w.new_graph(1, dir, if boxed { "box" } else { "new" }, &[], &[], &[]);
    let mut sh = Shadow::new(dir);
    let d = |c: u8| (c - b'0') as usize;
    let l = |c: u8| match c {
        b'-' => None,
        b'a' => Some("a"),
        _ => Some("b"),
    };
    let (mut step, mut looks) = (0, 0);
    for op in it {
        let b = op.as_bytes();
        step += 1;
        if b[0] == b'o' {
            w.obs(1);
            looks += 1;
            if derived && !boxed && looks % if each { 12 } else { 40 } == i % 12 {
                derive(w, 1, &sh, true, 10, &mut |w, h| w.obs(h));
            }
            continue;
        }
        let id = |x: u8| W::<C>::id(d(x));
        let lid = |x: u8| if x == b'-' { None } else { Some(C::L::new(d(x))) };
        match b[0] {
            b'n' => {
                w.add_node(1, id(b[1]), l(b[2]));
                sh.node(d(b[1]));
            }
            b'e' => {
                w.add_edge(1, id(b[1]), id(b[2]), l(b[3]));
                sh.edge(d(b[1]), d(b[2]));
            }
            b'N' => {
                w.remove_node(1, id(b[1]));
                sh.del_node(d(b[1]));
            }
            b'E' => {
                w.remove_edge(1, id(b[1]), id(b[2]));
                sh.del_edge(d(b[1]), d(b[2]));
            }
            b'h' => w.set_nlid(1, id(b[1]), lid(b[2])),
            b'k' => w.set_elid(1, id(b[1]), id(b[2]), lid(b[3]), true),
            b'u' if !boxed => w.upd_node(1, id(b[1]), l(b[2])),
            b'v' if !boxed => w.upd_edge(1, id(b[1]), id(b[2]), l(b[3])),
            // through a trait object only what exists can be updated, by adding it again
            b'u' => {
                if sh.nodes.contains(&d(b[1])) {
                    w.add_node(1, id(b[1]), l(b[2]));
                }
            }
            b'v' => {
                let k = if dir || b[1] <= b[2] { (d(b[1]), d(b[2])) } else { (d(b[2]), d(b[1])) };
                if sh.edges.contains(&k) {
                    w.add_edge(1, id(b[1]), id(b[2]), l(b[3]));
                }
            }
            _ => panic!("schedule"),
        }
        if each {
            w.obs(1);
        }
    }
    w.ev("note", vec![("steps", n(step as i64))]);
}

/// queries on graphs at the edges: nothing in them, ids at the top of the type
pub fn extremes(c: &mut Ctx) {
    for i in 0..c.n(24, 120) {
        by_cfg!(c, i, "empty", w, {
            let dir = (i / 6) % 2 == 0;
            universe(w, &[0, 1], &[5]);
            let sp = Space::small(2);
            let how = ["new", "default", "capacity", "maps", "box"][i % 5];
            w.new_graph(1, dir, how, &[], &[], &[]);
            let sh = Shadow::new(dir);
            w.obs(1);
            let mut r = w.rng.clone();
            // absent things removed, updated, looked up
            let typed = how != "box";
            for _ in 0..6 {
                let x = W::<CC>::id(r.below(3));
                match r.below(5) {
                    0 => w.remove_node(1, x),
                    1 => w.remove_edge(1, x, x),
                    2 if typed => w.upd_node(1, x, Some("a")),
                    3 if typed => w.upd_edge(1, x, x, Some("a")),
                    2 => w.set_nlid(1, x, None),
                    3 => w.set_elid(1, x, x, None, true),
                    _ => w.nodes_mut(1, &[]),
                }
            }
            w.rng = r;
            w.obs(1);
            derive(w, 1, &sh, typed, 10, &mut |w, h| w.obs(h));
            let mut sh = sh;
            rand_op(w, 1, &mut sh, &sp, typed, 0);
            derive(w, 1, &sh, typed, 10, &mut |w, h| w.obs(h));
            // everything removed again
            for x in [0usize, 1] {
                w.remove_node(1, W::<CC>::id(x));
                sh.del_node(x);
            }
            w.obs(1);
            derive(w, 1, &sh, typed, 10, &mut |w, h| w.obs(h));
        });
    }
}

/// dense graphs of n nodes, every edge set by its bits (directed: n*n, undirected: n(n+1)/2)
pub fn tiny_graph<C: Cfg>(w: &mut W<C>, h: i64, dir: bool, k: usize, bits: u64, labels: u64) -> Shadow {
    w.new_graph(h, dir, "new", &[], &[], &[]);
    let mut sh = Shadow::new(dir);
    let mut l = labels;
    let mut next = |pool: [&'static str; 2]| {
        let x = l % 3;
        l /= 3;
        match x {
            0 => None,
            i => Some(pool[i as usize - 1]),
        }
    };
    for x in 0..k {
        w.add_node(h, W::<C>::id(x), next(["a", "b"]));
        sh.node(x);
    }
    let mut bit = 0;
    for x in 0..k {
        for y in 0..k {
            if !dir && y < x {
                continue;
            }
            if bits >> bit & 1 == 1 {
                w.add_edge(h, W::<C>::id(x), W::<C>::id(y), next(["x", "y"]));
                sh.edge(x, y);
            }
            bit += 1;
        }
    }
    sh
}

/// a random graph with nodes 0..n-1 (dense) or with some ids missing
pub fn rand_graph<C: Cfg>(w: &mut W<C>, h: i64, dir: bool, ids: &[usize], dens: usize, nl: &[&'static str], el: &[&'static str]) -> Shadow {
    let mut r = w.rng.clone();
    w.new_graph(h, dir, "new", &[], &[], &[]);
    let mut sh = Shadow::new(dir);
    let mut order = ids.to_vec();
    r.shuffle(&mut order);
    for &x in &order {
        w.add_node(h, W::<C>::id(x), lab(&mut r, nl));
        sh.node(x);
    }
    let mut pairs = Vec::new();
    if ids.len() <= 40 {
        for &x in ids {
            for &y in ids {
                if (dir || x <= y) && r.chance(dens, 100) {
                    pairs.push(if r.chance(1, 2) || dir { (x, y) } else { (y, x) });
                }
            }
        }
    } else {
        for _ in 0..ids.len() * dens / 10 {
            pairs.push((*r.pick(ids), *r.pick(ids)));
        }
    }
    r.shuffle(&mut pairs);
    for (x, y) in pairs {
        w.add_edge(h, W::<C>::id(x), W::<C>::id(y), lab(&mut r, el));
        sh.edge(x, y);
    }
    w.rng = r;
    sh
}
