//! Label tables, equality, clones, conversions and edge vectors.
use crate::by_cfg;
use crate::ctx::Ctx;
use crate::hist::*;
use crate::json::*;
use crate::rng::Rng;
use crate::world::*;
use indexmap::IndexSet;
use rust_graph::generic::{IdType, MapTrait, MutMapTrait};
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::graph_impl::EdgeVec;
use rust_graph::io::serde::{Deserialize as _, Serialize as _};
use rust_graph::map::{SetMap, VecMap};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;

// ------------------------------------------------- mutable handles: known
/// one orientation of an undirected edge written through a handle
pub fn known_handles(c: &mut Ctx) {
    for form in 0..2 {
        let name = ["K1-edge-handle", "K1-edges-view"][form];
        c.scen::<Std, _>(name, |w| {
            universe(w, &[0, 1], &[]);
            let id = |x: usize| W::<Std>::id(x);
            w.new_graph(1, false, "new", &[], &[], &[]);
            w.add_edge(1, id(0), id(1), Some("x"));
            w.add_el(1, Some("y"));
            if form == 0 {
                w.set_elid(1, id(0), id(1), Some(1), false);
            } else {
                w.edges_mut(1, &[(id(0), id(1), Some(1))], false);
            }
            w.obs(1);
        });
    }
}

// ------------------------------------------------------------------ tables
pub trait Item: Hash + Eq + Ord + Clone + Debug + serde::Serialize + serde::de::DeserializeOwned + 'static {
    fn of(x: &str) -> Self;
    fn show(&self) -> String;
}
impl<T: Label> Item for T {
    fn of(x: &str) -> Self {
        Label::of(x)
    }
    fn show(&self) -> String {
        Label::show(self)
    }
}

#[derive(Clone)]
pub enum Tb<T: Item> {
    Set(SetMap<T>),
    Vec(VecMap<T>),
}

macro_rules! tb {
    ($t:expr, $x:ident, $e:expr) => {
        match $t {
            Tb::Set($x) => $e,
            Tb::Vec($x) => $e,
        }
    };
}

pub struct Tables<T: Item> {
    pub m: BTreeMap<i64, Tb<T>>,
}

fn kind<T: Item>(t: &Tb<T>) -> &'static str {
    match t {
        Tb::Set(_) => "set",
        Tb::Vec(_) => "vec",
    }
}

fn rp(mut f: Vec<(&'static str, V)>, r: Result<V, ()>) -> Vec<(&'static str, V)> {
    match r {
        Ok(v) => f.push(("ret", v)),
        Err(()) => f.push(("pan", b(true))),
    }
    f
}

impl<T: Item> Tables<T> {
    pub fn new() -> Self {
        Tables { m: BTreeMap::new() }
    }
    pub fn make<C: Cfg>(&mut self, w: &mut W<C>, h: i64, how: usize, items: &[&str]) {
        let v: Vec<T> = items.iter().map(|x| T::of(x)).collect();
        let shown: Vec<V> = v.iter().map(|x| s(x.show())).collect();
        let mut d = v.clone();
        d.sort();
        d.dedup();
        let distinct = d.len() == v.len();
        let r = call(|| match how {
            0 => {
                let mut t = SetMap::new();
                for x in v {
                    t.add_item(x);
                }
                Tb::Set(t)
            }
            1 => Tb::Set(SetMap::from_vec(v)),
            2 => Tb::Set(v.into_iter().collect()),
            3 => Tb::Set(SetMap::from(v)),
            4 => Tb::Set(SetMap::from(&v)),
            5 => Tb::Set(SetMap::with_data(v.into_iter().collect::<IndexSet<T>>())),
            6 => {
                let mut t = VecMap::with_capacity(2);
                for x in v {
                    t.add_item(x);
                }
                t.shrink_to_fit();
                Tb::Vec(t)
            }
            7 => Tb::Vec(v.into_iter().collect()),
            // built from a vector as it is: only for vectors without repetition
            8 if distinct => Tb::Vec(VecMap::from(v)),
            9 if distinct => Tb::Vec(VecMap::from(&v)),
            10 if distinct => Tb::Vec(VecMap::with_data(v)),
            11 => {
                let mut t: SetMap<T> = SetMap::with_capacity(1);
                for x in v {
                    t.add_item(x);
                }
                Tb::Set(t)
            }
            12 => {
                let mut t: SetMap<T> = Default::default();
                for x in v {
                    t.add_item(x);
                }
                Tb::Set(t)
            }
            _ => {
                let mut t: VecMap<T> = Default::default();
                for x in v {
                    t.add_item(x);
                }
                Tb::Vec(t)
            }
        });
        let k = if how < 6 || how == 11 || how == 12 { "set" } else { "vec" };
        let mut f = vec![("h", n(h)), ("k", s(k)), ("items", a(shown))];
        match r {
            Ok(t) => {
                self.m.insert(h, t);
            }
            Err(()) => f.push(("pan", b(true))),
        }
        w.ev("tb_new", f);
    }
    pub fn add<C: Cfg>(&mut self, w: &mut W<C>, h: i64, x: &str) {
        let it = T::of(x);
        let sh = it.show();
        let t = self.m.get_mut(&h).unwrap();
        let r = call(|| tb!(t, t, t.add_item(it)));
        w.ev("tb_add", rp(vec![("h", n(h)), ("x", s(sh))], r.map(|i| n(i as i64))));
    }
    pub fn pop<C: Cfg>(&mut self, w: &mut W<C>, h: i64) {
        let t = self.m.get_mut(&h).unwrap();
        let r = call(|| tb!(t, t, t.pop_item()));
        w.ev("tb_pop", rp(vec![("h", n(h))], r.map(|x| opt(x.map(|x| s(x.show()))))));
    }
    pub fn clear<C: Cfg>(&mut self, w: &mut W<C>, h: i64) {
        let t = self.m.get_mut(&h).unwrap();
        let r = call(|| tb!(t, t, t.clear()));
        w.ev("tb_clear", rp(vec![("h", n(h))], r.map(|_| b(true))));
    }
    /// 0: clone, 1: convert by value, 2: convert by reference
    pub fn conv<C: Cfg>(&mut self, w: &mut W<C>, x: i64, h: i64, how: usize) {
        let t = self.m[&x].clone();
        let r = call(|| match (t, how) {
            (t, 0) => t,
            (Tb::Set(t), 1) => Tb::Vec(VecMap::from(t)),
            (Tb::Set(t), _) => Tb::Vec(VecMap::from(&t)),
            (Tb::Vec(t), 1) => Tb::Set(SetMap::from(t)),
            (Tb::Vec(t), _) => Tb::Set(SetMap::from(&t)),
        });
        let k = match (kind(&self.m[&x]), how) {
            (k, 0) => k,
            ("set", _) => "vec",
            _ => "set",
        };
        let mut f = vec![("a", n(x)), ("h", n(h)), ("k", s(k))];
        match r {
            Ok(t) => {
                self.m.insert(h, t);
            }
            Err(()) => f.push(("pan", b(true))),
        }
        w.ev("tb_conv", f);
    }
    pub fn eq<C: Cfg>(&mut self, w: &mut W<C>, x: i64, y: i64) {
        if kind(&self.m[&x]) != kind(&self.m[&y]) {
            return;
        }
        let r = call(|| match (&self.m[&x], &self.m[&y]) {
            (Tb::Set(p), Tb::Set(q)) => (vec![p == q, q == p, !(p != q)], hash(p) == hash(q)),
            (Tb::Vec(p), Tb::Vec(q)) => (vec![p == q, q == p, !(p != q)], hash(p) == hash(q)),
            _ => unreachable!(),
        });
        let mut f = vec![("a", n(x)), ("b", n(y))];
        match r {
            Ok((e, h)) => {
                f.push(("eq", a(e.into_iter().map(b))));
                f.push(("hash", b(h)));
            }
            Err(()) => f.push(("pan", b(true))),
        }
        w.ev("tb_eq", f);
    }
    pub fn obs<C: Cfg>(&mut self, w: &mut W<C>, h: i64, own: &[&str], ask: &[&str]) {
        let t = &self.m[&h];
        let r = call(|| {
            tb!(t, t, {
                let len = t.len();
                let ask: Vec<T> = ask.iter().map(|x| T::of(x)).collect();
                vec![
                    ("len", n(len as i64)),
                    ("empty", b(t.is_empty())),
                    ("items", a(t.items().map(|x| s(x.show())))),
                    ("vec", a(t.clone().items_vec().iter().map(|x| s(x.show())))),
                    ("get", a((0..len + 2).map(|i| opt(t.get_item(i).map(|x| s(x.show())))))),
                    (
                        "find",
                        a(ask.iter().map(|x| {
                            a(vec![s(x.show()), opt(t.find_index(x).map(|i| n(i as i64))), b(t.contains(x))])
                        })),
                    ),
                ]
            })
        });
        let mut f = vec![("h", n(h))];
        if !own.is_empty() {
            f.push(("own", a(own.iter().map(|x| s(*x)))));
        }
        match r {
            Ok(x) => f.extend(x),
            Err(()) => f.push(("pan", b(true))),
        }
        w.ev("tb_obs", f);
    }
    pub fn export<C: Cfg>(&mut self, w: &mut W<C>, x: i64, p: &str) -> bool {
        let path = w.path(p);
        let r = call(|| tb!(&self.m[&x], t, t.export(&path).is_ok()));
        w.ev("export", rp(vec![("a", n(x)), ("p", s(p)), ("tb", b(true))], r.map(b)));
        r == Ok(true)
    }
    pub fn import_raw(path: &str, k: &str) -> Result<Option<Tb<T>>, ()> {
        call(|| match k {
            "set" => SetMap::<T>::import(path).ok().map(Tb::Set),
            _ => VecMap::<T>::import(path).ok().map(Tb::Vec),
        })
    }
    pub fn import<C: Cfg>(&mut self, w: &mut W<C>, p: &str, h: i64, k: &str) {
        let r = Self::import_raw(&w.path(p), k);
        let mut f = vec![("p", s(p)), ("h", n(h)), ("tb", b(true))];
        match r {
            Ok(x) => {
                f.push(("ret", b(x.is_some())));
                if let Some(t) = x {
                    self.m.insert(h, t);
                }
            }
            Err(()) => f.push(("pan", b(true))),
        }
        w.ev("import", f);
    }
}

pub const POOL: [&str; 10] = ["a", "b", "c", "d", "e", "", "a b", "1", "99", "\u{e9}\u{4e2d}\n\""];

fn some_items(r: &mut Rng, max: usize) -> Vec<&'static str> {
    (0..r.below(max + 1)).map(|_| *r.pick(&POOL)).collect()
}

fn table_scenario<C: Cfg, T: Item>(w: &mut W<C>, eq: bool, ops: usize) {
    let mut t: Tables<T> = Tables::new();
    let mut r = w.rng.clone();
    let how = r.below(14);
    t.make(w, 1, how, &some_items(&mut r, 8));
    t.obs(w, 1, &[], &POOL);
    let mut next = 2;
    for _ in 0..ops {
        let live: Vec<i64> = t.m.keys().cloned().collect();
        let h = *r.pick(&live);
        match r.below(20) {
            0..=7 => t.add(w, h, *r.pick(&POOL)),
            8..=10 => t.pop(w, h),
            11 => t.clear(w, h),
            12..=14 => {
                t.conv(w, h, next, r.below(3));
                t.obs(w, next, &[], &POOL);
                next += 1;
            }
            15 => {
                t.make(w, next, r.below(14), &some_items(&mut r, 6));
                t.obs(w, next, &[], &POOL);
                next += 1;
            }
            16 => {
                // the same items in another order
                let mut items: Vec<String> = tb!(&t.m[&h], t, t.items().map(|x| x.show()).collect());
                r.shuffle(&mut items);
                let refs: Vec<&str> = items.iter().map(|x| x.as_ref()).collect();
                t.make(w, next, r.below(14), &refs);
                if eq {
                    t.eq(w, h, next);
                }
                next += 1;
            }
            _ => {
                let g = *r.pick(&live);
                if eq {
                    t.eq(w, h, g);
                } else {
                    t.obs(w, g, &[], &POOL);
                }
            }
        }
        t.obs(w, h, &[], &POOL);
    }
    for h in t.m.keys().cloned().collect::<Vec<_>>() {
        t.obs(w, h, &[], &POOL);
    }
    w.rng = r;
}

/// a walk through spec/LabelMap.tla: `t <kind1> <kind2> ops...`
pub fn replay<C: Cfg, T: Item>(w: &mut W<C>, line: &str, i: usize) {
    let mut it = line.split_whitespace().skip(1);
    let mut t: Tables<T> = Tables::new();
    for h in 1..3 {
        let k = it.next().unwrap();
        t.make(w, h, if k == "s" { [0, 5, 11, 12][i % 4] } else { [6, 13][i % 2] }, &[]);
    }
    let mut step = 0;
    for op in it {
        let b = op.as_bytes();
        let h = |j: usize| (b[j] - b'0') as i64;
        step += 1;
        match b[0] {
            b'a' => t.add(w, h(1), &op[2..]),
            b'p' => t.pop(w, h(1)),
            b'c' => t.clear(w, h(1)),
            b'x' => {
                let same = kind(&t.m[&h(1)]) == (if b[3] == b's' { "set" } else { "vec" });
                t.conv(w, h(1), h(2), if same { 0 } else { 1 + (step + i) % 2 });
            }
            b'q' => t.eq(w, 1, 2),
            b'o' => {
                t.obs(w, 1, &[], &["a", "b", "c", "d"]);
                t.obs(w, 2, &[], &["a", "b", "c", "d"]);
            }
            _ => panic!("schedule"),
        }
    }
}

pub fn tables(c: &mut Ctx) {
    crate::hist::schedules(c, "t");
    for i in 0..c.n(160, 2000) {
        if i % 2 == 0 {
            c.scen::<Std, _>("tables", |w| {
                let ops = w.rng.range(5, 40);
                table_scenario::<_, String>(w, false, ops)
            });
        } else {
            c.scen::<Num, _>("tables", |w| {
                let ops = w.rng.range(5, 40);
                table_scenario::<_, u32>(w, false, ops)
            });
        }
    }
    bulk_tables(c, 28);
    // large tables
    for i in 0..c.n(4, 20) {
        c.scen::<Std, _>("large-table", |w| {
            let mut t: Tables<String> = Tables::new();
            t.make(w, 1, if i % 2 == 0 { 0 } else { 6 }, &[]);
            let pool: Vec<String> = (0..300).map(|i| format!("item{}", i * 7 % 300)).collect();
            for _ in 0..400 {
                let x = w.rng.below(pool.len());
                t.add(w, 1, &pool[x]);
                if w.rng.chance(1, 10) {
                    t.pop(w, 1);
                }
            }
            let ask: Vec<&str> = pool.iter().take(60).map(|x| x.as_ref()).collect();
            t.obs(w, 1, &[], &ask);
            t.conv(w, 1, 2, 1);
            t.obs(w, 2, &[], &ask);
        });
    }
}

/// tables of a thousand items and more, made in every way there is
fn bulk_table<C: Cfg, T: Item>(w: &mut W<C>, how: usize, k: usize) {
    let mut t: Tables<T> = Tables::new();
    let mut r = w.rng.clone();
    let mut pool: Vec<String> = (0..k).map(|i| format!("{}", 5000 + i * 7919 % k)).collect();
    r.shuffle(&mut pool);
    let mut items: Vec<&str> = pool.iter().map(|x| x.as_ref()).collect();
    if how < 8 || how > 10 {
        // repetitions
        for _ in 0..k / 10 {
            let (i, j) = (r.below(items.len()), r.below(k));
            items.insert(i, &pool[j]);
        }
    }
    let mut ask: Vec<&str> = (0..40).map(|_| pool[r.below(k)].as_ref()).collect();
    ask.extend(vec!["4999", "a", items[0], items[items.len() - 1]]);
    t.make(w, 1, how, &items);
    t.obs(w, 1, &[], &ask);
    for (j, c) in [(0, 0), (1, 1), (2, 2)].iter() {
        let h = 2 + j;
        t.conv(w, 1, h, *c);
        t.obs(w, h, &[], &ask);
    }
    for h in 1..4 {
        for _ in 0..r.below(4) {
            t.pop(w, h);
        }
        for _ in 0..4 {
            let x = r.below(k);
            t.add(w, h, &pool[x]);
        }
        t.add(w, h, "1");
        t.obs(w, h, &[], &ask);
    }
    // the same items once more, in another order: equal as sets, not as vectors
    r.shuffle(&mut items);
    items.sort();
    items.dedup();
    t.make(w, 8, how, &items);
    t.make(w, 9, how, &items);
    t.eq(w, 8, 9);
    t.eq(w, 1, 9);
    t.pop(w, 8);
    t.eq(w, 8, 9);
    w.rng = r;
}

pub fn bulk_tables(c: &mut Ctx, quick: usize) {
    for i in 0..c.n(quick, 56) {
        let how = i % 14;
        if i % 2 == 0 {
            c.scen::<Std, _>("bulk-table", |w| {
                let k = w.rng.range(260, 1400);
                bulk_table::<_, String>(w, how, k)
            });
        } else {
            c.scen::<Num, _>("bulk-table", |w| {
                let k = w.rng.range(260, 1400);
                bulk_table::<_, u32>(w, how, k)
            });
        }
    }
}

// ---------------------------------------------------------------- equality
#[derive(Clone)]
struct Value {
    dir: bool,
    n: BTreeMap<usize, Lo>,
    e: BTreeMap<(usize, usize), Lo>,
}

const NLS: [&str; 3] = ["a", "b", "c"];
const ELS: [&str; 3] = ["x", "y", "z"];

fn rand_value(r: &mut Rng, dir: bool, ids: &[usize], dens: usize) -> Value {
    let mut v = Value { dir, n: BTreeMap::new(), e: BTreeMap::new() };
    for &x in ids {
        v.n.insert(x, lab(r, &NLS));
    }
    for &x in ids {
        for &y in ids {
            if (dir || x <= y) && r.chance(dens, 100) {
                v.e.insert((x, y), lab(r, &ELS));
            }
        }
    }
    v
}

/// the value, built along some history
fn realise<C: Cfg>(w: &mut W<C>, h: i64, v: &Value) -> Shadow {
    let mut r = w.rng.clone();
    let id = |x: usize| W::<C>::id(x);
    let strs = |p: &[&str], r: &mut Rng| -> Vec<String> {
        let mut x: Vec<String> = p.iter().map(|x| x.to_string()).collect();
        r.shuffle(&mut x);
        let keep = r.below(x.len() + 1);
        x.truncate(keep);
        x
    };
    if r.chance(1, 2) {
        let nm: Vec<String> = strs(&NLS, &mut r).iter().map(|x| Label::show(&<C::NL as Label>::of(x))).collect();
        let em: Vec<String> = strs(&ELS, &mut r).iter().map(|x| Label::show(&<C::EL as Label>::of(x))).collect();
        w.new_graph(h, v.dir, "maps", &nm, &em, &[]);
    } else {
        w.new_graph(h, v.dir, "new", &[], &[], &[]);
    }
    let mut sh = Shadow::new(v.dir);
    #[derive(Clone)]
    enum Op {
        N(usize),
        E(usize, usize),
    }
    let mut ops: Vec<Op> = v.n.keys().map(|&x| Op::N(x)).chain(v.e.keys().map(|&(x, y)| Op::E(x, y))).collect();
    r.shuffle(&mut ops);
    for op in ops {
        // detours that leave no trace
        if r.chance(1, 5) {
            let x = 90 + r.below(3);
            let (p, q) = (*r.pick(&NLS), *r.pick(&ELS));
            w.add_node(h, id(x), Some(p));
            w.add_edge(h, id(x), id(90), Some(q));
        }
        match op {
            Op::N(x) => {
                if r.chance(1, 5) {
                    w.add_node(h, id(x), Some(*r.pick(&NLS)));
                }
                w.add_node(h, id(x), v.n[&x]);
                sh.node(x);
            }
            Op::E(x, y) => {
                let (p, q) = if !v.dir && r.chance(1, 2) { (y, x) } else { (x, y) };
                if r.chance(1, 5) {
                    w.add_edge(h, id(p), id(q), Some(*r.pick(&ELS)));
                    if r.chance(1, 2) {
                        w.remove_edge(h, id(q), id(p));
                        if v.dir {
                            w.remove_edge(h, id(p), id(q));
                        }
                    }
                }
                w.add_edge(h, id(p), id(q), v.e[&(x, y)]);
                sh.edge(x, y);
            }
        }
    }
    for x in 90..93 {
        if r.chance(2, 3) || true {
            w.remove_node(h, id(x));
        }
    }
    w.rng = r;
    sh
}

fn perturb(r: &mut Rng, v: &Value) -> Value {
    let mut u = v.clone();
    let ids: Vec<usize> = v.n.keys().cloned().collect();
    let keys: Vec<(usize, usize)> = v.e.keys().cloned().collect();
    for _ in 0..20 {
        match r.below(7) {
            0 if !ids.is_empty() => {
                let x = *r.pick(&ids);
                u.n.insert(x, lab(r, &NLS));
            }
            1 if !keys.is_empty() => {
                let k = *r.pick(&keys);
                u.e.insert(k, lab(r, &ELS));
            }
            2 if !keys.is_empty() => {
                u.e.remove(r.pick(&keys));
            }
            3 if !ids.is_empty() => {
                let (x, y) = (*r.pick(&ids), *r.pick(&ids));
                let k = if v.dir || x <= y { (x, y) } else { (y, x) };
                u.e.insert(k, lab(r, &ELS));
            }
            4 => {
                let x = ids.iter().max().map_or(0, |x| x + 1);
                u.n.insert(x, lab(r, &NLS));
            }
            5 if !keys.is_empty() => {
                // the same number of edges, another one
                let k = *r.pick(&keys);
                let l = u.e.remove(&k).unwrap_or(None);
                let (x, y) = (*r.pick(&ids), *r.pick(&ids));
                let j = if v.dir || x <= y { (x, y) } else { (y, x) };
                if !u.e.contains_key(&j) {
                    u.e.insert(j, l);
                }
            }
            6 if keys.len() > 1 => {
                // two labels swapped
                let (p, q) = (*r.pick(&keys), *r.pick(&keys));
                let (lp, lq) = (v.e[&p], v.e[&q]);
                if u.e.contains_key(&p) && u.e.contains_key(&q) {
                    u.e.insert(p, lq);
                    u.e.insert(q, lp);
                }
            }
            _ => continue,
        }
        if u.n != v.n || u.e != v.e || r.chance(1, 10) {
            break;
        }
    }
    u
}

/// h itself and every other representation of it
fn reps<C: Cfg>(w: &mut W<C>, h: i64, sh: &Shadow) -> Vec<i64> {
    let mut v = vec![h];
    if sh.dense() {
        w.to_static(h, h + 1, false);
        if w.g.contains_key(&(h + 1)) {
            v.push(h + 1);
            let p = format!("e{}", h);
            if w.dump(h + 1, &p) {
                w.load(&p, h + 2);
                v.push(h + 2);
            }
        }
    }
    v
}

pub fn equality(c: &mut Ctx) {
    crate::hist::schedules(c, "t");
    for i in 0..c.n(80, 800) {
        if i % 2 == 0 {
            c.scen::<Std, _>("table-equality", |w| table_scenario::<_, String>(w, true, 30));
        } else {
            c.scen::<Num, _>("table-equality", |w| table_scenario::<_, u32>(w, true, 30));
        }
    }
    bulk_tables(c, 14);
    // graphs beyond sixteen bits
    macro_rules! huge {
        ($cfg:ty, $k:expr, $dir:expr) => {
            c.scen::<$cfg, _>("huge", |w| {
                let mut r = w.rng.clone();
                let (p, es) = match huge_graph(w, 10, $dir, $k, lots($k)) {
                    Some(x) => x,
                    None => return,
                };
                w.clone_typed(10, 20);
                w.cmp(10, 20);
                let id = |x: usize| W::<$cfg>::id(x);
                // at the far end, in the middle, anywhere
                for x in vec![$k - 1, $k / 2, r.below($k)] {
                    let (s, t) = es[x];
                    match r.below(4) {
                        0 => {
                            w.remove_edge(20, id(s), id(t));
                            w.cmp(10, 20);
                            w.remove_edge(10, id(s), id(t));
                        }
                        1 => {
                            w.upd_edge(20, id(s), id(t), Some("3"));
                            w.cmp(10, 20);
                            w.upd_edge(10, id(s), id(t), Some("3"));
                        }
                        2 => {
                            w.upd_node(20, id(x), Some("4"));
                            w.cmp(10, 20);
                            w.upd_node(10, id(x), Some("4"));
                        }
                        _ => {
                            let y = if x == p { (p + 1) % $k } else { x };
                            w.add_edge(20, id(y), id((y + 7) % $k), None);
                            w.cmp(10, 20);
                            w.add_edge(10, id(y), id((y + 7) % $k), None);
                        }
                    }
                }
                w.cmp(10, 20);
                w.to_static(10, 30, false);
                if w.g.contains_key(&30) {
                    w.cmp(10, 30);
                }
            });
        };
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        huge!(Std, 66_000, dir);
        huge!(Wide, 5_000, !dir);
        huge!(Num, 3_000, dir);
    }
    // large graphs that differ in nothing, or in one place only
    for i in 0..c.n(8, 60) {
        by_cfg!(c, [0, 3, 4, 5, 2][i % 5], "large-equality", w, {
            let dir = i % 2 == 0;
            let k = w.rng.range(100, 400);
            let many = <<CC as Cfg>::L as IdType>::max_usize() > 2000 && i % 3 == 0;
            let step = if i % 4 == 3 && <CC as Cfg>::Id::max_usize() > 3 * k { 3 } else { 1 };
            let mut r = w.rng.clone();
            let (p, _, es) = hub_edges(&mut r, k, step, k / 2);
            w.rng = r;
            let (nm, em) = if many { (texts("", 400), texts("", 300)) } else { (texts("", 3), texts("", 5)) };
            w.bulk(10, dir, k, step, &nm, &em, &es);
            w.bulk(20, dir, k, step, &nm, &em, &es);
            if !w.g.contains_key(&10) || !w.g.contains_key(&20) {
                return;
            }
            let mut sh = Shadow::new(dir);
            (0..k).for_each(|x| sh.node(x * step));
            let id = |x: usize| W::<CC>::id(x);
            for round in 0..5 {
                let (r1, r2) = (reps(w, 10, &sh), reps(w, 20, &sh));
                for &x in &r1 {
                    for &y in &r2 {
                        w.cmp(x, y);
                    }
                }
                // change one thing, sometimes in both
                let e = *w.rng.pick(&es);
                let x = w.rng.below(k) * step;
                for h in if round % 2 == 0 { 10..11 } else { 20..21 } {
                    match w.rng.below(5) {
                        0 => {
                            w.remove_edge(h * 1, id(e.0), id(e.1));
                        }
                        1 => {
                            w.add_edge(h, id(p), id(p), Some("1001"));
                        }
                        2 => w.upd_edge(h, id(e.0), id(e.1), Some("1002")),
                        3 => w.upd_node(h, id(x), Some("1002")),
                        _ => {
                            w.remove_node(h, id((k - 1) * step));
                            w.add_node(h, id((k - 1) * step), Some("1000"));
                        }
                    }
                }
            }
        });
    }
    for i in 0..c.n(320, 4000) {
        by_cfg!(c, i, "equality", w, {
            let dir = (i / 6) % 2 == 0;
            let mut r = w.rng.clone();
            let k = if i % 40 == 39 { 16 } else { r.below(6) };
            let ids: Vec<usize> = match r.below(6) {
                0 if k > 0 => wide_ids(&mut r, <CC as Cfg>::Id::max_usize()).0.into_iter().filter(|x| !(90..93).contains(x)).collect(),
                1 | 2 => (0..k).map(|x| 2 * x + 1).collect(),
                _ => (0..k).collect(),
            };
            let dens = *r.pick(&[15, 40, 70]);
            let v = rand_value(&mut r, dir, &ids, dens);
            w.rng = r;
            let s1 = realise(w, 10, &v);
            let s2 = realise(w, 20, &v);
            let (r1, r2) = (reps(w, 10, &s1), reps(w, 20, &s2));
            for &x in &r1 {
                for &y in &r2 {
                    w.cmp(x, y);
                }
            }
            w.cmp(10, 10);
            for j in 0..4 {
                let mut r = w.rng.clone();
                let u = perturb(&mut r, &v);
                w.rng = r;
                let h = 30 + 10 * j;
                let s3 = realise(w, h, &u);
                let r3 = reps(w, h, &s3);
                for &x in &r1 {
                    for &y in &r3 {
                        if x == 10 || y == h || w.rng.chance(1, 2) {
                            w.cmp(x, y);
                        }
                    }
                }
            }
            // step by step apart and together again
            let mut sh = s1.clone();
            let sp = Space::small(4);
            for _ in 0..4 {
                rand_op(w, 10, &mut sh, &sp, true, 0);
                w.cmp(10, 20);
            }
        });
    }
}

// ------------------------------------------------------------------ clones
pub fn clones(c: &mut Ctx) {
    macro_rules! huge {
        ($cfg:ty, $k:expr, $dir:expr, $stat:expr) => {
            c.scen::<$cfg, _>("huge", |w| {
                if huge_graph(w, 1, $dir, $k, lots($k)).is_none() {
                    return;
                }
                let id = |x: usize| W::<$cfg>::id(x);
                let x = w.rng.below($k);
                if $stat {
                    w.to_static(1, 5, false);
                    w.clone_box(5, 6);
                    w.clone_typed(5, 7);
                } else {
                    w.clone_box(1, 2);
                    w.clone_typed(1, 3);
                    w.remove_node(1, id(x));
                    w.add_edge(2, id(x), id(x), Some("new"));
                }
                for h in if $stat { vec![6, 7] } else { vec![1, 2, 3] } {
                    if w.g.contains_key(&h) {
                        w.obs_own(h, &["C09"]);
                    }
                }
            });
        };
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        huge!(Std, 66_000, dir, false);
        huge!(Std, 66_000, !dir, true);
        huge!(Wide, 5_000, !dir, false);
        huge!(Wide, 5_000, dir, true);
    }
    // large ones
    for i in 0..c.n(12, 80) {
        by_cfg!(c, [0, 3, 4, 5, 2][i % 5], "large-clones", w, {
            let dir = i % 2 == 0;
            let k = w.rng.range(100, 330);
            let many = <<CC as Cfg>::L as IdType>::max_usize() > 2000 && i % 5 != 4;
            let step = if i % 4 == 3 && <CC as Cfg>::Id::max_usize() > 3 * k { 3 } else { 1 };
            let mut r = w.rng.clone();
            let (p, q, es) = hub_edges(&mut r, k, step, k / 2);
            let (ln, le) = if many { (r.range(200, 400), r.range(200, 400)) } else { (r.below(100), r.below(100)) };
            w.rng = r;
            w.bulk(1, dir, k, step, &texts("", ln), &texts("", le), &es);
            if !w.g.contains_key(&1) {
                return;
            }
            ask_hubs(w, k, step, p, q, 150);
            let mut live = vec![1, 2];
            w.clone_box(1, 2);
            w.clone_typed(1, 3);
            w.clone_box(2, 4);
            if step == 1 {
                w.to_static(1, 5, false);
                w.clone_box(5, 6);
                w.clone_typed(5, 7);
                live.push(6);
                live.push(7);
                if w.dump(5, "big") {
                    w.load("big", 8);
                    w.clone_box(8, 9);
                    live.push(9);
                }
            }
            live.extend(vec![3, 4]);
            let id = |x: usize| W::<CC>::id(x);
            for &h in &live {
                w.obs_own(h, &["C09"]);
                w.cmp(1, h);
            }
            // either side goes on
            for &h in &[1, 2, 3, 4] {
                for _ in 0..6 {
                    let x = w.rng.below(k) * step;
                    match w.rng.below(4) {
                        0 => w.remove_node(h, id(x)),
                        1 => w.remove_edge(h, id(p), id(x)),
                        2 => {
                            w.add_edge(h, id(q), id(x), Some("77"));
                        }
                        _ => {
                            w.add_node(h, id(x), Some("78"));
                        }
                    }
                }
            }
            for &h in &live {
                w.obs_own(h, &["C09"]);
            }
        });
    }
    for i in 0..c.n(240, 3000) {
        by_cfg!(c, i, "clones", w, {
            let dir = (i / 6) % 2 == 0;
            let boxed = i % 7 == 6;
            let sp = if w.rng.chance(1, 5) {
                let mut r = w.rng.clone();
                let ids = wide_ids(&mut r, <CC as Cfg>::Id::max_usize()).0;
                w.rng = r;
                Space { ids, ..Space::small(0) }
            } else if w.rng.chance(1, 3) {
                Space { ids: vec![1, 3, 4, 8], ..Space::small(0) }
            } else {
                Space::small(4)
            };
            let ids = sp.ids.clone();
            universe(w, &ids, &[2, 6]);
            let mut sh = start(w, 1, dir, boxed, &sp);
            for _ in 0..w.rng.range(0, 14) {
                rand_op(w, 1, &mut sh, &sp, !boxed, 0);
            }
            // (handle, shadow, typed, mutable)
            let mut live: Vec<(i64, Shadow, bool, bool)> = vec![(1, sh, !boxed, true)];
            let mut next = 2;
            for _ in 0..w.rng.range(3, 6) {
                let j = w.rng.below(live.len());
                let (h, sh, typed, mutable) = live[j].clone();
                match w.rng.below(4) {
                    0 | 1 if typed => {
                        w.clone_typed(h, next);
                        live.push((next, sh, typed, mutable));
                    }
                    2 if typed && mutable && sh.dense() => {
                        w.to_static(h, next, false);
                        live.push((next, sh, true, false));
                    }
                    3 if typed && !mutable => {
                        let p = format!("c{}", next);
                        if w.dump(h, &p) {
                            w.load(&p, next);
                            live.push((next, sh, false, false));
                        }
                    }
                    _ => {
                        w.clone_box(h, next);
                        // a boxed clone of a mutable graph goes on as a mutable graph
                        let m = w.g.get_mut(&next).map_or(false, |g| match g {
                            G::Bx(b) => call(|| b.as_mut_graph().is_some()).unwrap_or(false),
                            _ => false,
                        });
                        live.push((next, sh, false, m));
                    }
                }
                let last = live.last().unwrap().0;
                if last == next {
                    w.obs_own(next, &["C09"]);
                    w.obs_own(h, &["C09"]);
                    w.cmp(h, next);
                    next += 1;
                }
                // either side goes on
                for _ in 0..2 {
                    let j = w.rng.below(live.len());
                    let (h, mut sh, typed, mutable) = live[j].clone();
                    if !mutable || !w.g.contains_key(&h) {
                        continue;
                    }
                    for _ in 0..w.rng.range(1, 4) {
                        rand_op(w, h, &mut sh, &sp, typed, 0);
                    }
                    live[j].1 = sh;
                    for (h, ..) in live.clone() {
                        w.obs_own(h, &["C09"]);
                    }
                }
            }
            // originals may go away
            let (h, ..) = live[0];
            w.forget(h);
            for (h, ..) in live.clone().into_iter().skip(1) {
                w.obs_own(h, &["C09"]);
            }
        });
    }
}

// ----------------------------------------------------------------- statics
pub fn vectors<C: Cfg>(w: &mut W<C>, h: i64, own: &str) {
    fn ids<I: IdType>(x: &[I]) -> V {
        a(x.iter().map(|&x| enc(x)))
    }
    macro_rules! go {
        ($g:expr) => {{
            let e = $g.get_edge_vec();
            let i = $g.get_in_edge_vec();
            let (io, ie) = match i {
                Some(x) => (a(x.get_offsets().iter().map(|&x| n(x as i64))), ids(x.get_edges())),
                None => (a(vec![]), a(vec![])),
            };
            vec![
                ("off", a(e.get_offsets().iter().map(|&x| n(x as i64)))),
                ("edg", ids(e.get_edges())),
                ("el", ids(e.get_labels())),
                ("nl", opt($g.get_labels().as_ref().map(|x| ids(x)))),
                ("ioff", io),
                ("iedg", ie),
                ("sentinel", enc(C::L::max_value())),
            ]
        }};
    }
    // what the graph hands out to be written is what it hands out to be read
    macro_rules! same {
        ($g:expr) => {{
            let e = (
                $g.get_edge_vec().clone(),
                $g.get_in_edge_vec().clone(),
                $g.get_labels().clone(),
                $g.get_node_label_map().clone(),
                $g.get_edge_label_map().clone(),
            );
            e.0 == *$g.get_edge_vec_mut()
                && e.1 == *$g.get_in_edge_vec_mut()
                && e.2 == *$g.get_labels_mut()
                && e.3 == *$g.get_node_label_map_mut()
                && e.4 == *$g.get_edge_label_map_mut()
        }};
    }
    let same = match w.g.get_mut(&h) {
        Some(G::SUn(g)) => call(|| same!(g)),
        Some(G::SDi(g)) => call(|| same!(g)),
        _ => return,
    };
    let mut f = match w.g.get(&h) {
        Some(G::SUn(g)) => go!(g),
        Some(G::SDi(g)) => go!(g),
        _ => return,
    };
    f.push(("same", b(same == Ok(true))));
    let f = vec![("h", n(h)), ("own", a(vec![s(own)]))].into_iter().chain(f).collect();
    w.ev("vectors", f);
}

fn convert<C: Cfg>(w: &mut W<C>, h: i64, to: i64, sh: &Shadow) {
    if sh.dense() {
        w.to_static(h, to, false);
        vectors(w, to, "C10");
        w.obs_own(to, &["C10"]);
    } else {
        w.to_static(h, to, true);
        let keep = w.uni.clone();
        let m = sh.max();
        w.uni.retain(|i| i.id() <= m);
        w.obs_own(to, &["C10"]);
        w.uni = keep;
    }
}

pub fn statics(c: &mut Ctx) {
    // all directed graphs on two nodes and undirected ones on three, all labellings of edges
    let mut small: Vec<(bool, usize, u64, u64)> = vec![(false, 0, 0, 0), (true, 0, 0, 0)];
    for k in 1..4usize {
        for &dir in &[true, false] {
            let bits = if dir { k * k } else { k * (k + 1) / 2 };
            for e in 0..1u64 << bits {
                let m = e.count_ones() as usize + k;
                let all = 3u64.pow(m.min(20) as u32);
                // thin out what is large
                let take = if all <= 81 { all } else { 16 };
                if k == 3 && dir && e % 8 != 5 {
                    continue;
                }
                for j in 0..take {
                    small.push((dir, k, e, if all <= 81 { j } else { j * (all / 16) + e * 7919 % (all / 16) }));
                }
            }
        }
    }
    let stride = if c.thorough { 24 } else { 24 };
    let mut rng = Rng::new(c.seed, "statics", 0);
    if !c.thorough {
        rng.shuffle(&mut small);
        small.truncate(1600);
    }
    for (j, chunk) in small.chunks(stride).enumerate() {
        by_cfg!(c, j, "small", w, {
            universe(w, &[0, 1, 2], &[3]);
            let mut h = 1;
            for &(dir, k, e, l) in chunk {
                let sh = tiny_graph(w, h, dir, k, e, l);
                convert(w, h, h + 1, &sh);
                w.forget(h);
                w.forget(h + 1);
                h += 2;
            }
        });
    }
    for i in 0..c.n(260, 4000) {
        by_cfg!(c, i, "random", w, {
            let dir = (i / 6) % 2 == 0;
            let mut r = w.rng.clone();
            let k = match r.below(10) {
                0 => 0,
                1 => 40,
                _ => r.range(1, 9),
            };
            let dense = r.chance(2, 3);
            let mut ids: Vec<usize> = if dense { (0..k).collect() } else { (0..k).map(|x| 2 * x + 1).collect() };
            if !dense && k > 2 && r.chance(1, 3) {
                ids[0] = 0;
            }
            let dens = *r.pick(&[5, 15, 40, 80]);
            let nl: &[&'static str] = if r.chance(1, 4) { &[] } else { &["a", "b", "c"] };
            let el: &[&'static str] = if r.chance(1, 4) { &[] } else { &["x", "y", "z"] };
            w.rng = r;
            universe(w, &(0..2 * k + 1).collect::<Vec<_>>(), &[100]);
            let mut sh = rand_graph(w, 1, dir, &ids, dens, nl, el);
            // labels that are known but unused, relabelled or unlabelled elements
            for _ in 0..w.rng.below(5) {
                let sp = Space { ids: ids.clone(), nl: nl.to_vec(), el: el.to_vec() };
                if ids.is_empty() {
                    w.add_nl(1, Some("q"));
                    continue;
                }
                rand_op(w, 1, &mut sh, &sp, true, 0);
            }
            convert(w, 1, 2, &sh);
            w.obs_own(1, &["C10"]);
        });
    }
    for i in 0..c.n(4, 24) {
        by_cfg!(c, [0, 2, 3, 5][i % 4], "large", w, {
            let k = w.rng.range(150, 300);
            let ids: Vec<usize> = (0..k).collect();
            w.pair_limit = 100;
            universe(w, &ids, &[k]);
            let sh = rand_graph(w, 1, i % 2 == 0, &ids, 20, &["a", "b", "c"], &["x", "y", "z"]);
            convert(w, 1, 2, &sh);
        });
    }
    macro_rules! huge {
        ($cfg:ty, $k:expr, $dir:expr) => {
            c.scen::<$cfg, _>("huge", |w| {
                if huge_graph(w, 1, $dir, $k, lots($k)).is_none() {
                    return;
                }
                let mut sh = Shadow::new($dir);
                (0..$k).for_each(|x| sh.node(x));
                convert(w, 1, 2, &sh);
            });
        };
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        huge!(Std, 66_000, dir);
        huge!(Wide, 5_000, !dir);
        huge!(Std, 4_200, !dir);
    }
    for i in 0..c.n(10, 60) {
        by_cfg!(c, [0, 3, 4, 5, 2][i % 5], "bulk", w, {
            let k = w.rng.range(200, if i % 5 == 4 || i % 5 == 2 { 250 } else { 900 });
            let many = <<CC as Cfg>::L as IdType>::max_usize() > 2000 && i % 5 != 4;
            let mut r = w.rng.clone();
            let extra = r.range(0, 2 * k);
            let (p, q, es) = hub_edges(&mut r, k, 1, extra);
            let (ln, le) = if many { (r.range(0, 900), r.range(0, 700)) } else { (r.below(100), r.below(100)) };
            w.rng = r;
            let dir = (i / 5 + i) % 2 == 0;
            w.bulk(1, dir, k, 1, &texts("", ln), &texts("", le), &es);
            if !w.g.contains_key(&1) {
                return;
            }
            ask_hubs(w, k, 1, p, q, 200);
            let mut sh = Shadow::new(dir);
            (0..k).for_each(|x| sh.node(x));
            convert(w, 1, 2, &sh);
        });
    }
    for i in 0..c.n(2, 4) {
        c.scen::<Tiny, _>("capacity", |w| {
            // every id of the type
            let ids: Vec<usize> = (0..256).collect();
            w.pair_limit = 100;
            universe(w, &ids, &[]);
            let sh = rand_graph(w, 1, i % 2 == 0, &ids, 3, &["a", "b", "c"], &["x", "y", "z"]);
            convert(w, 1, 2, &sh);
        });
    }
}

// --------------------------------------------------------------------- CSR
#[derive(Clone)]
pub struct Vecs {
    pub dir: bool,
    pub off: Vec<usize>,
    pub edg: Vec<usize>,
    pub el: Option<Vec<usize>>,
    pub nl: Option<Vec<usize>>,
    pub ioff: Vec<usize>,
    pub iedg: Vec<usize>,
    pub iel: Option<Vec<usize>>,
    pub edges: usize,
}

pub fn rand_vecs(r: &mut Rng, dir: bool, k: usize, dens: usize, sentinel: usize, labels: usize) -> Vecs {
    let adj = rand_adj(r, dir, k, dens, sentinel, labels);
    pack_vecs(r, dir, k, &adj, sentinel, labels)
}
fn rand_adj(r: &mut Rng, dir: bool, k: usize, dens: usize, sentinel: usize, labels: usize) -> BTreeMap<(usize, usize), usize> {
    let mut adj: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for x in 0..k {
        for y in 0..k {
            if (dir || x <= y) && r.chance(dens, 100) {
                let l = if r.chance(1, 4) { sentinel } else { r.below(labels + 1) };
                adj.insert((x, y), l);
                if !dir {
                    adj.insert((y, x), l);
                }
            }
        }
    }
    adj
}
pub fn pack_vecs(
    r: &mut Rng,
    dir: bool,
    k: usize,
    adj: &BTreeMap<(usize, usize), usize>,
    sentinel: usize,
    labels: usize,
) -> Vecs {
    let pack = |m: &BTreeMap<(usize, usize), usize>| {
        let mut off = vec![0];
        let (mut edg, mut el) = (vec![], vec![]);
        for x in 0..k {
            for (&(_, y), &l) in m.range((x, 0)..(x + 1, 0)) {
                edg.push(y);
                el.push(l);
            }
            off.push(edg.len());
        }
        (off, edg, el)
    };
    let (mut off, edg, el) = pack(adj);
    let rev: BTreeMap<_, _> = adj.iter().map(|(&(x, y), &l)| ((y, x), l)).collect();
    let (mut ioff, iedg, iel) = pack(&rev);
    // no nodes at all: no offsets, or a single one
    if k == 0 && r.chance(1, 2) {
        off = vec![];
        ioff = vec![];
    }
    let has_el = r.chance(2, 3);
    let nl = if r.chance(2, 3) {
        Some((0..k).map(|_| if r.chance(1, 4) { sentinel } else { r.below(labels + 1) }).collect())
    } else {
        None
    };
    let edges = adj.keys().filter(|(x, y)| dir || x <= y).count();
    Vecs {
        dir,
        off,
        edg,
        el: if has_el { Some(el) } else { None },
        nl,
        ioff,
        iedg,
        iel: if has_el { Some(iel) } else { None },
        edges,
    }
}

pub fn edge_vec<C: Cfg>(off: &[usize], edg: &[usize], el: &Option<Vec<usize>>, raw: bool) -> EdgeVec<C::Id, C::L> {
    let e: Vec<C::Id> = edg.iter().map(|&x| C::Id::new(x)).collect();
    let l: Option<Vec<C::L>> = el.as_ref().map(|x| x.iter().map(|&x| C::L::new(x)).collect());
    if raw && off.len() < 2 && e.is_empty() && l.is_none() {
        return EdgeVec::default();
    }
    if raw {
        return EdgeVec::from_raw(off.to_vec(), e, l);
    }
    match l {
        None => EdgeVec::new(off.to_vec(), e),
        Some(l) => EdgeVec::with_labels(off.to_vec(), e, l),
    }
}

pub fn from_vectors<C: Cfg>(w: &mut W<C>, h: i64, v: &Vecs, nm: &[&str], em: &[&str]) {
    let mut r = w.rng.clone();
    let raw = r.chance(1, 2);
    // the constructor without labels can only describe unlabelled nodes
    let how = match v.nl {
        None => *r.pick(&["new", "from_raw"]),
        Some(_) => *r.pick(&["with_labels", "from_raw"]),
    };
    let plain = how == "new";
    let counts = (r.chance(1, 2), r.chance(1, 2));
    w.rng = r;
    let k = v.off.len().saturating_sub(1);
    let nodes = if counts.0 { Some(k) } else { None };
    let edges = if counts.1 { Some(v.edges) } else { None };
    let nmv: Vec<C::NL> = if plain { vec![] } else { nm.iter().map(|x| <C::NL as Label>::of(x)).collect() };
    let emv: Vec<C::EL> = if plain { vec![] } else { em.iter().map(|x| <C::EL as Label>::of(x)).collect() };
    let nms = a(nmv.iter().map(|x| s(Label::show(x))));
    let ems = a(emv.iter().map(|x| s(Label::show(x))));
    let nums = |x: &[usize]| a(x.iter().map(|&x| n(x as i64)));
    let lids = |x: &[usize]| a(x.iter().map(|&x| enc(C::L::new(x))));
    let f = vec![
        ("h", n(h)),
        ("dir", b(v.dir)),
        ("how", s(how)),
        ("off", nums(&v.off)),
        ("edg", a(v.edg.iter().map(|&x| enc(C::Id::new(x))))),
        ("el", opt(v.el.as_ref().map(|x| lids(x)))),
        ("nl", opt(v.nl.as_ref().map(|x| lids(x)))),
        ("sentinel", enc(C::L::max_value())),
        ("nm", nms),
        ("em", ems),
    ];
    let res = call(|| {
        let e = edge_vec::<C>(&v.off, &v.edg, &v.el, raw);
        let i = if v.dir { Some(edge_vec::<C>(&v.ioff, &v.iedg, &v.iel, !raw)) } else { None };
        let nl: Option<Vec<C::L>> = v.nl.as_ref().map(|x| x.iter().map(|&x| C::L::new(x)).collect());
        let nm: SetMap<C::NL> = nmv.into_iter().collect();
        let em: SetMap<C::EL> = emv.into_iter().collect();
        macro_rules! go {
            ($t:ty) => {
                match how {
                    "new" => <$t>::new(e, i, nodes, edges),
                    "with_labels" => <$t>::with_labels(e, i, nl.unwrap(), nm, em, nodes, edges),
                    _ => <$t>::from_raw(k, v.edges, e, i, nl, nm, em),
                }
            };
        }
        if v.dir {
            G::SDi(go!(SDi<C>))
        } else {
            G::SUn(go!(SUn<C>))
        }
    });
    match res {
        Ok(g) => {
            w.g.insert(h, g);
            w.ev("csr", f);
        }
        Err(()) => w.ev("csr", f.into_iter().chain(vec![("pan", b(true))]).collect()),
    }
}

pub fn positions<C: Cfg, E: EdgeVecTrait<C::Id, C::L>>(w: &mut W<C>, e: &E, v: &Vecs, own: &[&str]) {
    let k = v.off.len().saturating_sub(1);
    let mut q = Vec::new();
    let r = call(|| {
        let mut pairs: BTreeSet<(usize, usize)> = BTreeSet::new();
        for x in 0..k.min(6) + 2 {
            for y in 0..k.min(6) + 2 {
                pairs.insert((x, y));
            }
        }
        let max = C::Id::max_usize();
        pairs.insert((max, 0));
        pairs.insert((0, max));
        pairs.insert((max, max));
        for x in 0..k {
            pairs.insert((x, x));
        }
        for (x, y) in pairs {
            if x > max || y > max {
                continue;
            }
            let (i, j) = (C::Id::new(x), C::Id::new(y));
            let p = e.find_edge_index(i, j);
            let mut good = e.has_edge(i, j) == p.is_some();
            good = good
                && match (e.find_edge_label_id(i, j), &v.el) {
                    (Some(&l), Some(el)) => p.map_or(false, |p| el.get(p) == Some(&l.id())),
                    (None, Some(_)) => p.is_none(),
                    (None, None) => true,
                    (Some(_), None) => false,
                };
            q.push(a(vec![enc(i), enc(j), if good { opt(p.map(|p| n(p as i64))) } else { opt(Some(n(-2))) }]));
        }
        for x in 0..k {
            let i = C::Id::new(x);
            let nb: Vec<usize> = e.neighbors(i).iter().map(|y| y.id()).collect();
            if nb != &v.edg[v.off[x]..v.off[x + 1]] || e.degree(i) != nb.len() || !e.has_node(i) {
                q.push(a(vec![enc(i), enc(i), opt(Some(n(-3)))]));
            }
        }
        if e.num_nodes() != k || e.num_edges() != v.edg.len() || (!v.dir && e.num_undirected_edges() != v.edges) {
            q.push(a(vec![n(0), n(0), opt(Some(n(-4)))]));
        }
    });
    let mut f = vec![
        ("off", a(v.off.iter().map(|&x| n(x as i64)))),
        ("edg", a(v.edg.iter().map(|&x| enc(C::Id::new(x))))),
        ("q", a(q)),
        ("own", a(own.iter().map(|x| s(*x)))),
    ];
    if r.is_err() {
        f.push(("pan", b(true)));
    }
    w.ev("pos", f);
}

/// what a static graph may and may not be made of
fn refusals<C: Cfg>(w: &mut W<C>) {
    let k = w.rng.range(0, 4);
    let v = rand_vecs(&mut w.rng, true, k, 40, C::L::max_usize(), 3);
    for how in 0..3usize {
        for &ins in &[true, false] {
            let out = || edge_vec::<C>(&v.off, &v.edg, &v.el, false);
            let inn = || if ins { Some(edge_vec::<C>(&v.ioff, &v.iedg, &v.iel, false)) } else { None };
            macro_rules! make {
                ($t:ty) => {
                    call(|| {
                        match how {
                            0 => <$t>::new(out(), inn(), None, None),
                            1 => <$t>::with_labels(out(), inn(), vec![C::L::max_value(); k], SetMap::new(), SetMap::new(), None, None),
                            _ => <$t>::from_raw(k, v.edges, out(), inn(), None, SetMap::new(), SetMap::new()),
                        };
                    })
                    .is_err()
                };
            }
            for &dir in &[true, false] {
                if !dir && ins {
                    continue;
                }
                let refused = if dir {
                    make!(rust_graph::graph_impl::TypedDiStaticGraph<C::Id, C::NL, C::EL, C::L>)
                } else {
                    make!(rust_graph::graph_impl::TypedUnStaticGraph<C::Id, C::NL, C::EL, C::L>)
                };
                w.ev("ask_static", vec![("dir", b(dir)), ("ins", b(ins)), ("how", n(how as i64)), ("refused", b(refused))]);
            }
        }
    }
    for how in 0..2usize {
        for labels in 0..4usize {
            let edges = w.rng.below(4);
            let refused = call(|| {
                let off = vec![0, edges];
                let edg: Vec<C::Id> = (0..edges).map(|x| W::<C>::id(x)).collect();
                let lab = vec![C::L::max_value(); labels];
                match (how, labels) {
                    (0, 3) => EdgeVec::<C::Id, C::L>::new(off, edg),
                    (0, _) => EdgeVec::with_labels(off, edg, lab),
                    (_, 3) => EdgeVec::from_raw(off, edg, None),
                    _ => EdgeVec::from_raw(off, edg, Some(lab)),
                };
            })
            .is_err();
            let lab = if labels == 3 { None } else { Some(n(labels as i64)) };
            w.ev("ask_vec", vec![("edges", n(edges as i64)), ("labels", opt(lab)), ("refused", b(refused))]);
        }
    }
}

pub fn csr(c: &mut Ctx) {
    for i in 0..c.n(12, 60) {
        by_cfg!(c, i % 6, "refusals", w, {
            refusals(w);
        });
    }
    for i in 0..c.n(420, 5000) {
        by_cfg!(c, (i + i / 6) % 6, "vectors", w, {
            let dir = (i / 6) % 2 == 0;
            let mut r = w.rng.clone();
            let k = match r.below(12) {
                0 => 0,
                1 => 30,
                2 => 1,
                _ => r.range(2, 8),
            };
            let dens = *r.pick(&[0, 10, 30, 60, 100]);
            let sentinel = <CC as Cfg>::L::max_usize();
            let v = rand_vecs(&mut r, dir, k, dens, sentinel, 3);
            let nms: &[&str] = *r.pick(&[&[][..], &["a", "b"], &["c", "a", "b", "d"]]);
            let ems: &[&str] = *r.pick(&[&[][..], &["x", "y"], &["z", "y", "x", "w"]]);
            let raw = r.chance(1, 2);
            w.rng = r;
            w.pair_limit = 150;
            universe(w, &(0..k + 1).collect::<Vec<_>>(), &[200]);
            let e = edge_vec::<CC>(&v.off, &v.edg, &v.el, raw);
            positions(w, &e, &v, &["C11"]);
            // what the in-memory vectors can do besides
            let mut e = e;
            let mut left = v.clone();
            match w.rng.below(4) {
                0 => {}
                1 => e.shrink_to_fit(),
                2 => {
                    e.remove_labels();
                    left.el = None;
                }
                _ => {
                    e.clear();
                    left.off.clear();
                    left.edg.clear();
                    left.el = left.el.map(|_| vec![]);
                    left.edges = 0;
                }
            }
            positions(w, &e, &left, &["C11"]);
            from_vectors(w, 1, &v, nms, ems);
            w.obs_own(1, &["C11"]);
            // strip labels from copies
            for (j, what) in ["nodes", "edges", "all"].iter().enumerate() {
                let h = 2 + j as i64;
                w.clone_typed(1, h);
                let g = match w.g.get_mut(&h) {
                    Some(g) => g,
                    None => continue,
                };
                let r = call(|| match (g, j) {
                    (G::SUn(g), 0) => g.remove_node_labels(),
                    (G::SUn(g), 1) => g.remove_edge_labels(),
                    (G::SUn(g), _) => g.remove_labels(),
                    (G::SDi(g), 0) => g.remove_node_labels(),
                    (G::SDi(g), 1) => g.remove_edge_labels(),
                    (G::SDi(g), _) => g.remove_labels(),
                    _ => {}
                });
                let mut f = vec![("h", n(h)), ("what", s(*what))];
                if r.is_err() {
                    f.push(("pan", b(true)));
                }
                w.ev("strip", f);
                w.obs_own(h, &["C11"]);
            }
            w.shrink_static(1);
            w.obs_own(1, &["C11"]);
        });
    }
    macro_rules! huge {
        ($cfg:ty, $k:expr, $dir:expr) => {
            c.scen::<$cfg, _>("huge", |w| {
                let mut r = w.rng.clone();
                let sentinel = <$cfg as Cfg>::L::max_usize();
                let p = r.below($k);
                let mut adj: BTreeMap<(usize, usize), usize> = BTreeMap::new();
                for x in 0..$k {
                    for &(x, y) in &[(p, x), (x, p), (x, (x + 1) % $k)] {
                        if (x == p || y == p || x % 6 == 0) && (x < y || ($dir && r.chance(1, 2))) {
                            let l = if r.chance(1, 4) { sentinel } else { r.below(4) };
                            adj.insert((x, y), l);
                            if !$dir {
                                adj.insert((y, x), l);
                            }
                        }
                    }
                }
                let v = pack_vecs(&mut r, $dir, $k, &adj, sentinel, 3);
                w.rng = r;
                ask_hubs(w, $k, 1, p, $k - 1, 8);
                w.pair_limit = 12;
                let e = edge_vec::<$cfg>(&v.off, &v.edg, &v.el, false);
                positions(w, &e, &v, &["C11"]);
                from_vectors(w, 1, &v, &["a", "b", "c", "d"], &["x", "y", "z", "w"]);
                w.obs_own(1, &["C11"]);
            });
        };
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        huge!(Std, 66_000, dir);
        huge!(Wide, 5_000, !dir);
    }
    for i in 0..c.n(8, 40) {
        by_cfg!(c, [0, 2, 3, 5][i % 4], "large", w, {
            let mut r = w.rng.clone();
            let k = if i % 2 == 0 { r.range(60, 120) } else { r.range(150, 250) };
            let dens = if k > 150 { *r.pick(&[1, 3, 50]) } else { *r.pick(&[2, 10, 40]) };
            let v = rand_vecs(&mut r, i / 2 % 2 == 0, k, dens, <CC as Cfg>::L::max_usize(), 3);
            w.pair_limit = 150;
            let (p, q) = (r.below(k), k - 1);
            w.rng = r;
            if k < 150 {
                universe(w, &(0..k + 1).collect::<Vec<_>>(), &[]);
                w.hubs = vec![W::<CC>::id(p)];
                w.rim = (0..k).map(|x| W::<CC>::id(x)).collect();
            } else {
                ask_hubs(w, k, 1, p, q, 250);
            }
            let e = edge_vec::<CC>(&v.off, &v.edg, &v.el, false);
            positions(w, &e, &v, &["C11"]);
            from_vectors(w, 1, &v, &["a", "b", "c", "d"], &["x", "y", "z", "w"]);
            w.obs_own(1, &["C11"]);
        });
    }
    for i in 0..c.n(2, 6) {
        c.scen::<Tiny, _>("capacity", |w| {
            let mut r = w.rng.clone();
            let v = rand_vecs(&mut r, i % 2 == 0, 256, 1, 255, 3);
            w.rng = r;
            w.pair_limit = 150;
            universe(w, &(0..256).collect::<Vec<_>>(), &[]);
            from_vectors(w, 1, &v, &["a", "b", "c", "d"], &["x", "y", "z", "w"]);
            w.obs_own(1, &["C11"]);
        });
    }
}
