//! The real library, driven operation by operation; every public call is
//! logged with its arguments and outcome as one event of the specification.
use crate::json::*;
use crate::rng::Rng;
use rust_graph::generic::{
    DiGraphTrait, EdgeTrait, EdgeType, GeneralGraph, GraphLabelTrait, GraphTrait, IdType, MapTrait,
    MutEdgeTrait, MutGraphLabelTrait, MutGraphTrait, MutNodeTrait, NodeTrait, NodeType,
    OwnedEdgeType, OwnedNodeType,
};
use rust_graph::generic::{Directed, GraphType, Undirected};
use rust_graph::graph_impl::TypedGraphMap;
use rust_graph::graph_impl::graph_map::{
    new_general_graphmap, NodeMapTrait, TypedDiGraphMap, TypedUnGraphMap,
};
use rust_graph::graph_impl::{GraphImpl, StaticGraphMmap, TypedDiStaticGraph, TypedUnStaticGraph};
use rust_graph::io::serde::{Deserialize as _, Serialize as _};
use rust_graph::map::SetMap;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::fs::File;
use std::hash::Hash;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub trait Label:
    Hash + Eq + Ord + Clone + Debug + serde::Serialize + serde::de::DeserializeOwned + Send + 'static
{
    fn of(s: &str) -> Self;
    fn show(&self) -> String;
}
impl Label for String {
    fn of(s: &str) -> Self {
        s.to_owned()
    }
    /// long labels are shown by their length, ends and a digest
    fn show(&self) -> String {
        if self.len() <= 300 {
            return self.clone();
        }
        let h = self.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
        let head: String = self.chars().take(12).collect();
        format!("{}...{}...{:x}", head, self.len(), h)
    }
}
/// Numeric labels: the label "a" is 0, "b" is 1, ... (the string itself if it is a number)
impl Label for u32 {
    fn of(s: &str) -> Self {
        s.parse().unwrap_or_else(|_| s.bytes().fold(0u32, |x, c| x.wrapping_mul(31).wrapping_add(c as u32)))
    }
    fn show(&self) -> String {
        self.to_string()
    }
}

/// No labels to speak of: all of them are the same
impl Label for () {
    fn of(_: &str) -> Self {}
    fn show(&self) -> String {
        "void".to_owned()
    }
}

pub trait Cfg: 'static {
    type Id: IdType + serde::Serialize + serde::de::DeserializeOwned;
    type L: IdType + serde::Serialize + serde::de::DeserializeOwned;
    type NL: Label;
    type EL: Label;
    const NAME: &'static str;
}
macro_rules! cfg {
    ($n:ident, $id:ty, $l:ty, $nl:ty, $el:ty) => {
        pub struct $n;
        impl Cfg for $n {
            type Id = $id;
            type L = $l;
            type NL = $nl;
            type EL = $el;
            const NAME: &'static str = stringify!($n);
        }
    };
}
cfg!(Std, u32, u32, String, String);
cfg!(Tiny, u8, u8, String, String);
cfg!(Mixed, u16, u8, String, u32);
cfg!(Wide, usize, u32, u32, String);
cfg!(Num, u32, u16, u32, u32);
cfg!(Big, usize, usize, String, String);
cfg!(Nil, u32, u32, (), ());

pub type NLabel<C> = <C as Cfg>::NL;
pub type Un<C> = TypedUnGraphMap<<C as Cfg>::Id, <C as Cfg>::NL, <C as Cfg>::EL, <C as Cfg>::L>;
pub type Di<C> = TypedDiGraphMap<<C as Cfg>::Id, <C as Cfg>::NL, <C as Cfg>::EL, <C as Cfg>::L>;
pub type SUn<C> = TypedUnStaticGraph<<C as Cfg>::Id, <C as Cfg>::NL, <C as Cfg>::EL, <C as Cfg>::L>;
pub type SDi<C> = TypedDiStaticGraph<<C as Cfg>::Id, <C as Cfg>::NL, <C as Cfg>::EL, <C as Cfg>::L>;
pub type Mm<C> = StaticGraphMmap<<C as Cfg>::Id, <C as Cfg>::NL, <C as Cfg>::EL, <C as Cfg>::L>;
pub type Dyn<C> = dyn GeneralGraph<<C as Cfg>::Id, <C as Cfg>::NL, <C as Cfg>::EL, <C as Cfg>::L>;

pub enum G<C: Cfg> {
    Un(Un<C>),
    Di(Di<C>),
    SUn(SUn<C>),
    SDi(SDi<C>),
    Mm(Mm<C>, String),
    Bx(Box<Dyn<C>>),
}

impl<C: Cfg> G<C> {
    pub fn gg(&self) -> &Dyn<C> {
        match self {
            G::Un(g) => g,
            G::Di(g) => g,
            G::SUn(g) => g,
            G::SDi(g) => g,
            G::Mm(g, _) => g,
            G::Bx(g) => &**g,
        }
    }
    /// a boxed trait object of the same representation and content
    pub fn boxed(&self) -> Option<Box<Dyn<C>>> {
        Some(match self {
            G::Un(g) => Box::new(g.clone()),
            G::Di(g) => Box::new(g.clone()),
            G::SUn(g) => Box::new(g.clone()),
            G::SDi(g) => Box::new(g.clone()),
            G::Mm(_, p) => Box::new(Mm::<C>::new(p)),
            G::Bx(g) => g.clone(),
        })
    }
    pub fn dup(&self) -> Option<G<C>> {
        Some(match self {
            G::Un(g) => G::Un(g.clone()),
            G::Di(g) => G::Di(g.clone()),
            G::SUn(g) => G::SUn(g.clone()),
            G::SDi(g) => G::SDi(g.clone()),
            _ => return None,
        })
    }
    pub fn is_map(&self) -> bool {
        match self {
            G::Un(_) | G::Di(_) => true,
            _ => false,
        }
    }
}

/// centres of the windows of ids that traces can name, beyond 0..2^30 and the
/// top of the type
pub const WINDOWS: [u32; 7] = [31, 32, 33, 40, 48, 53, 63];
/// order preserving: ids of the type to numbers that TLC can hold
pub fn enc<I: IdType>(i: I) -> V {
    let x = i.id() as u64;
    let max = I::max_usize() as u64;
    let top = (1i64 << 31) - 1;
    if x < (1 << 30) {
        return V::N(x as i64);
    }
    if max - x < 1 << 20 {
        return V::N(top - (max - x) as i64);
    }
    for (j, &b) in WINDOWS.iter().enumerate() {
        let c = 1u64 << b;
        let d = x as i128 - c as i128;
        if d >= -(1 << 20) && d < 1 << 20 {
            return V::N((1i64 << 30) + ((j as i64) << 22) + (1 << 21) + d as i64);
        }
    }
    // nothing the driver ever used
    V::N(-10 - (x % (1 << 30)) as i64)
}
pub fn enco<I: IdType>(i: Option<I>) -> V {
    opt(i.map(enc))
}
pub fn so(x: &Option<String>) -> V {
    opt(x.as_ref().map(|x| s(x.clone())))
}

/// run a piece of the library; Err: it panicked
pub fn call<R, F: FnOnce() -> R>(f: F) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

/// more than any enumeration of a correct library can yield here
pub const CAP: usize = 200_000;

// sections of an observation
pub const NC: u32 = 1;
pub const MX: u32 = 2;
pub const NI: u32 = 4;
pub const ND: u32 = 8;
pub const EI: u32 = 16;
pub const ED: u32 = 32;
pub const NQ: u32 = 64;
pub const EQ: u32 = 128;
pub const AJ: u32 = 256;
pub const NM: u32 = 512;
pub const LC: u32 = 1024;
pub const CT: u32 = 2048;
pub const FE: u32 = 4096;
pub const CNT: u32 = 8192;
pub const ALL: u32 = 16383;
/// what the answer "not there" says when it is asked for its parts
pub const NR: u32 = 16384;

pub fn mask_of(prop: &str) -> u32 {
    match prop {
        "C01" => NI | EI | NQ | EQ,
        "C02" => NC,
        "C03" => AJ | EQ,
        "C04" => NI | ND | EI | ED | NQ | EQ | CNT,
        "C05" => NQ | EQ | LC | CT,
        "C06" => NM | LC,
        "C07" => MX,
        "C25" => NI | ND | EI | ED | EQ | NQ,
        "C26" => ALL | NR,
        _ => ALL,
    }
}

pub struct W<C: Cfg> {
    pub f: File,
    pub g: BTreeMap<i64, G<C>>,
    pub tmp: PathBuf,
    pub uni: Vec<C::Id>,
    pub touched: BTreeSet<(C::Id, C::Id)>,
    pub rng: Rng,
    pub mask: u32,
    /// observations too large to be asked for
    pub skip: u32,
    /// reach mutable graphs through the trait object
    pub via_dyn: bool,
    pub pair_limit: usize,
    /// nodes whose pairs with the whole universe are always asked for
    pub hubs: Vec<C::Id>,
    /// the other ends of those pairs
    pub rim: Vec<C::Id>,
    /// an event recorded a panic of the library
    pub panicked: bool,
    /// property that owns every observation of this run
    pub own: Option<&'static str>,
    buf: String,
}

pub fn write_ev(f: &mut File, buf: &mut String, op: &str, fields: Vec<(&'static str, V)>) {
    buf.clear();
    buf.push_str("{\"op\":\"");
    buf.push_str(op);
    buf.push('"');
    for (k, v) in &fields {
        buf.push_str(",\"");
        buf.push_str(k);
        buf.push_str("\":");
        v.write(buf);
    }
    buf.push_str("}\n");
    f.write_all(buf.as_bytes()).expect("trace");
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

macro_rules! mutg {
    ($self:ident, $h:expr, $x:ident, $e:expr) => {{
        let via = $self.via_dyn;
        let g = $self.g.get_mut(&$h).unwrap();
        call(move || match g {
            G::Un(g) if !via => {
                let $x = g;
                $e
            }
            G::Di(g) if !via => {
                let $x = g;
                $e
            }
            G::Un(g) => {
                let $x = g.as_mut_graph().unwrap();
                $e
            }
            G::Di(g) => {
                let $x = g.as_mut_graph().unwrap();
                $e
            }
            G::Bx(g) => {
                let $x = g.as_mut_graph().unwrap();
                $e
            }
            _ => unreachable!(),
        })
    }};
}
macro_rules! typed {
    ($self:ident, $h:expr, $x:ident, $e:expr) => {{
        let g = $self.g.get_mut(&$h).unwrap();
        call(move || match g {
            G::Un(g) => {
                let $x = g;
                $e
            }
            G::Di(g) => {
                let $x = g;
                $e
            }
            _ => unreachable!(),
        })
    }};
}

fn ret_or_pan(mut f: Vec<(&'static str, V)>, r: Result<V, ()>) -> Vec<(&'static str, V)> {
    match r {
        Ok(v) => f.push(("ret", v)),
        Err(()) => f.push(("pan", b(true))),
    }
    f
}

pub type Lo = Option<&'static str>;

impl<C: Cfg> W<C> {
    pub fn new(f: File, tmp: PathBuf, rng: Rng, mask: u32) -> Self {
        W {
            f,
            g: BTreeMap::new(),
            tmp,
            uni: Vec::new(),
            touched: BTreeSet::new(),
            rng,
            mask,
            via_dyn: false,
            pair_limit: 100,
            skip: 0,
            hubs: Vec::new(),
            rim: Vec::new(),
            panicked: false,
            own: None,
            buf: String::new(),
        }
    }
    pub fn ev(&mut self, op: &str, fields: Vec<(&'static str, V)>) {
        if fields.iter().any(|(k, _)| *k == "pan") {
            self.panicked = true;
        }
        write_ev(&mut self.f, &mut self.buf, op, fields);
    }
    pub fn path(&self, name: &str) -> String {
        self.tmp.join(name).to_str().unwrap().to_owned()
    }
    pub fn id(x: usize) -> C::Id {
        C::Id::new(x)
    }
    pub fn get(&self, h: i64) -> &G<C> {
        &self.g[&h]
    }
    fn lab_str(l: &Option<String>) -> V {
        so(l)
    }

    // ------------------------------------------------------------ mutation
    pub fn new_graph(&mut self, h: i64, dir: bool, how: &str, nm: &[String], em: &[String], edges: &[(C::Id, C::Id)]) {
        let nmv: SetMap<C::NL> = nm.iter().map(|x| C::NL::of(x)).collect();
        let emv: SetMap<C::EL> = em.iter().map(|x| C::EL::of(x)).collect();
        let es: Vec<_> = edges.to_vec();
        for e in &es {
            self.touched.insert(*e);
        }
        let how = how.to_owned();
        let g = call(move || -> G<C> {
            match (how.as_ref(), dir) {
                ("new", false) => G::Un(Un::<C>::new()),
                ("new", true) => G::Di(Di::<C>::new()),
                ("default", false) => G::Un(Default::default()),
                ("default", true) => G::Di(Default::default()),
                ("capacity", false) => G::Un(Un::<C>::with_capacity(3, 1, 2)),
                ("capacity", true) => G::Di(Di::<C>::with_capacity(3, 1, 2)),
                ("maps", false) => G::Un(Un::<C>::with_label_map(nmv, emv)),
                ("maps", true) => G::Di(Di::<C>::with_label_map(nmv, emv)),
                ("edges", false) => G::Un(Un::<C>::from_edges(es)),
                ("edges", true) => G::Di(Di::<C>::from_edges(es)),
                (_, d) => G::Bx(new_general_graphmap(d)),
            }
        });
        let sv = |x: &[String]| a(x.iter().map(|x| s(x.clone())));
        let mut f = vec![
            ("h", n(h)),
            ("dir", b(dir)),
            ("nm", sv(nm)),
            ("em", sv(em)),
            ("edges", a(edges.iter().map(|&(x, y)| a(vec![enc(x), enc(y)])))),
        ];
        match g {
            Ok(g) => {
                self.g.insert(h, g);
            }
            Err(()) => {
                f.push(("pan", b(true)));
                self.g.insert(h, if dir { G::Di(Di::<C>::new()) } else { G::Un(Un::<C>::new()) });
            }
        }
        self.ev("new", f);
    }
    /// nodes 0, step, 2*step ... and the given edges; the labels follow from the ids (see Bulk)
    pub fn bulk(&mut self, h: i64, dir: bool, k: usize, step: usize, nm: &[String], em: &[String], edges: &[(usize, usize)]) {
        let mut r = self.rng.clone();
        let lid = |x: usize, c: usize| if c == 0 || x % (c + 1) == 0 { None } else { Some(x % (c + 1) - 1) };
        let mut order: Vec<usize> = (0..k).map(|i| i * step).collect();
        r.shuffle(&mut order);
        let mut es: Vec<(usize, usize)> = edges.to_vec();
        r.shuffle(&mut es);
        for e in es.iter_mut() {
            if !dir && r.chance(1, 2) {
                *e = (e.1, e.0);
            }
        }
        let late = r.chance(1, 2);
        self.rng = r;
        let nmv: SetMap<C::NL> = nm.iter().map(|x| C::NL::of(x)).collect();
        let emv: SetMap<C::EL> = em.iter().map(|x| C::EL::of(x)).collect();
        let shown_n: Vec<V> = nmv.items().map(|x| s(x.show())).collect();
        let shown_e: Vec<V> = emv.items().map(|x| s(x.show())).collect();
        let g = call(|| {
            macro_rules! fill {
                ($g:expr) => {{
                    let mut g = $g;
                    let mut nodes = |g: &mut dyn MutGraphTrait<C::Id, C::NL, C::EL, C::L>| {
                        for &x in &order {
                            g.add_node(Self::id(x), lid(x, nm.len()).map(|i| C::NL::of(&nm[i])));
                        }
                    };
                    if !late {
                        nodes(&mut g);
                    }
                    for &(x, y) in &es {
                        g.add_edge(Self::id(x), Self::id(y), lid(x + y, em.len()).map(|i| C::EL::of(&em[i])));
                    }
                    if late {
                        nodes(&mut g);
                    }
                    g
                }};
            }
            if dir {
                G::Di(fill!(Di::<C>::with_label_map(nmv, emv)))
            } else {
                G::Un(fill!(Un::<C>::with_label_map(nmv, emv)))
            }
        });
        let mut f = vec![
            ("h", n(h)),
            ("dir", b(dir)),
            ("k", n(k as i64)),
            ("step", n(step as i64)),
            ("nm", a(shown_n)),
            ("em", a(shown_e)),
            ("edges", a(edges.iter().map(|&(x, y)| a(vec![enc(Self::id(x)), enc(Self::id(y))])))),
        ];
        match g {
            Ok(g) => {
                self.g.insert(h, g);
            }
            Err(()) => f.push(("pan", b(true))),
        }
        self.ev("bulk", f);
    }
    pub fn add_node(&mut self, h: i64, id: C::Id, lab: Option<&str>) -> bool {
        if !self.g.contains_key(&h) {
            return false;
        }
        let l = lab.map(C::NL::of);
        let ls = l.as_ref().map(|x| x.show());
        let r = mutg!(self, h, g, g.add_node(id, l));
        let f = vec![("h", n(h)), ("id", enc(id)), ("lab", Self::lab_str(&ls))];
        self.ev("add_node", ret_or_pan(f, r.map(b)));
        r == Ok(true)
    }
    pub fn add_edge(&mut self, h: i64, x: C::Id, y: C::Id, lab: Option<&str>) -> bool {
        if !self.g.contains_key(&h) {
            return false;
        }
        self.touched.insert((x, y));
        let l = lab.map(C::EL::of);
        let ls = l.as_ref().map(|x| x.show());
        let r = mutg!(self, h, g, g.add_edge(x, y, l));
        let f = vec![("h", n(h)), ("s", enc(x)), ("t", enc(y)), ("lab", Self::lab_str(&ls))];
        self.ev("add_edge", ret_or_pan(f, r.map(b)));
        r == Ok(true)
    }
    pub fn remove_node(&mut self, h: i64, id: C::Id) {
        if !self.g.contains_key(&h) {
            return;
        }
        let r = mutg!(self, h, g, {
            let x = g.remove_node(id);
            let said = match x.is_some() && !x.is_none() {
                true => Some((x.get_id(), x.get_label_id())),
                false => None,
            };
            match x {
                // the enumeration and the node it holds tell the same
                OwnedNodeType::NodeMap(ref node) if said != Some((node.get_id(), node.get_label_id())) => {
                    a(vec![enc(id), a(vec![]), a(vec![]), a(vec![]), a(vec![])])
                }
                OwnedNodeType::None if said.is_some() || x.is_some() => a(vec![enc(id)]),
                OwnedNodeType::NodeMap(node) => opt_list(vec![
                    enc(node.get_id()),
                    enco(node.get_label_id()),
                    a(node.neighbors_iter().take(CAP).map(enc)),
                    a(node.in_neighbors_iter().take(CAP).map(enc)),
                ]),
                OwnedNodeType::None => match call(|| x.get_id()).is_err() && call(|| x.get_label_id()).is_err() {
                    true => a(vec![]),
                    false => a(vec![enc(id)]),
                },
            }
        });
        let f = vec![("h", n(h)), ("id", enc(id))];
        self.ev("remove_node", ret_or_pan(f, r));
    }
    pub fn remove_edge(&mut self, h: i64, x: C::Id, y: C::Id) {
        if !self.g.contains_key(&h) {
            return;
        }
        self.touched.insert((x, y));
        let r = mutg!(self, h, g, {
            let got = g.remove_edge(x, y);
            let said = match got.is_some() && !got.is_none() {
                true => Some((got.get_start(), got.get_target(), got.get_label_id())),
                false => None,
            };
            match got {
                OwnedEdgeType::Edge(ref e) if said != Some((e.get_start(), e.get_target(), e.get_label_id())) => {
                    a(vec![enc(x), enc(y), a(vec![]), a(vec![])])
                }
                OwnedEdgeType::None if said.is_some() || got.is_some() => a(vec![enc(x)]),
                OwnedEdgeType::Edge(e) => a(vec![enc(e.get_start()), enc(e.get_target()), enco(e.get_label_id())]),
                OwnedEdgeType::None => {
                    match call(|| got.get_start()).is_err() && call(|| got.get_target()).is_err() && call(|| got.get_label_id()).is_err() {
                        true => a(vec![]),
                        false => a(vec![enc(x)]),
                    }
                }
            }
        });
        let f = vec![("h", n(h)), ("s", enc(x)), ("t", enc(y))];
        self.ev("remove_edge", ret_or_pan(f, r));
    }
    pub fn upd_node(&mut self, h: i64, id: C::Id, lab: Option<&str>) {
        if !self.g.contains_key(&h) {
            return;
        }
        let l = lab.map(C::NL::of);
        let ls = l.as_ref().map(|x| x.show());
        let r = typed!(self, h, g, g.update_node_label(id, l));
        let f = vec![("h", n(h)), ("id", enc(id)), ("lab", Self::lab_str(&ls))];
        self.ev("upd_node", ret_or_pan(f, r.map(b)));
    }
    pub fn upd_edge(&mut self, h: i64, x: C::Id, y: C::Id, lab: Option<&str>) {
        if !self.g.contains_key(&h) {
            return;
        }
        let l = lab.map(C::EL::of);
        let ls = l.as_ref().map(|x| x.show());
        let r = typed!(self, h, g, g.update_edge_label(x, y, l));
        let f = vec![("h", n(h)), ("s", enc(x)), ("t", enc(y)), ("lab", Self::lab_str(&ls))];
        self.ev("upd_edge", ret_or_pan(f, r.map(b)));
    }
    pub fn add_nl(&mut self, h: i64, lab: Option<&str>) {
        if !self.g.contains_key(&h) {
            return;
        }
        let l = lab.map(C::NL::of);
        let ls = l.as_ref().map(|x| x.show());
        let r = typed!(self, h, g, g.add_node_label(l));
        let f = vec![("h", n(h)), ("lab", Self::lab_str(&ls))];
        self.ev("add_nl", ret_or_pan(f, r.map(enco)));
    }
    pub fn add_el(&mut self, h: i64, lab: Option<&str>) {
        if !self.g.contains_key(&h) {
            return;
        }
        let l = lab.map(C::EL::of);
        let ls = l.as_ref().map(|x| x.show());
        let r = typed!(self, h, g, g.add_edge_label(l));
        let f = vec![("h", n(h)), ("lab", Self::lab_str(&ls))];
        self.ev("add_el", ret_or_pan(f, r.map(enco)));
    }
    pub fn refine(&mut self, h: i64) {
        if !self.g.contains_key(&h) {
            return;
        }
        let r = typed!(self, h, g, g.refine_edge_count());
        self.ev("refine", ret_or_pan(vec![("h", n(h))], r.map(|_| b(true))));
    }
    pub fn shrink(&mut self, h: i64) {
        if !self.g.contains_key(&h) {
            return;
        }
        let r = typed!(self, h, g, g.shrink_to_fit());
        self.ev("shrink", ret_or_pan(vec![("h", n(h))], r.map(|_| b(true))));
    }
    pub fn shrink_static(&mut self, h: i64) {
        if !self.g.contains_key(&h) {
            return;
        }
        let g = self.g.get_mut(&h).unwrap();
        let r = call(move || match g {
            G::SUn(g) => g.shrink_to_fit(),
            G::SDi(g) => g.shrink_to_fit(),
            _ => {}
        });
        self.ev("shrink", ret_or_pan(vec![("h", n(h))], r.map(|_| b(true))));
    }
    pub fn set_nlid(&mut self, h: i64, id: C::Id, lid: Option<C::L>) {
        if !self.g.contains_key(&h) {
            return;
        }
        let direct = self.rng.chance(1, 2);
        let r = mutg!(self, h, g, {
            let mut m = g.get_node_mut(id);
            if m.is_none() {
                // nothing there: no part of it either
                let no = call(|| m.get_id()).is_err()
                    && call(|| m.get_label_id()).is_err()
                    && call(|| m.set_label_id(lid)).is_err()
                    && call(|| m.unwrap_nodemap_ref().get_id()).is_err();
                a(if no { vec![] } else { vec![enc(id)] })
            } else {
                let v = a(vec![enc(m.get_id()), enco(m.get_label_id())]);
                if direct {
                    m.unwrap_nodemap_ref().set_label_id(lid);
                } else {
                    m.set_label_id(lid);
                }
                v
            }
        });
        let f = vec![("h", n(h)), ("id", enc(id)), ("lid", enco(lid))];
        self.ev("set_nlid", ret_or_pan(f, r));
    }
    /// `both`: write the other orientation of an undirected edge, too (see K1)
    pub fn set_elid(&mut self, h: i64, x: C::Id, y: C::Id, lid: Option<C::L>, both: bool) {
        if !self.g.contains_key(&h) {
            return;
        }
        self.touched.insert((x, y));
        let un = !self.get(h).gg().is_directed();
        let direct = self.rng.chance(1, 2);
        let r = mutg!(self, h, g, {
            let v = {
                let mut m = g.get_edge_mut(x, y);
                if m.is_none() {
                    let no = call(|| m.get_start()).is_err()
                        && call(|| m.get_target()).is_err()
                        && call(|| m.get_label_id()).is_err()
                        && call(|| m.set_label_id(lid)).is_err()
                        && call(|| m.unwrap_edge_ref().get_start()).is_err();
                    a(if no { vec![] } else { vec![enc(x)] })
                } else {
                    let v = a(vec![enc(m.get_start()), enc(m.get_target()), enco(m.get_label_id())]);
                    if direct {
                        let mut e = m.unwrap_edge_ref();
                        let v2 = a(vec![enc(e.get_start()), enc(e.get_target()), enco(e.get_label_id())]);
                        e.set_label_id(lid);
                        concord(v, vec![v2])
                    } else {
                        m.set_label_id(lid);
                        v
                    }
                }
            };
            if both && un && x != y {
                let mut m = g.get_edge_mut(y, x);
                if m.is_some() {
                    m.set_label_id(lid);
                }
            }
            v
        });
        let f = vec![("h", n(h)), ("s", enc(x)), ("t", enc(y)), ("lid", enco(lid))];
        self.ev("set_elid", ret_or_pan(f, r));
    }
    pub fn nodes_mut(&mut self, h: i64, w: &[(C::Id, Option<C::L>)]) {
        if !self.g.contains_key(&h) {
            return;
        }
        let r = mutg!(self, h, g, {
            let mut v = Vec::new();
            for mut m in g.nodes_mut().take(CAP) {
                v.push(a(vec![enc(m.get_id()), enco(m.get_label_id())]));
                for (i, l) in w.iter() {
                    if *i == m.get_id() {
                        m.set_label_id(*l);
                    }
                }
            }
            a(v)
        });
        let f = vec![
            ("h", n(h)),
            ("w", a(w.iter().map(|(i, l)| a(vec![enc(*i), enco(*l)])))),
        ];
        self.ev("nodes_mut", ret_or_pan(f, r));
    }
    pub fn edges_mut(&mut self, h: i64, w: &[(C::Id, C::Id, Option<C::L>)], both: bool) {
        if !self.g.contains_key(&h) {
            return;
        }
        let un = !self.get(h).gg().is_directed();
        let r = mutg!(self, h, g, {
            let mut v = Vec::new();
            let mut other = Vec::new();
            for mut m in g.edges_mut().take(CAP) {
                let (x, y) = (m.get_start(), m.get_target());
                v.push(a(vec![enc(x), enc(y), enco(m.get_label_id())]));
                for (i, j, l) in w.iter() {
                    if (*i, *j) == (x, y) || (un && (*j, *i) == (x, y)) {
                        m.set_label_id(*l);
                        if both && un && x != y {
                            other.push((y, x, *l));
                        }
                    }
                }
            }
            for (x, y, l) in other {
                let mut m = g.get_edge_mut(x, y);
                if m.is_some() {
                    m.set_label_id(l);
                }
            }
            a(v)
        });
        let f = vec![
            ("h", n(h)),
            ("w", a(w.iter().map(|(i, j, l)| a(vec![enc(*i), enc(*j), enco(*l)])))),
        ];
        self.ev("edges_mut", ret_or_pan(f, r));
    }
    pub fn forget(&mut self, h: i64) {
        if !self.g.contains_key(&h) {
            return;
        }
        self.g.remove(&h);
        self.ev("forget", vec![("h", n(h))]);
    }

    // --------------------------------------------------------- observation
    pub fn pairs(&mut self, h: i64) -> Vec<(C::Id, C::Id)> {
        if !self.g.contains_key(&h) {
            return vec![];
        }
        if self.hubs.is_empty() && self.uni.len() * self.uni.len() <= self.pair_limit {
            let mut v = Vec::new();
            for &x in &self.uni {
                for &y in &self.uni {
                    v.push((x, y));
                }
            }
            return v;
        }
        let mut set: BTreeSet<(C::Id, C::Id)> = BTreeSet::new();
        let lim = self.pair_limit;
        let touched: Vec<_> = self.touched.iter().cloned().collect();
        let g = &self.g[&h];
        let es: Vec<(C::Id, C::Id)> = call(|| g.gg().edge_indices().take(CAP).collect()).unwrap_or_default();
        for _ in 0..lim / 4 {
            if !touched.is_empty() {
                set.insert(*self.rng.pick(&touched));
            }
            if !es.is_empty() {
                let e = *self.rng.pick(&es);
                set.insert(e);
                set.insert((e.1, e.0));
            }
            let (x, y) = (*self.rng.pick(&self.uni), *self.rng.pick(&self.uni));
            set.insert((x, y));
            set.insert((x, x));
        }
        for &x in &self.hubs {
            for &y in &self.rim {
                set.insert((x, y));
                set.insert((y, x));
            }
        }
        set.into_iter().collect()
    }

    pub fn obs(&mut self, h: i64) {
        let m = self.mask;
        match self.own {
            None => self.obs_with(h, &[], m),
            Some(p) => self.obs_with(h, &[p], m),
        }
    }
    pub fn obs_own(&mut self, h: i64, own: &[&str]) {
        self.obs_with(h, own, ALL);
    }
    pub fn obs_with(&mut self, h: i64, own: &[&str], mask: u32) {
        let mask = mask & !self.skip;
        if !self.g.contains_key(&h) {
            return;
        }
        let pairs = if mask & (EQ | FE) != 0 { self.pairs(h) } else { vec![] };
        let uni = self.uni.clone();
        let mut f = vec![("h", n(h))];
        if !own.is_empty() {
            f.push(("own", a(own.iter().map(|x| s(*x)))));
        }
        let g = &self.g[&h];
        observe::<C>(g, &uni, &pairs, mask, &mut f);
        self.ev("obs", f);
    }
    /// the graph value in full, as an outcome
    pub fn full(g: &Dyn<C>) -> Result<V, ()> {
        call(|| {
            // in order of the keys, which is what TLC reads fastest
            let key = |i: C::Id| match enc(i) {
                V::N(x) => x,
                _ => -1,
            };
            let dir = g.is_directed();
            let mut nd: Vec<_> =
                g.nodes().take(CAP).map(|x| (key(x.get_id()), a(vec![enc(x.get_id()), enco(x.get_label_id())]))).collect();
            nd.sort_by_key(|x| x.0);
            let mut ed: Vec<_> = g
                .edges()
                .take(CAP)
                .map(|x| {
                    let (p, q) = (key(x.get_start()), key(x.get_target()));
                    let k = if dir || p <= q { (p, q) } else { (q, p) };
                    (k, a(vec![enc(x.get_start()), enc(x.get_target()), enco(x.get_label_id())]))
                })
                .collect();
            ed.sort_by_key(|x| x.0);
            let nd = a(nd.into_iter().map(|x| x.1));
            let ed = a(ed.into_iter().map(|x| x.1));
            V::O(vec![
                ("nd", nd),
                ("ed", ed),
                ("nm", a(g.get_node_label_map().items().map(|x| s(x.show())))),
                ("em", a(g.get_edge_label_map().items().map(|x| s(x.show())))),
                ("mx", enco(g.max_seen_id())),
            ])
        })
    }
    pub fn bad_full() -> V {
        V::O(vec![
            ("nd", a(vec![])),
            ("ed", a(vec![])),
            ("nm", a(vec![])),
            ("em", a(vec![])),
            ("mx", a(vec![])),
        ])
    }
    /// fields d, g of an outcome event; a graph that cannot be read is logged as a panic
    pub fn outcome(g: &Dyn<C>, f: &mut Vec<(&'static str, V)>) {
        match (call(|| g.is_directed()), Self::full(g)) {
            (Ok(d), Ok(v)) => {
                f.push(("d", b(d)));
                f.push(("g", v));
            }
            _ => f.push(("pan", b(true))),
        }
    }

    // --------------------------------------------------------- conversions
    pub fn to_static(&mut self, src: i64, h: i64, gap: bool) {
        if !self.g.contains_key(&src) {
            return;
        }
        let g = self.g[&src].dup();
        let r = call(move || match g {
            Some(G::Un(g)) => G::SUn(g.into_static()),
            Some(G::Di(g)) => G::SDi(g.into_static()),
            _ => unreachable!(),
        });
        let mut f = vec![("a", n(src)), ("h", n(h))];
        match r {
            Ok(g) => {
                self.g.insert(h, g);
            }
            Err(()) => f.push(("pan", b(true))),
        }
        self.ev(if gap { "gap" } else { "static" }, f);
    }
    pub fn clone_typed(&mut self, src: i64, h: i64) {
        if !self.g.contains_key(&src) {
            return;
        }
        let r = call(|| self.g[&src].dup().unwrap());
        let mut f = vec![("a", n(src)), ("h", n(h)), ("kind", s("typed"))];
        match r {
            Ok(g) => {
                self.g.insert(h, g);
            }
            Err(()) => f.push(("pan", b(true))),
        }
        self.ev("clone", f);
    }
    pub fn clone_box(&mut self, src: i64, h: i64) {
        if !self.g.contains_key(&src) {
            return;
        }
        let r = call(|| {
            let bx = self.g[&src].boxed().unwrap();
            let c = bx.clone();
            drop(bx);
            c
        });
        let mut f = vec![("a", n(src)), ("h", n(h)), ("kind", s("box"))];
        match r {
            Ok(g) => {
                Self::outcome(&*g, &mut f);
                self.g.insert(h, G::Bx(g));
            }
            Err(()) => f.push(("pan", b(true))),
        }
        self.ev("clone", f);
    }
    /// dump static graph `src` under location p
    pub fn dump(&mut self, src: i64, p: &str) -> bool {
        if !self.g.contains_key(&src) {
            return false;
        }
        let pre = self.path(p);
        let r = call(|| match &self.g[&src] {
            G::SUn(g) => g.dump_mmap(&pre).is_ok(),
            G::SDi(g) => g.dump_mmap(&pre).is_ok(),
            _ => unreachable!(),
        });
        self.ev("dump", ret_or_pan(vec![("a", n(src)), ("p", s(p))], r.map(b)));
        r == Ok(true)
    }
    pub fn drop_aux(&mut self, p: &str) {
        std::fs::remove_file(format!("{}_aux.bin", self.path(p))).ok();
        self.ev("dropaux", vec![("p", s(p))]);
    }
    pub fn load(&mut self, p: &str, h: i64) {
        let pre = self.path(p);
        let r = call(|| Mm::<C>::new(&pre));
        let mut f = vec![("p", s(p)), ("h", n(h))];
        match r {
            Ok(g) => {
                self.g.insert(h, G::Mm(g, pre));
            }
            Err(()) => f.push(("pan", b(true))),
        }
        self.ev("load", f);
    }
    pub fn export(&mut self, src: i64, p: &str) -> bool {
        if !self.g.contains_key(&src) {
            return false;
        }
        let path = self.path(p);
        let r = call(|| match &self.g[&src] {
            G::Un(g) => g.export(&path).is_ok(),
            G::Di(g) => g.export(&path).is_ok(),
            G::SUn(g) => g.export(&path).is_ok(),
            G::SDi(g) => g.export(&path).is_ok(),
            _ => unreachable!(),
        });
        self.ev("export", ret_or_pan(vec![("a", n(src)), ("p", s(p))], r.map(b)));
        r == Ok(true)
    }
    pub fn import_raw(path: &str, kind: &str, dir: bool) -> Result<Option<G<C>>, ()> {
        call(|| match (kind, dir) {
            ("map", false) => Un::<C>::import(path).ok().map(G::Un),
            ("map", true) => Di::<C>::import(path).ok().map(G::Di),
            (_, false) => SUn::<C>::import(path).ok().map(G::SUn),
            (_, true) => SDi::<C>::import(path).ok().map(G::SDi),
        })
    }
    pub fn import(&mut self, p: &str, h: i64, kind: &str, dir: bool) -> bool {
        let path = self.path(p);
        let r = Self::import_raw(&path, kind, dir);
        let f = vec![("p", s(p)), ("h", n(h))];
        let v = match &r {
            Ok(x) => Ok(b(x.is_some())),
            Err(()) => Err(()),
        };
        let ok = v.is_ok();
        let mut some = false;
        if let Ok(Some(g)) = r {
            self.g.insert(h, g);
            some = true;
        }
        self.ev("import", ret_or_pan(f, v));
        ok && some
    }
    /// the file keeps its first `len` bytes only
    pub fn trunc(&mut self, p: &str, len: usize) {
        let path = self.path(p);
        let data = std::fs::read(&path).unwrap();
        std::fs::write(&path, &data[..len]).unwrap();
        self.ev("trunc", vec![("p", s(p)), ("len", n(len as i64)), ("total", n(data.len() as i64))]);
    }
    pub fn cmp(&mut self, x: i64, y: i64) {
        if !self.g.contains_key(&x) || !self.g.contains_key(&y) {
            return;
        }
        let (ga, gb) = (&self.g[&x], &self.g[&y]);
        let r = call(|| {
            let mut eq = Vec::new();
            let mut hs = Vec::new();
            macro_rules! same {
                ($p:expr, $q:expr) => {{
                    eq.push(b($p == $q));
                    eq.push(b($q == $p));
                    eq.push(b(!($p != $q)));
                    hs.push(b(hash($p) == hash($q)));
                }};
            }
            match (ga, gb) {
                (G::Un(p), G::Un(q)) => same!(p, q),
                (G::Di(p), G::Di(q)) => same!(p, q),
                (G::SUn(p), G::SUn(q)) => same!(p, q),
                (G::SDi(p), G::SDi(q)) => same!(p, q),
                _ => {}
            }
            eq.push(b(rust_graph::generic::graph::equal(ga.gg(), gb.gg())));
            eq.push(b(rust_graph::generic::graph::equal(gb.gg(), ga.gg())));
            // the same graph with label ids of another type, given in another order
            match ga {
                G::Un(p) => {
                    let t: TypedGraphMap<C::Id, C::NL, C::EL, Undirected, usize> = retyped(p);
                    eq.push(b(rust_graph::generic::graph::equal(&t, gb.gg())));
                    eq.push(b(rust_graph::generic::graph::equal(gb.gg(), &t)));
                }
                G::Di(p) => {
                    let t: TypedGraphMap<C::Id, C::NL, C::EL, Directed, usize> = retyped(p);
                    eq.push(b(rust_graph::generic::graph::equal(&t, gb.gg())));
                    eq.push(b(rust_graph::generic::graph::equal(gb.gg(), &t)));
                }
                _ => {}
            }
            let (p, q) = (ga.boxed().unwrap(), gb.boxed().unwrap());
            eq.push(b(p.eq(&q)));
            eq.push(b(q.eq(&p)));
            hs.push(b(hash(&p) == hash(&q)));
            (a(eq), a(hs))
        });
        let mut f = vec![("a", n(x)), ("b", n(y))];
        match r {
            Ok((e, h)) => {
                f.push(("eq", e));
                f.push(("hash", h));
            }
            Err(()) => f.push(("pan", b(true))),
        }
        self.ev("cmp", f);
    }
}

/// the nodes and edges of a graph, last one first, with other label ids
fn retyped<Id: IdType, NL: Label, EL: Label, Ty: GraphType, L: IdType, M: IdType>(
    g: &TypedGraphMap<Id, NL, EL, Ty, L>,
) -> TypedGraphMap<Id, NL, EL, Ty, M> {
    let mut t = TypedGraphMap::new();
    let mut ids: Vec<Id> = g.node_indices().collect();
    ids.sort();
    for &i in ids.iter().rev() {
        t.add_node(i, g.get_node_label(i).cloned());
    }
    let mut es: Vec<(Id, Id)> = g.edge_indices().collect();
    es.sort();
    for &(x, y) in es.iter().rev() {
        t.add_edge(x, y, g.get_edge_label(x, y).cloned());
    }
    t
}

pub fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::Hasher;
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn opt_list(v: Vec<V>) -> V {
    V::A(v)
}

/// what a node says of itself: (is there, identifier, label id)
fn told<Id: IdType, L: IdType, N: NodeTrait<Id, L>>(x: &N) -> (bool, V, V) {
    let some = x.is_some();
    if some == x.is_none() {
        return (some, a(vec![a(vec![]), a(vec![]), a(vec![])]), a(vec![]));
    }
    (some, opt(if some { Some(enc(x.get_id())) } else { None }), enco(x.get_label_id()))
}

fn told_edge<Id: IdType, L: IdType, E: EdgeTrait<Id, L>>(x: &E) -> (bool, V, V) {
    let some = x.is_some();
    if some == x.is_none() {
        return (some, a(vec![a(vec![]), a(vec![]), a(vec![])]), a(vec![]));
    }
    let ids = if some { a(vec![enc(x.get_start()), enc(x.get_target())]) } else { a(vec![]) };
    (some, ids, enco(x.get_label_id()))
}

/// the first of them, or the one that differs from it
fn concord<T: PartialEq + Clone>(first: T, rest: Vec<T>) -> T {
    rest.into_iter().find(|x| *x != first).unwrap_or(first)
}

fn node_forms<C: Cfg>(g: &Dyn<C>, id: C::Id) -> (bool, V, V) {
    let x = g.get_node(id);
    let first = told(&x);
    let rest = match x {
        NodeType::NodeMap(m) => vec![told(m), told(x.clone().unwrap_nodemap())],
        NodeType::StaticNode(ref m) => vec![told(m), told(&x.clone().unwrap_staticnode())],
        NodeType::None => vec![],
    };
    concord(first, rest)
}

fn edge_forms<C: Cfg>(g: &Dyn<C>, x: C::Id, y: C::Id) -> (bool, V, V) {
    let e = g.get_edge(x, y);
    let first = told_edge(&e);
    let rest = match e {
        EdgeType::Edge(ref u) => vec![told_edge(u), told_edge(&e.clone().unwrap())],
        EdgeType::None => vec![],
    };
    concord(first, rest)
}

/// all forms of one list must agree; a form that differs replaces it
fn agree<T: PartialEq + Clone>(x: Vec<T>, forms: Vec<Vec<T>>) -> Vec<T> {
    for f in forms {
        if f != x {
            return f;
        }
    }
    x
}

pub fn observe<C: Cfg>(g: &G<C>, uni: &[C::Id], pairs: &[(C::Id, C::Id)], mask: u32, f: &mut Vec<(&'static str, V)>) {
    let mut pn: Vec<V> = Vec::new();
    let gg = g.gg();
    macro_rules! section {
        ($name:expr, $default:expr, $e:expr) => {
            match call(|| $e) {
                Ok(v) => f.push(($name, v)),
                Err(()) => {
                    f.push(($name, $default));
                    pn.push(s($name));
                }
            }
        };
    }
    section!("d", b(false), {
        let views = vec![
            gg.as_graph().is_directed(),
            gg.as_labeled_graph().is_directed(),
            gg.as_general_graph().is_directed(),
            gg.as_digraph().is_some(),
        ];
        b(concord(gg.is_directed(), views))
    });
    section!(
        "im",
        s("?"),
        s(match gg.implementation() {
            GraphImpl::GraphMap => "map",
            GraphImpl::StaticGraph => "static",
            GraphImpl::StaicGraphMmap => "mmap",
        })
    );
    if mask & NC != 0 {
        section!("nc", n(-1), {
            let views = vec![gg.as_graph().node_count(), gg.as_labeled_graph().node_count(), gg.as_general_graph().node_count()];
            n(concord(gg.node_count(), views) as i64)
        });
        section!("ec", n(-1), {
            let views = vec![gg.as_graph().edge_count(), gg.as_labeled_graph().edge_count(), gg.as_general_graph().edge_count()];
            n(concord(gg.edge_count(), views) as i64)
        });
    }
    if mask & MX != 0 {
        section!("mx", a(vec![]), {
            // what a type can hold is what the type says
            assert!(gg.max_possible_id() == C::Id::max_value() && gg.max_possible_label_id() == C::L::max_value());
            enco(concord(gg.max_seen_id(), vec![gg.as_graph().max_seen_id(), gg.as_general_graph().max_seen_id()]))
        });
    }
    if mask & NI != 0 {
        section!("ni", a(vec![]), a(gg.node_indices().take(CAP).map(enc)));
    }
    if mask & ND != 0 {
        section!(
            "nd",
            a(vec![]),
            a(gg.nodes().take(CAP).map(|x| a(vec![enc(x.get_id()), enco(x.get_label_id())])))
        );
    }
    if mask & EI != 0 {
        section!(
            "ei",
            a(vec![]),
            a(gg.edge_indices().take(CAP).map(|(x, y)| a(vec![enc(x), enc(y)])))
        );
    }
    if mask & ED != 0 {
        section!(
            "ed",
            a(vec![]),
            a(gg.edges().take(CAP).map(|x| a(vec![enc(x.get_start()), enc(x.get_target()), enco(x.get_label_id())])))
        );
    }
    if mask & NQ != 0 {
        section!(
            "nq",
            a(vec![]),
            a(uni.iter().map(|&i| {
                let (got, gid, lid) = node_forms::<C>(gg, i);
                a(vec![
                    enc(i),
                    b(gg.has_node(i)),
                    b(got),
                    gid,
                    lid,
                    opt(gg.get_node_label(i).map(|l| s(l.show()))),
                ])
            }))
        );
    }
    if mask & EQ != 0 {
        section!(
            "eq",
            a(vec![]),
            a(pairs.iter().map(|&(x, y)| {
                let (got, ids, lid) = edge_forms::<C>(gg, x, y);
                a(vec![
                    enc(x),
                    enc(y),
                    b(gg.has_edge(x, y)),
                    b(got),
                    ids,
                    lid,
                    opt(gg.get_edge_label(x, y).map(|l| s(l.show()))),
                ])
            }))
        );
    }
    if mask & AJ != 0 {
        let mut aj = Vec::new();
        let mut ab = Vec::new();
        for &i in uni {
            let deg = call(|| gg.degree(i));
            let nb = call(|| gg.neighbors(i).into_owned());
            let nbi = call(|| gg.neighbors_iter(i).take(CAP).collect::<Vec<_>>());
            let di = call(|| {
                gg.as_digraph().map(|d| {
                    (
                        call(|| d.in_degree(i)),
                        call(|| d.in_neighbors(i).into_owned()),
                        call(|| d.in_neighbors_iter(i).take(CAP).collect::<Vec<_>>()),
                    )
                })
            });
            let refused = deg.is_err()
                && nb.is_err()
                && nbi.is_err()
                && match &di {
                    Ok(None) => true,
                    Ok(Some((x, y, z))) => x.is_err() && y.is_err() && z.is_err(),
                    Err(()) => false,
                };
            ab.push(a(vec![enc(i), b(refused)]));
            if refused {
                continue;
            }
            let mut broken = false;
            let mut nbi = nbi.unwrap_or_else(|_| {
                broken = true;
                vec![]
            });
            let nb = nb.unwrap_or_else(|_| {
                broken = true;
                vec![]
            });
            let deg = deg.unwrap_or_else(|_| {
                broken = true;
                0
            });
            // inherent and node-level forms of the same lists
            let mut in_forms: Vec<Vec<C::Id>> = vec![];
            if let G::Mm(m, _) = g {
                match call(|| (m.inner_neighbors(i).to_vec(), m.inner_in_neighbors(i).to_vec())) {
                    Ok((x, y)) => {
                        nbi = agree(nbi, vec![x]);
                        in_forms.push(y);
                    }
                    Err(()) => broken = true,
                }
                // the directed view of the type itself, whatever the direction of the graph
                match call(|| (m.in_degree(i), m.in_neighbors(i).into_owned(), m.in_neighbors_iter(i).take(CAP).collect::<Vec<_>>())) {
                    Ok((d, x, y)) => {
                        if d != x.len() {
                            broken = true;
                        }
                        in_forms.push(x);
                        in_forms.push(y);
                    }
                    Err(()) => broken = true,
                }
            }
            let r = call(|| match gg.get_node(i) {
                NodeType::NodeMap(nm) => {
                    let outs = vec![
                        nm.neighbors(),
                        nm.neighbors_iter().collect(),
                        nm.neighbors_iter_full().map(|e| e.get_target()).collect(),
                        nm.neighbors().into_iter().filter(|&x| nm.has_neighbor(x) && nm.get_neighbor(x).is_some()).collect(),
                    ];
                    let ge: Vec<C::Id> = nm.neighbors().into_iter().filter(|&x| x >= i).collect();
                    let ge_ok = ge == nm.non_less_neighbors_iter().collect::<Vec<_>>()
                        && ge == nm.non_less_neighbors_iter_full().map(|e| e.get_target()).collect::<Vec<_>>();
                    let ins = vec![
                        nm.in_neighbors(),
                        nm.in_neighbors_iter().collect(),
                        nm.in_neighbors().into_iter().filter(|&x| nm.has_in_neighbor(x)).collect(),
                    ];
                    let dg = (nm.degree(), nm.in_degree());
                    let ok = ge_ok && dg.0 == nm.neighbors().len() && dg.1 == nm.in_neighbors().len() && nm.get_id() == i;
                    Some((outs, ins, ok))
                }
                _ => None,
            });
            match r {
                Ok(Some((outs, ins, ok))) => {
                    nbi = agree(nbi, outs);
                    in_forms.extend(ins);
                    if !ok {
                        broken = true;
                    }
                }
                Ok(None) => {}
                Err(()) => broken = true,
            }
            let ins = match di {
                Ok(None) => {
                    // undirected: nothing is kept as an in-neighbour
                    if in_forms.iter().any(|x| !x.is_empty()) {
                        broken = true;
                    }
                    a(vec![])
                }
                Ok(Some((x, y, z))) => {
                    if x.is_err() || y.is_err() || z.is_err() {
                        broken = true;
                    }
                    let z = agree(z.unwrap_or_default(), in_forms);
                    a(vec![
                        n(x.unwrap_or(0) as i64),
                        a(y.unwrap_or_default().into_iter().map(enc)),
                        a(z.into_iter().map(enc)),
                    ])
                }
                Err(()) => {
                    broken = true;
                    a(vec![])
                }
            };
            aj.push(a(vec![
                enc(i),
                n(if broken { -1 } else { deg as i64 }),
                a(nb.into_iter().map(enc)),
                a(nbi.into_iter().map(enc)),
                ins,
            ]));
        }
        f.push(("aj", a(aj)));
        f.push(("ab", a(ab)));
    }
    if mask & (NM | LC) != 0 {
        section!("nm", a(vec![]), a(gg.get_node_label_map().items().map(|x| s(x.show()))));
        section!("em", a(vec![]), a(gg.get_edge_label_map().items().map(|x| s(x.show()))));
    }
    if mask & LC != 0 {
        section!(
            "lc",
            a(vec![]),
            a(vec![
                n(gg.num_of_node_labels() as i64),
                n(gg.num_of_edge_labels() as i64),
                b(gg.has_node_labels()),
                b(gg.has_edge_labels()),
                a(gg.node_labels().map(|x| s(x.show()))),
                a(gg.edge_labels().map(|x| s(x.show()))),
            ])
        );
    }
    if mask & CT != 0 {
        section!("ct", a(vec![]), {
            let nl = gg.get_node_label_counter();
            let el = gg.get_edge_label_counter();
            let ni = gg.get_node_label_id_counter();
            let ei = gg.get_edge_label_id_counter();
            a(vec![
                a(nl.iter().map(|(k, v)| a(vec![s(k.show()), n(*v as i64)]))),
                a(el.iter().map(|(k, v)| a(vec![s(k.show()), n(*v as i64)]))),
                a(ni.iter().map(|(k, v)| a(vec![enc(*k), n(*v as i64)]))),
                a(ei.iter().map(|(k, v)| a(vec![enc(*k), n(*v as i64)]))),
            ])
        });
    }
    if mask & NR != 0 {
        section!("nr", a(vec![]), {
            let nodes = uni.iter().map(|&i| {
                let no = gg.get_node(i).is_none()
                    && call(|| gg.get_node(i).get_id()).is_err()
                    && call(|| gg.get_node(i).unwrap_nodemap().get_id()).is_err()
                    && call(|| gg.get_node(i).unwrap_staticnode().get_id()).is_err();
                a(vec![a(vec![enc(i)]), b(no)])
            });
            let edges = pairs.iter().take(200).map(|&(x, y)| {
                let no = gg.get_edge(x, y).is_none()
                    && call(|| gg.get_edge(x, y).get_start()).is_err()
                    && call(|| gg.get_edge(x, y).get_target()).is_err()
                    && call(|| gg.get_edge(x, y).unwrap().get_start()).is_err();
                a(vec![a(vec![enc(x), enc(y)]), b(no)])
            });
            a(nodes.chain(edges))
        });
    }
    if mask & CNT != 0 {
        section!("cnt", a(vec![]), {
            // What the iterators say about themselves: `count` is their own, and must agree with
            // walking them, from the start or from the middle; a bound must bound; an ended
            // iterator stays ended.
            let mut sane = true;
            macro_rules! laws {
                ($mk:expr) => {{
                    let walked = $mk.take(CAP).fold(0usize, |x, _| x + 1);
                    if walked < CAP {
                        sane &= $mk.count() == walked;
                        for &k in [0, 1, walked / 2, walked].iter() {
                            if k <= walked {
                                let mut it = $mk;
                                for _ in 0..k {
                                    it.next();
                                }
                                let (lo, hi) = it.size_hint();
                                sane &= lo <= walked - k && hi.map_or(true, |x| walked - k <= x);
                                if k == walked {
                                    sane &= it.next().is_none() && it.next().is_none();
                                } else {
                                    sane &= it.count() == walked - k;
                                }
                            }
                        }
                    }
                    walked
                }};
            }
            let c = vec![
                laws!(gg.node_indices()),
                laws!(gg.nodes()),
                laws!(gg.edge_indices()),
                laws!(gg.edges()),
            ];
            for &i in uni.iter().filter(|&&i| gg.has_node(i)).take(24) {
                let _ = laws!(gg.neighbors_iter(i));
            }
            a(vec![n(c[0] as i64), n(c[1] as i64), n(c[2] as i64), n(c[3] as i64), b(sane)])
        });
    }
    if mask & FE != 0 {
        macro_rules! fe {
            ($g:expr) => {
                section!(
                    "fe",
                    a(vec![a(vec![n(-1), n(-1), a(vec![]), b(true)])]),
                    a(pairs.iter().map(|&(x, y)| {
                        let i = $g.find_edge_index(x, y);
                        let ok = i.map_or(false, |i| {
                            use rust_graph::graph_impl::static_graph::EdgeVecTrait;
                            $g.get_edge_vec().get_edges()[i] == y
                        });
                        a(vec![enc(x), enc(y), opt(i.map(|i| n(i as i64))), b(ok)])
                    }))
                )
            };
        }
        match g {
            G::SUn(g) => fe!(g),
            G::SDi(g) => fe!(g),
            _ => {}
        }
    }
    f.push(("pn", a(pn)));
}
