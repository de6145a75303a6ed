//! Drivers for files: dumps (C12), exports (C13), CSV (C14, C15), write
//! failures (C16), LDBC directories (C27), typed memory maps (C28).
use crate::by_cfg;
use crate::ctx::Ctx;
use crate::hist::*;
use crate::json::*;
use crate::limit;
use crate::rep::*;
use crate::rng::Rng;
use crate::world::*;
use rust_graph::generic::{Directed, Edge, GeneralGraph, GraphType, IdType, MapTrait, MutMapTrait, Undirected};
use rust_graph::graph_impl::graph_map::new_general_graphmap;
use rust_graph::graph_impl::{EdgeVec, EdgeVecMmap, TypedGraphMap};
use rust_graph::io::csv::{CSVReader, CSVWriter};
use rust_graph::io::mmap::{dump as dump_slice, typed_as_byte_slice, TypedMemoryMap};
use rust_graph::io::serde::{Deserialize as _, Serialize as _};
use rust_graph::io::{read_from_csv, read_ldbc_from_path, write_to_csv};
use rust_graph::map::{SetMap, VecMap};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::Write;

// ------------------------------------------------------------------ dumps
/// a static graph under handle h: converted from a mutable one or from raw vectors
fn some_static<C: Cfg>(w: &mut W<C>, h: i64, dir: bool, k: usize) {
    let mut r = w.rng.clone();
    if r.chance(1, 3) {
        let dens = *r.pick(&[0, 20, 50, 100]);
        let v = rand_vecs(&mut r, dir, k, dens, C::L::max_usize(), 3);
        let nms: &[&str] = *r.pick(&[&[][..], &["a", "b"], &["c", "a", "b", "d"]]);
        let ems: &[&str] = *r.pick(&[&[][..], &["x", "y"], &["z", "y", "x", "w"]]);
        w.rng = r;
        from_vectors(w, h, &v, nms, ems);
    } else {
        let ids: Vec<usize> = (0..k).collect();
        let dens = *r.pick(&[0, 15, 40, 80]);
        let nl: &[&'static str] = if r.chance(1, 3) { &[] } else { &["a", "b", "", "c d"] };
        let el: &[&'static str] = if r.chance(1, 3) { &[] } else { &["x", "y", "z"] };
        w.rng = r;
        rand_graph(w, 900, dir, &ids, dens, nl, el);
        w.to_static(900, h, false);
        w.forget(900);
    }
    if w.rng.chance(1, 4) {
        w.shrink_static(h);
    }
}

/// names that must be kept apart and used as they are
const LOCS: [[&str; 3]; 8] = [
    ["p", "q", "p2"],
    ["v1.2", "v1.3", "v1"],
    ["a.bin", "a", "a.labels"],
    ["d e", "\u{e9}x", ".h"],
    ["sub/p", "sub.d/p", "p"],
    ["sub.d/v.1", "sub.d/v.2", "sub/v"],
    ["P", "p.", "p.."],
    ["x%20y", "x y", "x*"],
];

pub fn dumps(c: &mut Ctx) {
    for i in 0..c.n(240, 3600) {
        by_cfg!(c, (i + i / 6) % 6, "dumps", w, {
            w.pair_limit = 120;
            universe(w, &(0..8).collect::<Vec<_>>(), &[100]);
            let locs = *w.rng.pick(&LOCS);
            for l in &locs {
                if let Some(d) = std::path::Path::new(&w.path(l)).parent() {
                    std::fs::create_dir_all(d).unwrap();
                }
            }
            let mut h = 1;
            let steps = w.rng.range(2, 5);
            let mut there: BTreeMap<usize, bool> = BTreeMap::new();
            for _ in 0..steps {
                let dir = w.rng.chance(1, 2);
                let k = *w.rng.pick(&[0, 1, 1, 2, 3, 5, 7]);
                let p = if w.rng.chance(2, 3) { 0 } else { w.rng.below(3) };
                some_static(w, h, dir, k);
                if !w.g.contains_key(&h) {
                    break;
                }
                if w.dump(h, locs[p]) {
                    there.insert(p, true);
                    w.load(locs[p], h + 1);
                    w.obs_own(h + 1, &["C12"]);
                    if w.rng.chance(1, 4) {
                        // a second view of the same files
                        w.load(locs[p], h + 2);
                        w.obs_own(h + 2, &["C12"]);
                        w.forget(h + 2);
                    }
                    if w.g.contains_key(&(h + 1)) {
                        w.cmp(h, h + 1);
                        w.forget(h + 1);
                    }
                    if w.rng.chance(1, 5) {
                        w.drop_aux(locs[p]);
                        w.load(locs[p], h + 1);
                        w.obs_own(h + 1, &["C12"]);
                        w.forget(h + 1);
                    }
                } else {
                    there.remove(&p);
                }
                // what other locations hold is not affected
                for (&q, _) in &there {
                    if q != p && w.rng.chance(1, 2) {
                        w.load(locs[q], h + 3);
                        w.obs_own(h + 3, &["C12"]);
                        w.forget(h + 3);
                    }
                }
                // the dumped graph itself is as before
                w.obs_own(h, &["C12"]);
                h += 10;
            }
        });
    }
    // files larger than one block of the writer
    for i in 0..c.n(4, 30) {
        by_cfg!(c, [0, 3, 5, 2][i % 4], "large", w, {
            let mut r = w.rng.clone();
            let k = if i < 2 { 1300 } else { r.range(400, 1400) };
            let dir = i % 2 == 0;
            let m = if i < 2 { 2700 } else { r.range(800, 3000) };
            w.pair_limit = 150;
            w.touched.clear();
            universe(w, &(0..20).map(|x| x * k / 20).chain(vec![k - 1]).collect::<Vec<_>>(), &[k]);
            let mut adj: BTreeMap<(usize, usize), usize> = BTreeMap::new();
            for _ in 0..m {
                let (x, y, l) = (r.below(k), r.below(k), r.below(4));
                let l = if l == 3 { <CC as Cfg>::L::max_usize() } else { l };
                if dir {
                    adj.insert((x, y), l);
                } else {
                    adj.insert((x, y), l);
                    adj.insert((y, x), l);
                }
            }
            let v = pack_vecs(&mut r, dir, k, &adj, <CC as Cfg>::L::max_usize(), 3);
            w.rng = r;
            from_vectors(w, 1, &v, &["a", "b", "c", "d"], &["x", "y", "z", "w"]);
            if w.dump(1, "p") {
                w.load("p", 2);
                w.obs_own(2, &["C12"]);
                w.forget(2);
                // another one of exactly the same size over it
                let twin: BTreeMap<(usize, usize), usize> = adj
                    .iter()
                    .map(|(&(x, y), &l)| if dir { ((x, (y + 1) % k), l) } else { ((k - 1 - x, k - 1 - y), l) })
                    .collect();
                let mut r = w.rng.clone();
                let v = pack_vecs(&mut r, dir, k, &twin, <CC as Cfg>::L::max_usize(), 3);
                w.rng = r;
                from_vectors(w, 5, &v, &["b", "a", "c", "d"], &["y", "x", "z", "w"]);
                if w.g.contains_key(&5) && w.dump(5, "p") {
                    w.load("p", 6);
                    w.obs_own(6, &["C12"]);
                    w.forget(6);
                }
                // a small one over the large one
                some_static(w, 3, !dir, 3);
                if w.dump(3, "p") {
                    w.load("p", 4);
                    w.obs_own(4, &["C12"]);
                }
            }
        });
    }
    // beyond sixteen bits
    macro_rules! huge {
        ($cfg:ty, $k:expr, $dir:expr) => {
            c.scen::<$cfg, _>("huge", |w| {
                if huge_graph(w, 1, $dir, $k, lots($k)).is_none() {
                    return;
                }
                w.to_static(1, 2, false);
                if w.g.contains_key(&2) && w.dump(2, "huge") {
                    w.load("huge", 3);
                    w.skip = if $k > 10_000 { CT } else { 0 };
                    w.obs_own(3, &["C12"]);
                }
            });
        };
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        huge!(Std, 66_000, dir);
        huge!(Wide, 5_000, !dir);
        huge!(Num, 4_100, !dir);
    }
    // many labels and hubs
    for i in 0..c.n(10, 80) {
        by_cfg!(c, [0, 5, 3, 2, 0][i % 5], "many", w, {
            let mut r = w.rng.clone();
            let few = <<CC as Cfg>::L as IdType>::max_usize() < 2000;
            let k = if few { 200 } else { r.range(300, 700) };
            let extra = r.range(0, k);
            let (p, q, es) = hub_edges(&mut r, k, 1, extra);
            let (ln, le) = if few { (200, 180) } else { (r.range(250, 600), r.range(250, 600)) };
            w.rng = r;
            w.bulk(1, i % 2 == 0, k, 1, &texts("n", ln), &texts("e", le), &es);
            w.to_static(1, 2, false);
            if w.g.contains_key(&2) && w.dump(2, "p.q") {
                w.load("p.q", 3);
                ask_hubs(w, k, 1, p, q, 120);
                w.obs_own(3, &["C12"]);
                if w.g.contains_key(&3) {
                    w.cmp(2, 3);
                }
            }
        });
    }
    // edge vectors on their own
    for i in 0..c.n(90, 1200) {
        by_cfg!(c, (i + i / 6) % 6, "edgevec", w, {
            for j in 0..3 {
                let mut r = w.rng.clone();
                let k = *r.pick(&[0, 1, 2, 4, 6, 9]);
                let dir = r.chance(1, 2);
                let dens = *r.pick(&[0, 20, 60, 100]);
                let v = rand_vecs(&mut r, dir, k, dens, <CC as Cfg>::L::max_usize(), 3);
                w.rng = r;
                let e = edge_vec::<CC>(&v.off, &v.edg, &v.el, j % 2 == 0);
                let p = w.path("ev");
                match call(|| {
                    e.dump_mmap(&p).unwrap();
                    EdgeVecMmap::<<CC as Cfg>::Id, <CC as Cfg>::L>::new(&p)
                }) {
                    Ok(x) => {
                        let mut v = v;
                        // an empty label vector is not told from none
                        if v.edg.is_empty() {
                            v.el = None;
                        }
                        positions(w, &x, &v, &["C12"]);
                    }
                    Err(()) => w.ev(
                        "pos",
                        vec![
                            ("off", a(vec![])),
                            ("edg", a(vec![])),
                            ("q", a(vec![])),
                            ("own", a(vec![s("C12")])),
                            ("pan", b(true)),
                        ],
                    ),
                }
            }
        });
    }
    for i in 0..c.n(48, 400) {
        by_cfg!(c, i, "unwritable", w, {
            let dir = i % 2 == 0;
            some_static(w, 1, dir, 1 + i % 5);
            dump_faults(w, 1, &["C12"], false);
        });
    }
}

// ---------------------------------------------------------------- exports
fn exports_of_tables<C: Cfg, T: Item>(w: &mut W<C>) {
    let mut t: Tables<T> = Tables::new();
    let mut r = w.rng.clone();
    let mut h = 1;
    for _ in 0..4 {
        let items: Vec<&str> = (0..r.below(8)).map(|_| *r.pick(&POOL)).collect();
        let how = r.below(6);
        w.rng = r.clone();
        t.make(w, h, how, &items);
        if !t.m.contains_key(&h) {
            return;
        }
        for _ in 0..r.below(5) {
            match r.below(4) {
                0 => t.pop(w, h),
                _ => t.add(w, h, *r.pick(&POOL)),
            }
        }
        let kind = match &t.m[&h] {
            Tb::Set(_) => "set",
            _ => "vec",
        };
        let p = *r.pick(&["t", "t", "u"]);
        if t.export(w, h, p) {
            t.import(w, p, h + 1, kind);
            if t.m.contains_key(&(h + 1)) {
                t.eq(w, h, h + 1);
                t.obs(w, h + 1, &["C13"], &POOL);
                for _ in 0..r.below(4) {
                    match r.below(3) {
                        0 => t.pop(w, h + 1),
                        _ => t.add(w, h + 1, *r.pick(&POOL)),
                    }
                }
                t.obs(w, h + 1, &["C13"], &POOL);
                t.obs(w, h, &["C13"], &POOL);
            }
            let path = w.path(p);
            let data = std::fs::read(&path).unwrap();
            let cut = w.path("cut");
            let mut acc = vec![];
            for l in 0..data.len() + 1 {
                std::fs::write(&cut, &data[..l]).unwrap();
                match Tables::<T>::import_raw(&cut, kind) {
                    Ok(Some(_)) => acc.push(n(l as i64)),
                    Ok(None) => {}
                    Err(()) => acc.push(n(-1)),
                }
            }
            w.ev("truncs", vec![("total", n(data.len() as i64)), ("acc", a(acc))]);
        }
        h += 10;
    }
}

pub fn exports(c: &mut Ctx) {
    for i in 0..c.n(220, 3000) {
        by_cfg!(c, (i + i / 6) % 6, "export", w, {
            let mut r = w.rng.clone();
            let dir = (i / 6) % 2 == 0;
            let (sp, absent) = space_of::<CC>(&mut r);
            // the largest id of the type cannot become a static graph
            w.rng = r.clone();
            w.pair_limit = 80;
            universe(w, &sp.ids, &absent);
            let mut sh = start(w, 1, dir, false, &sp);
            let mut h = 1;
            for _ in 0..r.range(1, 4) {
                for _ in 0..r.below(25) {
                    rand_op(w, h, &mut sh, &sp, true, 0);
                }
                let p = *r.pick(&["f", "f", "g"]);
                let stat = sh.dense() && r.chance(1, 3);
                if stat {
                    w.to_static(h, h + 5, false);
                    if w.export(h + 5, p) && w.import(p, h + 6, "static", dir) {
                        w.cmp(h + 5, h + 6);
                        w.obs_own(h + 6, &["C13"]);
                    }
                }
                let kind = if stat { "static" } else { "map" };
                if !stat && w.export(h, p) && w.import(p, h + 1, "map", dir) {
                    w.cmp(h, h + 1);
                    w.obs_own(h + 1, &["C13"]);
                    w.obs_own(h, &["C13"]);
                    // the history goes on with the imported graph
                    h += 1;
                }
                let path = w.path(p);
                let data = std::fs::read(&path).unwrap_or_default();
                let cut = w.path("cut");
                let mut acc = vec![];
                let step = if data.len() > 1500 { 1 + data.len() / 700 } else { 1 };
                for l in (0..data.len()).filter(|l| l % step == 0 || data.len() - l < 40).chain(vec![data.len()]) {
                    std::fs::write(&cut, &data[..l]).unwrap();
                    match W::<CC>::import_raw(&cut, kind, dir) {
                        Ok(Some(_)) => acc.push(n(l as i64)),
                        Ok(None) => {}
                        Err(()) => acc.push(n(-1)),
                    }
                }
                w.ev("truncs", vec![("total", n(data.len() as i64)), ("acc", a(acc))]);
                if r.chance(1, 3) && !data.is_empty() {
                    w.trunc(p, r.below(data.len()));
                    w.import(p, h + 7, kind, dir);
                    // written anew, it is fine again
                    if w.export(h, p) && w.import(p, h + 7, "map", dir) {
                        w.obs_own(h + 7, &["C13"]);
                    }
                }
                h += 10;
                // go on under a new handle
                w.clone_typed(if kind == "map" { h - 9 } else { h - 10 }, h);
                if !w.g.contains_key(&h) {
                    w.clone_typed(h - 10, h);
                }
                if !w.g.contains_key(&h) {
                    break;
                }
            }
        });
    }
    for i in 0..c.n(60, 700) {
        by_cfg!(c, i, "tables", w, {
            if i % 2 == 0 {
                exports_of_tables::<CC, String>(w);
            } else {
                exports_of_tables::<CC, u32>(w);
            }
        });
    }
    for i in 0..c.n(3, 18) {
        by_cfg!(c, [0, 3, 5][i % 3], "large", w, {
            let k = w.rng.range(150, 250);
            let dir = i % 2 == 0;
            let ids: Vec<usize> = (0..k).collect();
            w.pair_limit = 100;
            universe(w, &ids, &[k]);
            rand_graph(w, 1, dir, &ids, 10, &["a", "b", "c"], &["x", "y", "z"]);
            if w.export(1, "f") && w.import("f", 2, "map", dir) {
                w.obs_own(2, &["C13"]);
            }
            rand_graph(w, 3, dir, &[1, 2], 50, &["a"], &["x"]);
            if w.export(3, "f") && w.import("f", 4, "map", dir) {
                w.obs_own(4, &["C13"]);
            }
        });
    }
    heavy_exports(c);
}

/// objects whose file is larger than any buffer or plausible limit
fn heavy_exports(c: &mut Ctx) {
    macro_rules! heavy {
        ($cfg:ty, $i:expr) => {
            c.scen::<$cfg, _>("heavy", |w| {
                let k = w.rng.range(40, 60);
                // about 1.3 MB of label text
                let (ln, le) = (w.rng.range(50, 60), w.rng.range(50, 60));
                let long = |p: &str, m: usize| -> Vec<String> {
                    (0..m).map(|i| format!("{}{}", p, 100 + i).repeat(3000)).collect()
                };
                let mut r = w.rng.clone();
                let (p, q, es) = hub_edges(&mut r, k, 1, k);
                w.rng = r;
                let dir = $i % 2 == 0;
                w.bulk(1, dir, k, 1, &long("n", ln), &long("e", le), &es);
                w.to_static(1, 2, false);
                ask_hubs(w, k, 1, p, q, 60);
                for (h, kind) in vec![(1, "map"), (2, "static")] {
                    if !w.g.contains_key(&h) || !w.export(h, "f") {
                        continue;
                    }
                    if w.import("f", h + 10, kind, dir) {
                        w.cmp(h, h + 10);
                        w.obs_own(h + 10, &["C13"]);
                    }
                    let data = std::fs::read(&w.path("f")).unwrap_or_default();
                    let cut = w.path("cut");
                    let mut acc = vec![];
                    let t = data.len();
                    for l in vec![1 << 16, 1 << 20, (1 << 20) + 1, t / 2, t.saturating_sub(1), t] {
                        if l > t {
                            continue;
                        }
                        std::fs::write(&cut, &data[..l]).unwrap();
                        match W::<$cfg>::import_raw(&cut, kind, dir) {
                            Ok(Some(_)) => acc.push(n(l as i64)),
                            Ok(None) => {}
                            Err(()) => acc.push(n(-1)),
                        }
                    }
                    w.ev("truncs", vec![("total", n(t as i64)), ("acc", a(acc))]);
                }
            });
        };
    }
    for i in 0..c.n(2, 12) {
        heavy!(Std, i);
        heavy!(Big, i + 1);
    }
    macro_rules! huge {
        ($cfg:ty, $k:expr, $dir:expr) => {
            c.scen::<$cfg, _>("huge", |w| {
                if huge_graph(w, 1, $dir, $k, lots($k)).is_none() {
                    return;
                }
                w.to_static(1, 2, false);
                for (h, kind) in vec![(1, "map"), (2, "static")] {
                    if w.g.contains_key(&h) && w.export(h, "f") && w.import("f", h + 10, kind, $dir) {
                        w.cmp(h, h + 10);
                        w.obs_own(h + 10, &["C13"]);
                    }
                }
            });
        };
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        huge!(Std, 66_000, dir);
        huge!(Wide, 5_000, !dir);
        huge!(Num, 4_100, !dir);
    }
    for i in 0..c.n(6, 40) {
        by_cfg!(c, [0, 5, 3, 2, 0, 4][i % 6], "many", w, {
            let mut r = w.rng.clone();
            let few = <<CC as Cfg>::L as IdType>::max_usize() < 2000;
            let k = if few { 200 } else { r.range(300, 600) };
            let extra = r.range(0, k);
            let (p, q, es) = hub_edges(&mut r, k, 1, extra);
            let (ln, le) = if few { (200, 180) } else { (r.range(250, 600), r.range(250, 600)) };
            w.rng = r;
            let dir = i % 2 == 0;
            w.bulk(1, dir, k, 1, &texts("", ln), &texts("", le), &es);
            w.to_static(1, 2, false);
            ask_hubs(w, k, 1, p, q, 100);
            for (h, kind) in vec![(1, "map"), (2, "static")] {
                if w.g.contains_key(&h) && w.export(h, "f") && w.import("f", h + 10, kind, dir) {
                    w.cmp(h, h + 10);
                    w.obs_own(h + 10, &["C13"]);
                }
            }
            // one of the same size over the last file
            let es: Vec<(usize, usize)> = es.iter().map(|&(x, y)| (k - 1 - x, k - 1 - y)).collect();
            w.bulk(3, dir, k, 1, &texts("", ln), &texts("", le), &es);
            w.to_static(3, 4, false);
            if w.g.contains_key(&4) && w.export(4, "f") && w.import("f", 14, "static", dir) {
                w.cmp(4, 14);
                w.obs_own(14, &["C13"]);
            }
        });
    }
}

// -------------------------------------------------------------------- CSV
const SPECIAL: [&str; 36] = [
    "a", "b", "a,b", "x y", "tab\there", "say \"hi\"", "\"", "line\nbreak", "cr\r\nlf", "\u{e9}\u{4e2d}", " lead",
    "trail ", "1", "0x1", "a|b;c:d~e", "'", ",", "#c", "\\", "a\\", "\\\"", "C:\\dir, D:\\n\"e\"", "\\N", "\r", "\n",
    "\u{0}", "\u{1}\u{1f}\u{7f}", "\u{feff}bom", "NULL", "\u{1f600}", "=1+1", "\"\"", "\"a\"", "\"a\",b", "0", "\u{a0}x\u{2028}",
];
const SEPS: [&str; 17] =
    [",", "comma", " ", "space", "\t", "tab", "|", ";", ":", "~", "#", "\u{1}", "\\", "'", "0", "e", "="];

pub fn write_csv<C: Cfg>(w: &mut W<C>, h: i64, pn: &str, pe: &str, sep: &str) -> bool {
    let (a1, a2) = (w.path(pn), w.path(pe));
    let r = call(|| {
        let g = w.get(h).gg();
        if sep == "default" {
            if w.rng.clone().chance(1, 2) {
                write_to_csv(g, &a1, &a2).is_ok()
            } else {
                CSVWriter::new(g, &a1, &a2).write().is_ok()
            }
        } else {
            CSVWriter::with_separator(g, &a1, &a2, sep).write().is_ok()
        }
    });
    let mut f = vec![("a", n(h)), ("pn", s(pn)), ("pe", s(pe)), ("sep", s(sep))];
    match r {
        Ok(x) => f.push(("ret", b(x))),
        Err(()) => f.push(("pan", b(true))),
    }
    w.ev("csvw", f);
    r == Ok(true)
}

pub enum Via {
    Reader,
    Iterators,
}

/// read on top of graph h
pub fn read_csv<C: Cfg>(w: &mut W<C>, h: i64, pn: Option<&str>, pe: &str, sep: &str, via: Via) {
    let a1 = pn.map(|p| w.path(p));
    let a2 = w.path(pe);
    let flex = w.rng.chance(1, 2);
    let rd = || -> CSVReader<'static, C::Id, C::NL, C::EL> {
        let r = if sep == "default" {
            CSVReader::new(a1.clone(), a2.clone())
        } else {
            CSVReader::with_separator(a1.clone(), a2.clone(), sep)
        };
        r.headers(true).flexible(flex)
    };
    let g = w.g.get_mut(&h).unwrap();
    let r = call(|| match (g, via) {
        (G::Un(g), Via::Reader) => rd().read(g).is_ok(),
        (G::Di(g), Via::Reader) => rd().clone().read(g).is_ok(),
        (G::Bx(g), _) => {
            let m = g.as_mut_graph().unwrap();
            for (i, l) in rd().node_iter().unwrap() {
                m.add_node(i, l);
            }
            for (x, y, l) in rd().edge_iter().unwrap() {
                m.add_edge(x, y, l);
            }
            true
        }
        (g, Via::Iterators) => {
            let ns: Vec<_> = rd().node_iter().unwrap().collect();
            let es: Vec<_> = rd().edge_iter().unwrap().collect();
            for (i, l) in ns {
                match g {
                    G::Un(g) => rust_graph::generic::MutGraphTrait::add_node(g, i, l),
                    G::Di(g) => rust_graph::generic::MutGraphTrait::add_node(g, i, l),
                    _ => unreachable!(),
                };
            }
            for (x, y, l) in es {
                match g {
                    G::Un(g) => rust_graph::generic::MutGraphTrait::add_edge(g, x, y, l),
                    G::Di(g) => rust_graph::generic::MutGraphTrait::add_edge(g, x, y, l),
                    _ => unreachable!(),
                };
            }
            true
        }
        _ => unreachable!(),
    });
    read_event(w, h, pn, pe, r);
}

fn read_event<C: Cfg>(w: &mut W<C>, h: i64, pn: Option<&str>, pe: &str, r: Result<bool, ()>) {
    let mut f = vec![("h", n(h)), ("pn", opt(pn.map(|x| s(x)))), ("pe", s(pe))];
    match r {
        Ok(x) => {
            f.push(("ret", b(x)));
            W::<C>::outcome(w.get(h).gg(), &mut f);
        }
        Err(()) => f.push(("pan", b(true))),
    }
    w.ev("csvr", f);
}

/// a graph to be written: handle h holds some representation of it
fn csv_source<C: Cfg>(w: &mut W<C>, h: i64, dir: bool) {
    let mut r = w.rng.clone();
    let k = *r.pick(&[0, 1, 2, 3, 5, 8]);
    let dense = r.chance(1, 2);
    let max = C::Id::max_usize();
    let mut ids: Vec<usize> = if dense { (0..k).collect() } else { (0..k).map(|x| 3 * x + 1).collect() };
    if !dense && k > 1 && r.chance(1, 3) {
        ids[k - 1] = max;
    } else if !dense && r.chance(1, 3) {
        ids = wide_ids(&mut r, max).0;
    }
    let pick = |r: &mut Rng| -> Vec<&'static str> { (0..4).map(|_| *r.pick(&SPECIAL)).collect() };
    let nl = if r.chance(1, 5) { vec![] } else { pick(&mut r) };
    let el = if r.chance(1, 5) { vec![] } else { pick(&mut r) };
    let dens = *r.pick(&[0, 20, 50, 100]);
    let rep = r.below(5);
    w.rng = r;
    rand_graph(w, h, dir, &ids, dens, &nl, &el);
    match rep {
        0 if dense => w.to_static(h, h + 1, false),
        1 if dense => {
            w.to_static(h, h + 2, false);
            if w.g.contains_key(&(h + 2)) && w.dump(h + 2, "m") {
                w.load("m", h + 1);
            }
        }
        2 => w.clone_box(h, h + 1),
        _ => w.clone_typed(h, h + 1),
    }
}

pub fn csv_round(c: &mut Ctx) {
    by_cfg!(c, 0, "separators", w, {
        separators(w, true);
    });
    for i in 0..c.n(300, 4000) {
        by_cfg!(c, (i + i / 6) % 6, "csv", w, {
            let dir = (i / 6) % 2 == 0;
            csv_source(w, 1, dir);
            if !w.g.contains_key(&2) {
                return;
            }
            let sep = if w.rng.chance(1, 4) { "default" } else { *w.rng.pick(&SEPS) };
            if write_csv(w, 2, "n", "e", sep) {
                w.new_graph(10, dir, "new", &[], &[], &[]);
                let via = if w.rng.chance(2, 3) { Via::Reader } else { Via::Iterators };
                read_csv(w, 10, Some("n"), "e", sep, via);
                w.cmp(1, 10);
                w.new_graph(11, dir, "new", &[], &[], &[]);
                read_csv(w, 11, None, "e", sep, Via::Reader);
                w.new_graph(12, dir, "box", &[], &[], &[]);
                read_csv(w, 12, Some("n"), "e", sep, Via::Iterators);
                // on top of another graph
                rand_graph(w, 13, dir, &[0, 1, 4, 6], 30, &["a", "q"], &["x", "b"]);
                read_csv(w, 13, Some("n"), "e", sep, Via::Reader);
                // the other direction
                w.new_graph(14, !dir, "new", &[], &[], &[]);
                read_csv(w, 14, Some("n"), "e", sep, Via::Reader);
                // written again over the old files
                if w.rng.chance(1, 2) {
                    csv_source(w, 30, dir);
                    if w.g.contains_key(&31) && write_csv(w, 31, "n", "e", sep) {
                        w.new_graph(40, dir, "new", &[], &[], &[]);
                        read_csv(w, 40, Some("n"), "e", sep, Via::Reader);
                        w.cmp(30, 40);
                    }
                }
            }
        });
    }
    macro_rules! direct {
        ($cfg:ty, $i:expr) => {
            c.scen::<$cfg, _>("direct", |w| {
                let dir = $i % 2 == 0;
                csv_source(w, 1, dir);
                if !w.g.contains_key(&2) {
                    return;
                }
                let sep = if $i % 3 == 0 { "default" } else { *w.rng.pick(&SEPS) };
                if write_csv(w, 2, "n", "e", sep) {
                    for j in 0..2 {
                        let h = 10 + j;
                        w.new_graph(h, dir, "new", &[], &[], &[]);
                        let flex = w.rng.chance(1, 2);
                        let pn = if j == 0 { Some(w.path("n")) } else { None };
                        let pe = w.path("e");
                        let sp = if sep == "default" { None } else { Some(sep) };
                        let r = match w.g.get_mut(&h) {
                            Some(G::Un(g)) => call(|| read_from_csv(g, pn, pe, sp, true, flex).is_ok()),
                            Some(G::Di(g)) => call(|| read_from_csv(g, pn, pe, sp, true, flex).is_ok()),
                            _ => Err(()),
                        };
                        read_event(w, h, if j == 0 { Some("n") } else { None }, "e", r);
                    }
                    w.cmp(1, 10);
                }
            });
        };
    }
    for i in 0..c.n(40, 400) {
        direct!(Std, i);
        direct!(Big, i);
        direct!(Tiny, i);
    }
    for i in 0..c.n(3, 12) {
        by_cfg!(c, [0, 3, 5][i % 3], "large", w, {
            let k = w.rng.range(150, 250);
            let dir = i % 2 == 0;
            let ids: Vec<usize> = (0..k).collect();
            universe(w, &ids, &[]);
            rand_graph(w, 1, dir, &ids, 5, &["a", "b,\"c", "d\ne"], &["x", "y z", "\u{e9}"]);
            if write_csv(w, 1, "n", "e", "tab") {
                w.new_graph(2, dir, "new", &[], &[], &[]);
                read_csv(w, 2, Some("n"), "e", "tab", Via::Reader);
            }
        });
    }
    for i in 0..c.n(6, 40) {
        by_cfg!(c, [0, 3, 5, 4, 2, 0][i % 6], "many", w, {
            let mut r = w.rng.clone();
            let few = <<CC as Cfg>::L as IdType>::max_usize() < 2000;
            let k = if few { 150 } else { r.range(260, 400) };
            let extra = r.range(0, k);
            let (_, _, es) = hub_edges(&mut r, k, 3, extra);
            let (ln, le) = if few { (140, 120) } else { (r.range(130, 390), r.range(130, 390)) };
            w.rng = r;
            let dir = i % 2 == 0;
            w.bulk(1, dir, k, if few { 1 } else { 3 }, &texts("", ln), &texts("", le), &es.iter().map(|&(x, y)| if few { (x / 3, y / 3) } else { (x, y) }).collect::<Vec<_>>());
            if w.g.contains_key(&1) && write_csv(w, 1, "n", "e", "|") {
                w.new_graph(2, dir, "new", &[], &[], &[]);
                read_csv(w, 2, Some("n"), "e", "|", Via::Reader);
                w.new_graph(3, dir, "new", &[], &[], &[]);
                read_csv(w, 3, None, "e", "|", Via::Iterators);
            }
        });
    }
    macro_rules! huge {
        ($cfg:ty, $k:expr, $dir:expr) => {
            c.scen::<$cfg, _>("huge", |w| {
                let dir = $dir;
                if huge_graph(w, 1, dir, $k, lots($k)).is_some() && write_csv(w, 1, "n", "e", "tab") {
                    w.new_graph(2, dir, "new", &[], &[], &[]);
                    read_csv(w, 2, Some("n"), "e", "tab", Via::Reader);
                    w.cmp(1, 2);
                    w.obs_own(2, &["C14"]);
                }
            });
        };
    }
    for i in 0..c.n(1, 4) {
        let dir = (i as u64 + c.seed) % 2 == 0;
        huge!(Std, 66_000, dir);
        huge!(Wide, 3_000, !dir);
        huge!(Num, 2_100, !dir);
    }
    // one label longer than any buffer
    macro_rules! long {
        ($cfg:ty, $i:expr) => {
            c.scen::<$cfg, _>("long", |w| {
                let dir = $i % 2 == 0;
                let k = *w.rng.pick(&[1000usize, 8190, 8192, 8193, 70000]);
                let t: Vec<String> = ["ab,", "x\"y", "\u{e9}", "l\n", "z"].iter().map(|x| x.repeat(k)).collect();
                w.bulk(1, dir, 8, 2, &t[..3].to_vec(), &t[1..].to_vec(), &[(0, 2), (2, 4), (4, 4), (14, 0), (6, 8), (8, 6)]);
                if write_csv(w, 1, "n", "e", "default") {
                    w.new_graph(2, dir, "new", &[], &[], &[]);
                    read_csv(w, 2, Some("n"), "e", "default", Via::Reader);
                    w.cmp(1, 2);
                }
            });
        };
    }
    for i in 0..c.n(3, 20) {
        long!(Std, i);
        long!(Big, i + 1);
    }
}

// --------------------------------------------------------------- CSV rows
#[derive(Clone)]
struct Field {
    kind: &'static str,
    text: String,
    num: V,
    raw: Vec<u8>,
}

fn field_v(f: &Field) -> V {
    match f.kind {
        "id" => a(vec![s("id"), s(f.text.clone()), f.num.clone()]),
        k => a(vec![s(k), s(f.text.clone())]),
    }
}

fn id_field<C: Cfg>(r: &mut Rng, bad: usize) -> Field {
    let max = C::Id::max_usize();
    let mk = |t: String| {
        let raw = t.clone().into_bytes();
        match t.parse::<u128>() {
            Ok(x) if x <= max as u128 && t.bytes().all(|c| c.is_ascii_digit()) => {
                Field { kind: "id", num: enc(C::Id::new(x as usize)), text: t, raw }
            }
            _ => Field { kind: if t.is_empty() { "empty" } else { "bad" }, text: t, num: V::N(0), raw },
        }
    };
    if r.chance(bad, 100) {
        let over = format!("{}", max as u128 + 1);
        let t = match r.below(9) {
            0 => "x".to_owned(),
            1 => "-1".to_owned(),
            2 => "1.5".to_owned(),
            3 => "".to_owned(),
            4 => " 1".to_owned(),
            5 => "1 ".to_owned(),
            6 => over,
            7 => "99999999999999999999999".to_owned(),
            _ => "1e2".to_owned(),
        };
        return mk(t);
    }
    let t = match r.below(12) {
        0 => format!("{}", max),
        1 => format!("00{}", r.below(6)),
        2 => format!("{}", r.below(200)),
        3 => format!("{}", *r.pick(&wide_ids(&mut r.clone(), max).0)),
        _ => format!("{}", r.below(7)),
    };
    mk(t)
}

fn lab_field<T: Label>(r: &mut Rng, numeric: bool) -> Field {
    if r.chance(1, 4) {
        return Field { kind: "empty", text: "".into(), num: V::N(0), raw: vec![] };
    }
    let t: String = if numeric { format!("{}", r.below(5)) } else { (*r.pick(&SPECIAL)).to_owned() };
    Field { kind: "txt", text: t.clone(), num: V::N(0), raw: t.into_bytes() }
}

fn put_row(out: &mut Vec<u8>, row: &[Field], sep: u8, r: &mut Rng, eol: &str) {
    for (i, f) in row.iter().enumerate() {
        if i > 0 {
            out.push(sep);
        }
        let need = f.raw.iter().any(|&c| c == sep || c == b'"' || c == b'\n' || c == b'\r')
            || (row.len() == 1 && f.raw.is_empty())
            || r.chance(1, 8);
        if need {
            out.push(b'"');
            for &c in &f.raw {
                if c == b'"' {
                    out.push(b'"');
                }
                out.push(c);
            }
            out.push(b'"');
        } else {
            out.extend(&f.raw);
        }
    }
    out.extend(eol.as_bytes());
}

/// rows of a file: (bytes, canonical rows, width of the first record)
fn no_ids<C: Cfg>(r: &mut Rng, nodes: bool, gone: usize, sep: u8, eol: &str) -> (Vec<u8>, Vec<V>, i64) {
    let mut names: Vec<&str> =
        if nodes { vec!["nodeId:ID", ":LABEL"] } else { vec![":START_ID", ":END_ID", ":TYPE"] };
    if r.chance(1, 2) {
        names[gone] = "id";
    } else {
        names.remove(gone);
    }
    let field = |t: &str| Field { kind: "txt", text: t.into(), num: V::N(0), raw: t.as_bytes().to_vec() };
    let mut out = vec![];
    put_row(&mut out, &names.iter().map(|x| field(x)).collect::<Vec<_>>(), sep, r, eol);
    let mut rows = vec![];
    for _ in 0..r.range(1, 4) {
        let row: Vec<Field> = names.iter().map(|_| field(&format!("{}", r.below(5)))).collect();
        put_row(&mut out, &row, sep, r, eol);
        let mut canon = row.clone();
        canon[0] = Field { kind: "bad", text: "?".into(), num: V::N(0), raw: vec![] };
        rows.push(a(canon.iter().map(field_v)));
    }
    (out, rows, names.len() as i64)
}

fn make_file<C: Cfg>(
    r: &mut Rng,
    nodes: bool,
    headers: bool,
    flex: bool,
    sep: u8,
    numeric: bool,
    trouble: usize,
) -> (Vec<u8>, Vec<V>, i64) {
    let need = if nodes { 1 } else { 2 };
    let full = need + 1;
    let mut out = vec![];
    let eol = if r.chance(1, 4) { "\r\n" } else { "\n" };
    // order of the columns; a header may leave the label column out
    let mut cols: Vec<usize> = (0..full).collect();
    let mut width = full;
    if headers {
        if r.chance(1, 3) {
            r.shuffle(&mut cols);
        } else if r.chance(1, 5) {
            cols.pop();
            width = need;
        } else if r.chance(trouble / 2, 100) {
            // a file that does not name an id column holds nothing usable
            let gone = r.below(need);
            return no_ids::<C>(r, nodes, gone, sep, eol);
        }
        let names: Vec<&str> =
            if nodes { vec!["nodeId:ID", ":LABEL"] } else { vec![":START_ID", ":END_ID", ":TYPE"] };
        let row: Vec<Field> = cols
            .iter()
            .map(|&i| Field { kind: "txt", text: names[i].into(), num: V::N(0), raw: names[i].as_bytes().to_vec() })
            .collect();
        put_row(&mut out, &row, sep, r, eol);
    }
    let identity = cols.iter().enumerate().all(|(i, &c)| i == c);
    let mut rows: Vec<V> = vec![];
    let mut first = if headers { width as i64 } else { -1 };
    let count = if r.chance(1, 20) { r.range(150, 900) } else { r.below(9) };
    for _ in 0..count {
        let mut row: Vec<Field> = (0..need).map(|_| id_field::<C>(r, trouble)).collect();
        if width == full {
            row.push(lab_field::<String>(r, numeric));
        }
        let mut canon = row.clone();
        // too short, too long (only where columns are in order)
        if identity && r.chance(trouble, 100) {
            if r.chance(1, 2) {
                let l = r.range(1, row.len());
                row.truncate(l);
                canon.truncate(l);
            } else {
                for _ in 0..r.range(1, 2) {
                    let f = lab_field::<String>(r, numeric);
                    row.push(f.clone());
                    canon.push(f);
                }
                if headers && flex {
                    // what has no column is not looked at
                    canon.truncate(width);
                }
            }
        } else if !identity {
            row = cols.iter().map(|&i| row[i].clone()).collect();
        }
        // bytes that are no text make the row unusable
        if r.chance(trouble / 3, 100) {
            let j = r.below(row.len());
            row[j].raw.extend(&[0xff, 0xfe]);
            canon[0] = Field { kind: "bad", text: "?".into(), num: V::N(0), raw: vec![] };
        }
        if first < 0 {
            first = row.len() as i64;
        }
        put_row(&mut out, &row, sep, r, eol);
        if r.chance(1, 10) {
            out.extend(eol.as_bytes());
        }
        rows.push(a(canon.iter().map(field_v)));
    }
    if r.chance(1, 4) && out.ends_with(eol.as_bytes()) && !out.is_empty() {
        let l = out.len() - eol.len();
        out.truncate(l);
    }
    (out, rows, first.max(0))
}

/// names of separators that mean one byte, and others
const ASKED: [&str; 16] =
    ["comma", "space", "tab", ",", ";", "|", "\t", " ", ":", "", "ab", "commas", "Comma", ",,", "\u{e9}", "  "];

pub fn separators<C: Cfg>(w: &mut W<C>, write: bool) {
    let p = w.tmp.join("none");
    w.new_graph(1, true, "new", &[], &[], &[]);
    for sep in ASKED.iter() {
        let refused = if write {
            let g = w.get(1).gg();
            call(|| {
                let _ = CSVWriter::with_separator(g, &p, &p, sep);
            })
            .is_err()
        } else {
            call(|| {
                let _ = CSVReader::<C::Id, C::NL, C::EL>::with_separator(Some(p.clone()), p.clone(), sep);
            })
            .is_err()
        };
        let who = if write { "C14" } else { "C15" };
        w.ev("ask_sep", vec![("sep", s(*sep)), ("len", n(sep.len() as i64)), ("who", s(who)), ("refused", b(refused))]);
    }
}

pub fn csv_rows(c: &mut Ctx) {
    by_cfg!(c, 0, "separators", w, {
        separators(w, false);
    });
    for i in 0..c.n(420, 6000) {
        by_cfg!(c, (i + i / 6) % 6, "rows", w, {
            let mut r = w.rng.clone();
            let dir = (i / 6) % 2 == 0;
            let nl_num = Label::show(&<<CC as Cfg>::NL as Label>::of("q")) != "q";
            let el_num = Label::show(&<<CC as Cfg>::EL as Label>::of("q")) != "q";
            w.pair_limit = 60;
            universe(w, &[0, 1, 2, 3, 4, 5, 6], &[9]);
            if r.chance(1, 3) {
                w.rng = r.clone();
                rand_graph(w, 1, dir, &[0, 1, 4, 6], 30, &["a", "b"], &["1", "b"]);
            } else {
                w.new_graph(1, dir, "new", &[], &[], &[]);
            }
            for _ in 0..r.range(1, 3) {
                let headers = r.chance(1, 2);
                let flex = r.chance(1, 2);
                let trouble = *r.pick(&[0, 15, 40]);
                let hasn = r.chance(3, 4);
                let sepname = *r.pick(&SEPS);
                let sep = match sepname {
                    "comma" => b',',
                    "space" => b' ',
                    "tab" => b'\t',
                    x => x.as_bytes()[0],
                };
                let (nb, nrows, nfirst) = make_file::<CC>(&mut r, true, headers, flex, sep, nl_num, trouble);
                let (eb, erows, efirst) = make_file::<CC>(&mut r, false, headers, flex, sep, el_num, trouble);
                let (pn, pe) = (w.path("n"), w.path("e"));
                std::fs::write(&pn, &nb).unwrap();
                std::fs::write(&pe, &eb).unwrap();
                let opn = if hasn { Some(pn) } else { None };
                let via_new = sep == b',' && r.chance(1, 2);
                let rd = || -> CSVReader<'static, <CC as Cfg>::Id, <CC as Cfg>::NL, <CC as Cfg>::EL> {
                    let x = if via_new {
                        CSVReader::new(opn.clone(), pe.clone())
                    } else {
                        CSVReader::with_separator(opn.clone(), pe.clone(), sepname)
                    };
                    x.headers(headers).flexible(flex)
                };
                let lim = 3000;
                let its = call(|| {
                    let x = rd();
                    let ni = a(x.node_iter().unwrap().take(lim).map(|(i, l)| a(vec![enc(i), opt(l.map(|l| s(Label::show(&l))))])));
                    let ei = a(x
                        .edge_iter()
                        .unwrap()
                        .take(lim)
                        .map(|(i, j, l)| a(vec![enc(i), enc(j), opt(l.map(|l| s(Label::show(&l))))])));
                    (ni, ei)
                });
                let res = match w.g.get_mut(&1) {
                    Some(G::Un(g)) => call(|| rd().read(g).is_ok()),
                    Some(G::Di(g)) => call(|| rd().read(g).is_ok()),
                    _ => Err(()),
                };
                let mut f = vec![
                    ("h", n(1)),
                    ("hasn", b(hasn)),
                    ("nrows", a(nrows)),
                    ("nfirst", n(nfirst)),
                    ("erows", a(erows)),
                    ("efirst", n(efirst)),
                    ("flex", b(flex)),
                    ("headers", b(headers)),
                ];
                match (its, res) {
                    (Ok((ni, ei)), Ok(x)) => {
                        f.push(("niter", ni));
                        f.push(("eiter", ei));
                        f.push(("ret", b(x)));
                    }
                    _ => f.push(("pan", b(true))),
                }
                w.ev("csvrows", f);
                w.obs_own(1, &["C15"]);
            }
        });
    }
}

// ----------------------------------------------------------- write faults
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    Full,
    Directory,
    Missing,
    Size(u64),
}

/// run `f` (which writes the files `names` below directory `d`) under a fault of file number `j`
fn one_fault<C: Cfg>(
    w: &mut W<C>,
    names: &[String],
    good: &[Option<Vec<u8>>],
    j: usize,
    fault: Fault,
    own: &[&str],
    what: &str,
    f: &mut dyn FnMut(&str) -> Result<bool, ()>,
) {
    let d = w.path("fault");
    std::fs::remove_dir_all(&d).ok();
    if fault != Fault::Missing {
        std::fs::create_dir_all(&d).unwrap();
    }
    let file = |n: &str| format!("{}/{}", d, n);
    let size = |i: usize| good[i].as_ref().map_or(0, |x| x.len() as i64);
    let (need, cap) = match fault {
        Fault::Full => {
            std::os::unix::fs::symlink("/dev/full", file(&names[j])).unwrap();
            (size(j), 0)
        }
        Fault::Directory => {
            std::fs::create_dir_all(file(&names[j])).unwrap();
            (size(j), -1)
        }
        Fault::Missing => (size(j), -1),
        Fault::Size(k) => ((0..names.len()).map(|i| size(i)).max().unwrap_or(0), k as i64),
    };
    if let Fault::Size(k) = fault {
        limit(1, k);
    }
    let r = f(&d);
    if let Fault::Size(_) = fault {
        limit(1, u64::max_value());
    }
    let mut whole = true;
    for (i, g) in good.iter().enumerate() {
        if fault == Fault::Full && i == j {
            continue;
        }
        let now = std::fs::read(file(&names[i])).ok();
        whole = whole && &now == g;
    }
    std::fs::remove_dir_all(&d).ok();
    let mut e = vec![
        ("what", s(what)),
        ("fault", s(format!("{:?}", fault))),
        ("file", s(names[j].clone())),
        ("need", n(need)),
        ("cap", n(cap)),
        ("whole", b(whole)),
    ];
    if !own.is_empty() {
        e.push(("own", a(own.iter().map(|x| s(*x)))));
    }
    match r {
        Ok(x) => e.push(("ret", b(x))),
        Err(()) => {
            e.push(("ret", b(false)));
            e.push(("pan", b(true)));
        }
    }
    w.ev("wfault", e);
}

/// every file of a writer failing in every way; `sweep`: every size limit up to the largest file
fn all_faults<C: Cfg>(
    w: &mut W<C>,
    names: Vec<String>,
    own: &[&str],
    what: &str,
    sweep: bool,
    f: &mut dyn FnMut(&str) -> Result<bool, ()>,
) {
    // without any fault
    let d = w.path("good");
    std::fs::remove_dir_all(&d).ok();
    std::fs::create_dir_all(&d).unwrap();
    let r = f(&d);
    let good: Vec<Option<Vec<u8>>> = names.iter().map(|x| std::fs::read(format!("{}/{}", d, x)).ok()).collect();
    std::fs::remove_dir_all(&d).ok();
    let mut e = vec![("what", s(what)), ("need", n(0)), ("cap", n(0)), ("whole", b(true))];
    if !own.is_empty() {
        e.push(("own", a(own.iter().map(|x| s(*x)))));
    }
    match r {
        Ok(x) => e.push(("ret", b(x))),
        Err(()) => {
            e.push(("ret", b(false)));
            e.push(("pan", b(true)));
        }
    }
    w.ev("wfault", e);
    if r != Ok(true) {
        return;
    }
    for j in 0..names.len() {
        for &x in &[Fault::Full, Fault::Directory] {
            one_fault(w, &names, &good, j, x, own, what, f);
        }
    }
    one_fault(w, &names, &good, 0, Fault::Missing, own, what, f);
    let top = good.iter().map(|x| x.as_ref().map_or(0, |x| x.len())).max().unwrap_or(0);
    let mut at: Vec<usize> = vec![0, 1, top.saturating_sub(1), top, top + 1];
    for g in good.iter().filter_map(|x| x.as_ref()) {
        at.push(g.len());
        at.push(g.len().saturating_sub(1));
        at.push(g.len() / 2);
    }
    if sweep {
        let step = 1 + top / 120;
        at.extend((0..top).filter(|x| x % step == 0));
    }
    at.sort();
    at.dedup();
    for k in at {
        one_fault(w, &names, &good, 0, Fault::Size(k as u64), own, what, f);
    }
}

pub fn dump_faults<C: Cfg>(w: &mut W<C>, h: i64, own: &[&str], sweep: bool) {
    let names: Vec<String> = vec![
        "p_OUT.offsets", "p_OUT.edges", "p_OUT.labels", "p_IN.offsets", "p_IN.edges", "p_IN.labels", "p.labels", "p_aux.bin",
    ]
    .into_iter()
    .map(|x| x.to_owned())
    .collect();
    let g = match w.g.remove(&h) {
        Some(g) => g,
        None => return,
    };
    all_faults(w, names, own, "dump", sweep, &mut |d: &str| {
        let p = format!("{}/p", d);
        call(|| match &g {
            G::SUn(g) => g.dump_mmap(&p).is_ok(),
            G::SDi(g) => g.dump_mmap(&p).is_ok(),
            _ => unreachable!(),
        })
    });
    w.g.insert(h, g);
}

/// a sink that takes `cap` bytes, at most `chunk` at a time, and may fail to flush
struct Sink {
    data: Vec<u8>,
    cap: usize,
    chunk: usize,
    flush_fails: bool,
    zero: bool,
    interrupt: bool,
}
impl Write for Sink {
    fn write(&mut self, x: &[u8]) -> std::io::Result<usize> {
        if self.interrupt {
            self.interrupt = false;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let room = self.cap - self.data.len();
        if room == 0 && !x.is_empty() {
            if self.zero {
                return Ok(0);
            }
            return Err(std::io::ErrorKind::Other.into());
        }
        let k = x.len().min(room).min(self.chunk);
        self.data.extend(&x[..k]);
        self.interrupt = self.chunk % 2 == 1;
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.flush_fails {
            return Err(std::io::ErrorKind::Other.into());
        }
        Ok(())
    }
}

fn sink_fault<C: Cfg>(w: &mut W<C>, data: &[u32], cap: usize, chunk: usize, flush_fails: bool, zero: bool) {
    let bytes: Vec<u8> = data.iter().flat_map(|x| x.to_ne_bytes().to_vec()).collect();
    let mut sink = Sink { data: vec![], cap, chunk, flush_fails, zero, interrupt: false };
    let r = call(|| unsafe { dump_slice(data, &mut sink) }.is_ok());
    let whole = sink.data == bytes;
    let mut e = vec![
        ("what", s("slice")),
        ("need", n(bytes.len() as i64)),
        // a sink that cannot flush cannot take anything for sure
        ("cap", n(if flush_fails { -1 } else { cap.min(1 << 30) as i64 })),
        ("whole", b(whole)),
    ];
    match r {
        Ok(x) => e.push(("ret", b(x))),
        Err(()) => {
            e.push(("ret", b(false)));
            e.push(("pan", b(true)));
        }
    }
    w.ev("wfault", e);
}

pub fn faults(c: &mut Ctx) {
    for i in 0..c.n(72, 700) {
        by_cfg!(c, (i + i / 6) % 6, "csv", w, {
            let dir = (i / 6) % 2 == 0;
            csv_source(w, 1, dir);
            if let Some(g) = w.g.remove(&2) {
                let sep = *w.rng.pick(&SEPS);
                let plain = w.rng.chance(1, 3);
                all_faults(w, vec!["n".into(), "e".into()], &[], "csv", true, &mut |d: &str| {
                    let (pn, pe) = (format!("{}/n", d), format!("{}/e", d));
                    call(|| {
                        if plain {
                            write_to_csv(g.gg(), &pn, &pe).is_ok()
                        } else {
                            CSVWriter::with_separator(g.gg(), &pn, &pe, sep).write().is_ok()
                        }
                    })
                });
            }
        });
    }
    for i in 0..c.n(72, 700) {
        by_cfg!(c, (i + i / 6) % 6, "export", w, {
            let dir = (i / 6) % 2 == 0;
            let k = w.rng.below(6);
            let ids: Vec<usize> = (0..k).collect();
            rand_graph(w, 1, dir, &ids, 40, &["a", "b"], &["x", "y"]);
            w.to_static(1, 2, false);
            let h = 1 + (i % 2) as i64;
            if let Some(g) = w.g.remove(&h) {
                all_faults(w, vec!["f".into()], &[], "export", true, &mut |d: &str| {
                    let p = format!("{}/f", d);
                    call(|| match &g {
                        G::Un(g) => g.export(&p).is_ok(),
                        G::Di(g) => g.export(&p).is_ok(),
                        G::SUn(g) => g.export(&p).is_ok(),
                        G::SDi(g) => g.export(&p).is_ok(),
                        _ => unreachable!(),
                    })
                });
            }
        });
    }
    for i in 0..c.n(12, 100) {
        by_cfg!(c, i, "tables", w, {
            let k = w.rng.below(6);
            let v: Vec<String> = (0..k).map(|_| w.rng.pick(&POOL).to_string()).collect();
            let st: SetMap<String> = v.iter().cloned().collect();
            let vm: VecMap<String> = st.clone().items().cloned().collect();
            all_faults(w, vec!["t".into()], &[], "table", true, &mut |d: &str| {
                let p = format!("{}/t", d);
                call(|| if i % 2 == 0 { st.export(&p).is_ok() } else { vm.export(&p).is_ok() })
            });
        });
    }
    for i in 0..c.n(72, 700) {
        by_cfg!(c, (i + i / 6) % 6, "dump", w, {
            let dir = (i / 6) % 2 == 0;
            let k = *w.rng.pick(&[0, 1, 2, 4, 6]);
            some_static(w, 1, dir, k);
            dump_faults(w, 1, &[], true);
        });
    }
    // files larger than the buffers
    for i in 0..c.n(8, 40) {
        by_cfg!(c, [0, 3, 5, 2][i % 4], "large", w, {
            let k = 700;
            let mut r = w.rng.clone();
            w.new_graph(1, i % 2 == 0, "new", &[], &[], &[]);
            // not logged operation by operation: only the writes are judged here
            let mut g = w.g.remove(&1).unwrap();
            for x in 0..k {
                let l = <<CC as Cfg>::NL as Label>::of(*r.pick(&["a", "b", "some longer label"]));
                let e = <<CC as Cfg>::EL as Label>::of(*r.pick(&["x", "y"]));
                let (i0, i1) = (<CC as Cfg>::Id::new(x), <CC as Cfg>::Id::new(r.below(k)));
                use rust_graph::generic::MutGraphTrait;
                match &mut g {
                    G::Un(g) => {
                        g.add_node(i0, Some(l));
                        g.add_edge(i0, i1, Some(e));
                    }
                    G::Di(g) => {
                        g.add_node(i0, Some(l));
                        g.add_edge(i0, i1, Some(e));
                    }
                    _ => unreachable!(),
                }
            }
            w.rng = r;
            let stat: G<CC> = match &g {
                G::Un(g) => G::SUn(g.clone().into_static()),
                G::Di(g) => G::SDi(g.clone().into_static()),
                _ => unreachable!(),
            };
            all_faults(w, vec!["n".into(), "e".into()], &[], "csv", true, &mut |d: &str| {
                call(|| write_to_csv(g.gg(), format!("{}/n", d), format!("{}/e", d)).is_ok())
            });
            all_faults(w, vec!["f".into()], &[], "export", true, &mut |d: &str| {
                let p = format!("{}/f", d);
                call(|| match &g {
                    G::Un(g) => g.export(&p).is_ok(),
                    G::Di(g) => g.export(&p).is_ok(),
                    _ => unreachable!(),
                })
            });
            w.g.insert(5, stat);
            dump_faults(w, 5, &[], true);
            w.g.clear();
        });
    }
    for i in 0..c.n(16, 160) {
        by_cfg!(c, i, "slice", w, {
            let l: usize = *w.rng.pick(&[0, 1, 3, 2499, 2500, 2501, 4000, 5001]);
            let data: Vec<u32> = (0..l).map(|x| (x as u32).wrapping_mul(2654435761)).collect();
            let total = l * 4;
            let mut caps = vec![0, 1, total / 2, total.saturating_sub(1), total, total + 1];
            for _ in 0..12 {
                caps.push(w.rng.below(total + 2));
            }
            for cap in caps {
                let chunk = *w.rng.pick(&[1 << 20, 8192, 1000, 7, 3]);
                let zero = w.rng.chance(1, 2);
                sink_fault(w, &data, cap, chunk, false, zero);
            }
            sink_fault(w, &data, total, 1 << 20, true, false);
            sink_fault(w, &data, total, 1000, true, false);
        });
    }
}

// ------------------------------------------------------------------- LDBC
const RELS: [(&str, &str, &str); 23] = [
    ("comment", "hasCreator", "person"),
    ("comment", "hasTag", "tag"),
    ("comment", "isLocatedIn", "place"),
    ("comment", "replyOf", "comment"),
    ("comment", "replyOf", "post"),
    ("forum", "containerOf", "post"),
    ("forum", "hasMember", "person"),
    ("forum", "hasModerator", "person"),
    ("forum", "hasTag", "tag"),
    ("organisation", "isLocatedIn", "place"),
    ("person", "hasInterest", "tag"),
    ("person", "isLocatedIn", "place"),
    ("person", "knows", "person"),
    ("person", "likes", "comment"),
    ("person", "likes", "post"),
    ("person", "studyAt", "organisation"),
    ("person", "workAt", "organisation"),
    ("place", "isPartOf", "place"),
    ("post", "hasCreator", "person"),
    ("post", "hasTag", "tag"),
    ("post", "isLocatedIn", "place"),
    ("tag", "hasType", "tagclass"),
    ("tagclass", "isSubclassOf", "tagclass"),
];

/// a field of an LDBC file
fn ldbc_field(x: &str, quoted: bool) -> String {
    if quoted || x.contains(|c| c == '|' || c == '"' || c == '\n' || c == '\r') {
        format!("\"{}\"", x.replace("\"", "\"\""))
    } else {
        x.to_owned()
    }
}

/// ids: how many identifiers of each kind; many: every relation; rows: longest file
fn ldbc_dir<C: Cfg>(w: &mut W<C>, d: &str, ids: usize, many: bool, most: usize) -> Vec<V> {
    let mut r = w.rng.clone();
    let p = w.path(d);
    std::fs::create_dir_all(&p).unwrap();
    let mut content: BTreeMap<String, (String, Vec<Vec<String>>)> = BTreeMap::new();
    let mut roles: Vec<(String, usize)> = vec![];
    for x in &["organisation", "place"] {
        if r.chance(3, 5) {
            roles.push((x.to_string(), 4));
        }
    }
    for &(x, l, y) in RELS.iter() {
        if if many { true } else { r.chance(1, 5) } {
            roles.push((format!("{}_{}_{}", x, l, y), 2));
        }
    }
    // (an 8 bit id type can number 256 entities)
    let odd = C::NAME != "Tiny" && r.chance(1, 2);
    for (role, width) in roles {
        let parts = if r.chance(1, 3) { if r.chance(1, 5) { r.range(9, 13) } else { r.range(2, 4) } } else { 1 };
        let first = *r.pick(&[0, 0, 0, 1, 8, 97]);
        for part in first..first + parts {
            let name = match r.below(6) {
                0 => format!("{}_{}.csv", role, part),
                1 if parts == 1 => format!("{}_.csv", role),
                2 if parts == 1 => format!("{}_.csv", role),
                3 => format!("{}_0_{}.csv", role, part),
                4 => format!("{}_{:04}_12.csv", role, part),
                _ => format!("{}_{}_0.csv", role, part),
            };
            let mut rows = vec![];
            let mut text = match role.as_ref() {
                "organisation" => "id|type|name|url".to_owned(),
                "place" => "id|name|url|type".to_owned(),
                _ => {
                    if r.chance(1, 2) {
                        "A.id|B.id".to_owned()
                    } else {
                        "A.id|B.id|creationDate".to_owned()
                    }
                }
            };
            let extra = text.ends_with("creationDate");
            let eol = if r.chance(1, 5) { "\r\n" } else { "\n" };
            text.push_str(eol);
            let quotes = r.chance(1, 3);
            let count = r.below(if many { 3 } else { most });
            let ident = |r: &mut Rng| -> String {
                match r.below(if odd { 10 } else { 5 }) {
                    8 => format!(" {}", r.below(ids)),
                    9 => r.pick(&["", "1|2", "\"1\"", "\u{e9}", "1\n"]).to_string(),
                    5 => format!("class{}", r.below(ids)),
                    6 => format!("0{}", r.below(ids)),
                    7 => format!("{} ", r.below(ids)),
                    4 => format!("9007199254740{}", r.below(ids)),
                    _ => format!("{}", r.below(ids)),
                }
            };
            for _ in 0..count {
                let mut row: Vec<String> = vec![ident(&mut r)];
                if role == "organisation" {
                    row.push(r.pick(&["company", "university", "a b", " company", "company ", "", "a|b", "say \"x\"", "\u{e9}"]).to_string());
                    row.push("name".into());
                    row.push("http://x".into());
                } else if role == "place" {
                    row.push("somewhere".into());
                    row.push("http://y".into());
                    row.push(r.pick(&["city", "country", "continent", "City", " city", "city\t", "", "x\ny", "place"]).to_string());
                } else {
                    row.push(ident(&mut r));
                    if extra {
                        row.push("2010-01-01".into());
                    }
                }
                let line: Vec<String> = row.iter().map(|x| ldbc_field(x, quotes && r.chance(1, 3))).collect();
                text.push_str(&line.join("|"));
                text.push_str(eol);
                if r.chance(1, 15) {
                    text.push_str(eol);
                }
                rows.push(row);
            }
            if r.chance(1, 4) && count > 0 {
                let l = text.trim_end_matches(|c| c == '\n' || c == '\r').len();
                text.truncate(l);
            }
            let at = format!("{}/{}", p, name);
            match r.below(8) {
                0 => {
                    // the file lives elsewhere
                    let other = w.path(&format!("{}.else", d));
                    std::fs::create_dir_all(&other).unwrap();
                    let other = format!("{}/{}.txt", other, content.len());
                    std::fs::write(&other, text).unwrap();
                    let _ = std::fs::remove_file(&at);
                    if r.chance(1, 2) {
                        std::os::unix::fs::symlink(&other, &at).unwrap();
                    } else {
                        std::fs::hard_link(&other, &at).unwrap();
                    }
                }
                _ => {
                    let _ = std::fs::remove_file(&at);
                    std::fs::write(&at, text).unwrap()
                }
            }
            content.insert(name, (role.clone(), rows));
        }
        let _ = width;
    }
    // what is not part of the scheme
    let decoys: &[(&str, &str)] = &[
        ("person_0_0.csv", "id|name\n1|x\n"),
        ("tag_0_0.csv", "id|name\n7|x\n"),
        ("README", "hello"),
        ("person_knows_person.dat", "a|b\n1|2\n"),
        ("person_email_emailaddress_0_0.csv", "a|b\n1|x@y\n"),
        (".person_knows_person_0_0.csv.crc", "a|b\n71|72\n"),
        ("old_person_knows_person_0_0.csv", "a|b\n73|74\n"),
        ("xplace_0_0.csv", "id|name|url|type\n75|n|u|city\n"),
        ("place_0_0.csv.bak", "id|name|url|type\n76|n|u|city\n"),
        ("tag_hasType_tagclass_0_0.csv~", "a|b\n77|78\n"),
        ("tag_hasType_tagclass_0_0xcsv", "a|b\n79|80\n"),
        ("tag_hasType_tagclass_a.csv", "a|b\n81|82\n"),
        ("comment_hasTag_tagclass_0_0.csv", "a|b\n83|84\n"),
        ("person_likes_forum_0_0.csv", "a|b\n85|86\n"),
        ("Person_knows_person_0_0.csv", "a|b\n87|88\n"),
        ("place_isPartOf_place.csv", "a|b\n89|90\n"),
    ];
    for (name, text) in decoys {
        if r.chance(1, 4) {
            std::fs::write(format!("{}/{}", p, name), text).unwrap();
        }
    }
    if r.chance(1, 4) {
        let sub = format!("{}/post_hasTag_tag_9999_0.csv", p);
        std::fs::create_dir_all(&sub).unwrap();
        std::fs::write(format!("{}/person_knows_person_0_0.csv", sub), "a|b\n1|2\n").unwrap();
    }
    if r.chance(1, 6) {
        // links that lead to no file
        let _ = std::os::unix::fs::symlink(w.path("gone"), format!("{}/person_knows_person_98_0.csv", p));
        let _ = std::os::unix::fs::symlink(&p, format!("{}/place_99_0.csv", p));
    }
    w.rng = r;
    let mut files = vec![];
    for e in std::fs::read_dir(&p).unwrap() {
        let name = e.unwrap().file_name().into_string().unwrap();
        if let Some((role, rows)) = content.get(&name) {
            files.push(V::O(vec![
                ("role", s(role.clone())),
                ("rows", a(rows.iter().map(|r| a(r.iter().map(|x| s(x.clone())))))),
            ]));
        }
    }
    files
}

pub fn ldbc(c: &mut Ctx) {
    macro_rules! go {
        ($cfg:ty, $id:ty, $i:expr, $ids:expr, $many:expr, $most:expr) => {
            c.scen::<$cfg, _>("ldbc", |w| {
                let place = *w.rng.pick(&["d", "d", "d.csv", "a b/\u{e9}", "place_0_0.csv", ".d"]);
                let files = ldbc_dir(w, place, $ids, $many, $most);
                let mut p = w.path(place);
                match w.rng.below(6) {
                    0 => p.push('/'),
                    1 => p.push_str("/."),
                    2 => p.push_str("//.//"),
                    _ => {}
                }
                for &dir in &[true, false] {
                    let mut f = vec![("h", n(if dir { 1 } else { 2 }))];
                    let r: Result<(), ()> = call(|| {
                        if dir {
                            let g: TypedGraphMap<$id, String, String, Directed> = read_ldbc_from_path(&p);
                            W::<$cfg>::outcome(&g, &mut f);
                        } else {
                            let g: TypedGraphMap<$id, String, String, Undirected> = read_ldbc_from_path(&p);
                            W::<$cfg>::outcome(&g, &mut f);
                        }
                    });
                    f.push(("files", a(files.iter().cloned())));
                    if r.is_err() {
                        f.push(("pan", b(true)));
                    } else {
                        f.push(("ret", b(true)));
                    }
                    w.ev("ldbc", f);
                }
            })
        };
    }
    for i in 0..c.n(80, 1000) {
        let ids = [2, 3, 5, 9][i % 4];
        match i % 3 {
            0 => go!(Std, u32, i, ids, false, 7),
            1 => go!(Tiny, u8, i, ids, false, 7),
            _ => go!(Big, usize, i, ids, false, 7),
        }
    }
    for i in 0..c.n(16, 160) {
        go!(Std, u32, i, 4, true, 3)
    }
    for i in 0..c.n(4, 30) {
        if i % 2 == 0 {
            go!(Std, u32, i, 80, false, 90)
        } else {
            go!(Big, usize, i, 120, false, 50)
        }
    }
    for i in 0..c.n(2, 12) {
        if i % 2 == 0 {
            go!(Std, u32, i, 700, false, 900)
        } else {
            go!(Big, usize, i, 300, false, 1200)
        }
    }
}

// ------------------------------------------------------- typed memory maps
fn typed_map<C: Cfg, T: Copy + PartialEq + 'static>(w: &mut W<C>, ty: &str, data: Vec<T>, show: &dyn Fn(&T) -> String, big: bool) {
    let width = std::mem::size_of::<T>();
    let p = w.path("tm");
    let mut r = w.rng.clone();
    let tail = if r.chance(1, 3) { r.below(width) } else { 0 };
    let mapped = r.chance(1, 3);
    let mut ends: Vec<usize> = vec![0, 1, data.len() / 2, data.len().saturating_sub(1), data.len(), data.len() + 1];
    if big {
        ends = vec![data.len() - 1, data.len(), data.len() + 1, data.len() / 2];
    } else {
        ends.push(data.len() + 1000);
        ends.push(usize::max_value());
        ends.push(usize::max_value() / width);
        for _ in 0..3 {
            ends.push(r.below(data.len() + 1));
        }
    }
    w.rng = r;
    let raw: Vec<u8> =
        unsafe { std::slice::from_raw_parts(data.as_ptr() as *const u8, data.len() * width) }.to_vec();
    let res = call(|| {
        unsafe { dump_slice(&data, std::fs::File::create(&p).unwrap()) }.unwrap();
        let now = std::fs::read(&p).unwrap();
        let bytes = if now == raw && typed_as_byte_slice(&data) == &raw[..] { now.len() as i64 } else { -1 };
        if tail > 0 {
            let mut f = std::fs::OpenOptions::new().append(true).open(&p).unwrap();
            f.write_all(&vec![0xaau8; tail]).unwrap();
        }
        let empty = data.is_empty() && tail == 0;
        let m: TypedMemoryMap<T> = if mapped && !empty {
            TypedMemoryMap::with_mmap(TypedMemoryMap::<u8>::new(&p).map)
        } else {
            TypedMemoryMap::new(&p)
        };
        let all = |x: &[T]| a(x.iter().map(|v| s(show(v))));
        let mut sl = vec![];
        for &k in &ends {
            let bound = n(k.min((1 << 31) - 1) as i64);
            let x = call(|| all(&m[k..]));
            sl.push(a(vec![s("from"), bound.clone(), opt(x.ok())]));
            let x = call(|| all(&m[..k]));
            sl.push(a(vec![s("to"), bound, opt(x.ok())]));
        }
        vec![("len", n(m.len as i64)), ("full", all(&m[..])), ("bytes", n(bytes)), ("sl", a(sl))]
    });
    let mut f = vec![
        ("type", s(ty)),
        ("width", n(width as i64)),
        ("data", a(data.iter().map(|v| s(show(v))))),
    ];
    match res {
        Ok(x) => f.extend(x),
        Err(()) => f.push(("pan", b(true))),
    }
    w.ev("tmm", f);
}

fn maps_of<C: Cfg>(w: &mut W<C>, ty: usize, l: usize, big: bool) {
    let mut r = w.rng.clone();
    macro_rules! ints {
        ($t:ty) => {{
            let d: Vec<$t> = (0..l).map(|_| r.next() as $t).collect();
            w.rng = r;
            typed_map(w, stringify!($t), d, &|x: &$t| format!("{}", x), big)
        }};
    }
    match ty % 8 {
        0 => ints!(u8),
        1 => ints!(u16),
        2 => ints!(u32),
        3 => ints!(u64),
        4 => ints!(usize),
        5 => ints!(i32),
        6 => {
            let d: Vec<[u8; 3]> = (0..l).map(|_| [r.next() as u8, r.next() as u8, r.next() as u8]).collect();
            w.rng = r;
            typed_map(w, "[u8; 3]", d, &|x: &[u8; 3]| format!("{:?}", x), big)
        }
        _ => ints!(u128),
    }
}

pub fn typed_maps(c: &mut Ctx) {
    for i in 0..c.n(200, 2400) {
        by_cfg!(c, i, "map", w, {
            for _ in 0..3 {
                let ty = w.rng.below(8);
                let l = *w.rng.pick(&[0, 1, 2, 3, 7, 16, 33]);
                maps_of(w, ty, l, false);
            }
            // over a longer file
            maps_of(w, i, 4, false);
        });
    }
    let widths = [1, 2, 4, 8, 8, 4, 3, 16];
    let mut jobs = vec![];
    for (t, &wd) in widths.iter().enumerate() {
        for &bytes in &[10000usize, 20000] {
            for d in 0..3 {
                if bytes == 20000 && !c.thorough && (t == 0 || d != 1) {
                    continue;
                }
                jobs.push((t, (bytes / wd + d).saturating_sub(1)));
            }
        }
    }
    for (t, l) in jobs {
        by_cfg!(c, t, "block", w, maps_of(w, t, l, true));
    }
}
