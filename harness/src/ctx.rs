//! Scenario bookkeeping: numbering, sharding, scratch directories, panics.
use crate::json::*;
use crate::rng::Rng;
use crate::world::*;
use std::fs::{File, OpenOptions};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub idx: u64,
    pub only: Option<u64>,
    pub trace: PathBuf,
    pub base: PathBuf,
    pub mask: u32,
    pub sched: Vec<String>,
    pub count: u64,
}

impl Ctx {
    /// number of scenarios of a kind: quick / thorough
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn open(&self) -> File {
        OpenOptions::new().append(true).create(true).open(&self.trace).expect("trace file")
    }
    pub fn scen<C: Cfg, F: FnOnce(&mut W<C>)>(&mut self, name: &str, body: F) {
        let idx = self.idx;
        self.idx += 1;
        if idx % self.nshards != self.shard {
            return;
        }
        if let Some(o) = self.only {
            if o != idx {
                return;
            }
        }
        self.count += 1;
        let tmp = self.base.join(format!("s{}", idx));
        std::fs::create_dir_all(&tmp).expect("scratch");
        let rng = Rng::new(self.seed, &self.prop, idx);
        let mut w = W::<C>::new(self.open(), tmp.clone(), rng, self.mask);
        w.own = match self.prop.as_ref() {
            "C25" => Some("C25"),
            "C26" => Some("C26"),
            _ => None,
        };
        w.ev("reset", vec![("name", s(format!("{}/{}", name, C::NAME))), ("idx", n(idx as i64))]);
        let r = catch_unwind(AssertUnwindSafe(|| body(&mut w)));
        if r.is_err() && !w.panicked {
            w.ev("crash", vec![("where", s("scenario"))]);
        }
        drop(w);
        std::fs::remove_dir_all(&tmp).ok();
    }
}

/// run a scenario body for configuration number i
#[macro_export]
macro_rules! by_cfg {
    ($ctx:expr, $i:expr, $name:expr, $w:ident, $body:expr) => {
        match $i % 7 {
            0 => {
                #[allow(dead_code)]
                type CC = $crate::world::Std;
                $ctx.scen::<CC, _>($name, |$w| $body)
            }
            1 => {
                #[allow(dead_code)]
                type CC = $crate::world::Tiny;
                $ctx.scen::<CC, _>($name, |$w| $body)
            }
            2 => {
                #[allow(dead_code)]
                type CC = $crate::world::Mixed;
                $ctx.scen::<CC, _>($name, |$w| $body)
            }
            3 => {
                #[allow(dead_code)]
                type CC = $crate::world::Wide;
                $ctx.scen::<CC, _>($name, |$w| $body)
            }
            4 => {
                #[allow(dead_code)]
                type CC = $crate::world::Num;
                $ctx.scen::<CC, _>($name, |$w| $body)
            }
            6 => {
                #[allow(dead_code)]
                type CC = $crate::world::Nil;
                $ctx.scen::<CC, _>($name, |$w| $body)
            }
            _ => {
                #[allow(dead_code)]
                type CC = $crate::world::Big;
                $ctx.scen::<CC, _>($name, |$w| $body)
            }
        }
    };
}
