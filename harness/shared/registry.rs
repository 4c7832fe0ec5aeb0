//! C07 and the identity part of C23: histories of managers and styles against a model.

use crate::bridge::Builder;
use crate::styles::{create, key, kind, well_made, Any, Key, Kind};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use stylist::manager::StyleManager;
use vcommon::gen::{self, Opts};
use vcommon::model::{Decl, Item, Sheet};
use vcommon::run::Rec;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    NewManager(u8),
    CloneManager(u8),
    DropManager(u8),
    Create {
        mgr: u8,
        sheet: u8,
        kind: Kind,
        parts: Vec<u8>,
        keep: bool,
    },
    CloneHandle(u8),
    DropHandle(u8),
    Unregister(u8),
}

pub fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        1 => any::<u8>().prop_map(Op::NewManager),
        1 => any::<u8>().prop_map(Op::CloneManager),
        1 => any::<u8>().prop_map(Op::DropManager),
        8 => (any::<u8>(), any::<u8>(), kind(), vec(any::<u8>(), 0..3), prop::bool::weighted(0.8))
            .prop_map(|(mgr, sheet, kind, parts, keep)| Op::Create { mgr, sheet, kind, parts, keep }),
        1 => any::<u8>().prop_map(Op::CloneHandle),
        2 => any::<u8>().prop_map(Op::DropHandle),
        2 => any::<u8>().prop_map(Op::Unregister),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub prefixes: Vec<String>,
    pub sheets: Vec<Sheet>,
    pub ops: Vec<Op>,
    /// Also use the thread's default manager.
    pub default: bool,
}

/// Sheets of which many differ in one place only.
pub fn sheets() -> BoxedStrategy<Vec<Sheet>> {
    let small = Opts {
        depth: 1,
        items: 2,
        ..Opts::default()
    };
    (
        vec(prop_oneof![1 => gen::sheet(small), 2 => gen::nesting()], 1..4),
        vec((any::<u8>(), any::<u16>(), any::<u8>()), 0..3),
        prop_oneof![14 => Just(0u8), 1 => 1..40u8, 1 => 40..220u8],
    )
        .prop_map(|(mut v, edits, more)| {
            for (i, at, how) in edits {
                let s = &v[i as usize % v.len()];
                let e = gen::edit_one(s, at, how);
                v.push(e);
            }
            v.extend((0..more).map(|i| {
                let (key, val) = (["order", "z-index"][i as usize % 2].into(), format!("{}", i / 2));
                Sheet(vec![Item::Decls(vec![Decl { key, val }])])
            }));
            v
        })
        .boxed()
}

/// Mostly a few, sometimes many.
pub fn many<S: Strategy + 'static>(s: S, few: std::ops::Range<usize>, most: usize) -> BoxedStrategy<Vec<S::Value>>
where
    S: Clone,
    S::Value: 'static,
{
    let much = few.end..most;
    prop_oneof![14 => vec(s.clone(), few), 1 => vec(s, much)].boxed()
}

pub fn history() -> BoxedStrategy<History> {
    (
        vec(prop_oneof![gen::ident(), Just("stylist".to_string())], 1..4),
        sheets(),
        many(op(), 1..40, 400),
        prop::bool::weighted(0.15),
    )
        .prop_map(|(prefixes, sheets, ops, default)| History {
            prefixes,
            sheets,
            ops,
            default,
        })
        .boxed()
}

struct Entry {
    id: String,
    text: String,
    mgr: usize,
    key: Key,
    registered: bool,
}

pub struct World<'a> {
    h: &'a History,
    canon: Vec<usize>,
    mgrs: Vec<(StyleManager, usize)>,
    mgr_prefix: Vec<String>,
    entries: Vec<Entry>,
    handles: Vec<(Any, usize)>,
    ids: HashSet<String>,
    /// Borrow nothing (borrowed parts are leaked).
    pub owned: bool,
}

impl<'a> World<'a> {
    pub fn new(h: &'a History) -> Self {
        let canon = h
            .sheets
            .iter()
            .map(|s| h.sheets.iter().position(|t| t == s).unwrap())
            .collect();
        World {
            h,
            canon,
            mgrs: vec![],
            mgr_prefix: vec![],
            entries: vec![],
            handles: vec![],
            ids: HashSet::new(),
            owned: false,
        }
    }

    fn new_manager(&mut self, p: u8) {
        let prefix = self.h.prefixes[p as usize % self.h.prefixes.len()].clone();
        let m = if prefix == "stylist" {
            StyleManager::new().unwrap()
        } else {
            StyleManager::builder()
                .prefix(prefix.clone().into())
                .build()
                .unwrap()
        };
        self.mgrs.push((m, self.mgr_prefix.len()));
        self.mgr_prefix.push(prefix);
    }

    fn step(&mut self, op: &Op, rec: &mut Rec) -> Result<(), String> {
        let pick = |i: u8, n: usize| i as usize % n;
        match op {
            Op::NewManager(p) => self.new_manager(*p),
            Op::CloneManager(i) if !self.mgrs.is_empty() => {
                let m = self.mgrs[pick(*i, self.mgrs.len())].clone();
                self.mgrs.push(m);
            }
            Op::DropManager(i) if !self.mgrs.is_empty() => {
                let n = self.mgrs.len();
                self.mgrs.swap_remove(pick(*i, n));
                rec.class("manager dropped", true);
            }
            Op::Create {
                mgr,
                sheet,
                kind,
                parts,
                keep,
            } if !self.mgrs.is_empty() => {
                let (m, lm) = self.mgrs[pick(*mgr, self.mgrs.len())].clone();
                let n = pick(*sheet, self.h.sheets.len());
                let mut b = Builder::new(parts);
                b.split = false;
                b.owned = self.owned;
                let k = key(self.canon[n], kind, &self.mgr_prefix[lm], &self.h.prefixes);
                let s = create(
                    b.sheet(&self.h.sheets[n]),
                    kind,
                    &self.h.prefixes,
                    &m,
                    self.owned || parts.first().is_none_or(|b| b % 2 == 0),
                )
                .map_err(|e| format!("creating failed: {e}"))?;
                let known = self
                    .entries
                    .iter()
                    .position(|e| e.registered && e.mgr == lm && e.key == k);
                let e = match known {
                    Some(e) => {
                        rec.class("created again", true);
                        rec.nontrivial(true);
                        let have = &self.entries[e];
                        if s.id() != have.id || s.text() != have.text {
                            return Err(format!(
                                "creating {k:?} again gave {} instead of the registered {}",
                                s.id(),
                                have.id
                            ));
                        }
                        e
                    }
                    None => {
                        if !self.ids.insert(s.id()) {
                            return Err(format!("the new style {k:?} got the id {} of another style", s.id()));
                        }
                        if self.entries.iter().any(|e| e.mgr == lm && e.key == k) {
                            rec.class("created after unregistering", true);
                        }
                        if self.entries.iter().any(|e| e.mgr != lm && e.key == k) {
                            rec.class("same style in two managers", true);
                        }
                        well_made(&s, &k, &self.h.sheets[n])?;
                        self.entries.push(Entry {
                            id: s.id(),
                            text: s.text().to_string(),
                            mgr: lm,
                            key: k,
                            registered: true,
                        });
                        self.entries.len() - 1
                    }
                };
                if *keep {
                    self.handles.push((s, e));
                }
            }
            Op::CloneHandle(i) if !self.handles.is_empty() => {
                let c = self.handles[pick(*i, self.handles.len())].clone();
                self.handles.push(c);
            }
            Op::DropHandle(i) if !self.handles.is_empty() => {
                let n = self.handles.len();
                self.handles.swap_remove(pick(*i, n));
            }
            Op::Unregister(i) if !self.handles.is_empty() => {
                let (s, e) = &self.handles[pick(*i, self.handles.len())];
                s.unregister();
                let alive = self.mgrs.iter().any(|(_, l)| *l == self.entries[*e].mgr);
                rec.class("unregistered", alive);
                rec.class("unregistered after the manager", !alive);
                if alive {
                    self.entries[*e].registered = false;
                }
            }
            _ => {}
        }
        // What exists keeps its identity.
        for (s, e) in &self.handles {
            let e = &self.entries[*e];
            if s.id() != e.id || s.text() != e.text {
                return Err(format!("a handle of {} turned into {}", e.id, s.id()));
            }
        }
        for (i, (a, la)) in self.mgrs.iter().enumerate() {
            if a.prefix() != self.mgr_prefix[*la] {
                return Err(format!("manager prefix {:?} instead of {:?}", a.prefix(), self.mgr_prefix[*la]));
            }
            for (b, lb) in &self.mgrs[..=i] {
                if (a == b) != (la == lb) || (a != b) == (la == lb) {
                    return Err("manager equality is not identity".into());
                }
            }
        }
        Ok(())
    }
}

pub fn run(h: &History, rec: &mut Rec) -> Result<(), String> {
    if !h.default {
        return run_here(h, rec);
    }
    // The default manager belongs to a thread.
    rec.class("default manager", true);
    std::thread::scope(|s| {
        s.spawn(|| vcommon::run::catch(|| run_here(h, rec)).unwrap_or_else(|p| Err(format!("panic: {p}"))))
            .join()
            .unwrap()
    })
}

/// Runs the history without any allocation that outlives it.
#[allow(dead_code)]
pub fn run_owned(h: &History, rec: &mut Rec) -> Result<(), String> {
    let mut w = World::new(h);
    w.owned = true;
    w.new_manager(0);
    h.ops.iter().try_for_each(|op| w.step(op, rec))
}

fn run_here(h: &History, rec: &mut Rec) -> Result<(), String> {
    let mut w = World::new(h);
    if h.default {
        w.mgrs.push((StyleManager::default(), 0));
        w.mgr_prefix.push("stylist".into());
        w.mgrs.push((StyleManager::default(), 0));
    }
    w.new_manager(0);
    for op in &h.ops {
        w.step(op, rec)?;
    }
    rec.class("two managers or more", w.mgr_prefix.len() > 1);
    rec.class("more than thirty styles", w.entries.len() > 30);
    Ok(())
}
