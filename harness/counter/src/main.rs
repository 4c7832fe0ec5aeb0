//! Checks against the library built with the counter as the source of ids and without a parser:
//! C08 (ids) and C23 (memory).

#[path = "../../shared/alloc.rs"]
mod alloc;
#[path = "../../shared/bridge.rs"]
#[allow(dead_code)]
mod bridge;
#[path = "../../shared/registry.rs"]
mod history;
#[path = "../../shared/ids.rs"]
mod ids;
#[path = "../../shared/styles.rs"]
mod styles;

use crate::bridge::Builder;
use crate::styles::{create, Kind};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stylist::manager::{render_static, StyleManager};
use vcommon::gen;
use vcommon::model::Sheet;
use vcommon::run::{Check, Rec};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C08" => c08(),
        "C23" => c23(),
        id => {
            eprintln!("unknown check {id:?}");
            std::process::exit(2);
        }
    }
}

fn c08() {
    let mut c = Check::new(
        "C08",
        "with the counter as the source of ids: random styles, prefixes, kinds and managers, in one or several threads; \
         every id must be new in the process, have the promised form and be a CSS identifier when its prefix is one; \
         non-trivial: at least two styles in one case",
    );
    c.assume("counter ids: prefixes of one process are compared as whole ids");
    ids::subs(&c, ("counter", "counter_threads", ("counter_race", Some("counter_many"))));
    c.finish()
}

/// Styles of which only some handles are kept when the manager goes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Kept {
    sheets: Vec<Sheet>,
    kinds: Vec<Kind>,
    keep: Vec<bool>,
    writer: bool,
    clones: u8,
    unregister: Vec<bool>,
}

fn make(k: &Kept, mgr: &StyleManager, i: usize) -> crate::styles::Any {
    let mut b = Builder::new(&[]);
    b.owned = true;
    let kind = &k.kinds[i % k.kinds.len()];
    create(b.sheet(&k.sheets[i]), kind, &["p".to_string()], mgr, true).unwrap()
}

/// Bytes held by the kept handles alone, and by the same handles after many others were created.
fn kept(k: &Kept, rec: &mut Rec) -> Result<(), String> {
    let mut k = k.clone();
    let mut distinct: Vec<Sheet> = vec![];
    for s in k.sheets.drain(..) {
        if !distinct.contains(&s) {
            distinct.push(s);
        }
    }
    k.sheets = distinct;
    let k = &k;
    let n = k.sheets.len();
    let keep = |i: usize| k.keep[i % k.keep.len()];
    let mut results = vec![];
    // The last round counts; the first ones fill what is allocated once (hash seeds and such).
    for round in 0..3 {
        for all in [false, true] {
            let before = alloc::live();
            let (w, r) = render_static();
            let mut mgr = StyleManager::builder().prefix("p".into());
            if k.writer {
                mgr = mgr.writer(w);
            } else {
                drop(w);
            }
            let mgr = mgr.build().unwrap();
            let clones: Vec<_> = (0..k.clones % 4).map(|_| mgr.clone()).collect();
            let mut handles = Vec::with_capacity(2 * n);
            let mut garbage = 0;
            for i in 0..n {
                if all || keep(i) {
                    let s = make(k, &mgr, i);
                    if k.unregister[i % k.unregister.len()] {
                        s.unregister();
                    }
                    if keep(i) {
                        handles.push(s.clone());
                        handles.push(s);
                    } else {
                        garbage += s.text().len() as i64;
                    }
                }
            }
            drop(clones);
            drop(mgr);
            // What was captured belongs to the reader.
            drop(r);
            let held = alloc::live() - before;
            let texts: Vec<String> = handles.iter().map(|h| h.text().to_string()).collect();
            for (h, t) in handles.iter().zip(&texts) {
                h.unregister();
                if h.text() != t || !t.is_empty() && !t.contains('{') {
                    return Err(format!("the text of {} changed when its manager went", h.id()));
                }
            }
            drop(texts);
            drop(handles);
            let after = alloc::live() - before;
            if after != 0 && round > 0 {
                return Err(format!("{after} bytes are left after the manager and all handles are gone"));
            }
            if round == 2 {
                results.push((held, garbage, n));
            }
        }
    }
    let (alone, _, _) = results[0];
    let (held, garbage, _) = results[1];
    // Longer counter ids cost some bytes.
    let slack = 24 * (1 + k.sheets.iter().map(|s| s.stats().blocks + s.stats().decls + 2).sum::<usize>() as i64);
    rec.class("handles kept", alone > 1000);
    rec.class("most styles released", garbage > 2 * slack);
    rec.nontrivial(garbage > slack);
    if (held - alone).abs() > slack {
        return Err(format!(
            "after the manager is gone the kept handles hold {held} bytes; without the {garbage} bytes of CSS of the \
             other styles they hold {alone}"
        ));
    }
    Ok(())
}

fn c23() {
    let mut c = Check::new(
        "C23",
        "random histories of managers and styles run twice with a counting allocator: the second run must leave no \
         byte behind; and groups of styles of which some handles outlive the manager: these must hold as many bytes as \
         if the other styles had never been created; non-trivial: the history creates a style, or the released styles \
         hold more text than the tolerance",
    );
    c.assume("bytes are counted per thread; borrowed (leaked) parts are not used here");
    c.sub("memory", (8_000, 200_000), history::history, |h, rec| {
        let mut h = h.clone();
        h.default = false;
        rec.nontrivial(h.ops.iter().any(|o| matches!(o, history::Op::Create { .. })));
        history::run_owned(&h, rec)?;
        let before = alloc::live();
        history::run_owned(&h, &mut Rec::default())?;
        let left = alloc::live() - before;
        if left != 0 {
            return Err(format!("{left} bytes are left after the managers and handles of a history are gone"));
        }
        Ok(())
    });
    c.sub(
        "released",
        (3_000, 60_000),
        || {
            (
                vec(prop_oneof![2 => gen::nesting(), 1 => gen::sheet(gen::Opts::default())], 1..12),
                vec(styles::kind(), 1..4),
                vec(any::<bool>(), 1..6),
                any::<bool>(),
                any::<u8>(),
                vec(prop::bool::weighted(0.2), 1..5),
            )
                .prop_map(|(sheets, kinds, keep, writer, clones, unregister)| Kept {
                    sheets,
                    kinds,
                    keep,
                    writer,
                    clones,
                    unregister,
                })
        },
        kept,
    );
    c.finish()
}
