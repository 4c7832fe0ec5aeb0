//! Ids of styles: the part of C08 that is the same for both sources of ids.

use crate::bridge::Builder;
use crate::history;
use crate::styles::{create, key, kind, well_made};
use proptest::collection::vec;
use proptest::prelude::*;
use std::collections::HashSet;
use std::sync::Mutex;
use stylist::manager::StyleManager;
use stylist::{ast, GlobalStyle, Style};
use vcommon::css;
use vcommon::gen;
use vcommon::run::{Check, Rec};

pub fn subs(c: &Check, (one, threads, race): (&'static str, &'static str, (&'static str, Option<&'static str>))) {
    let seen: Mutex<HashSet<String>> = Mutex::default();
    c.sub(
        one,
        (2_500, 10_000),
        || (vec(gen::ident(), 1..4), history::sheets(), vec((any::<u8>(), any::<u8>(), kind()), 1..12)),
        |(prefixes, sheets, ops), rec| ids(prefixes, sheets, ops, rec, &seen),
    );
    c.sub(
        threads,
        (150, 800),
        || {
            (
                vec(gen::ident(), 1..3),
                history::sheets(),
                vec(vec((any::<u8>(), any::<u8>(), kind()), 1..10), 2..5),
            )
        },
        |(prefixes, sheets, threads), rec| {
            rec.nontrivial(true);
            let seen = &seen;
            std::thread::scope(|s| {
                let hs: Vec<_> = threads
                    .iter()
                    .map(|ops| {
                        s.spawn(move || {
                            vcommon::run::catch(|| ids(prefixes, sheets, ops, &mut Rec::default(), seen))
                                .unwrap_or_else(|p| Err(format!("panic: {p}")))
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect::<Result<Vec<_>, _>>()
            })
            .map(|_| ())
        },
    );
    // As many creations at the same time as possible.
    c.sub_n(
        race.0,
        (6, 100),
        1,
        || (gen::ident(), 500..3000u32, any::<bool>()),
        |(prefix, n, global), rec| {
            rec.nontrivial(true);
            crowd(prefix, *n, *global, &seen)
        },
    );
    // A counter has no chance of repeating itself, however many there are.
    if let Some(name) = race.1 {
        c.sub_n(
            name,
            (2, 8),
            1,
            || (gen::ident(), 20_000..60_000u32, any::<bool>()),
            |(prefix, n, global), rec| {
                rec.nontrivial(true);
                crowd(prefix, *n, *global, &seen)
            },
        );
    }
    c.note("ids", seen.lock().unwrap().len().into());
}

fn ids(
    prefixes: &[String],
    sheets: &[vcommon::model::Sheet],
    ops: &[(u8, u8, crate::styles::Kind)],
    rec: &mut Rec,
    seen: &Mutex<HashSet<String>>,
) -> Result<(), String> {
    rec.nontrivial(ops.len() > 1);
    let mgrs: Vec<_> = prefixes
        .iter()
        .map(|p| {
            StyleManager::builder()
                .prefix(p.clone().into())
                .build()
                .unwrap()
        })
        .collect();
    let mut have = HashSet::new();
    for (m, s, k) in ops {
        let m = *m as usize % mgrs.len();
        let s = sheets
            .iter()
            .position(|t| *t == sheets[*s as usize % sheets.len()])
            .unwrap();
        let key = key(s, k, &prefixes[m], prefixes);
        let mut b = Builder::new(&[]);
        b.split = false;
        let st = create(b.sheet(&sheets[s]), k, prefixes, &mgrs[m], true).map_err(|e| e.to_string())?;
        rec.class("global", key.global);
        if !have.insert((m, key.clone())) {
            continue;
        }
        well_made(&st, &key, &sheets[s])?;
        let id = st.id();
        if css::is_name(&key.prefix) && !css::is_name(&id) {
            return Err(format!("id {id:?} is not a CSS identifier although its prefix {:?} is", key.prefix));
        }
        if id.contains(['"', '\'', '<', '>', '&', ' ', '\n']) {
            return Err(format!("id {id:?} is not usable in HTML attributes"));
        }
        if !seen.lock().unwrap().insert(id.clone()) {
            return Err(format!("id {id:?} was generated twice"));
        }
    }
    Ok(())
}

/// Styles created by eight threads, `n` by each.
fn crowd(prefix: &str, n: u32, global: bool, seen: &Mutex<HashSet<String>>) -> Result<(), String> {
    let barrier = std::sync::Barrier::new(8);
    let ids: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|_| {
                s.spawn(|| {
                    let mgr = StyleManager::builder().prefix(prefix.to_string().into()).build().unwrap();
                    let sheets: Vec<ast::Sheet> = (0..n)
                        .map(|i| {
                            let a = ast::StyleAttribute {
                                key: "a".into(),
                                value: vec![i.to_string().into()].into(),
                            };
                            ast::Sheet::from(vec![ast::ScopeContent::Block(ast::Block {
                                condition: vec![].into(),
                                content: vec![a.into()].into(),
                            })])
                        })
                        .collect();
                    barrier.wait();
                    sheets
                        .into_iter()
                        .map(|s| match global {
                            true => GlobalStyle::new_with_manager(s, &mgr).unwrap().id().to_string(),
                            false => Style::new_with_manager(s, &mgr).unwrap().id().to_string(),
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(|_| "panic".to_string())).collect::<Result<_, _>>()
    })?;
    let mut seen = seen.lock().unwrap();
    for id in ids.into_iter().flatten() {
        if !seen.insert(id.clone()) {
            return Err(format!("id {id:?} was generated twice"));
        }
    }
    Ok(())
}
