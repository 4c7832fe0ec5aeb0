//! C11: pages of components, rendered on the server.

use crate::tree::{self, Counter, GlobalHow, How, Node, Page, PageProps, St, Use};
use base64ct::{Base64, Encoding};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use stylist::ast::Sheet;
use stylist::manager::{render_static, StaticReader, StyleData, StyleManager};
use stylist::{GlobalStyle, Style};
use vcommon::run::{Check, Rec};
use vcommon::{css, html};
use yew::LocalServerRenderer;

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    tokio::task::LocalSet::new().block_on(&rt, f)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pages: Vec<Vec<Node>>,
    /// Prefixes of the managers; the last manager captures nothing.
    prefixes: Vec<u8>,
    concurrent: bool,
    again: bool,
    hydratable: bool,
}

fn st() -> BoxedStrategy<St> {
    (0..5u8, 0..5u8, 0..2u8, 0..3u8)
        .prop_map(|(v, s, m, q)| St { v, s, m, q })
        .boxed()
}

/// Most styles are taken from a few.
fn sts() -> BoxedStrategy<Vec<St>> {
    vec(st(), 1..4).boxed()
}

fn node(pool: Vec<St>) -> BoxedStrategy<Node> {
    let s = || prop_oneof![6 => select(pool.clone()), 1 => st()];
    let elem = |kids: BoxedStrategy<Vec<Node>>| {
        (select(How::ALL), s(), 0..4u8, kids)
            .prop_map(|(how, st, under, kids)| Node::Elem { how, st, under, kids })
            .boxed()
    };
    let leaf = prop_oneof![
        3 => elem(Just(vec![]).boxed()),
        1 => (select(GlobalHow::ALL), s()).prop_map(|(how, st)| Node::Global { how, st }),
    ];
    leaf.prop_recursive(4, 24, 3, move |inner| {
        let kids = || vec(inner.clone(), 0..4).boxed();
        prop_oneof![
            3 => (0..4u8, kids()).prop_map(|(mgr, kids)| Node::Provider { mgr, kids }),
            3 => (select(How::ALL), prop_oneof![6 => select(pool.clone()), 1 => st()], 0..4u8, kids())
                .prop_map(|(how, st, under, kids)| Node::Elem { how, st, under, kids }),
            1 => (0..3u8, kids()).prop_map(|(times, kids)| Node::Suspend { times, kids }),
            1 => kids().prop_map(Node::Fragment),
        ]
    })
    .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    sts()
        .prop_flat_map(|pool| {
            let big = prop_oneof![
                24 => Just(None),
                1 => (any::<u8>(), any::<u8>(), prop_oneof![2 => 1..20u8, 1 => 20..100u8]).prop_map(Some),
            ];
            (vec(vec(node(pool), 1..4), 1..3), vec(0..3u8, 4), any::<bool>(), any::<bool>(), any::<bool>(), big)
        })
        .prop_map(|(mut pages, prefixes, concurrent, again, hydratable, big)| {
            if let Some((what, how, n)) = big {
                tree::grow(&mut pages[0], what, how, n);
            }
            (pages, prefixes, concurrent, again, hydratable)
        })
        .prop_map(|(pages, prefixes, concurrent, again, hydratable)| Case {
            pages,
            prefixes,
            concurrent,
            again,
            hydratable,
        })
        .boxed()
}

const PREFIXES: &[&str] = &["stylist", "app", "é-x"];

fn managers(c: &Case, capture: bool) -> (Vec<StyleManager>, Vec<Option<StaticReader>>) {
    let n = c.prefixes.len();
    (0..n)
        .map(|i| {
            let b = StyleManager::builder().prefix(PREFIXES[c.prefixes[i] as usize % PREFIXES.len()].into());
            if capture && i + 1 < n {
                let (w, r) = render_static();
                (b.writer(w).build().unwrap(), Some(r))
            } else {
                (b.build().unwrap(), None)
            }
        })
        .unzip()
}

async fn render(nodes: &[Node], mgrs: &[StyleManager], hydratable: bool) -> String {
    LocalServerRenderer::<Page>::with_props(PageProps {
        nodes: nodes.to_vec(),
        mgrs: mgrs.to_vec(),
    })
    .hydratable(hydratable)
    .render()
    .await
}

struct Seen {
    /// Classes of each numbered element.
    classes: BTreeMap<usize, Vec<String>>,
    /// Page state of each provider.
    states: BTreeMap<usize, String>,
}

fn look(nodes: &[html::Node], seen: &mut Seen) {
    for n in nodes {
        if let html::Node::Element { name, children, .. } = n {
            if let Some(id) = n.attr("data-n") {
                // The location of the macro is added for debugging.
                let own = n
                    .attr("class")
                    .unwrap_or_default()
                    .split_ascii_whitespace()
                    .filter(|c| !c.contains(".rs:"))
                    .collect::<Vec<_>>()
                    .join(" ");
                seen.classes.entry(id.parse().unwrap()).or_default().push(own);
            }
            if let Some(id) = n.attr("data-p") {
                let script = children.iter().rev().find_map(|c| match c {
                    html::Node::Element { name, children, .. } if name == "script" => Some(children),
                    _ => None,
                });
                if let Some([html::Node::Text(t)]) = script.map(|m| m.as_slice()) {
                    seen.states.insert(id.parse().unwrap(), t.clone());
                }
            }
            if name != "script" {
                look(children, seen);
            }
        }
    }
}

/// The id a style has, without a trace if it was there.
fn id_of(sheet: &Sheet, mgr: Option<&StyleManager>, global: bool) -> String {
    let mgr = mgr.cloned().unwrap_or_default();
    if global {
        GlobalStyle::new_with_manager(sheet.clone(), mgr).unwrap().id().to_string()
    } else {
        Style::new_with_manager(sheet.clone(), mgr).unwrap().id().to_string()
    }
}

fn same_css(got: &str, want: &str) -> Result<(), String> {
    // `</` may be written with an escape.
    let read = |s: &str| css::read(s).map(|m| m.iter().map(css::Ev::unescaped).collect::<Vec<_>>());
    let (g, w) = (read(got)?, read(want)?);
    match css::diff(&w, &g) {
        Some(d) => Err(format!("the CSS is {got:?} instead of {want:?}: {d}")),
        None => Ok(()),
    }
}

fn decode(state: &str) -> Result<StyleData, String> {
    let first = state.split(',').next().unwrap_or_default();
    let bytes = Base64::decode_vec(first).map_err(|e| format!("page state {state:?}: {e}"))?;
    type State = (Option<StyleData>, Option<()>);
    let ((data, _), _): (State, usize) =
        bincode::serde::decode_from_slice(&bytes, bincode::config::standard()).map_err(|e| format!("page state: {e}"))?;
    data.ok_or_else(|| "empty page state".to_string())
}

fn check(c: &Case, rec: &mut Rec) -> Result<(), String> {
    let (mgrs, readers) = managers(c, true);
    let n = mgrs.len();
    let pages: Vec<Vec<Node>> = if c.again {
        c.pages.iter().chain(c.pages.iter()).cloned().collect()
    } else {
        c.pages.clone()
    };
    let htmls: Vec<String> = block_on(async {
        if c.concurrent && pages.len() > 1 {
            // The pages take turns when they suspend.
            let tasks: Vec<_> = pages
                .iter()
                .map(|p| {
                    let (p, mgrs, h) = (p.clone(), mgrs.clone(), c.hydratable);
                    tokio::task::spawn_local(async move { render(&p, &mgrs, h).await })
                })
                .collect();
            let mut out = vec![];
            for t in tasks {
                out.push(t.await.map_err(|e| format!("rendering failed: {e}"))?);
            }
            Ok::<_, String>(out)
        } else {
            let mut out = vec![];
            for p in &pages {
                out.push(render(p, &mgrs, c.hydratable).await);
            }
            Ok(out)
        }
    })?;

    // What was asked for, and the classes of the elements.
    // (manager, sheet) -> class
    let mut classes: Vec<(Option<usize>, Sheet, String, St)> = vec![];
    let mut globals: Vec<(Option<usize>, Sheet, St)> = vec![];
    let mut page_uses: Vec<(Vec<Use>, Seen)> = vec![];
    for (p, h) in pages.iter().zip(&htmls) {
        let mut all = vec![];
        tree::uses(p, n, (None, None), &mut Counter::default(), &mut all);
        let mut seen = Seen {
            classes: BTreeMap::new(),
            states: BTreeMap::new(),
        };
        look(&html::parse(h).map_err(|e| format!("{e} in {h}"))?, &mut seen);
        for u in &all {
            let sheet = u.syntax.sheet(u.st);
            let Some(id) = u.elem else {
                if globals.iter().any(|(m, s, _)| *m == u.mgr && *s == sheet) {
                    rec.class("global style used again", true);
                } else {
                    globals.push((u.mgr, sheet, u.st));
                }
                continue;
            };
            let found = seen.classes.get(&id).ok_or_else(|| format!("element {id} is not in {h}"))?;
            for class in found {
                if class.is_empty() || class.contains(' ') {
                    return Err(format!("element {id} has the classes {class:?}"));
                }
                match classes.iter().find(|(m, s, ..)| *m == u.mgr && *s == sheet) {
                    Some((.., known, _)) if known == class => rec.class("style used again", true),
                    Some((.., known, _)) => {
                        return Err(format!("element {id} has class {class}, the same style was {known} elsewhere"))
                    }
                    None => {
                        if let Some((m, _, _, st)) = classes.iter().find(|(_, _, k, _)| k == class) {
                            return Err(format!("element {id} of {:?} from {:?} has class {class} of {st:?} from {m:?}", u.st, u.mgr));
                        }
                        classes.push((u.mgr, sheet.clone(), class.clone(), u.st));
                    }
                }
            }
        }
        page_uses.push((all, seen));
    }

    // They are those of the managers.
    for (m, sheet, class, _) in &classes {
        let id = id_of(sheet, m.map(|i| &mgrs[i]), false);
        if id != *class {
            return Err(format!("manager {m:?} calls a style {id} which has class {class} in the page"));
        }
    }

    // What was captured is what was used.
    let mut captured: Vec<BTreeSet<String>> = vec![];
    for (i, r) in readers.into_iter().enumerate() {
        let Some(r) = r else {
            captured.push(BTreeSet::new());
            continue;
        };
        let mut markup = String::new();
        r.read_style_data().write_static_markup(&mut markup).unwrap();
        let styles = html::style_elements(&markup)?;
        let mut want: BTreeMap<&str, St> = BTreeMap::new();
        for (m, _, class, st) in &classes {
            if *m == Some(i) {
                want.insert(class, *st);
            }
        }
        let mut want_globals: Vec<St> = globals.iter().filter(|(m, ..)| *m == Some(i)).map(|(.., st)| *st).collect();
        let mut seen = BTreeSet::new();
        for (id, text) in &styles {
            if !seen.insert(id.clone()) {
                return Err(format!("{id} was captured twice"));
            }
            if let Some(st) = want.remove(id.as_str()) {
                same_css(text, &st.css(Some(id)))?;
                continue;
            }
            let k = want_globals.iter().position(|st| same_css(text, &st.css(None)).is_ok());
            match k {
                Some(k) => drop(want_globals.swap_remove(k)),
                None => return Err(format!("manager {i} captured {id} which no component used (or used once only): {text}")),
            }
        }
        if let Some((class, st)) = want.into_iter().next() {
            return Err(format!("manager {i} did not capture {class} ({st:?})"));
        }
        if let Some(st) = want_globals.first() {
            return Err(format!("manager {i} did not capture the global style {st:?}"));
        }
        captured.push(seen);
    }

    // What the pages tell the client is enough for it to use the same classes.
    if c.hydratable {
        for (all, seen) in &page_uses {
            let clients: Vec<StyleManager> = mgrs
                .iter()
                .map(|m| StyleManager::builder().prefix(m.prefix()).build().unwrap())
                .collect();
            let providers = all.iter().filter_map(|u| u.provider).collect::<BTreeSet<_>>();
            for p in providers {
                let state = seen.states.get(&p).ok_or_else(|| format!("provider {p} has no page state"))?;
                let data = decode(state)?;
                let inside: Vec<&Use> = all.iter().filter(|u| u.provider == Some(p)).collect();
                let i = inside[0].mgr.unwrap();
                if i + 1 == n {
                    continue;
                }
                clients[i].load_style_data(&data);
                for u in inside {
                    let sheet = u.syntax.sheet(u.st);
                    let id = id_of(&sheet, Some(&clients[i]), u.elem.is_none());
                    let known = match u.elem {
                        Some(e) => seen.classes[&e][0] == id,
                        None => captured[i].contains(&id),
                    };
                    if !known {
                        return Err(format!("hydrating {p}: the client calls {u:?} {id}, which the server did not"));
                    }
                    rec.class("hydrated", true);
                }
            }
        }
    }

    let used: BTreeSet<Option<usize>> = classes.iter().map(|(m, ..)| *m).collect();
    rec.class("several managers", used.len() > 1);
    rec.class("several pages", pages.len() > 1);
    rec.class("outside of any provider", used.contains(&None));
    rec.class("global styles", !globals.is_empty());
    rec.nontrivial(used.iter().flatten().count() > 0 && classes.len() > 1);
    Ok(())
}

pub fn c11() {
    let mut c = Check::new(
        "C11",
        "random trees of providers, elements styled in seventeen ways, global styles and suspending components, one or \
         several pages rendered one after the other or at the same time with the same managers; classes in the HTML, \
         captured styles and page state are compared with a model of the tree; non-trivial: at least two distinct styles, \
         one of them from a provider's manager",
    );
    c.assume("component functions are those of the harness; what varies are the trees, styles, managers and schedules");
    c.sub("pages", (40_000, 400_000), cases, |case, rec| {
        vcommon::run::catch(|| check(case, rec)).unwrap_or_else(|p| Err(format!("panicked: {p}")))
    });
    c.finish()
}
