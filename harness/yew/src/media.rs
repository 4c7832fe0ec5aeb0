//! C21: prepared media queries, rendered on the server.

use crate::page::block_on;
use base64ct::{Base64, Encoding};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use stylist::yew::{use_prepared_media_query, use_style};
use vcommon::html;
use vcommon::run::{Check, Rec};
use yew::prelude::*;
use yew::suspense::{Suspension, SuspensionResult};
use yew::LocalServerRenderer;

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
enum Kind {
    /// One to four calls in a component.
    Calls(u8),
    /// Two of them in a hook of the user's, called twice.
    InHook,
    /// One in front of, one behind a use_style and a use_state.
    Mixed,
    /// The component suspends first, then calls.
    SuspendsBefore,
    /// The component calls, then suspends, and is rendered again.
    SuspendsAfter,
    /// The fallback of the second call is what the first one returned.
    Chained,
    /// A dozen calls, in hooks of hooks.
    Many,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
enum Node {
    Calls { kind: Kind, calls: Vec<(String, bool)>, kids: Vec<Node> },
    Fragment(Vec<Node>),
}

impl Kind {
    fn n(self) -> usize {
        match self {
            Kind::Calls(n) => n as usize % 4 + 1,
            Kind::InHook => 4,
            Kind::Many => 12,
            Kind::Mixed | Kind::SuspendsBefore | Kind::SuspendsAfter | Kind::Chained => 2,
        }
    }
}

#[derive(Properties, Clone, PartialEq)]
struct P {
    id: usize,
    calls: Vec<(String, bool)>,
    children: Children,
}

impl P {
    fn q(&self, i: usize) -> &str {
        &self.calls[i % self.calls.len()].0
    }
    fn f(&self, i: usize) -> bool {
        self.calls[i % self.calls.len()].1
    }
    fn show(&self, got: &[bool]) -> Html {
        html! { <><i data-n={self.id.to_string()}>{format!("{got:?}")}</i>{self.children.clone()}</> }
    }
}

#[component]
fn One(p: &P) -> HtmlResult {
    let a = use_prepared_media_query(p.q(0), p.f(0))?;
    Ok(p.show(&[a]))
}

#[component]
fn Two(p: &P) -> HtmlResult {
    let a = use_prepared_media_query(p.q(0), p.f(0))?;
    let b = use_prepared_media_query(p.q(1), p.f(1))?;
    Ok(p.show(&[a, b]))
}

#[component]
fn Three(p: &P) -> HtmlResult {
    let a = use_prepared_media_query(p.q(0), p.f(0))?;
    let b = use_prepared_media_query(p.q(1), p.f(1))?;
    let c = use_prepared_media_query(p.q(2), p.f(2))?;
    Ok(p.show(&[a, b, c]))
}

#[component]
fn Four(p: &P) -> HtmlResult {
    let a = use_prepared_media_query(p.q(0), p.f(0))?;
    let b = use_prepared_media_query(p.q(1), p.f(1))?;
    let c = use_prepared_media_query(p.q(2), p.f(2))?;
    let d = use_prepared_media_query(p.q(3), p.f(3))?;
    Ok(p.show(&[a, b, c, d]))
}

#[hook]
fn use_two(p: &P, from: usize) -> SuspensionResult<(bool, bool)> {
    let a = use_prepared_media_query(p.q(from), p.f(from))?;
    let b = use_prepared_media_query(p.q(from + 1), p.f(from + 1))?;
    Ok((a, b))
}

#[component]
fn InHook(p: &P) -> HtmlResult {
    let (a, b) = use_two(p, 0)?;
    let (c, d) = use_two(p, 2)?;
    Ok(p.show(&[a, b, c, d]))
}

#[component]
fn Mixed(p: &P) -> HtmlResult {
    let a = use_prepared_media_query(p.q(0), p.f(0))?;
    let s = use_state(|| 5);
    let _ = use_style("color: red;");
    let b = use_prepared_media_query(p.q(1), p.f(1))?;
    assert_eq!(*s, 5);
    Ok(p.show(&[a, b]))
}

#[hook]
fn use_once_suspended() -> SuspensionResult<()> {
    let done = use_mut_ref(|| false);
    let mut done = done.borrow_mut();
    if *done {
        return Ok(());
    }
    *done = true;
    Err(Suspension::from_future(async { tokio::task::yield_now().await }))
}

#[component]
fn SuspendsBefore(p: &P) -> HtmlResult {
    use_once_suspended()?;
    let a = use_prepared_media_query(p.q(0), p.f(0))?;
    let b = use_prepared_media_query(p.q(1), p.f(1))?;
    Ok(p.show(&[a, b]))
}

#[component]
fn SuspendsAfter(p: &P) -> HtmlResult {
    let a = use_prepared_media_query(p.q(0), p.f(0))?;
    let b = use_prepared_media_query(p.q(1), p.f(1))?;
    use_once_suspended()?;
    Ok(p.show(&[a, b]))
}

#[component]
fn Chained(p: &P) -> HtmlResult {
    let a = use_prepared_media_query(p.q(0), p.f(0))?;
    let b = use_prepared_media_query(p.q(1), a)?;
    Ok(p.show(&[a, b]))
}

#[hook]
fn use_six(p: &P, from: usize) -> SuspensionResult<[bool; 6]> {
    let (a, b) = use_two(p, from)?;
    let c = use_prepared_media_query(p.q(from + 2), p.f(from + 2))?;
    let (d, e) = use_two(p, from + 3)?;
    let f = use_prepared_media_query(p.q(from + 5), p.f(from + 5))?;
    Ok([a, b, c, d, e, f])
}

#[component]
fn Many(p: &P) -> HtmlResult {
    let a = use_six(p, 0)?;
    let b = use_six(p, 6)?;
    Ok(p.show(&[a, b].concat()))
}

fn view(nodes: &[Node], n: &mut usize) -> Html {
    nodes
        .iter()
        .map(|node| match node {
            Node::Fragment(kids) => {
                let kids = view(kids, n);
                html! { <>{kids}</> }
            }
            Node::Calls { kind, calls, kids } => {
                *n += 1;
                let id = *n;
                let kids = view(kids, n);
                let calls = calls.clone();
                let inner = match kind {
                    Kind::Calls(_) => match kind.n() {
                        1 => html! { <One {id} {calls}>{kids}</One> },
                        2 => html! { <Two {id} {calls}>{kids}</Two> },
                        3 => html! { <Three {id} {calls}>{kids}</Three> },
                        _ => html! { <Four {id} {calls}>{kids}</Four> },
                    },
                    Kind::InHook => html! { <InHook {id} {calls}>{kids}</InHook> },
                    Kind::Mixed => html! { <Mixed {id} {calls}>{kids}</Mixed> },
                    Kind::SuspendsBefore => html! { <Suspense><SuspendsBefore {id} {calls}>{kids}</SuspendsBefore></Suspense> },
                    Kind::SuspendsAfter => html! { <Suspense><SuspendsAfter {id} {calls}>{kids}</SuspendsAfter></Suspense> },
                    Kind::Many => html! { <Many {id} {calls}>{kids}</Many> },
                    Kind::Chained => html! { <Chained {id} {calls}>{kids}</Chained> },
                };
                html! { <section data-w={id.to_string()}>{inner}</section> }
            }
        })
        .collect()
}

#[derive(Properties, Clone, PartialEq)]
struct PageProps {
    nodes: Vec<Node>,
}

#[component]
fn Page(p: &PageProps) -> Html {
    let html = view(&p.nodes, &mut 0);
    html! { <main>{html}</main> }
}

fn model(nodes: &[Node], n: &mut usize, out: &mut BTreeMap<usize, Vec<bool>>) {
    for node in nodes {
        match node {
            Node::Fragment(kids) => model(kids, n, out),
            Node::Calls { kind, calls, kids } => {
                *n += 1;
                let mut want: Vec<bool> = (0..kind.n()).map(|i| calls[i % calls.len()].1).collect();
                if *kind == Kind::Chained {
                    want[1] = want[0];
                }
                out.insert(*n, want);
                model(kids, n, out);
            }
        }
    }
}

fn look(nodes: &[html::Node], shown: &mut BTreeMap<usize, String>, states: &mut BTreeMap<usize, String>) {
    for n in nodes {
        if let html::Node::Element { children, name, .. } = n {
            if let Some(id) = n.attr("data-n") {
                if let [html::Node::Text(t)] = children.as_slice() {
                    shown.insert(id.parse().unwrap(), t.clone());
                }
            }
            if let Some(id) = n.attr("data-w") {
                let script = children.iter().rev().find_map(|c| match c {
                    html::Node::Element { name, children, .. } if name == "script" => Some(children),
                    _ => None,
                });
                if let Some([html::Node::Text(t)]) = script.map(|m| m.as_slice()) {
                    states.insert(id.parse().unwrap(), t.clone());
                }
            }
            if name != "script" {
                look(children, shown, states);
            }
        }
    }
}

fn decode(state: &str) -> Result<Vec<bool>, String> {
    state
        .split(',')
        .map(|s| {
            let bytes = Base64::decode_vec(s).map_err(|e| format!("page state {state:?}: {e}"))?;
            let ((v, _), _): ((Option<bool>, Option<()>), usize) =
                bincode::serde::decode_from_slice(&bytes, bincode::config::standard()).map_err(|e| format!("page state {state:?}: {e}"))?;
            v.ok_or_else(|| "empty page state".into())
        })
        .collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// Rendered at the same time.
    pages: Vec<Vec<Node>>,
    hydratable: bool,
}

fn cases() -> BoxedStrategy<Case> {
    let query = || {
        prop_oneof![
            4 => select(&["print", "(min-width: 100px)", "screen and (max-width: 500px)", "(prefers-color-scheme: dark)", "not all"][..])
                .prop_map(str::to_string),
            1 => Just(String::new()),
            1 => "[ -~]{0,12}",
            1 => "\\PC{0,8}",
            1 => "[\\x00-\\x20]{0,3}",
            1 => Just("(((((".repeat(50)),
        ]
    };
    let kind = || {
        prop_oneof![
            4 => any::<u8>().prop_map(Kind::Calls),
            1 => Just(Kind::InHook),
            1 => Just(Kind::Mixed),
            1 => Just(Kind::SuspendsBefore),
            1 => Just(Kind::SuspendsAfter),
            1 => Just(Kind::Chained),
            1 => Just(Kind::Many),
        ]
    };
    let calls = move || {
        let some = |n| vec((query(), any::<bool>()), n);
        prop_oneof![9 => some(1..5), 1 => some(5..14)]
    };
    let leaf = (kind(), calls()).prop_map(|(kind, calls)| Node::Calls { kind, calls, kids: vec![] });
    let node = leaf.prop_recursive(4, 16, 3, move |inner| {
        prop_oneof![
            5 => (kind(), calls(), vec(inner.clone(), 0..4)).prop_map(|(kind, calls, kids)| Node::Calls { kind, calls, kids }),
            1 => vec(inner, 0..4).prop_map(Node::Fragment),
        ]
    });
    let nodes = prop_oneof![19 => vec(node.clone(), 1..4), 1 => vec(node, 4..40)];
    let pages = prop_oneof![4 => vec(nodes.clone(), 1), 1 => vec(nodes, 2..4)];
    (pages, prop_oneof![4 => Just(true), 1 => Just(false)])
        .prop_map(|(pages, hydratable)| Case { pages, hydratable })
        .boxed()
}

fn check(c: &Case, rec: &mut Rec) -> Result<(), String> {
    let hydratable = c.hydratable;
    let render = move |nodes: Vec<Node>| async move {
        LocalServerRenderer::<Page>::with_props(PageProps { nodes }).hydratable(hydratable).render().await
    };
    let html = block_on(async {
        let pages: Vec<_> = c.pages.iter().map(|p| tokio::task::spawn_local(render(p.clone()))).collect();
        let mut html = vec![];
        for p in pages {
            html.push(p.await.map_err(|e| format!("rendering failed: {e}"))?);
        }
        Ok::<_, String>(html)
    })?;
    rec.class("several pages at a time", html.len() > 1);
    c.pages.iter().zip(html).try_for_each(|(nodes, html)| page(nodes, html, rec))
}

fn page(nodes: &[Node], html: String, rec: &mut Rec) -> Result<(), String> {
    let mut want = BTreeMap::new();
    model(nodes, &mut 0, &mut want);
    let (mut shown, mut states) = (BTreeMap::new(), BTreeMap::new());
    look(&html::parse(&html)?, &mut shown, &mut states);
    for (id, fallbacks) in &want {
        let text = format!("{fallbacks:?}");
        match shown.get(id) {
            Some(t) if *t == text => {}
            t => return Err(format!("component {id} shows {t:?} instead of {text}")),
        }
        let state = states.get(id).ok_or_else(|| format!("component {id} has no page state"))?;
        let got = decode(state)?;
        if got != *fallbacks {
            return Err(format!("the page state of component {id} is {got:?} instead of {fallbacks:?}"));
        }
        rec.class("both values in a component", fallbacks.contains(&true) && fallbacks.contains(&false));
    }
    rec.class("several components", want.len() > 1);
    rec.nontrivial(want.values().flatten().any(|m| *m) && want.values().flatten().any(|m| !*m));
    Ok(())
}

pub fn c21() {
    let c = Check::new(
        "C21",
        "random trees of components that call the prepared media-query hook one to four times, directly, in hooks, between \
         other hooks and around suspensions, with random queries and fallbacks; shown values and page state are compared \
         with the fallbacks; non-trivial: both fallbacks occur",
    );
    c.sub("pages", (60_000, 600_000), cases, |case, rec| {
        vcommon::run::catch(|| check(case, rec)).unwrap_or_else(|p| Err(format!("panicked: {p}")))
    });
    c.finish()
}
