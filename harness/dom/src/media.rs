//! C22: media queries in a mounted application.

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use stylist::yew::{use_media_query, use_prepared_media_query, use_style};
use vcommon::html;
use vcommon::run::{Check, Rec};
use wasm_bindgen::JsCast;
use web_sys::{fake, Element, Node as DomNode};
use yew::prelude::*;
use yew::suspense::SuspensionResult;
use yew::{AppHandle, LocalServerRenderer, Renderer};

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    tokio::task::LocalSet::new().block_on(&rt, f)
}

/// Lets everything that was spawned run.
pub async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}

const QUERIES: &[&str] = &[
    "print",
    "(min-width: 100px)",
    "screen and (max-width: 500px)",
    "(prefers-color-scheme: dark)",
    "",
];

fn query(q: u8) -> &'static str {
    QUERIES[q as usize % QUERIES.len()]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
enum Kind {
    One,
    Two,
    InHook,
    /// Between other hooks.
    Mixed,
    /// The component also counts its renderings, through a state of its own.
    Busy,
    Prepared,
    PreparedTwo,
    /// A prepared one and one that is not.
    Both,
}

impl Kind {
    const LIVE: &'static [Kind] = &[Kind::One, Kind::Two, Kind::InHook, Kind::Mixed, Kind::Busy];
    const PREPARED: &'static [Kind] = &[Kind::Prepared, Kind::PreparedTwo];

    fn n(self) -> usize {
        match self {
            Kind::One | Kind::Prepared | Kind::Busy => 1,
            _ => 2,
        }
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
struct Item {
    key: u32,
    kind: Kind,
    /// Query and fallback of two calls.
    calls: [(u8, bool); 2],
    /// Shows its children only if the first call matches.
    gate: bool,
    kids: Vec<Item>,
}

#[derive(Properties, Clone, PartialEq)]
struct P {
    item: Item,
    nonce: u32,
}

impl P {
    fn q(&self, i: usize) -> &'static str {
        query(self.item.calls[i].0)
    }
    fn f(&self, i: usize) -> bool {
        self.item.calls[i].1
    }
    fn show(&self, got: &[bool]) -> Html {
        let kids = if self.item.gate && !got[0] { html! {} } else { view(&self.item.kids, self.nonce) };
        html! { <><i data-n={self.item.key.to_string()}>{format!("{got:?}")}</i><b>{self.nonce}</b>{kids}</> }
    }
}

#[component]
fn One(p: &P) -> Html {
    let a = use_media_query(p.q(0));
    p.show(&[a])
}

#[component]
fn Two(p: &P) -> Html {
    let a = use_media_query(p.q(0));
    let b = use_media_query(p.q(1));
    p.show(&[a, b])
}

#[hook]
fn use_two(p: &P) -> (bool, bool) {
    (use_media_query(p.q(0)), use_media_query(p.q(1)))
}

#[component]
fn InHook(p: &P) -> Html {
    let (a, b) = use_two(p);
    p.show(&[a, b])
}

#[component]
fn Mixed(p: &P) -> Html {
    let s = use_state(|| p.nonce);
    let a = use_media_query(p.q(0));
    let _ = use_style("color: red;");
    let m = use_memo(p.nonce, |n| *n);
    let b = use_media_query(p.q(1));
    assert!(*s <= *m);
    p.show(&[a, b])
}

#[component]
fn Busy(p: &P) -> Html {
    let s = use_state(|| 0);
    let a = use_media_query(p.q(0));
    let at = s.clone();
    use_effect_with((p.nonce, a), move |_| at.set(*at + 1));
    p.show(&[a])
}

#[component]
fn Prepared(p: &P) -> HtmlResult {
    let a = use_prepared_media_query(p.q(0), p.f(0))?;
    Ok(p.show(&[a]))
}

#[hook]
fn use_two_prepared(p: &P) -> SuspensionResult<(bool, bool)> {
    Ok((use_prepared_media_query(p.q(0), p.f(0))?, use_prepared_media_query(p.q(1), p.f(1))?))
}

#[component]
fn PreparedTwo(p: &P) -> HtmlResult {
    let (a, b) = use_two_prepared(p)?;
    Ok(p.show(&[a, b]))
}

#[component]
fn Both(p: &P) -> HtmlResult {
    let b = use_media_query(p.q(1));
    let a = use_prepared_media_query(p.q(0), p.f(0))?;
    Ok(p.show(&[a, b]))
}

fn view(items: &[Item], nonce: u32) -> Html {
    items
        .iter()
        .map(|item| {
            let key = item.key;
            let item = item.clone();
            // In an element of its own, see tree.rs.
            let html = match item.kind {
                Kind::One => html! { <One {item} {nonce} /> },
                Kind::Two => html! { <Two {item} {nonce} /> },
                Kind::InHook => html! { <InHook {item} {nonce} /> },
                Kind::Mixed => html! { <Mixed {item} {nonce} /> },
                Kind::Busy => html! { <Busy {item} {nonce} /> },
                Kind::Prepared => html! { <Prepared {item} {nonce} /> },
                Kind::PreparedTwo => html! { <PreparedTwo {item} {nonce} /> },
                Kind::Both => html! { <Both {item} {nonce} /> },
            };
            html! { <section {key}>{html}</section> }
        })
        .collect()
}

#[derive(Properties, Clone, PartialEq)]
struct AppProps {
    items: Vec<Item>,
    nonce: u32,
}

#[component]
fn App(p: &AppProps) -> Html {
    let items = view(&p.items, p.nonce);
    html! { <Suspense><main>{items}</main></Suspense> }
}

/// What must be shown, and which queries may be listened to.
fn model(items: &[Item], shown: &mut BTreeMap<u32, String>, queries: &mut Vec<String>) {
    for i in items {
        let got: Vec<bool> = (0..i.kind.n()).map(|c| fake::media_matches(query(i.calls[c].0))).collect();
        shown.insert(i.key, format!("{got:?}"));
        queries.extend((0..i.kind.n()).map(|c| query(i.calls[c].0).to_string()));
        if !i.gate || got[0] {
            model(&i.kids, shown, queries);
        }
    }
}

fn look(root: &DomNode, out: &mut BTreeMap<u32, String>) -> Result<(), String> {
    let l = root.child_nodes();
    for n in (0..l.length()).filter_map(|i| l.get(i)) {
        if let Some(key) = n.dyn_ref::<Element>().and_then(|e| e.get_attribute("data-n")) {
            let text = n.text_content().unwrap_or_default();
            if out.insert(key.parse().unwrap(), text).is_some() {
                return Err(format!("component {key} is shown twice"));
            }
        } else {
            look(&n, out)?;
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// A media query begins or stops to match; the browser may tell later.
    Set { query: u8, on: bool, tell: bool },
    /// Several at a time.
    SetAll { bits: u8 },
    Query { at: u8, call: u8, query: u8 },
    /// The queries of the two calls change places.
    Swap { at: u8 },
    Fallback { at: u8, call: u8 },
    Gate { at: u8 },
    Add { at: u8, kind: u8, calls: [(u8, bool); 2], gate: bool, inside: bool },
    Remove { at: u8 },
    Move { from: u8, to: u8 },
    Kind { at: u8, kind: u8 },
    Render,
    /// The whole application is unmounted and mounted again.
    Restart,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    media: u8,
    items: Vec<Item>,
    /// What happens, and whether the application comes to rest before the next.
    ops: Vec<(Op, bool)>,
    /// What matches when a page from the server is hydrated.
    hydrate: Option<u8>,
}

fn kinds(live: bool) -> Vec<Kind> {
    let mut k = Kind::PREPARED.to_vec();
    if live {
        k.extend(Kind::LIVE);
        k.push(Kind::Both);
    }
    k
}

fn calls() -> impl Strategy<Value = [(u8, bool); 2]> {
    let call = || (0..QUERIES.len() as u8, any::<bool>());
    [call(), call()]
}

fn op() -> BoxedStrategy<Op> {
    let q = 0..QUERIES.len() as u8;
    let any8 = any::<u8>;
    prop_oneof![
        6 => (q.clone(), any::<bool>(), prop_oneof![3 => Just(true), 1 => Just(false)])
            .prop_map(|(query, on, tell)| Op::Set { query, on, tell }),
        1 => any8().prop_map(|bits| Op::SetAll { bits }),
        4 => (any8(), 0..2u8, q).prop_map(|(at, call, query)| Op::Query { at, call, query }),
        1 => any8().prop_map(|at| Op::Swap { at }),
        1 => (any8(), 0..2u8).prop_map(|(at, call)| Op::Fallback { at, call }),
        1 => any8().prop_map(|at| Op::Gate { at }),
        3 => (any8(), any8(), calls(), any::<bool>(), any::<bool>())
            .prop_map(|(at, kind, calls, gate, inside)| Op::Add { at, kind, calls, gate, inside }),
        2 => any8().prop_map(|at| Op::Remove { at }),
        1 => (any8(), any8()).prop_map(|(from, to)| Op::Move { from, to }),
        1 => (any8(), any8()).prop_map(|(at, kind)| Op::Kind { at, kind }),
        2 => Just(Op::Render),
        1 => Just(Op::Restart),
    ]
    .boxed()
}

fn cases(hydrate: bool) -> BoxedStrategy<Case> {
    let allowed = kinds(!hydrate);
    let item = (any::<prop::sample::Index>(), calls(), any::<bool>())
        .prop_map(move |(k, calls, gate)| Item { key: 0, kind: *k.get(&allowed), calls, gate, kids: vec![] });
    let item = item.prop_recursive(3, 6, 2, |inner| {
        (inner.clone(), vec(inner, 0..3)).prop_map(|(mut i, kids)| {
            i.kids = kids;
            i
        })
    });
    let hydrate = if hydrate { any::<u8>().prop_map(Some).boxed() } else { Just(None).boxed() };
    (any::<u8>(), vec(item, 0..4), vec((op(), prop_oneof![4 => Just(true), 1 => Just(false)]), 0..20), hydrate)
        .prop_map(|(media, mut items, ops, hydrate)| {
            number(&mut items, &mut 0);
            Case { media, items, ops, hydrate }
        })
        .boxed()
}

fn number(items: &mut [Item], n: &mut u32) {
    for i in items {
        *n += 1;
        i.key = *n;
        number(&mut i.kids, n);
    }
}

fn count(items: &[Item]) -> usize {
    items.iter().map(|i| 1 + count(&i.kids)).sum()
}

/// An item by number, counted from the front.
fn nth<'a>(items: &'a mut [Item], n: &mut usize) -> Option<&'a mut Item> {
    for i in items {
        if *n == 0 {
            return Some(i);
        }
        *n -= 1;
        if let Some(found) = nth(&mut i.kids, n) {
            return Some(found);
        }
    }
    None
}

fn set_all(bits: u8) {
    for (i, q) in QUERIES.iter().enumerate() {
        fake::set_media(q, bits >> i & 1 == 1);
    }
}

struct World {
    items: Vec<Item>,
    nonce: u32,
    next: u32,
    app: Option<AppHandle<App>>,
    root: Element,
    /// Changes the browser has not told yet.
    pending: bool,
    /// No components that cannot be rendered on a server.
    hydrated: bool,
}

impl World {
    fn props(&self) -> AppProps {
        AppProps { items: self.items.clone(), nonce: self.nonce }
    }

    fn update(&mut self) {
        self.nonce += 1;
        let p = self.props();
        self.app.as_mut().unwrap().update(p);
    }

    fn pick(&mut self, at: u8) -> Option<&mut Item> {
        let n = count(&self.items);
        (n > 0).then(|| nth(&mut self.items, &mut (at as usize % n)))?
    }

    async fn step(&mut self, op: &Op, rec: &mut Rec) {
        match op {
            Op::Set { query: q, on, tell } => {
                rec.class("a match changes", fake::media_matches(query(*q)) != *on && !self.items.is_empty());
                fake::set_media(query(*q), *on);
                self.pending = true;
                if *tell {
                    fake::report_media_changes();
                    self.pending = false;
                }
            }
            Op::SetAll { bits } => {
                set_all(*bits);
                fake::report_media_changes();
                self.pending = false;
            }
            Op::Query { at, call, query: q } => {
                if let Some(i) = self.pick(*at) {
                    let c = *call as usize % i.kind.n();
                    let old = std::mem::replace(&mut i.calls[c].0, *q);
                    rec.class("query changed", fake::media_matches(query(old)) != fake::media_matches(query(*q)));
                }
                self.update();
            }
            Op::Swap { at } => {
                if let Some(i) = self.pick(*at) {
                    i.calls.swap(0, 1);
                }
                self.update();
            }
            Op::Fallback { at, call } => {
                if let Some(i) = self.pick(*at) {
                    i.calls[*call as usize % 2].1 ^= true;
                }
                self.update();
            }
            Op::Gate { at } => {
                if let Some(i) = self.pick(*at) {
                    i.gate ^= true;
                }
                self.update();
            }
            Op::Add { at, kind, calls, gate, inside } => {
                self.next += 1;
                let k = kinds(!self.hydrated);
                let new =
                    Item { key: self.next, kind: k[*kind as usize % k.len()], calls: *calls, gate: *gate, kids: vec![] };
                match self.pick(*at).filter(|_| *inside) {
                    Some(i) => i.kids.push(new),
                    None => {
                        let at = *at as usize % (self.items.len() + 1);
                        self.items.insert(at, new);
                    }
                }
                self.update();
            }
            Op::Remove { at } => {
                fn remove(items: &mut Vec<Item>, key: u32) {
                    items.retain(|i| i.key != key);
                    for i in items {
                        remove(&mut i.kids, key);
                    }
                }
                if let Some(key) = self.pick(*at).map(|i| i.key) {
                    rec.class("unmounted", true);
                    remove(&mut self.items, key);
                }
                self.update();
            }
            Op::Move { from, to } => {
                let n = self.items.len();
                if n > 0 {
                    let i = self.items.remove(*from as usize % n);
                    self.items.insert(*to as usize % n, i);
                }
                self.update();
            }
            Op::Kind { at, kind } => {
                let k = kinds(!self.hydrated);
                if let Some(i) = self.pick(*at) {
                    i.kind = k[*kind as usize % k.len()];
                }
                self.update();
            }
            Op::Render => self.update(),
            Op::Restart => {
                self.app.take().unwrap().destroy();
                settle().await;
                let p = self.props();
                self.app = Some(Renderer::<App>::with_root_and_props(self.root.clone(), p).render());
                // It cannot be destroyed before it was created.
                settle().await;
            }
        }
    }

    fn verify(&self, rec: &mut Rec) -> Result<(), String> {
        if self.pending {
            return Ok(());
        }
        let (mut want, mut queries) = (BTreeMap::new(), vec![]);
        model(&self.items, &mut want, &mut queries);
        let mut got = BTreeMap::new();
        look(&self.root, &mut got)?;
        if got != want {
            return Err(format!("shows {got:?} instead of {want:?}"));
        }
        rec.class("several components", want.len() > 1);
        rec.class("something is hidden", count(&self.items) > want.len());
        listening(&mut queries)
    }
}

fn listening(queries: &mut Vec<String>) -> Result<(), String> {
    let all = fake::media_listeners();
    for l in &all {
        match queries.iter().position(|q| q == l) {
            Some(i) => {
                queries.swap_remove(i);
            }
            None => return Err(format!("still listens to {l:?}, all listeners: {all:?}")),
        }
    }
    Ok(())
}

fn document_element() -> Element {
    let d = web_sys::window().unwrap().document().unwrap();
    d.create_element("div").unwrap()
}

/// Builds what a browser makes of the HTML.
pub fn build(nodes: &[html::Node], parent: &DomNode) {
    let d = web_sys::window().unwrap().document().unwrap();
    for n in nodes {
        match n {
            html::Node::Text(t) => {
                parent.append_child(&d.create_text_node(t)).unwrap();
            }
            html::Node::Comment(t) => {
                parent.append_child(&d.create_comment(t)).unwrap();
            }
            html::Node::Element { name, attrs, children } => {
                let e = d.create_element(name).unwrap();
                for (k, v) in attrs {
                    e.set_attribute(k, v).unwrap();
                }
                build(children, &e);
                parent.append_child(&e).unwrap();
            }
        }
    }
}

async fn run(case: &Case, rec: &mut Rec) -> Result<(), String> {
    fake::reset();
    set_all(case.media);
    let props = AppProps { items: case.items.clone(), nonce: 0 };
    let mut page = None;
    if case.hydrate.is_some() {
        fake::set_window(false);
        page = Some(LocalServerRenderer::<App>::with_props(props.clone()).render().await);
        fake::set_window(true);
    }
    let root = document_element();
    web_sys::window().unwrap().document().unwrap().body().unwrap().append_child(&root).unwrap();
    let app = match page {
        Some(page) => {
            build(&html::parse(&page)?, &root);
            let app = Renderer::<App>::with_root_and_props(root.clone(), props).hydrate();
            if let Some(bits) = case.hydrate {
                // It changes while the page is loading.
                set_all(bits);
                fake::report_media_changes();
            }
            settle().await;
            app
        }
        None => {
            let app = Renderer::<App>::with_root_and_props(root.clone(), props).render();
            settle().await;
            app
        }
    };
    let mut w = World {
        items: case.items.clone(),
        nonce: 0,
        next: 1000,
        app: Some(app),
        root,
        pending: false,
        hydrated: case.hydrate.is_some(),
    };
    let mut out = w.verify(rec).map_err(|e| format!("at first: {e}"));
    for (i, (op, rest)) in case.ops.iter().enumerate() {
        if out.is_err() {
            break;
        }
        w.step(op, rec).await;
        if *rest {
            settle().await;
            out = w.verify(rec).map_err(|e| format!("step {i} ({op:?}): {e}"));
        }
    }
    if out.is_ok() {
        settle().await;
        out = w.verify(rec).map_err(|e| format!("at last: {e}"));
    }
    w.app.take().unwrap().destroy();
    settle().await;
    out?;
    listening(&mut vec![]).map_err(|e| format!("at the end: {e}"))?;
    // Nobody is told any more.
    set_all(0b10101);
    fake::report_media_changes();
    set_all(0b01010);
    fake::report_media_changes();
    match fake::take_errors().as_slice() {
        [] => Ok(()),
        e => Err(e.join("; ")),
    }
}

fn check(case: &Case, rec: &mut Rec) -> Result<(), String> {
    let own = case.clone();
    vcommon::run::isolated(move |rec| block_on(run(&own, rec)), rec)?;
    let items = count(&case.items);
    rec.class("hydrated components", case.hydrate.is_some() && items > 0);
    rec.nontrivial(
        case.ops.iter().any(|(o, _)| matches!(o, Op::Set { .. } | Op::SetAll { .. } | Op::Query { .. }))
            && (items > 0 || case.ops.iter().any(|(o, _)| matches!(o, Op::Add { .. }))),
    );
    Ok(())
}

pub fn c22() {
    let c = Check::new(
        "C22",
        "random histories of an application with nested components that use the media-query hooks: matches change, \
         told at once or later, queries change, components are added, removed, moved, hidden and shown; after each \
         step what is shown is compared with what matches, and what is listened to with what is used; non-trivial: \
         a component is mounted, and a match or a query changes",
    );
    c.sub("mounted", (30_000, 300_000), || cases(false), check);
    c.sub("hydrated", (15_000, 200_000), || cases(true), check);
    c.finish()
}
