//! C24: trees of components in the browser.

use crate::media::{build, settle};
use crate::tree::{self, Counter, GlobalHow, How, Node, PageProps, St};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use stylist::ast::Sheet;
use stylist::manager::{render_static, StyleManager};
use stylist::Style;
use vcommon::run::{Check, Rec};
use vcommon::{css, html};
use wasm_bindgen::JsCast;
use web_sys::{fake, Element, Node as DomNode};
use yew::prelude::*;
use yew::{LocalServerRenderer, Renderer};

/// The tree, below something that can wait for the state of the page.
#[component]
fn App(p: &PageProps) -> Html {
    let html = tree::view(&p.nodes, &p.mgrs, &mut Counter::default());
    html! { <Suspense><main>{html}</main></Suspense> }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Style { at: u8, st: St },
    How { at: u8, how: u8 },
    Manager { at: u8, mgr: u8 },
    Remove { at: u8 },
    Insert { at: u8, node: Node },
    Replace { at: u8, node: Node },
    Swap { at: u8 },
    /// All is shown as it was at first.
    Back,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Vec<Node>,
    /// Edits, and whether to look before the next one.
    edits: Vec<(Edit, bool)>,
    /// Prefix and place of the managers.
    mgrs: Vec<(u8, u8, bool)>,
    hydrate: bool,
    /// The managers that do not write on the server.
    silent: u8,
}

const PREFIXES: &[&str] = &["stylist", "app", "x-"];

fn st() -> BoxedStrategy<St> {
    (0..5u8, 0..5u8, 0..2u8, 0..3u8)
        .prop_map(|(v, s, m, q)| St { v, s, m, q })
        .boxed()
}

fn node(pool: Vec<St>) -> BoxedStrategy<Node> {
    let s = {
        let pool = pool.clone();
        move || prop_oneof![6 => select(pool.clone()), 1 => st()]
    };
    let leaf = prop_oneof![
        3 => (select(How::ALL), s(), 0..4u8)
            .prop_map(|(how, st, under)| Node::Elem { how, st, under, kids: vec![] }),
        2 => (select(GlobalHow::ALL), s()).prop_map(|(how, st)| Node::Global { how, st }),
        // Nothing the server could bring.
        1 => (s(), 0..2u8, any::<bool>()).prop_map(|(st, v, back)| Node::Flip { st, to: St { v, s: 0, m: 5, q: 0 }, back }),
    ];
    leaf.prop_recursive(3, 12, 3, move |inner| {
        let kids = || vec(inner.clone(), 0..4).boxed();
        prop_oneof![
            4 => (0..4u8, kids()).prop_map(|(mgr, kids)| Node::Provider { mgr, kids }),
            2 => (select(How::ALL), s(), 0..4u8, kids())
                .prop_map(|(how, st, under, kids)| Node::Elem { how, st, under, kids }),
            1 => (0..3u8, kids()).prop_map(|(times, kids)| Node::Suspend { times, kids }),
            1 => kids().prop_map(Node::Fragment),
        ]
    })
    .boxed()
}

fn edit(pool: Vec<St>) -> BoxedStrategy<Edit> {
    let any8 = any::<u8>;
    let n = node(pool.clone());
    prop_oneof![
        4 => (any8(), prop_oneof![3 => select(pool), 1 => st()]).prop_map(|(at, st)| Edit::Style { at, st }),
        1 => (any8(), any8()).prop_map(|(at, how)| Edit::How { at, how }),
        3 => (any8(), 0..4u8).prop_map(|(at, mgr)| Edit::Manager { at, mgr }),
        2 => any8().prop_map(|at| Edit::Remove { at }),
        2 => (any8(), n.clone()).prop_map(|(at, node)| Edit::Insert { at, node }),
        1 => (any8(), n).prop_map(|(at, node)| Edit::Replace { at, node }),
        1 => any8().prop_map(|at| Edit::Swap { at }),
        1 => Just(Edit::Back),
    ]
    .boxed()
}

fn cases(hydrate: bool) -> BoxedStrategy<Case> {
    vec(st(), 1..4)
        .prop_flat_map(move |pool| {
            let mgr = (0..3u8, 0..4u8, any::<bool>());
            (
                vec(node(pool.clone()), 0..4),
                vec((edit(pool), prop_oneof![4 => Just(true), 1 => Just(false)]), 0..8),
                vec(mgr, 1..4),
                prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
                prop_oneof![
                    24 => Just(None),
                    1 => (any::<u8>(), any::<u8>(), prop_oneof![2 => 1..20u8, 1 => 20..60u8]).prop_map(Some),
                ],
            )
        })
        .prop_map(move |(mut tree, edits, mgrs, silent, big)| {
            if let Some((what, how, n)) = big {
                tree::grow(&mut tree, what, how, n);
            }
            Case { tree, edits, mgrs, hydrate, silent }
        })
        .boxed()
}

fn count(nodes: &[Node]) -> usize {
    nodes.iter().map(|n| 1 + kids(n).map_or(0, |k| count(k))).sum()
}

fn kids(n: &Node) -> Option<&Vec<Node>> {
    match n {
        Node::Provider { kids, .. } | Node::Elem { kids, .. } | Node::Suspend { kids, .. } | Node::Fragment(kids) => Some(kids),
        Node::Global { .. } | Node::Flip { .. } => None,
    }
}

fn kids_mut(n: &mut Node) -> Option<&mut Vec<Node>> {
    match n {
        Node::Provider { kids, .. } | Node::Elem { kids, .. } | Node::Suspend { kids, .. } | Node::Fragment(kids) => Some(kids),
        Node::Global { .. } | Node::Flip { .. } => None,
    }
}

/// Does something to a node, given its list and its place there.
fn with(nodes: &mut Vec<Node>, n: &mut usize, f: &mut dyn FnMut(&mut Vec<Node>, usize)) -> bool {
    let mut i = 0;
    while i < nodes.len() {
        if *n == 0 {
            f(nodes, i);
            return true;
        }
        *n -= 1;
        if kids_mut(&mut nodes[i]).is_some_and(|k| with(k, n, f)) {
            return true;
        }
        i += 1;
    }
    false
}

fn apply(tree: &mut Vec<Node>, first: &[Node], e: &Edit) {
    let n = count(tree);
    let at = match e {
        Edit::Back => return *tree = first.to_vec(),
        Edit::Insert { node, .. } if n == 0 => return tree.push(node.clone()),
        _ if n == 0 => return,
        Edit::Style { at, .. } | Edit::How { at, .. } | Edit::Manager { at, .. } => {
            // The first node from there on that has one.
            let has = |l: &mut Vec<Node>, i: usize| match (e, &l[i]) {
                (Edit::Manager { .. }, Node::Provider { .. }) => true,
                (Edit::Manager { .. }, Node::Elem { how, .. }) => how.passes(),
                (Edit::Manager { .. }, _) => false,
                (_, Node::Elem { .. } | Node::Global { .. } | Node::Flip { .. }) => true,
                _ => false,
            };
            let mut found = None;
            for k in 0..n {
                let at = (*at as usize + k) % n;
                let mut yes = false;
                with(tree, &mut at.clone(), &mut |l, i| yes = has(l, i));
                if yes {
                    found = Some(at);
                    break;
                }
            }
            match found {
                Some(at) => at,
                None => return,
            }
        }
        Edit::Remove { at } | Edit::Insert { at, .. } | Edit::Replace { at, .. } | Edit::Swap { at } => *at as usize % n,
    };
    with(tree, &mut at.clone(), &mut |l, i| match (e, &mut l[i]) {
        (Edit::Style { st: new, .. }, Node::Elem { st, .. } | Node::Global { st, .. } | Node::Flip { st, .. }) => *st = *new,
        (Edit::How { how: new, .. }, Node::Elem { how, .. }) => *how = How::ALL[*new as usize % How::ALL.len()],
        (Edit::How { how: new, .. }, Node::Global { how, .. }) => {
            *how = GlobalHow::ALL[*new as usize % GlobalHow::ALL.len()]
        }
        (Edit::Manager { mgr: new, .. }, Node::Provider { mgr, .. }) => *mgr = *new,
        (Edit::Manager { mgr: new, .. }, Node::Elem { under, .. }) => *under = *new,
        (Edit::Remove { .. }, _) => drop(l.remove(i)),
        (Edit::Insert { node, .. }, _) => l.insert(i, node.clone()),
        (Edit::Replace { node, .. }, old) => *old = node.clone(),
        (Edit::Swap { .. }, _) => {
            let j = (i + 1) % l.len();
            l.swap(i, j)
        }
        _ => {}
    });
}

struct World {
    mgrs: Vec<StyleManager>,
    containers: Vec<DomNode>,
    root: Element,
    /// What the server wrote: style elements that are in the head, of which manager.
    served: BTreeMap<String, usize>,
    /// Scoped styles and their manager, as far as they were in use.
    known: Vec<(Option<usize>, Sheet, String, St)>,
    /// Those of trees that were there only for a moment.
    passing: Vec<(usize, St)>,
}

fn document() -> web_sys::Document {
    web_sys::window().unwrap().document().unwrap()
}

fn children(n: &DomNode) -> Vec<DomNode> {
    let l = n.child_nodes();
    (0..l.length()).filter_map(|i| l.get(i)).collect()
}

fn classes(n: &DomNode, out: &mut BTreeMap<usize, Vec<String>>) {
    for n in children(n) {
        if let Some(e) = n.dyn_ref::<Element>() {
            if let Some(id) = e.get_attribute("data-n") {
                let own = e.get_attribute("class").unwrap_or_default();
                // The location of the macro is added for debugging.
                let own: Vec<&str> = own.split_ascii_whitespace().filter(|c| !c.contains(".rs:")).collect();
                out.entry(id.parse().unwrap()).or_default().push(own.join(" "));
            }
        }
        classes(&n, out);
    }
}

fn style_elements(n: &DomNode) -> Vec<(String, String)> {
    children(n)
        .iter()
        .filter_map(|n| n.dyn_ref::<Element>().cloned())
        .filter(|e| e.tag_name() == "STYLE")
        .map(|e| (e.get_attribute("data-style").unwrap_or_default(), e.text_content().unwrap_or_default()))
        .collect()
}

fn same_css(got: &str, want: &str) -> Result<(), String> {
    let read = |s: &str| css::read(s).map(|m| m.iter().map(css::Ev::unescaped).collect::<Vec<_>>());
    match css::diff(&read(want)?, &read(got)?) {
        Some(d) => Err(format!("the CSS is {got:?} instead of {want:?}: {d}")),
        None => Ok(()),
    }
}

impl World {
    fn verify(&mut self, tree: &[Node], rec: &mut Rec) -> Result<(), String> {
        let n = self.mgrs.len();
        let mut uses = vec![];
        tree::uses(tree, n, (None, None), &mut Counter::default(), &mut uses);
        let mut shown = BTreeMap::new();
        classes(self.root.as_ref(), &mut shown);
        let elems: BTreeSet<usize> = uses.iter().filter_map(|u| u.elem).collect();
        if shown.keys().copied().collect::<BTreeSet<_>>() != elems {
            return Err(format!("shows the elements {:?} instead of {elems:?}", shown.keys()));
        }
        // Before anything is created here.
        let mounted: Vec<Vec<(String, String)>> = self.containers.iter().map(style_elements).collect();
        let mut globals: Vec<Vec<St>> = vec![vec![]; n];
        for u in &uses {
            let sheet = u.syntax.sheet(u.st);
            let Some(id) = u.elem else {
                if let Some(m) = u.mgr {
                    globals[m].push(u.then.unwrap_or(u.st));
                }
                continue;
            };
            for class in &shown[&id] {
                match self.known.iter().find(|(m, s, ..)| *m == u.mgr && *s == sheet) {
                    Some((_, _, known, _)) if known == class => rec.class("style used again", true),
                    Some((_, _, known, _)) => return Err(format!("element {id} has class {class} instead of {known}")),
                    None => {
                        if class.is_empty() || class.contains(' ') || self.known.iter().any(|k| k.2 == *class) {
                            return Err(format!("element {id} has class {class:?}"));
                        }
                        let mgr = u.mgr.map(|m| self.mgrs[m].clone()).unwrap_or_default();
                        let s = Style::new_with_manager(sheet.clone(), mgr).map_err(|e| e.to_string())?;
                        if **s.id() != **class {
                            return Err(format!("element {id} has class {class}, its manager calls it {}", s.id()));
                        }
                        self.known.push((u.mgr, sheet.clone(), class.clone(), u.st));
                    }
                }
            }
        }
        // Every style is mounted once, where it should be.
        let mut found: Vec<BTreeSet<String>> = vec![BTreeSet::new(); self.known.len()];
        for (c, list) in mounted.iter().enumerate() {
            let mut ids = BTreeSet::new();
            for (id, text) in list {
                if !ids.insert(id) {
                    return Err(format!("{id} is mounted twice"));
                }
                let mgr = |m: usize| match self.served.get(id) {
                    Some(s) => *s == m && c == n,
                    None => c == m,
                };
                if let Some(k) = self.known.iter().position(|k| k.2 == *id) {
                    let (owner, _, _, st) = &self.known[k];
                    if let Some(m) = owner {
                        if !mgr(*m) {
                            return Err(format!("{id} of manager {m} is mounted in container {c}"));
                        }
                    }
                    same_css(text, &st.css(Some(id)))?;
                    found[k].insert(id.clone());
                    rec.class("brought by the server", self.served.contains_key(id));
                    continue;
                }
                // A global style that is mounted, or something the server brought that was not used yet.
                let global = (0..n).any(|m| mgr(m) && globals[m].iter().any(|st| same_css(text, &st.css(None)).is_ok()));
                let waiting = self.served.contains_key(id) && !text.contains(":root");
                let passing = self.passing.iter().any(|(m, st)| mgr(*m) && same_css(text, &st.css(Some(id))).is_ok());
                if !global && !waiting && !passing {
                    return Err(format!("{id} is mounted in container {c}, which nothing uses: {text}"));
                }
            }
        }
        for (k, (m, _, id, _)) in self.known.iter().enumerate() {
            if m.is_some() && found[k].is_empty() {
                return Err(format!("{id} of manager {m:?} is not mounted"));
            }
        }
        for (m, list) in globals.iter().enumerate() {
            for st in list {
                let there = mounted.iter().enumerate().any(|(c, l)| {
                    l.iter().any(|(id, text)| {
                        let place = if self.served.get(id) == Some(&m) { n } else { m };
                        c == place && same_css(text, &st.css(None)).is_ok()
                    })
                });
                if !there {
                    return Err(format!("the global style {st:?} of manager {m} is not mounted"));
                }
                rec.class("global styles", true);
            }
        }
        let used: BTreeSet<Option<usize>> = uses.iter().map(|u| u.mgr).collect();
        rec.class("several managers", used.len() > 1);
        rec.nontrivial(!elems.is_empty() && used.iter().any(|m| m.is_some()));
        Ok(())
    }
}

async fn run(case: &Case, rec: &mut Rec) -> Result<(), String> {
    // That of the thread stays with the document it has first seen.
    drop(StyleManager::default());
    fake::reset();
    let d = document();
    let (body, head) = (d.body().unwrap(), d.head().unwrap());
    let root = d.create_element("div").unwrap();
    body.append_child(&root).unwrap();
    let mut containers: Vec<DomNode> = vec![];
    let mut mgrs = vec![];
    let mut hosts = vec![];
    for (prefix, place, append) in &case.mgrs {
        let e = d.create_element("div").unwrap();
        let c: DomNode = match place % 3 {
            0 => {
                body.append_child(&e).unwrap();
                fake::attach_shadow(&e).into()
            }
            1 => {
                head.append_child(&e).unwrap();
                e.clone().into()
            }
            _ => {
                body.append_child(&e).unwrap();
                e.clone().into()
            }
        };
        hosts.push(e);
        mgrs.push(
            StyleManager::builder()
                .prefix(PREFIXES[*prefix as usize % 3].into())
                .container(c.clone())
                .append(*append)
                .build()
                .map_err(|e| e.to_string())?,
        );
        containers.push(c);
    }
    containers.push(head.clone().into());
    let mut w = World { mgrs, containers, root: root.clone(), served: BTreeMap::new(), known: vec![], passing: vec![] };
    let props = |nodes: &[Node], mgrs: &[StyleManager]| PageProps { nodes: nodes.to_vec(), mgrs: mgrs.to_vec() };

    let mut tree = case.tree.clone();
    let renderer = Renderer::<App>::with_root_and_props(root.clone(), props(&tree, &w.mgrs));
    let mut app = if case.hydrate {
        let (servers, readers): (Vec<_>, Vec<_>) = w
            .mgrs
            .iter()
            .enumerate()
            .map(|(i, m)| {
                let b = StyleManager::builder().prefix(m.prefix());
                if case.silent >> i & 1 == 1 {
                    return (b.build().unwrap(), None);
                }
                let (w, r) = render_static();
                (b.writer(w).build().unwrap(), Some(r))
            })
            .unzip();
        let page = LocalServerRenderer::<App>::with_props(props(&tree, &servers)).render().await;
        // They are nowhere near the client.
        drop(servers);
        settle().await;
        build(&html::parse(&page)?, &root);
        for (i, r) in readers.into_iter().enumerate() {
            let Some(r) = r else { continue };
            let mut markup = String::new();
            r.read_style_data().write_static_markup(&mut markup).unwrap();
            for (id, _) in html::style_elements(&markup)? {
                w.served.insert(id, i);
            }
            build(&html::parse(&markup)?, &head);
        }
        let served = w.served.len();
        let mut before = BTreeMap::new();
        classes(root.as_ref(), &mut before);
        let app = renderer.hydrate();
        settle().await;
        // Those of managers that wrote are not to be new.
        let mut uses = vec![];
        tree::uses(&tree, w.mgrs.len(), (None, None), &mut Counter::default(), &mut uses);
        let mut after = BTreeMap::new();
        classes(root.as_ref(), &mut after);
        for u in &uses {
            let (Some(e), Some(m)) = (u.elem, u.mgr) else { continue };
            if case.silent >> m & 1 == 0 && before.get(&e) != after.get(&e) {
                return Err(format!("hydrating made {:?} of {:?}", after.get(&e), before.get(&e)));
            }
        }
        let flips = uses.iter().any(|u| u.then.is_some()) || format!("{tree:?}").contains("Flip");
        for (m, c) in w.containers.iter().enumerate() {
            let all = style_elements(c);
            if flips {
                break;
            }
            if m < w.mgrs.len() {
                if case.silent >> m & 1 == 0 && !all.is_empty() {
                    return Err(format!("hydrating mounted {all:?} in container {m}"));
                }
            } else if all.len() != served {
                return Err(format!("hydrating left {} of {served} style elements", all.len()));
            }
        }
        rec.class("hydrated", served > 0);
        app
    } else {
        let app = renderer.render();
        settle().await;
        app
    };
    let mut out = w.verify(&tree, rec).map_err(|e| format!("at first: {e}"));
    let passing = |tree: &[Node], w: &mut World| {
        let mut uses = vec![];
        tree::uses(tree, w.mgrs.len(), (None, None), &mut Counter::default(), &mut uses);
        w.passing.extend(uses.iter().filter(|u| u.elem.is_some()).filter_map(|u| Some((u.mgr?, u.st))));
    };
    passing(&tree, &mut w);
    for (i, (e, look)) in case.edits.iter().enumerate() {
        if out.is_err() {
            break;
        }
        apply(&mut tree, &case.tree, e);
        app.update(props(&tree, &w.mgrs));
        passing(&tree, &mut w);
        if *look {
            settle().await;
            out = w.verify(&tree, rec).map_err(|e| format!("edit {i}: {e}"));
        }
    }
    if out.is_ok() {
        settle().await;
        out = w.verify(&tree, rec).map_err(|e| format!("after all edits: {e}"));
    }
    app.destroy();
    settle().await;
    if out.is_ok() {
        // Only scoped styles are left.
        out = w.verify(&[], &mut Rec::default()).map_err(|e| format!("unmounted: {e}"));
    }
    w.mgrs.clear();
    out?;
    if let Some(s) = w.containers.iter().flat_map(style_elements).next() {
        return Err(format!("{s:?} is left when all managers are gone"));
    }
    match fake::take_errors().as_slice() {
        [] => Ok(()),
        e => Err(e.join("; ")),
    }
}

fn check(case: &Case, rec: &mut Rec) -> Result<(), String> {
    let case = case.clone();
    vcommon::run::isolated(move |rec| crate::media::block_on(run(&case, rec)), rec)
}

pub fn c24() {
    let c = Check::new(
        "C24",
        "random trees of providers, styled elements, global styles and suspending components that are mounted, or rendered \
         on a server and hydrated, and then edited; after the edits the classes of all elements and the style elements in \
         all containers are compared with a model of the tree; non-trivial: an element is styled by a provider's manager",
    );
    c.sub("mounted", (25_000, 250_000), || cases(false), check);
    c.sub("hydrated", (25_000, 250_000), || cases(true), check);
    c.finish()
}
