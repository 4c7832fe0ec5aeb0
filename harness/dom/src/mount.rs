//! C16 and C23: histories of styles, managers and containers over a document.

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::BTreeMap;
use stylist::manager::{render_static, StyleData, StyleManager};
use stylist::{GlobalStyle, Style};
use vcommon::run::{Check, Rec};
use wasm_bindgen::JsCast;
use web_sys::{fake, Element, Mutation, Node};

/// The head, an element in the body, an element that is nowhere, a shadow root, a shadow root inside
/// of that one, and a text, which cannot contain anything.
const CONTAINERS: usize = 6;
const PREFIXES: &[&str] = &["stylist", "app", "x-"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// A manager; no container means that of the document.
    Manager { prefix: u8, container: Option<u8>, append: bool },
    CloneManager(u8),
    DropManager(u8),
    /// A manager that is given what a server rendered for some styles.
    Hydrate { prefix: u8, container: Option<u8>, append: bool, styles: Vec<(u8, bool)> },
    Create { mgr: u8, style: u8, global: bool },
    CloneStyle(u8),
    DropStyle(u8),
    Unregister(u8),
    /// Something of somebody else is put into a container.
    Foreign { container: u8, at: u8, kind: u8 },
    /// Somebody else removes a node from a container.
    Remove { container: u8, at: u8 },
    /// The second or third container is moved to another place.
    Move { container: u8, there: bool },
    DropAll,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}

fn op(managers: u32) -> BoxedStrategy<Op> {
    let container = || prop_oneof![1 => Just(None), 3 => (0..CONTAINERS as u8).prop_map(Some)];
    // Mostly one of a few.
    let style = || prop_oneof![19 => 0..STYLES, 1 => any::<u8>()];
    let styles = || vec((style(), any::<bool>()), 0..5);
    let some = || any::<u8>();
    prop_oneof![
        managers => (some(), container(), any::<bool>())
            .prop_map(|(prefix, container, append)| Op::Manager { prefix, container, append }),
        1 => some().prop_map(Op::CloneManager),
        managers => some().prop_map(Op::DropManager),
        1 => (some(), container(), any::<bool>(), styles())
            .prop_map(|(prefix, container, append, styles)| Op::Hydrate { prefix, container, append, styles }),
        10 => (some(), style(), prop_oneof![3 => Just(false), 1 => Just(true)])
            .prop_map(|(mgr, style, global)| Op::Create { mgr, style, global }),
        3 => some().prop_map(Op::CloneStyle),
        6 => some().prop_map(Op::DropStyle),
        5 => some().prop_map(Op::Unregister),
        2 => (0..CONTAINERS as u8, some(), 0..5u8).prop_map(|(container, at, kind)| Op::Foreign { container, at, kind }),
        1 => (0..CONTAINERS as u8, some()).prop_map(|(container, at)| Op::Remove { container, at }),
        1 => (1..3u8, any::<bool>()).prop_map(|(container, there)| Op::Move { container, there }),
    ]
    .boxed()
}

fn cases(managers: u32) -> BoxedStrategy<Case> {
    let first = (any::<u8>(), 0..CONTAINERS as u8 + 1, any::<bool>()).prop_map(|(prefix, c, append)| Op::Manager {
        prefix,
        container: (c as usize != CONTAINERS).then_some(c),
        append,
    });
    let many = (any::<u8>(), prop_oneof![7 => 1..70u8, 1 => 70..250u8], any::<bool>())
        .prop_map(|(mgr, n, global)| (STYLES..STYLES.saturating_add(n)).map(|style| Op::Create { mgr, style, global }).collect());
    let many = prop_oneof![24 => Just(vec![]), 1 => many];
    (first, vec(op(managers), 1..40), any::<bool>(), many, any::<u8>())
        .prop_map(|(first, mut ops, all, many, at): (_, Vec<Op>, _, Vec<Op>, _)| {
            let at = at as usize % (ops.len() + 1);
            ops.splice(at..at, many);
            ops.insert(0, first);
            if all {
                ops.push(Op::DropAll);
            }
            Case { ops }
        })
        .boxed()
}

const STYLES: u8 = 6;

fn css(style: u8) -> Cow<'static, str> {
    if style >= STYLES {
        return format!("order: {style};").into();
    }
    [
        "color: red;",
        "color: blue;",
        "p { margin: 0; } color: red;",
        "@media print { content: \"<b>\"; }",
        "content: \"a\\\"b&c\"; &:hover { top: 1px; }",
        "@keyframes é { from { top: 0; } } animation: é;",
    ][style as usize]
        .into()
}

#[derive(Clone)]
enum Handle {
    Scoped(Style),
    Global(GlobalStyle),
}

impl Handle {
    fn new(style: u8, global: bool, mgr: &StyleManager) -> Result<Handle, String> {
        if global {
            GlobalStyle::new_with_manager(css(style), mgr.clone())
                .map(Handle::Global)
                .map_err(|e| e.to_string())
        } else {
            Style::new_with_manager(css(style), mgr.clone())
                .map(Handle::Scoped)
                .map_err(|e| e.to_string())
        }
    }
    fn id(&self) -> String {
        match self {
            Handle::Scoped(s) => s.id().to_string(),
            Handle::Global(s) => s.id().to_string(),
        }
    }
    fn text(&self) -> String {
        match self {
            Handle::Scoped(s) => s.get_style_str().to_string(),
            Handle::Global(s) => s.get_style_str().to_string(),
        }
    }
    fn unregister(&self) {
        match self {
            Handle::Scoped(s) => s.unregister(),
            Handle::Global(s) => s.unregister(),
        }
    }
}

/// A registered style, by number.
struct Live {
    id: String,
    text: String,
    /// How many handles of it there are.
    handles: usize,
    registered: bool,
    /// Its element, and whether somebody else took it away.
    element: Option<Node>,
    /// Where the manager puts it, by number of container.
    container: usize,
    /// Rendered by a server, in the head.
    hydrated: bool,
}

struct Mgr {
    real: Vec<StyleManager>,
    container: usize,
    append: bool,
    prefix: &'static str,
    /// (style, global) -> number of the registered style.
    reg: BTreeMap<(u8, bool), usize>,
}

struct World {
    containers: Vec<Node>,
    /// Expected children.
    children: Vec<Vec<Node>>,
    mgrs: Vec<Mgr>,
    handles: Vec<(Handle, usize)>,
    live: Vec<Live>,
    /// Which manager a style belongs to.
    owner: Vec<usize>,
    // Hosts of shadow roots and their like must not go.
    _keep: Vec<Element>,
}

fn document() -> web_sys::Document {
    web_sys::window().unwrap().document().unwrap()
}

fn foreign(kind: u8) -> Node {
    let d = document();
    match kind % 5 {
        0 => d.create_text_node(" \n").into(),
        1 => d.create_comment("stylist").into(),
        2 => {
            let e = d.create_element("style").unwrap();
            e.set_attribute("data-style", "theirs").unwrap();
            e.set_text_content(Some(".theirs { color: red; }"));
            e.into()
        }
        3 => {
            let e = d.create_element("link").unwrap();
            e.set_attribute("data-style", "stylist-1").unwrap();
            e.into()
        }
        _ => {
            let e = d.create_element("div").unwrap();
            e.append_child(&d.create_element("style").unwrap()).unwrap();
            e.into()
        }
    }
}

fn show(n: &Node) -> String {
    let mut s = format!("#{} ", fake::serial(n));
    fake::serialise(n, &mut s);
    s
}

impl World {
    fn new() -> World {
        fake::reset();
        let d = document();
        let body = d.body().unwrap();
        let make = |tag: &str| d.create_element(tag).unwrap();
        let (inside, nowhere, host, inner) = (make("div"), make("div"), make("div"), make("p"));
        body.append_child(&inside).unwrap();
        body.append_child(&host).unwrap();
        let shadow = fake::attach_shadow(&host);
        shadow.append_child(&inner).unwrap();
        let shadow2 = fake::attach_shadow(&inner);
        let text = d.create_text_node("text");
        body.append_child(&text).unwrap();
        let containers: Vec<Node> = vec![
            d.head().unwrap().into(),
            inside.clone().into(),
            nowhere.clone().into(),
            shadow.into(),
            shadow2.into(),
            text.into(),
        ];
        for (i, c) in containers.iter().enumerate().take(5) {
            for k in 0..(i as u8 % 3) {
                c.append_child(&foreign(k)).unwrap();
            }
        }
        let children = containers.iter().map(children).collect();
        World {
            containers,
            children,
            mgrs: vec![],
            handles: vec![],
            live: vec![],
            owner: vec![],
            _keep: vec![inside, nowhere, host, inner],
        }
    }

    fn manager(&mut self, prefix: u8, container: Option<u8>, append: bool) -> Result<usize, String> {
        let prefix = PREFIXES[prefix as usize % PREFIXES.len()];
        let container_no = container.map_or(0, |c| c as usize % CONTAINERS);
        let mut b = StyleManager::builder().prefix(prefix.into()).append(append);
        if container.is_some() {
            b = b.container(self.containers[container_no].clone());
        }
        let m = b.build().map_err(|e| format!("no manager: {e}"))?;
        if m.container().as_ref() != Some(&self.containers[container_no]) {
            return Err(format!("a manager's container is {:?}", m.container()));
        }
        self.mgrs.push(Mgr {
            real: vec![m],
            container: container_no,
            append,
            prefix,
            reg: BTreeMap::new(),
        });
        Ok(self.mgrs.len() - 1)
    }

    fn alive(&self, i: u8) -> Option<usize> {
        let all: Vec<usize> = (0..self.mgrs.len()).filter(|m| !self.mgrs[*m].real.is_empty()).collect();
        (!all.is_empty()).then(|| all[i as usize % all.len()])
    }

    /// The element of a style is gone if nothing needs it.
    fn settle(&mut self, k: usize) {
        let l = &mut self.live[k];
        if l.handles == 0 && !l.registered {
            if let Some(e) = l.element.take() {
                for c in &mut self.children {
                    c.retain(|n| *n != e);
                }
            }
        }
    }

    fn step(&mut self, op: &Op, rec: &mut Rec) -> Result<(), String> {
        // What the library may not do, whatever the step.
        fake::take_log();
        let mut created: Option<(usize, usize)> = None;
        match op {
            Op::Manager { prefix, container, append } => {
                self.manager(*prefix, *container, *append)?;
            }
            Op::CloneManager(i) => {
                if let Some(m) = self.alive(*i) {
                    let c = self.mgrs[m].real[0].clone();
                    self.mgrs[m].real.push(c);
                }
            }
            Op::DropManager(i) => {
                if let Some(m) = self.alive(*i) {
                    drop(self.mgrs[m].real.pop());
                    if self.mgrs[m].real.is_empty() {
                        rec.class("manager dropped", true);
                        for (_, k) in std::mem::take(&mut self.mgrs[m].reg) {
                            rec.class("manager dropped with a style in use", self.live[k].handles > 0);
                            self.live[k].registered = false;
                            self.settle(k);
                        }
                    }
                }
            }
            Op::Hydrate { prefix, container, append, styles } => {
                self.hydrate(*prefix, *container, *append, styles)?;
                rec.class("hydrated", !styles.is_empty());
                fake::take_log();
            }
            Op::Create { mgr, style, global } => {
                let Some(m) = self.alive(*mgr) else { return Ok(()) };
                let key = (*style, *global);
                let made = Handle::new(*style, *global, &self.mgrs[m].real[0]);
                let container = self.mgrs[m].container;
                match self.mgrs[m].reg.get(&key) {
                    Some(&k) => {
                        let h = made?;
                        if h.id() != self.live[k].id || h.text() != self.live[k].text {
                            return Err(format!("a registered style was created again as {}", h.id()));
                        }
                        rec.class("created again", true);
                        self.live[k].handles += 1;
                        self.handles.push((h, k));
                    }
                    None if container == 5 => {
                        rec.class("cannot be mounted", true);
                        if let Ok(h) = made {
                            return Err(format!("{} was created though it cannot be mounted", h.id()));
                        }
                    }
                    None => {
                        let h = made?;
                        let k = self.live.len();
                        let prefix = self.mgrs[m].prefix;
                        if !h.id().starts_with(prefix) {
                            return Err(format!("{} does not start with {prefix}", h.id()));
                        }
                        self.live.push(Live {
                            id: h.id(),
                            text: h.text(),
                            handles: 1,
                            registered: true,
                            element: None,
                            container,
                            hydrated: false,
                        });
                        self.owner.push(m);
                        self.mgrs[m].reg.insert(key, k);
                        self.handles.push((h, k));
                        created = Some((k, container));
                    }
                }
            }
            Op::CloneStyle(i) => {
                if self.handles.is_empty() {
                    return Ok(());
                }
                let (h, k) = self.handles[*i as usize % self.handles.len()].clone();
                self.live[k].handles += 1;
                self.handles.push((h, k));
            }
            Op::DropStyle(i) => {
                if self.handles.is_empty() {
                    return Ok(());
                }
                let i = *i as usize % self.handles.len();
                let (h, k) = self.handles.remove(i);
                drop(h);
                self.live[k].handles -= 1;
                rec.class("removed with its last handle", self.live[k].handles == 0 && !self.live[k].registered);
                self.settle(k);
            }
            Op::Unregister(i) => {
                if self.handles.is_empty() {
                    return Ok(());
                }
                let (h, k) = &self.handles[*i as usize % self.handles.len()];
                h.unregister();
                let k = *k;
                // Only its own registration.
                let m = self.owner[k];
                self.mgrs[m].reg.retain(|_, v| *v != k);
                self.live[k].registered = false;
                self.settle(k);
            }
            Op::Foreign { container, at, kind } => {
                let c = *container as usize % CONTAINERS;
                if c == 5 {
                    return Ok(());
                }
                let list = &mut self.children[c];
                let at = *at as usize % (list.len() + 1);
                let n = foreign(*kind);
                self.containers[c].insert_before(&n, list.get(at)).unwrap();
                list.insert(at, n);
                fake::take_log();
            }
            Op::Remove { container, at } => {
                let c = *container as usize % CONTAINERS;
                if self.children[c].is_empty() {
                    return Ok(());
                }
                let at = *at as usize % self.children[c].len();
                let n = self.children[c].remove(at);
                self.containers[c].remove_child(&n).unwrap();
                for l in &mut self.live {
                    // What is not in the document is not found, and does not matter, any more.
                    if l.element.as_ref() == Some(&n) {
                        l.element = None;
                        rec.class("element taken away by others", true);
                    }
                }
                fake::take_log();
            }
            Op::Move { container, there } => {
                let n = self.containers[*container as usize % 3].clone();
                let body = document().body().unwrap();
                if *there {
                    body.append_child(&n).unwrap();
                } else if let Some(p) = n.parent_node() {
                    p.remove_child(&n).unwrap();
                }
                fake::take_log();
            }
            Op::DropAll => {
                self.handles.clear();
                for m in &mut self.mgrs {
                    m.real.clear();
                    m.reg.clear();
                }
                for k in 0..self.live.len() {
                    self.live[k].handles = 0;
                    self.live[k].registered = false;
                    self.settle(k);
                }
            }
        }
        let log = fake::take_log();
        if let Some((k, c)) = created {
            // Where it must have been put.
            let now = children(&self.containers[c]);
            let mgr = &self.mgrs[self.owner[k]];
            let at = if mgr.append { now.len().wrapping_sub(1) } else { 0 };
            let n = now
                .get(at)
                .filter(|n| !self.children[c].contains(n))
                .ok_or_else(|| format!("{} is not at its place in container {c}", self.live[k].id))?;
            self.live[k].element = Some(n.clone());
            let at = if mgr.append { self.children[c].len() } else { 0 };
            self.children[c].insert(at, n.clone());
            rec.class("prepended before others", !mgr.append && now.len() > 1);
        }
        self.verify()?;
        // Nothing else was touched, not even for a moment.
        for m in &log {
            let ours = |n: &Node| {
                n.dyn_ref::<Element>().is_some_and(|e| {
                    e.tag_name() == "STYLE"
                        && self.live.iter().any(|l| Some(&l.id) == e.get_attribute("data-style").as_ref())
                })
            };
            let new = |n: &Node| {
                created.is_some_and(|(k, _)| self.live[k].element.as_ref().is_some_and(|e| e.contains(Some(n))))
            };
            let ok = match m {
                Mutation::Inserted { node, parent } => new(node) || self.detached(parent),
                Mutation::Removed { node, parent } => ours(node) || new(parent) || self.detached(parent),
                Mutation::Attribute { node, .. } | Mutation::Text { node } => new(node) || self.detached(node),
            };
            if !ok {
                return Err(format!("{m:?}, which is not the library's to do"));
            }
        }
        Ok(())
    }

    fn hydrate(
        &mut self,
        prefix: u8,
        container: Option<u8>,
        append: bool,
        styles: &[(u8, bool)],
    ) -> Result<(), String> {
        // On the server.
        let (w, r) = render_static();
        let server = StyleManager::builder()
            .prefix(PREFIXES[prefix as usize % PREFIXES.len()].into())
            .writer(w)
            .build()
            .map_err(|e| e.to_string())?;
        let mut all: Vec<((u8, bool), String, String)> = vec![];
        for (s, g) in styles {
            let key = (*s, *g);
            let h = Handle::new(*s, *g, &server)?;
            if !all.iter().any(|a| a.0 == key) {
                all.push((key, h.id(), h.text()));
            }
        }
        drop(server);
        let data = r.read_style_data();
        let data: StyleData = serde_json::from_str(&serde_json::to_string(&data).unwrap()).map_err(|e| e.to_string())?;
        // Its markup, in the head.
        let d = document();
        let head = d.head().unwrap();
        let m = self.manager(prefix, container, append)?;
        for (key, id, text) in all {
            let e = d.create_element("style").unwrap();
            e.set_attribute("data-style", &id).unwrap();
            e.set_text_content(Some(&text));
            head.append_child(&e).unwrap();
            let n: Node = e.into();
            self.children[0].push(n.clone());
            let k = self.live.len();
            self.live.push(Live {
                id,
                text,
                handles: 0,
                registered: true,
                element: Some(n),
                container: 0,
                hydrated: true,
            });
            self.owner.push(m);
            self.mgrs[m].reg.insert(key, k);
        }
        fake::take_log();
        self.mgrs[m].real[0].load_style_data(&data);
        match fake::take_log().first() {
            Some(m) => Err(format!("loading style data: {m:?}")),
            None => Ok(()),
        }
    }

    /// Whether nobody can see the node.
    fn detached(&self, n: &Node) -> bool {
        let mut top = n.clone();
        loop {
            if self.containers.contains(&top) {
                return false;
            }
            match top.parent_node() {
                Some(p) => top = p,
                None => return top.node_type() != Node::DOCUMENT_NODE,
            }
        }
    }

    fn verify(&self) -> Result<(), String> {
        for (i, c) in self.containers.iter().enumerate() {
            let now = children(c);
            if now != self.children[i] {
                let s = |l: &[Node]| l.iter().map(show).collect::<Vec<_>>().join("\n  ");
                return Err(format!(
                    "container {i} has\n  {}\ninstead of\n  {}",
                    s(&now),
                    s(&self.children[i])
                ));
            }
        }
        for l in &self.live {
            if let Some(n) = &l.element {
                let e = n.dyn_ref::<Element>().ok_or_else(|| format!("{} is mounted as {n:?}", l.id))?;
                let parent = e.parent_node();
                if e.tag_name() != "STYLE"
                    || e.get_attribute("data-style").as_deref() != Some(&l.id)
                    || e.text_content().as_deref() != Some(&l.text)
                    || parent.as_ref() != Some(&self.containers[l.container])
                {
                    return Err(format!("{} (hydrated: {}) is mounted as {}", l.id, l.hydrated, show(n)));
                }
            }
        }
        for (h, k) in &self.handles {
            if h.id() != self.live[*k].id || h.text() != self.live[*k].text {
                return Err(format!("{} became {}", self.live[*k].id, h.id()));
            }
        }
        for (i, a) in self.mgrs.iter().enumerate() {
            for m in &a.real {
                if *m != a.real[0] || m.prefix() != a.prefix || m.container().as_ref() != Some(&self.containers[a.container]) {
                    return Err(format!("manager {i} changed"));
                }
                for b in self.mgrs[i + 1..].iter().flat_map(|b| &b.real) {
                    if m == b {
                        return Err("different managers are equal".into());
                    }
                }
            }
        }
        Ok(())
    }
}

fn children(n: &Node) -> Vec<Node> {
    let l = n.child_nodes();
    (0..l.length()).filter_map(|i| l.get(i)).collect()
}

fn check(case: &Case, rec: &mut Rec) -> Result<(), String> {
    let mut w = World::new();
    let mut out = Ok(());
    for (i, op) in case.ops.iter().enumerate() {
        out = w.step(op, rec).map_err(|e| format!("step {i} ({op:?}): {e}"));
        if out.is_err() {
            break;
        }
    }
    let errors = fake::take_errors();
    if out.is_ok() && !errors.is_empty() {
        out = Err(errors.join("; "));
    }
    let mounted = w.live.iter().filter(|l| !l.hydrated).count();
    rec.class("several styles", mounted > 1);
    rec.class("several managers", w.mgrs.len() > 1);
    rec.nontrivial(mounted > 0 && w.live.iter().any(|l| l.handles == 0 && !l.registered));
    out
}

fn run(case: &Case, rec: &mut Rec) -> Result<(), String> {
    vcommon::run::catch(|| check(case, rec)).unwrap_or_else(|p| Err(format!("panicked: {p}")))
}

const ASSUME: &str = "the browser is an in-memory document that follows the DOM standard; stylist is compiled \
                      natively with its wasm32 code selected";

pub fn c16() {
    let mut c = Check::new(
        "C16",
        "random histories of managers (any container, appending or prepending, fresh or hydrated), styles created, \
         cloned, unregistered and dropped, containers moved and other nodes put in or taken out between; the children \
         of all containers and every change to a node are compared with a model after each step; non-trivial: a style \
         is mounted and one is removed again",
    );
    c.assume(ASSUME);
    c.sub("histories", (40_000, 1_000_000), || cases(1), run);
    c.finish()
}

pub fn c23() {
    let mut c = Check::new(
        "C23",
        "random histories in a document in which managers are built and dropped more often; what is mounted is \
         compared with a model after each step; non-trivial: a style is mounted and one is removed again",
    );
    c.assume(ASSUME);
    c.sub("document", (20_000, 500_000), || cases(5), run);
    c.finish()
}
