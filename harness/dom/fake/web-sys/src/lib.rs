//! A stand-in for `web-sys`: one in-memory document per thread, with the tree operations of the DOM
//! standard, event dispatch and media query lists. [`fake`] is the side a check drives it from.

use std::mem::ManuallyDrop;
use std::cell::{Cell, RefCell};
use std::rc::{Rc, Weak};

use js_sys::{Array, Error, Function, Object};
use wasm_bindgen::{call_function, js_class, JsCast, JsValue, Obj};

mod select;

type R<T> = Result<T, JsValue>;

const HTML: &str = "http://www.w3.org/1999/xhtml";

js_class!(EventTarget => Object: Object);
js_class!(Node => EventTarget: EventTarget Object);
js_class!(Document => Node: Node EventTarget Object);
js_class!(DocumentFragment => Node: Node EventTarget Object);
js_class!(ShadowRoot => DocumentFragment: DocumentFragment Node EventTarget Object);
js_class!(CharacterData => Node: Node EventTarget Object);
js_class!(Text => CharacterData: CharacterData Node EventTarget Object);
js_class!(Comment => CharacterData: CharacterData Node EventTarget Object);
js_class!(Element => Node: Node EventTarget Object);
js_class!(HtmlElement => Element: Element Node EventTarget Object);
js_class!(HtmlHeadElement => HtmlElement: HtmlElement Element Node EventTarget Object);
js_class!(HtmlStyleElement => HtmlElement: HtmlElement Element Node EventTarget Object);
js_class!(HtmlScriptElement => HtmlElement: HtmlElement Element Node EventTarget Object);
js_class!(HtmlInputElement => HtmlElement: HtmlElement Element Node EventTarget Object);
js_class!(HtmlTextAreaElement => HtmlElement: HtmlElement Element Node EventTarget Object);
js_class!(Window => EventTarget: EventTarget Object);
js_class!(MediaQueryList => EventTarget: EventTarget Object);
js_class!(NodeList => Object: Object);
js_class!(HtmlCollection => Object: Object);
js_class!(Location => Object: Object);
js_class!(AddEventListenerOptions => Object: Object);
js_class!(EventInit => Object: Object);
js_class!(InputEventInit => Object: Object);

js_class!(Event => Object: Object);
js_class!(UiEvent => Event: Event Object);
js_class!(MouseEvent => UiEvent: UiEvent Event Object);
js_class!(DragEvent => MouseEvent: MouseEvent UiEvent Event Object);
js_class!(PointerEvent => MouseEvent: MouseEvent UiEvent Event Object);
js_class!(WheelEvent => MouseEvent: MouseEvent UiEvent Event Object);
js_class!(FocusEvent => UiEvent: UiEvent Event Object);
js_class!(InputEvent => UiEvent: UiEvent Event Object);
js_class!(KeyboardEvent => UiEvent: UiEvent Event Object);
js_class!(TouchEvent => UiEvent: UiEvent Event Object);
js_class!(AnimationEvent => Event: Event Object);
js_class!(ErrorEvent => Event: Event Object);
js_class!(MediaQueryListEvent => Event: Event Object);
js_class!(ProgressEvent => Event: Event Object);
js_class!(SubmitEvent => Event: Event Object);
js_class!(TransitionEvent => Event: Event Object);

enum Kind {
    Document,
    Element {
        tag: String,
        ns: Option<String>,
        attrs: RefCell<Vec<(String, String)>>,
        shadow: RefCell<Option<ShadowRoot>>,
    },
    Text(RefCell<String>),
    Comment(RefCell<String>),
    Fragment,
    Shadow(Weak<Obj>),
}

#[derive(Clone)]
struct Listener {
    kind: String,
    callback: JsValue,
    capture: bool,
    once: bool,
    removed: Rc<Cell<bool>>,
}

#[derive(Default)]
struct Listeners(RefCell<Vec<Listener>>);

struct NodeData {
    kind: Kind,
    parent: RefCell<Weak<Obj>>,
    children: RefCell<Vec<Node>>,
    listeners: Listeners,
}

struct MediaData {
    query: String,
    /// What was last reported.
    state: Cell<bool>,
    listeners: Listeners,
}

#[derive(Default)]
struct WindowData {
    listeners: Listeners,
}

struct EventData {
    kind: String,
    bubbles: bool,
    target: RefCell<Option<EventTarget>>,
    current: RefCell<Option<EventTarget>>,
    path: RefCell<Vec<JsValue>>,
    stop: Cell<bool>,
    stop_now: Cell<bool>,
    prevented: Cell<bool>,
}

/// What happened to a node.
#[derive(Clone, Debug, PartialEq)]
pub enum Mutation {
    Inserted { node: Node, parent: Node },
    Removed { node: Node, parent: Node },
    Attribute { node: Node, name: String },
    Text { node: Node },
}

struct World {
    document: Document,
    window: Window,
    has_window: bool,
    media: Vec<MediaQueryList>,
    matching: std::collections::BTreeSet<String>,
    log: Option<Vec<Mutation>>,
}

// Never dropped, so that what outlives a thread still finds its document.
thread_local!(static WORLD: ManuallyDrop<RefCell<World>> = ManuallyDrop::new(RefCell::new(World::new())));

impl World {
    fn new() -> World {
        let document: Document = node(&["Document", "Node", "EventTarget", "Object"], Kind::Document);
        let html = element("html", Some(HTML.into()));
        let head = element("head", Some(HTML.into()));
        let body = element("body", Some(HTML.into()));
        set_parent(&html, &head, 0);
        set_parent(&html, &body, 1);
        set_parent(&document, &html, 0);
        World {
            document,
            window: JsValue::from_obj(Obj::new(
                &["Window", "EventTarget", "Object"],
                Box::<WindowData>::default(),
            ))
            .unchecked_into(),
            has_window: true,
            media: Vec::new(),
            matching: Default::default(),
            log: None,
        }
    }
}

fn log(m: Mutation) {
    WORLD.with(|w| {
        if let Some(l) = &mut w.borrow_mut().log {
            l.push(m);
        }
    });
}

fn node<T: JsCast>(classes: &'static [&'static str], kind: Kind) -> T {
    JsValue::from_obj(Obj::new(
        classes,
        Box::new(NodeData {
            kind,
            parent: RefCell::default(),
            children: RefCell::default(),
            listeners: Listeners::default(),
        }),
    ))
    .unchecked_into()
}

fn element(tag: &str, ns: Option<String>) -> Element {
    let html = ns.as_deref() == Some(HTML);
    let tag = if html { tag.to_ascii_lowercase() } else { tag.to_owned() };
    macro_rules! classes {
        ($($own:literal)?) => {
            &[$($own,)? "HtmlElement", "Element", "Node", "EventTarget", "Object"]
        };
    }
    let classes: &'static [&'static str] = if !html {
        &["Element", "Node", "EventTarget", "Object"]
    } else {
        match tag.as_str() {
            "head" => classes!("HtmlHeadElement"),
            "style" => classes!("HtmlStyleElement"),
            "script" => classes!("HtmlScriptElement"),
            "input" => classes!("HtmlInputElement"),
            "textarea" => classes!("HtmlTextAreaElement"),
            _ => classes!(),
        }
    };
    node(
        classes,
        Kind::Element {
            tag,
            ns,
            attrs: RefCell::default(),
            shadow: RefCell::default(),
        },
    )
}

/// Puts a node that has no parent among the children of another.
fn link(parent: &Node, child: impl Into<Node>, at: usize) {
    let child = child.into();
    set_parent(parent, &child, at);
    log(Mutation::Inserted {
        node: child,
        parent: parent.clone(),
    });
}

fn set_parent(parent: &Node, child: &Node, at: usize) {
    *child.data().parent.borrow_mut() = Rc::downgrade(parent.rc());
    parent.data().children.borrow_mut().insert(at, child.clone());
}

fn unlink(child: &Node) {
    let Some(parent) = child.parent_node() else {
        return;
    };
    *child.data().parent.borrow_mut() = Weak::new();
    let at = parent.index_of(child).expect("a child of its parent");
    parent.data().children.borrow_mut().remove(at);
    log(Mutation::Removed {
        node: child.clone(),
        parent,
    });
}

fn dom_error(name: &str, message: &str) -> JsValue {
    Error::new(&format!("{name}: {message}")).into()
}

impl EventTarget {
    fn listeners(&self) -> &Listeners {
        let v: &JsValue = self.as_ref();
        let data = &v.obj().expect("an event target").data;
        if let Some(n) = data.downcast_ref::<NodeData>() {
            &n.listeners
        } else if let Some(m) = data.downcast_ref::<MediaData>() {
            &m.listeners
        } else {
            &data.downcast_ref::<WindowData>().expect("an event target").listeners
        }
    }

    fn add(&self, kind: &str, callback: &JsValue, capture: bool, once: bool) {
        let mut l = self.listeners().0.borrow_mut();
        if l.iter().any(|l| l.kind == kind && l.callback == *callback && l.capture == capture) {
            return;
        }
        l.push(Listener {
            kind: kind.into(),
            callback: callback.clone(),
            capture,
            once,
            removed: Rc::default(),
        });
    }

    fn delete(&self, kind: &str, callback: &JsValue, capture: bool) {
        self.listeners().0.borrow_mut().retain(|l| {
            let it = l.kind == kind && l.callback == *callback && l.capture == capture;
            if it {
                l.removed.set(true);
            }
            !it
        });
    }

    pub fn add_event_listener_with_callback(&self, kind: &str, f: &Function) -> R<()> {
        self.add(kind, f.as_ref(), false, false);
        Ok(())
    }

    pub fn add_event_listener_with_callback_and_bool(
        &self,
        kind: &str,
        f: &Function,
        capture: bool,
    ) -> R<()> {
        self.add(kind, f.as_ref(), capture, false);
        Ok(())
    }

    pub fn add_event_listener_with_callback_and_add_event_listener_options(
        &self,
        kind: &str,
        f: &Function,
        options: &AddEventListenerOptions,
    ) -> R<()> {
        self.add(kind, f.as_ref(), options.flag("capture"), options.flag("once"));
        Ok(())
    }

    pub fn remove_event_listener_with_callback(&self, kind: &str, f: &Function) -> R<()> {
        self.delete(kind, f.as_ref(), false);
        Ok(())
    }

    pub fn remove_event_listener_with_callback_and_bool(
        &self,
        kind: &str,
        f: &Function,
        capture: bool,
    ) -> R<()> {
        self.delete(kind, f.as_ref(), capture);
        Ok(())
    }

    fn invoke(&self, event: &Event, capture: Option<bool>) {
        *event.data().current.borrow_mut() = Some(self.clone());
        let all = self.listeners().0.borrow().clone();
        for l in all {
            if event.data().stop_now.get() {
                break;
            }
            if l.removed.get()
                || l.kind != event.data().kind
                || capture.is_some_and(|c| c != l.capture)
            {
                continue;
            }
            if l.once {
                self.delete(&l.kind, &l.callback, l.capture);
            }
            call_function(&l.callback, &[event.into()]);
        }
    }

    pub fn dispatch_event(&self, event: &Event) -> R<bool> {
        let mut path: Vec<EventTarget> = vec![self.clone()];
        let mut at = self.dyn_ref::<Node>().cloned();
        while let Some(n) = at {
            at = match &n.data().kind {
                Kind::Shadow(host) => host
                    .upgrade()
                    .map(|h| JsValue::from_obj(h).unchecked_into()),
                _ => n.parent_node(),
            };
            path.extend(at.clone().map(EventTarget::from));
        }
        let d = event.data();
        *d.target.borrow_mut() = Some(self.clone());
        *d.path.borrow_mut() = path.iter().map(|t| t.into()).collect();
        for t in path.iter().skip(1).rev() {
            if d.stop.get() {
                break;
            }
            t.invoke(event, Some(true));
        }
        if !d.stop.get() {
            self.invoke(event, None);
        }
        if d.bubbles {
            for t in path.iter().skip(1) {
                if d.stop.get() {
                    break;
                }
                t.invoke(event, Some(false));
            }
        }
        *d.current.borrow_mut() = None;
        Ok(!d.prevented.get())
    }
}

macro_rules! options {
    ($($name:ident)*) => {$(
        impl $name {
            #[allow(clippy::new_without_default)]
            pub fn new() -> $name {
                JsValue::from_obj(Obj::new(&[stringify!($name), "Object"], Box::new(())))
                    .unchecked_into()
            }

            fn flag(&self, name: &str) -> bool {
                js_sys::Reflect::get(self.as_ref(), &name.into())
                    .is_ok_and(|v| v.is_truthy())
            }

            fn set_flag(&self, name: &str, v: bool) {
                let _ = js_sys::Reflect::set(self.as_ref(), &name.into(), &v.into());
            }
        }
    )*};
}
options!(AddEventListenerOptions EventInit InputEventInit);

impl AddEventListenerOptions {
    pub fn capture(&mut self, v: bool) -> &mut Self {
        self.set_flag("capture", v);
        self
    }

    pub fn once(&mut self, v: bool) -> &mut Self {
        self.set_flag("once", v);
        self
    }

    pub fn passive(&mut self, v: bool) -> &mut Self {
        self.set_flag("passive", v);
        self
    }

    pub fn set_capture(&self, v: bool) {
        self.set_flag("capture", v);
    }

    pub fn set_once(&self, v: bool) {
        self.set_flag("once", v);
    }

    pub fn set_passive(&self, v: bool) {
        self.set_flag("passive", v);
    }
}

impl EventInit {
    pub fn set_bubbles(&self, v: bool) {
        self.set_flag("bubbles", v);
    }
}

impl InputEventInit {
    pub fn set_bubbles(&self, v: bool) {
        self.set_flag("bubbles", v);
    }

    pub fn get_bubbles(&self) -> bool {
        self.flag("bubbles")
    }
}

fn make_event(classes: &'static [&'static str], kind: &str, bubbles: bool) -> Event {
    JsValue::from_obj(Obj::new(
        classes,
        Box::new(EventData {
            kind: kind.into(),
            bubbles,
            target: RefCell::default(),
            current: RefCell::default(),
            path: RefCell::default(),
            stop: Cell::default(),
            stop_now: Cell::default(),
            prevented: Cell::default(),
        }),
    ))
    .unchecked_into()
}

impl Event {
    pub fn new(kind: &str) -> R<Event> {
        Ok(make_event(&["Event", "Object"], kind, false))
    }

    pub fn new_with_event_init_dict(kind: &str, init: &EventInit) -> R<Event> {
        Ok(make_event(&["Event", "Object"], kind, init.flag("bubbles")))
    }

    fn data(&self) -> &EventData {
        let v: &JsValue = self.as_ref();
        v.obj().and_then(|o| o.data.downcast_ref()).expect("an event")
    }

    pub fn type_(&self) -> String {
        self.data().kind.clone()
    }

    pub fn bubbles(&self) -> bool {
        self.data().bubbles
    }

    pub fn target(&self) -> Option<EventTarget> {
        self.data().target.borrow().clone()
    }

    pub fn current_target(&self) -> Option<EventTarget> {
        self.data().current.borrow().clone()
    }

    pub fn composed_path(&self) -> Array {
        Array::of(self.data().path.borrow().clone())
    }

    pub fn cancel_bubble(&self) -> bool {
        self.data().stop.get()
    }

    pub fn stop_propagation(&self) {
        self.data().stop.set(true);
    }

    pub fn stop_immediate_propagation(&self) {
        self.data().stop.set(true);
        self.data().stop_now.set(true);
    }

    pub fn prevent_default(&self) {
        self.data().prevented.set(true);
    }
}

impl MediaQueryListEvent {
    pub fn matches(&self) -> bool {
        js_sys::Reflect::get(self.as_ref(), &"matches".into()).is_ok_and(|v| v.is_truthy())
    }

    pub fn media(&self) -> String {
        js_sys::Reflect::get(self.as_ref(), &"media".into())
            .ok()
            .and_then(|v| v.as_string())
            .unwrap_or_default()
    }
}

fn list(items: Vec<Node>) -> JsValue {
    let items: Vec<JsValue> = items.into_iter().map(JsValue::from).collect();
    JsValue::from_obj(Obj::new(&["NodeList", "HtmlCollection", "Object"], Box::new(items)))
}

impl NodeList {
    fn items(&self) -> &Vec<JsValue> {
        let v: &JsValue = self.as_ref();
        v.obj().and_then(|o| o.data.downcast_ref()).expect("a list")
    }

    pub fn length(&self) -> u32 {
        self.items().len() as u32
    }

    pub fn item(&self, index: u32) -> Option<Node> {
        self.get(index)
    }

    pub fn get(&self, index: u32) -> Option<Node> {
        self.items().get(index as usize).cloned().map(|v| v.unchecked_into())
    }
}

impl HtmlCollection {
    fn items(&self) -> &Vec<JsValue> {
        let v: &JsValue = self.as_ref();
        v.obj().and_then(|o| o.data.downcast_ref()).expect("a list")
    }

    pub fn length(&self) -> u32 {
        self.items().len() as u32
    }

    pub fn item(&self, index: u32) -> Option<Element> {
        self.items().get(index as usize).cloned().map(|v| v.unchecked_into())
    }
}

impl Node {
    pub const ELEMENT_NODE: u16 = 1;
    pub const ATTRIBUTE_NODE: u16 = 2;
    pub const TEXT_NODE: u16 = 3;
    pub const CDATA_SECTION_NODE: u16 = 4;
    pub const ENTITY_REFERENCE_NODE: u16 = 5;
    pub const ENTITY_NODE: u16 = 6;
    pub const PROCESSING_INSTRUCTION_NODE: u16 = 7;
    pub const COMMENT_NODE: u16 = 8;
    pub const DOCUMENT_NODE: u16 = 9;
    pub const DOCUMENT_TYPE_NODE: u16 = 10;
    pub const DOCUMENT_FRAGMENT_NODE: u16 = 11;
    pub const NOTATION_NODE: u16 = 12;

    fn rc(&self) -> &Rc<Obj> {
        let v: &JsValue = self.as_ref();
        v.obj().expect("a node")
    }

    fn data(&self) -> &NodeData {
        self.rc().data.downcast_ref().expect("a node")
    }

    fn index_of(&self, child: &Node) -> Option<usize> {
        self.data().children.borrow().iter().position(|c| c == child)
    }

    pub fn node_type(&self) -> u16 {
        match self.data().kind {
            Kind::Document => Node::DOCUMENT_NODE,
            Kind::Element { .. } => Node::ELEMENT_NODE,
            Kind::Text(_) => Node::TEXT_NODE,
            Kind::Comment(_) => Node::COMMENT_NODE,
            Kind::Fragment | Kind::Shadow(_) => Node::DOCUMENT_FRAGMENT_NODE,
        }
    }

    pub fn node_name(&self) -> String {
        match &self.data().kind {
            Kind::Document => "#document".into(),
            Kind::Element { .. } => self.unchecked_ref::<Element>().tag_name(),
            Kind::Text(_) => "#text".into(),
            Kind::Comment(_) => "#comment".into(),
            Kind::Fragment | Kind::Shadow(_) => "#document-fragment".into(),
        }
    }

    pub fn owner_document(&self) -> Option<Document> {
        match self.data().kind {
            Kind::Document => None,
            _ => WORLD.with(|w| Some(w.borrow().document.clone())),
        }
    }

    pub fn parent_node(&self) -> Option<Node> {
        let p = self.data().parent.borrow().upgrade()?;
        Some(JsValue::from_obj(p).unchecked_into())
    }

    pub fn parent_element(&self) -> Option<Element> {
        self.parent_node()?.dyn_into().ok()
    }

    pub fn get_root_node(&self) -> Node {
        let mut n = self.clone();
        while let Some(p) = n.parent_node() {
            n = p;
        }
        n
    }

    pub fn is_connected(&self) -> bool {
        let root = self.get_root_node();
        match &root.data().kind {
            Kind::Document => true,
            Kind::Shadow(h) => h
                .upgrade()
                .is_some_and(|h| JsValue::from_obj(h).unchecked_into::<Node>().is_connected()),
            _ => false,
        }
    }

    pub fn contains(&self, other: Option<&Node>) -> bool {
        let mut at = other.cloned();
        while let Some(n) = at {
            if n == *self {
                return true;
            }
            at = n.parent_node();
        }
        false
    }

    pub fn child_nodes(&self) -> NodeList {
        list(self.data().children.borrow().clone()).unchecked_into()
    }

    pub fn has_child_nodes(&self) -> bool {
        !self.data().children.borrow().is_empty()
    }

    pub fn first_child(&self) -> Option<Node> {
        self.data().children.borrow().first().cloned()
    }

    pub fn last_child(&self) -> Option<Node> {
        self.data().children.borrow().last().cloned()
    }

    fn sibling(&self, by: isize) -> Option<Node> {
        let p = self.parent_node()?;
        let i = p.index_of(self)?.checked_add_signed(by)?;
        let c = p.data().children.borrow();
        c.get(i).cloned()
    }

    pub fn next_sibling(&self) -> Option<Node> {
        self.sibling(1)
    }

    pub fn previous_sibling(&self) -> Option<Node> {
        self.sibling(-1)
    }

    pub fn insert_before(&self, node: &Node, child: Option<&Node>) -> R<Node> {
        if !matches!(
            self.data().kind,
            Kind::Document | Kind::Element { .. } | Kind::Fragment | Kind::Shadow(_)
        ) || node.contains(Some(self))
            || matches!(node.data().kind, Kind::Document | Kind::Shadow(_))
        {
            return Err(dom_error("HierarchyRequestError", "the node cannot be inserted here"));
        }
        if child.is_some_and(|c| self.index_of(c).is_none()) {
            return Err(dom_error("NotFoundError", "not a child of this node"));
        }
        let child = match child {
            Some(c) if c == node => node.next_sibling(),
            c => c.cloned(),
        };
        let nodes = match node.data().kind {
            Kind::Fragment => node.data().children.borrow().clone(),
            _ => vec![node.clone()],
        };
        for n in nodes {
            unlink(&n);
            let at = match &child {
                Some(c) => self.index_of(c).expect("a child"),
                None => self.data().children.borrow().len(),
            };
            link(self, n, at);
        }
        Ok(node.clone())
    }

    pub fn append_child(&self, node: &Node) -> R<Node> {
        self.insert_before(node, None)
    }

    pub fn remove_child(&self, child: &Node) -> R<Node> {
        if self.index_of(child).is_none() {
            return Err(dom_error("NotFoundError", "not a child of this node"));
        }
        unlink(child);
        Ok(child.clone())
    }

    pub fn replace_child(&self, node: &Node, child: &Node) -> R<Node> {
        if self.index_of(child).is_none() {
            return Err(dom_error("NotFoundError", "not a child of this node"));
        }
        let next = child.next_sibling();
        unlink(child);
        self.insert_before(node, next.as_ref().filter(|n| *n != node))?;
        Ok(child.clone())
    }

    pub fn clone_node(&self) -> R<Node> {
        self.clone_node_with_deep(false)
    }

    pub fn clone_node_with_deep(&self, deep: bool) -> R<Node> {
        let d = self.data();
        let n: Node = match &d.kind {
            Kind::Element { tag, ns, attrs, .. } => {
                let e = element(tag, ns.clone());
                if let Kind::Element { attrs: a, .. } = &e.data().kind {
                    *a.borrow_mut() = attrs.borrow().clone();
                }
                e.into()
            }
            Kind::Text(t) => fake::text(&t.borrow()).into(),
            Kind::Comment(t) => fake::comment(&t.borrow()).into(),
            _ => return Err(dom_error("NotSupportedError", "this node cannot be cloned")),
        };
        if deep {
            for c in d.children.borrow().iter() {
                n.append_child(&c.clone_node_with_deep(true)?)?;
            }
        }
        Ok(n)
    }

    pub fn text_content(&self) -> Option<String> {
        match &self.data().kind {
            Kind::Document => None,
            Kind::Text(t) | Kind::Comment(t) => Some(t.borrow().clone()),
            _ => {
                let mut s = String::new();
                for c in self.data().children.borrow().iter() {
                    if !matches!(c.data().kind, Kind::Comment(_)) {
                        s += &c.text_content().unwrap_or_default();
                    }
                }
                Some(s)
            }
        }
    }

    pub fn set_text_content(&self, value: Option<&str>) {
        let value = value.unwrap_or("");
        match &self.data().kind {
            Kind::Document => {}
            Kind::Text(t) | Kind::Comment(t) => {
                *t.borrow_mut() = value.into();
                log(Mutation::Text { node: self.clone() });
            }
            _ => {
                while let Some(c) = self.last_child() {
                    unlink(&c);
                }
                if !value.is_empty() {
                    link(self, fake::text(value), 0);
                }
            }
        }
    }

    pub fn node_value(&self) -> Option<String> {
        match &self.data().kind {
            Kind::Text(t) | Kind::Comment(t) => Some(t.borrow().clone()),
            _ => None,
        }
    }

    pub fn set_node_value(&self, value: Option<&str>) {
        if let Kind::Text(_) | Kind::Comment(_) = self.data().kind {
            self.set_text_content(value);
        }
    }

    pub fn is_same_node(&self, other: Option<&Node>) -> bool {
        other == Some(self)
    }

    /// Its elements, in document order, itself excluded.
    fn elements(&self, out: &mut Vec<Element>) {
        for c in self.data().children.borrow().iter() {
            if let Some(e) = c.dyn_ref::<Element>() {
                out.push(e.clone());
            }
            c.elements(out);
        }
    }

    fn select(&self, selectors: &str) -> R<Vec<Element>> {
        let s = select::parse(selectors)
            .ok_or_else(|| dom_error("SyntaxError", &format!("{selectors:?} is not a valid selector")))?;
        let mut all = Vec::new();
        self.elements(&mut all);
        all.retain(|e| s.iter().any(|s| s.matches(e)));
        Ok(all)
    }
}

macro_rules! parent_node {
    ($($t:ident)*) => {$(
        impl $t {
            pub fn query_selector(&self, selectors: &str) -> R<Option<Element>> {
                Ok(self.select(selectors)?.into_iter().next())
            }

            pub fn query_selector_all(&self, selectors: &str) -> R<NodeList> {
                let all = self.select(selectors)?.into_iter().map(Node::from).collect();
                Ok(list(all).unchecked_into())
            }

            pub fn children(&self) -> HtmlCollection {
                let all = self.data().children.borrow().iter().filter(|c| c.is_instance_of::<Element>()).cloned().collect();
                list(all).unchecked_into()
            }

            pub fn child_element_count(&self) -> u32 {
                self.children().length()
            }

            pub fn first_element_child(&self) -> Option<Element> {
                self.children().item(0)
            }

            pub fn last_element_child(&self) -> Option<Element> {
                let c = self.children();
                c.item(c.length().checked_sub(1)?)
            }

            pub fn append_with_str_1(&self, text: &str) -> R<()> {
                self.insert_before(&fake::text(text), None).map(|_| ())
            }

            pub fn prepend_with_str_1(&self, text: &str) -> R<()> {
                self.insert_before(&fake::text(text), self.first_child().as_ref()).map(|_| ())
            }

            pub fn append_with_node(&self, nodes: &Array) -> R<()> {
                for n in nodes.iter() {
                    self.insert_before(n.unchecked_ref(), None)?;
                }
                Ok(())
            }

            pub fn prepend_with_node(&self, nodes: &Array) -> R<()> {
                let first = self.first_child();
                for n in nodes.iter() {
                    self.insert_before(n.unchecked_ref(), first.as_ref())?;
                }
                Ok(())
            }

            pub fn replace_children_with_node_1(&self, node: &Node) -> R<()> {
                self.replace_children_with_node_0()?;
                self.append_with_node_1(node)
            }

            pub fn replace_children_with_node_0(&self) -> R<()> {
                while let Some(c) = self.last_child() {
                    unlink(&c);
                }
                Ok(())
            }

            pub fn append_with_node_1(&self, node: &Node) -> R<()> {
                self.insert_before(node, None).map(|_| ())
            }

            pub fn prepend_with_node_1(&self, node: &Node) -> R<()> {
                let first = self.first_child().filter(|f| f != node);
                self.insert_before(node, first.as_ref()).map(|_| ())
            }
        }
    )*};
}
parent_node!(Document DocumentFragment Element);

impl Document {
    pub fn get_elements_by_tag_name(&self, tag: &str) -> HtmlCollection {
        let mut all = Vec::new();
        self.elements(&mut all);
        all.retain(|e| tag == "*" || e.tag_name().eq_ignore_ascii_case(tag));
        list(all.into_iter().map(Node::from).collect()).unchecked_into()
    }

    pub fn document_element(&self) -> Option<Element> {
        self.children().item(0)
    }

    fn of_root(&self, tag: &str) -> Option<Element> {
        let root = self.document_element()?;
        let all = root.children();
        (0..all.length())
            .filter_map(|i| all.item(i))
            .find(|e| e.tag_name() == tag)
    }

    pub fn head(&self) -> Option<HtmlHeadElement> {
        self.of_root("HEAD").map(|e| e.unchecked_into())
    }

    pub fn body(&self) -> Option<HtmlElement> {
        self.of_root("BODY").map(|e| e.unchecked_into())
    }

    pub fn create_element(&self, tag: &str) -> R<Element> {
        let ok = tag.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_' || !c.is_ascii())
            && !tag.contains(|c: char| c.is_whitespace() || "<>/".contains(c));
        if !ok {
            return Err(dom_error("InvalidCharacterError", tag));
        }
        Ok(element(tag, Some(HTML.into())))
    }

    pub fn create_element_ns(&self, ns: Option<&str>, tag: &str) -> R<Element> {
        Ok(element(tag, ns.map(|n| n.into())))
    }

    pub fn create_text_node(&self, data: &str) -> Text {
        fake::text(data)
    }

    pub fn create_comment(&self, data: &str) -> Comment {
        fake::comment(data)
    }

    pub fn create_document_fragment(&self) -> DocumentFragment {
        node(&["DocumentFragment", "Node", "EventTarget", "Object"], Kind::Fragment)
    }

    pub fn get_element_by_id(&self, id: &str) -> Option<Element> {
        let mut all = Vec::new();
        self.elements(&mut all);
        all.into_iter().find(|e| !id.is_empty() && e.get_attribute("id").as_deref() == Some(id))
    }

    pub fn default_view(&self) -> Option<Window> {
        window()
    }
}

impl ShadowRoot {
    pub fn host(&self) -> Element {
        match &self.data().kind {
            Kind::Shadow(h) => JsValue::from_obj(h.upgrade().expect("its host")).unchecked_into(),
            _ => unreachable!(),
        }
    }
}

macro_rules! child_node {
    ($($t:ident)*) => {$(
        impl $t {
            pub fn remove(&self) {
                unlink(self);
            }

            pub fn replace_with_with_node_1(&self, node: &Node) -> R<()> {
                match self.parent_node() {
                    Some(p) => p.replace_child(node, self).map(|_| ()),
                    None => Ok(()),
                }
            }

            pub fn before_with_node_1(&self, node: &Node) -> R<()> {
                match self.parent_node() {
                    Some(p) => p.insert_before(node, Some(self)).map(|_| ()),
                    None => Ok(()),
                }
            }

            pub fn after_with_node_1(&self, node: &Node) -> R<()> {
                match self.parent_node() {
                    Some(p) => p.insert_before(node, self.next_sibling().as_ref()).map(|_| ()),
                    None => Ok(()),
                }
            }
        }
    )*};
}
child_node!(Element CharacterData);

impl CharacterData {
    pub fn data(&self) -> String {
        self.text_content().unwrap_or_default()
    }

    pub fn set_data(&self, v: &str) {
        self.set_text_content(Some(v));
    }
}

impl Element {
    fn parts(&self) -> (&String, &Option<String>, &RefCell<Vec<(String, String)>>) {
        match &Node::data(self).kind {
            Kind::Element { tag, ns, attrs, .. } => (tag, ns, attrs),
            _ => unreachable!("an element"),
        }
    }

    pub fn tag_name(&self) -> String {
        let (tag, ns, _) = self.parts();
        if ns.as_deref() == Some(HTML) {
            tag.to_ascii_uppercase()
        } else {
            tag.clone()
        }
    }

    pub fn local_name(&self) -> String {
        self.parts().0.clone()
    }

    pub fn namespace_uri(&self) -> Option<String> {
        self.parts().1.clone()
    }

    pub fn get_attribute(&self, name: &str) -> Option<String> {
        let name = name.to_ascii_lowercase();
        let a = self.parts().2.borrow();
        a.iter().find(|(k, _)| *k == name).map(|(_, v)| v.clone())
    }

    pub fn has_attributes(&self) -> bool {
        !self.parts().2.borrow().is_empty()
    }

    pub fn toggle_attribute(&self, name: &str) -> R<bool> {
        self.toggle_attribute_with_force(name, !self.has_attribute(name))
    }

    pub fn toggle_attribute_with_force(&self, name: &str, on: bool) -> R<bool> {
        match (on, self.has_attribute(name)) {
            (true, false) => self.set_attribute(name, "")?,
            (false, true) => self.remove_attribute(name)?,
            _ => {}
        }
        Ok(on)
    }

    pub fn previous_element_sibling(&self) -> Option<Element> {
        let mut at = self.previous_sibling();
        while let Some(n) = at {
            if let Some(e) = n.dyn_ref::<Element>() {
                return Some(e.clone());
            }
            at = n.previous_sibling();
        }
        None
    }

    pub fn insert_adjacent_text(&self, position: &str, text: &str) -> R<()> {
        let t = fake::text(text);
        match position {
            "beforebegin" => self.before_with_node_1(&t),
            "afterbegin" => self.prepend_with_node_1(&t),
            "beforeend" => self.append_with_node_1(&t),
            "afterend" => self.after_with_node_1(&t),
            _ => Err(dom_error("SyntaxError", position)),
        }
    }

    pub fn has_attribute(&self, name: &str) -> bool {
        self.get_attribute(name).is_some()
    }

    pub fn get_attribute_names(&self) -> Array {
        let a = self.parts().2.borrow();
        Array::of(a.iter().map(|(k, _)| JsValue::from_str(k)).collect())
    }

    pub fn set_attribute(&self, name: &str, value: &str) -> R<()> {
        if name.is_empty() || name.contains(|c: char| c.is_whitespace() || "/>=\0".contains(c)) {
            return Err(dom_error("InvalidCharacterError", name));
        }
        let name = name.to_ascii_lowercase();
        {
            let mut a = self.parts().2.borrow_mut();
            match a.iter_mut().find(|(k, _)| *k == name) {
                Some((_, v)) => *v = value.into(),
                None => a.push((name.clone(), value.into())),
            }
        }
        log(Mutation::Attribute {
            node: self.clone().into(),
            name,
        });
        Ok(())
    }

    pub fn remove_attribute(&self, name: &str) -> R<()> {
        let name = name.to_ascii_lowercase();
        self.parts().2.borrow_mut().retain(|(k, _)| *k != name);
        log(Mutation::Attribute {
            node: self.clone().into(),
            name,
        });
        Ok(())
    }

    pub fn id(&self) -> String {
        self.get_attribute("id").unwrap_or_default()
    }

    pub fn set_id(&self, v: &str) {
        let _ = self.set_attribute("id", v);
    }

    pub fn class_name(&self) -> String {
        self.get_attribute("class").unwrap_or_default()
    }

    pub fn set_class_name(&self, v: &str) {
        let _ = self.set_attribute("class", v);
    }

    pub fn matches(&self, selectors: &str) -> R<bool> {
        let s = select::parse(selectors).ok_or_else(|| dom_error("SyntaxError", selectors))?;
        Ok(s.iter().any(|s| s.matches(self)))
    }

    pub fn closest(&self, selectors: &str) -> R<Option<Element>> {
        let mut at = Some(self.clone());
        while let Some(e) = at {
            if e.matches(selectors)? {
                return Ok(Some(e));
            }
            at = e.parent_element();
        }
        Ok(None)
    }

    pub fn next_element_sibling(&self) -> Option<Element> {
        let mut at = self.next_sibling();
        while let Some(n) = at {
            if let Some(e) = n.dyn_ref::<Element>() {
                return Some(e.clone());
            }
            at = n.next_sibling();
        }
        None
    }

    pub fn shadow_root(&self) -> Option<ShadowRoot> {
        match &Node::data(self).kind {
            Kind::Element { shadow, .. } => shadow.borrow().clone(),
            _ => None,
        }
    }

    pub fn insert_adjacent_element(&self, position: &str, e: &Element) -> R<Option<Element>> {
        match position {
            "beforebegin" => self.before_with_node_1(e)?,
            "afterbegin" => self.prepend_with_node_1(e)?,
            "beforeend" => self.append_with_node_1(e)?,
            "afterend" => self.after_with_node_1(e)?,
            _ => return Err(dom_error("SyntaxError", position)),
        }
        Ok(Some(e.clone()))
    }

    pub fn inner_html(&self) -> String {
        let mut s = String::new();
        for c in Node::data(self).children.borrow().iter() {
            fake::serialise(c, &mut s);
        }
        s
    }

    pub fn outer_html(&self) -> String {
        let mut s = String::new();
        fake::serialise(self, &mut s);
        s
    }

    /// Only what contains no markup; nothing here needs more.
    pub fn set_inner_html(&self, v: &str) {
        let raw = ["STYLE", "SCRIPT"].contains(&self.tag_name().as_str());
        assert!(raw || !v.contains(['<', '&']), "the stand-in does not parse markup");
        self.set_text_content(Some(v));
    }
}

macro_rules! values {
    ($($t:ident)*) => {$(
        impl $t {
            pub fn value(&self) -> String {
                js_sys::Reflect::get(self.as_ref(), &"value".into())
                    .ok()
                    .and_then(|v| v.as_string())
                    .unwrap_or_default()
            }

            pub fn set_value(&self, v: &str) {
                let _ = js_sys::Reflect::set(self.as_ref(), &"value".into(), &v.into());
            }
        }
    )*};
}
values!(HtmlInputElement HtmlTextAreaElement);

impl HtmlInputElement {
    pub fn checked(&self) -> bool {
        js_sys::Reflect::get(self.as_ref(), &"checked".into()).is_ok_and(|v| v.is_truthy())
    }

    pub fn set_checked(&self, v: bool) {
        let _ = js_sys::Reflect::set(self.as_ref(), &"checked".into(), &v.into());
    }
}

impl HtmlTextAreaElement {
    pub fn set_default_value(&self, v: &str) -> R<()> {
        self.set_text_content(Some(v));
        Ok(())
    }
}

impl HtmlStyleElement {
    pub fn type_(&self) -> String {
        self.get_attribute("type").unwrap_or_default()
    }

    pub fn set_type(&self, v: &str) {
        let _ = self.set_attribute("type", v);
    }

    pub fn media(&self) -> String {
        self.get_attribute("media").unwrap_or_default()
    }

    pub fn set_media(&self, v: &str) {
        let _ = self.set_attribute("media", v);
    }
}

impl HtmlElement {
    pub fn inner_text(&self) -> String {
        self.text_content().unwrap_or_default()
    }

    pub fn set_inner_text(&self, v: &str) {
        self.set_text_content(Some(v));
    }
}

impl HtmlScriptElement {
    pub fn type_(&self) -> String {
        self.get_attribute("type").unwrap_or_default()
    }

    pub fn text(&self) -> R<String> {
        Ok(self.text_content().unwrap_or_default())
    }
}

impl Window {
    pub fn document(&self) -> Option<Document> {
        WORLD.with(|w| Some(w.borrow().document.clone()))
    }

    pub fn match_media(&self, query: &str) -> R<Option<MediaQueryList>> {
        let m: MediaQueryList = JsValue::from_obj(Obj::new(
            &["MediaQueryList", "EventTarget", "Object"],
            Box::new(MediaData {
                query: query.into(),
                state: Cell::new(fake::media_matches(query)),
                listeners: Listeners::default(),
            }),
        ))
        .unchecked_into();
        WORLD.with(|w| w.borrow_mut().media.push(m.clone()));
        Ok(Some(m))
    }
}

impl MediaQueryList {
    fn data(&self) -> &MediaData {
        let v: &JsValue = self.as_ref();
        v.obj().and_then(|o| o.data.downcast_ref()).expect("a list")
    }

    pub fn media(&self) -> String {
        self.data().query.clone()
    }

    pub fn matches(&self) -> bool {
        fake::media_matches(&self.data().query)
    }

    pub fn add_listener_with_opt_callback(&self, f: Option<&Function>) -> R<()> {
        if let Some(f) = f {
            self.add("change", f.as_ref(), false, false);
        }
        Ok(())
    }

    pub fn remove_listener_with_opt_callback(&self, f: Option<&Function>) -> R<()> {
        if let Some(f) = f {
            self.delete("change", f.as_ref(), false);
        }
        Ok(())
    }
}

pub fn window() -> Option<Window> {
    WORLD.with(|w| {
        let w = w.borrow();
        w.has_window.then(|| w.window.clone())
    })
}

pub mod fake {
    //! The side of the document a check works with.

    use super::*;

    /// A new, empty document, with no media query matching.
    pub fn reset() {
        let new = World::new();
        let old = WORLD.with(|w| std::mem::replace(&mut *w.borrow_mut(), new));
        drop(old);
        wasm_bindgen::console::take();
    }

    /// Takes the window away, as where there is no browser.
    pub fn set_window(there: bool) {
        WORLD.with(|w| w.borrow_mut().has_window = there);
    }

    pub fn text(data: &str) -> Text {
        node(
            &["Text", "CharacterData", "Node", "EventTarget", "Object"],
            Kind::Text(RefCell::new(data.into())),
        )
    }

    pub fn comment(data: &str) -> Comment {
        node(
            &["Comment", "CharacterData", "Node", "EventTarget", "Object"],
            Kind::Comment(RefCell::new(data.into())),
        )
    }

    /// Attaches an open shadow root.
    pub fn attach_shadow(host: &Element) -> ShadowRoot {
        let root: ShadowRoot = node(
            &["ShadowRoot", "DocumentFragment", "Node", "EventTarget", "Object"],
            Kind::Shadow(Rc::downgrade(host.rc())),
        );
        match &Node::data(host).kind {
            Kind::Element { shadow, .. } => *shadow.borrow_mut() = Some(root.clone()),
            _ => unreachable!(),
        }
        root
    }

    /// Starts recording what happens to nodes, and returns what was recorded so far.
    pub fn take_log() -> Vec<Mutation> {
        WORLD.with(|w| w.borrow_mut().log.replace(Vec::new())).unwrap_or_default()
    }

    /// Errors that would have ended up in the console.
    pub fn take_errors() -> Vec<String> {
        wasm_bindgen::console::take()
    }

    pub fn report(e: String) {
        wasm_bindgen::console::report(e);
    }

    pub fn media_matches(query: &str) -> bool {
        WORLD.with(|w| w.borrow().matching.contains(query))
    }

    /// Changes which queries match, without telling anyone yet.
    pub fn set_media(query: &str, on: bool) {
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            if on {
                w.matching.insert(query.into());
            } else {
                w.matching.remove(query);
            }
        });
    }

    /// Tells the media query lists whose state changed, as a browser does before it renders.
    pub fn report_media_changes() {
        let all = WORLD.with(|w| {
            let mut w = w.borrow_mut();
            // Those nobody holds or listens to any more are gone.
            w.media.retain(|m| {
                let v: &JsValue = m.as_ref();
                Rc::strong_count(v.obj().expect("a list")) > 1
                    || !m.data().listeners.0.borrow().is_empty()
            });
            w.media.clone()
        });
        for m in all {
            let now = m.matches();
            if m.data().state.replace(now) == now {
                continue;
            }
            let e = make_event(&["MediaQueryListEvent", "Event", "Object"], "change", false);
            let v: &JsValue = e.as_ref();
            let _ = js_sys::Reflect::set(v, &"matches".into(), &now.into());
            let _ = js_sys::Reflect::set(v, &"media".into(), &m.media().into());
            let _ = m.dispatch_event(&e);
        }
    }

    /// The queries something listens to, once per listener.
    pub fn media_listeners() -> Vec<String> {
        WORLD.with(|w| {
            let w = w.borrow();
            let mut all = Vec::new();
            for m in &w.media {
                for _ in m.data().listeners.0.borrow().iter() {
                    all.push(m.data().query.clone());
                }
            }
            all
        })
    }

    pub fn serialise(n: &Node, out: &mut String) {
        match &n.data().kind {
            Kind::Text(t) => {
                let raw = n.parent_element().is_some_and(|p| ["STYLE", "SCRIPT"].contains(&p.tag_name().as_str()));
                if raw {
                    out.push_str(&t.borrow());
                } else {
                    out.push_str(&t.borrow().replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;"));
                }
            }
            Kind::Comment(t) => {
                out.push_str("<!--");
                out.push_str(&t.borrow());
                out.push_str("-->");
            }
            Kind::Element { tag, attrs, .. } => {
                out.push('<');
                out.push_str(tag);
                for (k, v) in attrs.borrow().iter() {
                    out.push_str(&format!(" {k}=\"{}\"", v.replace('&', "&amp;").replace('"', "&quot;")));
                }
                out.push('>');
                for c in n.data().children.borrow().iter() {
                    serialise(c, out);
                }
                out.push_str(&format!("</{tag}>"));
            }
            _ => {
                for c in n.data().children.borrow().iter() {
                    serialise(c, out);
                }
            }
        }
    }

    /// A number that identifies a node.
    pub fn serial(n: &Node) -> u64 {
        n.rc().serial
    }
}
