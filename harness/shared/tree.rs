//! Component trees as data and the components they are made of.

use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use stylist::ast::Sheet;
use stylist::manager::StyleManager;
use stylist::yew::{styled_component, styled_component_impl, use_style, Global, ManagerProvider};
use stylist::ast::sheet;
use stylist::{css, StyleSource};
use yew::prelude::*;
use yew::suspense::{Suspension, SuspensionResult};

/// A style: a value, a selector, a number and a media query.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct St {
    pub v: u8,
    pub s: u8,
    pub m: u8,
    pub q: u8,
}

const VALUES: &[&str] = &["red", "\"a\"", "\"</style><b>\"", "var(--a, \"<!--\")", "'é'"];
const SELECTORS: &[&str] = &["p", ".a", "&:hover", "a > b", ":first-child"];
const QUERIES: &[&str] = &["print", "(min-width: 100px)", "screen and (max-width: 9px)"];

impl St {
    pub fn v(self) -> &'static str {
        VALUES[self.v as usize % VALUES.len()]
    }
    pub fn s(self) -> &'static str {
        SELECTORS[self.s as usize % SELECTORS.len()]
    }
    pub fn m(self) -> String {
        format!("{}px", self.m)
    }
    pub fn q(self) -> &'static str {
        QUERIES[self.q as usize % QUERIES.len()]
    }
    pub fn text(self) -> String {
        format!("content: {}; {} {{ margin: {}; }} @media {} {{ order: 1; }}", self.v(), self.s(), self.m(), self.q())
    }
    /// The CSS this must be rendered to, up to white space.
    pub fn css(self, class: Option<&str>) -> String {
        let own = class.map_or(":root".to_string(), |c| format!(".{c}"));
        let sel = match (class, self.s()) {
            (_, s) if s.contains('&') => s.replace('&', &own),
            (None, s) => s.to_string(),
            (Some(_), s) if s.starts_with(':') => format!("{own}{s}"),
            (Some(_), s) => format!("{own} {s}"),
        };
        format!(
            "{own} {{ content: {}; }} {sel} {{ margin: {}; }} @media {} {{ {own} {{ order: 1; }} }}",
            self.v(),
            self.m(),
            self.q()
        )
    }
}

/// The syntax a style is written in. Sheets of the same syntax and `St` are the same sheet.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Syntax {
    Text,
    Literal,
    Inline,
    Static,
}

pub const STATIC: St = St { v: 0, s: 0, m: 7, q: 0 };

impl Syntax {
    pub fn sheet(self, st: St) -> Sheet {
        match self {
            Syntax::Text => st.text().parse().unwrap(),
            Syntax::Literal => sheet!(
                "content: ${v}; ${s} { margin: ${m}; } @media ${q} { order: 1; }",
                v = st.v(),
                s = st.s(),
                m = st.m(),
                q = st.q()
            ),
            Syntax::Inline => sheet!(
                content: ${st.v()};
                ${st.s()} { margin: ${st.m()}; }
                @media ${st.q()} { order: 1; }
            ),
            Syntax::Static => sheet!("content: red; p { margin: 7px; } @media print { order: 1; }"),
        }
    }
}

/// How an element gets its style.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum How {
    Str,
    String,
    Sheet,
    Source,
    UseStyleLiteral,
    UseStyleInline,
    UseStyleTwice,
    Styled,
    StyledNamed,
    StyledImpl,
    StyledInline,
    StyledClosure,
    StyledStatic,
    /// Two elements, nested in each other, with the same style.
    StyledNested,
    /// Created here, used as a class below another provider.
    PassedStyle,
    PassedSource,
    /// Created here, given to `use_style` below another provider.
    PassedToUseStyle,
}

impl How {
    pub const ALL: &'static [How] = &[
        How::Str,
        How::String,
        How::Sheet,
        How::Source,
        How::UseStyleLiteral,
        How::UseStyleInline,
        How::UseStyleTwice,
        How::Styled,
        How::StyledNamed,
        How::StyledImpl,
        How::StyledInline,
        How::StyledClosure,
        How::StyledStatic,
        How::StyledNested,
        How::PassedStyle,
        How::PassedSource,
        How::PassedToUseStyle,
    ];
    pub fn syntax(self) -> Syntax {
        match self {
            How::Str | How::String | How::Sheet | How::Source | How::PassedStyle => Syntax::Text,
            How::UseStyleInline | How::StyledInline => Syntax::Inline,
            How::StyledStatic => Syntax::Static,
            _ => Syntax::Literal,
        }
    }
    pub fn passes(self) -> bool {
        matches!(self, How::PassedStyle | How::PassedSource | How::PassedToUseStyle)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum GlobalHow {
    Str,
    String,
    Sheet,
    Literal,
    /// With the `css!` of a styled component.
    Styled,
    Inline,
}

impl GlobalHow {
    pub const ALL: &'static [GlobalHow] =
        &[GlobalHow::Str, GlobalHow::String, GlobalHow::Sheet, GlobalHow::Literal, GlobalHow::Styled, GlobalHow::Inline];
    pub fn syntax(self) -> Syntax {
        match self {
            GlobalHow::Str | GlobalHow::String | GlobalHow::Sheet => Syntax::Text,
            GlobalHow::Literal | GlobalHow::Styled => Syntax::Literal,
            GlobalHow::Inline => Syntax::Inline,
        }
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Node {
    Provider { mgr: u8, kids: Vec<Node> },
    /// `under` is the manager of the provider in between, if styles are passed.
    Elem { how: How, st: St, under: u8, kids: Vec<Node> },
    Global { how: GlobalHow, st: St },
    /// Shows another one once it is mounted, and possibly the first one again.
    Flip { st: St, to: St, back: bool },
    /// Suspends a few times before it shows its content.
    Suspend { times: u8, kids: Vec<Node> },
    Fragment(Vec<Node>),
}

/// Makes a page large.
pub fn grow(nodes: &mut Vec<Node>, what: u8, how: u8, n: u8) {
    let elem = |i: u8, kids: Vec<Node>| Node::Elem {
        how: How::ALL[(how as usize + if how % 2 == 0 { i as usize } else { 0 }) % How::ALL.len()],
        st: St { v: how % 5, s: how / 5 % 5, m: 10 + i, q: how / 25 % 3 },
        under: i % 4,
        kids,
    };
    match what % 5 {
        0 => nodes.extend((0..n).map(|i| elem(i, vec![]))),
        1 => nodes.extend((0..n).map(|i| Node::Global {
            how: GlobalHow::ALL[(how as usize + i as usize) % GlobalHow::ALL.len()],
            st: St { v: 0, s: 0, m: i, q: 0 },
        })),
        2 => {
            for i in 0..n.min(14) {
                let kids = std::mem::take(nodes);
                *nodes = vec![Node::Provider { mgr: if how % 2 == 0 { i % 4 } else { how % 4 }, kids }];
            }
        }
        3 => {
            for i in 0..n.min(14) {
                let kids = std::mem::take(nodes);
                *nodes = vec![elem(i, kids)];
            }
        }
        _ => {
            let all = nodes.clone();
            for _ in 0..n.min(12) {
                nodes.extend(all.clone());
            }
        }
    }
}

/// Numbers the nodes in the order in which they are visited.
#[derive(Default)]
pub struct Counter(usize);

impl Counter {
    pub fn next(&mut self) -> usize {
        self.0 += 1;
        self.0
    }
}

#[derive(Properties, Clone, PartialEq)]
pub struct P {
    id: usize,
    st: St,
    under: StyleManager,
    #[prop_or_default]
    children: Children,
}

#[component]
fn ByStr(p: &P) -> Html {
    let style = use_style(p.st.text().as_str());
    html! { <div data-n={p.id.to_string()} class={style}>{p.children.clone()}</div> }
}

#[component]
fn ByString(p: &P) -> Html {
    let style = use_style(p.st.text());
    html! { <div data-n={p.id.to_string()} class={classes!(style)}>{p.children.clone()}</div> }
}

#[component]
fn BySheet(p: &P) -> Html {
    let style = use_style(p.st.text().parse::<Sheet>().unwrap());
    html! { <div data-n={p.id.to_string()} class={style.get_class_name().to_string()}>{p.children.clone()}</div> }
}

#[component]
fn BySource(p: &P) -> Html {
    let source: StyleSource = p.st.text().try_into().unwrap();
    let style = use_style(source);
    html! { <div data-n={p.id.to_string()} class={style}>{p.children.clone()}</div> }
}

#[component]
fn ByUseStyleLiteral(p: &P) -> Html {
    let style = use_style!(
        "content: ${v}; ${s} { margin: ${m}; } @media ${q} { order: 1; }",
        v = p.st.v(),
        s = p.st.s(),
        m = p.st.m(),
        q = p.st.q()
    );
    html! { <div data-n={p.id.to_string()} class={style}>{p.children.clone()}</div> }
}

use stylist::yew::use_style as use_style_fn;
mod use_style_macro {
    pub use stylist::yew::use_style;
}

#[component]
fn ByUseStyleInline(p: &P) -> Html {
    let style = use_style_macro::use_style!(
        content: ${p.st.v()};
        ${p.st.s()} { margin: ${p.st.m()}; }
        @media ${p.st.q()} { order: 1; }
    );
    html! { <div data-n={p.id.to_string()} class={style}>{p.children.clone()}</div> }
}

#[component]
fn ByUseStyleTwice(p: &P) -> Html {
    let other = use_style_fn(Syntax::Literal.sheet(p.st));
    let style = use_style!(
        "content: ${v}; ${s} { margin: ${m}; } @media ${q} { order: 1; }",
        v = p.st.v(),
        s = p.st.s(),
        m = p.st.m(),
        q = p.st.q()
    );
    assert_eq!(other.get_class_name(), style.get_class_name());
    html! { <div data-n={p.id.to_string()} class={style}>{p.children.clone()}</div> }
}

#[styled_component]
fn ByStyled(p: &P) -> Html {
    html! {
        <div data-n={p.id.to_string()} class={css!(
            "content: ${v}; ${s} { margin: ${m}; } @media ${q} { order: 1; }",
            v = p.st.v(), s = p.st.s(), m = p.st.m(), q = p.st.q()
        )}>{p.children.clone()}</div>
    }
}

#[styled_component(ByStyledNamed)]
fn by_styled_named(p: &P) -> Html {
    let class = css!(
        "content: ${v}; ${s} { margin: ${m}; } @media ${q} { order: 1; }",
        v = p.st.v(),
        s = p.st.s(),
        m = p.st.m(),
        q = p.st.q()
    );
    html! { <div data-n={p.id.to_string()} class={classes!(class)}>{p.children.clone()}</div> }
}

#[styled_component_impl]
#[component(ByStyledImpl)]
fn by_styled_impl(P { id, st, children, .. }: &P) -> Html {
    let class: Classes = css!(
        "content: ${v}; ${s} { margin: ${m}; } @media ${q} { order: 1; }",
        v = st.v(),
        s = st.s(),
        m = st.m(),
        q = st.q()
    )
    .into();
    html! { <div data-n={id.to_string()} {class}>{children.clone()}</div> }
}

#[styled_component]
fn ByStyledInline(p: &P) -> Html {
    html! {
        <div data-n={p.id.to_string()} class={css!(
            content: ${p.st.v()};
            ${p.st.s()} { margin: ${p.st.m()}; }
            @media ${p.st.q()} { order: 1; }
        )}>{p.children.clone()}</div>
    }
}

#[styled_component]
fn ByStyledClosure(p: &P) -> Html {
    let st = p.st;
    let make = move |m: String| {
        css!("content: ${v}; ${s} { margin: ${m}; } @media ${q} { order: 1; }", v = st.v(), s = st.s(), m = m, q = st.q())
    };
    html! {
        <>
            { for [p.st.m()].into_iter().map(|m| html! { <div data-n={p.id.to_string()} class={make(m)}>{p.children.clone()}</div> }) }
        </>
    }
}

#[styled_component]
fn ByStyledStatic(p: &P) -> Html {
    html! {
        <div data-n={p.id.to_string()} class={css!("content: red; p { margin: 7px; } @media print { order: 1; }")}>
            {p.children.clone()}
        </div>
    }
}

#[styled_component]
fn ByStyledNested(p: &P) -> Html {
    let source = || {
        css!(
            "content: ${v}; ${s} { margin: ${m}; } @media ${q} { order: 1; }",
            v = p.st.v(),
            s = p.st.s(),
            m = p.st.m(),
            q = p.st.q()
        )
    };
    html! {
        <div data-n={p.id.to_string()} class={source()}>
            <p data-n={p.id.to_string()} class={source()}></p>
            {p.children.clone()}
        </div>
    }
}

#[derive(Properties, Clone, PartialEq)]
struct WithClass {
    id: usize,
    class: Classes,
    children: Children,
}

#[component]
fn Leaf(p: &WithClass) -> Html {
    html! { <div data-n={p.id.to_string()} class={p.class.clone()}>{p.children.clone()}</div> }
}

#[derive(Properties, Clone, PartialEq)]
struct WithSource {
    id: usize,
    css: StyleSource,
    children: Children,
}

#[component]
fn LeafUse(p: &WithSource) -> Html {
    let style = use_style(p.css.clone());
    html! { <div data-n={p.id.to_string()} class={style}>{p.children.clone()}</div> }
}

#[component]
fn ByPassedStyle(p: &P) -> Html {
    let style = use_style(p.st.text());
    html! {
        <ManagerProvider manager={p.under.clone()}>
            <Leaf id={p.id} class={style}>{p.children.clone()}</Leaf>
        </ManagerProvider>
    }
}

#[styled_component]
fn ByPassedSource(p: &P) -> Html {
    let source = css!(
        "content: ${v}; ${s} { margin: ${m}; } @media ${q} { order: 1; }",
        v = p.st.v(),
        s = p.st.s(),
        m = p.st.m(),
        q = p.st.q()
    );
    html! {
        <ManagerProvider manager={p.under.clone()}>
            <Leaf id={p.id} class={source}>{p.children.clone()}</Leaf>
        </ManagerProvider>
    }
}

#[styled_component]
fn ByPassedToUseStyle(p: &P) -> Html {
    let source = css!(
        "content: ${v}; ${s} { margin: ${m}; } @media ${q} { order: 1; }",
        v = p.st.v(),
        s = p.st.s(),
        m = p.st.m(),
        q = p.st.q()
    );
    html! {
        <ManagerProvider manager={p.under.clone()}>
            <LeafUse id={p.id} css={source}>{p.children.clone()}</LeafUse>
        </ManagerProvider>
    }
}

#[derive(Properties, Clone, PartialEq)]
struct GlobalP {
    how: GlobalHow,
    st: St,
}

#[styled_component]
fn ByGlobalStyled(p: &GlobalP) -> Html {
    html! {
        <Global css={css!("content: ${v}; ${s} { margin: ${m}; } @media ${q} { order: 1; }",
            v = p.st.v(), s = p.st.s(), m = p.st.m(), q = p.st.q())} />
    }
}

#[component]
fn ByGlobal(p: &GlobalP) -> Html {
    let st = p.st;
    match p.how {
        GlobalHow::Str => html! { <Global css={st.text().as_str()} /> },
        GlobalHow::String => html! { <Global css={st.text()} /> },
        GlobalHow::Sheet => html! { <Global css={st.text().parse::<Sheet>().unwrap()} /> },
        GlobalHow::Literal => html! {
            <Global css={css!("content: ${v}; ${s} { margin: ${m}; } @media ${q} { order: 1; }",
                v = st.v(), s = st.s(), m = st.m(), q = st.q())} />
        },
        GlobalHow::Styled => html! { <ByGlobalStyled how={p.how} {st} /> },
        GlobalHow::Inline => html! {
            <Global css={css!(
                content: ${st.v()};
                ${st.s()} { margin: ${st.m()}; }
                @media ${st.q()} { order: 1; }
            )} />
        },
    }
}

#[derive(Properties, Clone, PartialEq)]
struct FlipP {
    st: St,
    to: St,
    back: bool,
}

#[component]
fn Flip(p: &FlipP) -> Html {
    let stage = use_state(|| 0);
    let set = stage.setter();
    let last = if p.back { 2 } else { 1 };
    use_effect_with((*stage, last), move |(stage, last)| {
        if stage < last {
            set.set(stage + 1);
        }
    });
    let st = if *stage == 1 { p.to } else { p.st };
    html! { <Global css={st.text()} /> }
}

struct Yield(bool);

impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[hook]
fn use_suspending(times: u8) -> SuspensionResult<()> {
    let left = use_mut_ref(|| times);
    let mut left = left.borrow_mut();
    if *left == 0 {
        return Ok(());
    }
    *left -= 1;
    Err(Suspension::from_future(async {
        Yield(false).await;
    }))
}

#[derive(Properties, Clone, PartialEq)]
struct SuspendP {
    times: u8,
    children: Children,
}

#[component]
fn Suspending(p: &SuspendP) -> HtmlResult {
    use_suspending(p.times)?;
    Ok(html! { <>{p.children.clone()}</> })
}

pub fn view(nodes: &[Node], mgrs: &[StyleManager], n: &mut Counter) -> Html {
    nodes.iter().map(|node| one(node, mgrs, n)).collect()
}

fn pick(mgrs: &[StyleManager], i: u8) -> StyleManager {
    mgrs[i as usize % mgrs.len()].clone()
}

// Each node is in an element of its own: yew 0.22 looks for a component's next sibling in the wrong place
// if that sibling shows nothing, is reused, and something behind it was replaced.
fn one(node: &Node, mgrs: &[StyleManager], n: &mut Counter) -> Html {
    let id = n.next();
    match node {
        Node::Provider { mgr, kids } => {
            let kids = view(kids, mgrs, n);
            html! {
                <section data-p={id.to_string()}>
                    <ManagerProvider manager={pick(mgrs, *mgr)}>{kids}</ManagerProvider>
                </section>
            }
        }
        Node::Elem { how, st, under, kids } => {
            let kids = view(kids, mgrs, n);
            let (st, under) = (*st, pick(mgrs, *under));
            let html = match how {
                How::Str => html! { <ByStr {id} {st} {under}>{kids}</ByStr> },
                How::String => html! { <ByString {id} {st} {under}>{kids}</ByString> },
                How::Sheet => html! { <BySheet {id} {st} {under}>{kids}</BySheet> },
                How::Source => html! { <BySource {id} {st} {under}>{kids}</BySource> },
                How::UseStyleLiteral => html! { <ByUseStyleLiteral {id} {st} {under}>{kids}</ByUseStyleLiteral> },
                How::UseStyleInline => html! { <ByUseStyleInline {id} {st} {under}>{kids}</ByUseStyleInline> },
                How::UseStyleTwice => html! { <ByUseStyleTwice {id} {st} {under}>{kids}</ByUseStyleTwice> },
                How::Styled => html! { <ByStyled {id} {st} {under}>{kids}</ByStyled> },
                How::StyledNamed => html! { <ByStyledNamed {id} {st} {under}>{kids}</ByStyledNamed> },
                How::StyledImpl => html! { <ByStyledImpl {id} {st} {under}>{kids}</ByStyledImpl> },
                How::StyledInline => html! { <ByStyledInline {id} {st} {under}>{kids}</ByStyledInline> },
                How::StyledClosure => html! { <ByStyledClosure {id} {st} {under}>{kids}</ByStyledClosure> },
                How::StyledStatic => html! { <ByStyledStatic {id} {st} {under}>{kids}</ByStyledStatic> },
                How::StyledNested => html! { <ByStyledNested {id} {st} {under}>{kids}</ByStyledNested> },
                How::PassedStyle => html! { <ByPassedStyle {id} {st} {under}>{kids}</ByPassedStyle> },
                How::PassedSource => html! { <ByPassedSource {id} {st} {under}>{kids}</ByPassedSource> },
                How::PassedToUseStyle => html! { <ByPassedToUseStyle {id} {st} {under}>{kids}</ByPassedToUseStyle> },
            };
            html! { <section>{html}</section> }
        }
        Node::Global { how, st } => html! { <section><ByGlobal how={*how} st={*st} /></section> },
        Node::Flip { st, to, back } => {
            html! { <section><Flip key={back.to_string()} st={*st} to={*to} back={*back} /></section> }
        }
        Node::Suspend { times, kids } => {
            let kids = view(kids, mgrs, n);
            html! { <section><Suspense><Suspending times={*times}>{kids}</Suspending></Suspense></section> }
        }
        Node::Fragment(kids) => {
            let kids = view(kids, mgrs, n);
            html! { <>{kids}</> }
        }
    }
}

#[derive(Clone, Properties)]
pub struct PageProps {
    pub nodes: Vec<Node>,
    pub mgrs: Vec<StyleManager>,
}

impl PartialEq for PageProps {
    fn eq(&self, other: &Self) -> bool {
        self.nodes == other.nodes && self.mgrs == other.mgrs
    }
}

#[component]
pub fn Page(p: &PageProps) -> Html {
    let html = view(&p.nodes, &p.mgrs, &mut Counter::default());
    html! { <main>{html}</main> }
}

/// Something a tree asks for.
#[derive(Clone, Debug)]
pub struct Use {
    /// Number of the element, none for a global style.
    pub elem: Option<usize>,
    /// The manager it must come from, none for that of the thread.
    pub mgr: Option<usize>,
    pub syntax: Syntax,
    pub st: St,
    /// What it is once it is mounted, if that is something else.
    pub then: Option<St>,
    /// The number of the provider that gives this manager, if it has one.
    pub provider: Option<usize>,
}

/// The manager in context and the provider it comes from.
type Env = (Option<usize>, Option<usize>);

pub fn uses(nodes: &[Node], n_mgrs: usize, env: Env, n: &mut Counter, out: &mut Vec<Use>) {
    for node in nodes {
        let id = n.next();
        let (mgr, provider) = env;
        match node {
            Node::Provider { mgr, kids } => {
                uses(kids, n_mgrs, (Some(*mgr as usize % n_mgrs), Some(id)), n, out);
            }
            Node::Elem { how, st, under, kids } => {
                let inner = (Some(*under as usize % n_mgrs), None);
                let (mgr, provider) = if *how == How::PassedToUseStyle { inner } else { env };
                out.push(Use {
                    elem: Some(id),
                    mgr,
                    syntax: how.syntax(),
                    st: if *how == How::StyledStatic { STATIC } else { *st },
                    then: None,
                    provider,
                });
                uses(kids, n_mgrs, if how.passes() { inner } else { env }, n, out);
            }
            Node::Global { how, st } => out.push(Use {
                elem: None,
                mgr,
                syntax: how.syntax(),
                st: *st,
                then: None,
                provider,
            }),
            Node::Flip { st, to, back } => out.push(Use {
                elem: None,
                mgr,
                syntax: Syntax::Text,
                st: *st,
                then: (!back).then_some(*to),
                provider,
            }),
            Node::Suspend { kids, .. } | Node::Fragment(kids) => uses(kids, n_mgrs, env, n, out),
        }
    }
}
