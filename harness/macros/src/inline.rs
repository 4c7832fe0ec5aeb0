//! C13: inline macros against what their tokens spell.

use crate::batch::{Code, Mode, Outcome, Rustc};
use crate::literal::expression;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use vcommon::css;
use vcommon::model::{self, At, Decl, Piece, Sel, View};
use vcommon::run::Rec;

/// A token of inline CSS.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum T {
    /// An identifier, with its dashes.
    I(String),
    /// A number with or without a unit.
    N(String),
    /// A quoted string, as it is written in CSS and Rust.
    S(String),
    P(char),
    F(String, Vec<T>),
    Paren(Vec<T>),
    Bracket(Vec<T>),
    /// `${...}` shown as the text.
    E(String, u8),
}

/// Where an interpolation is.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place {
    Key,
    Value,
    Selector,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Key {
    I(String),
    E(String, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum B {
    D(Key, Vec<T>),
    At(bool, Vec<T>, Vec<B>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C {
    D(Key, Vec<T>),
    Block(Vec<Vec<T>>, Vec<B>),
    At(bool, Vec<T>, Vec<C>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub items: Vec<C>,
    pub layout: Vec<u8>,
    pub form: u8,
}

// ---------------------------------------------------------------- what the tokens spell

#[derive(Clone, PartialEq)]
enum Flat {
    Ident(String),
    Num(String),
    Str(String),
    Punct(char),
    Open(char),
    Close(char),
    Expr(String),
}

fn flatten(ts: &[T], out: &mut Vec<Flat>) {
    for t in ts {
        match t {
            T::I(s) => out.push(Flat::Ident(s.clone())),
            T::N(s) => out.push(Flat::Num(s.clone())),
            T::S(s) => out.push(Flat::Str(s.clone())),
            T::P(c) => out.push(Flat::Punct(*c)),
            T::F(n, a) => {
                out.push(Flat::Ident(n.clone()));
                out.push(Flat::Open('('));
                flatten(a, out);
                out.push(Flat::Close(')'));
            }
            T::Paren(a) => {
                out.push(Flat::Open('('));
                flatten(a, out);
                out.push(Flat::Close(')'));
            }
            T::Bracket(a) => {
                out.push(Flat::Open('['));
                flatten(a, out);
                out.push(Flat::Close(']'));
            }
            T::E(s, _) => out.push(Flat::Expr(s.clone())),
        }
    }
}

/// The text of tokens, with white space where the documentation says so.
pub fn spell(ts: &[T], condition: bool) -> String {
    let mut f = vec![];
    flatten(ts, &mut f);
    let mut s = String::new();
    for (i, t) in f.iter().enumerate() {
        if i > 0 {
            let l = &f[i - 1];
            let ends = matches!(l, Flat::Close(_) | Flat::Ident(_) | Flat::Num(_) | Flat::Str(_) | Flat::Punct('*' | '&'));
            let starts = matches!(t, Flat::Ident(_) | Flat::Num(_) | Flat::Str(_) | Flat::Punct('*' | '#'));
            let sign = matches!(l, Flat::Num(_) | Flat::Str(_)) && *t == Flat::Punct('-');
            let keyword = condition
                && matches!(l, Flat::Ident(k) if k == "and" || k == "or" || k == "not")
                && *t == Flat::Open('(')
                && !(i > 1 && f[i - 2] == Flat::Punct(':'));
            if ends && starts || sign || keyword {
                s.push(' ');
            }
        }
        match t {
            Flat::Ident(t) | Flat::Num(t) | Flat::Str(t) | Flat::Expr(t) => s.push_str(t),
            Flat::Punct(c) | Flat::Open(c) | Flat::Close(c) => s.push(*c),
        }
    }
    s
}

/// Splits a selector's text at `&` and `:root` outside quoted strings.
fn pieces(text: &str) -> Sel {
    let mut out = vec![];
    let mut cur = String::new();
    let strs = crate::slots::in_string(text);
    let chars: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < chars.len() {
        let rest: String = chars[i..].iter().take(5).collect();
        let p = if strs[i] {
            None
        } else if chars[i] == '&' {
            Some((Piece::Amp, 1))
        } else if rest == ":root" {
            Some((Piece::Root, 5))
        } else {
            None
        };
        match p {
            Some((p, n)) => {
                if !cur.is_empty() {
                    out.push(Piece::T(std::mem::take(&mut cur)));
                }
                out.push(p);
                i += n;
            }
            None => {
                cur.push(chars[i]);
                i += 1;
            }
        }
    }
    if !cur.is_empty() {
        out.push(Piece::T(cur));
    }
    Sel(out)
}

fn key_text(k: &Key) -> String {
    match k {
        Key::I(s) | Key::E(s, _) => s.clone(),
    }
}

impl Case {
    /// The style the tokens spell.
    pub fn model(&self) -> model::Sheet {
        fn decl(k: &Key, v: &[T]) -> Decl {
            Decl {
                key: key_text(k),
                val: spell(v, false),
            }
        }
        fn at(media: bool) -> At {
            if media {
                At::Media
            } else {
                At::Supports
            }
        }
        fn body(b: &B) -> model::Body {
            match b {
                B::D(k, v) => model::Body::D(decl(k, v)),
                B::At(m, c, bs) => model::Body::At {
                    at: at(*m),
                    cond: spell(c, true),
                    body: bs.iter().map(body).collect(),
                },
            }
        }
        fn items(cs: &[C]) -> Vec<model::Item> {
            let mut out = vec![];
            for c in cs {
                match c {
                    C::D(k, v) => {
                        let d = decl(k, v);
                        match out.last_mut() {
                            Some(model::Item::Decls(ds)) => ds.push(d),
                            _ => out.push(model::Item::Decls(vec![d])),
                        }
                    }
                    C::Block(sels, bs) => out.push(model::Item::Block {
                        sels: sels.iter().map(|s| pieces(&spell(s, false))).collect(),
                        body: bs.iter().map(body).collect(),
                    }),
                    C::At(m, c, cs) => out.push(model::Item::At {
                        at: at(*m),
                        cond: spell(c, true),
                        items: items(cs),
                    }),
                }
            }
            out
        }
        model::Sheet(items(&self.items))
    }

    pub fn code(&self) -> Code {
        let (pre, call) = self.call(&[]);
        Code {
            items: String::new(),
            body: format!("{pre}vec![Box::new({call})]"),
        }
    }

    /// Does `f` for each interpolation, in order.
    pub fn exprs(&mut self, f: &mut dyn FnMut(Place, &mut String)) {
        fn ts(v: &mut [T], sel: Place, f: &mut dyn FnMut(Place, &mut String)) {
            for t in v {
                match t {
                    T::E(s, _) => f(sel, s),
                    T::F(_, a) | T::Paren(a) | T::Bracket(a) => ts(a, sel, f),
                    _ => {}
                }
            }
        }
        fn key(k: &mut Key, f: &mut dyn FnMut(Place, &mut String)) {
            if let Key::E(s, _) = k {
                f(Place::Key, s)
            }
        }
        fn body(bs: &mut [B], f: &mut dyn FnMut(Place, &mut String)) {
            for b in bs {
                match b {
                    B::D(k, v) => {
                        key(k, f);
                        ts(v, Place::Value, f);
                    }
                    B::At(_, c, b) => {
                        ts(c, Place::Value, f);
                        body(b, f);
                    }
                }
            }
        }
        fn items(cs: &mut [C], f: &mut dyn FnMut(Place, &mut String)) {
            for c in cs {
                match c {
                    C::D(k, v) => {
                        key(k, f);
                        ts(v, Place::Value, f);
                    }
                    C::Block(s, b) => {
                        for s in s {
                            ts(s, Place::Selector, f);
                        }
                        body(b, f);
                    }
                    C::At(_, c, b) => {
                        ts(c, Place::Value, f);
                        items(b, f);
                    }
                }
            }
        }
        items(&mut self.items, f)
    }

    /// Statements and the invocation; an interpolation of `mark_of(k)` is written as `sources[k]`.
    pub fn call(&self, sources: &[String]) -> (String, String) {
        let mut w = Writer {
            l: model::Layout::new(&self.layout),
            sources,
            out: String::new(),
            pre: String::new(),
            exprs: 0,
            tight: false,
        };
        w.items(&self.items);
        let call = match self.form % 8 {
            0 => format!("::stylist::css!({})", w.out),
            1 => format!("::stylist::style!{{{}}}", w.out),
            2 => format!("::stylist::global_style![{}]", w.out),
            3 => format!("::stylist::ast::sheet!({})", w.out),
            _ => format!("::stylist::ast::sheet! {{\n{}\n}}", w.out),
        };
        (w.pre, call)
    }
}

// ---------------------------------------------------------------- the tokens as Rust source

pub struct Writer<'a> {
    l: model::Layout<'a>,
    sources: &'a [String],
    pub out: String,
    pub pre: String,
    exprs: usize,
    /// The next token may not be separated from the last one.
    tight: bool,
}

impl Writer<'_> {
    fn gap(&mut self) {
        const G: &[&str] = &[" ", " ", "\n", "\n        ", "  ", " /* c */ ", " // c; }\n", "\t", " "];
        let n = self.l.next() as usize;
        self.out.push_str(G[n % G.len()]);
    }

    /// Puts `t` next, apart from what is there where the Rust lexer needs it to be.
    fn put(&mut self, t: &str) {
        let last = self.out.chars().last();
        let first = t.chars().next().unwrap_or(' ');
        let word = |c: char| c.is_alphanumeric() || c == '_';
        let apart = match last {
            None => false,
            Some(l) if l.is_whitespace() => false,
            // Words join, prefixes of literals are reserved, numbers take dots.
            Some(l) if word(l) => word(first) || matches!(first, '#' | '"' | '\'' | '.' | '-'),
            Some('"') => word(first) || first == '#',
            Some('/') => matches!(first, '/' | '*'),
            Some('-') => first == '-',
            Some('\'') => true,
            _ => false,
        };
        if apart {
            if self.tight {
                // Only ever asked for where the lexer keeps the tokens apart.
            } else {
                self.gap();
            }
        } else if !self.tight && self.l.next() % 3 == 1 {
            self.gap();
        }
        self.tight = false;
        self.out.push_str(t);
    }

    /// An identifier; Rust's words in it may be written as raw identifiers.
    fn ident(&mut self, s: &str) {
        if s == crate::faults::HOLE || self.l.next() % 6 != 5 {
            return self.put(s);
        }
        let parts: Vec<String> = s
            .split('-')
            .map(|p| {
                let word = p.starts_with(|c: char| c.is_alphabetic() || c == '_');
                if word && !matches!(p, "_" | "self" | "Self" | "super" | "crate") && self.l.next() % 3 != 0 {
                    format!("r#{p}")
                } else {
                    p.to_string()
                }
            })
            .collect();
        self.put(&parts.join("-"));
    }

    fn tokens(&mut self, ts: &[T]) {
        for t in ts {
            match t {
                T::I(s) => self.ident(s),
                T::N(s) | T::S(s) => self.put(s),
                T::P(c) => self.put(&c.to_string()),
                T::F(n, a) => {
                    self.ident(n);
                    self.put("(");
                    self.tokens(a);
                    self.put(")");
                }
                T::Paren(a) => {
                    self.put("(");
                    self.tokens(a);
                    self.put(")");
                }
                T::Bracket(a) => {
                    self.put("[");
                    self.tokens(a);
                    self.put("]");
                }
                T::E(s, how) => self.expr(s, *how),
            }
        }
    }

    fn expr(&mut self, text: &str, how: u8) {
        let (pre, e) = match (0..self.sources.len()).find(|k| crate::literal::mark_of(*k) == text) {
            Some(k) => (String::new(), self.sources[k].clone()),
            None => expression(text, how, self.exprs),
        };
        self.exprs += 1;
        self.pre.push_str(&pre);
        self.put("$");
        self.out.push_str(&format!("{{{e}}}"));
    }

    fn key(&mut self, k: &Key) {
        match k {
            Key::I(s) => self.ident(s),
            Key::E(s, how) => self.expr(s, *how),
        }
    }

    fn decl(&mut self, k: &Key, v: &[T]) {
        self.gap();
        self.key(k);
        self.put(":");
        self.tokens(v);
        self.put(";");
    }

    fn at(&mut self, media: bool, c: &[T]) {
        self.gap();
        self.put("@");
        self.put(if media { "media" } else { "supports" });
        self.tokens(c);
        self.put("{");
    }

    fn body(&mut self, bs: &[B]) {
        for b in bs {
            match b {
                B::D(k, v) => self.decl(k, v),
                B::At(m, c, bs) => {
                    self.at(*m, c);
                    self.body(bs);
                    self.put("}");
                }
            }
        }
    }

    pub fn items(&mut self, cs: &[C]) {
        for c in cs {
            match c {
                C::D(k, v) => self.decl(k, v),
                C::Block(sels, bs) => {
                    self.gap();
                    for (n, s) in sels.iter().enumerate() {
                        if n > 0 {
                            self.put(",");
                        }
                        self.tokens(s);
                    }
                    self.put("{");
                    self.body(bs);
                    self.put("}");
                }
                C::At(m, c, cs) => {
                    self.at(*m, c);
                    self.items(cs);
                    self.put("}");
                }
            }
        }
    }
}

// ---------------------------------------------------------------- generators

const WORDS: &[&str] = &[
    "a", "b", "div", "span", "red", "solid", "auto", "type", "for", "in", "static", "move", "match", "async", "self",
    "fn", "Upper", "x1", "h2", "größe", "é", "snake_case", "_u", "h", "n", "br", "as", "true", "dyn",
];

/// `plain`: without a leading dash.
pub fn ident(plain: bool) -> BoxedStrategy<String> {
    let part = prop_oneof![
        4 => select(WORDS).prop_map(String::from),
        2 => "[a-df-z][a-z0-9]{0,4}",
    ];
    let more = prop_oneof![
        4 => select(WORDS).prop_map(String::from),
        2 => "[a-z]{1,3}",
        // Digits after a dash are a literal of their own for Rust.
        2 => "[1-9][0-9]{0,2}",
        1 => "[1-9](xl|col|px|d)",
    ];
    let lead = if plain {
        Just("").boxed()
    } else {
        prop_oneof![6 => Just(""), 1 => Just("-"), 1 => Just("--")].boxed()
    };
    (lead, part, vec((select(vec!["-", "-", "-", "--"]), more), 0..3))
        .prop_map(|(l, p, m)| {
            let mut s = format!("{l}{p}");
            for (d, m) in m {
                s.push_str(d);
                s.push_str(&m);
            }
            s
        })
        .boxed()
}

fn number() -> BoxedStrategy<String> {
    (
        "(0|[1-9][0-9]{0,3}|0\\.[0-9]{1,2}|[1-9][0-9]?\\.[0-9]{1,3})",
        select(vec!["", "", "px", "rem", "vh", "vw", "fr", "deg", "s", "ms", "pt", "ch", "n"]),
    )
        .prop_map(|(n, u)| format!("{n}{u}"))
        .boxed()
}

fn string() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z0-9 ,.:;_-]{0,6}",
        2 => vec(select(vec![
            "{", "}", ";", ":", ",", "&", "@", "$", "/*", "*/", "//", "(", ")", "[", "]", ":root", "#", "!", " ", "'",
            "\\\\", "\\\"", "\\'", "é", "🦀", "${x}", "</style>", "%", "a, b", "  ", "\\n", "\\t",
        ]), 0..4).prop_map(|v| v.concat()),
    ]
    .prop_map(|s| format!("\"{s}\""))
    .boxed()
}

fn hex() -> BoxedStrategy<Vec<T>> {
    prop_oneof![
        "[a-f][0-9a-f]{2}([0-9a-f]{3})?".prop_map(T::I),
        // Not what the Rust lexer reads as an exponent or another radix.
        "[1-9][0-9]{2}([0-9]{3})?".prop_map(T::N),
        "[1-9][a-df]([0-9a-f]|[0-9a-f]{4})".prop_map(T::N),
    ]
    .prop_map(|t| vec![T::P('#'), t])
    .boxed()
}

/// Whether the text of an interpolation leaves the sheet as it is.
fn expr_value() -> BoxedStrategy<T> {
    (
        select(vec![
            "red", "12px", "#fff", "4em", "#44444e", "\"s\"", "1", "-3", "2.5", "10.5", "1000", "0.01", "-0.5", "16", "url(a/b.png)", "calc(100% - 1px)", "x", "!important",
            "a b", "var(--y)", "true", "é", "a, b", "\";}\"",
        ]),
        any::<u8>(),
    )
        .prop_map(|(s, h)| T::E(s.to_string(), h))
        .boxed()
}

/// One component of a value.
fn component(depth: u32) -> BoxedStrategy<Vec<T>> {
    let leaf = prop_oneof![
        4 => ident(false).prop_map(|s| vec![T::I(s)]),
        4 => number().prop_map(|s| vec![T::N(s)]),
        2 => number().prop_map(|s| vec![T::P('-'), T::N(s)]),
        2 => "[1-9][0-9]?(\\.5)?".prop_map(|s| vec![T::N(s), T::P('%')]),
        1 => "[1-9][0-9]?".prop_map(|s| vec![T::P('-'), T::N(s), T::P('%')]),
        2 => hex(),
        2 => string().prop_map(|s| vec![T::S(s)]),
        2 => expr_value().prop_map(|e| vec![e]),
        1 => (expr_value(), select(vec!["px", "s"])).prop_map(|(e, u)| vec![e, T::I(u.into())]),
        1 => expr_value().prop_map(|e| vec![T::P('-'), e]),
        1 => (ident(true), expr_value()).prop_map(|(i, e)| vec![T::I(i), e]),
    ];
    if depth == 0 {
        return leaf.boxed();
    }
    prop_oneof![
        8 => leaf,
        3 => (ident(false), vec((component(depth - 1), select(vec![',', ',', ' ', '/'])), 0..4))
            .prop_map(|(n, a)| vec![T::F(n, glue(a))]),
    ]
    .boxed()
}

/// Puts components one after the other, where they do not become something else: an identifier joins
/// a dash after it.
fn glue(parts: Vec<(Vec<T>, char)>) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    let n = parts.len();
    for (i, (p, sep)) in parts.into_iter().enumerate() {
        let dash = |t: &T| match t {
            T::P('-') => true,
            T::I(s) | T::F(s, _) => s.starts_with('-'),
            _ => false,
        };
        if matches!(out.last(), Some(T::I(_))) && p.first().is_some_and(dash) {
            out.push(T::P(','));
        }
        out.extend(p);
        if i + 1 < n && sep != ' ' {
            out.push(T::P(sep));
        }
    }
    out
}

pub fn value() -> BoxedStrategy<Vec<T>> {
    vec((component(2), select(vec![' ', ' ', ' ', ',', ',', '/'])), 1..5)
        .prop_map(glue)
        .boxed()
}

fn attr() -> BoxedStrategy<T> {
    let val = prop_oneof![
        2 => string().prop_map(|s| vec![T::S(s)]),
        1 => ident(true).prop_map(|s| vec![T::I(s)]),
        1 => string().prop_map(|s| vec![T::S(s), T::I("i".into())]),
        1 => (select(vec!["\"v\"", "w", "\"a, b\""]), any::<u8>()).prop_map(|(s, h)| vec![T::E(s.into(), h)]),
    ];
    prop_oneof![
        2 => ident(true).prop_map(|s| T::Bracket(vec![T::I(s)])),
        3 => (ident(true), select(vec!["=", "~=", "|=", "^=", "$=", "*="]), val)
            .prop_map(|(i, op, v)| {
                let mut t = vec![T::I(i)];
                t.extend(op.chars().map(T::P));
                t.extend(v);
                T::Bracket(t)
            }),
    ]
    .boxed()
}

fn nth() -> BoxedStrategy<Vec<T>> {
    prop_oneof![
        Just(vec![T::I("odd".into())]),
        Just(vec![T::N("2n".into()), T::P('+'), T::N("1".into())]),
        Just(vec![T::N("2n".into()), T::P('-'), T::N("1".into())]),
        Just(vec![T::I("-n".into()), T::P('+'), T::N("3".into())]),
        Just(vec![T::I("n-1".into())]),
        Just(vec![T::N("3".into())]),
        Just(vec![T::N("2n".into()), T::I("of".into()), T::P('.'), T::I("a".into())]),
    ]
    .boxed()
}

/// A part of a compound selector after its first one.
fn part(depth: u32) -> BoxedStrategy<Vec<T>> {
    let leaf = prop_oneof![
        4 => ident(false).prop_map(|s| vec![T::P('.'), T::I(s)]),
        3 => select(vec!["hover", "focus-visible", "first-child", "checked"]).prop_map(|s| vec![T::P(':'), T::I(s.into())]),
        2 => select(vec!["before", "after", "first-letter", "-webkit-scrollbar"])
            .prop_map(|s| vec![T::P(':'), T::P(':'), T::I(s.into())]),
        2 => attr().prop_map(|a| vec![a]),
        2 => nth().prop_map(|a| vec![T::P(':'), T::F("nth-child".into(), a)]),
        1 => (select(vec![".e", ":hover", ".f.g", "[h=\"i, j\"]"]), any::<u8>()).prop_map(|(s, h)| vec![T::E(s.into(), h)]),
    ];
    if depth == 0 {
        return leaf.boxed();
    }
    prop_oneof![
        8 => leaf,
        2 => (select(vec!["not", "is", "where", "has"]), vec(complex(depth - 1, false), 1..4)).prop_map(|(n, l)| {
            let mut a = vec![];
            for (i, s) in l.into_iter().enumerate() {
                if i > 0 {
                    a.push(T::P(','));
                }
                a.extend(s);
            }
            vec![T::P(':'), T::F(n.into(), a)]
        }),
    ]
    .boxed()
}

/// `first`: at the start of a rule, where an identifier or interpolation before a colon is a property.
fn compound(depth: u32, first: bool) -> BoxedStrategy<Vec<T>> {
    let head = prop_oneof![
        3 => ident(true).prop_map(|s| vec![T::I(s)]),
        2 => Just(vec![T::P('&')]),
        1 => Just(vec![T::P('*')]),
        2 => ident(false).prop_map(|s| vec![T::P('.'), T::I(s)]),
        1 => ident(true).prop_map(|s| vec![T::P('#'), T::I(s)]),
        1 => Just(vec![T::P(':'), T::I("root".into())]),
        1 => select(vec!["hover", "first-child"]).prop_map(|s| vec![T::P(':'), T::I(s.into())]),
        1 => (select(vec!["div.selected", ".k", "&:hover", "#l"]), any::<u8>()).prop_map(|(s, h)| vec![T::E(s.into(), h)]),
    ];
    (head, vec(part(depth), 0..3))
        .prop_map(move |(mut h, p)| {
            let word = matches!(h[0], T::I(_) | T::E(..));
            for (i, p) in p.into_iter().enumerate() {
                let colon = matches!(p[0], T::P(':'));
                // `a:hover` at the start of a rule is read as a property.
                if i == 0 && first && word && colon {
                    h.insert(0, T::P('*'));
                }
                // An interpolation is not told apart from what is before it.
                h.extend(p);
            }
            h
        })
        .boxed()
}

fn complex(depth: u32, first: bool) -> BoxedStrategy<Vec<T>> {
    (
        compound(depth, first),
        vec((select(vec!['>', '+', '~', ' ', ' ']), compound(0, false)), 0..2),
    )
        .prop_map(|(mut s, rest)| {
            for (c, n) in rest {
                if c != ' ' {
                    s.push(T::P(c));
                } else if !matches!(n[0], T::I(_) | T::P('*' | '#')) {
                    // The documented way to write a descendant.
                    s.push(T::P('*'));
                }
                s.extend(n);
            }
            s
        })
        .boxed()
}

pub fn condition(media: bool) -> BoxedStrategy<Vec<T>> {
    let i = |s: &str| T::I(s.to_string());
    let feature = prop_oneof![
        3 => (select(vec!["min-width", "max-width", "min-height"]), number()).prop_map(move |(k, n)| vec![T::Paren(vec![i(k), T::P(':'), T::N(n)])]),
        1 => (select(vec!["max-width", "color"]), select(vec!["500px", "4em", "1"]), any::<u8>())
            .prop_map(move |(k, e, h)| vec![T::Paren(vec![i(k), T::P(':'), T::E(e.into(), h)])]),
        1 => Just(vec![T::Paren(vec![i("hover")])]),
        1 => Just(vec![T::Paren(vec![T::N("400px".into()), T::P('<'), T::P('='), i("width"), T::P('<'), T::P('='), T::N("700px".into())])]),
        1 => Just(vec![T::Paren(vec![i("min-aspect-ratio"), T::P(':'), T::N("16".into()), T::P('/'), T::N("9".into())])]),
        1 => (select(vec!["(max-width: 9px)", "(a: b) and (c: d)"]), any::<u8>()).prop_map(|(e, h)| vec![T::E(e.into(), h)]),
    ];
    let paren = (ident(false), value()).prop_map(|(k, v)| vec![T::Paren([vec![T::I(k), T::P(':')], v].concat())]);
    let term = if media {
        prop_oneof![
            2 => select(vec!["screen", "print", "all"]).prop_map(move |s| vec![T::I(s.into())]),
            1 => Just(vec![T::I("only".into()), T::I("screen".into())]),
            1 => Just(vec![T::I("not".into()), T::I("all".into())]),
            4 => feature,
        ]
        .boxed()
    } else {
        prop_oneof![
            4 => paren,
            1 => (ident(true), select(vec!["grid", "flex"])).prop_map(|(k, v)| {
                vec![T::Paren(vec![T::I("not".into()), T::Paren(vec![T::I(k), T::P(':'), T::I(v.into())])])]
            }),
            1 => complex(1, false).prop_map(|s| vec![T::F("selector".into(), s)]),
            1 => Just(vec![T::I("not".into()), T::Paren(vec![T::I("display".into()), T::P(':'), T::I("grid".into())])]),
            1 => (select(vec!["(display: grid)", "selector(a)"]), any::<u8>()).prop_map(|(e, h)| vec![T::E(e.into(), h)]),
        ]
        .boxed()
    };
    let seps = if media {
        vec!["and", "and", "or", ","]
    } else {
        vec!["and", "or"]
    };
    (vec((term, select(seps)), 1..4))
        .prop_map(|v| {
            let mut out: Vec<T> = vec![];
            for (n, (t, sep)) in v.into_iter().enumerate() {
                if n > 0 {
                    out.push(if sep == "," { T::P(',') } else { T::I(sep.into()) });
                }
                out.extend(t);
            }
            out
        })
        .boxed()
}

pub fn key() -> BoxedStrategy<Key> {
    prop_oneof![
        6 => select(vec![
            "color", "background-color", "margin", "font-family", "width", "type", "--x", "--main-1", "-webkit-mask", "z-index",
        ]).prop_map(|s| Key::I(s.into())),
        2 => ident(false).prop_map(Key::I),
        1 => (select(vec!["color", "--y", "border-top", "x"]), any::<u8>()).prop_map(|(s, h)| Key::E(s.into(), h)),
    ]
    .boxed()
}

pub fn body(depth: u32) -> BoxedStrategy<Vec<B>> {
    let d = (key(), value()).prop_map(|(k, v)| B::D(k, v));
    if depth == 0 {
        return vec(d, 0..4).boxed();
    }
    let at = (any::<bool>(), body(depth - 1))
        .prop_flat_map(|(m, b)| condition(m).prop_map(move |c| B::At(m, c, b.clone())));
    vec(prop_oneof![4 => d, 1 => at], 0..4).boxed()
}

pub fn content(depth: u32) -> BoxedStrategy<C> {
    let d = (key(), value()).prop_map(|(k, v)| C::D(k, v));
    let block = (complex(1, true), vec(complex(1, false), 0..3), body(depth.min(2))).prop_map(|(f, mut s, b)| {
        s.insert(0, f);
        C::Block(s, b)
    });
    if depth == 0 {
        return prop_oneof![2 => d, 3 => block].boxed();
    }
    let at = (any::<bool>(), vec(content(depth - 1), 0..4))
        .prop_flat_map(|(m, b)| condition(m).prop_map(move |c| C::At(m, c, b.clone())));
    prop_oneof![3 => d, 4 => block, 2 => at].boxed()
}

/// Makes something large: copies, lists, nesting.
fn grow(items: &mut Vec<C>, what: u8, at: u8, n: usize) {
    let at = at as usize;
    let len = items.len().max(1);
    let Some(item) = items.get_mut(at % len) else { return };
    let long = |v: &mut Vec<T>, comma: bool| {
        let part = v.clone();
        for _ in 0..n {
            // What is written without a comma may join.
            if comma || matches!(part[0], T::P(_) | T::I(_) | T::F(..)) || matches!(v.last(), Some(T::P(_))) {
                v.push(T::P(','));
            }
            v.extend(part.clone());
        }
    };
    let mut deep = |v: &mut Vec<T>| {
        for _ in 0..n.min(12) {
            let inner = std::mem::take(v);
            *v = vec![T::F("max".into(), inner)];
        }
    };
    fn decls<'a>(bs: &'a mut [B], out: &mut Vec<&'a mut Vec<T>>) {
        for b in bs {
            match b {
                B::D(_, v) => out.push(v),
                B::At(_, _, b) => decls(b, out),
            }
        }
    }
    match what {
        0 => {
            let c = item.clone();
            for _ in 0..n {
                items.insert(at % len, c.clone());
            }
        }
        1 => {
            let all = std::mem::take(items);
            *items = (0..n.min(10)).fold(all, |c, i| {
                let cond = vec![T::Paren(vec![T::I("min-width".into()), T::P(':'), T::N(format!("{i}px"))])];
                vec![C::At(true, cond, c)]
            });
        }
        2 => items.push(C::D(
            Key::I(format!("--{}", vec!["k"; n].join("-"))),
            vec![T::I(vec!["v"; n].join("-")), T::N("1".repeat(n.min(9))), T::S(format!("\"{}\"", "s é".repeat(n)))],
        )),
        _ => match item {
            C::D(_, v) if what < 6 => long(v, at % 2 == 0),
            C::D(_, v) => deep(v),
            C::Block(sels, bs) => match what {
                3 => {
                    let s: Vec<_> = (0..n).map(|i| vec![T::P('.'), T::I(format!("s{i}"))]).collect();
                    sels.extend(s);
                }
                4 => {
                    let s = sels.last().unwrap().clone();
                    for _ in 0..n {
                        sels.push(s.clone());
                    }
                }
                5 => {
                    let Some(b) = bs.get(at % bs.len().max(1)).cloned() else { return };
                    for _ in 0..n {
                        bs.push(b.clone());
                    }
                }
                6 => {
                    let all = std::mem::take(bs);
                    *bs = (0..n.min(10)).fold(all, |b, i| {
                        let cond = vec![T::Paren(vec![T::I("order".into()), T::P(':'), T::N(i.to_string())])];
                        vec![B::At(i % 2 == 0, cond, b)]
                    });
                }
                _ => {
                    let mut v = vec![];
                    decls(bs, &mut v);
                    let l = v.len().max(1);
                    match v.into_iter().nth(at % l) {
                        Some(v) if what == 7 => long(v, at % 2 == 0),
                        Some(v) => deep(v),
                        None => {}
                    }
                }
            },
            C::At(_, cond, cs) => {
                if what % 2 == 0 {
                    let part = cond.clone();
                    for _ in 0..n {
                        cond.push(T::P(','));
                        cond.extend(part.clone());
                    }
                } else if let Some(c) = cs.last().cloned() {
                    for _ in 0..n {
                        cs.push(c.clone());
                    }
                }
            }
        },
    }
}

pub fn strategy() -> BoxedStrategy<Case> {
    let big = prop_oneof![
        12 => Just(None),
        1 => (0..9u8, any::<u8>(), prop_oneof![2 => 1..8usize, 1 => 8..40usize]).prop_map(Some),
    ];
    (vec(content(2), 0..6), big, vec(any::<u8>(), 0..16), any::<u8>())
        .prop_map(|(mut items, big, layout, form)| {
            if let Some((what, at, n)) = big {
                items.truncate(3);
                grow(&mut items, what, at, n);
            }
            Case { items, layout, form }
        })
        .boxed()
}

pub fn classify(c: &Case, rec: &mut Rec) {
    let code = c.code().body;
    let st = c.model().stats();
    rec.class("nested at-rules", st.nested_ats > 0);
    rec.class("a selector list", st.sel_lists > 0);
    rec.class("a selector with & or :root", st.anchored > 0);
    rec.class("an interpolation", code.contains("${"));
    rec.class("raw identifiers", code.contains("r#"));
    rec.class("comments or line breaks between tokens", code.contains("/* c */") || code.contains("// c"));
    rec.nontrivial(st.decls > 0 && st.blocks + st.ats > 0);
}

fn one(c: &Case, code: &Code, o: Outcome) -> Result<(), String> {
    let shown = || format!("\n  source: {}", code.body);
    let outs = match o {
        Outcome::Rejected(m) => return Err(format!("does not compile: {m}{}", shown())),
        Outcome::Panicked(m) => return Err(format!("panics: {m}{}", shown())),
        Outcome::Accepted => return Err("was not run".into()),
        Outcome::Outputs(o) => o,
    };
    let [out] = &outs[..] else { return Err("not one output".into()) };
    if out.scoped.is_none() && out.global.is_none() {
        return Err("nothing was rendered".into());
    }
    let model = c.model();
    for (class, got) in [(Some("c"), &out.scoped), (None, &out.global)] {
        let Some(got) = got else { continue };
        let ev = css::read(got).map_err(|e| format!("the rendered text is not well-formed: {e}{}", shown()))?;
        let want = model.events(View::Rendered(class));
        if let Some(d) = css::diff(&want, &ev) {
            return Err(format!("says something else than its tokens: {d}{}\n  got: {got:?}", shown()));
        }
    }
    Ok(())
}

pub fn test(rustc: &Rustc, cases: &[Case]) -> Result<Vec<Result<(), String>>, String> {
    let codes: Vec<Code> = cases.iter().map(|c| c.code()).collect();
    let outs = rustc.eval(&codes, Mode::Run)?;
    Ok(cases
        .iter()
        .zip(&codes)
        .zip(outs)
        .map(|((c, code), o)| one(c, code, o))
        .collect())
}
