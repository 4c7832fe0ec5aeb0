//! A model of style sheets and of what they mean, independent of the library.

use crate::css::{norm, Ev};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Decl {
    pub key: String,
    pub val: String,
}

/// A piece of a selector.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Piece {
    /// Text kept as it is, contains neither `&` nor `:root` outside strings.
    T(String),
    /// `&`
    Amp,
    /// `:root`
    Root,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Sel(pub Vec<Piece>);

impl Sel {
    pub fn text(&self) -> String {
        self.0
            .iter()
            .map(|p| match p {
                Piece::T(s) => s.as_str(),
                Piece::Amp => "&",
                Piece::Root => ":root",
            })
            .collect()
    }

    /// The documented scoping rule.
    pub fn scoped(&self, class: Option<&str>) -> String {
        match class {
            Some(c) => {
                let cls = format!(".{c}");
                if self.0.iter().any(|p| !matches!(p, Piece::T(_))) {
                    self.0
                        .iter()
                        .map(|p| match p {
                            Piece::T(s) => s.as_str(),
                            _ => cls.as_str(),
                        })
                        .collect()
                } else {
                    let t = self.text();
                    if t.starts_with(':') {
                        format!("{cls}{t}")
                    } else {
                        format!("{cls} {t}")
                    }
                }
            }
            None => self
                .0
                .iter()
                .map(|p| match p {
                    Piece::T(s) => s.as_str(),
                    _ => ":root",
                })
                .collect(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum At {
    Media,
    Supports,
    Container,
}

impl At {
    pub fn tag(self) -> &'static str {
        match self {
            At::Media => "@media",
            At::Supports => "@supports",
            At::Container => "@container",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Frame {
    pub sels: Vec<String>,
    pub decls: Vec<Decl>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Item {
    Decls(Vec<Decl>),
    Block { sels: Vec<Sel>, body: Vec<Body> },
    At { at: At, cond: String, items: Vec<Item> },
    Keyframes { name: String, frames: Vec<Frame> },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Body {
    D(Decl),
    At { at: At, cond: String, body: Vec<Body> },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Sheet(pub Vec<Item>);

/// How to read a model: as written, or rendered for a class / globally.
#[derive(Clone, Copy, Debug)]
pub enum View<'a> {
    Written,
    Rendered(Option<&'a str>),
}

impl View<'_> {
    fn sel(&self, s: &Sel) -> String {
        norm(&match self {
            View::Written => s.text(),
            View::Rendered(c) => s.scoped(*c),
        })
    }
    fn dangling(&self) -> Vec<String> {
        match self {
            View::Written => vec![],
            View::Rendered(Some(c)) => vec![format!(".{c}")],
            View::Rendered(None) => vec![":root".into()],
        }
    }
}

impl Sheet {
    pub fn events(&self, view: View<'_>) -> Vec<Ev> {
        let mut out = vec![];
        for i in &self.0 {
            i.events(view, &[], &mut out);
        }
        out
    }
}

fn with(path: &[String], at: At, cond: &str) -> Vec<String> {
    let mut p = path.to_vec();
    p.push(norm(&format!("{} {}", at.tag(), cond)));
    p
}

fn decl(d: &Decl, path: &[String], sels: &[String], out: &mut Vec<Ev>) {
    out.push(Ev::Decl {
        path: path.to_vec(),
        sels: sels.to_vec(),
        key: norm(&d.key),
        val: norm(&d.val),
    });
}

impl Item {
    pub fn events(&self, view: View<'_>, path: &[String], out: &mut Vec<Ev>) {
        match self {
            Item::Decls(ds) => {
                for d in ds {
                    decl(d, path, &view.dangling(), out);
                }
            }
            Item::Block { sels, body } => {
                let s: Vec<String> = sels.iter().map(|s| view.sel(s)).collect();
                for b in body {
                    b.events(path, &s, out);
                }
            }
            Item::At { at, cond, items } => {
                let p = with(path, *at, cond);
                for i in items {
                    i.events(view, &p, out);
                }
            }
            Item::Keyframes { name, frames } => {
                let mut p = path.to_vec();
                p.push(norm(&format!("@keyframes {name}")));
                out.push(Ev::Keyframes { path: p.clone() });
                for f in frames {
                    let s: Vec<String> = f.sels.iter().map(|m| norm(m)).collect();
                    for d in &f.decls {
                        decl(d, &p, &s, out);
                    }
                }
            }
        }
    }
}

impl Body {
    pub fn events(&self, path: &[String], sels: &[String], out: &mut Vec<Ev>) {
        match self {
            Body::D(d) => decl(d, path, sels, out),
            Body::At { at, cond, body } => {
                let p = with(path, *at, cond);
                for b in body {
                    b.events(&p, sels, out);
                }
            }
        }
    }
}

/// Characteristics of a sheet, for classification of cases.
#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub decls: usize,
    pub blocks: usize,
    pub ats: usize,
    pub nested_ats: usize,
    pub keyframes: usize,
    pub sels: usize,
    pub sel_lists: usize,
    pub anchored: usize,
    pub pseudo: usize,
    pub strings: usize,
    pub bracket_lists: usize,
    pub max_depth: usize,
    pub empties: usize,
}

impl Sheet {
    pub fn stats(&self) -> Stats {
        let mut s = Stats::default();
        fn d(x: &Decl, s: &mut Stats) {
            s.decls += 1;
            if x.val.contains('"') || x.val.contains('\'') {
                s.strings += 1;
            }
        }
        fn body(b: &Body, depth: usize, s: &mut Stats) {
            s.max_depth = s.max_depth.max(depth);
            match b {
                Body::D(x) => d(x, s),
                Body::At { body: bs, .. } => {
                    s.ats += 1;
                    s.nested_ats += 1;
                    if bs.is_empty() {
                        s.empties += 1;
                    }
                    bs.iter().for_each(|b| body(b, depth + 1, s));
                }
            }
        }
        fn item(i: &Item, depth: usize, s: &mut Stats) {
            s.max_depth = s.max_depth.max(depth);
            match i {
                Item::Decls(ds) => ds.iter().for_each(|x| d(x, s)),
                Item::Block { sels, body: bs } => {
                    s.blocks += 1;
                    s.sels += sels.len();
                    if sels.len() > 1 {
                        s.sel_lists += 1;
                    }
                    for x in sels {
                        let t = x.text();
                        if x.0.iter().any(|p| !matches!(p, Piece::T(_))) {
                            s.anchored += 1;
                        } else if t.starts_with(':') {
                            s.pseudo += 1;
                        }
                        if t.contains('"') || t.contains('\'') {
                            s.strings += 1;
                        }
                        if t.contains('(') && t.contains(',') {
                            s.bracket_lists += 1;
                        }
                    }
                    if bs.is_empty() {
                        s.empties += 1;
                    }
                    bs.iter().for_each(|b| body(b, depth + 1, s));
                }
                Item::At { items, .. } => {
                    s.ats += 1;
                    if depth > 0 {
                        s.nested_ats += 1;
                    }
                    if items.is_empty() {
                        s.empties += 1;
                    }
                    items.iter().for_each(|i| item(i, depth + 1, s));
                }
                Item::Keyframes { frames, .. } => {
                    s.keyframes += 1;
                    if frames.is_empty() {
                        s.empties += 1;
                    }
                    frames
                        .iter()
                        .for_each(|f| f.decls.iter().for_each(|x| d(x, s)));
                }
            }
        }
        self.0.iter().for_each(|i| item(i, 0, &mut s));
        s
    }
}

/// Chooses white space and comments while a model is written out. `bytes` is consumed cyclically;
/// with no bytes the layout is canonical.
pub struct Layout<'a> {
    bytes: &'a [u8],
    pos: usize,
    pub used: bool,
}

impl<'a> Layout<'a> {
    pub fn new(bytes: &'a [u8]) -> Self {
        Layout {
            bytes,
            pos: 0,
            used: false,
        }
    }
    pub fn next(&mut self) -> u8 {
        if self.bytes.is_empty() {
            return 0;
        }
        let b = self.bytes[self.pos % self.bytes.len()];
        // Not simply cyclic, else a short list gives a short period.
        let r = b.wrapping_add(
            ((self.pos / self.bytes.len()) as u8)
                .wrapping_mul(37)
                .wrapping_mul((b != 0) as u8),
        );
        self.pos += 1;
        r
    }

    /// Optional white space or comments.
    pub fn gap(&mut self) -> &'static str {
        const G: &[&str] = &[
            "",
            "",
            " ",
            "\n",
            "\n    ",
            "\t",
            "\r\n",
            "  \n\n  ",
            "/* c */",
            " /**/ ",
            "\n/* a; b { c: d; } \" ' @media & , */\n",
            "/***/",
            " /* * / ** */ /* x */ ",
            "",
            " ",
            "/*/ */",
            "/* </style> */",
        ];
        let b = self.next();
        if b != 0 {
            self.used = true;
        }
        G[(b % G.len() as u8) as usize]
    }

    pub fn choice(&mut self) -> bool {
        self.next() % 2 == 1
    }

    /// The text, with white space and comments added to white space outside strings and brackets.
    pub fn spread(&mut self, text: &str) -> String {
        let mut w = String::with_capacity(text.len());
        let (mut depth, mut quote, mut it) = (0, None, text.chars());
        while let Some(c) = it.next() {
            w.push(c);
            match (c, quote) {
                ('\\', _) => w.extend(it.next()),
                (c, Some(q)) if c == q => quote = None,
                (_, Some(_)) => {}
                ('"' | '\'', None) => quote = Some(c),
                ('(' | '[', None) => depth += 1,
                (')' | ']', None) => depth -= 1,
                (' ', None) if depth == 0 => w.push_str(self.gap()),
                _ => {}
            }
        }
        w
    }
}

impl Sheet {
    pub fn text(&self, layout: &[u8]) -> String {
        let mut l = Layout::new(layout);
        let mut w = String::new();
        w.push_str(l.gap());
        write_items(&self.0, &mut l, &mut w);
        w.push_str(l.gap());
        w
    }
}

fn write_decl(d: &Decl, l: &mut Layout<'_>, w: &mut String, semi: bool) {
    w.push_str(l.gap());
    w.push_str(&d.key);
    w.push_str(l.gap());
    w.push(':');
    let g = l.gap();
    w.push_str(if g.is_empty() { " " } else { g });
    w.push_str(&l.spread(&d.val));
    w.push_str(l.gap());
    if semi {
        w.push(';');
        w.push_str(l.gap());
    }
}

fn write_items(items: &[Item], l: &mut Layout<'_>, w: &mut String) {
    for i in items {
        w.push_str(l.gap());
        match i {
            Item::Decls(ds) => {
                for d in ds {
                    write_decl(d, l, w, true);
                }
            }
            Item::Block { sels, body } => {
                for (n, s) in sels.iter().enumerate() {
                    if n > 0 {
                        w.push_str(l.gap());
                        w.push(',');
                    }
                    w.push_str(l.gap());
                    w.push_str(&l.spread(&s.text()));
                }
                w.push_str(l.gap());
                write_body(body, l, w);
            }
            Item::At { at, cond, items } => {
                w.push_str(at.tag());
                w.push(' ');
                w.push_str(l.gap());
                w.push_str(&l.spread(cond));
                w.push_str(l.gap());
                w.push('{');
                w.push_str(l.gap());
                write_items(items, l, w);
                w.push_str(l.gap());
                w.push('}');
            }
            Item::Keyframes { name, frames } => {
                w.push_str("@keyframes ");
                w.push_str(l.gap());
                w.push_str(name);
                w.push_str(l.gap());
                w.push('{');
                w.push_str(l.gap());
                for f in frames {
                    w.push_str(l.gap());
                    for (n, s) in f.sels.iter().enumerate() {
                        if n > 0 {
                            w.push_str(l.gap());
                            w.push(',');
                            w.push_str(l.gap());
                        }
                        w.push_str(s);
                    }
                    w.push_str(l.gap());
                    let body: Vec<Body> = f.decls.iter().cloned().map(Body::D).collect();
                    write_body(&body, l, w);
                    w.push_str(l.gap());
                }
                w.push('}');
            }
        }
        w.push_str(l.gap());
        w.push('\n');
    }
}

fn write_body(body: &[Body], l: &mut Layout<'_>, w: &mut String) {
    w.push('{');
    w.push_str(l.gap());
    for (n, b) in body.iter().enumerate() {
        match b {
            Body::D(d) => {
                // The semicolon is optional before '}' and cannot be left out elsewhere.
                let last = n + 1 == body.len();
                let omit = last && l.choice();
                write_decl(d, l, w, !omit);
            }
            Body::At { at, cond, body } => {
                w.push_str(l.gap());
                w.push_str(at.tag());
                w.push(' ');
                w.push_str(l.gap());
                w.push_str(&l.spread(cond));
                w.push_str(l.gap());
                write_body(body, l, w);
                w.push_str(l.gap());
            }
        }
    }
    w.push_str(l.gap());
    w.push('}');
}
