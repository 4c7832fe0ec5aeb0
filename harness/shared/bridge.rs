//! Between the library's sheets and the independent model.

use std::borrow::Cow;
use stylist::ast::*;
use vcommon::css::{norm, split_list, Ev};
use vcommon::model::{self, Body, Item};

/// What a library sheet says, as written (selectors unscoped, none for dangling declarations).
pub fn written(s: &Sheet) -> Vec<Ev> {
    let mut out = vec![];
    for c in s.iter() {
        match c {
            ScopeContent::Block(b) => block(b, &[], &mut out),
            ScopeContent::Rule(r) => rule(r, &[], &[], &mut out),
        }
    }
    out
}

pub fn frags(f: &[StringFragment]) -> String {
    f.iter().map(|m| m.inner.as_ref()).collect()
}

fn block(b: &Block, path: &[String], out: &mut Vec<Ev>) {
    let sels: Vec<String> = b.condition.iter().map(|s| norm(&frags(&s.fragments))).collect();
    for c in b.content.iter() {
        content(c, path, &sels, out);
    }
}

fn rule(r: &Rule, path: &[String], sels: &[String], out: &mut Vec<Ev>) {
    let cond = norm(&frags(&r.condition));
    if cond.starts_with('@') {
        let mut p = path.to_vec();
        let kf = cond.starts_with("@keyframes");
        p.push(cond);
        if kf {
            out.push(Ev::Keyframes { path: p.clone() });
        }
        for c in r.content.iter() {
            content(c, &p, if kf { &[] } else { sels }, out);
        }
    } else {
        // A frame of a keyframes rule.
        let sels = split_list(&cond);
        for c in r.content.iter() {
            content(c, path, &sels, out);
        }
    }
}

fn content(c: &RuleBlockContent, path: &[String], sels: &[String], out: &mut Vec<Ev>) {
    match c {
        RuleBlockContent::StyleAttr(a) => out.push(Ev::Decl {
            path: path.to_vec(),
            sels: sels.to_vec(),
            key: norm(&a.key),
            val: norm(&frags(&a.value)),
        }),
        RuleBlockContent::Rule(r) => rule(r, path, sels, out),
        RuleBlockContent::Block(b) => block(b, path, out),
    }
}

/// Every text of a sheet in source order, punctuated as CSS.
pub fn print(s: &Sheet) -> String {
    let mut w = String::new();
    for c in s.iter() {
        match c {
            ScopeContent::Block(b) => p_block(b, &mut w),
            ScopeContent::Rule(r) => p_rule(r, &mut w),
        }
    }
    w
}

fn p_block(b: &Block, w: &mut String) {
    for (i, s) in b.condition.iter().enumerate() {
        if i > 0 {
            w.push_str(", ");
        }
        w.push_str(&frags(&s.fragments));
    }
    if b.condition.is_empty() {
        b.content.iter().for_each(|c| p_content(c, w));
    } else {
        w.push('{');
        b.content.iter().for_each(|c| p_content(c, w));
        w.push('}');
    }
}

fn p_rule(r: &Rule, w: &mut String) {
    w.push_str(&frags(&r.condition));
    w.push('{');
    r.content.iter().for_each(|c| p_content(c, w));
    w.push('}');
}

fn p_content(c: &RuleBlockContent, w: &mut String) {
    match c {
        RuleBlockContent::StyleAttr(a) => {
            w.push_str(&a.key);
            w.push(':');
            w.push_str(&frags(&a.value));
            w.push_str(";\n");
        }
        RuleBlockContent::Rule(r) => p_rule(r, w),
        RuleBlockContent::Block(b) => p_block(b, w),
    }
}

/// Builds library sheets from models. The bytes choose how texts are cut into fragments and whether
/// parts are borrowed or owned; with no bytes each text is one owned fragment.
pub struct Builder<'a> {
    bytes: &'a [u8],
    pos: usize,
    /// Cut texts into several fragments.
    pub split: bool,
    /// Never borrow (borrowed parts are leaked).
    pub owned: bool,
}

impl<'a> Builder<'a> {
    pub fn new(bytes: &'a [u8]) -> Self {
        Builder {
            bytes,
            pos: 0,
            split: true,
            owned: false,
        }
    }

    fn next(&mut self) -> u8 {
        if self.bytes.is_empty() {
            return 0;
        }
        let b = self.bytes[self.pos % self.bytes.len()];
        let r = b.wrapping_add(((self.pos / self.bytes.len()) as u8).wrapping_mul(53));
        self.pos += 1;
        r
    }

    fn borrow(&mut self) -> bool {
        self.next() % 4 == 3 && !self.owned
    }

    fn text(&mut self, s: &str) -> Cow<'static, str> {
        if self.borrow() {
            Cow::Borrowed(Box::leak(s.to_string().into_boxed_str()))
        } else {
            Cow::Owned(s.to_string())
        }
    }

    fn list<T: Clone + 'static>(&mut self, v: Vec<T>) -> Cow<'static, [T]> {
        if self.borrow() {
            Cow::Borrowed(Box::leak(v.into_boxed_slice()))
        } else {
            Cow::Owned(v)
        }
    }

    fn bow<T: Clone + 'static>(&mut self, v: T) -> Bow<'static, T> {
        if self.borrow() {
            Bow::Borrowed(Box::leak(Box::new(v)))
        } else {
            Bow::Boxed(Box::new(v))
        }
    }

    pub fn frags(&mut self, s: &str) -> Cow<'static, [StringFragment]> {
        let mut v = vec![];
        let mut rest = s;
        if !self.split {
            let f = StringFragment {
                inner: self.text(s),
            };
            return self.list(vec![f]);
        }
        loop {
            let b = self.next();
            let cut = match b % 8 {
                0..=2 => rest.len(),
                3 => 0,
                4 => rest.find(['&', ':', ' ', ',', '"']).map_or(rest.len(), |i| i + 1),
                _ => (b as usize / 8).min(rest.len()),
            };
            let cut = (0..=cut).rev().find(|i| rest.is_char_boundary(*i)).unwrap_or(0);
            let (a, z) = rest.split_at(cut);
            let f = match b % 3 {
                0 => StringFragment {
                    inner: self.text(a),
                },
                _ if self.owned => a.to_string().into(),
                1 => a.to_string().into(),
                _ => StringFragment::from(&*Box::leak(a.to_string().into_boxed_str())),
            };
            v.push(f);
            rest = z;
            if rest.is_empty() {
                break;
            }
            // No unbounded list of empty fragments.
            if v.len() > 12 {
                v.push(StringFragment {
                    inner: rest.to_string().into(),
                });
                break;
            }
        }
        self.list(v)
    }

    fn attr(&mut self, d: &model::Decl) -> StyleAttribute {
        StyleAttribute {
            key: self.text(&d.key),
            value: self.frags(&d.val),
        }
    }

    fn cond(&mut self, at: model::At, c: &str) -> Cow<'static, [StringFragment]> {
        self.frags(&format!("{} {}", at.tag(), c))
    }

    fn block(&mut self, i: &Item) -> Block {
        match i {
            Item::Decls(ds) => {
                let v = ds
                    .iter()
                    .map(|d| RuleBlockContent::StyleAttr(self.attr(d)))
                    .collect();
                Block {
                    condition: Cow::Borrowed(&[]),
                    content: self.list(v),
                }
            }
            Item::Block { sels, body } => {
                let c = sels
                    .iter()
                    .map(|s| Selector {
                        fragments: self.frags(&s.text()),
                    })
                    .collect();
                let v = body.iter().map(|b| self.body(b)).collect();
                Block {
                    condition: self.list(c),
                    content: self.list(v),
                }
            }
            _ => unreachable!(),
        }
    }

    fn body(&mut self, b: &Body) -> RuleBlockContent {
        match b {
            Body::D(d) => self.attr(d).into(),
            Body::At { at, cond, body } => {
                let v = body.iter().map(|b| self.body(b)).collect();
                let r = Rule {
                    condition: self.cond(*at, cond),
                    content: self.list(v),
                };
                RuleBlockContent::Rule(self.bow(r))
            }
        }
    }

    fn rule(&mut self, i: &Item) -> Rule {
        match i {
            Item::At { at, cond, items } => {
                let v = items
                    .iter()
                    .map(|i| match i {
                        Item::Decls(_) | Item::Block { .. } => {
                            let b = self.block(i);
                            RuleBlockContent::Block(self.bow(b))
                        }
                        _ => {
                            let r = self.rule(i);
                            RuleBlockContent::Rule(self.bow(r))
                        }
                    })
                    .collect();
                Rule {
                    condition: self.cond(*at, cond),
                    content: self.list(v),
                }
            }
            Item::Keyframes { name, frames } => {
                let v = frames
                    .iter()
                    .map(|f| {
                        let v = f.decls.iter().map(|d| self.attr(d).into()).collect();
                        let r = Rule {
                            condition: self.frags(&f.sels.join(", ")),
                            content: self.list(v),
                        };
                        RuleBlockContent::Rule(self.bow(r))
                    })
                    .collect();
                Rule {
                    condition: self.frags(&format!("@keyframes {name}")),
                    content: self.list(v),
                }
            }
            _ => unreachable!(),
        }
    }

    pub fn sheet(&mut self, s: &model::Sheet) -> Sheet {
        let v: Vec<ScopeContent> =
            s.0.iter()
                .map(|i| match i {
                    Item::Decls(_) | Item::Block { .. } => ScopeContent::Block(self.block(i)),
                    _ => ScopeContent::Rule(self.rule(i)),
                })
                .collect();
        match self.next() % 4 {
            0 | 1 => Sheet::from(v),
            _ if self.owned => Sheet::from(v),
            2 => Sheet::from(Cow::Owned(v)),
            _ => Sheet::from(&*Box::leak(v.into_boxed_slice())),
        }
    }
}
