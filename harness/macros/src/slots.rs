//! The places of a style sheet's model at which text can be interpolated.

use vcommon::model::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Value,
    Selector,
    Condition,
    KeyframesName,
    Frame,
}

pub enum Slot<'a> {
    Text(Kind, &'a mut String),
    Anchor(&'a mut Piece),
}

pub fn visit(s: &mut Sheet, f: &mut dyn FnMut(Slot<'_>)) {
    fn decls(ds: &mut [Decl], f: &mut dyn FnMut(Slot<'_>)) {
        for d in ds {
            f(Slot::Text(Kind::Value, &mut d.val));
        }
    }
    fn body(bs: &mut [Body], f: &mut dyn FnMut(Slot<'_>)) {
        for b in bs {
            match b {
                Body::D(d) => f(Slot::Text(Kind::Value, &mut d.val)),
                Body::At { cond, body: bs, .. } => {
                    f(Slot::Text(Kind::Condition, cond));
                    body(bs, f);
                }
            }
        }
    }
    fn items(is: &mut [Item], f: &mut dyn FnMut(Slot<'_>)) {
        for i in is {
            match i {
                Item::Decls(ds) => decls(ds, f),
                Item::Block { sels, body: bs } => {
                    for s in sels {
                        for p in &mut s.0 {
                            match p {
                                Piece::T(t) => f(Slot::Text(Kind::Selector, t)),
                                p => f(Slot::Anchor(p)),
                            }
                        }
                    }
                    body(bs, f);
                }
                Item::At { cond, items: is, .. } => {
                    f(Slot::Text(Kind::Condition, cond));
                    items(is, f);
                }
                Item::Keyframes { name, frames } => {
                    f(Slot::Text(Kind::KeyframesName, name));
                    for fr in frames {
                        for s in &mut fr.sels {
                            f(Slot::Text(Kind::Frame, s));
                        }
                        decls(&mut fr.decls, f);
                    }
                }
            }
        }
    }
    items(&mut s.0, f)
}

/// Whether a position of a text is inside a quoted string, per character; the quotes are not.
pub fn in_string(text: &str) -> Vec<bool> {
    let mut out = vec![];
    let mut quote: Option<char> = None;
    let mut esc = false;
    for c in text.chars() {
        match quote {
            Some(q) if !esc && c == q => {
                quote = None;
                out.push(false);
            }
            Some(_) => out.push(true),
            None => {
                if !esc && (c == '"' || c == '\'') {
                    quote = Some(c);
                }
                out.push(false);
            }
        }
        esc = !esc && c == '\\';
    }
    out
}
