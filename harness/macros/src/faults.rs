//! C15: invocations with one fault do not compile, the same without it do.

use crate::batch::{lit, Code, Mode, Outcome, Rustc};
use crate::inline::{self, B, C, Key, T};
use crate::literal;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stylist::ast::Sheet as Ast;
use vcommon::run::Rec;
use vcommon::soup;

// ---------------------------------------------------------------- literal macros

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LitFault {
    /// One of the arguments is not given.
    Missing(u8),
    Unused(u8),
    Duplicate(u8),
    /// An argument without a name.
    Positional(u8),
    /// A comma is missing before an argument.
    NoComma(u8),
    NoValue(u8),
    NotDisplay(u8, u8),
    /// Something that is no string instead of the text.
    NotString(u8),
    /// A placeholder in which is no name.
    BadName(u16, u8),
    /// A text that may or may not be a style.
    Text(Vec<soup::Edit>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LitCase {
    case: literal::Case,
    fault: LitFault,
}

const NOT_DISPLAY: &[&str] = &[
    "()", "NoText", "Some(1)", "vec![\"a\"]", "[1, 2]", "std::path::Path::new(\"a\")", "(1, 2)", "&b\"red\"[..]", "|| 1", "None::<&str>",
    "Ok::<u8, u8>(1)", "std::time::Duration::from_secs(1)", "std::cell::RefCell::new(1)", "1..2",
];

const ITEMS: &str = "#[derive(Debug)] pub struct NoText;\n";

impl LitCase {
    /// The invocation without and with the fault, and whether the latter is one. None: it has no place
    /// in this invocation.
    fn codes(&self) -> Option<(String, String, bool)> {
        let b = self.case.build();
        let args: Vec<(String, String)> = b.args.iter().map(|(n, t, _)| (n.clone(), format!("{t:?}"))).collect();
        let write = |first: &str, args: &[(String, String)]| {
            let a: String = args.iter().map(|(n, e)| format!(", {n} = {e}")).collect();
            match self.case.form % 4 {
                0 => format!("::stylist::css!({first}{a})"),
                1 => format!("::stylist::style!({first}{a})"),
                2 => format!("::stylist::global_style!({first}{a})"),
                _ => format!("::stylist::ast::sheet!({first}{a})"),
            }
        };
        let text = lit(&b.literal, self.case.raw);
        let good = write(&text, &args);
        let pick = |k: u8| (!args.is_empty()).then(|| k as usize % args.len());
        let with = |k: usize, new: &str| {
            let mut a = args.clone();
            a.remove(k);
            // The arguments as they are written.
            let mut parts: Vec<String> = args.iter().map(|(n, e)| format!(", {n} = {e}")).collect();
            parts[k] = new.to_string();
            let s = write(&text, &[]);
            let at = s.len() - 1;
            format!("{}{}{}", &s[..at], parts.concat(), &s[at..])
        };
        // Perhaps with a comma at the end.
        let comma = |s: String, k: usize| {
            if k % 3 == 0 {
                format!("{},)", &s[..s.len() - 1])
            } else {
                s
            }
        };
        let bad = match &self.fault {
            LitFault::Missing(k) => {
                let mut a = args.clone();
                a.remove(pick(*k)?);
                comma(write(&text, &a), *k as usize / 8)
            }
            LitFault::Unused(k) => {
                let k = *k as usize;
                // Also names that look like those of others.
                let near = args.get(k % args.len().max(1)).map_or("x", |a| &a.0).trim_start_matches("r#");
                let names: Vec<String> = literal::NAMES
                    .iter()
                    .map(|s| s.to_string())
                    .chain(["_", "_unused", "__", "_b", "__x", "_0", "style", "class", "rest", "r#type", "\u{e9}x", "A", "UNUSED"].map(String::from))
                    .chain([format!("_{near}"), format!("{near}_"), format!("{near}1"), near.to_uppercase()])
                    .collect();
                let same = |a: &str, b: &str| a.trim_start_matches("r#") == b.trim_start_matches("r#");
                let name = (0..names.len())
                    .map(|d| &names[(k / 2 + d * 7) % names.len()])
                    .find(|n| args.iter().all(|a| !same(&a.0, n)))?;
                let value = ["\"unused\"", "\"\"", "5", "()", "{ 1 }", "String::new()"][k / 3 % 6];
                let at = [k % (args.len() + 1), args.len(), 0][k % 3];
                let mut a = args.clone();
                a.insert(at, (name.clone(), value.to_string()));
                comma(write(&text, &a), k)
            }
            LitFault::Duplicate(k) => {
                let how = *k as usize;
                let k = pick(*k)?;
                let mut a = args.clone();
                let mut again = args[k].clone();
                if how / 16 % 2 == 1 {
                    again.1 = "\"twice\"".into();
                }
                a.insert((k * 7 + how) % (args.len() + 1), again);
                comma(write(&text, &a), how / 4)
            }
            LitFault::Positional(k) => {
                let p = pick(*k)?;
                with(p, [", \"x\"", ", 5", &format!(", {}", args[p].0), ", (x = 1)"][*k as usize / 16 % 4])
            }
            LitFault::NoComma(k) => {
                let k = pick(*k)?;
                with(k, &format!(" {} = {}", args[k].0, args[k].1))
            }
            LitFault::NoValue(k) => {
                let k = pick(*k)?;
                with(k, &format!(", {} = ", args[k].0))
            }
            LitFault::NotDisplay(k, e) => {
                let k = pick(*k)?;
                with(
                    k,
                    &format!(", {} = {}", args[k].0, NOT_DISPLAY[*e as usize % NOT_DISPLAY.len()]),
                )
            }
            LitFault::NotString(k) => {
                // Without arguments: whatever else would be wrong.
                if !args.is_empty() {
                    return None;
                }
                write(["5", "'c'", "b\"color: red;\"", "1.5", "c\"color: red;\""][*k as usize % 5], &[])
            }
            LitFault::BadName(at, k) => {
                // In the place of a good one.
                let places: Vec<usize> = b.literal.match_indices("${").map(|(i, _)| i).collect();
                let places: Vec<usize> = places
                    .into_iter()
                    .filter(|i| !b.literal[..*i].ends_with('$'))
                    .collect();
                if places.is_empty() {
                    return None;
                }
                let i = places[*at as usize % places.len()];
                let end = i + b.literal[i..].find('}')?;
                let new = ["${}", "${1x}", "${a b}", "${a-b}", "${_x}", "${ }", "${a.b}", "${a:?}", "${\"a\"}"][*k as usize % 9];
                let t = format!("{}{}{}", &b.literal[..i], new, &b.literal[end + 1..]);
                // The argument may not be needed any more, which is no worse.
                write(&lit(&t, self.case.raw), &args)
            }
            LitFault::Text(edits) => {
                let t = soup::apply(&b.plain, edits).replace('$', "");
                if t == b.plain {
                    return None;
                }
                let ok = t.parse::<Ast>().is_ok();
                return Some((good, write(&lit(&t, self.case.raw), &[]), !ok));
            }
        };
        Some((good, bad, true))
    }
}

pub fn literal_strategy() -> BoxedStrategy<LitCase> {
    let fault = prop_oneof![
        1 => any::<u8>().prop_map(LitFault::Missing),
        1 => any::<u8>().prop_map(LitFault::Unused),
        1 => any::<u8>().prop_map(LitFault::Duplicate),
        1 => any::<u8>().prop_map(LitFault::Positional),
        1 => any::<u8>().prop_map(LitFault::NoComma),
        1 => any::<u8>().prop_map(LitFault::NoValue),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| LitFault::NotDisplay(a, b)),
        1 => any::<u8>().prop_map(LitFault::NotString),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| LitFault::BadName(a, b)),
        4 => vec(soup::edit(), 1..3).prop_map(LitFault::Text),
    ];
    (literal::strategy(), fault)
        .prop_map(|(mut case, fault)| {
            if matches!(fault, LitFault::NotString(_)) {
                case.subs.clear();
            }
            LitCase { case, fault }
        })
        .boxed()
}

pub fn literal_classify(c: &LitCase, rec: &mut Rec) {
    let Some((_, _, fault)) = c.codes() else { return };
    let name = match c.fault {
        LitFault::Missing(_) => "an argument is missing",
        LitFault::Unused(_) => "an argument is not used",
        LitFault::Duplicate(_) => "an argument is given twice",
        LitFault::Positional(_) => "an argument without a name",
        LitFault::NoComma(_) => "a comma is missing",
        LitFault::NoValue(_) => "an argument without a value",
        LitFault::NotDisplay(..) => "an argument that is not Display",
        LitFault::NotString(_) => "no string",
        LitFault::BadName(..) => "a placeholder without a name",
        LitFault::Text(_) if fault => "a text that is no style",
        LitFault::Text(_) => "a text that is a style",
    };
    rec.class(name, true);
    rec.nontrivial(fault);
}

// ---------------------------------------------------------------- inline macros

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    /// An at-rule that is not supported.
    AtRule(u8),
    /// A block in a block.
    Nested(u16),
    /// A block or punctuation in a value: where, what.
    Value(u16, u16, u8),
    /// The same in a selector.
    Selector(u16, u16, u8),
    NoColon(u16),
    /// The terminator of a declaration that no other declaration follows.
    NoTerminator(u16),
    Semicolon(u16, u16),
    NotDisplay(u16, u8),
    EmptyExpression(u16),
    /// A declaration whose name is no name.
    Name(u16, u8),
    /// A selector or at-rule without a block.
    NoBlock(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InlineCase {
    case: inline::Case,
    fault: Fault,
}

/// Written instead of a token. Not what any token is.
pub const HOLE: &str = "zqholeqz";

#[derive(Clone, Copy, PartialEq)]
enum Site {
    Value,
    Selector,
    Decl,
    BlockBody,
    Expr,
}

/// Does `f` with the number of each site of a kind.
struct Walk<'a> {
    n: usize,
    want: Site,
    f: &'a mut dyn FnMut(usize, Spot<'_>),
}

enum Spot<'a> {
    Tokens(&'a mut Vec<T>),
    /// A declaration as a list of its neighbours; the index in it.
    C(&'a mut Vec<C>, usize),
    B(&'a mut Vec<B>, usize),
    Body(&'a mut Vec<B>),
    Expr(&'a mut T),
}

impl Walk<'_> {
    fn hit(&mut self, s: Spot<'_>) {
        (self.f)(self.n, s);
        self.n += 1;
    }
    fn ts(&mut self, ts: &mut Vec<T>) {
        if self.want != Site::Expr {
            return;
        }
        for t in ts {
            match t {
                T::E(..) => self.hit(Spot::Expr(t)),
                T::F(_, a) | T::Paren(a) | T::Bracket(a) => self.ts(a),
                _ => {}
            }
        }
    }
    fn args(&mut self, ts: &mut [T]) {
        // The arguments of functions are parts of the value.
        for t in ts {
            if let T::F(_, a) = t {
                self.hit(Spot::Tokens(a));
                self.args(a);
            }
        }
    }
    fn value(&mut self, v: &mut Vec<T>) {
        if self.want == Site::Value {
            self.hit(Spot::Tokens(v));
            self.args(v);
        }
        self.ts(v);
    }
    fn body(&mut self, bs: &mut Vec<B>) {
        if self.want == Site::BlockBody {
            self.hit(Spot::Body(bs));
        }
        for i in 0..bs.len() {
            if self.want == Site::Decl && matches!(bs[i], B::D(..)) {
                self.hit(Spot::B(bs, i));
                continue;
            }
            match &mut bs[i] {
                B::D(_, v) => self.value(v),
                B::At(_, c, b) => {
                    self.ts(c);
                    self.body(b);
                }
            }
        }
    }
    fn items(&mut self, cs: &mut Vec<C>) {
        for i in 0..cs.len() {
            if self.want == Site::Decl && matches!(cs[i], C::D(..)) {
                self.hit(Spot::C(cs, i));
                continue;
            }
            match &mut cs[i] {
                C::D(_, v) => self.value(v),
                C::Block(sels, b) => {
                    for s in sels {
                        if self.want == Site::Selector {
                            self.hit(Spot::Tokens(s));
                            for t in s.iter_mut() {
                                if let T::Bracket(a) = t {
                                    self.hit(Spot::Tokens(a));
                                }
                            }
                        }
                        self.ts(s);
                    }
                    self.body(b);
                }
                C::At(_, c, b) => {
                    self.ts(c);
                    self.items(b);
                }
            }
        }
    }
}

fn count(items: &mut Vec<C>, want: Site) -> usize {
    let mut w = Walk {
        n: 0,
        want,
        f: &mut |_, _| {},
    };
    w.items(items);
    w.n
}

fn nth(items: &mut Vec<C>, want: Site, k: usize, f: &mut dyn FnMut(Spot<'_>)) {
    let mut w = Walk {
        n: 0,
        want,
        f: &mut |i, s| {
            if i == k {
                f(s)
            }
        },
    };
    w.items(items);
}

impl InlineCase {
    /// The invocation without and with the fault. None: it has no place in this invocation.
    fn codes(&self) -> Option<(String, String)> {
        let mut c = self.case.clone();
        let src = |c: &inline::Case| {
            let (pre, call) = c.call(&[]);
            format!("{pre}vec![Box::new({call})]")
        };
        let good = src(&c);
        // What a hole stands for.
        let mut hole = String::new();
        let hole_token = || T::I(HOLE.to_string());
        let site = |c: &mut inline::Case, want: Site, k: u16| {
            let n = count(&mut c.items, want);
            (n > 0).then(|| k as usize % n)
        };
        let mut done = false;
        match self.fault {
            Fault::AtRule(k) => {
                let name = ["container", "keyframes", "font-face", "import", "layer", "page", "medias", "Media", "support", "charset", "media-x"]
                    [k as usize % 11];
                hole = name.to_string();
                // A block whose selector is the at-rule's name.
                let at = C::Block(vec![vec![T::P('@'), hole_token(), T::I("screen".into())]], vec![]);
                let at_in = vec![T::P('@'), hole_token(), T::I("screen".into())];
                let n = count(&mut c.items, Site::BlockBody);
                if n > 0 && k >= 128 {
                    // Inside a block: taken for a declaration's place by the writer, so as raw text.
                    hole = format!("@{name} screen {{}}");
                    nth(&mut c.items, Site::BlockBody, k as usize % n, &mut |s| {
                        if let Spot::Body(b) = s {
                            let i = (k as usize / 3) % (b.len() + 1);
                            b.insert(i, B::At(true, vec![hole_token()], vec![]));
                        }
                    });
                    let s = src(&c);
                    return Some((good, replace_at(&s, &hole)?));
                }
                let _ = at_in;
                let i = k as usize % (c.items.len() + 1);
                c.items.insert(i, at);
                done = true;
            }
            Fault::Nested(k) => {
                let k = site(&mut c, Site::BlockBody, k)?;
                hole = ["a { color: red; }", ".b {}", "&:hover { }", "* a, b { x: y; }"][k % 4].to_string();
                nth(&mut c.items, Site::BlockBody, k, &mut |s| {
                    if let Spot::Body(b) = s {
                        let i = (k * 5 + 1) % (b.len() + 1);
                        b.insert(i, B::At(true, vec![hole_token()], vec![]));
                    }
                });
                let s = src(&c);
                return Some((good, replace_at(&s, &hole)?));
            }
            Fault::Value(k, at, what) => {
                let k = site(&mut c, Site::Value, k)?;
                nth(&mut c.items, Site::Value, k, &mut |s| {
                    if let Spot::Tokens(v) = s {
                        let i = at as usize % (v.len() + 1);
                        let all = [
                            "[a]", "{ a }", "{}", "(a)", "()", "+", "*", "!", "<", ">", "=", ".", "&", "~", "|", "^", "?", "@", "[]", "$",
                        ];
                        let mut h = all[what as usize % all.len()];
                        // `a (b)` is a function, `a!` and others are fine on their own for Rust.
                        if h.starts_with('(') && i > 0 && matches!(v[i - 1], T::I(_)) {
                            h = "[a]";
                        }
                        hole = h.to_string();
                        v.insert(i, hole_token());
                        done = true;
                    }
                });
            }
            Fault::Selector(k, at, what) => {
                let k = site(&mut c, Site::Selector, k)?;
                nth(&mut c.items, Site::Selector, k, &mut |s| {
                    if let Spot::Tokens(v) = s {
                        let all = ["(a)", "5", "1.5", "10px", "'c'", "!", "%", "/", "<", "?", "@", "()"];
                        let mut h = all[what as usize % all.len()];
                        let mut i = at as usize % (v.len() + 1);
                        if h == "@" && i == 0 {
                            // That would be an at-rule.
                            i = v.len();
                        }
                        if h.starts_with('(') && i > 0 && matches!(v[i - 1], T::I(_)) {
                            h = "!";
                        }
                        hole = h.to_string();
                        v.insert(i, hole_token());
                        done = true;
                    }
                });
            }
            Fault::Semicolon(k, at) => {
                let k = site(&mut c, Site::Selector, k)?;
                hole = ";".into();
                nth(&mut c.items, Site::Selector, k, &mut |s| {
                    if let Spot::Tokens(v) = s {
                        let i = at as usize % (v.len() + 1);
                        v.insert(i, hole_token());
                        done = true;
                    }
                });
            }
            Fault::NoColon(k) => {
                let k = site(&mut c, Site::Decl, k)?;
                nth(&mut c.items, Site::Decl, k, &mut |s| {
                    let v = match s {
                        Spot::C(cs, i) => match &mut cs[i] {
                            C::D(_, v) => v,
                            _ => return,
                        },
                        Spot::B(bs, i) => match &mut bs[i] {
                            B::D(_, v) => v,
                            _ => return,
                        },
                        _ => return,
                    };
                    // The colon is what is before the hole.
                    v.insert(0, hole_token());
                    done = true;
                });
                let s = src(&c);
                let i = s.find(HOLE)?;
                let colon = s[..i].rfind(':')?;
                return done.then(|| (good, format!("{} {}{}", &s[..colon], &s[colon + 1..i], &s[i + HOLE.len()..])));
            }
            Fault::NoTerminator(k) => {
                let k = site(&mut c, Site::Decl, k)?;
                nth(&mut c.items, Site::Decl, k, &mut |s| match s {
                    Spot::C(cs, i) => {
                        if matches!(cs.get(i + 1), Some(C::D(..))) {
                            return;
                        }
                        if let C::D(_, v) = &mut cs[i] {
                            v.push(hole_token());
                            done = true;
                        }
                    }
                    Spot::B(bs, i) => {
                        if matches!(bs.get(i + 1), Some(B::D(..))) {
                            return;
                        }
                        if let B::D(_, v) = &mut bs[i] {
                            v.push(hole_token());
                            done = true;
                        }
                    }
                    _ => {}
                });
                let s = src(&c);
                let i = s.find(HOLE)?;
                let semi = i + s[i..].find(';')?;
                // Comments of the layout have semicolons.
                if s[i + HOLE.len()..semi].contains('/') {
                    return None;
                }
                return done.then(|| (good, format!("{} {}", &s[..i], &s[semi + 1..])));
            }
            Fault::NotDisplay(k, e) => {
                hole = NOT_DISPLAY[e as usize % NOT_DISPLAY.len()].to_string();
                let k = site(&mut c, Site::Expr, k)?;
                nth(&mut c.items, Site::Expr, k, &mut |s| {
                    if let Spot::Expr(t) = s {
                        *t = T::E(literal::mark_of(0), 0);
                        done = true;
                    }
                });
                if !done {
                    return None;
                }
                let (pre, call) = c.call(&[hole]);
                return Some((good, format!("{pre}vec![Box::new({call})]")));
            }
            Fault::EmptyExpression(k) => {
                let k = site(&mut c, Site::Expr, k)?;
                nth(&mut c.items, Site::Expr, k, &mut |s| {
                    if let Spot::Expr(t) = s {
                        *t = T::E(literal::mark_of(0), 0);
                        done = true;
                    }
                });
                if !done {
                    return None;
                }
                let e = ["", " ", "a b", "let x = 1;", "a,", "1;"][k % 6].to_string();
                let (pre, call) = c.call(&[e]);
                return Some((good, format!("{pre}vec![Box::new({call})]")));
            }
            Fault::Name(k, what) => {
                let k = site(&mut c, Site::Decl, k)?;
                let name = ["5", "\"color\"", ".a", "1.5", "#b", "a b", "&", "*", "[a]", "a.b", "a()"][what as usize % 11];
                hole = name.to_string();
                nth(&mut c.items, Site::Decl, k, &mut |s| {
                    let key = match s {
                        Spot::C(cs, i) => match &mut cs[i] {
                            C::D(k, _) => k,
                            _ => return,
                        },
                        Spot::B(bs, i) => match &mut bs[i] {
                            B::D(k, _) => k,
                            _ => return,
                        },
                        _ => return,
                    };
                    *key = Key::I(HOLE.into());
                    done = true;
                });
            }
            Fault::NoBlock(k, what) => {
                // At the end, where nothing can be its block.
                let sel = ["a", ".b", "&:hover", "*", "@media screen", "@supports (a: b)", "@media screen;", "@media (x: 1);", "@", "a, b"]
                    [what as usize % 10];
                hole = sel.to_string();
                let _ = k;
                c.items.push(C::Block(vec![vec![hole_token()]], vec![]));
                let s = src(&c);
                let i = s.find(HOLE)?;
                let open = i + s[i..].find('{')?;
                let close = open + s[open..].find('}')?;
                if s[i..close].contains('/') {
                    return None;
                }
                return Some((good, format!("{} {sel} {}", &s[..i], &s[close + 1..])));
            }
        }
        if !done {
            return None;
        }
        let s = src(&c);
        if !s.contains(HOLE) {
            return None;
        }
        Some((good, s.replacen(HOLE, &format!(" {hole} "), 1)))
    }
}

/// Replaces the at-rule that holds the place by `new`.
fn replace_at(s: &str, new: &str) -> Option<String> {
    let i = s.find(HOLE)?;
    let at = s[..i].rfind('@')?;
    let open = i + s[i..].find('{')?;
    let close = open + s[open..].find('}')?;
    // Comments of the layout have braces.
    if s[at..close].contains('/') {
        return None;
    }
    Some(format!("{} {new} {}", &s[..at], &s[close + 1..]))
}

pub fn inline_strategy() -> BoxedStrategy<InlineCase> {
    let w = any::<u16>;
    let b = any::<u8>;
    let fault = prop_oneof![
        1 => b().prop_map(Fault::AtRule),
        1 => w().prop_map(Fault::Nested),
        3 => (w(), w(), b()).prop_map(|(x, y, z)| Fault::Value(x, y, z)),
        3 => (w(), w(), b()).prop_map(|(x, y, z)| Fault::Selector(x, y, z)),
        1 => w().prop_map(Fault::NoColon),
        2 => w().prop_map(Fault::NoTerminator),
        1 => (w(), w()).prop_map(|(x, y)| Fault::Semicolon(x, y)),
        2 => (w(), b()).prop_map(|(x, y)| Fault::NotDisplay(x, y)),
        1 => w().prop_map(Fault::EmptyExpression),
        1 => (w(), b()).prop_map(|(x, y)| Fault::Name(x, y)),
        1 => (b(), b()).prop_map(|(x, y)| Fault::NoBlock(x, y)),
    ];
    (inline::strategy(), fault)
        .prop_map(|(case, fault)| InlineCase { case, fault })
        .boxed()
}

pub fn inline_classify(c: &InlineCase, rec: &mut Rec) {
    if c.codes().is_none() {
        return;
    }
    let name = match c.fault {
        Fault::AtRule(_) => "an at-rule that is not supported",
        Fault::Nested(_) => "a block in a block",
        Fault::Value(..) => "a token that is no part of a value",
        Fault::Selector(..) => "a token that is no part of a selector",
        Fault::NoColon(_) => "no colon",
        Fault::NoTerminator(_) => "no semicolon",
        Fault::Semicolon(..) => "a semicolon in a selector",
        Fault::NotDisplay(..) => "an expression that is not Display",
        Fault::EmptyExpression(_) => "an interpolation without an expression",
        Fault::Name(..) => "a declaration without a name",
        Fault::NoBlock(..) => "no block",
    };
    rec.class(name, true);
    rec.nontrivial(true);
}

// ---------------------------------------------------------------- both

fn judge(
    rustc: &Rustc,
    codes: Vec<Option<(String, String, bool)>>,
) -> Result<Vec<Result<(), String>>, String> {
    let code = |body: &str| Code {
        items: ITEMS.into(),
        body: body.to_string(),
    };
    let mut all = vec![];
    for (g, b, _) in codes.iter().flatten() {
        all.push(code(g));
        all.push(code(b));
    }
    let mut outs = rustc.eval(&all, Mode::Check)?.into_iter();
    Ok(codes
        .into_iter()
        .map(|c| {
            let Some((g, b, fault)) = c else { return Ok(()) };
            let (og, ob) = (outs.next(), outs.next());
            match (og, ob) {
                (Some(Outcome::Rejected(m)), _) => Err(format!("a valid invocation does not compile: {m}\n  source: {g}")),
                (_, Some(Outcome::Rejected(_))) if fault => Ok(()),
                (_, Some(Outcome::Accepted)) if !fault => Ok(()),
                (_, Some(Outcome::Accepted)) => Err(format!("an invocation with a fault compiles\n  source: {b}")),
                (_, Some(Outcome::Rejected(m))) => {
                    Err(format!("a text that is accepted at run time does not compile: {m}\n  source: {b}"))
                }
                _ => Err("no answer".into()),
            }
        })
        .collect())
}

pub fn literal_test(rustc: &Rustc, cases: &[LitCase]) -> Result<Vec<Result<(), String>>, String> {
    let wrap = |s: String| format!("vec![Box::new({s})]");
    judge(
        rustc,
        cases
            .iter()
            .map(|c| c.codes().map(|(g, b, f)| (wrap(g), wrap(b), f)))
            .collect(),
    )
}

pub fn inline_test(rustc: &Rustc, cases: &[InlineCase]) -> Result<Vec<Result<(), String>>, String> {
    judge(rustc, cases.iter().map(|c| c.codes().map(|(g, b)| (g, b, true))).collect())
}

/// Texts that are nothing but tokens thrown together.
pub fn soup_strategy() -> BoxedStrategy<String> {
    vec(soup::tokens(), 0..8)
        .prop_map(|v| v.concat().replace(['$', '\0', '\r'], ""))
        .boxed()
}

pub fn soup_test(rustc: &Rustc, texts: &[String]) -> Result<Vec<Result<(), String>>, String> {
    let code = |t: &String| {
        let body = format!("vec![Box::new(::stylist::ast::sheet!({}))]", lit(t, t.len() % 2 == 0));
        let fine = "vec![Box::new(::stylist::ast::sheet!(\"\"))]".to_string();
        Some((fine, body, t.parse::<Ast>().is_err()))
    };
    judge(rustc, texts.iter().map(code).collect())
}

pub fn soup_classify(t: &String, rec: &mut Rec) {
    let ok = t.parse::<Ast>().is_ok();
    rec.class("accepted", ok);
    rec.class("rejected", !ok);
    rec.nontrivial(t.len() > 3);
}
