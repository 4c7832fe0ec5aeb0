//! C12: string literal macros against the run-time parser.

use crate::batch::{lit, Code, Mode, Outcome, Rustc};
use crate::slots::{in_string, visit, Kind, Slot};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;
use stylist::ast::{Sheet as Ast, ToStyleStr};
use vcommon::css;
use vcommon::gen;
use vcommon::model::*;
use vcommon::run::Rec;

pub const NAMES: &[&str] = &[
    "x", "color", "sel_a", "type", "Upper", "css", "a1", "match", "i_", "sheet", "from", "name_with_many_parts", "e",
];

/// One placeholder: which text, where in it, how the argument is written.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sub {
    slot: u16,
    start: u16,
    len: u16,
    name: u8,
    expr: u8,
    spaced: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sheet: Sheet,
    pub layout: Vec<u8>,
    pub subs: Vec<Sub>,
    pub raw: bool,
    pub form: u8,
    pub reverse: bool,
    pub trailing_comma: bool,
}

pub struct Built {
    pub literal: String,
    pub plain: String,
    /// The text with `mark_of(k)` where the k-th argument goes.
    pub marked: String,
    /// Name, text and way of writing of each argument.
    pub args: Vec<(String, String, u8)>,
    /// Where each argument goes.
    pub arg_kinds: Vec<Vec<Kind>>,
    pub kinds: Vec<Kind>,
    pub in_strings: usize,
    pub escapes: bool,
    pub reused: bool,
}

pub fn mark_of(k: usize) -> String {
    format!("zq{k}qz")
}

fn mark(k: usize) -> char {
    char::from_u32(0x10F000 + k as u32).unwrap()
}

/// Characters that an argument's text may take over: such that the text stays part of the selector,
/// value or condition it is in.
fn neutral(c: char, string: bool) -> bool {
    if string {
        c < '\u{F0000}' && !matches!(c, '"' | '\'' | '\\' | '$' | '{' | '\n')
    } else {
        c < '\u{F0000}' && c.is_alphanumeric() || matches!(c, '-' | '_' | '.' | '#' | '%' | ' ' | ':' | '>' | '+' | '~' | '*' | '=' | '!' | '<')
    }
}

impl Case {
    pub fn build(&self) -> Built {
        let mut sheet = self.sheet.clone();
        let mut n = 0;
        visit(&mut sheet, &mut |_| n += 1);
        // Each argument has one name; a name whose text is the same is used again.
        let mut args: Vec<(String, String, u8)> = vec![];
        let mut places: Vec<(usize, u8)> = vec![];
        let mut kinds = vec![];
        let mut in_strings = 0;
        let mut reused = false;
        for sub in &self.subs {
            if n == 0 {
                break;
            }
            let target = sub.slot as usize % n;
            let mut i = 0;
            let (args, places, kinds) = (&mut args, &mut places, &mut kinds);
            let (in_strings, reused) = (&mut in_strings, &mut reused);
            visit(&mut sheet, &mut |s| {
                i += 1;
                if i - 1 != target {
                    return;
                }
                let mut arg = |text: &str| {
                    let k = match args.iter().position(|a| a.1 == text) {
                        Some(k) => {
                            *reused = true;
                            k
                        }
                        None => {
                            let name = (0..NAMES.len())
                                .map(|d| NAMES[(sub.name as usize + d) % NAMES.len()])
                                .find(|n| args.iter().all(|a| a.0 != *n));
                            let Some(name) = name else { return None };
                            args.push((name.to_string(), text.to_string(), sub.expr));
                            args.len() - 1
                        }
                    };
                    places.push((k, sub.spaced));
                    Some(mark(places.len() - 1).to_string())
                };
                match s {
                    Slot::Anchor(p) => {
                        let t = match p {
                            Piece::Amp => "&",
                            Piece::Root => ":root",
                            Piece::T(_) => return,
                        };
                        if let Some(m) = arg(t) {
                            *p = Piece::T(m);
                            kinds.push(Kind::Selector);
                        }
                    }
                    Slot::Text(kind, text) => {
                        let chars: Vec<char> = text.chars().collect();
                        if chars.is_empty() {
                            return;
                        }
                        let strs = in_string(text);
                        let mut start = sub.start as usize % chars.len();
                        // Often a number as a whole.
                        let mut number = None;
                        if sub.expr % 3 == 0 && sub.spaced % 2 == 0 {
                            let runs = numbers(&chars);
                            if !runs.is_empty() {
                                let r = runs[start % runs.len()];
                                start = r.0;
                                number = Some(r.1);
                            }
                        }
                        let string = strs[start];
                        let before = start.checked_sub(1).map(|i| chars[i]);
                        // An escape, and a dollar sign that would join the placeholder.
                        if before == Some('\\') || before == Some('$') {
                            return;
                        }
                        let mut end = start;
                        while end < number.unwrap_or(chars.len())
                            && (number.is_some() || end - start < 1 + sub.len as usize)
                            && strs[end] == string
                            && neutral(chars[end], string)
                        {
                            end += 1;
                        }
                        // A text begins and ends with what it contains, white space is no part of it.
                        let mut start = start;
                        if start == 0 || end == chars.len() {
                            while start < end && chars[start] == ' ' {
                                start += 1;
                            }
                            while end > start && chars[end - 1] == ' ' {
                                end -= 1;
                            }
                        }
                        if start >= end {
                            return;
                        }
                        // A run of plain white space is layout, not text.
                        if !string && chars[start..end].iter().all(|c| *c == ' ') {
                            return;
                        }
                        let t: String = chars[start..end].iter().collect();
                        if let Some(m) = arg(&t) {
                            *text = chars[..start].iter().collect::<String>()
                                + &m
                                + &chars[end..].iter().collect::<String>();
                            kinds.push(kind);
                            *in_strings += usize::from(string);
                        }
                    }
                }
            });
        }
        let text = sheet.text(&self.layout);
        let escapes = text.contains("${");
        let mut literal = text.replace("${", "$${");
        let mut plain = text.clone();
        let mut marked = text;
        // An argument none of whose places is left (the text it replaced was itself replaced) goes.
        let used: Vec<bool> = (0..args.len())
            .map(|k| {
                places
                    .iter()
                    .enumerate()
                    .any(|(j, (kk, _))| *kk == k && marked.contains(mark(j)))
            })
            .collect();
        let index = |k: usize| used[..k].iter().filter(|u| **u).count();
        let mut arg_kinds = vec![vec![]; used.iter().filter(|u| **u).count()];
        for (j, (k, spaced)) in places.iter().enumerate() {
            let (name, value, _) = &args[*k];
            let (a, b) = match spaced % 6 {
                0 => (" ", " "),
                1 => ("", "\n"),
                2 => ("\t", ""),
                _ => ("", ""),
            };
            literal = literal.replace(mark(j), &format!("${{{a}{name}{b}}}"));
            plain = plain.replace(mark(j), value);
            if used[*k] {
                if marked.contains(mark(j)) {
                    arg_kinds[index(*k)].push(kinds[j]);
                }
                marked = marked.replace(mark(j), &mark_of(index(*k)));
            }
        }
        let mut it = used.iter();
        args.retain(|_| *it.next().unwrap());
        Built {
            literal,
            plain,
            marked,
            args,
            arg_kinds,
            kinds,
            in_strings,
            escapes,
            reused,
        }
    }

    pub fn code(&self, b: &Built) -> Code {
        let mut body = String::new();
        let mut args = String::new();
        let mut list: Vec<_> = b.args.iter().enumerate().collect();
        if self.reverse {
            list.reverse();
        }
        for (k, (name, text, expr)) in list {
            let (pre, e) = expression(text, *expr, k);
            body.push_str(&pre);
            let _ = write!(args, ", {name} = {e}");
        }
        if self.trailing_comma && !args.is_empty() {
            args.push(',');
        }
        let l = lit(&b.literal, self.raw);
        let call = match self.form % 8 {
            0 => format!("stylist::css!({l}{args})"),
            1 => format!("stylist::style!({l}{args})"),
            2 => format!("stylist::global_style!({l}{args})"),
            3 => format!("stylist::ast::sheet!{{{l}{args}}}"),
            _ => format!("stylist::ast::sheet!({l}{args})"),
        };
        let _ = write!(body, "vec![Box::new({call})]");
        Code {
            items: String::new(),
            body,
        }
    }
}

/// Where the numbers in a text are.
fn numbers(chars: &[char]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while i < chars.len() {
        let mut j = i;
        while j < chars.len() && (chars[j].is_ascii_digit() || (chars[j] == '.' && j > i)) {
            j += 1;
        }
        if j > i {
            out.push((i, j));
        }
        i = j + 1;
    }
    out
}

/// Literals that are shown as `text`, though not written like it.
pub fn literals(text: &str) -> Vec<String> {
    let mut out = vec![];
    if let Ok(n) = text.parse::<i64>() {
        if n.to_string() == text {
            out.extend([format!("{n}"), format!("{n}i64"), format!("{n}.0"), format!("{n}.00"), format!("{n}.0f32")]);
            out.extend([format!("({n} - 1) + 1"), format!("{n}f64"), format!("{n}e0"), format!("{n}_i32")]);
            if n >= 0 {
                out.extend([format!("0x{n:X}"), format!("0b{n:b}"), format!("0o{n:o}u64"), format!("0{n}"), format!("{n}_")]);
                out.extend([format!("{n}_u64"), format!("00_{n}usize")]);
            }
            if n >= 10 {
                out.push(format!("{}_{}", n / 10, n % 10));
                out.push(format!("{}.{}e1", n / 10, n % 10));
            }
        }
    } else if let Ok(n) = text.parse::<f64>() {
        if n.is_finite() && n.to_string() == text && text.starts_with(|c: char| c == '-' || c.is_ascii_digit()) {
            out.extend([format!("{n}"), format!("{n}0"), format!("{n}f64"), format!("{n}_00"), format!("{n:e}"), format!("{n:E}")]);
            out.extend([format!("{n}0_f64"), format!("{n}e0"), format!("{n}e+0")]);
        }
    }
    let mut cs = text.chars();
    if let (Some(c), None) = (cs.next(), cs.next()) {
        out.extend([format!("{c:?}"), format!("'\\u{{{:x}}}'", c as u32)]);
    }
    if text == "true" || text == "false" {
        out.extend([text.to_string(), format!("!{}", text == "false")]);
    }
    out
}

/// Statements and an expression that is shown as `text`.
pub fn expression(text: &str, how: u8, k: usize) -> (String, String) {
    let l = format!("{text:?}");
    let none = String::new();
    if how % 3 == 0 {
        let l = literals(text);
        if !l.is_empty() {
            let e = &l[how as usize / 3 % l.len()];
            return match how / 3 % 5 {
                4 => (format!("let v{k} = {e};\n"), format!("&v{k}")),
                _ => (none, e.clone()),
            };
        }
    }
    match how % 14 {
        0 | 1 => (none, l),
        2 => (none, format!("String::from({l})")),
        3 => (format!("let v{k} = {l};\n"), format!("v{k}")),
        4 => (format!("let v{k} = String::from({l});\n"), format!("&v{k}")),
        5 => (none, format!("vmacrosupport::Shown({l})")),
        6 => (none, format!("format!(\"{{}}\", {l})")),
        7 => (none, format!("format_args!(\"{{}}{{}}\", {l}, \"\")")),
        8 => (none, format!("(|s: &str, n: u8| s.to_owned())({l}, 1)")),
        9 => (none, format!("if {k} < 100000 {{ {l} }} else {{ \"no\" }}")),
        10 => (none, format!("match ({l}, 2) {{ (s, 2) => s, (_, _) => \"no\" }}")),
        11 => (none, format!("{{ let a = [\"no\", {l}]; a[1] }}")),
        12 => (none, format!("std::borrow::Cow::Borrowed({l})")),
        _ => (
            format!("let v{k}: Box<dyn std::fmt::Display> = Box::new({l});\n"),
            format!("v{k}"),
        ),
    }
}

pub fn strategy() -> BoxedStrategy<Case> {
    let sub = (any::<u16>(), any::<u16>(), prop_oneof![1 => Just(0u16), 2 => 0u16..12], any::<u8>(), any::<u8>(), any::<u8>()).prop_map(
        |(slot, start, len, name, expr, spaced)| Sub {
            slot,
            start,
            len,
            name,
            expr,
            spaced,
        },
    );
    let opts = gen::Opts {
        depth: 2,
        items: 4,
        grow: 40,
        ..gen::Opts::default()
    };
    (
        gen::sheet(opts),
        gen::layout(),
        vec(sub, 0..7),
        any::<bool>(),
        any::<u8>(),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(sheet, layout, subs, raw, form, reverse, trailing_comma)| Case {
            sheet,
            layout,
            subs,
            raw,
            form,
            reverse,
            trailing_comma,
        })
        .boxed()
}

pub fn classify(c: &Case, rec: &mut Rec) {
    let b = c.build();
    let has = |k: Kind| b.kinds.contains(&k);
    rec.class("a placeholder in a value", has(Kind::Value));
    rec.class("a placeholder in a selector", has(Kind::Selector));
    rec.class("a placeholder in a condition", has(Kind::Condition));
    rec.class("a placeholder in a keyframes rule", has(Kind::Frame) || has(Kind::KeyframesName));
    rec.class("a placeholder in a quoted string", b.in_strings > 0);
    rec.class("an argument is used more than once", b.reused);
    rec.class("three arguments or more", b.args.len() > 2);
    rec.class("an escaped ${", b.escapes);
    rec.class("no arguments", b.args.is_empty());
    rec.nontrivial(!b.args.is_empty() || b.escapes);
}

fn one(c: &Case, b: &Built, o: Outcome) -> Result<(), String> {
    let shown = || format!("\n  literal: {:?}\n  arguments: {:?}", b.literal, b.args);
    let outs = match o {
        Outcome::Rejected(m) => return Err(format!("does not compile: {m}{}", shown())),
        Outcome::Panicked(m) => return Err(format!("panics: {m}{}", shown())),
        Outcome::Accepted => return Err("was not run".into()),
        Outcome::Outputs(o) => o,
    };
    let want: Ast = b
        .plain
        .parse()
        .map_err(|e| format!("the substituted text is rejected at run time: {e}\n  text: {:?}", b.plain))?;
    let [out] = &outs[..] else { return Err("not one output".into()) };
    for (class, got) in [(Some("c"), &out.scoped), (None, &out.global)] {
        let Some(got) = got else { continue };
        let w = want.to_style_str(class);
        let ev = css::read(got).map_err(|e| format!("the rendered text is not well-formed: {e}{}", shown()))?;
        // Comments mean nothing and may or may not be kept.
        let w = css::read(&want.to_style_str(class)).map_err(|e| format!("the parsed text renders badly: {e}"))?;
        if let Some(d) = css::diff(&w, &ev) {
            return Err(format!("renders differently from the parsed text: {d}{}\n  got: {got:?}", shown()));
        }
        let model = c.sheet.events(View::Rendered(class));
        if let Some(d) = css::diff(&model, &ev) {
            return Err(format!("says something else than what was written: {d}{}\n  got: {got:?}", shown()));
        }
    }
    if out.scoped.is_none() && out.global.is_none() {
        return Err("nothing was rendered".into());
    }
    Ok(())
}

pub fn test(rustc: &Rustc, cases: &[Case]) -> Result<Vec<Result<(), String>>, String> {
    let built: Vec<Built> = cases.iter().map(|c| c.build()).collect();
    let codes: Vec<Code> = cases.iter().zip(&built).map(|(c, b)| c.code(b)).collect();
    let outs = rustc.eval(&codes, Mode::Run)?;
    Ok(cases
        .iter()
        .zip(&built)
        .zip(outs)
        .map(|((c, b), o)| one(c, b, o))
        .collect())
}
