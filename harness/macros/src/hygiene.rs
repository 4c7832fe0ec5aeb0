//! C14: what interpolated expressions contribute, and what they see.

use crate::batch::{Code, Mode, Outcome, Rustc};
use crate::literal::mark_of;
use crate::inline::Place;
use crate::slots::Kind;
use crate::{inline, literal};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;
use stylist::ast::{Sheet as Ast, ToStyleStr};
use vcommon::run::Rec;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Syntax {
    L(literal::Case),
    I(inline::Case),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    syntax: Syntax,
    /// The texts of each evaluation, for the arguments in turn.
    evals: Vec<Vec<String>>,
    /// How each argument is written.
    how: Vec<u8>,
    /// Items of the caller's scope.
    shadows: Vec<u8>,
    place: u8,
    /// Texts that leave the sheet well-formed only.
    benign: bool,
}

/// Items with the names of what macros use, or might use.
const SHADOWS: &[&str] = &[
    "pub struct Sheet; impl Sheet { pub fn from(_: u8) -> u8 { 0 } }",
    "pub struct Rule; pub struct Block; pub struct Selector; pub struct StyleAttribute;",
    "pub enum ScopeContent { Block, Rule } pub enum RuleBlockContent { Rule, Block, StyleAttr }",
    "pub struct StringFragment; pub enum Bow { Boxed, Borrowed }",
    "pub struct String; impl String { pub fn from(_: u8) -> u8 { 0 } }",
    "pub struct Vec; pub struct Box; impl Box { pub fn new(_: u8) -> u8 { 0 } }",
    "pub enum Cow { Borrowed, Owned }",
    "pub struct Lazy; pub struct OnceCell; pub struct LazyLock;",
    "pub struct From;",
    "pub struct Into; pub struct TryFrom; pub struct TryInto; pub struct FromStr; pub struct AsRef; pub struct Deref;",
    "pub struct ToString; pub struct ToOwned; pub struct Display; pub struct Debug;",
    "pub struct Clone; pub struct Default; pub struct IntoIterator; pub struct Iterator;",
    "pub enum Option { Some, None } pub enum Result { Ok, Err }",
    "pub fn Some(_: u8) -> u8 { 0 } pub fn Ok(_: u8) -> u8 { 1 } pub fn Err(_: u8) -> u8 { 2 }",
    "pub trait Shade { fn into(&self) -> u8 { 0 } fn to_string(&self) -> u8 { 1 } fn clone(&self) -> u8 { 2 } fn to_owned(&self) -> u8 { 3 } fn as_ref(&self) -> u8 { 4 } fn borrow(&self) -> u8 { 5 } } impl<T: ?::std::marker::Sized> Shade for T {}",
    "pub trait From2 { fn from(_: u8) -> u8 where Self: ::std::marker::Sized { 0 } fn new(_: u8) -> u8 where Self: ::std::marker::Sized { 0 } } impl<T> From2 for T {}",
    "macro_rules! vec { ($($t:tt)*) => { compile_error!(\"vec of the caller\") } } macro_rules! format { ($($t:tt)*) => { compile_error!(\"format of the caller\") } }",
    "macro_rules! css { ($($t:tt)*) => { compile_error!(\"css of the caller\") } } macro_rules! sheet { ($($t:tt)*) => { compile_error!(\"sheet of the caller\") } } macro_rules! style { ($($t:tt)*) => { 0 } }",
    "macro_rules! write { ($($t:tt)*) => { compile_error!(\"write of the caller\") } } macro_rules! concat { ($($t:tt)*) => { 0 } } macro_rules! stringify { ($($t:tt)*) => { 0 } }",
    "pub mod std {} pub mod core {} pub mod alloc {}",
    "pub mod stylist { pub mod ast {} }",
    "pub struct Style; pub struct GlobalStyle; pub struct StyleSource; impl StyleSource { pub fn from(_: u8) -> u8 { 0 } }",
    "pub fn from(_: u8) -> u8 { 0 } pub fn into(_: u8) -> u8 { 0 } pub fn to_string(_: u8) -> u8 { 0 } pub fn clone(_: u8) -> u8 { 0 }",
    "pub fn stylist() {} pub fn std() {} pub fn ast() {} pub fn macros() {}",
    "pub const sheet_ref: u8 = 1; pub const contents: u8 = 1; pub static name: u8 = 2; pub const SHEET: u8 = 3; pub const parser: u8 = 4;",
];

/// Names of the caller's constants; what the expressions see under them is their text.
const CONSTS: &[&str] = &[
    "ITEMS", "RULE", "BLOCK", "SHEET_REF", "Sheet", "Lazy", "Bow", "Cow", "String", "From", "STYLE", "CSS", "CONTENT", "Rule",
];

const LOCALS: &[&str] = &[
    "from", "into", "to_string", "items", "rule", "block", "sheet", "style", "css", "e", "f", "x", "inner", "content", "value",
    "lazy", "stylist", "std", "clone",
];

/// Literals, as they are written and as they are shown.
const LITERALS: &[(&str, &str)] = &[
    ("1.0", "1"),
    ("2.50", "2.5"),
    ("1e3", "1000"),
    ("2.5E2", "250"),
    ("1_000", "1000"),
    ("0x1F", "31"),
    ("0b11", "3"),
    ("0o17", "15"),
    ("5u8", "5"),
    ("7_i64", "7"),
    ("1.5f32", "1.5"),
    ("16777217f32", "16777216"),
    ("-3", "-3"),
    ("-1.50", "-1.5"),
    ("-0.0", "-0"),
    ("007", "7"),
    ("1e-2", "0.01"),
    ("0.1e1", "1"),
    ("12_3.4_5", "123.45"),
    ("true", "true"),
    ("false", "false"),
    ("'a'", "a"),
    ("'\\u{62}'", "b"),
    ("'\\x63'", "c"),
    ("b'a'", "97"),
    ("\"d\\u{65}f\"", "def"),
    ("r\"gh\"", "gh"),
    ("r#\"i\"j\"#", "i\"j"),
    ("\"k\\\"l\"", "k\"l"),
    ("\"m\\\n        n\"", "mn"),
    ("\"\"", ""),
    ("\"${o}\"", "${o}"),
    ("\"{p}\"", "{p}"),
    ("(1.0)", "1"),
    ("{ 2.0 }", "2"),
    ("&3.0", "3"),
    ("::std::primitive::u8::MAX", "255"),
    ("18446744073709551616u128", "18446744073709551616"),
];

/// A text that says how often it was evaluated.
const TURN: u8 = 36 + LITERALS.len() as u8;
/// A value that can be had once.
const MOVED: u8 = TURN + 1;
const HOWS: u8 = TURN + 2;

fn lit(h: u8) -> bool {
    (36..TURN).contains(&h)
}

fn plain(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '.')
}

/// The source of an expression over the parameter `v` and the text it is shown as.
fn write(how: u8, k: usize, name: &str) -> String {
    let v = format!("v{k}");
    match how % HOWS {
        0 | 1 => v,
        2 => format!("&{v}"),
        3 => format!("<::std::string::String as ::std::convert::From<&::std::primitive::str>>::from({v})"),
        4 => format!("::vmacrosupport::Shown({v})"),
        5 => format!("::std::format_args!(\"{{}}\", {v})"),
        6 => format!("::std::borrow::Cow::Borrowed({v})"),
        7 => format!("::std::convert::Into::<::std::rc::Rc<::std::primitive::str>>::into({v})"),
        8 => format!("{{ let {name} = {v}; {name} }}"),
        9 => format!("(|| {v})()"),
        10 => format!("if {v}.is_empty() {{ \"\" }} else {{ {v} }}"),
        11 => format!("match {v} {{ y => y }}"),
        12 => format!("&{v} as &dyn ::std::fmt::Display"),
        13 => format!("::std::boxed::Box::new({v})"),
        14 => format!("same({v}, 1)"),
        15 | 16 => name.to_string(),
        17 => format!("mine!({v})"),
        18 => format!("'l: {{ if {v}.len() > 3 {{ break 'l {v}; }} {v} }}"),
        19 => format!("loop {{ break {v} }}"),
        20 => format!("Pair {{ a: {v}, b: 1 }}.a"),
        21 => format!("&mut ::vmacrosupport::Shown({v})"),
        22 => format!("unsafe {{ {v} }}"),
        23 | 24 => format!("::vmacrosupport::current({k})"),
        25 => format!("[\"no\", {v}][1]"),
        // Shown as something made from the text.
        26 => format!("{v}.len()"),
        27 => format!("{v}.is_empty()"),
        28 => format!("{v}.len() as f64 * 0.5"),
        29 => format!("-({v}.len() as i32)"),
        30 => format!("{v}.len() as u128 + 170141183460469231731687303715884105727"),
        31 => format!("!{v}.is_empty() || false"),
        32 => format!("{v}.len() as i64 - 5 << 1"),
        33 => format!("({v}.len() as u8) as char"),
        34 => "\"fixed\"".to_string(),
        TURN => format!("::vmacrosupport::turn({k}, {v})"),
        MOVED => format!("same(own{k}, 1)"),
        h @ 36.. => LITERALS[h as usize - 36].0.to_string(),
        _ => CONSTS[name.len() * 7 % CONSTS.len()].to_string(),
    }
}

fn shown(how: u8, text: &str, name: &str, turn: u8) -> String {
    let n = text.len();
    match how % HOWS {
        26 => n.to_string(),
        27 => text.is_empty().to_string(),
        28 => (n as f64 * 0.5).to_string(),
        29 => (-(n as i32)).to_string(),
        30 => (n as u128 + 170141183460469231731687303715884105727).to_string(),
        31 => (!text.is_empty()).to_string(),
        32 => (((n as i64) - 5) << 1).to_string(),
        33 => ((n as u8) as char).to_string(),
        34 => "fixed".into(),
        TURN => format!("{text}n{turn}"),
        MOVED => text.to_string(),
        h @ 36.. => LITERALS[h as usize - 36].1.into(),
        35 => format!("z{}", CONSTS[name.len() * 7 % CONSTS.len()].to_lowercase()),
        _ => text.to_string(),
    }
}

struct Built {
    code: Code,
    /// What each evaluation must render, scoped and global.
    want: Vec<(String, String)>,
    args: usize,
}

impl Case {
    fn how(&self, k: usize, place: Place) -> u8 {
        let h = self.how.get(k).copied().unwrap_or(0) % HOWS;
        // A control character could be anything.
        if place == Place::Key && self.benign && ((26..34).contains(&h) || lit(h)) {
            0
        } else if lit(h) && (self.benign || place == Place::Selector) && !plain(LITERALS[h as usize - 36].1) {
            // Texts of selectors are subject to scoping, and these leave the sheet what it is.
            36
        } else if h == 33 && (place == Place::Selector || self.benign) {
            26
        } else {
            h
        }
    }

    fn text(&self, e: usize, k: usize, place: Place) -> String {
        let row = &self.evals[e];
        let t = if row.is_empty() { "t" } else { &row[k % row.len()] };
        if self.benign {
            // A letter and then letters, digits and dashes.
            let mut s: String = t.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '-').take(8).collect();
            s.insert(0, 'b');
            s
        } else if place == Place::Selector {
            // Texts of selectors are subject to scoping.
            let s: String = t.chars().filter(|c| !matches!(c, '&' | ':' | '"' | '\'' | '\\' | '/')).collect();
            let s = s.replace("root", "rxxt");
            if s.is_empty() {
                "s".into()
            } else {
                s
            }
        } else {
            t.to_string()
        }
    }

    fn build(&self) -> Result<Built, String> {
        let (marked, selector): (String, Vec<Place>);
        let names: Vec<&str>;
        let (pre, call);
        let form = |f: u8| if self.benign { f } else { 4 };
        let name_of = |k: usize| LOCALS[(self.how.get(k + 1).copied().unwrap_or(3) as usize + k) % LOCALS.len()];
        match &self.syntax {
            Syntax::L(c) => {
                let mut c = c.clone();
                c.layout.clear();
                let b = c.build();
                selector = b.arg_kinds
                    .iter()
                    .map(|k| if k.contains(&Kind::Selector) { Place::Selector } else { Place::Value })
                    .collect();
                names = (0..b.args.len()).map(name_of).collect();
                let mut list: Vec<usize> = (0..b.args.len()).collect();
                if c.reverse {
                    list.reverse();
                }
                let forward = self.place % 5 == 3;
                let args: String = list
                    .iter()
                    .map(|&k| {
                        let e = if forward {
                            format!("$e{k}")
                        } else {
                            write(self.how(k, selector[k]), k, names[k])
                        };
                        format!(", {} = {e}", b.args[k].0)
                    })
                    .collect();
                let l = crate::batch::lit(&b.literal, c.raw);
                let inv = match form(c.form) % 8 {
                    0 => format!("::stylist::css!({l}{args})"),
                    1 => format!("::stylist::style!({l}{args})"),
                    2 => format!("::stylist::global_style!({l}{args})"),
                    3 => format!("::stylist::ast::sheet!{{{l}{args}}}"),
                    _ => format!("::stylist::ast::sheet!({l}{args})"),
                };
                if forward {
                    // Expressions that went through a macro of the caller.
                    let params: Vec<String> = (0..b.args.len()).map(|k| format!("$e{k}:expr")).collect();
                    let given: Vec<String> =
                        (0..b.args.len()).map(|k| write(self.how(k, selector[k]), k, names[k])).collect();
                    pre = format!("macro_rules! forward {{ ({}) => {{ {inv} }} }}\n", params.join(", "));
                    call = format!("forward!({})", given.join(", "));
                } else {
                    pre = String::new();
                    call = inv;
                }
                marked = b.marked;
            }
            Syntax::I(c) => {
                let mut c = c.clone();
                let mut sel = vec![];
                c.exprs(&mut |s, t| {
                    *t = mark_of(sel.len());
                    sel.push(s);
                });
                selector = sel;
                names = (0..selector.len()).map(name_of).collect();
                c.form = form(c.form);
                let sources: Vec<String> =
                    (0..selector.len()).map(|k| write(self.how(k, selector[k]), k, names[k])).collect();
                (pre, call) = c.call(&sources);
                marked = c.model().text(&[]);
            }
        }
        let n = selector.len();
        let mut items = String::from("mod caller {\n");
        for s in &self.shadows {
            // A name can be had once.
            let t = SHADOWS[*s as usize % SHADOWS.len()];
            if !items.contains(t) {
                items.push_str(t);
                items.push('\n');
            }
        }
        for c in CONSTS {
            // Not where an item has the name already.
            let names = [format!("struct {c};"), format!("fn {c}(")];
            if !names.iter().any(|n| items.contains(n.as_str())) {
                let _ = writeln!(items, "pub const {c}: &::std::primitive::str = \"z{}\";", c.to_lowercase());
            } else if (0..n).any(|k| self.how(k, selector[k]) == 35 && CONSTS[names_len(&self.how, k) % CONSTS.len()] == *c) {
                return self.without_shadows()?.build();
            }
        }
        items.push_str("struct Pair<T> { a: T, b: u8 }\nfn same<T>(t: T, _: u8) -> T { t }\nmacro_rules! mine { ($e:expr) => { $e } }\n");
        let params: String = (0..n).map(|k| format!("v{k}: &'static ::std::primitive::str, ")).collect();
        let mut lets = String::new();
        for k in 0..n {
            if self.how(k, selector[k]) == MOVED {
                let _ = writeln!(
                    lets,
                    "let own{k} = <::std::string::String as ::std::convert::From<&::std::primitive::str>>::from(v{k});"
                );
            }
            if matches!(self.how(k, selector[k]), 15 | 16) {
                // Two arguments may have the same name: the last one would win.
                if (0..n).any(|j| j != k && names[j] == names[k] && matches!(self.how(j, selector[j]), 15 | 16)) {
                    return Err("two variables of one name".into());
                }
                let _ = writeln!(lets, "let {} = v{k};", names[k]);
            }
        }
        let ret = "impl ::vmacrosupport::Emit";
        let path = match self.place % 5 {
            1 => {
                let _ = writeln!(
                    items,
                    "pub struct Owner(u8);\nimpl Owner {{ pub fn make(&self, {params}) -> {ret} {{\n{pre}{lets}{call}\n}} }}\npub const OWNER: Owner = Owner(1);"
                );
                "caller::OWNER.make"
            }
            2 => {
                // In a closure and a generic function.
                let _ = writeln!(
                    items,
                    "fn run<T>(f: impl ::std::ops::Fn() -> T) -> T {{ f() }}\npub fn make({params}) -> {ret} {{\nrun(|| {{\n{pre}{lets}{call}\n}})\n}}"
                );
                "caller::make"
            }
            4 => {
                // Not the first time through the loop.
                let _ = writeln!(
                    items,
                    "pub fn make({params}) -> {ret} {{\nlet mut n = 0;\nloop {{\n{pre}{lets}let r = {call};\nn += 1;\nif n == 2 {{ break r; }}\n}}\n}}"
                );
                "caller::make"
            }
            _ => {
                let _ = writeln!(items, "pub fn make({params}) -> {ret} {{\n{pre}{lets}{call}\n}}");
                "caller::make"
            }
        };
        items.push_str("}\n");
        let turn = if self.place % 5 == 4 { 2 } else { 1 };
        let mut body = String::from("let mut out: Vec<Box<dyn Emit>> = vec![];\n");
        let mut want = vec![];
        let sheet: Ast = marked
            .parse()
            .map_err(|e| format!("the text with marks is rejected at run time: {e}\n  text: {marked:?}"))?;
        for e in 0..self.evals.len() {
            let texts: Vec<String> = (0..n).map(|k| self.text(e, k, selector[k])).collect();
            let l: Vec<String> = texts.iter().map(|t| format!("{t:?}")).collect();
            let l = l.join(", ");
            let _ = writeln!(body, "vmacrosupport::set(&[{l}]);\nout.push(Box::new({path}({l})));");
            let fill = |class| {
                let s = sheet.to_style_str(class);
                // All at once: a text may look like a mark.
                let mut out = String::new();
                let mut rest = &s[..];
                'next: while !rest.is_empty() {
                    for k in 0..n {
                        if let Some(r) = rest.strip_prefix(mark_of(k).as_str()) {
                            out.push_str(&shown(self.how(k, selector[k]), &texts[k], names[k], turn));
                            rest = r;
                            continue 'next;
                        }
                    }
                    let c = rest.chars().next().unwrap();
                    out.push(c);
                    rest = &rest[c.len_utf8()..];
                }
                out
            };
            want.push((fill(Some("c")), fill(None)));
        }
        body.push_str("out");
        Ok(Built {
            code: Code { items, body },
            want,
            args: n,
        })
    }

    fn without_shadows(&self) -> Result<Case, String> {
        if self.shadows.is_empty() {
            return Err("a constant is missing".into());
        }
        let mut c = self.clone();
        c.shadows.clear();
        Ok(c)
    }
}

fn names_len(how: &[u8], k: usize) -> usize {
    LOCALS[(how.get(k + 1).copied().unwrap_or(3) as usize + k) % LOCALS.len()].len() * 7
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z0-9 #%.-]{0,8}",
        4 => vec(select(vec![
            "{", "}", ";", ":", ",", "&", "@", "$", "/*", "*/", "//", "(", ")", "[", "]", ":root", "#", "!", " ", "'", "\"",
            "\\", "é", "🦀", "${x}", "</style>", "%", "a, b", "  ", "\n", "\t", "{}", "{0}", "{{", "}}", "zq0qz", "\0", "red", "\u{200b}",
        ]), 0..5).prop_map(|v| v.concat()),
        1 => any::<String>().prop_map(|s| s.chars().filter(|c| *c != '\u{2028}').take(12).collect()),
    ]
    .boxed()
}

pub fn strategy() -> BoxedStrategy<Case> {
    let syntax = prop_oneof![
        literal::strategy().prop_map(Syntax::L),
        inline::strategy().prop_map(Syntax::I),
    ];
    (
        syntax,
        vec(vec(text(), 1..5), 1..4),
        vec(prop_oneof![7 => any::<u8>(), 1 => Just(TURN), 1 => Just(MOVED)], 10),
        vec(any::<u8>(), 0..5),
        any::<u8>(),
        prop_oneof![1 => Just(true), 2 => Just(false)],
    )
        .prop_map(|(syntax, evals, how, shadows, place, benign)| Case {
            syntax,
            evals,
            how,
            shadows,
            place,
            benign,
        })
        .prop_filter("two variables of one name", |c| !matches!(c.build(), Err(m) if m.starts_with("two")))
        .boxed()
}

pub fn classify(c: &Case, rec: &mut Rec) {
    let Ok(b) = c.build() else { return };
    rec.class("literal", matches!(c.syntax, Syntax::L(_)));
    rec.class("inline", matches!(c.syntax, Syntax::I(_)));
    rec.class("evaluated more than once", c.evals.len() > 1 && b.args > 0);
    rec.class("items of the caller with the names macros use", !c.shadows.is_empty());
    rec.class("no interpolation", b.args == 0);
    rec.class("three interpolations or more", b.args > 2);
    let n = b.args.min(c.how.len());
    rec.class("a literal", c.how[..n].iter().any(|h| lit(h % HOWS)));
    rec.class("a count of its evaluations", c.how[..n].iter().any(|h| h % HOWS == TURN));
    rec.class("a value that is moved", c.how[..n].iter().any(|h| h % HOWS == MOVED));
    rec.class("texts that are not CSS", !c.benign && b.args > 0);
    rec.nontrivial(b.args > 0);
}

pub fn test(rustc: &Rustc, cases: &[Case]) -> Result<Vec<Result<(), String>>, String> {
    let built: Vec<Result<Built, String>> = cases.iter().map(|c| c.build()).collect();
    let codes: Vec<Code> = built
        .iter()
        .map(|b| match b {
            Ok(b) => b.code.clone(),
            Err(_) => Code {
                items: String::new(),
                body: "vec![]".into(),
            },
        })
        .collect();
    let outs = rustc.eval(&codes, Mode::Run)?;
    Ok(built
        .into_iter()
        .zip(outs)
        .map(|(b, o)| {
            let b = match b {
                Ok(b) => b,
                Err(m) if m.starts_with("two") => return Ok(()),
                Err(m) => return Err(m),
            };
            let shown = || format!("\n  source:\n{}\n{}", b.code.items, b.code.body);
            let outs = match o {
                Outcome::Rejected(m) => return Err(format!("does not compile: {m}{}", shown())),
                Outcome::Panicked(m) => return Err(format!("panics: {m}{}", shown())),
                Outcome::Accepted => return Err("was not run".into()),
                Outcome::Outputs(o) => o,
            };
            if outs.len() != b.want.len() {
                return Err("not one output per evaluation".into());
            }
            for (n, (out, (scoped, global))) in outs.iter().zip(&b.want).enumerate() {
                for (got, want) in [(&out.scoped, scoped), (&out.global, global)] {
                    if got.as_ref().is_some_and(|g| g != want) {
                        return Err(format!(
                            "evaluation {n} renders\n{:?}\n  instead of\n{want:?}{}",
                            got.as_ref().unwrap(),
                            shown()
                        ));
                    }
                }
            }
            Ok(())
        })
        .collect())
}
