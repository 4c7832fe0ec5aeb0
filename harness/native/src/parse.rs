//! C01, C02: parsing.

use crate::{bridge, same};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};
use stylist::ast;
use vcommon::css;
use vcommon::gen::{self, Opts};
use vcommon::model::{Sheet, View};
use vcommon::run::{Check, Rec};
use vcommon::soup::{apply, edit, tokens};

pub fn classify(s: &Sheet, rec: &mut Rec) {
    let t = s.stats();
    rec.class("block", t.blocks > 0);
    rec.class("selector list", t.sel_lists > 0);
    rec.class("at-rule", t.ats > 0);
    rec.class("nested at-rule", t.nested_ats > 0);
    rec.class("keyframes", t.keyframes > 0);
    rec.class("quoted string", t.strings > 0);
    rec.class("comma in selector brackets", t.bracket_lists > 0);
    rec.class("anchored selector", t.anchored > 0);
    rec.class("pseudo selector", t.pseudo > 0);
    rec.class("empty block", t.empties > 0);
    rec.class("depth 3 or more", t.max_depth >= 3);
    rec.class("10 declarations or more", t.decls >= 10);
}

fn parses_to(sheet: &Sheet, text: &str) -> Result<(), String> {
    let parsed: ast::Sheet = text
        .parse()
        .map_err(|e| format!("valid style rejected: {e}\ntext: {text:?}"))?;
    same(
        &format!("parsed from {text:?}"),
        &sheet.events(View::Written),
        &bridge::written(&parsed),
    )?;
    // Blocks without declarations have to be there too.
    let (a, b) = (css::essence(&sheet.text(&[])), css::essence(&bridge::print(&parsed)));
    if a != b {
        return Err(format!("the sheet of {text:?} holds {b:?} instead of {a:?}"));
    }
    Ok(())
}

pub fn c01() {
    let c = Check::new(
        "C01",
        "random style sheets of the supported dialect (model) written out with random white space, comments and \
         optional final semicolons, parsed, and compared with the model declaration by declaration; non-trivial: at \
         least two declarations and a block, at-rule or keyframes rule, or a non-canonical layout",
    );
    c.sub(
        "sheets",
        (60_000, 1_500_000),
        || (gen::sheet(Opts { levels: 24, ..Opts::default() }), gen::layout()),
        |(s, l), rec| {
            classify(s, rec);
            let t = s.stats();
            rec.class("comments or white space", !l.is_empty());
            rec.nontrivial(t.decls >= 2 && (t.blocks + t.ats + t.keyframes > 0 || !l.is_empty()));
            parses_to(s, &s.text(l))
        },
    );
    // Few items, so that each construct meets each layout.
    c.sub(
        "small",
        (60_000, 1_500_000),
        || {
            (
                gen::sheet(Opts {
                    depth: 1,
                    items: 2,
                    ..Opts::default()
                }),
                gen::layout(),
            )
        },
        |(s, l), rec| {
            classify(s, rec);
            rec.nontrivial(!s.0.is_empty());
            parses_to(s, &s.text(l))
        },
    );
    // The layout does not matter.
    c.sub(
        "layouts",
        (20_000, 400_000),
        || {
            (
                gen::sheet(Opts {
                    depth: 2,
                    items: 3,
                    ..Opts::default()
                }),
                vec(gen::layout(), 2..5),
            )
        },
        |(s, ls), rec| {
            rec.nontrivial(s.stats().decls > 0);
            let want = s.events(View::Written);
            for l in ls {
                let text = s.text(l);
                let p: ast::Sheet = text
                    .parse()
                    .map_err(|e| format!("rejected: {e}\ntext: {text:?}"))?;
                same(&format!("{text:?}"), &want, &bridge::written(&p))?;
            }
            Ok(())
        },
    );
    c.finish()
}

/// The parser's answer is an error or a faithful sheet; the same again.
pub fn faithful(text: &str, rec: &mut Rec) -> Result<(), String> {
    let a = text.parse::<ast::Sheet>();
    rec.class("accepted", a.is_ok());
    match &a {
        Ok(sheet) => {
            rec.class("accepted, not empty", !sheet.is_empty());
            if !css::balanced(text) {
                return Err(format!(
                    "accepted although its blocks, strings or comments do not balance: {text:?}"
                ));
            }
            let (want, got) = (css::essence(text), css::essence(&bridge::print(sheet)));
            if want != got {
                return Err(format!(
                    "accepted {text:?} as {:?}, which keeps {got:?} of {want:?}",
                    bridge::print(sheet)
                ));
            }
        }
        Err(_) => rec.class("rejected", true),
    }
    let b = text.parse::<ast::Sheet>();
    if a != b {
        return Err(format!("two answers for {text:?}: {a:?} and {b:?}"));
    }
    Ok(())
}

/// A text that repeats a few openings around a core.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nested {
    wrappers: Vec<usize>,
    core: String,
    closed: bool,
    rest: String,
}

const WRAPPERS: [(&str, &str); 26] = [
    ("@media print { ", "} "),
    ("@supports (display: grid) { ", "} "),
    ("@container side (width > 1px) {", "}"),
    (".a { ", "} "),
    (".a, .b { color: red; ", "} "),
    ("@keyframes k { ", "}"),
    ("from { ", "}"),
    (":not(", ")"),
    ("(", ")"),
    ("[", "]"),
    ("f(", ")"),
    ("a: (", ");"),
    ("width: 1px; @media x { ", "} "),
    ("{", "}"),
    ("a:", ";"),
    ("a ", " b"),
    ("a, ", ", b"),
    ("/* x */", "/**/"),
    ("\"x\" ", " 'y'"),
    ("\\a", "\\"),
    ("${a} ", "${b}"),
    ("color: red; ", ""),
    ("\"", "\""),
    ("/*", "*/"),
    ("$", "{"),
    (" / ", " * "),
];

fn nested() -> impl Strategy<Value = Nested> {
    let core = prop_oneof![
        Just(String::new()),
        Just("color: red;".to_string()),
        Just(".a { color: red; }".to_string()),
        vec(tokens(), 0..4).prop_map(|v| v.concat()),
    ];
    let rest = prop_oneof![
        3 => Just(String::new()),
        1 => vec(tokens(), 0..4).prop_map(|v| v.concat()),
    ];
    (vec(0..WRAPPERS.len(), 1..4), core, prop::bool::weighted(0.7), rest)
        .prop_map(|(wrappers, core, closed, rest)| Nested { wrappers, core, closed, rest })
}

impl Nested {
    fn text(&self, times: usize) -> String {
        let mut t = String::new();
        for _ in 0..times {
            self.wrappers.iter().for_each(|w| t.push_str(WRAPPERS[*w].0));
        }
        t.push_str(&self.core);
        for _ in 0..times * usize::from(self.closed) {
            self.wrappers.iter().rev().for_each(|w| t.push_str(WRAPPERS[*w].1));
        }
        t + &self.rest
    }
}

/// The work (allocations) of parsing grows like a polynomial with the depth of the text: doubling the
/// depth must not multiply it by more than `FACTOR`, which an exponential growth soon does.
fn work(n: &Nested) -> Result<(), String> {
    const FACTOR: u64 = 10;
    let of = |times| {
        // Never parsed before, answers are cached.
        static TEXTS: AtomicUsize = AtomicUsize::new(0);
        let text = format!("/*{}*/{}", TEXTS.fetch_add(1, Ordering::Relaxed), n.text(times));
        let before = crate::alloc::made();
        let _ = text.parse::<ast::Sheet>();
        crate::alloc::made() - before
    };
    let mut times = 1;
    let mut last = of(times);
    while times < 48 {
        times *= 2;
        let now = of(times);
        if now > last * FACTOR + 3000 {
            return Err(format!(
                "parsing {:?} takes {last} allocations, {now} when it is twice as deep",
                n.text(times / 2)
            ));
        }
        last = now;
    }
    Ok(())
}

pub fn c02() {
    let c = Check::new(
        "C02",
        "random token sequences, edited valid style sheets, arbitrary characters and prefixes of valid style sheets; \
         each is parsed twice and an accepted text is compared with the sheet (characters other than white space, \
         comments and separators) and must balance; non-trivial: the text is accepted with content, or it is rejected \
         and contains a brace, quote or comment",
    );
    let nontrivial = |t: &str, rec: &mut Rec| {
        rec.nontrivial(t.contains(['{', '}', '"', '\'', ';']) || t.contains("/*"));
    };
    c.sub("work", (4_000, 60_000), nested, |n, rec| {
        rec.nontrivial(true);
        rec.class("closed", n.closed);
        work(n)
    });
    c.sub(
        "tokens",
        (120_000, 4_000_000),
        || vec(tokens(), 0..14).prop_map(|v| v.concat()),
        |t, rec| {
            nontrivial(t, rec);
            faithful(t, rec)
        },
    );
    c.sub(
        "edited",
        (80_000, 2_500_000),
        || {
            let o = Opts {
                depth: 2,
                items: 3,
                ..Opts::default()
            };
            (gen::sheet(o), gen::layout(), vec(edit(), 1..4))
                .prop_map(|(s, l, e)| apply(&s.text(&l), &e))
        },
        |t, rec| {
            nontrivial(t, rec);
            faithful(t, rec)
        },
    );
    c.sub(
        "characters",
        (20_000, 400_000),
        || prop_oneof![".{0,40}", "(?s).{0,12}", "[ -~\n]{0,60}", vec(any::<char>(), 0..20).prop_map(|v| v.into_iter().collect::<String>())],
        |t, rec| {
            nontrivial(t, rec);
            faithful(t, rec)
        },
    );
    // A prefix of a valid text is accepted exactly when it ends between two items.
    c.sub(
        "prefixes",
        (10_000, 200_000),
        || {
            let o = Opts {
                depth: 2,
                items: 3,
                ..Opts::default()
            };
            (gen::sheet(o), gen::layout(), vec(any::<u16>(), 1..32))
        },
        |(s, l, cuts), rec| {
            let text = s.text(l);
            rec.nontrivial(s.stats().decls > 0);
            for c in cuts {
                let mut i = *c as usize * (text.len() + 1) / 65536;
                while !text.is_char_boundary(i) {
                    i -= 1;
                }
                let p = &text[..i];
                match (css::read(p), p.parse::<ast::Sheet>()) {
                    (Err(why), Ok(_)) => {
                        return Err(format!("incomplete text accepted ({why}): {p:?}"));
                    }
                    (Ok(_), Err(e)) => {
                        return Err(format!("complete text rejected: {p:?}: {e}"));
                    }
                    (Ok(want), Ok(got)) => same(&format!("{p:?}"), &want, &bridge::written(&got))?,
                    (Err(_), Err(_)) => {}
                }
            }
            Ok(())
        },
    );
    // Deep nesting and long runs terminate.
    c.sub(
        "repeated",
        (1_500, 20_000),
        || {
            (
                select(vec![
                    "@media x {", ":not(", "[", "(", "{", "}", "a{b:c}", "a:b;", "/*", "*/", "\"", "\\", "${", "a,", "a ", ";",
                    "@keyframes x {", "x {", "@media ", "/", "'", "/**/", "&", "--", "\"\\", "@supports (a:b) {.x{",
                ]),
                0..120usize,
                vec(tokens(), 0..3),
            )
                .prop_map(|(t, n, rest)| format!("{}{}", t.repeat(n), rest.concat()))
        },
        |t, rec| {
            nontrivial(t, rec);
            faithful(t, rec)
        },
    );
    c.finish()
}
