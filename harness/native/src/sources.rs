//! C19, C20: sources of styles, and styles refused by debug builds.

use crate::bridge::Builder;
use vcommon::soup::{apply, edit, tokens, Edit};
use crate::same;
use crate::styles::{kind, Kind};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::str::FromStr;
use stylist::ast::{self, ToStyleStr};
use stylist::manager::{render_static, StyleManager};
use stylist::{GlobalStyle, Style, StyleSource};
use vcommon::css;
use vcommon::gen::{self, Opts};
use vcommon::html;
use vcommon::model::{Sheet, View};
use vcommon::run::{catch, Check, Rec};

const SOURCES: usize = 10;

fn source(n: usize) -> &'static str {
    [
        "&str",
        "String",
        "Cow::Borrowed",
        "Cow::Owned",
        "Sheet",
        "StyleSource::try_from(&str)",
        "StyleSource::from_str",
        "StyleSource::from(Sheet)",
        "StyleSource with another manager",
        "StyleSource::try_from(String)",
    ][n]
}

/// Hands the source of number `n` for the text to the function.
macro_rules! with_source {
    ($n:expr, $text:expr, $f:expr) => {{
        let t: &str = $text;
        let sheet = |t: &str| t.parse::<ast::Sheet>();
        match $n % SOURCES {
            0 => $f(t).map_err(|e| e.to_string()),
            1 => $f(t.to_string()).map_err(|e| e.to_string()),
            2 => $f(Cow::Borrowed(t)).map_err(|e| e.to_string()),
            3 => $f(Cow::<str>::Owned(t.to_string())).map_err(|e| e.to_string()),
            4 => sheet(t).and_then(|s| $f(s)).map_err(|e| e.to_string()),
            5 => StyleSource::try_from(t).and_then(|s| $f(s)).map_err(|e| e.to_string()),
            6 => StyleSource::from_str(t).and_then(|s| $f(s)).map_err(|e| e.to_string()),
            7 => sheet(t).and_then(|s| $f(StyleSource::from(s))).map_err(|e| e.to_string()),
            8 => StyleSource::try_from(t)
                .and_then(|s| $f(s.with_manager(StyleManager::new().unwrap())))
                .map_err(|e| e.to_string()),
            _ => StyleSource::try_from(t.to_string()).and_then(|s| $f(s)).map_err(|e| e.to_string()),
        }
    }};
}

/// A style by one of the constructors: id and text.
fn make(how: u8, src: usize, text: &str, prefix: &str, mgr: &StyleManager) -> Result<(String, String), String> {
    fn s(s: Style) -> (String, String) {
        (s.id().to_string(), s.get_style_str().to_string())
    }
    fn g(s: GlobalStyle) -> (String, String) {
        (s.id().to_string(), s.get_style_str().to_string())
    }
    match how {
        0 => with_source!(src, text, |c| Style::new_with_manager(c, mgr).map(s)),
        1 => with_source!(src, text, |c| Style::new_with_manager(c, mgr.clone()).map(s)),
        2 => with_source!(src, text, |c| Style::create_with_manager(prefix.to_string(), c, mgr).map(s)),
        3 => with_source!(src, text, |c| Style::create_with_manager(
            Cow::<'static, str>::Owned(prefix.to_string()),
            c,
            mgr.clone()
        )
        .map(s)),
        4 => with_source!(src, text, |c| GlobalStyle::new_with_manager(c, mgr).map(g)),
        5 => with_source!(src, text, |c| GlobalStyle::new_with_manager(c, mgr.clone()).map(g)),
        // The default manager, whose prefix is "stylist".
        6 => with_source!(src, text, |c| Style::new(c).map(s)),
        7 => with_source!(src, text, |c| Style::create("stylist", c).map(s)),
        8 => with_source!(src, text, |c| Style::new_with_manager(c, StyleManager::default()).map(s)),
        9 => with_source!(src, text, |c| Style::create_with_manager("stylist", c, StyleManager::default()).map(s)),
        10 => with_source!(src, text, |c| GlobalStyle::new(c).map(g)),
        11 => with_source!(src, text, |c| GlobalStyle::new_with_manager(c, &StyleManager::default()).map(g)),
        _ => with_source!(src, text, |c| Style::create(prefix.to_string(), c).map(s)),
    }
}

/// Which constructors have to give the same style: manager, prefix, kind.
fn group(how: u8, prefix: &str, own: &str) -> (bool, String, bool) {
    match how {
        0 | 1 => (false, own.into(), false),
        2 | 3 => (false, prefix.into(), false),
        4 | 5 => (false, own.into(), true),
        6..=9 => (true, "stylist".into(), false),
        10 | 11 => (true, "stylist".into(), true),
        _ => (true, prefix.into(), false),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Asked {
    sheets: Vec<Sheet>,
    layout: Vec<u8>,
    broken: Option<(u8, Vec<Edit>)>,
    own: String,
    prefix: String,
    asks: Vec<(u8, u8, u8)>,
}

fn asked() -> BoxedStrategy<Asked> {
    let name = || prop_oneof![2 => gen::ident(), 1 => Just("stylist".to_string())];
    (
        vec(prop_oneof![2 => gen::sheet(Opts { depth: 1, items: 3, ..Opts::default() }), 1 => gen::nesting()], 1..3),
        gen::layout(),
        prop::option::of((any::<u8>(), vec(edit(), 1..4))),
        name(),
        name(),
        vec((0..13u8, 0..SOURCES as u8, any::<u8>()), 2..16),
    )
        .prop_map(|(sheets, layout, broken, own, prefix, asks)| Asked {
            sheets,
            layout,
            broken,
            own,
            prefix,
            asks,
        })
        .boxed()
}

fn markup(r: stylist::manager::StaticReader) -> Result<Vec<(String, String)>, String> {
    let mut m = String::new();
    r.read_style_data()
        .write_static_markup(&mut m)
        .map_err(|_| "writing the markup failed".to_string())?;
    html::style_elements(&m).map_err(|e| format!("markup: {e}\n{m}"))
}

fn ask(a: &Asked, rec: &mut Rec) -> Result<(), String> {
    let mut texts: Vec<(String, Option<&Sheet>)> = a.sheets.iter().map(|s| (s.text(&a.layout), Some(s))).collect();
    if let Some((i, e)) = &a.broken {
        texts.push((apply(&a.sheets[*i as usize % a.sheets.len()].text(&[]), e), None));
    }
    let (w, r) = render_static();
    let mgr = StyleManager::builder()
        .prefix(a.own.clone().into())
        .writer(w)
        .build()
        .unwrap();
    // Group and sheet of each registered style, with its id and text.
    type Known = ((bool, String, bool), ast::Sheet, (String, String));
    let mut known: Vec<Known> = vec![];
    let mut captured: Vec<String> = vec![];
    for (how, src, t) in &a.asks {
        let (text, model) = &texts[*t as usize % texts.len()];
        let parsed = text.parse::<ast::Sheet>();
        let got = make(*how, *src as usize, text, &a.prefix, &mgr);
        let what = || format!("constructor {how} with {} of {text:?}", source(*src as usize));
        match (parsed, got) {
            (Err(_), Err(_)) => {
                rec.class("invalid text refused", true);
                if model.is_some() {
                    return Err(format!("{}: valid text refused", what()));
                }
            }
            (Err(e), Ok(_)) => return Err(format!("{} works, but the text does not parse: {e}", what())),
            (Ok(_), Err(e)) => return Err(format!("{} fails although the text parses: {e}", what())),
            (Ok(sheet), Ok(got)) => {
                let g = group(*how, &a.prefix, &a.own);
                if let Some(m) = model {
                    let class = (!g.2).then_some(got.0.as_str());
                    same(&what(), &m.events(View::Rendered(class)), &css::read(&got.1)?)?;
                }
                let head = format!("{}-{}", g.1, if g.2 { "global-" } else { "" });
                if !got.0.starts_with(&head) || got.0.len() == head.len() {
                    return Err(format!("{} gave the id {:?}", what(), got.0));
                }
                match known.iter().find(|k| k.0 == g && k.1 == sheet) {
                    Some(k) => {
                        rec.class("same style from another source", true);
                        rec.nontrivial(true);
                        if k.2 != got {
                            return Err(format!("{} gave {got:?} instead of {:?}", what(), k.2));
                        }
                    }
                    None => {
                        if known.iter().any(|k| k.2 .0 == got.0) {
                            return Err(format!("{} gave the id {} of another style", what(), got.0));
                        }
                        if !g.0 {
                            captured.push(got.0.clone());
                        }
                        known.push((g, sheet, got));
                    }
                }
            }
        }
    }
    let ids: Vec<String> = markup(r)?.into_iter().map(|(i, _)| i).collect();
    if ids != captured {
        return Err(format!("captured {ids:?} instead of {captured:?}"));
    }
    Ok(())
}

pub fn c19() {
    let mut c = Check::new(
        "C19",
        "each text (valid, or a valid one edited at random) is handed to a random choice of 13 constructor calls as one \
         of 10 kinds of source; per manager, prefix and kind there may be one style per sheet, with the model's CSS and \
         one capture; a text that does not parse must fail everywhere and capture nothing; non-trivial: a style is \
         asked for again from another source or constructor",
    );
    c.assume("StyleSource::with_manager (hidden) does not override an explicit manager argument");
    c.sub("asked", (25_000, 500_000), asked, |a, rec| {
        // The default manager belongs to the thread.
        if a.asks.iter().any(|x| x.0 >= 6) {
            rec.class("default manager", true);
            std::thread::scope(|s| {
                s.spawn(|| catch(|| ask(a, rec)).unwrap_or_else(|p| Err(format!("panic: {p}"))))
                    .join()
                    .unwrap()
            })
        } else {
            ask(a, rec)
        }
    });
    c.finish()
}

/// Text put into a text of the sheet as an interpolated value would be.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inject {
    /// Which text, and where in it.
    at: u16,
    pos: u8,
    text: String,
    replace: bool,
}

fn inject() -> BoxedStrategy<Inject> {
    let hostile = select(vec![
        "}", "{", "\"", "'", "/*", "*/", ";", "\\", "}}", "{{", "{}", "; color: red", "a;b", "; }", "} .x {", "} .x { a: b; ",
        "; } @media x { a: b;", "\"}", "\"{\"", "'}'", "\\\"", "\\}", "/* } */", "/* { ", "\"\\\"", "<", "</style>", "a: b;", ": b;", "\n}",
        "x{", "x}", "@media y {", ";;", "{a:b}", "} {", "(", ")", "[", ",", "&", "@", "//", "\\\\\"",
    ])
    .prop_map(String::from);
    (
        any::<u16>(),
        any::<u8>(),
        prop_oneof![6 => hostile, 1 => tokens(), 1 => vec(tokens(), 1..4).prop_map(|v| v.concat())],
        prop::bool::weighted(0.3),
    )
        .prop_map(|(at, pos, text, replace)| Inject { at, pos, text, replace })
        .boxed()
}

/// Benign text for the place it is put.
fn benign() -> BoxedStrategy<Inject> {
    (
        any::<u16>(),
        any::<u8>(),
        prop_oneof![
            3 => gen::ident(),
            2 => gen::string_lit(Opts::default()),
            1 => gen::value(Opts::default()),
            1 => select(vec!["1px", "\\}", "\\\"", "'{'", "\"}\"", "a b", "rgba(0, 0, 0)", "#fff", "<", "50%", "é"]).prop_map(String::from),
        ],
        any::<bool>(),
    )
        .prop_map(|(at, pos, text, replace)| Inject { at, pos, text, replace })
        .boxed()
}

/// Puts texts into declaration values, selectors and conditions of the model.
fn injected(s: &Sheet, inj: &[Inject], only_values: bool) -> (Sheet, usize) {
    fn strings(v: &mut serde_json::Value, only: bool, f: &mut dyn FnMut(&str, &mut String)) {
        match v {
            serde_json::Value::Object(m) => {
                for (k, v) in m.iter_mut() {
                    match v {
                        serde_json::Value::String(s) => {
                            if k == "val" || !only && matches!(k.as_str(), "T" | "cond") {
                                f(k, s)
                            }
                        }
                        v => strings(v, only, f),
                    }
                }
            }
            serde_json::Value::Array(a) => a.iter_mut().for_each(|v| strings(v, only, f)),
            _ => {}
        }
    }
    let mut js = serde_json::to_value(s).unwrap();
    let mut n = 0;
    strings(&mut js, only_values, &mut |_, _| n += 1);
    if n == 0 {
        return (s.clone(), 0);
    }
    for i in inj {
        let target = i.at as usize % n;
        let mut k = 0;
        strings(&mut js, only_values, &mut |_, t| {
            if k == target {
                if i.replace {
                    *t = i.text.clone();
                } else if only_values {
                    *t = if i.pos % 2 == 0 { format!("{t} {}", i.text) } else { format!("{} {t}", i.text) };
                } else {
                    let mut p = match i.pos % 3 {
                        0 => 0,
                        1 => t.len(),
                        _ => i.pos as usize % (t.len() + 1),
                    };
                    while !t.is_char_boundary(p) {
                        p -= 1;
                    }
                    t.insert_str(p, &i.text);
                }
            }
            k += 1;
        });
    }
    (serde_json::from_value(js).unwrap(), n)
}

/// The CSS is no longer a style sheet: unbalanced braces, open string or comment, or text in a block
/// or at the end that is not a declaration.
fn corrupt(rendered: &str) -> bool {
    !css::balanced(rendered)
        || !rendered.contains("${") && css::read(rendered).is_err_and(|e| {
            ["unterminated", "not a declaration", "not a property name"].iter().any(|m| e.starts_with(m))
        })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Attempt {
    sheet: Sheet,
    parts: Vec<u8>,
    inject: Vec<Inject>,
    kind: Kind,
    good: Vec<Sheet>,
    again: u8,
}

fn create(sheet: ast::Sheet, kind: &Kind, mgr: &StyleManager) -> Result<(String, String), String> {
    create_as("q", sheet, kind, mgr)
}

fn create_as(prefix: &'static str, sheet: ast::Sheet, kind: &Kind, mgr: &StyleManager) -> Result<(String, String), String> {
    let r = catch(|| match kind {
        Kind::Global => GlobalStyle::new_with_manager(sheet, mgr).map(|s| (s.id().to_string(), s.get_style_str().to_string())),
        Kind::Scoped => Style::new_with_manager(sheet, mgr).map(|s| (s.id().to_string(), s.get_style_str().to_string())),
        Kind::Prefixed(_) => {
            Style::create_with_manager(prefix, sheet, mgr).map(|s| (s.id().to_string(), s.get_style_str().to_string()))
        }
    });
    match r {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!("error {e}")),
        Err(p) => Err(format!("panic {p}")),
    }
}

fn attempt(a: &Attempt, rec: &mut Rec) -> Result<(), String> {
    let (w, r) = render_static();
    let mgr = StyleManager::builder().writer(w).build().unwrap();
    let mut captured = vec![];
    let mut known: Vec<(ast::Sheet, String)> = vec![];
    let mut good = |n: usize, captured: &mut Vec<String>| -> Result<(), String> {
        let m = &a.good[n % a.good.len()];
        let sheet = Builder::new(&[]).sheet(m);
        let (id, text) = create_as("good", sheet.clone(), &Kind::Prefixed(0), &mgr).map_err(|e| format!("a sound style was refused: {e}"))?;
        same("sound style", &m.events(View::Rendered(Some(&id))), &css::read(&text)?)?;
        match known.iter().find(|k| k.0 == sheet) {
            Some(k) if k.1 == id => {}
            Some(k) => return Err(format!("after a refusal the style {} is {id}", k.1)),
            None => {
                captured.push(id.clone());
                known.push((sheet, id));
            }
        }
        Ok(())
    };
    good(0, &mut captured)?;
    let (model, _) = injected(&a.sheet, &a.inject, false);
    let mut b = Builder::new(&a.parts);
    let bad = b.sheet(&model);
    let class = match a.kind {
        Kind::Global => None,
        _ => Some("q-class"),
    };
    let rendered = bad.to_style_str(class);
    let is_corrupt = corrupt(&rendered);
    rec.class("corrupt", is_corrupt);
    rec.class("still sound", !is_corrupt && css::read(&rendered).is_ok());
    rec.nontrivial(is_corrupt);
    let n = 1 + a.again as usize % 3;
    let mut first: Option<Result<(String, String), String>> = None;
    for i in 0..n {
        let got = create(bad.clone(), &a.kind, &mgr);
        match &got {
            Ok((id, _)) => {
                if is_corrupt {
                    return Err(format!("attempt {i}: a corrupted style was registered as {id}:\n{rendered}"));
                }
                if first.is_none() && !known_id(&captured, id) {
                    captured.push(id.clone());
                }
            }
            Err(e) if e.starts_with("error") => return Err(format!("refused with an {e} instead of a panic:\n{rendered}")),
            Err(_) => rec.class("refused", true),
        }
        match &first {
            None => first = Some(got),
            Some(f) if f.is_ok() != got.is_ok() || f.is_ok() && *f != got => {
                return Err(format!("attempt {i} gave {got:?} after {f:?}:\n{rendered}"));
            }
            _ => {}
        }
        good(i, &mut captured)?;
    }
    for i in 0..a.good.len() {
        good(i, &mut captured)?;
    }
    let got: Vec<String> = markup_ids(r)?;
    if got != captured {
        return Err(format!("captured {got:?} instead of {captured:?}"));
    }
    Ok(())
}

fn known_id(v: &[String], id: &str) -> bool {
    v.iter().any(|k| k == id)
}

fn markup_ids(r: stylist::manager::StaticReader) -> Result<Vec<String>, String> {
    // The CSS itself may be odd here; the elements are found by their ids.
    let mut m = String::new();
    r.read_style_data()
        .write_static_markup(&mut m)
        .map_err(|_| "writing the markup failed".to_string())?;
    Ok(html::style_elements(&m).map_err(|e| format!("markup: {e}\n{m}"))?.into_iter().map(|(i, _)| i).collect())
}

pub fn c20() {
    let mut c = Check::new(
        "C20",
        "random sheets with fragments put into values, selectors and conditions (as interpolation does): braces, \
         quotes, comment marks, declarations; when an independent tokeniser finds the rendered CSS unbalanced or ending \
         inside a string or comment, creating the style must panic each time, capture nothing and leave the manager \
         usable; sheets with well-formed fragments must be accepted; non-trivial: the rendered CSS is corrupted, or \
         the benign fragment holds punctuation",
    );
    c.assume("built with debug assertions and the debug_parser feature, as a debug build is by default");
    let small = Opts {
        depth: 2,
        items: 3,
        ..Opts::default()
    };
    c.sub(
        "corrupted",
        (20_000, 500_000),
        || {
            (
                prop_oneof![2 => gen::sheet(small), 1 => gen::nesting()],
                prop_oneof![1 => Just(vec![]), 3 => vec(any::<u8>(), 1..12)],
                vec(inject(), 1..4),
                kind(),
                vec(gen::nesting(), 1..3),
                any::<u8>(),
            )
                .prop_map(|(sheet, parts, inject, kind, good, again)| Attempt {
                    sheet,
                    parts,
                    inject,
                    kind,
                    good,
                    again,
                })
        },
        attempt,
    );
    c.sub(
        "benign",
        (15_000, 400_000),
        || {
            (
                prop_oneof![2 => gen::sheet(small), 1 => gen::nesting()],
                prop_oneof![1 => Just(vec![]), 3 => vec(any::<u8>(), 1..12)],
                vec(benign(), 0..4),
                kind(),
            )
        },
        |(s, parts, inj, kind), rec| {
            let (model, n) = injected(s, inj, true);
            rec.nontrivial(n > 0 && inj.iter().any(|i| i.text.contains(|c: char| c.is_ascii_punctuation())));
            let (w, r) = render_static();
            let mgr = StyleManager::builder().writer(w).build().unwrap();
            let sheet = Builder::new(parts).sheet(&model);
            let (id, text) =
                create(sheet, kind, &mgr).map_err(|e| format!("a sound style was refused: {e}\n{}", model.text(&[])))?;
            let class = (*kind != Kind::Global).then_some(id.as_str());
            same("created style", &model.events(View::Rendered(class)), &css::read(&text)?)?;
            let got = markup_ids(r)?;
            if got != [id.clone()] {
                return Err(format!("captured {got:?} instead of {id}"));
            }
            Ok(())
        },
    );
    c.finish()
}
