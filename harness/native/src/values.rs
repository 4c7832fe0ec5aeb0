//! C17, C18: sheets as values, and parsing regardless of history.

use crate::bridge::{self, Builder};
use crate::parse::faithful;
use vcommon::soup::{apply, edit, Edit};
use crate::same;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Barrier;
use stylist::ast::{self, ToStyleStr};
use stylist::StyleSource;
use vcommon::css;
use vcommon::gen::{self, Opts};
use vcommon::model::{Sheet, View};
use vcommon::run::{Check, Rec};

/// Structure and texts of a sheet, spelt out independently of its own equality.
fn shape(s: &ast::Sheet) -> Value {
    fn fr(f: &[ast::StringFragment]) -> Value {
        f.iter().map(|m| Value::from(m.inner.as_ref())).collect()
    }
    fn block(b: &ast::Block) -> Value {
        let sels: Vec<Value> = b.condition.iter().map(|s| fr(&s.fragments)).collect();
        json!({"block": sels, "content": b.content.iter().map(content).collect::<Vec<_>>()})
    }
    fn rule(r: &ast::Rule) -> Value {
        json!({"rule": fr(&r.condition), "content": r.content.iter().map(content).collect::<Vec<_>>()})
    }
    fn content(c: &ast::RuleBlockContent) -> Value {
        match c {
            ast::RuleBlockContent::Rule(r) => rule(r),
            ast::RuleBlockContent::Block(b) => block(b),
            ast::RuleBlockContent::StyleAttr(a) => json!({"key": a.key.as_ref(), "value": fr(&a.value)}),
        }
    }
    s.iter()
        .map(|c| match c {
            ast::ScopeContent::Block(b) => block(b),
            ast::ScopeContent::Rule(r) => rule(r),
        })
        .collect()
}

#[derive(Default)]
struct Fnv(u64);

impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3).rotate_left(7);
        }
        // The boundaries of writes matter to some hashers.
        self.0 = self.0.wrapping_mul(31).wrapping_add(bytes.len() as u64);
    }
}

fn hashes(s: &ast::Sheet) -> (u64, u64) {
    let mut a = DefaultHasher::new();
    s.hash(&mut a);
    let mut b = Fnv::default();
    s.hash(&mut b);
    (a.finish(), b.finish())
}

/// Equality and hash of all pairs agree with the structure.
fn compare(all: &[ast::Sheet], rec: &mut Rec) -> Result<(), String> {
    let shapes: Vec<Value> = all.iter().map(shape).collect();
    let hs: Vec<_> = all.iter().map(hashes).collect();
    let mut by_shape: HashMap<String, usize> = HashMap::new();
    for (i, a) in all.iter().enumerate() {
        for (j, b) in all.iter().enumerate() {
            let want = shapes[i] == shapes[j];
            if i < j {
                rec.class("equal pair", want);
                rec.class("different pair", !want);
            }
            if (a == b) != want || (a != b) == want {
                return Err(format!(
                    "sheets are {} although their content is {}:\n{}\n{}",
                    if a == b { "equal" } else { "unequal" },
                    if want { "the same" } else { "different" },
                    shapes[i],
                    shapes[j]
                ));
            }
            if want && hs[i] != hs[j] {
                return Err(format!("equal sheets hash differently:\n{a:?}\n{b:?}"));
            }
            if want && a.to_style_str(Some("c")) != b.to_style_str(Some("c")) {
                return Err(format!("equal sheets render differently:\n{a:?}\n{b:?}"));
            }
            let (sa, sb) = (StyleSource::from(a.clone()), StyleSource::from(b.clone()));
            // The sources are made at one place of the program.
            if want && sa != sa.clone() || !want && sa == sb {
                return Err(format!("sources compare otherwise than their sheets:\n{}\n{}", shapes[i], shapes[j]));
            }
        }
        by_shape.entry(shapes[i].to_string()).or_insert(i);
    }
    let set: HashSet<&ast::Sheet> = all.iter().collect();
    if set.len() != by_shape.len() {
        return Err(format!("a hash set holds {} of {} sheets", set.len(), by_shape.len()));
    }
    Ok(())
}

fn transfer(s: &ast::Sheet) -> Result<Vec<(&'static str, ast::Sheet)>, String> {
    fn e(e: impl std::fmt::Display) -> String {
        format!("transfer failed: {e}")
    }
    let text = serde_json::to_string(s).map_err(e)?;
    let bin = bincode::serialize(s).map_err(e)?;
    let mut cbor = vec![];
    ciborium::into_writer(s, &mut cbor).map_err(e)?;
    Ok(vec![
        ("json", serde_json::from_str(&text).map_err(e)?),
        ("json reader", serde_json::from_reader(text.as_bytes()).map_err(e)?),
        ("json value", serde_json::from_value(serde_json::to_value(s).map_err(e)?).map_err(e)?),
        (
            "pretty json",
            serde_json::from_slice(&serde_json::to_vec_pretty(s).map_err(e)?).map_err(e)?,
        ),
        ("bincode", bincode::deserialize(&bin).map_err(e)?),
        ("bincode reader", bincode::deserialize_from(bin.as_slice()).map_err(e)?),
        ("cbor", ciborium::from_reader(cbor.as_slice()).map_err(e)?),
    ])
}

fn survives(s: &ast::Sheet) -> Result<(), String> {
    for (how, t) in transfer(s)? {
        if t != *s || *s != t || shape(&t) != shape(s) {
            return Err(format!("{how} turned\n{s:?} into\n{t:?}"));
        }
        if hashes(&t) != hashes(s) {
            return Err(format!("the hash changed over {how}: {s:?}"));
        }
        for class in [None, Some("c-1")] {
            if t.to_style_str(class) != s.to_style_str(class) {
                return Err(format!("the rendering changed over {how}: {s:?}"));
            }
        }
    }
    Ok(())
}

fn small() -> Opts {
    Opts {
        depth: 2,
        items: 3,
        ..Opts::default()
    }
}

fn a_sheet() -> BoxedStrategy<Sheet> {
    prop_oneof![2 => gen::sheet(small()), 1 => gen::nesting()].boxed()
}

pub fn c17() {
    let c = Check::new(
        "C17",
        "groups of sheets: random ones and copies with one text or item changed, each built from borrowed and owned \
         parts cut into fragments in several ways, or parsed; all pairs are compared (equality and two hashes) with an \
         independent description of the structure, and each is sent through JSON, CBOR and bincode; non-trivial: the \
         group has a pair that is equal but built differently and a pair that differs in one place, or the sheet has \
         a nested item",
    );
    c.sub(
        "groups",
        (12_000, 300_000),
        || {
            (
                a_sheet(),
                vec((any::<u16>(), any::<u8>()), 1..4),
                vec((any::<u8>(), vec(any::<u8>(), 1..10), any::<bool>()), 2..6),
            )
        },
        |(s, edits, builds), rec| {
            let mut models = vec![s.clone()];
            for (at, how) in edits {
                models.push(gen::edit_one(s, *at, *how));
            }
            rec.nontrivial(s.stats().decls > 1);
            let mut all = vec![];
            for m in &models {
                all.push(Builder::new(&[]).sheet(m));
            }
            for (i, bytes, split) in builds {
                let m = &models[*i as usize % models.len()];
                let mut b = Builder::new(bytes);
                b.split = *split;
                all.push(b.sheet(m));
                // The same cuts, all owned.
                all.push(serde_json::from_value(serde_json::to_value(all.last().unwrap()).unwrap()).unwrap());
            }
            let same_model: Vec<ast::Sheet> = models.iter().map(|m| Builder::new(&[]).sheet(m)).collect();
            for (i, m) in models.iter().enumerate() {
                for (j, n) in models.iter().enumerate() {
                    if m != n && m.text(&[]) != n.text(&[]) && same_model[i] == same_model[j] {
                        return Err(format!("two different sheets are equal:\n{m:?}\n{n:?}"));
                    }
                }
            }
            all.push(all[0].clone());
            compare(&all, rec)
        },
    );
    c.sub(
        "parsed",
        (6_000, 120_000),
        || (a_sheet(), gen::layout(), any::<u16>(), any::<u8>(), vec(any::<u8>(), 1..10)),
        |(s, l, at, how, bytes), rec| {
            rec.nontrivial(s.stats().decls > 1);
            let t = gen::edit_one(s, *at, *how);
            let p = |x: &Sheet, l: &[u8]| x.text(l).parse::<ast::Sheet>().map_err(|e| e.to_string());
            let mut b = Builder::new(bytes);
            b.split = false;
            let built = b.sheet(s);
            let mut all = vec![p(s, &[])?, p(s, l)?, p(s, &[])?, p(&t, &[])?, p(&t, l)?, built];
            all.push(all[1].clone());
            compare(&all, rec)
        },
    );
    c.sub(
        "transfer",
        (12_000, 300_000),
        || (a_sheet(), vec(any::<u8>(), 0..16), gen::layout()),
        |(s, bytes, l), rec| {
            let t = s.stats();
            rec.nontrivial(t.nested_ats + t.sel_lists + t.strings > 0);
            rec.class("nested at-rule", t.nested_ats > 0);
            rec.class("empty block or rule", t.empties > 0);
            survives(&Builder::new(bytes).sheet(s))?;
            if bytes.first().is_some_and(|b| b % 4 == 0) {
                rec.class("parsed", true);
                survives(&s.text(l).parse().map_err(|e: stylist::Error| e.to_string())?)?;
            }
            Ok(())
        },
    );
    c.finish()
}

/// A text to parse.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Variant {
    Plain,
    Layout(Vec<u8>),
    /// One declaration, name or condition changed.
    Edited(u16, u8),
    /// Any characters changed; may be invalid.
    Broken(Vec<Edit>),
    /// A text close to it: case, one letter, white space in strings.
    Near(u16, u8),
    Cut(u16),
}

fn variant() -> BoxedStrategy<Variant> {
    prop_oneof![
        1 => Just(Variant::Plain),
        1 => gen::layout().prop_map(Variant::Layout),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, h)| Variant::Edited(a, h)),
        2 => vec(edit(), 1..3).prop_map(Variant::Broken),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, h)| Variant::Near(a, h)),
        2 => any::<u16>().prop_map(Variant::Cut),
    ]
    .boxed()
}

/// The text and, when it is known to be valid, its model.
fn realise(s: &Sheet, v: &Variant) -> (String, Option<Sheet>) {
    match v {
        Variant::Plain => (s.text(&[]), Some(s.clone())),
        Variant::Layout(l) => (s.text(l), Some(s.clone())),
        Variant::Edited(a, h) => {
            let t = gen::edit_one(s, *a, *h);
            (t.text(&[]), Some(t))
        }
        Variant::Broken(e) => (apply(&s.text(&[]), e), None),
        Variant::Near(a, h) => {
            let mut t: Vec<char> = s.text(&[]).chars().collect();
            let n = t.len();
            let spot = (0..n).cycle().skip(*a as usize % n.max(1)).take(n).find(|i| t[*i].is_ascii_alphanumeric());
            if let Some(i) = spot {
                t[i] = match h % 4 {
                    0 => {
                        if t[i].is_ascii_uppercase() {
                            t[i].to_ascii_lowercase()
                        } else {
                            t[i].to_ascii_uppercase()
                        }
                    }
                    1 => ((t[i] as u8) ^ 1) as char,
                    2 => 'x',
                    _ => 'é',
                };
            }
            (t.into_iter().collect(), None)
        }
        Variant::Cut(a) => {
            let t: Vec<char> = s.text(&[]).chars().collect();
            let n = *a as usize * (t.len() + 1) / 65536;
            (t[..n].iter().collect(), None)
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Parses {
    sheets: Vec<Sheet>,
    texts: Vec<(u8, Variant)>,
    order: Vec<u8>,
    threads: Vec<Vec<u8>>,
    nonce: u64,
}

fn parses() -> BoxedStrategy<Parses> {
    (
        vec(prop_oneof![2 => gen::sheet(Opts { depth: 1, items: 2, ..Opts::default() }), 1 => gen::nesting()], 1..3),
        vec((any::<u8>(), variant()), 2..10),
        vec(any::<u8>(), 2..24),
        vec(vec(any::<u8>(), 1..12), 2..5),
        any::<u64>(),
    )
        .prop_map(|(sheets, texts, order, threads, nonce)| Parses {
            sheets,
            texts,
            order,
            threads,
            nonce,
        })
        .boxed()
}

type Answer = Result<ast::Sheet, String>;

fn ask(t: &str) -> Answer {
    t.parse::<ast::Sheet>().map_err(|e| e.to_string())
}

fn right(text: &str, model: &Option<Sheet>, a: &Answer) -> Result<(), String> {
    match (model, a) {
        (Some(m), Ok(s)) => same(&format!("{text:?}"), &m.events(View::Written), &bridge::written(s)),
        (Some(_), Err(e)) => Err(format!("valid text rejected: {e}: {text:?}")),
        (None, Ok(s)) => {
            // It says what the text says, not what another text said.
            let (a, b) = (css::essence(text), css::essence(&bridge::print(s)));
            if a != b {
                return Err(format!("{text:?} was answered with the sheet {b:?}"));
            }
            Ok(())
        }
        (None, Err(_)) => Ok(()),
    }
}

fn c18_one(p: &Parses, rec: &mut Rec) -> Result<(), String> {
    let texts: Vec<(String, Option<Sheet>)> = p
        .texts
        .iter()
        .map(|(i, v)| realise(&p.sheets[*i as usize % p.sheets.len()], v))
        // A comment makes the text new to the process; the sheet stays the same.
        .flat_map(|(t, m)| [(format!("/*{}*/{t}", p.nonce), m.clone()), (t, m)])
        .collect();
    let mut first: BTreeMap<usize, Answer> = BTreeMap::new();
    // Threads first in half of the cases, so that they race for texts not parsed before.
    let threads = |first: &mut BTreeMap<usize, Answer>| -> Result<(), String> {
        let barrier = Barrier::new(p.threads.len());
        let answers: Vec<Vec<(usize, Answer)>> = std::thread::scope(|s| {
            let hs: Vec<_> = p
                .threads
                .iter()
                .map(|order| {
                    let (barrier, texts) = (&barrier, &texts);
                    s.spawn(move || {
                        barrier.wait();
                        order
                            .iter()
                            .map(|i| {
                                let i = *i as usize % texts.len();
                                (i, ask(&texts[i].0))
                            })
                            .collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().map_err(|_| "a parsing thread panicked".to_string())).collect::<Result<_, _>>()
        })?;
        for (i, a) in answers.into_iter().flatten() {
            right(&texts[i].0, &texts[i].1, &a)?;
            let f = first.entry(i).or_insert_with(|| a.clone());
            if *f != a {
                return Err(format!("threads got two answers for {:?}:\n{f:?}\n{a:?}", texts[i].0));
            }
        }
        Ok(())
    };
    if p.nonce % 2 == 0 {
        threads(&mut first)?;
    }
    for i in &p.order {
        let i = *i as usize % texts.len();
        let (t, m) = &texts[i];
        let a = ask(t);
        rec.class("failing parse", a.is_err());
        right(t, m, &a)?;
        if let Some(f) = first.get(&i) {
            rec.class("parsed again", true);
            rec.nontrivial(first.len() > 1);
            if *f != a {
                return Err(format!("the answer for {t:?} changed from\n{f:?} to\n{a:?}"));
            }
        }
        first.insert(i, a);
    }
    if p.nonce % 2 == 1 {
        threads(&mut first)?;
    }
    // Other ways into the same parser.
    for (i, f) in &first {
        let t = &texts[*i].0;
        let s = StyleSource::try_from(t.as_str());
        match (f, s) {
            (Ok(f), Ok(s)) => {
                let mgr = stylist::manager::StyleManager::new().unwrap();
                let a = stylist::GlobalStyle::new_with_manager(s, &mgr).map_err(|e| e.to_string());
                let b = stylist::GlobalStyle::new_with_manager(f.clone(), &mgr).map_err(|e| e.to_string());
                if a?.id() != b?.id() {
                    return Err(format!("a source of {t:?} is another sheet than its parse"));
                }
            }
            (Err(_), Err(_)) => {}
            (f, s) => return Err(format!("{t:?} parses as {f:?} but as a source gives {s:?}")),
        }
    }
    // The text with and without the leading comment.
    for i in (0..texts.len()).step_by(2) {
        let (a, b) = (ask(&texts[i].0), ask(&texts[i + 1].0));
        if a.as_ref().ok() != b.as_ref().ok() {
            return Err(format!("{:?} was answered otherwise than with a comment before it:\n{b:?}\n{a:?}", texts[i + 1].0));
        }
    }
    Ok(())
}

pub fn c18() {
    let c = Check::new(
        "C18",
        "histories of parses: pools of texts that differ in a letter, its case, white space, a declaration or are cut \
         or broken, parsed in random orders on one thread and on several at once, repeated, and again after thousands \
         of others; every answer is compared with the text's own meaning (model or independent reader) and with every \
         other answer for the same text; non-trivial: some text is parsed again after another one",
    );
    c.sub("histories", (4_000, 120_000), parses, c18_one);
    // Texts that were parsed long ago.
    let rounds = c.pick(3, 40);
    c.sub_n(
        "long",
        (rounds, rounds),
        3.min(rounds),
        || (any::<u64>(), vec(gen::sheet(Opts { depth: 1, items: 2, ..Opts::default() }), 3..6), 1500..4000u32),
        |(nonce, sheets, n), rec| {
            rec.nontrivial(true);
            let text = |i: u32| {
                let s = &sheets[i as usize % sheets.len()];
                match i % 5 {
                    4 => format!(".n{nonce} {{ v{i}: {i}; ", ),
                    3 => format!(".n{nonce} {{ v: {}; }}", i / 5),
                    _ => format!("n{nonce}: {i};\n{}", s.text(&[])),
                }
            };
            let ok = |i: u32, a: &Answer| -> Result<(), String> {
                if i % 5 == 4 {
                    return match a {
                        Ok(s) => Err(format!("{:?} accepted as {s:?}", text(i))),
                        Err(_) => Ok(()),
                    };
                }
                let t = text(i);
                let s = a.as_ref().map_err(|e| format!("{t:?} rejected: {e}"))?;
                same(&format!("parse {i}: {t:?}"), &css::read(&t)?, &bridge::written(s))
            };
            let first: Vec<Answer> = (0..*n).map(|i| ask(&text(i))).collect();
            for (i, a) in first.iter().enumerate() {
                ok(i as u32, a)?;
            }
            for i in 0..*n {
                let i = (i as u64 * 7919 % *n as u64) as u32;
                let a = ask(&text(i));
                ok(i, &a)?;
                if a != first[i as usize] {
                    return Err(format!("the answer for {:?} changed", text(i)));
                }
            }
            Ok(())
        },
    );
    // A failed or panicking neighbour leaves the parser usable.
    c.sub(
        "failures",
        (2_000, 50_000),
        || (vec(vcommon::soup::tokens(), 1..10).prop_map(|v| v.concat()), gen::sheet(small()), any::<u64>()),
        |(bad, s, nonce), rec| {
            let t = format!("n{nonce}: 1;{}", s.text(&[]));
            let before = ask(bad);
            rec.nontrivial(before.is_err());
            let _ = vcommon::run::catch(|| {
                let mgr = stylist::manager::StyleManager::new().unwrap();
                stylist::Style::new_with_manager(bad.as_str(), mgr).is_ok()
            });
            faithful(bad, rec)?;
            let a = ask(&t);
            right(&t, &None, &a)?;
            if a.is_err() {
                return Err(format!("after the failure of {bad:?}, {t:?} is rejected: {a:?}"));
            }
            if ask(bad) != before || ask(&t) != a {
                return Err(format!("the answer for {bad:?} or {t:?} changed"));
            }
            Ok(())
        },
    );
    c.finish()
}
