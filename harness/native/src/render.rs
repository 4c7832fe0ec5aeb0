//! C03 to C06: rendering.

use crate::bridge::{self, Builder};
use crate::parse::classify;
use crate::same;
use proptest::collection::vec;
use proptest::prelude::*;
use stylist::ast::{self, ToStyleStr};
use stylist::manager::StyleManager;
use stylist::{GlobalStyle, Style, StyleSource};
use vcommon::css::{self, Ev};
use vcommon::gen::{self, Opts};
use vcommon::model::{Item, Sheet, View};
use vcommon::run::{Check, Rec};

fn small() -> Opts {
    Opts {
        depth: 2,
        items: 4,
        levels: 24,
        ..Opts::default()
    }
}

fn bytes() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![1 => Just(vec![]), 3 => vec(any::<u8>(), 1..16)].boxed()
}

fn read(what: &str, s: &str) -> Result<Vec<Ev>, String> {
    css::read(s).map_err(|e| format!("{what} is not well-formed CSS ({e}):\n{s}"))
}

/// Sheets made of selectors mostly.
fn selectors() -> BoxedStrategy<Sheet> {
    let o = small();
    let block = (vec(gen::selector(o), 1..5), vec(gen::decl(o), 1..2)).prop_map(|(sels, ds)| Item::Block {
        sels,
        body: ds.into_iter().map(vcommon::model::Body::D).collect(),
    });
    vec(
        prop_oneof![
            3 => block.clone(),
            1 => (gen::at_and_cond(o), vec(block, 1..3)).prop_map(|((at, cond), items)| Item::At { at, cond, items }),
            1 => vec(gen::decl(o), 1..2).prop_map(Item::Decls),
        ],
        1..4,
    )
    .prop_map(Sheet)
    .boxed()
}

fn check_scoped(s: &Sheet, rendered: &str, class: &str) -> Result<(), String> {
    same(
        &format!("scoped rendering\n{rendered}"),
        &s.events(View::Rendered(Some(class))),
        &read("scoped rendering", rendered)?,
    )?;
    // In words: every selector of a declaration mentions the class, except in keyframes.
    for e in read("scoped rendering", rendered)? {
        if let Ev::Decl { path, sels, .. } = &e {
            if path.iter().any(|p| p.starts_with("@keyframes")) {
                continue;
            }
            if sels.is_empty() || sels.iter().any(|s| !s.contains(&format!(".{class}"))) {
                return Err(format!("not scoped to .{class}: {e:?}\n{rendered}"));
            }
        }
    }
    Ok(())
}

pub fn c03() {
    let c = Check::new(
        "C03",
        "random sheets (built as trees, with selectors cut into fragments, or parsed from text) rendered for a random \
         class; the CSS is read back by an independent reader and every selector compared with the documented scoping \
         rule applied to the model; non-trivial: a selector with & or :root, or a pseudo or bracketed selector, or a \
         selector list",
    );
    let nontrivial = |s: &Sheet, rec: &mut Rec| {
        let t = s.stats();
        rec.nontrivial(t.anchored + t.pseudo + t.sel_lists + t.bracket_lists > 0);
    };
    c.sub(
        "selectors",
        (60_000, 1_500_000),
        || (selectors(), bytes(), gen::class_name()),
        |(s, b, class), rec| {
            classify(s, rec);
            nontrivial(s, rec);
            check_scoped(s, &Builder::new(b).sheet(s).to_style_str(Some(class)), class)
        },
    );
    c.sub(
        "sheets",
        (30_000, 800_000),
        || (gen::sheet(small()), bytes(), gen::class_name()),
        |(s, b, class), rec| {
            classify(s, rec);
            nontrivial(s, rec);
            check_scoped(s, &Builder::new(b).sheet(s).to_style_str(Some(class)), class)
        },
    );
    c.sub(
        "styles",
        (30_000, 600_000),
        || (selectors(), gen::layout(), gen::ident()),
        |(s, l, prefix), rec| {
            nontrivial(s, rec);
            let mgr = StyleManager::new().unwrap();
            let text = s.text(l);
            let style = Style::create_with_manager(prefix.clone(), text.as_str(), mgr).map_err(|e| e.to_string())?;
            check_scoped(s, style.get_style_str(), style.get_class_name())
        },
    );
    c.finish()
}

pub fn c04() {
    let c = Check::new(
        "C04",
        "random sheets rendered without a class and for a class; the global CSS is read back and compared with the \
         model (& becomes :root, everything else as written), and the declarations of both renderings are compared; \
         non-trivial: an & or :root selector, or top-level declarations together with a block",
    );
    let test = |s: &Sheet, rendered: &str, scoped: Option<&str>| -> Result<(), String> {
        let got = read("global rendering", rendered)?;
        same(
            &format!("global rendering\n{rendered}"),
            &s.events(View::Rendered(None)),
            &got,
        )?;
        if let Some(scoped) = scoped {
            let strip = |v: Vec<Ev>| -> Vec<Ev> {
                v.into_iter()
                    .map(|e| match e {
                        Ev::Decl {
                            path,
                            sels,
                            key,
                            val,
                        } => Ev::Decl {
                            sels: vec![sels.len().to_string()],
                            path,
                            key,
                            val,
                        },
                        e => e,
                    })
                    .collect()
            };
            same(
                "scoped against global declarations",
                &strip(read("scoped rendering", scoped)?),
                &strip(got),
            )?;
        }
        Ok(())
    };
    let nontrivial = |s: &Sheet, rec: &mut Rec| {
        let t = s.stats();
        let dangling = s.0.iter().any(|i| matches!(i, Item::Decls(_)));
        rec.nontrivial(t.anchored > 0 || (dangling && t.blocks > 0));
    };
    c.sub(
        "sheets",
        (40_000, 1_000_000),
        || (gen::sheet(small()), bytes(), gen::class_name()),
        |(s, b, class), rec| {
            classify(s, rec);
            nontrivial(s, rec);
            let a = Builder::new(b).sheet(s);
            test(s, &a.to_style_str(None), Some(&a.to_style_str(Some(class))))
        },
    );
    c.sub(
        "selectors",
        (40_000, 1_000_000),
        || (selectors(), bytes()),
        |(s, b), rec| {
            nontrivial(s, rec);
            test(s, &Builder::new(b).sheet(s).to_style_str(None), None)
        },
    );
    c.sub(
        "styles",
        (30_000, 500_000),
        || (prop_oneof![selectors(), gen::sheet(small())], gen::layout(), gen::ident()),
        |(s, l, prefix), rec| {
            nontrivial(s, rec);
            let mgr = StyleManager::builder().prefix(prefix.clone().into()).build().unwrap();
            let text = s.text(l);
            let g = GlobalStyle::new_with_manager(text.as_str(), &mgr).map_err(|e| e.to_string())?;
            let st = Style::new_with_manager(text.as_str(), &mgr).map_err(|e| e.to_string())?;
            if g.get_style_str().contains(&**g.id()) {
                return Err(format!("the global style contains its id {}: {}", &**g.id(), g.get_style_str()));
            }
            test(s, g.get_style_str(), Some(st.get_style_str()))
        },
    );
    c.finish()
}

fn check_tree(s: &Sheet, a: &ast::Sheet, class: Option<&str>) -> Result<(), String> {
    let r = a.to_style_str(class);
    same(
        &format!("rendering\n{r}"),
        &s.events(View::Rendered(class)),
        &read("rendering", &r)?,
    )?;
    if let Some(p) = css::empty_blocks(&r)
        .into_iter()
        .find(|p| !p.starts_with("@keyframes"))
    {
        return Err(format!("{p:?} is emitted without declarations:\n{r}"));
    }
    Ok(())
}

pub fn c05() {
    let c = Check::new(
        "C05",
        "random sheets with at-rules nested at top level and in blocks, keyframes and empty blocks, built as trees and \
         parsed, rendered with and without a class; the CSS is read back by an independent reader and compared with the \
         model's declarations, order, at-rule paths and selector lists; non-trivial: a nested at-rule, keyframes, an \
         empty block or at least 5 declarations",
    );
    let nontrivial = |s: &Sheet, rec: &mut Rec| {
        let t = s.stats();
        rec.nontrivial(t.nested_ats + t.keyframes + t.empties > 0 || t.decls >= 5);
    };
    c.sub(
        "sheets",
        (50_000, 1_200_000),
        || {
            (
                gen::sheet(Opts::default()),
                bytes(),
                proptest::option::of(gen::class_name()),
            )
        },
        |(s, b, class), rec| {
            classify(s, rec);
            nontrivial(s, rec);
            check_tree(s, &Builder::new(b).sheet(s), class.as_deref())
        },
    );
    // Structure only: short texts, so that equal conditions and selectors meet often.
    c.sub(
        "nesting",
        (60_000, 1_500_000),
        || (gen::nesting(), proptest::option::of(Just("s-1".to_string()))),
        |(s, class), rec| {
            classify(s, rec);
            nontrivial(s, rec);
            check_tree(s, &Builder::new(&[]).sheet(s), class.as_deref())
        },
    );
    c.sub(
        "parsed",
        (30_000, 600_000),
        || (prop_oneof![gen::nesting(), gen::sheet(small())], gen::layout(), proptest::option::of(gen::class_name())),
        |(s, l, class), rec| {
            nontrivial(s, rec);
            let a: ast::Sheet = s.text(l).parse().map_err(|e| format!("{e}"))?;
            check_tree(s, &a, class.as_deref())
        },
    );
    c.finish()
}

pub fn c06() {
    let c = Check::new(
        "C06",
        "random sheets (parsed from text, or built as trees) and random accepted texts, rendered scoped and globally, \
         parsed by the library and rendered again, twice; the declarations of each generation are compared, and the \
         text from the second generation on; non-trivial: at least one declaration in a block or at-rule",
    );
    let fixpoint = |a: &ast::Sheet, class: Option<&str>| -> Result<(), String> {
        let r0 = a.to_style_str(class);
        let p1: ast::Sheet = r0
            .parse()
            .map_err(|e| format!("rendered CSS is rejected: {e}\n{r0}"))?;
        let r1 = p1.to_style_str(None);
        same(
            &format!("second rendering\n{r0}\n---\n{r1}"),
            &read("first rendering", &r0)?,
            &read("second rendering", &r1)?,
        )?;
        same("written", &read("first rendering", &r0)?, &bridge::written(&p1))?;
        let p2: ast::Sheet = r1
            .parse()
            .map_err(|e| format!("rendered CSS is rejected: {e}\n{r1}"))?;
        let r2 = p2.to_style_str(None);
        if r1 != r2 {
            return Err(format!("rendering changes again:\n{r1}\n---\n{r2}"));
        }
        Ok(())
    };
    let nontrivial = |s: &Sheet, rec: &mut Rec| {
        let t = s.stats();
        rec.nontrivial(t.decls > 0 && t.blocks + t.ats > 0);
    };
    c.sub(
        "parsed",
        (40_000, 900_000),
        || (gen::sheet(small()), gen::layout(), proptest::option::of(gen::class_name())),
        |(s, l, class), rec| {
            classify(s, rec);
            nontrivial(s, rec);
            let a: ast::Sheet = s.text(l).parse().map_err(|e| format!("{e}"))?;
            fixpoint(&a, class.as_deref())
        },
    );
    c.sub(
        "trees",
        (40_000, 900_000),
        || (prop_oneof![gen::sheet(small()), gen::nesting()], bytes(), proptest::option::of(gen::class_name())),
        |(s, b, class), rec| {
            nontrivial(s, rec);
            fixpoint(&Builder::new(b).sheet(s), class.as_deref())
        },
    );
    // Whatever the parser accepts, with the styles it makes (debug builds parse them again).
    c.sub(
        "accepted",
        (60_000, 1_500_000),
        || {
            (
                (gen::sheet(small()), gen::layout(), vec(vcommon::soup::edit(), 0..3))
                    .prop_map(|(s, l, e)| vcommon::soup::apply(&s.text(&l), &e)),
                proptest::option::of(gen::class_name()),
            )
        },
        |(t, class), rec| {
            let Ok(a) = t.parse::<ast::Sheet>() else {
                rec.class("rejected", true);
                return Ok(());
            };
            rec.class("accepted", true);
            rec.nontrivial(t.contains('{'));
            let r0 = a.to_style_str(class.as_deref());
            let p1: ast::Sheet = r0
                .parse()
                .map_err(|e| format!("rendered CSS is rejected: {e}\n{r0}"))?;
            let r1 = p1.to_style_str(None);
            // An independent reader may not know this text, but it loses nothing.
            if css::essence(&r0) != css::essence(&r1) {
                return Err(format!("second rendering differs:\n{r0}\n---\n{r1}"));
            }
            let p2: ast::Sheet = r1
                .parse()
                .map_err(|e| format!("rendered CSS is rejected: {e}\n{r1}"))?;
            let r2 = p2.to_style_str(None);
            if r1 != r2 {
                return Err(format!("rendering changes again:\n{r1}\n---\n{r2}"));
            }
            let mgr = StyleManager::new().unwrap();
            Style::new_with_manager(StyleSource::from(a.clone()), &mgr).map_err(|e| e.to_string())?;
            GlobalStyle::new_with_manager(StyleSource::from(a), &mgr).map_err(|e| e.to_string())?;
            Ok(())
        },
    );
    c.finish()
}
