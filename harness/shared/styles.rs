//! Both kinds of styles, and how they are asked for.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stylist::manager::StyleManager;
use stylist::{ast, GlobalStyle, Style, StyleSource};
use vcommon::css;
use vcommon::model::{Sheet, View};

#[derive(Clone, Debug)]
pub enum Any {
    S(Style),
    G(GlobalStyle),
}

impl Any {
    pub fn id(&self) -> String {
        match self {
            Any::S(s) => s.id().to_string(),
            Any::G(s) => s.id().to_string(),
        }
    }
    pub fn text(&self) -> &str {
        match self {
            Any::S(s) => s.get_style_str(),
            Any::G(s) => s.get_style_str(),
        }
    }
    pub fn unregister(&self) {
        match self {
            Any::S(s) => s.unregister(),
            Any::G(s) => s.unregister(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    /// With the manager's prefix.
    Scoped,
    /// With the prefix of this number.
    Prefixed(u8),
    Global,
}

pub fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![3 => Just(Kind::Scoped), 2 => any::<u8>().prop_map(Kind::Prefixed), 2 => Just(Kind::Global)].boxed()
}

/// What tells styles of a manager apart: sheet, prefix, kind.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Key {
    pub sheet: usize,
    pub prefix: String,
    pub global: bool,
}

pub fn key(sheet: usize, kind: &Kind, own: &str, prefixes: &[String]) -> Key {
    Key {
        sheet,
        prefix: match kind {
            Kind::Prefixed(p) => prefixes[*p as usize % prefixes.len()].clone(),
            _ => own.to_string(),
        },
        global: *kind == Kind::Global,
    }
}

pub fn create(
    sheet: ast::Sheet,
    kind: &Kind,
    prefixes: &[String],
    mgr: &StyleManager,
    owned: bool,
) -> stylist::Result<Any> {
    Ok(match kind {
        Kind::Global if owned => Any::G(GlobalStyle::new_with_manager(sheet, mgr.clone())?),
        Kind::Global => Any::G(GlobalStyle::new_with_manager(StyleSource::from(sheet), mgr)?),
        Kind::Scoped if owned => Any::S(Style::new_with_manager(sheet, mgr.clone())?),
        Kind::Scoped => Any::S(Style::new_with_manager(StyleSource::from(sheet), mgr)?),
        Kind::Prefixed(p) => {
            let p = &prefixes[*p as usize % prefixes.len()];
            if owned {
                Any::S(Style::create_with_manager(p.clone(), sheet, mgr)?)
            } else {
                let p: &'static str = Box::leak(p.clone().into_boxed_str());
                Any::S(Style::create_with_manager(p, sheet, mgr)?)
            }
        }
    })
}

/// The id has the form promised for the key, the text is the sheet's for that id.
pub fn well_made(s: &Any, key: &Key, sheet: &Sheet) -> Result<(), String> {
    let id = s.id();
    let head = if key.global {
        format!("{}-global-", key.prefix)
    } else {
        format!("{}-", key.prefix)
    };
    if id.len() <= head.len() || !id.starts_with(&head) {
        return Err(format!("id {id:?} is not {head:?} and a suffix"));
    }
    let class = (!key.global).then_some(id.as_str());
    let got = css::read(s.text()).map_err(|e| format!("{e}:\n{}", s.text()))?;
    match css::diff(&sheet.events(View::Rendered(class)), &got) {
        None => Ok(()),
        Some(d) => Err(format!("text of style {id}: {d}")),
    }
}
