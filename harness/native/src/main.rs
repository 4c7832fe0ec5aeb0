//! Checks that run against the library on the host.

#[path = "../../shared/alloc.rs"]
mod alloc;
#[path = "../../shared/bridge.rs"]
mod bridge;
#[path = "../../shared/registry.rs"]
mod history;
#[path = "../../shared/ids.rs"]
mod ids;
mod parse;
mod registry;
mod render;
mod sources;
mod ssr;
#[path = "../../shared/styles.rs"]
mod styles;
mod values;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C01" => parse::c01(),
        "C02" => parse::c02(),
        "C03" => render::c03(),
        "C04" => render::c04(),
        "C05" => render::c05(),
        "C06" => render::c06(),
        "C07" => registry::c07(),
        "C08" => registry::c08(),
        "C09" => ssr::c09(),
        "C10" => ssr::c10(),
        "C17" => values::c17(),
        "C18" => values::c18(),
        "C19" => sources::c19(),
        "C20" => sources::c20(),
        "C23" => registry::c23(),
        _ => {
            eprintln!("unknown check {id:?}");
            std::process::exit(2);
        }
    }
}

pub fn same(what: &str, want: &[vcommon::css::Ev], got: &[vcommon::css::Ev]) -> Result<(), String> {
    match vcommon::css::diff(want, got) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {d}")),
    }
}
