//! Checks of what happens in the browser, against an in-memory document.

mod client;
mod media;
mod mount;
#[path = "../../shared/tree.rs"]
mod tree;

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C16" => mount::c16(),
        "C22" => media::c22(),
        "C24" => client::c24(),
        "C23" => mount::c23(),
        id => {
            eprintln!("unknown check {id:?}");
            std::process::exit(2);
        }
    }
}
