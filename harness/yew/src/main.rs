//! Checks of the yew integration, by rendering components on the server.

mod media;
mod page;
#[path = "../../shared/tree.rs"]
mod tree;

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C11" => page::c11(),
        "C21" => media::c21(),
        id => {
            eprintln!("unknown check {id:?}");
            std::process::exit(2);
        }
    }
}
