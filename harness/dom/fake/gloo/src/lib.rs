//! A stand-in for `gloo`: what yew uses of it.

pub mod utils {
    pub fn window() -> web_sys::Window {
        web_sys::window().expect("Can't find the global Window")
    }

    pub fn document() -> web_sys::Document {
        window().document().expect("Can't find document")
    }

    pub fn body() -> web_sys::HtmlElement {
        document().body().expect("Can't find document body")
    }

    pub fn head() -> web_sys::HtmlHeadElement {
        document().head().expect("Can't find the head element")
    }
}

pub mod console {
    pub fn report(what: std::fmt::Arguments<'_>) {
        web_sys::fake::report(format!("{what}"));
    }

    #[macro_export]
    #[doc(hidden)]
    macro_rules! __error {
        ($($arg:expr),* $(,)?) => {{
            let mut s = String::new();
            $(s.push_str(&format!("{:?} ", $arg));)*
            $crate::console::report(format_args!("{s}"));
        }};
    }

    pub use crate::__error as error;
    pub use crate::__error as log;
    pub use crate::__error as warn;
}
