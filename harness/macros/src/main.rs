//! Checks of the macros, by compiling and running generated invocations.
mod batch;
mod faults;
mod hygiene;
mod inline;
mod literal;
mod slots;

use std::time::Duration;
use vcommon::run::Check;

fn rustc(c: &Check) -> batch::Rustc {
    batch::Rustc::new(&c.root).unwrap_or_else(|e| {
        eprintln!("error: {e}");
        std::process::exit(3)
    })
}

const BUDGET: Duration = Duration::from_secs(150);

fn c12() -> ! {
    let c = Check::new(
        "C12",
        "random style sheets with parts of their values, strings, selectors and conditions replaced by \
         placeholders, compiled as literal macros; non-trivial: has an argument or an escaped ${",
    );
    let r = rustc(&c);
    c.sub_batch(
        "literal",
        (8000, 80000),
        800,
        BUDGET,
        literal::strategy(),
        literal::classify,
        |v| literal::test(&r, v),
    );
    drop(r);
    c.finish()
}

fn c13() -> ! {
    let c = Check::new(
        "C13",
        "random token sequences of the inline syntax, written with random white space and comments, \
         compiled; non-trivial: has a declaration and a block or at-rule",
    );
    let r = rustc(&c);
    c.sub_batch(
        "inline",
        (8000, 80000),
        800,
        BUDGET,
        inline::strategy(),
        inline::classify,
        |v| inline::test(&r, v),
    );
    drop(r);
    c.finish()
}

fn c14() -> ! {
    let c = Check::new(
        "C14",
        "literal and inline invocations whose interpolations are expressions of many types and forms, in \
         functions, methods, closures, loops and macros of a scope full of the macros' own names, \
         evaluated with one to three sets of arbitrary texts; non-trivial: has an interpolation",
    );
    let r = rustc(&c);
    c.sub_batch(
        "hygiene",
        (6000, 60000),
        600,
        BUDGET,
        hygiene::strategy(),
        hygiene::classify,
        |v| hygiene::test(&r, v),
    );
    drop(r);
    c.finish()
}

fn c15() -> ! {
    let c = Check::new(
        "C15",
        "pairs of an invocation and the same with one injected fault, literal and inline, and random texts as \
         literals, all compiled; non-trivial: the second one has a fault",
    );
    let r = rustc(&c);
    c.sub_batch(
        "literal",
        (4000, 40000),
        500,
        BUDGET,
        faults::literal_strategy(),
        faults::literal_classify,
        |v| faults::literal_test(&r, v),
    );
    c.sub_batch(
        "soup",
        (4000, 40000),
        1000,
        BUDGET,
        faults::soup_strategy(),
        faults::soup_classify,
        |v| faults::soup_test(&r, v),
    );
    c.sub_batch(
        "inline",
        (6000, 60000),
        500,
        BUDGET,
        faults::inline_strategy(),
        faults::inline_classify,
        |v| faults::inline_test(&r, v),
    );
    drop(r);
    c.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C12") => c12(),
        Some("C13") => c13(),
        Some("C14") => c14(),
        Some("C15") => c15(),
        a => {
            eprintln!("unknown check {a:?}");
            std::process::exit(3)
        }
    }
}
