//! C07, C08, C23.

use crate::{history, ids};
use proptest::collection::vec;
use proptest::prelude::*;
use vcommon::run::Check;

pub fn c07() {
    let c = Check::new(
        "C07",
        "random histories of creating, cloning, dropping and unregistering styles in several managers (and the \
         default one), over sheets of which many differ in one place; ids and texts are compared with a model of the \
         registry after each step; non-trivial: some style is asked for again",
    );
    c.sub("histories", (30_000, 600_000), history::history, history::run);
    c.finish()
}

pub fn c08() {
    let mut c = Check::new(
        "C08",
        "random styles, prefixes, kinds and managers, in one or several threads; every id must be new in the process, \
         have the promised form and be a CSS identifier when its prefix is one; non-trivial: at least two styles in one \
         case",
    );
    c.assume("ids of 8 random characters: the chance that two of a run's ids collide is below 1e-5");
    ids::subs(&c, ("ids", "threads", ("race", None)));
    c.finish()
}

pub fn c23() {
    let c = Check::new(
        "C23",
        "random histories of managers (built, cloned, dropped) and styles; managers must be equal exactly when cloned \
         from each other, keep their prefixes and registrations, and handles must stay readable when their manager is \
         gone; non-trivial: a manager is dropped or a style asked for again",
    );
    c.sub(
        "histories",
        (15_000, 300_000),
        || {
            (
                history::history(),
                vec(
                    prop_oneof![
                        any::<u8>().prop_map(history::Op::NewManager),
                        any::<u8>().prop_map(history::Op::CloneManager),
                        any::<u8>().prop_map(history::Op::DropManager),
                        any::<u8>().prop_map(history::Op::Unregister),
                        history::op(),
                    ],
                    1..20,
                ),
            )
                .prop_map(|(mut h, more)| {
                    h.ops.truncate(if h.sheets.len() > 30 { 60 } else { 15 });
                    h.ops.extend(more);
                    h
                })
        },
        history::run,
    );
    c.finish()
}
