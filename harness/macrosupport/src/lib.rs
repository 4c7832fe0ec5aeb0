//! What the generated programs need at run time.
use std::hash::{Hash, Hasher};
use stylist::ast::{Sheet, ToStyleStr};
use stylist::{GlobalStyle, Style, StyleSource};

fn hash(s: &Sheet) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// What a macro returned, as something to print.
pub trait Emit {
    fn emit(&self) -> serde_json::Value;
}

impl Emit for Sheet {
    fn emit(&self) -> serde_json::Value {
        let js = serde_json::to_string(self).unwrap();
        let bin = bincode::serialize(self).unwrap();
        let a: Sheet = serde_json::from_str(&js).unwrap();
        let b: Sheet = bincode::deserialize(&bin).unwrap();
        let c = self.clone();
        let text = self.to_style_str(Some("c"));
        let same = [&a, &b, &c].iter().all(|x| {
            **x == *self
                && *self == **x
                && hash(x) == hash(self)
                && x.to_style_str(Some("c")) == text
                && serde_json::to_string(x).unwrap() == js
        });
        serde_json::json!({
            "scoped": text,
            "global": self.to_style_str(None),
            "value": same,
        })
    }
}

impl Emit for Style {
    fn emit(&self) -> serde_json::Value {
        serde_json::json!({
            "scoped": self.get_style_str().replace(self.get_class_name(), "c"),
        })
    }
}

impl Emit for GlobalStyle {
    fn emit(&self) -> serde_json::Value {
        serde_json::json!({ "global": self.get_style_str() })
    }
}

impl Emit for StyleSource {
    fn emit(&self) -> serde_json::Value {
        Style::new(self.clone()).unwrap().emit()
    }
}

impl<T: Emit, E: std::fmt::Debug> Emit for Result<T, E> {
    fn emit(&self) -> serde_json::Value {
        self.as_ref().unwrap().emit()
    }
}

/// A type of its own that is shown as its text.
pub struct Shown<'a>(pub &'a str);

impl std::fmt::Display for Shown<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // In pieces, as composed values are.
        for c in self.0.chars() {
            write!(f, "{c}")?;
        }
        Ok(())
    }
}

thread_local! {
    static CURRENT: std::cell::RefCell<Vec<&'static str>> = const { std::cell::RefCell::new(vec![]) };
    static TURNS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) };
}

/// Sets what `current` returns.
pub fn set(v: &[&'static str]) {
    CURRENT.with(|c| *c.borrow_mut() = v.to_vec());
    TURNS.with(|c| *c.borrow_mut() = vec![0; v.len()]);
}

/// `v` and how often this was called for `k` since the last `set`.
pub fn turn(k: usize, v: &str) -> String {
    TURNS.with(|c| {
        let mut c = c.borrow_mut();
        c[k] += 1;
        format!("{v}n{}", c[k])
    })
}

/// A text that does not depend on any variable of the caller.
pub fn current(k: usize) -> &'static str {
    CURRENT.with(|c| c.borrow()[k])
}

pub fn emit(id: usize, f: fn() -> Vec<Box<dyn Emit>>) {
    let r = std::panic::catch_unwind(move || f().iter().map(|s| s.emit()).collect::<Vec<_>>());
    match r {
        Ok(out) => println!("{}", serde_json::json!({"id": id, "outputs": out})),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            println!("{}", serde_json::json!({"id": id, "panic": m}));
        }
    }
}
