//! Texts that are almost, or not at all, style sheets.

use crate::gen::{self, Opts};
use proptest::prelude::*;
use proptest::sample::select;

pub fn tokens() -> BoxedStrategy<String> {
    prop_oneof![
        10 => select(vec![
            "{", "}", "{", "}", ";", ";", ":", ":", ",", "&", "@", "$", "/", "*", "/*", "*/", "//", "(", ")", "[", "]",
            "\"", "'", "\\", "\n", " ", "  ", "\t", "\r\n", "\u{c}", "\u{a0}", "\u{feff}", "\0", "${", "${x}", "$${",
            "${ a }", "${1}", "${a_b2}", "$=", "!", "#", ".", "<", ">", "~", "+", "|", "=", "%", "-", "_", "?", "^", "`",
        ]).prop_map(String::from),
        8 => select(vec![
            "@media ", "@media", "@supports ", "@container ", "@keyframes ", "@import ", "@font-face ", "@Media ",
            "@media\n", "@media(", "@keyframes x{", "@media screen{", "from", "to", "0%", "!important",
        ]).prop_map(String::from),
        10 => select(vec![
            "color: red;", "color: red", "color:", ":red;", "a:hover{", "a{b:c}", "a{b:c;}", "a{b:c;;}", ".x,", ".x, .y {", "&:hover {",
            ":not(.a, .b)", "[a=\"b\"]", "[a$='b']", "\"};\"", "'a\"b'", "\"a'b\"", "\"\\\"\"", "url(http://a.b/c?d=e)",
            "url(\"a;b\")", "/* c */", "/**/", "/* } */", "/*/", "--x: 1;", "-a: b;", "calc(1px + (2px*3))", "\\{", "\\\"", "\\,",
        ]).prop_map(String::from),
        4 => gen::ident(),
        2 => "[ -~]{1,8}",
        1 => any::<char>().prop_map(String::from),
        1 => gen::string_lit(Opts::default()),
    ]
    .boxed()
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Edit {
    Delete(u16, u8),
    Insert(u16, String),
    Duplicate(u16, u8),
    Truncate(u16),
    Swap(u16, u16),
}

pub fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        3 => (any::<u16>(), 1..6u8).prop_map(|(a, n)| Edit::Delete(a, n)),
        4 => (any::<u16>(), tokens()).prop_map(|(a, t)| Edit::Insert(a, t)),
        1 => (any::<u16>(), 1..20u8).prop_map(|(a, n)| Edit::Duplicate(a, n)),
        1 => any::<u16>().prop_map(Edit::Truncate),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Edit::Swap(a, b)),
    ]
    .boxed()
}

pub fn apply(text: &str, edits: &[Edit]) -> String {
    let mut t: Vec<char> = text.chars().collect();
    for e in edits {
        let n = t.len();
        let at = |a: u16| a as usize * (n + 1) / 65536;
        match e {
            Edit::Delete(a, k) => {
                let i = at(*a);
                t.drain(i..(i + *k as usize).min(n));
            }
            Edit::Insert(a, s) => {
                let i = at(*a);
                t.splice(i..i, s.chars());
            }
            Edit::Duplicate(a, k) => {
                let i = at(*a);
                let part: Vec<char> = t[i..(i + *k as usize).min(n)].to_vec();
                t.splice(i..i, part);
            }
            Edit::Truncate(a) => t.truncate(at(*a)),
            Edit::Swap(a, b) => {
                let (i, j) = (at(*a), at(*b));
                if i < n && j < n {
                    t.swap(i, j);
                }
            }
        }
    }
    t.into_iter().collect()
}

