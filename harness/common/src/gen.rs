//! Generators of style sheets (proptest strategies), sound for the supported dialect.

use crate::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    /// At-rule nesting.
    pub depth: u32,
    /// Items per level.
    pub items: usize,
    /// Whether quoted strings may contain `${`.
    pub dollar_brace: bool,
    /// Whether quoted strings may contain `</style` and look-alikes.
    pub hostile_html: bool,
    /// How large some of the sheets get: how many copies, levels or characters. 0: none.
    pub grow: u16,
    /// How deep some of them are. What is transferred as JSON is limited to 128 levels there.
    pub levels: u16,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            depth: 3,
            items: 5,
            dollar_brace: true,
            hostile_html: false,
            grow: 300,
            levels: 9,
        }
    }
}

pub fn ident() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-z][a-z0-9]{0,5}(-[a-z0-9]{1,4}){0,2}",
        1 => "[A-Z][A-Za-z0-9_]{0,4}",
        1 => select(vec!["größe", "名前", "é", "a\u{301}b", "_x", "-x", "--y", "x_1", "日-本"]).prop_map(String::from),
    ]
    .boxed()
}

pub fn prop_name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(vec![
            "color", "background-color", "margin", "content", "font-family", "display", "width",
            "border", "grid-template-areas", "transition", "background", "-webkit-mask", "top",
            "a", "b", "div", "span", "input",
        ]).prop_map(String::from),
        2 => ident(),
        1 => "--[a-z]{1,5}(-[a-z0-9]{1,3})?",
    ]
    .boxed()
}

fn str_char(q: char, o: Opts) -> BoxedStrategy<String> {
    let other = if q == '"' { "'" } else { "\"" };
    let mut pool: Vec<&'static str> = vec![
        "{", "}", ";", ":", ",", "&", "@", "$", "/*", "*/", "//", "(", ")", "[", "]", ":root", ".a",
        "#", "!", " ", "  ", "<", ">", "=", "%", "|", "~", "+", "`", "^", "?",
        " { x: y } ", "};", "; color: red;", "@media", "url(", "& b", "a, b", "\u{2014}", "é", "🦀",
        "\\\\", "\\A ", "\\26", "\\,", "\\{", "\\}", "\\/", "\\\"", "\\'",
    ];
    pool.push(other);
    if o.dollar_brace {
        pool.extend(["${", "${x}", "$${y}"]);
    }
    if o.hostile_html {
        pool.extend([
            "</style>", "</style", "</STYLE >", "</sTyLe\t", "<style>", "<!--", "-->", "<script>", "</",
            "&lt;", "&amp;", "&#60;", "<\\/style>", "</style/>", "]]>", "</styl", "<//style>",
        ]);
    }
    prop_oneof![
        3 => "[a-zA-Z0-9 ]{1,6}",
        3 => select(pool).prop_map(String::from),
        1 => any::<char>().prop_filter_map("quote or control", move |c| {
            if c == '"' || c == '\'' || c == '\\' || c == '$' || c == '\n' || c == '\r' || c == '\u{c}' || c == '\0' {
                None
            } else {
                Some(c.to_string())
            }
        }),
    ]
    .boxed()
}

/// A quoted CSS string.
pub fn string_lit(o: Opts) -> BoxedStrategy<String> {
    prop_oneof![3 => Just('"'), 1 => Just('\'')]
        .prop_flat_map(move |q| {
            vec(str_char(q, o), 0..5).prop_map(move |v| {
                let mut s = v.concat();
                if !o.dollar_brace {
                    s = s.replace("${", "$ {");
                }
                format!("{q}{s}{q}")
            })
        })
        .boxed()
}

fn number() -> BoxedStrategy<String> {
    ("-?(0|[1-9][0-9]{0,3}|0?\\.[0-9]{1,2}|[1-9]\\.[0-9]{1,2})", select(vec!["", "px", "em", "%", "rem", "vh", "deg", "s", "fr"]))
        .prop_map(|(n, u)| format!("{n}{u}"))
        .boxed()
}

fn simple_value(o: Opts) -> BoxedStrategy<String> {
    prop_oneof![
        4 => ident(),
        4 => number(),
        1 => "#[0-9a-f]{3}([0-9a-f]{3})?",
        2 => string_lit(o),
        1 => select(vec!["!important", "U+26", "progid:x", "\\201C", "*", "a.b", "<x>", "@x", "=", "x&y", "~"]).prop_map(String::from),
    ]
    .boxed()
}

pub fn value_token(o: Opts) -> BoxedStrategy<String> {
    prop_oneof![
        8 => simple_value(o),
        1 => (ident(), vec(simple_value(o), 0..3), select(vec![", ", ",", " "]))
            .prop_map(|(n, a, s)| format!("{n}({})", a.join(s))),
        1 => (number(), select(vec![" + ", " - ", " * ", " / "]), number())
            .prop_map(|(a, op, b)| format!("calc({a}{op}({b}))")),
        1 => string_lit(o).prop_map(|s| format!("url({s})")),
        1 => "url\\(https?://[a-z]{1,4}\\.[a-z]{2}/[a-z0-9/._-]{0,6}\\?[a-z]=[0-9]\\)",
        1 => "url\\(data:[a-z]{1,3}/[a-z]{1,3}(;base64)?,[a-z0-9+/=]{0,6}=\\)",
        1 => (ident(), vec(simple_value(o), 1..4)).prop_map(|(n, a)| format!("{n}(({}); x: y)", a.join(";"))),
    ]
    .boxed()
}

pub fn value(o: Opts) -> BoxedStrategy<String> {
    (
        value_token(o),
        vec(
            (
                select(vec![" ", " ", " ", ", ", ",", " / ", "/", "\n        ", "\t"]),
                value_token(o),
            ),
            0..4,
        ),
    )
        .prop_map(|(first, rest)| {
            let mut s = first;
            for (sep, t) in rest {
                // A slash directly before a quote, a slash or a star is a different token.
                if sep == "/" && !t.starts_with(|c: char| c.is_ascii_alphanumeric()) {
                    s.push_str(" / ");
                } else {
                    s.push_str(sep);
                }
                s.push_str(&t);
            }
            s
        })
        .boxed()
}

pub fn decl(o: Opts) -> BoxedStrategy<Decl> {
    (prop_name(), value(o))
        .prop_map(|(key, val)| Decl { key, val })
        .boxed()
}

fn attr(o: Opts) -> BoxedStrategy<String> {
    prop_oneof![
        2 => ident().prop_map(|i| format!("[{i}]")),
        3 => (ident(), select(vec!["=", "~=", "|=", "^=", "$=", "*="]), string_lit(o), select(vec!["", "", " i"]))
            .prop_map(|(i, op, s, f)| format!("[{i}{op}{s}{f}]")),
        1 => (ident(), ident()).prop_map(|(a, b)| format!("[{a}={b}]")),
    ]
    .boxed()
}

fn esc_class() -> BoxedStrategy<String> {
    select(vec![
        ".sm\\:flex", ".w-1\\/2", ".a\\,b", ".x\\&y", ".q\\\"r", ".b\\{c\\}", ".p\\.5", ".s\\;t", ".u\\'v", ".par\\(q\\)",
    ])
    .prop_map(String::from)
    .boxed()
}

/// A compound selector without `&` or `:root` (may begin with a pseudo selector).
fn compound(o: Opts, depth: u32) -> BoxedStrategy<String> {
    let head = prop_oneof![
        4 => ident(),
        1 => Just("*".to_string()),
        4 => Just(String::new()),
    ];
    let part = if depth == 0 {
        prop_oneof![
            4 => ident().prop_map(|i| format!(".{i}")),
            2 => ident().prop_map(|i| format!("#{i}")),
            2 => attr(o),
            1 => esc_class(),
            3 => select(vec![":hover", ":focus", ":first-child", "::before", "::after", ":checked", ":lang(en)", ":nth-child(2n + 1)", ":nth-of-type(-n+3)", "::part(x)"]).prop_map(String::from),
        ]
        .boxed()
    } else {
        prop_oneof![
            8 => compound(o, 0).prop_filter("tagless", |s| !s.starts_with(|c: char| c == '*' || c == '_' || c == '-' || c.is_alphabetic())),
            2 => (select(vec![":not", ":is", ":where", ":has", "::slotted", ":nth-child(2n of"]), vec(complex_text(o, depth - 1), 1..4), select(vec![", ", ",", " ,\n "]))
                .prop_map(|(f, a, s)| if f.contains('(') { format!("{f} {})", a.join(s)) } else { format!("{f}({})", a.join(s)) }),
        ]
        .boxed()
    };
    (head, vec(part, 0..3))
        .prop_map(|(h, p)| {
            let s = format!("{h}{}", p.concat());
            if s.is_empty() {
                ".z".into()
            } else {
                s
            }
        })
        .boxed()
}

/// A complex selector without `&` or `:root`, as text.
fn complex_text(o: Opts, depth: u32) -> BoxedStrategy<String> {
    (
        compound(o, depth),
        vec((select(vec![" ", " > ", " + ", " ~ ", ">", "\n"]), compound(o, 0)), 0..2),
    )
        .prop_map(|(f, r)| {
            let mut s = f;
            for (sep, c) in r {
                s.push_str(sep);
                s.push_str(&c);
            }
            s
        })
        .boxed()
}

fn anchor() -> BoxedStrategy<Piece> {
    prop_oneof![3 => Just(Piece::Amp), 1 => Just(Piece::Root)].boxed()
}

fn tagless(o: Opts) -> BoxedStrategy<String> {
    vec(
        prop_oneof![
            3 => ident().prop_map(|i| format!(".{i}")),
            1 => attr(o),
            2 => select(vec![":hover", ":focus-visible", "::before", ":not(.a, .b)", ":nth-child(2n+1)", "#id"]).prop_map(String::from),
        ],
        0..3,
    )
    .prop_map(|v| v.concat())
    .boxed()
}

pub fn selector(o: Opts) -> BoxedStrategy<Sel> {
    prop_oneof![
        // Neither & nor :root.
        5 => complex_text(o, 1).prop_map(|s| Sel(vec![Piece::T(s)])),
        // Begins with a pseudo selector.
        2 => (select(vec![":hover", "::before", ":focus", ":not(.x)", ":is(h1, h2)", ":nth-child(2n+1)", "::after"]), prop_oneof![
                2 => Just(String::new()), 1 => complex_text(o, 0).prop_map(|s| format!(" {s}"))])
            .prop_map(|(p, r)| Sel(vec![Piece::T(format!("{p}{r}"))])),
        // Anchored.
        4 => (anchor(), tagless(o), prop_oneof![1 => Just(None), 1 => (select(vec![" ", " > ", "+", "~ "]), complex_text(o, 1)).prop_map(Some)])
            .prop_map(|(a, t, r)| {
                let mut v = vec![a];
                let mut tail = t;
                if let Some((s, c)) = r {
                    tail.push_str(s);
                    tail.push_str(&c);
                }
                if !tail.is_empty() { v.push(Piece::T(tail)); }
                Sel(v)
            }),
        // Anchored later, twice, or in brackets.
        2 => (complex_text(o, 0), select(vec![" ", " > ", " + "]), anchor(), tagless(o))
            .prop_map(|(c, s, a, t)| {
                let mut v = vec![Piece::T(format!("{c}{s}")), a];
                if !t.is_empty() { v.push(Piece::T(t)); }
                Sel(v)
            }),
        1 => (anchor(), select(vec![" ", " + ", " ~ ", ".a "]), anchor())
            .prop_map(|(a, s, b)| Sel(vec![a, Piece::T(s.into()), b])),
        1 => (select(vec![":not(", ":is(.p, ", ".q:has(> "]), anchor(), tagless(o), select(vec![")", ", .r)", ") i"]))
            .prop_map(|(p, a, t, e)| Sel(vec![Piece::T(p.into()), a, Piece::T(format!("{t}{e}"))])),
    ]
    .boxed()
}

pub fn condition(at: At, o: Opts) -> BoxedStrategy<String> {
    let _ = o;
    match at {
        At::Media => {
            let q = prop_oneof![
                2 => select(vec!["screen", "print", "only screen", "not all", "all"]).prop_map(String::from),
                3 => (select(vec!["min-width", "max-width", "min-height"]), number()).prop_map(|(k, v)| format!("({k}: {v})")),
                1 => select(vec!["(orientation: landscape)", "(hover)", "(400px <= width <= 700px)", "(min-aspect-ratio: 16/9)"]).prop_map(String::from),
            ];
            vec((q, select(vec![" and ", ", ", " or ", " and not "])), 1..4)
                .prop_map(join)
                .boxed()
        }
        At::Supports => {
            let q = prop_oneof![
                3 => (prop_name(), simple_value(Opts { dollar_brace: false, ..o }))
                    .prop_map(|(k, v)| format!("({k}: {v})")),
                1 => select(vec!["selector(:has(> a))", "selector(a[b$=c])", "selector([href$=\".p df\"] > a)", "not (display: inline-grid)", "font-tech(color-COLRv1)", "((a: b) or (c: d))"]).prop_map(String::from),
            ];
            vec((q, select(vec![" and ", " or "])), 1..3)
                .prop_map(join)
                .boxed()
        }
        At::Container => (
            select(vec!["", "sidebar ", "card "]),
            select(vec!["(min-width: 400px)", "(width > 30em) and (height > 2em)", "style(--x: 1)", "not (width < 1px)"]),
        )
            .prop_map(|(a, b)| format!("{a}{b}"))
            .boxed(),
    }
}

fn join(v: Vec<(String, &'static str)>) -> String {
    let mut s = String::new();
    let n = v.len();
    for (i, (q, sep)) in v.into_iter().enumerate() {
        s.push_str(&q);
        if i + 1 < n {
            s.push_str(sep);
        }
    }
    s
}

pub fn at_kind() -> BoxedStrategy<At> {
    prop_oneof![3 => Just(At::Media), 2 => Just(At::Supports), 1 => Just(At::Container)].boxed()
}

pub fn at_and_cond(o: Opts) -> BoxedStrategy<(At, String)> {
    at_kind()
        .prop_flat_map(move |a| (Just(a), condition(a, o)))
        .boxed()
}

fn frame(o: Opts) -> BoxedStrategy<Frame> {
    (
        vec(
            prop_oneof![2 => select(vec!["from", "to"]).prop_map(String::from), 3 => "(0|[1-9][0-9]?|100|12\\.5)%"],
            1..3,
        ),
        vec(decl(o), 0..3),
    )
        .prop_map(|(sels, decls)| Frame { sels, decls })
        .boxed()
}

pub fn keyframes(o: Opts) -> BoxedStrategy<Item> {
    (ident(), vec(frame(o), 0..4))
        .prop_map(|(name, frames)| Item::Keyframes { name, frames })
        .boxed()
}

pub fn body(o: Opts, depth: u32) -> BoxedStrategy<Vec<Body>> {
    let leaf = decl(o).prop_map(Body::D);
    if depth == 0 {
        vec(leaf, 0..4).boxed()
    } else {
        vec(
            prop_oneof![
                5 => leaf,
                2 => (at_and_cond(o), body(o, depth - 1))
                    .prop_map(|((at, cond), body)| Body::At { at, cond, body }),
            ],
            0..5,
        )
        .boxed()
    }
}

pub fn block(o: Opts, depth: u32) -> BoxedStrategy<Item> {
    (vec(selector(o), 1..4), body(o, depth))
        .prop_map(|(sels, body)| Item::Block { sels, body })
        .boxed()
}

pub fn item(o: Opts, depth: u32) -> BoxedStrategy<Item> {
    let dangling = vec(decl(o), 1..4).prop_map(Item::Decls);
    if depth == 0 {
        prop_oneof![4 => dangling, 5 => block(o, 0), 1 => keyframes(o)].boxed()
    } else {
        prop_oneof![
            4 => dangling,
            5 => block(o, depth.min(2)),
            3 => (at_and_cond(o), vec(item(o, depth - 1), 0..4))
                .prop_map(|((at, cond), items)| Item::At { at, cond, items }),
            1 => keyframes(o),
        ]
        .boxed()
    }
}

pub fn sheet(o: Opts) -> BoxedStrategy<Sheet> {
    let plain = vec(item(o, o.depth), 0..o.items + 1).prop_map(Sheet);
    if o.grow == 0 {
        return plain.boxed();
    }
    let few = Opts {
        depth: o.depth.min(2),
        items: o.items.min(3),
        ..o
    };
    let grown = (vec(item(few, few.depth), 1..few.items + 1), vec(grow(o.grow, o.levels), 1..3)).prop_map(|(items, g)| {
        let mut s = Sheet(items);
        for g in &g {
            g.apply(&mut s);
        }
        s
    });
    prop_oneof![9 => plain, 1 => grown].boxed()
}

/// Makes something of a sheet large.
#[derive(Clone, Debug)]
pub struct Grow {
    what: u8,
    at: u16,
    n: u16,
    levels: u16,
    /// Whether copies differ from what they are copies of.
    distinct: bool,
}

fn grow(max: u16, levels: u16) -> BoxedStrategy<Grow> {
    let n = prop_oneof![4 => 1..12.min(max), 4 => 1..70.min(max), 2 => 1..max];
    (0..12u8, any::<u16>(), n, any::<bool>())
        .prop_map(move |(what, at, n, distinct)| Grow { what, at, n, levels, distinct })
        .boxed()
}

enum Part<'a> {
    Decl(&'a mut Decl),
    Decls(&'a mut Vec<Decl>),
    Body(&'a mut Vec<Body>),
    Items(&'a mut Vec<Item>),
    Sels(&'a mut Vec<Sel>),
    Cond(At, &'a mut String),
    Frames(&'a mut Vec<Frame>),
}

fn parts(items: &mut Vec<Item>, f: &mut dyn FnMut(Part)) {
    fn decls(d: &mut Vec<Decl>, f: &mut dyn FnMut(Part)) {
        d.iter_mut().for_each(|d| f(Part::Decl(d)));
        f(Part::Decls(d));
    }
    fn body(b: &mut Vec<Body>, f: &mut dyn FnMut(Part)) {
        for b in b.iter_mut() {
            match b {
                Body::D(d) => f(Part::Decl(d)),
                Body::At { at, cond, body: b } => {
                    f(Part::Cond(*at, cond));
                    body(b, f);
                }
            }
        }
        f(Part::Body(b));
    }
    for i in items.iter_mut() {
        match i {
            Item::Decls(d) => decls(d, f),
            Item::Block { sels, body: b } => {
                f(Part::Sels(sels));
                body(b, f);
            }
            Item::At { at, cond, items } => {
                f(Part::Cond(*at, cond));
                parts(items, f);
            }
            Item::Keyframes { frames, .. } => {
                frames.iter_mut().for_each(|x| decls(&mut x.decls, f));
                f(Part::Frames(frames));
            }
        }
    }
    f(Part::Items(items));
}

impl Grow {
    /// Whether this is about such a part.
    fn fits(&self, p: &Part) -> bool {
        matches!(
            (self.what, p),
            (0, Part::Decls(_) | Part::Body(_))
                | (1, Part::Items(_))
                | (2, Part::Sels(_))
                | (3, Part::Cond(..))
                | (4 | 5 | 6, Part::Decl(_))
                | (7, Part::Body(_))
                | (8, Part::Items(_))
                | (9, Part::Frames(_))
                | (10, Part::Sels(_))
                | (11, Part::Items(_))
        )
    }

    fn change(&self, p: Part) {
        let n = self.n as usize;
        let levels = n.min(self.levels as usize);
        let differ = |d: &mut Decl, i: usize| {
            if self.distinct {
                if i % 2 == 0 {
                    d.key = format!("{}-{i}", d.key);
                } else {
                    d.val = format!("v{i}");
                }
            }
        };
        match p {
            Part::Decls(v) => {
                let Some(d) = v.last().cloned() else { return };
                v.extend((0..n).map(|i| {
                    let mut d = d.clone();
                    differ(&mut d, i);
                    d
                }));
            }
            Part::Body(v) if self.what == 0 => {
                let Some(b) = v.get(self.at as usize % v.len().max(1)).cloned() else { return };
                v.extend((0..n).map(|i| {
                    let mut b = b.clone();
                    if let Body::D(d) = &mut b {
                        differ(d, i);
                    }
                    b
                }));
            }
            Part::Body(v) => {
                // At-rules in at-rules.
                for i in 0..levels {
                    let cond = format!("(min-width: {}px)", if self.distinct { i } else { 1 });
                    let body = std::mem::take(v);
                    *v = vec![Body::At { at: At::Media, cond, body }];
                }
            }
            Part::Items(v) if self.what == 1 => {
                let k = self.at as usize % v.len().max(1);
                let Some(i) = v.get(k).cloned() else { return };
                for j in 0..n.min(100) {
                    let mut i = i.clone();
                    if let (Item::Decls(v), true) = (&mut i, self.distinct) {
                        v.iter_mut().for_each(|d| differ(d, j));
                    }
                    v.insert(if j % 2 == 0 { k } else { v.len() }, i);
                }
            }
            Part::Items(v) if self.what == 8 => {
                for i in 0..levels {
                    let cond = format!("(min-width: {}px)", if self.distinct { i } else { 1 });
                    let items = std::mem::take(v);
                    *v = vec![Item::At { at: At::Media, cond, items }];
                }
            }
            Part::Items(v) => {
                // Few declarations in many blocks.
                for i in 0..n.min(100) {
                    let sels = vec![Sel(vec![Piece::T(format!(".g{}", if self.distinct { i } else { 0 }))])];
                    let d = Decl { key: "order".into(), val: format!("{}", i % 7) };
                    v.push(Item::Block { sels, body: vec![Body::D(d)] });
                }
            }
            Part::Sels(v) if self.what == 2 => {
                let Some(s) = v.last().cloned() else { return };
                v.extend((0..n.min(120)).map(|i| {
                    if self.distinct {
                        Sel(vec![Piece::T(format!(".s{i}"))])
                    } else {
                        s.clone()
                    }
                }));
            }
            Part::Sels(v) => {
                let n = n.min(24);
                let t = format!("{}.deep{}", ":not(".repeat(n), ")".repeat(n));
                v.push(Sel(vec![Piece::T(if self.distinct { t } else { format!("a{}", " > b".repeat(n)) })]));
            }
            Part::Cond(at, c) => {
                let one = |i: usize| match at {
                    At::Supports => format!("(order: {i})"),
                    _ => format!("(min-width: {i}px)"),
                };
                let more: String = (0..n).map(|i| format!(" and {}", one(if self.distinct { i } else { 1 }))).collect();
                *c = format!("{}{more}", one(0));
            }
            Part::Decl(d) => match self.what {
                4 => {
                    let parts: Vec<String> = (0..n).map(|i| format!("x{}", if self.distinct { i } else { 1 })).collect();
                    d.val = parts.join(if self.at % 2 == 0 { ", " } else { " " });
                }
                5 => {
                    let long = ["a", "é", ";", "}", "{ ", "/*", "b c", "\\\""][self.at as usize % 8].repeat(n * 12);
                    d.val = format!("\"{long}\"");
                }
                _ => {
                    if self.distinct {
                        d.key = format!("--{}", "k-".repeat(n * 4) + "k");
                    } else {
                        let n = n.min(24);
                        d.val = format!("calc{}1px{}", "(".repeat(n), ")".repeat(n));
                    }
                }
            },
            Part::Frames(v) => {
                v.extend((0..n).map(|i| Frame {
                    sels: vec![format!("{}%", if self.distinct { i % 101 } else { 50 })],
                    decls: vec![Decl { key: "top".into(), val: format!("{i}px") }],
                }));
            }
        }
    }

    pub fn apply(&self, s: &mut Sheet) {
        let mut count = 0usize;
        parts(&mut s.0, &mut |p| count += usize::from(self.fits(&p)));
        if count == 0 {
            return;
        }
        let want = self.at as usize / 8 % count;
        let mut i = 0;
        parts(&mut s.0, &mut |p| {
            if self.fits(&p) {
                if i == want {
                    self.change(p);
                }
                i += 1;
            }
        });
    }
}

pub fn layout() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![1 => Just(vec![]), 4 => vec(any::<u8>(), 1..24)].boxed()
}

pub fn class_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z]{1,6}-[a-zA-Z0-9]{8}",
        1 => ident(),
        1 => Just("stylist-abcdefgh".to_string()),
    ]
    .boxed()
}

/// Deeply nested sheets over very few texts.
pub fn nesting() -> BoxedStrategy<Sheet> {
    fn d() -> BoxedStrategy<Decl> {
        (select(vec!["a", "b"]), select(vec!["1", "2", "3"]))
            .prop_map(|(k, v)| Decl {
                key: k.into(),
                val: v.into(),
            })
            .boxed()
    }
    fn at() -> BoxedStrategy<(At, String)> {
        (
            select(vec![At::Media, At::Supports, At::Container]),
            select(vec!["(x: 1)", "(y: 2)"]),
        )
            .prop_map(|(a, c)| (a, c.to_string()))
            .boxed()
    }
    fn body(n: u32) -> BoxedStrategy<Vec<Body>> {
        let leaf = d().prop_map(Body::D);
        if n == 0 {
            return vec(leaf, 0..3).boxed();
        }
        vec(
            prop_oneof![2 => leaf, 3 => (at(), body(n - 1)).prop_map(|((at, cond), body)| Body::At { at, cond, body })],
            0..4,
        )
        .boxed()
    }
    fn sel() -> BoxedStrategy<Sel> {
        prop_oneof![
            Just(Sel(vec![Piece::T(".p".into())])),
            Just(Sel(vec![Piece::T(":hover".into())])),
            Just(Sel(vec![Piece::Amp])),
        ]
        .boxed()
    }
    fn item(n: u32) -> BoxedStrategy<Item> {
        let dangling = vec(d(), 1..3).prop_map(Item::Decls);
        let block = (vec(sel(), 1..3), body(n.min(3))).prop_map(|(sels, body)| Item::Block { sels, body });
        let kf = (
            select(vec!["k", "l"]),
            vec(
                (vec(select(vec!["from", "to", "50%"]), 1..3), vec(d(), 0..3)).prop_map(|(s, decls)| Frame {
                    sels: s.into_iter().map(String::from).collect(),
                    decls,
                }),
                0..3,
            ),
        )
            .prop_map(|(n, frames)| Item::Keyframes {
                name: n.into(),
                frames,
            });
        if n == 0 {
            return prop_oneof![2 => dangling, 2 => block, 1 => kf].boxed();
        }
        prop_oneof![
            2 => dangling,
            3 => block,
            1 => kf,
            4 => (at(), vec(item(n - 1), 0..4)).prop_map(|((at, cond), items)| Item::At { at, cond, items }),
        ]
        .boxed()
    }
    vec(item(4), 0..5).prop_map(Sheet).boxed()
}

/// The sheet with one text or item changed.
pub fn edit_one(s: &Sheet, at: u16, how: u8) -> Sheet {
    let mut js = serde_json::to_value(s).unwrap();
    fn strings(v: &mut serde_json::Value, f: &mut dyn FnMut(&str, &mut String)) {
        match v {
            serde_json::Value::Object(m) => {
                for (k, v) in m.iter_mut() {
                    match v {
                        serde_json::Value::String(s) => {
                            let ok = match k.as_str() {
                                "key" | "val" | "name" | "cond" => true,
                                "T" => s.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '.' | '-')),
                                _ => false,
                            };
                            if ok {
                                f(k, s);
                            }
                        }
                        v => strings(v, f),
                    }
                }
            }
            serde_json::Value::Array(a) => a.iter_mut().for_each(|v| strings(v, f)),
            _ => {}
        }
    }
    let mut n = 0usize;
    strings(&mut js, &mut |_, _| n += 1);
    if n == 0 || how % 4 == 3 {
        // Another item.
        let mut t = s.clone();
        if t.0.is_empty() || how % 8 == 3 {
            t.0.push(Item::Decls(vec![Decl {
                key: "x".into(),
                val: "y".into(),
            }]));
        } else {
            t.0.remove(at as usize % s.0.len());
        }
        return t;
    }
    let target = at as usize % n;
    let mut i = 0usize;
    strings(&mut js, &mut |k, s| {
        if i == target {
            match k {
                "val" => *s = if s == "q" { "r".into() } else { "q".into() },
                "cond" => *s = if s == "(q: 1)" { "(r: 1)".into() } else { "(q: 1)".into() },
                _ => s.push('q'),
            }
        }
        i += 1;
    });
    serde_json::from_value(js).unwrap()
}
