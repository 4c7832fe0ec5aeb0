//! Selectors: lists of compounds of a type, classes, an id and attributes. Anything else counts as
//! invalid here.

use crate::Element;

#[derive(Debug, Default)]
pub struct Compound {
    tag: Option<String>,
    tests: Vec<Test>,
}

#[derive(Debug)]
enum Test {
    Has(String),
    Is(String, String),
    Starts(String, String),
    Ends(String, String),
    Contains(String, String),
    Word(String, String),
}

impl Compound {
    pub fn matches(&self, e: &Element) -> bool {
        self.tag.as_ref().is_none_or(|t| e.local_name().eq_ignore_ascii_case(t))
            && self.tests.iter().all(|t| {
                let get = |k: &String| e.get_attribute(k);
                match t {
                    Test::Has(k) => get(k).is_some(),
                    Test::Is(k, v) => get(k).as_ref() == Some(v),
                    Test::Starts(k, v) => !v.is_empty() && get(k).is_some_and(|a| a.starts_with(v.as_str())),
                    Test::Ends(k, v) => !v.is_empty() && get(k).is_some_and(|a| a.ends_with(v.as_str())),
                    Test::Contains(k, v) => !v.is_empty() && get(k).is_some_and(|a| a.contains(v.as_str())),
                    Test::Word(k, v) => get(k).is_some_and(|a| a.split_ascii_whitespace().any(|w| w == v)),
                }
            })
    }
}

struct Cursor<'a> {
    rest: &'a str,
}

impl Cursor<'_> {
    fn peek(&self) -> Option<char> {
        self.rest.chars().next()
    }

    fn next(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.rest = &self.rest[c.len_utf8()..];
        Some(c)
    }

    fn eat(&mut self, s: &str) -> bool {
        match self.rest.strip_prefix(s) {
            Some(r) => {
                self.rest = r;
                true
            }
            None => false,
        }
    }

    fn space(&mut self) {
        self.rest = self.rest.trim_start_matches([' ', '\t', '\n', '\r', '\x0c']);
    }

    /// After a backslash.
    fn escape(&mut self) -> Option<char> {
        let c = self.next()?;
        if c == '\n' {
            return None;
        }
        if !c.is_ascii_hexdigit() {
            return Some(c);
        }
        let mut v = c.to_digit(16)?;
        for _ in 0..5 {
            match self.peek().and_then(|c| c.to_digit(16)) {
                Some(d) => {
                    v = v * 16 + d;
                    self.next();
                }
                None => break,
            }
        }
        if self.peek().is_some_and(|c| c.is_ascii_whitespace()) {
            self.next();
        }
        Some(char::from_u32(v).filter(|c| *c != '\0').unwrap_or('\u{fffd}'))
    }

    fn ident(&mut self) -> Option<String> {
        let mut s = String::new();
        let mut first = true;
        while let Some(c) = self.peek() {
            if c == '\\' {
                self.next();
                s.push(self.escape()?);
            } else if c.is_ascii_alphabetic() || c == '_' || c == '-' || !c.is_ascii() || (c.is_ascii_digit() && !first && s != "-") {
                self.next();
                s.push(c);
            } else {
                break;
            }
            first = false;
        }
        (!s.is_empty() && s != "-").then_some(s)
    }

    fn string(&mut self) -> Option<String> {
        let q = self.next()?;
        let mut s = String::new();
        loop {
            match self.next()? {
                c if c == q => return Some(s),
                '\\' => {
                    if !self.eat("\n") {
                        s.push(self.escape()?);
                    }
                }
                '\n' => return None,
                c => s.push(c),
            }
        }
    }

    fn compound(&mut self) -> Option<Compound> {
        let mut c = Compound::default();
        let start = self.rest.len();
        if self.eat("*") {
        } else if self.peek().is_some_and(|c| !".#[,".contains(c)) {
            c.tag = Some(self.ident()?);
        }
        loop {
            if self.eat(".") {
                c.tests.push(Test::Word("class".into(), self.ident()?));
            } else if self.eat("#") {
                c.tests.push(Test::Is("id".into(), self.ident()?));
            } else if self.eat("[") {
                self.space();
                let k = self.ident()?;
                self.space();
                if self.eat("]") {
                    c.tests.push(Test::Has(k));
                    continue;
                }
                let make: fn(String, String) -> Test = if self.eat("=") {
                    Test::Is
                } else if self.eat("^=") {
                    Test::Starts
                } else if self.eat("$=") {
                    Test::Ends
                } else if self.eat("*=") {
                    Test::Contains
                } else if self.eat("~=") {
                    Test::Word
                } else {
                    return None;
                };
                self.space();
                let v = match self.peek()? {
                    '"' | '\'' => self.string()?,
                    _ => self.ident()?,
                };
                self.space();
                if !self.eat("]") {
                    return None;
                }
                c.tests.push(make(k, v));
            } else {
                break;
            }
        }
        (self.rest.len() != start).then_some(c)
    }
}

pub fn parse(s: &str) -> Option<Vec<Compound>> {
    let mut c = Cursor { rest: s };
    let mut all = Vec::new();
    loop {
        c.space();
        all.push(c.compound()?);
        c.space();
        if c.rest.is_empty() {
            return Some(all);
        }
        if !c.eat(",") {
            return None;
        }
    }
}
