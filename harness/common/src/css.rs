//! An independent reader of CSS text: splits a style sheet into rules and declarations following
//! CSS tokenisation (strings, comments, escapes, brackets). It shares no code with the library and
//! is used to judge what a rendered style says.

use std::fmt;

/// One thing a style sheet says, in cascade order.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Ev {
    /// A declaration: enclosing at-rules (outermost first), selector list of its block (empty for
    /// a declaration outside of any block), name and value.
    Decl {
        path: Vec<String>,
        sels: Vec<String>,
        key: String,
        val: String,
    },
    /// A `@keyframes` rule, whether or not it is empty. Its frames follow as `Decl`s.
    Keyframes { path: Vec<String> },
}

impl fmt::Debug for Ev {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Ev::Decl {
                path,
                sels,
                key,
                val,
            } => write!(
                f,
                "{} | {} | {} : {}",
                path.join(" >> "),
                if sels.is_empty() {
                    "(none)".to_string()
                } else {
                    sels.join("  ,  ")
                },
                key,
                val
            ),
            Ev::Keyframes { path } => write!(f, "{} (keyframes)", path.join(" >> ")),
        }
    }
}

pub const WS: &[char] = &[' ', '\t', '\r', '\n', '\u{c}'];

/// Length in bytes of a quoted string at the start of `s` (which starts with a quote), or None
/// when it does not end.
fn string_len(s: &str) -> Option<usize> {
    let mut it = s.char_indices();
    let (_, q) = it.next()?;
    while let Some((i, c)) = it.next() {
        if c == '\\' {
            it.next()?;
        } else if c == q {
            return Some(i + c.len_utf8());
        }
    }
    None
}

/// Comments stripped and white space outside strings collapsed to single spaces, trimmed.
pub fn norm(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    let mut space = false;
    let push = |out: &mut String, t: &str, space: &mut bool| {
        if *space && !out.is_empty() {
            out.push(' ');
        }
        *space = false;
        out.push_str(t);
    };
    while let Some(c) = rest.chars().next() {
        if rest.starts_with("/*") {
            let n = rest[2..].find("*/").map_or(rest.len(), |i| i + 4);
            rest = &rest[n..];
            space = true;
        } else if WS.contains(&c) {
            space = true;
            rest = &rest[c.len_utf8()..];
        } else if c == '"' || c == '\'' {
            let n = string_len(rest).unwrap_or(rest.len());
            push(&mut out, &rest[..n], &mut space);
            rest = &rest[n..];
        } else if c == '\\' {
            let n = 1 + rest[1..].chars().next().map_or(0, char::len_utf8);
            push(&mut out, &rest[..n], &mut space);
            rest = &rest[n..];
        } else {
            let n = c.len_utf8();
            push(&mut out, &rest[..n], &mut space);
            rest = &rest[n..];
        }
    }
    out
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum Stop {
    Open,
    Close,
    Semi,
    End,
}

struct Reader<'a> {
    rest: &'a str,
}

type R<T> = Result<T, String>;

impl<'a> Reader<'a> {
    fn skip_ws(&mut self) -> R<()> {
        loop {
            self.rest = self.rest.trim_start_matches(WS);
            if self.rest.starts_with("/*") {
                let n = self.rest[2..]
                    .find("*/")
                    .ok_or_else(|| "unterminated comment".to_string())?;
                self.rest = &self.rest[n + 4..];
            } else {
                return Ok(());
            }
        }
    }

    /// Text up to the next `{`, `}` or `;` that is not in a string, comment or bracket, and which
    /// of them it was (consumed).
    fn prelude(&mut self) -> R<(&'a str, Stop)> {
        let start = self.rest;
        let mut pos = 0;
        let mut stack: Vec<char> = Vec::new();
        loop {
            let r = &start[pos..];
            let Some(c) = r.chars().next() else {
                self.rest = "";
                if !stack.is_empty() {
                    return Err(format!("unclosed bracket in {start:?}"));
                }
                return Ok((start, Stop::End));
            };
            if r.starts_with("/*") {
                let n = r[2..]
                    .find("*/")
                    .ok_or_else(|| "unterminated comment".to_string())?;
                pos += n + 4;
                continue;
            }
            match c {
                '"' | '\'' => {
                    pos += string_len(r).ok_or_else(|| "unterminated string".to_string())?;
                    continue;
                }
                '\\' => {
                    let n = r[1..]
                        .chars()
                        .next()
                        .ok_or_else(|| "escape at end".to_string())?
                        .len_utf8();
                    pos += 1 + n;
                    continue;
                }
                '(' => stack.push(')'),
                '[' => stack.push(']'),
                ')' | ']' => {
                    if stack.pop() != Some(c) {
                        return Err(format!("unmatched {c:?} in {start:?}"));
                    }
                }
                '{' | '}' if !stack.is_empty() => {
                    return Err(format!("{c:?} in brackets in {start:?}"));
                }
                ';' if stack.is_empty() => {
                    self.rest = &start[pos + 1..];
                    return Ok((&start[..pos], Stop::Semi));
                }
                '{' => {
                    self.rest = &start[pos + 1..];
                    return Ok((&start[..pos], Stop::Open));
                }
                '}' => {
                    self.rest = &start[pos + 1..];
                    return Ok((&start[..pos], Stop::Close));
                }
                _ => {}
            }
            pos += c.len_utf8();
        }
    }

    fn body(
        &mut self,
        path: &[String],
        sels: &[String],
        keyframes: bool,
        top: bool,
        depth: usize,
        out: &mut Vec<Ev>,
    ) -> R<()> {
        if depth > 200 {
            return Err("too deep".into());
        }
        loop {
            self.skip_ws()?;
            let (text, stop) = self.prelude()?;
            let t = norm(text);
            match stop {
                Stop::Open => {
                    if t.is_empty() {
                        return Err("block without a selector".into());
                    }
                    if t.starts_with('@') {
                        let mut p = path.to_vec();
                        let kf = t.starts_with("@keyframes");
                        p.push(t);
                        if kf {
                            out.push(Ev::Keyframes { path: p.clone() });
                        }
                        self.body(&p, if kf { &[] } else { sels }, kf, false, depth + 1, out)?;
                    } else {
                        if !sels.is_empty() {
                            return Err(format!("nested block {t:?}"));
                        }
                        let s = split_list(&t);
                        if s.iter().any(|m| m.is_empty()) {
                            return Err(format!("empty selector in {t:?}"));
                        }
                        self.body(path, &s, keyframes, false, depth + 1, out)?;
                    }
                }
                Stop::Semi | Stop::Close | Stop::End => {
                    if stop == Stop::Close && top {
                        return Err("unmatched '}'".into());
                    }
                    if t.is_empty() {
                        if stop == Stop::Semi {
                            return Err("stray ';'".into());
                        }
                    } else {
                        if stop == Stop::End {
                            return Err(format!("unterminated {t:?}"));
                        }
                        let (k, v) = t
                            .split_once(':')
                            .ok_or_else(|| format!("not a declaration: {t:?}"))?;
                        let (k, v) = (k.trim(), v.trim());
                        if !is_name(k) {
                            return Err(format!("not a property name: {k:?}"));
                        }
                        if v.is_empty() {
                            return Err(format!("no value for {k:?}"));
                        }
                        out.push(Ev::Decl {
                            path: path.to_vec(),
                            sels: sels.to_vec(),
                            key: k.to_string(),
                            val: v.to_string(),
                        });
                    }
                    match stop {
                        Stop::Close => return Ok(()),
                        Stop::End if !top => return Err("missing '}'".into()),
                        Stop::End => return Ok(()),
                        _ => {}
                    }
                }
            }
        }
    }
}

pub fn is_name(s: &str) -> bool {
    let mut it = s.chars();
    let ok = |c: char| c == '-' || c == '_' || c.is_ascii_alphanumeric() || !c.is_ascii();
    match it.next() {
        Some(c) if ok(c) && !c.is_ascii_digit() => it.all(ok),
        _ => false,
    }
}

/// Splits (normalised) text at commas outside strings and brackets; items are trimmed.
pub fn split_list(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut depth = 0usize;
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        let n = match c {
            '"' | '\'' => string_len(rest).unwrap_or(rest.len()),
            '\\' => 1 + rest[1..].chars().next().map_or(0, char::len_utf8),
            _ => c.len_utf8(),
        };
        match c {
            '(' | '[' => depth += 1,
            ')' | ']' => depth = depth.saturating_sub(1),
            _ => {}
        }
        if c == ',' && depth == 0 {
            out.push(cur.trim().to_string());
            cur.clear();
        } else {
            cur.push_str(&rest[..n]);
        }
        rest = &rest[n..];
    }
    out.push(cur.trim().to_string());
    out
}

/// What a style sheet says, or why it is not well-formed.
pub fn read(css: &str) -> R<Vec<Ev>> {
    let mut out = vec![];
    let mut r = Reader { rest: css };
    r.body(&[], &[], false, true, 0, &mut out)?;
    Ok(out)
}

/// The preludes of blocks that hold nothing but white space and comments.
pub fn empty_blocks(css: &str) -> Vec<String> {
    let t = norm(css);
    let mut out = vec![];
    let mut rest = t.as_str();
    let mut start = rest;
    while let Some(c) = rest.chars().next() {
        let n = match c {
            '"' | '\'' => string_len(rest).unwrap_or(rest.len()),
            '\\' => 1 + rest[1..].chars().next().map_or(0, char::len_utf8),
            _ => c.len_utf8(),
        };
        let after = &rest[n..];
        match c {
            '{' => {
                if after.trim_start().starts_with('}') {
                    out.push(start[..start.len() - rest.len()].trim().to_string());
                }
                start = after;
            }
            '}' | ';' => start = after,
            _ => {}
        }
        rest = after;
    }
    out
}

/// Resolves escapes of punctuation (`\\/` is `/`), which HTML-safe CSS may add.
pub fn unescape(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' && it.peek().is_some_and(|d| matches!(d, '/' | '!' | '-' | '<' | '>')) {
            continue;
        }
        out.push(c);
        if c == '\\' {
            out.extend(it.next());
        }
    }
    out
}

impl Ev {
    pub fn unescaped(&self) -> Ev {
        let l = |v: &[String]| v.iter().map(|s| unescape(s)).collect();
        match self {
            Ev::Decl {
                path,
                sels,
                key,
                val,
            } => Ev::Decl {
                path: l(path),
                sels: l(sels),
                key: unescape(key),
                val: unescape(val),
            },
            Ev::Keyframes { path } => Ev::Keyframes { path: l(path) },
        }
    }
}

/// Whether braces and brackets match and no string or comment is left open, by CSS tokenisation.
pub fn balanced(css: &str) -> bool {
    let mut depth = 0i64;
    let mut rest = css;
    while let Some(c) = rest.chars().next() {
        let n = if rest.starts_with("/*") {
            match rest[2..].find("*/") {
                Some(i) => i + 4,
                None => return false,
            }
        } else {
            match c {
                '"' | '\'' => match string_len(rest) {
                    Some(n) => n,
                    None => return false,
                },
                '\\' => 1 + rest[1..].chars().next().map_or(0, char::len_utf8),
                '{' => {
                    depth += 1;
                    1
                }
                '}' => {
                    depth -= 1;
                    if depth < 0 {
                        return false;
                    }
                    1
                }
                _ => c.len_utf8(),
            }
        };
        rest = &rest[n..];
    }
    depth == 0
}

/// The characters of a text that carry meaning: no comments, no white space outside strings, no
/// `;` or `,` outside strings.
pub fn essence(css: &str) -> String {
    let mut out = String::with_capacity(css.len());
    let mut rest = css;
    while let Some(c) = rest.chars().next() {
        if rest.starts_with("/*") {
            let n = rest[2..].find("*/").map_or(rest.len(), |i| i + 4);
            rest = &rest[n..];
            continue;
        }
        let n = match c {
            '"' | '\'' => string_len(rest).unwrap_or(rest.len()),
            '\\' => 1 + rest[1..].chars().next().map_or(0, char::len_utf8),
            _ => c.len_utf8(),
        };
        if !c.is_whitespace() && c != ';' && c != ',' {
            out.push_str(&rest[..n]);
        }
        rest = &rest[n..];
    }
    out
}

/// First difference between two event lists, for messages.
pub fn diff(want: &[Ev], got: &[Ev]) -> Option<String> {
    if want == got {
        return None;
    }
    let i = want
        .iter()
        .zip(got.iter())
        .take_while(|(a, b)| a == b)
        .count();
    Some(format!(
        "differs at item {i} (of {} expected, {} found):\n  expected: {:?}\n  found:    {:?}",
        want.len(),
        got.len(),
        want.get(i),
        got.get(i)
    ))
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn reads() {
        let e = read("a:b; .x, :not(.a, .b) { c: \"};\"; } @media p { d:e; @keyframes k { from, to { x: y } } }").unwrap();
        for m in &e {
            println!("{m:?}");
        }
        assert_eq!(e.len(), 5);
        assert!(read("a{b:c").is_err());
        assert!(read("a{b:c}}").is_err());
    }
}
