//! A reader of the HTML that servers emit, following the HTML tokeniser where it matters here.

fn ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\u{c}' | '\r')
}

/// End of raw text: the position of the end tag `</name` and the position after its `>`.
fn end_of_raw(s: &str, name: &str) -> Option<(usize, usize)> {
    let lower = s.to_ascii_lowercase();
    let pat = format!("</{name}");
    let mut from = 0;
    while let Some(i) = lower[from..].find(&pat) {
        let i = from + i;
        let after = i + pat.len();
        match s[after..].chars().next() {
            Some(c) if ws(c) || c == '/' || c == '>' => {
                let close = s[after..].find('>')?;
                return Some((i, after + close + 1));
            }
            _ => from = after,
        }
    }
    None
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Text(String),
    Comment(String),
    Element {
        name: String,
        attrs: Vec<(String, String)>,
        children: Vec<Node>,
    },
}

impl Node {
    pub fn attr(&self, n: &str) -> Option<&str> {
        match self {
            Node::Element { attrs, .. } => attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str()),
            _ => None,
        }
    }
}

fn unescape(s: &str) -> String {
    s.replace("&lt;", "<")
        .replace("&gt;", ">")
        .replace("&quot;", "\"")
        .replace("&#39;", "'")
        .replace("&#x27;", "'")
        .replace("&#x2F;", "/")
        .replace("&#47;", "/")
        .replace("&amp;", "&")
}

/// Parses a fragment in which every element is closed (or void).
pub fn parse(s: &str) -> Result<Vec<Node>, String> {
    let mut pos = 0;
    let nodes = nodes(s, &mut pos, None)?;
    if pos != s.len() {
        return Err(format!("stray end tag at {:?}", &s[pos..]));
    }
    Ok(nodes)
}

fn nodes(s: &str, pos: &mut usize, inside: Option<&str>) -> Result<Vec<Node>, String> {
    let mut out = vec![];
    loop {
        let rest = &s[*pos..];
        if rest.is_empty() {
            return match inside {
                None => Ok(out),
                Some(n) => Err(format!("<{n}> is not closed")),
            };
        }
        if rest.starts_with("<!--") {
            let e = rest.find("-->").ok_or("unclosed comment")?;
            out.push(Node::Comment(rest[4..e].to_string()));
            *pos += e + 3;
        } else if rest.starts_with("</") {
            return Ok(out);
        } else if rest.starts_with('<') && rest[1..].starts_with(|c: char| c.is_ascii_alphabetic()) {
            out.push(element(s, pos)?);
        } else {
            let e = rest[1..].find('<').map_or(rest.len(), |i| i + 1);
            out.push(Node::Text(unescape(&rest[..e])));
            *pos += e;
        }
    }
}

fn element(s: &str, pos: &mut usize) -> Result<Node, String> {
    let rest = &s[*pos + 1..];
    let n = rest
        .find(|c: char| ws(c) || c == '>' || c == '/')
        .ok_or("unclosed tag")?;
    let name = rest[..n].to_ascii_lowercase();
    let mut p = *pos + 1 + n;
    let mut attrs = vec![];
    loop {
        let r = &s[p..];
        let t = r.trim_start_matches(ws);
        p += r.len() - t.len();
        if t.starts_with("/>") {
            p += 2;
            break;
        }
        if t.starts_with('/') {
            p += 1;
            continue;
        }
        if t.starts_with('>') {
            p += 1;
            break;
        }
        let e = t
            .find(|c: char| ws(c) || c == '>' || c == '=' || c == '/')
            .ok_or("unclosed tag")?;
        let key = t[..e].to_ascii_lowercase();
        p += e;
        let mut val = String::new();
        if let Some(v) = s[p..].strip_prefix('=') {
            p += 1;
            let q = v.chars().next().ok_or("unclosed tag")?;
            if q == '"' || q == '\'' {
                let e = v[1..].find(q).ok_or("unclosed attribute")?;
                val = unescape(&v[1..1 + e]);
                p += e + 2;
            } else {
                let e = v.find(|c: char| ws(c) || c == '>').ok_or("unclosed tag")?;
                val = unescape(&v[..e]);
                p += e;
            }
        }
        if attrs.iter().any(|(k, _)| *k == key) {
            return Err(format!("attribute {key} twice"));
        }
        attrs.push((key, val));
    }
    let mut children = vec![];
    if matches!(name.as_str(), "style" | "script" | "textarea" | "title") {
        let (e, after) = end_of_raw(&s[p..], &name).ok_or_else(|| format!("<{name}> does not end"))?;
        if e > 0 {
            children.push(Node::Text(s[p..p + e].to_string()));
        }
        p += after;
    } else if !matches!(name.as_str(), "br" | "hr" | "img" | "input" | "meta" | "link") {
        children = nodes(s, &mut p, Some(&name))?;
        let r = &s[p..];
        let close = format!("</{name}");
        if !r.to_ascii_lowercase().starts_with(&close) {
            return Err(format!("<{name}> closed by {:?}", r.chars().take(12).collect::<String>()));
        }
        p += r.find('>').ok_or("unclosed tag")? + 1;
    }
    *pos = p;
    Ok(Node::Element {
        name,
        attrs,
        children,
    })
}

/// The `data-style` and the text of each `<style>` element; nothing else may be there.
pub fn style_elements(markup: &str) -> Result<Vec<(String, String)>, String> {
    parse(markup)?
        .into_iter()
        .filter(|n| !matches!(n, Node::Text(t) if t.chars().all(ws)))
        .map(|n| match &n {
            Node::Element {
                name, children, ..
            } if name == "style" => {
                let id = n.attr("data-style").ok_or("style element without data-style")?;
                let text = match children.first() {
                    Some(Node::Text(t)) => t.clone(),
                    _ => String::new(),
                };
                Ok((id.to_string(), text))
            }
            n => Err(format!("unexpected {n:?}")),
        })
        .collect()
}
