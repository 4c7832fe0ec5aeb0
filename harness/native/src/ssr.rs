//! C09, C10: server-side capture and hydration.

use crate::bridge::Builder;
use crate::history::{self, Op};
use crate::styles::{create, key, kind, well_made, Any, Key, Kind};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use stylist::manager::{render_static, StaticReader, StyleData, StyleManager};
use vcommon::css;
use vcommon::gen::{self, Opts};
use vcommon::html;
use vcommon::model::Sheet;
use vcommon::run::{catch, Check, Rec};

fn hostile_sheets() -> BoxedStrategy<Vec<Sheet>> {
    let o = Opts {
        depth: 2,
        items: 3,
        hostile_html: true,
        ..Opts::default()
    };
    prop_oneof![2 => vec(gen::sheet(o), 1..4), 1 => history::sheets()].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Capture {
    prefixes: Vec<String>,
    sheets: Vec<Sheet>,
    ops: Vec<Op>,
    read_at: Option<u8>,
    thread: bool,
}

fn captures() -> BoxedStrategy<Capture> {
    (
        vec(gen::ident(), 1..3),
        hostile_sheets(),
        history::many(history::op(), 1..30, 300),
        proptest::option::weighted(0.3, any::<u8>()),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(prefixes, sheets, ops, read_at, thread)| Capture {
            prefixes,
            sheets,
            ops,
            read_at,
            thread,
        })
        .boxed()
}

/// The captured styles: id and text.
type Captured = Vec<(String, String)>;

fn compare(data: &StyleData, want: &Captured) -> Result<(), String> {
    let mut m = String::new();
    data.write_static_markup(&mut m)
        .map_err(|_| "writing the markup failed".to_string())?;
    let got = html::style_elements(&m).map_err(|e| format!("markup: {e}\n{m}"))?;
    let ids: Vec<_> = got.iter().map(|(i, _)| i.as_str()).collect();
    let want_ids: Vec<_> = want.iter().map(|(i, _)| i.as_str()).collect();
    if ids != want_ids {
        return Err(format!("captured {ids:?} instead of {want_ids:?}\n{m}"));
    }
    for ((id, text), (_, css_text)) in got.iter().zip(want) {
        let read = |t: &str| -> Result<Vec<css::Ev>, String> {
            Ok(css::read(t)
                .map_err(|e| format!("{id}: {e}\n{t}"))?
                .iter()
                .map(|e| e.unescaped())
                .collect())
        };
        if let Some(d) = css::diff(&read(css_text)?, &read(text)?) {
            return Err(format!("the element of {id} holds other CSS: {d}\n{m}"));
        }
    }
    Ok(())
}

struct Server {
    mgr: Vec<StyleManager>,
    prefix: String,
    reader: Option<StaticReader>,
    want: Captured,
    registered: Vec<(Key, usize, String)>,
}

fn server(prefix: &str) -> Server {
    let (w, r) = render_static();
    Server {
        mgr: vec![StyleManager::builder()
            .prefix(prefix.to_string().into())
            .writer(w)
            .build()
            .unwrap()],
        prefix: prefix.to_string(),
        reader: Some(r),
        want: vec![],
        registered: vec![],
    }
}

#[allow(clippy::type_complexity)]
fn capture(c: &Capture, rec: &mut Rec) -> Result<Vec<(Option<StaticReader>, Captured)>, String> {
    let canon = |n: usize| c.sheets.iter().position(|s| *s == c.sheets[n]).unwrap();
    let mut servers = vec![server(&c.prefixes[0])];
    let mut handles: Vec<(Any, usize)> = vec![];
    let mut early: Vec<(StyleData, Captured)> = vec![];
    let read_at = c.read_at.map(|r| r as usize % c.ops.len());
    let mut serial = 0;
    for (n, op) in c.ops.iter().enumerate() {
        if read_at == Some(n) {
            let s = &mut servers[0];
            if let Some(r) = s.reader.take() {
                early.push((r.read_style_data(), s.want.clone()));
                rec.class("read early", true);
            }
        }
        match op {
            Op::NewManager(p) if servers.len() < 4 => {
                servers.push(server(&c.prefixes[*p as usize % c.prefixes.len()]))
            }
            Op::CloneManager(i) => {
                let n = servers.len();
                let s = &mut servers[*i as usize % n];
                if let Some(m) = s.mgr.first().cloned() {
                    s.mgr.push(m);
                }
            }
            Op::DropManager(i) => {
                let n = servers.len();
                servers[*i as usize % n].mgr.pop();
                rec.class("manager dropped", true);
            }
            Op::Create {
                mgr,
                sheet,
                kind,
                parts,
                keep,
            } => {
                let i = *mgr as usize % servers.len();
                let s = &mut servers[i];
                let Some(m) = s.mgr.last() else { continue };
                let n = canon(*sheet as usize % c.sheets.len());
                let k = key(n, kind, &s.prefix, &c.prefixes);
                let mut b = Builder::new(parts);
                b.split = false;
                let st = create(b.sheet(&c.sheets[n]), kind, &c.prefixes, m, parts.len() % 2 == 0)
                    .map_err(|e| e.to_string())?;
                match s.registered.iter().find(|(x, ..)| *x == k) {
                    Some((_, _, id)) => {
                        rec.class("created again", true);
                        rec.nontrivial(true);
                        if st.id() != *id {
                            return Err(format!("created again as {} instead of {id}", st.id()));
                        }
                    }
                    None => {
                        well_made(&st, &k, &c.sheets[n])?;
                        s.want.push((st.id(), st.text().to_string()));
                        serial += 1;
                        s.registered.push((k, serial, st.id()));
                        if st.text().contains("</") || st.text().contains("<!") {
                            rec.class("markup in CSS", true);
                            rec.nontrivial(true);
                        }
                    }
                }
                if *keep {
                    handles.push((st, i));
                }
            }
            Op::CloneHandle(i) if !handles.is_empty() => {
                let h = handles[*i as usize % handles.len()].clone();
                handles.push(h);
            }
            Op::DropHandle(i) if !handles.is_empty() => {
                let n = handles.len();
                handles.swap_remove(*i as usize % n);
            }
            Op::Unregister(i) if !handles.is_empty() => {
                let (h, s) = &handles[*i as usize % handles.len()];
                h.unregister();
                if !servers[*s].mgr.is_empty() {
                    let id = h.id();
                    servers[*s].registered.retain(|(_, _, x)| *x != id);
                    rec.class("unregistered", true);
                }
            }
            _ => {}
        }
    }
    for (d, want) in &early {
        compare(d, want)?;
    }
    rec.class("several managers", servers.len() > 1);
    Ok(servers.into_iter().map(|s| (s.reader, s.want)).collect())
}

pub fn c09() {
    let c = Check::new(
        "C09",
        "random histories of creating, re-creating, unregistering and dropping styles in managers with static writers, \
         over sheets whose strings hold pieces of HTML; the emitted markup is read by an independent HTML reader and \
         compared with the styles registered, in order; non-trivial: a style is asked for again or holds markup",
    );
    c.sub("captures", (30_000, 600_000), captures, |c, rec| {
        let all = if c.thread {
            rec.class("rendered in another thread", true);
            std::thread::scope(|s| {
                s.spawn(|| catch(|| capture(c, rec)).unwrap_or_else(|p| Err(format!("panic: {p}"))))
                    .join()
                    .unwrap()
            })?
        } else {
            capture(c, rec)?
        };
        for (r, want) in all {
            if let Some(r) = r {
                compare(&r.read_style_data(), &want)?;
            }
        }
        Ok(())
    });
    c.finish()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Format {
    Json,
    JsonValue,
    Bincode,
    Cbor,
}

fn transfer(d: &StyleData, f: Format) -> Result<StyleData, String> {
    fn e(e: impl std::fmt::Display) -> String {
        format!("style data does not survive serialisation: {e}")
    }
    match f {
        Format::Json => serde_json::from_str(&serde_json::to_string(d).map_err(e)?).map_err(e),
        Format::JsonValue => serde_json::from_value(serde_json::to_value(d).map_err(e)?).map_err(e),
        Format::Bincode => bincode::deserialize(&bincode::serialize(d).map_err(e)?).map_err(e),
        Format::Cbor => {
            let mut v = vec![];
            ciborium::into_writer(d, &mut v).map_err(e)?;
            ciborium::from_reader(v.as_slice()).map_err(e)
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hydration {
    prefixes: Vec<String>,
    sheets: Vec<Sheet>,
    server: Vec<(u8, Kind)>,
    format: Format,
    /// Styles the client makes before it loads the data.
    before: Vec<(u8, Kind)>,
    after: Vec<(u8, Kind, bool)>,
    loads: u8,
    same_manager_prefix: bool,
    parts: Vec<u8>,
    /// The client also captures.
    client_writer: bool,
}

fn hydrations() -> BoxedStrategy<Hydration> {
    (
        (vec(gen::ident(), 1..3), hostile_sheets(), history::many((any::<u8>(), kind()), 0..8, 300)),
        prop_oneof![Just(Format::Json), Just(Format::JsonValue), Just(Format::Bincode), Just(Format::Cbor)],
        prop_oneof![4 => Just(vec![]), 1 => vec((any::<u8>(), kind()), 1..3)],
        history::many((any::<u8>(), kind(), any::<bool>()), 0..10, 300),
        1..3u8,
        prop::bool::weighted(0.9),
        vec(any::<u8>(), 0..6),
        prop::bool::weighted(0.1),
    )
        .prop_map(
            |((prefixes, sheets, server), format, before, after, loads, same_manager_prefix, parts, client_writer)| Hydration {
                prefixes,
                sheets,
                server,
                format,
                before,
                after,
                loads,
                same_manager_prefix,
                parts,
                client_writer,
            },
        )
        .boxed()
}

fn hydrate(h: &Hydration, rec: &mut Rec) -> Result<(), String> {
    let canon = |n: u8| {
        let s = &h.sheets[n as usize % h.sheets.len()];
        h.sheets.iter().position(|t| t == s).unwrap()
    };
    let own = h.prefixes[0].clone();
    let client_own = if h.same_manager_prefix {
        own.clone()
    } else {
        "other-prefix".to_string()
    };
    let build = |n: usize, borrowed: bool| {
        let bytes: &[u8] = if borrowed { &h.parts } else { &[] };
        let mut b = Builder::new(bytes);
        b.split = false;
        b.sheet(&h.sheets[n])
    };

    // The server.
    let (w, r) = render_static();
    let mut captured: Vec<(Key, String, String)> = vec![];
    {
        let mgr = StyleManager::builder()
            .prefix(own.clone().into())
            .writer(w)
            .build()
            .unwrap();
        for (n, k) in &h.server {
            let n = canon(*n);
            let st = create(build(n, true), k, &h.prefixes, &mgr, true).map_err(|e| e.to_string())?;
            let key = key(n, k, &own, &h.prefixes);
            if !captured.iter().any(|(x, ..)| *x == key) {
                rec.class("global captured", key.global);
                captured.push((key, st.id(), st.text().to_string()));
            }
        }
    }
    let data = r.read_style_data();
    let data = if h.parts.len() % 2 == 0 {
        transfer(&data, h.format)?
    } else {
        // In the client's thread.
        std::thread::scope(|s| s.spawn(|| transfer(&data, h.format)).join().unwrap())?
    };

    // The client.
    let (cw, cr) = render_static();
    let mut b = StyleManager::builder().prefix(client_own.clone().into());
    if h.client_writer {
        b = b.writer(cw);
    }
    let mgr = b.build().unwrap();
    let mut known: Vec<(Key, String, Option<String>)> = vec![];
    let mut ids: HashSet<String> = captured.iter().map(|(_, i, _)| i.clone()).collect();
    let make = |n: u8, k: &Kind, borrowed: bool, known: &mut Vec<(Key, String, Option<String>)>, ids: &mut HashSet<String>| -> Result<(Any, bool), String> {
        let n = canon(n);
        let st = create(build(n, borrowed), k, &h.prefixes, &mgr, true).map_err(|e| e.to_string())?;
        let key = key(n, k, &client_own, &h.prefixes);
        match known.iter().find(|(x, ..)| *x == key) {
            Some((_, id, text)) => {
                if st.id() != *id || text.as_ref().is_some_and(|t| t != st.text()) {
                    return Err(format!(
                        "created as {} with\n{}\ninstead of {id} with\n{text:?}",
                        st.id(),
                        st.text()
                    ));
                }
                Ok((st, true))
            }
            None => {
                if !ids.insert(st.id()) {
                    return Err(format!("{key:?} got the id {} of another style", st.id()));
                }
                well_made(&st, &key, &h.sheets[n])?;
                known.push((key, st.id(), Some(st.text().to_string())));
                Ok((st, false))
            }
        }
    };
    for (n, k) in &h.before {
        make(*n, k, false, &mut known, &mut ids)?;
    }
    let conflict = captured
        .iter()
        .any(|(k, id, _)| known.iter().any(|(x, i, _)| x == k && i != id));
    let loaded = catch(|| {
        for _ in 0..h.loads {
            mgr.load_style_data(&data);
        }
    });
    rec.class("conflict", conflict);
    rec.class("loaded twice", h.loads > 1);
    match (conflict, &loaded) {
        (true, Ok(())) => return Err("loading data with other ids for registered styles was not refused".into()),
        (false, Err(p)) => return Err(format!("loading panicked: {p}")),
        (true, Err(_)) => {
            // What was registered before stays.
            for (k, id, _) in known.clone() {
                let n = h.sheets.iter().position(|s| *s == h.sheets[k.sheet]).unwrap();
                let kind = if k.global {
                    Kind::Global
                } else if k.prefix == client_own {
                    Kind::Scoped
                } else {
                    Kind::Prefixed(h.prefixes.iter().position(|p| *p == k.prefix).unwrap() as u8)
                };
                let (st, _) = make(n as u8, &kind, false, &mut known, &mut ids)?;
                if st.id() != id {
                    return Err("a style changed its id after the refusal".into());
                }
            }
            return Ok(());
        }
        _ => {}
    }
    for (k, id, text) in &captured {
        if !known.iter().any(|(x, ..)| x == k) {
            known.push((k.clone(), id.clone(), Some(text.clone())));
        }
    }
    // Each captured style, then others.
    let all: Vec<(u8, Kind, bool)> = h
        .server
        .iter()
        .filter(|_| h.same_manager_prefix)
        .map(|(n, k)| (*n, k.clone(), false))
        .chain(h.after.iter().cloned())
        .collect();
    let mut held = vec![];
    for (n, k, borrowed) in all {
        let (st, hit) = make(n, &k, borrowed, &mut known, &mut ids)?;
        if hit {
            rec.nontrivial(true);
            rec.class("created from hydrated", true);
        }
        if borrowed {
            held.push(st);
        }
    }
    // Unregistering a hydrated style works as for any other.
    if let Some(st) = held.pop() {
        let id = st.id();
        st.unregister();
        known.retain(|(_, i, _)| *i != id);
        ids.insert(id);
        let (n, k, _) = h.after.iter().rev().find(|(_, _, b)| *b).unwrap();
        make(*n, k, false, &mut known, &mut ids)?;
    }
    // A load after all that changes nothing but what is missing.
    drop(cr);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    Load(u8, u8),
    Create(u8, u8, Kind, Vec<u8>),
    Drop(u8),
    Unregister(u8),
    Clone(u8),
}

/// Pages of several servers, clients that load some of them at some time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    prefixes: Vec<String>,
    sheets: Vec<Sheet>,
    servers: Vec<(u8, Vec<(u8, Kind)>, Format)>,
    clients: Vec<u8>,
    acts: Vec<Act>,
}

fn sessions() -> BoxedStrategy<Session> {
    let act = prop_oneof![
        3 => (any::<u8>(), any::<u8>()).prop_map(|(c, s)| Act::Load(c, s)),
        8 => (any::<u8>(), any::<u8>(), kind(), vec(any::<u8>(), 0..3)).prop_map(|(c, n, k, p)| Act::Create(c, n, k, p)),
        2 => any::<u8>().prop_map(Act::Drop),
        1 => any::<u8>().prop_map(Act::Unregister),
        1 => any::<u8>().prop_map(Act::Clone),
    ];
    let format = prop_oneof![Just(Format::Json), Just(Format::JsonValue), Just(Format::Bincode), Just(Format::Cbor)];
    (
        vec(gen::ident(), 1..3),
        hostile_sheets(),
        vec((any::<u8>(), history::many((any::<u8>(), kind()), 0..6, 200), format), 1..4),
        vec(any::<u8>(), 1..3),
        history::many(act, 1..24, 200),
    )
        .prop_map(|(prefixes, sheets, servers, clients, acts)| Session {
            prefixes,
            sheets,
            servers,
            clients,
            acts,
        })
        .boxed()
}

struct Client {
    mgr: StyleManager,
    prefix: String,
    registered: Vec<(Key, String, String)>,
    /// What came from a server and was unregistered, or might have come.
    gone: HashSet<Key>,
}

fn session(h: &Session, rec: &mut Rec) -> Result<(), String> {
    let canon = |n: u8| {
        let s = &h.sheets[n as usize % h.sheets.len()];
        h.sheets.iter().position(|t| t == s).unwrap()
    };
    let prefix = |n: u8| h.prefixes[n as usize % h.prefixes.len()].clone();
    let mut ids = HashSet::new();
    let mut pages: Vec<(StyleData, Vec<(Key, String, String)>)> = vec![];
    for (p, styles, format) in &h.servers {
        let own = prefix(*p);
        let (w, r) = render_static();
        let mgr = StyleManager::builder().prefix(own.clone().into()).writer(w).build().unwrap();
        let mut have: Vec<(Key, String, String)> = vec![];
        for (n, k) in styles {
            let n = canon(*n);
            let st = create(Builder::new(&[]).sheet(&h.sheets[n]), k, &h.prefixes, &mgr, true).map_err(|e| e.to_string())?;
            let key = key(n, k, &own, &h.prefixes);
            if !have.iter().any(|(x, ..)| *x == key) {
                ids.insert(st.id());
                have.push((key, st.id(), st.text().to_string()));
            }
        }
        drop(mgr);
        pages.push((transfer(&r.read_style_data(), *format)?, have));
    }
    let mut clients: Vec<Client> = h
        .clients
        .iter()
        .map(|p| Client {
            mgr: StyleManager::builder().prefix(prefix(*p).into()).build().unwrap(),
            prefix: prefix(*p),
            registered: vec![],
            gone: HashSet::new(),
        })
        .collect();
    let mut handles: Vec<(Any, usize, Key, String, String)> = vec![];
    for act in &h.acts {
        match act {
            Act::Load(c, s) => {
                let n = clients.len();
                let c = &mut clients[*c as usize % n];
                let (data, have) = &pages[*s as usize % pages.len()];
                // Loading again changes nothing, but what was changed since then is not said.
                if have.iter().any(|(k, ..)| c.gone.contains(k)) {
                    continue;
                }
                let conflict = have.iter().any(|(k, id, _)| c.registered.iter().any(|(x, i, _)| x == k && i != id));
                rec.class("conflict", conflict);
                rec.class("loaded while styles are in use", !c.registered.is_empty());
                match (conflict, catch(|| c.mgr.load_style_data(data))) {
                    (true, Ok(())) => {
                        return Err("loading data with other ids for registered styles was not refused".into())
                    }
                    (false, Err(p)) => return Err(format!("loading panicked: {p}")),
                    (true, Err(_)) => {
                        // Which of the others were loaded is not said.
                        for (k, ..) in have {
                            if !c.registered.iter().any(|(x, ..)| x == k) {
                                c.gone.insert(k.clone());
                            }
                        }
                    }
                    (false, Ok(())) => {
                        for e in have {
                            if !c.registered.iter().any(|(x, ..)| *x == e.0) {
                                c.registered.push(e.clone());
                            }
                        }
                    }
                }
            }
            Act::Create(c, n, k, parts) => {
                let i = *c as usize % clients.len();
                let c = &mut clients[i];
                let n = canon(*n);
                let key = key(n, k, &c.prefix, &h.prefixes);
                let mut b = Builder::new(parts);
                b.split = false;
                let st = create(b.sheet(&h.sheets[n]), k, &h.prefixes, &c.mgr, parts.len() % 2 == 0)
                    .map_err(|e| e.to_string())?;
                match c.registered.iter().find(|(x, ..)| *x == key) {
                    Some((_, id, text)) => {
                        rec.nontrivial(pages.iter().any(|(_, h)| h.iter().any(|(_, i, _)| i == id)));
                        if st.id() != *id || st.text() != text {
                            return Err(format!("created as {} with\n{}\ninstead of {id} with\n{text}", st.id(), st.text()));
                        }
                    }
                    None if c.gone.contains(&key) => {
                        // May be the server's.
                        ids.insert(st.id());
                        c.registered.push((key.clone(), st.id(), st.text().to_string()));
                    }
                    None => {
                        if !ids.insert(st.id()) {
                            return Err(format!("{key:?} got the id {} of another style", st.id()));
                        }
                        well_made(&st, &key, &h.sheets[n])?;
                        c.registered.push((key.clone(), st.id(), st.text().to_string()));
                    }
                }
                let (id, text) = (st.id(), st.text().to_string());
                handles.push((st, i, key, id, text));
            }
            Act::Drop(i) if !handles.is_empty() => {
                let n = handles.len();
                handles.swap_remove(*i as usize % n);
            }
            Act::Unregister(i) if !handles.is_empty() => {
                let (s, c, key, id, _) = &handles[*i as usize % handles.len()];
                s.unregister();
                let c = &mut clients[*c];
                // Of a handle that is not what is registered: nothing.
                if c.registered.iter().any(|(_, i, _)| i == id) {
                    c.registered.retain(|(_, i, _)| i != id);
                    rec.class("unregistered", true);
                    if pages.iter().any(|(_, h)| h.iter().any(|(k, ..)| k == key)) {
                        c.gone.insert(key.clone());
                    }
                }
            }
            Act::Clone(c) => {
                let n = clients.len();
                let c = &mut clients[*c as usize % n];
                c.mgr = c.mgr.clone();
            }
            _ => {}
        }
        for (s, _, _, id, text) in &handles {
            if s.id() != *id || s.text() != text {
                return Err(format!("a handle of {id} turned into {}", s.id()));
            }
        }
    }
    Ok(())
}

pub fn c10() {
    let c = Check::new(
        "C10",
        "random sets of styles captured by a server manager, sent through JSON (text and value), bincode or CBOR, \
         loaded once or twice into a client manager which then makes those and other styles; ids and texts are compared \
         with the server's; histories of clients that load the pages of several servers between creating, dropping and \
         unregistering styles; non-trivial: a captured style is created on the client",
    );
    c.sub("hydrations", (20_000, 500_000), hydrations, hydrate);
    c.sub("sessions", (20_000, 500_000), sessions, session);
    c.finish()
}
