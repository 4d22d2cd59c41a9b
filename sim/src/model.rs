//! Reference model: elements, generators, and an independent PBF encoder and decoder.
use std::collections::BTreeMap;
use std::io::{Read, Write};

use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use osm_io::osm::model::node::Node;
use osm_io::osm::model::relation::{Member, MemberData, Relation};
use osm_io::osm::model::tag::Tag;
use osm_io::osm::model::way::Way;

use crate::fw::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    N,
    W,
    R,
}

/// One element; coordinates in nanodegrees, time in milliseconds.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct El {
    pub kind: Kind,
    pub id: i64,
    pub version: i32,
    pub lat: i64,
    pub lon: i64,
    pub ts: i64,
    pub changeset: i64,
    pub uid: i32,
    pub user: String,
    pub visible: bool,
    pub tags: Vec<(String, String)>,
    pub refs: Vec<i64>,
    pub members: Vec<(Kind, i64, String)>,
}

impl El {
    pub fn key(&self) -> (Kind, i64, i32) {
        (self.kind, self.id, self.version)
    }
    pub fn short(&self) -> String {
        let mut s = format!("{self:?}");
        if s.len() > 400 {
            let mut n = 400;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s.push_str("…");
        }
        s
    }
}

fn tags_of(t: &[Tag]) -> Vec<(String, String)> {
    t.iter().map(|t| (t.k().clone(), t.v().clone())).collect()
}
fn nano(x: f64) -> i64 {
    (x * 1e9).round() as i64
}

/// None for the end-of-block marker.
pub fn from_lib(e: &Element) -> Option<El> {
    Some(match e {
        Element::Node { node: n } => El {
            kind: Kind::N,
            id: n.id(),
            version: n.version(),
            lat: nano(n.coordinate().lat()),
            lon: nano(n.coordinate().lon()),
            ts: n.timestamp(),
            changeset: n.changeset(),
            uid: n.uid(),
            user: n.user().clone(),
            visible: n.visible(),
            tags: tags_of(n.tags()),
            refs: vec![],
            members: vec![],
        },
        Element::Way { way: n } => El {
            kind: Kind::W,
            id: n.id(),
            version: n.version(),
            lat: 0,
            lon: 0,
            ts: n.timestamp(),
            changeset: n.changeset(),
            uid: n.uid(),
            user: n.user().clone(),
            visible: n.visible(),
            tags: tags_of(n.tags()),
            refs: n.refs().clone(),
            members: vec![],
        },
        Element::Relation { relation: n } => El {
            kind: Kind::R,
            id: n.id(),
            version: n.version(),
            lat: 0,
            lon: 0,
            ts: n.timestamp(),
            changeset: n.changeset(),
            uid: n.uid(),
            user: n.user().clone(),
            visible: n.visible(),
            tags: tags_of(n.tags()),
            refs: vec![],
            members: n
                .members()
                .iter()
                .map(|m| match m {
                    Member::Node { member } => (Kind::N, member.id(), member.role().clone()),
                    Member::Way { member } => (Kind::W, member.id(), member.role().clone()),
                    Member::Relation { member } => (Kind::R, member.id(), member.role().clone()),
                })
                .collect(),
        },
        Element::Sentinel => return None,
    })
}

pub fn to_lib(e: &El) -> Element {
    let tags: Vec<Tag> = e.tags.iter().map(|(k, v)| Tag::new(k.clone(), v.clone())).collect();
    match e.kind {
        Kind::N => Element::Node {
            node: Node::new(
                e.id,
                e.version,
                Coordinate::new(e.lat as f64 / 1e9, e.lon as f64 / 1e9),
                e.ts,
                e.changeset,
                e.uid,
                e.user.clone(),
                e.visible,
                tags,
            ),
        },
        Kind::W => Element::Way {
            way: Way::new(e.id, e.version, e.ts, e.changeset, e.uid, e.user.clone(), e.visible, e.refs.clone(), tags),
        },
        Kind::R => Element::Relation {
            relation: Relation::new(
                e.id,
                e.version,
                e.ts,
                e.changeset,
                e.uid,
                e.user.clone(),
                e.visible,
                e.members
                    .iter()
                    .map(|(k, id, role)| {
                        let member = MemberData::new(*id, role.clone());
                        match k {
                            Kind::N => Member::Node { member },
                            Kind::W => Member::Way { member },
                            Kind::R => Member::Relation { member },
                        }
                    })
                    .collect(),
                tags,
            ),
        },
    }
}

/// First difference between two sequences, for messages.
pub fn diff(want: &[El], got: &[El]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        match (want.get(i), got.get(i)) {
            (Some(a), Some(b)) if a == b => {}
            (Some(a), Some(b)) => {
                let what = if a.key() != b.key() { "another element" } else { "other content" };
                return Some(format!("position {i}: {what}: expected {} got {} ({} expected, {} found)", a.short(), b.short(), want.len(), got.len()));
            }
            (Some(a), None) => return Some(format!("{} elements missing from position {i}: first {} ({} expected)", want.len() - i, a.short(), want.len())),
            (None, Some(b)) => return Some(format!("{} surplus elements from position {i}: first {} ({} expected)", got.len() - i, b.short(), want.len())),
            (None, None) => unreachable!(),
        }
    }
    None
}

// ------------------------------------------------------------------ generators
#[derive(Clone, Copy, PartialEq)]
pub enum Text {
    Plain,
    /// any Unicode, separators, quotes, backslashes; no NUL (not representable in the dump)
    Wild,
    /// and NUL
    Any,
}

pub fn text(r: &mut Rng, t: Text) -> String {
    const WORDS: [&str; 12] =
        ["highway", "name", "residential", "natural", "tree", "outer", "inner", "source", "bing", "survey", "ref", "A1"];
    if t == Text::Plain || r.chance(35) {
        return match r.below(10) {
            0 => format!("{}{}", r.pick(&WORDS), r.below(1000)),
            1 => format!("{}:{}", r.pick(&WORDS), r.pick(&WORDS)),
            _ => r.pick(&WORDS).to_string(),
        };
    }
    const PIECES: [&str; 44] = [
        " ", "  ", "\t", "\n", "\r", "\\", "\\\\", "\\N", "\\.", "\\t", "\\n", "'", "\"", "`", "$", ";", ",", "{", "}", "\u{8}", "\u{b}",
        "\u{c}", "\u{7}", "\u{1b}", "\u{1}", "é", "ß", "日本", "👍🏽", "\u{200d}", "\u{feff}", "\u{85}", "\u{2028}", "=", "%", "#", "&", "|",
        "\\x41", "\\u0041", "\\101", "a", "Zz", "0",
    ];
    let n = match r.below(12) {
        0 => 0,
        1..=3 => 1,
        11 => 12,
        k => k,
    };
    let mut s = String::new();
    for _ in 0..n {
        if t == Text::Any && r.chance(4) {
            s.push('\0');
        } else if r.chance(30) {
            s.push_str(r.pick(&WORDS));
        } else {
            s.push_str(r.pick(&PIECES));
        }
    }
    s
}

/// Longer than the buffers that texts usually pass through.
fn long_text(r: &mut Rng, t: Text) -> String {
    let n = *r.pick(&[130, 256, 2100, 9000, 20_000, 70_000]);
    let mut s = String::new();
    while s.len() < n {
        s.push_str(&text(r, t));
        s.push('+');
    }
    s
}

#[derive(Clone, Copy)]
pub struct GenOpts {
    pub text: Text,
    /// percent chance of a further version of the same element
    pub history: u64,
    pub max_tags: u64,
    pub max_refs: u64,
    pub negative_ids: bool,
    pub users: u64,
    pub changesets: u64,
    /// resolution of coordinates in nanodegrees
    pub coord_step: i64,
    pub unique_tag_keys: bool,
    /// invisible elements keep position, tags and members as usual
    pub deleted_pct: u64,
    /// resolution of time in milliseconds
    pub ts_step: i64,
    /// so many tags of an element have texts that occur nowhere else
    pub distinct: u64,
    /// users may change their name, as history and extracts show them
    pub renames: bool,
}
impl Default for GenOpts {
    fn default() -> Self {
        GenOpts {
            text: Text::Wild,
            history: 15,
            max_tags: 4,
            max_refs: 6,
            negative_ids: false,
            users: 5,
            changesets: 6,
            coord_step: 100,
            unique_tag_keys: true,
            deleted_pct: 15,
            ts_step: 1000,
            distinct: 0,
            renames: false,
        }
    }
}

pub fn coord(r: &mut Rng, max_deg: i64, step: i64, edges: bool) -> i64 {
    let lim = max_deg * 1_000_000_000;
    let v = match if edges { r.below(12) } else { 12 } {
        0 => lim,
        1 => -lim,
        2 => 0,
        3 => step,
        4 => -step,
        _ => r.range(-lim, lim),
    };
    v / step * step
}

/// Sorted by type, id and version; keys unique; user names follow the uid.
pub fn elements(r: &mut Rng, n: usize, w: usize, rel: usize, o: &GenOpts) -> Vec<El> {
    let mut out = Vec::new();
    let names: Vec<String> = (0..o.users.max(1)).map(|i| format!("{}{}", text(r, o.text), if i % 3 == 0 { String::new() } else { i.to_string() })).collect();
    // now and then numbers that need more than 32 bits, and times outside 1970-2038
    let big = r.below(6) == 0;
    // without the edges of the world, any node of many may be the outermost one
    let edges = r.chance(60);
    // now and then elements with long lists and long texts
    let wide = if r.below(40) == 0 { 100 / (n + w + rel).max(4) as u64 + 2 } else { 0 };
    // edits without an account
    let anon = if r.below(10) == 0 { Some(*r.pick(&[0, 0, -1])) } else { None };
    let max_ref = if big { 1i64 << 60 } else { 1 << 34 };
    let min_ref = if o.negative_ids && r.below(4) == 0 { -max_ref } else { 1 };
    let renames = if o.renames && r.below(3) == 0 { 15 } else { 0 };
    let mut wides = 0;
    const LONG: [u64; 6] = [130, 300, 300, 2000, 2300, 33_000];
    let cs_users: Vec<u64> = (0..o.changesets.max(1)).map(|_| r.below(o.users.max(1))).collect();
    for (kind, count) in [(Kind::N, n), (Kind::W, w), (Kind::R, rel)] {
        let mut id: i64 = if o.negative_ids && r.chance(40) { -(r.below(1 << 40) as i64) } else { 0 };
        let mut made = 0;
        while made < count {
            id += match r.below(10) {
                0 => r.range(1, if big { 1 << 50 } else { 1 << 33 }),
                1 | 2 => r.range(1, 1000),
                _ => 1,
            };
            let mut version = if r.chance(70) { 1 } else { r.range(1, if big { 2_000_000_000 } else { 50 }) as i32 };
            let secs = if big { r.range(-1_000_000_000, 4_100_000_000) } else { r.range(1_100_000_000, 1_500_000_000) };
            let mut ts = (secs * 1000 + r.range(0, 999)) / o.ts_step * o.ts_step;
            loop {
                let cs = r.below(o.changesets.max(1));
                let u = cs_users[cs as usize];
                let mut tags: Vec<(String, String)> = Vec::new();
                for _ in 0..(if r.chance(40) { 0 } else { r.below(o.max_tags + 1) }) {
                    let k = text(r, o.text);
                    if o.unique_tag_keys && tags.iter().any(|t| t.0 == k) {
                        continue;
                    }
                    tags.push((k, text(r, o.text)));
                }
                let wide = wides < 40 && r.chance(wide);
                wides += wide as u32;
                let mut user = if anon.is_some() && u == 0 { String::new() } else { names[u as usize].clone() };
                if r.chance(renames) {
                    user.push_str(" (old)");
                }
                if wide {
                    for i in 0..*r.pick(&[0, 20, 130, 300]) {
                        tags.push((format!("{}~{i}", text(r, o.text)), text(r, o.text)));
                    }
                    tags.push(("note".to_string(), long_text(r, o.text)));
                }
                for i in 0..o.distinct {
                    tags.push((format!("{}{id}.{i}", kind as u8), format!("v{version}.{id}.{i}")));
                }
                let mut e = El {
                    kind,
                    id,
                    version,
                    lat: 0,
                    lon: 0,
                    ts,
                    changeset: if let (Some(x), 0) = (anon, cs) {
                        x as i64
                    } else if big { (1i64 << 32) + cs as i64 * 2_100_000_011 } else { 1000 + cs as i64 * 7 },
                    uid: match anon {
                        Some(x) if u == 0 => x,
                        _ if big => i32::MAX - u as i32 * 3,
                        _ => 1 + u as i32 * 3,
                    },
                    user,
                    visible: !r.chance(o.deleted_pct),
                    tags,
                    refs: vec![],
                    members: vec![],
                };
                match kind {
                    Kind::N => {
                        e.lat = coord(r, 90, o.coord_step, edges);
                        e.lon = coord(r, 180, o.coord_step, edges);
                    }
                    Kind::W => {
                        for _ in 0..if wide { *r.pick(&LONG) } else { r.below(o.max_refs + 1) } {
                            let x = if !e.refs.is_empty() && r.chance(15) { *r.pick(&e.refs) } else { r.range(min_ref, max_ref) };
                            e.refs.push(x);
                        }
                    }
                    Kind::R => {
                        for _ in 0..if wide { *r.pick(&LONG) } else { r.below(o.max_refs + 1) } {
                            let k = *r.pick(&[Kind::N, Kind::W, Kind::R]);
                            let id = if !e.members.is_empty() && r.chance(20) { r.pick(&e.members).1 } else { r.range(min_ref, max_ref) };
                            let role = if r.chance(30) { String::new() } else { text(r, o.text) };
                            e.members.push((k, id, role));
                        }
                    }
                }
                out.push(e);
                made += 1;
                if made >= count || !r.chance(o.history) {
                    break;
                }
                version += if r.chance(80) { 1 } else { r.range(1, 9) as i32 };
                ts += (r.range(0, 100_000_000) * 1000 + r.range(0, 999)) / o.ts_step * o.ts_step;
            }
        }
    }
    out
}

// ------------------------------------------------------------------ protobuf wire format
#[derive(Default, Clone)]
pub struct Pb(pub Vec<u8>);
impl Pb {
    pub fn varint(&mut self, mut v: u64) {
        while v >= 0x80 {
            self.0.push((v as u8) | 0x80);
            v >>= 7;
        }
        self.0.push(v as u8);
    }
    pub fn int(&mut self, f: u32, v: i64) {
        self.varint((f as u64) << 3);
        self.varint(v as u64);
    }
    pub fn sint(&mut self, f: u32, v: i64) {
        self.int(f, ((v << 1) ^ (v >> 63)) as i64);
    }
    pub fn bytes(&mut self, f: u32, b: &[u8]) {
        self.varint(((f as u64) << 3) | 2);
        self.varint(b.len() as u64);
        self.0.extend_from_slice(b);
    }
    pub fn packed(&mut self, f: u32, v: &[i64], zigzag: bool) {
        if v.is_empty() {
            return;
        }
        let mut p = Pb::default();
        for x in v {
            p.varint(if zigzag { ((x << 1) ^ (x >> 63)) as u64 } else { *x as u64 });
        }
        self.bytes(f, &p.0);
    }
}

pub enum Wire {
    V(u64),
    B(Vec<u8>),
    Other,
}
pub fn parse(b: &[u8]) -> Result<Vec<(u32, Wire)>, String> {
    let mut i = 0;
    let mut out = Vec::new();
    fn vi(b: &[u8], i: &mut usize) -> Result<u64, String> {
        let mut v = 0u64;
        for s in 0..10 {
            let c = *b.get(*i).ok_or("truncated varint")?;
            *i += 1;
            v |= ((c & 0x7f) as u64) << (7 * s);
            if c & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err("overlong varint".into())
    }
    while i < b.len() {
        let t = vi(b, &mut i)?;
        let f = (t >> 3) as u32;
        match t & 7 {
            0 => out.push((f, Wire::V(vi(b, &mut i)?))),
            2 => {
                let n = vi(b, &mut i)? as usize;
                let e = i.checked_add(n).filter(|e| *e <= b.len()).ok_or("truncated field")?;
                out.push((f, Wire::B(b[i..e].to_vec())));
                i = e;
            }
            1 => {
                i += 8;
                out.push((f, Wire::Other));
            }
            5 => {
                i += 4;
                out.push((f, Wire::Other));
            }
            w => return Err(format!("wire type {w}")),
        }
    }
    if i > b.len() {
        return Err("truncated".into());
    }
    Ok(out)
}
fn unzig(v: u64) -> i64 {
    ((v >> 1) as i64) ^ -((v & 1) as i64)
}
fn nums(m: &[(u32, Wire)], f: u32, zigzag: bool) -> Result<Vec<i64>, String> {
    let mut out = Vec::new();
    for (g, w) in m {
        if *g != f {
            continue;
        }
        match w {
            Wire::V(v) => out.push(if zigzag { unzig(*v) } else { *v as i64 }),
            Wire::B(b) => {
                let mut i = 0;
                while i < b.len() {
                    let mut v = 0u64;
                    let mut s = 0;
                    loop {
                        let c = *b.get(i).ok_or("packed")?;
                        i += 1;
                        v |= ((c & 0x7f) as u64) << s;
                        s += 7;
                        if c & 0x80 == 0 {
                            break;
                        }
                        if s > 63 {
                            return Err("packed varint".into());
                        }
                    }
                    out.push(if zigzag { unzig(v) } else { v as i64 });
                }
            }
            Wire::Other => return Err("wire type of a number".into()),
        }
    }
    Ok(out)
}
fn num(m: &[(u32, Wire)], f: u32, zigzag: bool) -> Result<Option<i64>, String> {
    Ok(nums(m, f, zigzag)?.last().copied())
}
fn blobs(m: &[(u32, Wire)], f: u32) -> Vec<&[u8]> {
    m.iter().filter_map(|(g, w)| if *g == f { if let Wire::B(b) = w { Some(b.as_slice()) } else { None } } else { None }).collect()
}
fn strs(m: &[(u32, Wire)], f: u32) -> Result<Vec<String>, String> {
    blobs(m, f).into_iter().map(|b| String::from_utf8(b.to_vec()).map_err(|e| e.to_string())).collect()
}

// ------------------------------------------------------------------ header
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Head {
    /// left, right, top, bottom in nanodegrees
    pub bbox: Option<(i64, i64, i64, i64)>,
    pub required: Vec<String>,
    pub optional: Vec<String>,
    pub program: Option<String>,
    pub source: Option<String>,
    pub rep_ts: Option<i64>,
    pub rep_seq: Option<i64>,
    pub rep_url: Option<String>,
}
impl Head {
    pub fn simple() -> Head {
        Head { required: vec!["OsmSchema-V0.6".into(), "DenseNodes".into()], ..Default::default() }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut p = Pb::default();
        if let Some((l, r, t, b)) = self.bbox {
            let mut q = Pb::default();
            q.sint(1, l);
            q.sint(2, r);
            q.sint(3, t);
            q.sint(4, b);
            p.bytes(1, &q.0);
        }
        for f in &self.required {
            p.bytes(4, f.as_bytes());
        }
        for f in &self.optional {
            p.bytes(5, f.as_bytes());
        }
        if let Some(s) = &self.program {
            p.bytes(16, s.as_bytes());
        }
        if let Some(s) = &self.source {
            p.bytes(17, s.as_bytes());
        }
        if let Some(v) = self.rep_ts {
            p.int(32, v);
        }
        if let Some(v) = self.rep_seq {
            p.int(33, v);
        }
        if let Some(s) = &self.rep_url {
            p.bytes(34, s.as_bytes());
        }
        p.0
    }
    pub fn decode(b: &[u8]) -> Result<Head, String> {
        let m = parse(b)?;
        let mut h = Head { required: strs(&m, 4)?, optional: strs(&m, 5)?, ..Default::default() };
        if let Some(bb) = blobs(&m, 1).last() {
            let q = parse(bb)?;
            let g = |f| num(&q, f, true).map(|v| v.unwrap_or(0));
            h.bbox = Some((g(1)?, g(2)?, g(3)?, g(4)?));
        }
        h.program = strs(&m, 16)?.pop();
        h.source = strs(&m, 17)?.pop();
        h.rep_ts = num(&m, 32, false)?;
        h.rep_seq = num(&m, 33, false)?;
        h.rep_url = strs(&m, 34)?.pop();
        Ok(h)
    }
}

// ------------------------------------------------------------------ encoder of conforming files
#[derive(Clone, Debug)]
pub struct Layout {
    pub zlib: bool,
    pub plain_nodes: bool,
    pub granularity: i64,
    pub lat_off: i64,
    pub lon_off: i64,
    pub date_gran: i64,
    /// 0 full metadata, 1 none
    pub no_info: bool,
    pub with_visible: bool,
    pub defaults_explicit: bool,
    pub unknown_fields: bool,
    pub indexdata: bool,
    /// elements of the block are split into groups of at most this many
    pub group: usize,
    pub level: u32,
    pub omit_empty_user: bool,
    /// metadata the file does not hold: bits version, timestamp, changeset, uid, user
    pub omit: u8,
    /// fields of messages in descending instead of ascending order, packed arrays in two pieces
    pub odd_order: bool,
    /// strings nothing refers to, in front of the string table
    pub pad_strings: usize,
}
impl Default for Layout {
    fn default() -> Self {
        Layout {
            zlib: true,
            plain_nodes: false,
            granularity: 100,
            lat_off: 0,
            lon_off: 0,
            date_gran: 1000,
            no_info: false,
            with_visible: true,
            defaults_explicit: true,
            unknown_fields: false,
            indexdata: false,
            group: usize::MAX,
            level: 6,
            omit_empty_user: false,
            omit: 0,
            odd_order: false,
            pad_strings: 0,
        }
    }
}

struct St {
    v: Vec<Vec<u8>>,
    m: BTreeMap<String, i64>,
}
impl St {
    fn add(&mut self, s: &str) -> i64 {
        if let Some(i) = self.m.get(s) {
            return *i;
        }
        self.v.push(s.as_bytes().to_vec());
        let i = self.v.len() as i64 - 1;
        self.m.insert(s.to_string(), i);
        i
    }
}

fn info(e: &El, l: &Layout, st: &mut St) -> Pb {
    let mut p = Pb::default();
    let has = |k: u8| l.omit & (1 << k) == 0;
    if has(0) {
        p.int(1, e.version as i64);
    }
    if has(1) {
        p.int(2, e.ts / l.date_gran);
    }
    if has(2) {
        p.int(3, e.changeset);
    }
    if has(3) {
        p.int(4, e.uid as i64);
    }
    if has(4) && !(l.omit_empty_user && e.user.is_empty()) {
        p.int(5, st.add(&e.user));
    }
    if l.with_visible && (l.defaults_explicit || !e.visible) {
        p.int(6, e.visible as i64);
    }
    p
}

fn unknown(p: &mut Pb, l: &Layout) {
    if l.unknown_fields {
        p.int(1900, 42);
        p.bytes(1901, b"future");
    }
}

pub fn encode_block(els: &[El], l: &Layout) -> Vec<u8> {
    let mut st = St { v: vec![vec![]], m: BTreeMap::new() };
    st.v.extend((0..l.pad_strings).map(|i| format!("u{}", i % 7).into_bytes()));
    let mut groups: Vec<Vec<u8>> = Vec::new();
    let mut i = 0;
    while i < els.len() {
        let k = els[i].kind;
        let mut j = i;
        while j < els.len() && els[j].kind == k && j - i < l.group.max(1) {
            j += 1;
        }
        let es = &els[i..j];
        i = j;
        let mut g = Pb::default();
        match k {
            Kind::N if !l.plain_nodes => {
                let mut d = Pb::default();
                let del = |f: &dyn Fn(&El) -> i64| {
                    let mut last = 0;
                    es.iter()
                        .map(|e| {
                            let v = f(e);
                            let x = v - last;
                            last = v;
                            x
                        })
                        .collect::<Vec<i64>>()
                };
                d.packed(1, &del(&|e| e.id), true);
                if !l.no_info {
                    let mut inf = Pb::default();
                    let has = |k: u8| l.omit & (1 << k) == 0;
                    if has(0) {
                        inf.packed(1, &es.iter().map(|e| e.version as i64).collect::<Vec<_>>(), false);
                    }
                    if has(1) {
                        inf.packed(2, &del(&|e| e.ts / l.date_gran), true);
                    }
                    if has(2) {
                        inf.packed(3, &del(&|e| e.changeset), true);
                    }
                    if has(3) {
                        inf.packed(4, &del(&|e| e.uid as i64), true);
                    }
                    let sids: Vec<i64> = es.iter().map(|e| st.add(&e.user)).collect();
                    let mut last = 0;
                    let dsid: Vec<i64> = sids
                        .iter()
                        .map(|s| {
                            let x = s - last;
                            last = *s;
                            x
                        })
                        .collect();
                    if has(4) {
                        inf.packed(5, &dsid, true);
                    }
                    if l.with_visible {
                        inf.packed(6, &es.iter().map(|e| e.visible as i64).collect::<Vec<_>>(), false);
                    }
                    d.bytes(5, &reorder(inf.0, l));
                }
                d.packed(8, &del(&|e| (e.lat - l.lat_off) / l.granularity), true);
                d.packed(9, &del(&|e| (e.lon - l.lon_off) / l.granularity), true);
                if es.iter().any(|e| !e.tags.is_empty()) || l.defaults_explicit {
                    let mut kv = Vec::new();
                    for e in es {
                        for (k, v) in &e.tags {
                            kv.push(st.add(k));
                            kv.push(st.add(v));
                        }
                        kv.push(0);
                    }
                    d.packed(10, &kv, false);
                }
                unknown(&mut d, l);
                g.bytes(2, &reorder(d.0, l));
            }
            _ => {
                for e in es {
                    let mut p = Pb::default();
                    if k == Kind::N {
                        p.sint(1, e.id);
                    } else {
                        p.int(1, e.id);
                    }
                    let ks: Vec<i64> = e.tags.iter().map(|t| st.add(&t.0)).collect();
                    let vs: Vec<i64> = e.tags.iter().map(|t| st.add(&t.1)).collect();
                    p.packed(2, &ks, false);
                    p.packed(3, &vs, false);
                    if !l.no_info {
                        let inf = info(e, l, &mut st);
                        p.bytes(4, &reorder(inf.0, l));
                    }
                    match k {
                        Kind::N => {
                            p.sint(8, (e.lat - l.lat_off) / l.granularity);
                            p.sint(9, (e.lon - l.lon_off) / l.granularity);
                        }
                        Kind::W => {
                            let mut last = 0;
                            let d: Vec<i64> = e
                                .refs
                                .iter()
                                .map(|r| {
                                    let x = r - last;
                                    last = *r;
                                    x
                                })
                                .collect();
                            p.packed(8, &d, true);
                        }
                        Kind::R => {
                            let roles: Vec<i64> = e.members.iter().map(|m| st.add(&m.2)).collect();
                            let mut last = 0;
                            let d: Vec<i64> = e
                                .members
                                .iter()
                                .map(|m| {
                                    let x = m.1 - last;
                                    last = m.1;
                                    x
                                })
                                .collect();
                            let t: Vec<i64> = e.members.iter().map(|m| m.0 as i64).collect();
                            p.packed(8, &roles, false);
                            p.packed(9, &d, true);
                            p.packed(10, &t, false);
                        }
                    }
                    unknown(&mut p, l);
                    g.bytes(match k {
                        Kind::N => 1,
                        Kind::W => 3,
                        Kind::R => 4,
                    }, &reorder(p.0, l));
                }
            }
        }
        groups.push(g.0);
    }
    let mut s = Pb::default();
    for x in &st.v {
        s.bytes(1, x);
    }
    let mut b = Pb::default();
    b.bytes(1, &s.0);
    for g in groups {
        b.bytes(2, &g);
    }
    if l.granularity != 100 || l.defaults_explicit {
        b.int(17, l.granularity);
    }
    if l.date_gran != 1000 || l.defaults_explicit {
        b.int(18, l.date_gran);
    }
    if l.lat_off != 0 || l.defaults_explicit {
        b.int(19, l.lat_off);
    }
    if l.lon_off != 0 || l.defaults_explicit {
        b.int(20, l.lon_off);
    }
    unknown(&mut b, l);
    reorder(b.0, l)
}

/// The same message with its fields in another order (repeated fields keep theirs), and with
/// packed numbers split over two occurrences of their field.
fn reorder(b: Vec<u8>, l: &Layout) -> Vec<u8> {
    if !l.odd_order {
        return b;
    }
    // (field, bytes of the field) in order
    let mut fields: Vec<(u32, Vec<u8>)> = Vec::new();
    let mut i = 0;
    let vi = |i: &mut usize| {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let c = b[*i];
            *i += 1;
            v |= ((c & 0x7f) as u64) << s;
            s += 7;
            if c & 0x80 == 0 {
                return v;
            }
        }
    };
    while i < b.len() {
        let s = i;
        let t = vi(&mut i);
        match t & 7 {
            0 => {
                vi(&mut i);
            }
            _ => {
                let n = vi(&mut i) as usize;
                i += n;
            }
        }
        fields.push(((t >> 3) as u32, b[s..i].to_vec()));
    }
    fields.sort_by_key(|f| std::cmp::Reverse(f.0));
    fields.into_iter().flat_map(|f| f.1).collect()
}

pub fn encode_blob(kind: &str, data: &[u8], l: &Layout) -> Vec<u8> {
    let mut blob = Pb::default();
    if l.zlib {
        let mut z = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(l.level));
        z.write_all(data).unwrap();
        let z = z.finish().unwrap();
        blob.int(2, data.len() as i64);
        blob.bytes(3, &z);
    } else {
        blob.bytes(1, data);
    }
    let mut h = Pb::default();
    h.bytes(1, kind.as_bytes());
    if l.indexdata {
        h.bytes(2, b"index!");
    }
    h.int(3, blob.0.len() as i64);
    let mut out = (h.0.len() as u32).to_be_bytes().to_vec();
    out.extend_from_slice(&h.0);
    out.extend_from_slice(&blob.0);
    out
}

/// (file bytes, end offset of every blob including the header)
pub fn encode_file(head: &Head, blocks: &[(Vec<El>, Layout)]) -> (Vec<u8>, Vec<usize>) {
    let mut out = encode_blob("OSMHeader", &head.encode(), &blocks.first().map(|b| b.1.clone()).unwrap_or_default());
    let mut ends = vec![out.len()];
    for (els, l) in blocks {
        out.extend(encode_blob("OSMData", &encode_block(els, l), l));
        ends.push(out.len());
    }
    (out, ends)
}

/// Inserts blobs of a kind readers do not know after some of the blobs.
pub fn with_foreign_blobs(bytes: &[u8], ends: &[usize], r: &mut Rng, pct: u64) -> Vec<u8> {
    let mut out = Vec::new();
    let mut s = 0;
    for e in ends {
        out.extend_from_slice(&bytes[s..*e]);
        s = *e;
        while r.chance(pct) {
            let kind = *r.pick(&["OSMIndex", "X", "osmdata", "OSMData2"]);
            let l = Layout { zlib: r.chance(50), indexdata: r.chance(30), ..Default::default() };
            let n = r.below(60) as usize;
            let data: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            out.extend(encode_blob(kind, &data, &l));
        }
    }
    out
}

// ------------------------------------------------------------------ decoder
#[derive(Clone, Debug)]
pub struct Block {
    pub els: Vec<El>,
    pub start: usize,
    pub end: usize,
    pub zlib: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Decoded {
    pub head: Option<Head>,
    pub blocks: Vec<Block>,
    /// bytes of a torn blob at the end
    pub leftover: usize,
}
impl Decoded {
    pub fn els(&self) -> Vec<El> {
        self.blocks.iter().flat_map(|b| b.els.iter().cloned()).collect()
    }
}

fn decode_info(b: Option<&&[u8]>, st: &[String], dg: i64) -> Result<(i32, i64, i64, i32, String, bool), String> {
    match b {
        None => Ok((0, -1, -1, -1, String::new(), true)),
        Some(b) => {
            let m = parse(b)?;
            let sid = num(&m, 5, false)?.unwrap_or(0);
            Ok((
                num(&m, 1, false)?.unwrap_or(-1) as i32,
                num(&m, 2, false)?.unwrap_or(0) * dg,
                num(&m, 3, false)?.unwrap_or(-1),
                num(&m, 4, false)?.unwrap_or(-1) as i32,
                st.get(sid as usize).ok_or("user string index")?.clone(),
                num(&m, 6, false)?.unwrap_or(1) != 0,
            ))
        }
    }
}

pub fn decode_block(data: &[u8]) -> Result<Vec<El>, String> {
    let m = parse(data)?;
    let st = match blobs(&m, 1).last() {
        Some(b) => strs(&parse(b)?, 1)?,
        None => return Err("no string table".into()),
    };
    let gran = num(&m, 17, false)?.unwrap_or(100);
    let dg = num(&m, 18, false)?.unwrap_or(1000);
    let lat_off = num(&m, 19, false)?.unwrap_or(0);
    let lon_off = num(&m, 20, false)?.unwrap_or(0);
    let s = |i: i64| st.get(i as usize).cloned().ok_or(format!("string index {i} of {}", st.len()));
    let mut out = Vec::new();
    for g in blobs(&m, 2) {
        let g = parse(g)?;
        let kinds = [1u32, 2, 3, 4, 5].iter().filter(|f| g.iter().any(|x| x.0 == **f)).count();
        if kinds > 1 {
            return Err("a primitive group with several kinds of elements".into());
        }
        for d in blobs(&g, 2) {
            let d = parse(d)?;
            let ids = nums(&d, 1, true)?;
            let lats = nums(&d, 8, true)?;
            let lons = nums(&d, 9, true)?;
            let kv = nums(&d, 10, false)?;
            let n = ids.len();
            if lats.len() != n || lons.len() != n {
                return Err("dense arrays differ in length".into());
            }
            let inf = match blobs(&d, 5).last() {
                Some(b) => Some(parse(b)?),
                None => None,
            };
            let mut arr: Vec<Vec<i64>> = Vec::new();
            if let Some(i) = &inf {
                arr.push(nums(i, 1, false)?);
                for f in [2, 3, 4, 5] {
                    arr.push(nums(i, f, true)?);
                }
                arr.push(nums(i, 6, false)?);
                for a in arr.iter_mut() {
                    if a.len() != n && !a.is_empty() {
                        return Err("dense info arrays differ in length".into());
                    }
                }
            }
            let (mut id, mut la, mut lo, mut ts, mut cs, mut uid, mut sid) = (0i64, 0i64, 0i64, 0i64, 0i64, 0i64, 0i64);
            let mut t = 0;
            for i in 0..n {
                id += ids[i];
                la += lats[i];
                lo += lons[i];
                let mut e = El {
                    kind: Kind::N,
                    id,
                    version: 0,
                    lat: lat_off + gran * la,
                    lon: lon_off + gran * lo,
                    ts: -1,
                    changeset: -1,
                    uid: -1,
                    user: String::new(),
                    visible: true,
                    tags: vec![],
                    refs: vec![],
                    members: vec![],
                };
                if inf.is_some() {
                    let at = |k: usize| arr[k].get(i).copied().unwrap_or(0);
                    ts += at(1);
                    cs += at(2);
                    uid += at(3);
                    sid += at(4);
                    e.version = at(0) as i32;
                    e.ts = ts * dg;
                    e.changeset = cs;
                    e.uid = uid as i32;
                    e.user = s(sid)?;
                    e.visible = arr[5].get(i).copied().unwrap_or(1) != 0;
                }
                if !kv.is_empty() {
                    loop {
                        let k = *kv.get(t).ok_or("keys_vals too short")?;
                        t += 1;
                        if k == 0 {
                            break;
                        }
                        let v = *kv.get(t).ok_or("keys_vals too short")?;
                        t += 1;
                        e.tags.push((s(k)?, s(v)?));
                    }
                }
                out.push(e);
            }
            if t != kv.len() {
                return Err("keys_vals too long".into());
            }
        }
        for (f, kind) in [(1u32, Kind::N), (3, Kind::W), (4, Kind::R)] {
            for b in blobs(&g, f) {
                let m = parse(b)?;
                let (version, ts, changeset, uid, user, visible) = decode_info(blobs(&m, 4).last(), &st, dg)?;
                let ks = nums(&m, 2, false)?;
                let vs = nums(&m, 3, false)?;
                if ks.len() != vs.len() {
                    return Err("keys and values differ in number".into());
                }
                let mut e = El {
                    kind,
                    id: num(&m, 1, kind == Kind::N)?.ok_or("element without id")?,
                    version,
                    lat: 0,
                    lon: 0,
                    ts,
                    changeset,
                    uid,
                    user,
                    visible,
                    tags: ks.iter().zip(&vs).map(|(k, v)| Ok((s(*k)?, s(*v)?))).collect::<Result<_, String>>()?,
                    refs: vec![],
                    members: vec![],
                };
                match kind {
                    Kind::N => {
                        e.lat = lat_off + gran * num(&m, 8, true)?.ok_or("lat")?;
                        e.lon = lon_off + gran * num(&m, 9, true)?.ok_or("lon")?;
                    }
                    Kind::W => {
                        let mut l = 0;
                        for d in nums(&m, 8, true)? {
                            l += d;
                            e.refs.push(l);
                        }
                    }
                    Kind::R => {
                        let roles = nums(&m, 8, false)?;
                        let ids = nums(&m, 9, true)?;
                        let types = nums(&m, 10, false)?;
                        if roles.len() != ids.len() || ids.len() != types.len() {
                            return Err("member arrays differ in length".into());
                        }
                        let mut l = 0;
                        for i in 0..ids.len() {
                            l += ids[i];
                            let k = match types[i] {
                                0 => Kind::N,
                                1 => Kind::W,
                                2 => Kind::R,
                                _ => return Err("member type".into()),
                            };
                            e.members.push((k, l, s(roles[i])?));
                        }
                    }
                }
                out.push(e);
            }
        }
    }
    Ok(out)
}

/// Decodes a file strictly; a torn last blob is only accepted with `prefix`.
pub fn decode_file(b: &[u8], prefix: bool) -> Result<Decoded, String> {
    let mut out = Decoded::default();
    let mut i = 0usize;
    let mut k = 0usize;
    while i < b.len() {
        let torn = |what: &str| -> Result<(), String> {
            if prefix {
                Ok(())
            } else {
                Err(format!("{what} of blob {k} is cut off (file of {} bytes)", b.len()))
            }
        };
        if b.len() - i < 4 {
            torn("length")?;
            break;
        }
        let hl = i32::from_be_bytes(b[i..i + 4].try_into().unwrap());
        if hl <= 0 || hl > 64 * 1024 {
            return Err(format!("header length {hl} of blob {k}"));
        }
        let hs = i + 4;
        let he = hs + hl as usize;
        if he > b.len() {
            torn("header")?;
            break;
        }
        let h = parse(&b[hs..he]).map_err(|e| format!("header of blob {k}: {e}"))?;
        let t = strs(&h, 1)?.pop().ok_or("blob without type")?;
        let n = num(&h, 3, false)?.ok_or("blob without size")?;
        if !(0..=32 << 20).contains(&n) {
            return Err(format!("size {n} of blob {k}"));
        }
        let e = he + n as usize;
        if e > b.len() {
            torn("body")?;
            break;
        }
        let m = parse(&b[he..e]).map_err(|e| format!("blob {k}: {e}"))?;
        let mut zlib = false;
        let data = if let Some(r) = blobs(&m, 1).last() {
            if let Some(rs) = num(&m, 2, false)? {
                if rs as usize != r.len() {
                    return Err(format!("raw_size of blob {k}"));
                }
            }
            r.to_vec()
        } else if let Some(z) = blobs(&m, 3).last() {
            zlib = true;
            let mut v = Vec::new();
            flate2::read::ZlibDecoder::new(*z).read_to_end(&mut v).map_err(|e| format!("zlib data of blob {k}: {e}"))?;
            if num(&m, 2, false)? != Some(v.len() as i64) {
                return Err(format!("raw_size of blob {k}"));
            }
            v
        } else {
            return Err(format!("blob {k} without data"));
        };
        match (k, t.as_str()) {
            (0, "OSMHeader") => out.head = Some(Head::decode(&data)?),
            (0, _) => return Err("first blob is not a header".into()),
            (_, "OSMData") => {
                let els = decode_block(&data).map_err(|e| format!("blob {k}: {e}"))?;
                out.blocks.push(Block { els, start: i, end: e, zlib });
            }
            (_, t) => return Err(format!("blob {k} of type {t}")),
        }
        i = e;
        k += 1;
    }
    out.leftover = b.len() - i;
    Ok(out)
}
