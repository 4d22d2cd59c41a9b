//! C10-C13 and the dump part of C14 and C16: writing and reading database dumps.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

use osm_io::osm::apidb_dump::read::reader::Reader as DumpReader;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;

use super::knobs;
use super::write;
use crate::fw::{panic_text, Case, Ctx, Rng, Scenario};
use crate::model::{self, diff, from_lib, to_lib, El, GenOpts, Head, Kind, Text};
use crate::rt;

// ------------------------------------------------------------------ COPY text format, independently
const NULL: &str = "\u{0}NULL";

/// `style` 0: what the database writes; otherwise now and then another spelling the format allows.
fn copy_escape(s: &str, r: &mut Rng, style: u64) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        let odd = style > 0 && r.chance(10);
        match ch {
            '\\' => o.push_str("\\\\"),
            '\u{8}' | '\t' | '\n' | '\u{b}' | '\u{c}' | '\r' if odd => {
                // all the digits where a following digit would be swallowed
                let all = r.chance(50) || it.peek().is_some_and(|n| n.is_ascii_hexdigit());
                match (r.chance(50), all) {
                    (true, true) => o.push_str(&format!("\\{:03o}", ch as u32)),
                    (true, false) => o.push_str(&format!("\\{:o}", ch as u32)),
                    (false, true) => o.push_str(&format!("\\x{:02x}", ch as u32)),
                    (false, false) => o.push_str(&format!("\\x{:x}", ch as u32)),
                }
            }
            '\u{8}' => o.push_str("\\b"),
            '\t' => o.push_str("\\t"),
            '\n' => o.push_str("\\n"),
            '\u{b}' => o.push_str("\\v"),
            '\u{c}' => o.push_str("\\f"),
            '\r' => o.push_str("\\r"),
            // any other character may be preceded by a backslash
            c if odd && c.is_ascii_punctuation() && c != '.' => {
                o.push('\\');
                o.push(c);
            }
            c => o.push(c),
        }
    }
    o
}

fn copy_unescape(s: &str) -> Result<String, String> {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            o.push(b[i]);
            i += 1;
            continue;
        }
        let c = *b.get(i + 1).ok_or("backslash at the end of a value")?;
        i += 2;
        match c {
            b'b' => o.push(8),
            b't' => o.push(9),
            b'n' => o.push(10),
            b'v' => o.push(11),
            b'f' => o.push(12),
            b'r' => o.push(13),
            b'0'..=b'7' => {
                let mut v = (c - b'0') as u32;
                let mut k = 1;
                while k < 3 && i < b.len() && (b'0'..=b'7').contains(&b[i]) {
                    v = v * 8 + (b[i] - b'0') as u32;
                    i += 1;
                    k += 1;
                }
                o.push(v as u8);
            }
            b'x' if i < b.len() && b[i].is_ascii_hexdigit() => {
                let mut v = 0;
                let mut k = 0;
                while k < 2 && i < b.len() && b[i].is_ascii_hexdigit() {
                    v = v * 16 + (b[i] as char).to_digit(16).unwrap();
                    i += 1;
                    k += 1;
                }
                o.push(v as u8);
            }
            c => o.push(c),
        }
    }
    String::from_utf8(o).map_err(|_| "a value is not UTF-8".to_string())
}

type Row = Vec<String>;

/// A complete data file: rows of `ncols` values, then the terminator, then nothing but line ends.
fn parse_data(b: &[u8], ncols: usize) -> Result<Vec<Row>, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not UTF-8".to_string())?;
    let mut out = Vec::new();
    let mut rest = s;
    loop {
        let n = rest.find('\n').ok_or_else(|| format!("ends without terminator after {} rows and {:?}", out.len(), rest.chars().take(80).collect::<String>()))?;
        let (line, tail) = (&rest[..n], &rest[n + 1..]);
        rest = tail;
        if line == "\\." {
            break;
        }
        let cols: Vec<&str> = line.split('\t').collect();
        if cols.len() != ncols {
            return Err(format!("row {} has {} columns, {} expected: {:?}", out.len(), cols.len(), ncols, line.chars().take(120).collect::<String>()));
        }
        out.push(cols.iter().map(|c| if *c == "\\N" { Ok(NULL.to_string()) } else { copy_unescape(c) }).collect::<Result<Row, String>>()?);
    }
    if !rest.chars().all(|c| c == '\n') {
        return Err(format!("data after the terminator: {:?}", rest.chars().take(80).collect::<String>()));
    }
    Ok(out)
}

/// table -> (data file, columns), as a restore of the dump takes them from the table of contents
pub fn parse_toc(b: &[u8]) -> BTreeMap<String, (String, Vec<String>)> {
    let find = |from: usize, pat: &[u8]| b[from..].windows(pat.len()).position(|w| w == pat).map(|p| from + p);
    let mut m = BTreeMap::new();
    let mut i = 0;
    while let Some(p) = find(i, b"COPY ") {
        let Some(e) = find(p, b" FROM stdin") else { break };
        let Some(d) = find(e, b".dat") else { break };
        let stmt = String::from_utf8_lossy(&b[p + 5..e]).into_owned();
        let mut f = d;
        while f > 0 && b[f - 1].is_ascii_digit() {
            f -= 1;
        }
        if let Some((t, c)) = stmt.split_once(" (") {
            let cols = c.trim_end_matches(')').split(", ").map(|c| c.trim_matches('"').to_string()).collect();
            m.insert(t.to_string(), (String::from_utf8_lossy(&b[f..d + 4]).into_owned(), cols));
        }
        i = d + 4;
    }
    m
}

// ------------------------------------------------------------------ expected content
fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}
fn sql_time(ms: i64) -> String {
    let (d, t) = (ms.div_euclid(86_400_000), ms.rem_euclid(86_400_000));
    let (y, m, day) = civil(d);
    let mut s = format!("{y:04}-{m:02}-{day:02} {:02}:{:02}:{:02}", t / 3_600_000, t / 60_000 % 60, t / 1000 % 60);
    if t % 1000 != 0 {
        s.push_str(format!(".{:03}", t % 1000).trim_end_matches('0'));
    }
    s
}
pub fn is_sql_time(s: &str) -> bool {
    let p: Vec<&str> = s.splitn(2, ' ').collect();
    p.len() == 2 && p[0].len() == 10 && p[1].len() >= 8 && p[1].bytes().all(|c| c.is_ascii_digit() || c == b':' || c == b'.')
}

fn tile(lat: i64, lon: i64) -> u64 {
    let x = ((lon as f64 / 1e9 + 180.0) * 65535.0 / 360.0).round() as u64;
    let y = ((lat as f64 / 1e9 + 90.0) * 65535.0 / 180.0).round() as u64;
    let mut t = 0;
    for i in (0..16).rev() {
        t = t << 2 | (x >> i & 1) << 1 | (y >> i & 1);
    }
    t
}
fn b(v: bool) -> String {
    if v { "t" } else { "f" }.to_string()
}
fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::N => "Node",
        Kind::W => "Way",
        Kind::R => "Relation",
    }
}

/// table -> columns in the order of the rows below
fn columns(t: &str) -> &'static [&'static str] {
    match t {
        "nodes" => &["node_id", "latitude", "longitude", "changeset_id", "visible", "timestamp", "tile", "version", "redaction_id"],
        "node_tags" => &["node_id", "version", "k", "v"],
        "ways" => &["way_id", "changeset_id", "timestamp", "version", "visible", "redaction_id"],
        "way_nodes" => &["way_id", "node_id", "version", "sequence_id"],
        "way_tags" => &["way_id", "k", "v", "version"],
        "relations" => &["relation_id", "changeset_id", "timestamp", "version", "visible", "redaction_id"],
        "relation_members" => &["relation_id", "member_type", "member_id", "member_role", "version", "sequence_id"],
        "relation_tags" => &["relation_id", "k", "v", "version"],
        "current_nodes" => &["id", "latitude", "longitude", "changeset_id", "visible", "timestamp", "tile", "version"],
        "current_node_tags" => &["node_id", "k", "v"],
        "current_ways" => &["id", "changeset_id", "timestamp", "visible", "version"],
        "current_way_nodes" => &["way_id", "node_id", "sequence_id"],
        "current_way_tags" => &["way_id", "k", "v"],
        "current_relations" => &["id", "changeset_id", "timestamp", "visible", "version"],
        "current_relation_members" => &["relation_id", "member_type", "member_id", "member_role", "sequence_id"],
        "current_relation_tags" => &["relation_id", "k", "v"],
        "changesets" => &["id", "user_id", "created_at", "min_lat", "max_lat", "min_lon", "max_lon", "closed_at", "num_changes"],
        "users" => &[
            "email", "id", "pass_crypt", "creation_time", "display_name", "data_public", "description", "home_lat", "home_lon", "home_zoom",
            "pass_salt", "email_valid", "new_email", "creation_ip", "languages", "status", "terms_agreed", "consider_pd", "auth_uid",
            "preferred_editor", "terms_seen", "description_format", "changesets_count", "traces_count", "diary_entries_count",
            "image_use_gravatar", "auth_provider", "home_tile", "tou_agreed",
        ],
        _ => unreachable!(),
    }
}

type Tables = BTreeMap<&'static str, Vec<Row>>;

/// The rows an ordered element history gives; changesets as (id, user_id), users as (id, display_name).
fn rows_of(els: &[El]) -> Tables {
    let mut t: Tables = BTreeMap::new();
    for k in [
        "nodes", "node_tags", "ways", "way_nodes", "way_tags", "relations", "relation_members", "relation_tags", "current_nodes",
        "current_node_tags", "current_ways", "current_way_nodes", "current_way_tags", "current_relations", "current_relation_members",
        "current_relation_tags", "changesets", "users",
    ] {
        t.insert(k, vec![]);
    }
    let mut users = BTreeMap::new();
    let mut changesets = BTreeMap::new();
    let mut newest: BTreeMap<(Kind, i64), i32> = BTreeMap::new();
    for e in els {
        let n = newest.entry((e.kind, e.id)).or_insert(e.version);
        *n = (*n).max(e.version);
    }
    for e in els {
        users.insert(e.uid, e.user.clone());
        changesets.insert(e.changeset, e.uid);
        let cur = e.visible && newest[&(e.kind, e.id)] == e.version;
        let (id, ver, cs, ts, vis) = (e.id.to_string(), e.version.to_string(), e.changeset.to_string(), sql_time(e.ts), b(e.visible));
        let mut add = |name: &'static str, row: Row| t.get_mut(name).unwrap().push(row);
        match e.kind {
            Kind::N => {
                let (la, lo, ti) = ((e.lat / 100).to_string(), (e.lon / 100).to_string(), tile(e.lat, e.lon).to_string());
                add("nodes", vec![id.clone(), la.clone(), lo.clone(), cs.clone(), vis.clone(), ts.clone(), ti.clone(), ver.clone(), NULL.into()]);
                if cur {
                    add("current_nodes", vec![id.clone(), la, lo, cs, vis, ts, ti, ver.clone()]);
                }
                for (k, v) in &e.tags {
                    add("node_tags", vec![id.clone(), ver.clone(), k.clone(), v.clone()]);
                    if cur {
                        add("current_node_tags", vec![id.clone(), k.clone(), v.clone()]);
                    }
                }
            }
            Kind::W => {
                add("ways", vec![id.clone(), cs.clone(), ts.clone(), ver.clone(), vis.clone(), NULL.into()]);
                if cur {
                    add("current_ways", vec![id.clone(), cs, ts, vis, ver.clone()]);
                }
                for (i, n) in e.refs.iter().enumerate() {
                    add("way_nodes", vec![id.clone(), n.to_string(), ver.clone(), (i + 1).to_string()]);
                    if cur {
                        add("current_way_nodes", vec![id.clone(), n.to_string(), (i + 1).to_string()]);
                    }
                }
                for (k, v) in &e.tags {
                    add("way_tags", vec![id.clone(), k.clone(), v.clone(), ver.clone()]);
                    if cur {
                        add("current_way_tags", vec![id.clone(), k.clone(), v.clone()]);
                    }
                }
            }
            Kind::R => {
                add("relations", vec![id.clone(), cs.clone(), ts.clone(), ver.clone(), vis.clone(), NULL.into()]);
                if cur {
                    add("current_relations", vec![id.clone(), cs, ts, vis, ver.clone()]);
                }
                for (i, (k, m, role)) in e.members.iter().enumerate() {
                    let (k, m, i) = (kind_name(*k).to_string(), m.to_string(), (i + 1).to_string());
                    add("relation_members", vec![id.clone(), k.clone(), m.clone(), role.clone(), ver.clone(), i.clone()]);
                    if cur {
                        add("current_relation_members", vec![id.clone(), k, m, role.clone(), i]);
                    }
                }
                for (k, v) in &e.tags {
                    add("relation_tags", vec![id.clone(), k.clone(), v.clone(), ver.clone()]);
                    if cur {
                        add("current_relation_tags", vec![id.clone(), k.clone(), v.clone()]);
                    }
                }
            }
        }
    }
    t.insert("changesets", changesets.iter().map(|(c, u)| vec![c.to_string(), u.to_string()]).collect());
    t.insert("users", users.iter().map(|(u, n)| vec![u.to_string(), n.clone()]).collect());
    t
}

fn show(r: &Row) -> String {
    format!("{r:?}").chars().take(300).collect()
}

/// Every file of the dump complete and terminated, the element tables holding exactly these rows.
pub fn judge_dump(dir: &Path, els: &[El]) -> Result<(), String> {
    let toc = parse_toc(&write::read_file(&dir.join("toc.dat"))?);
    if toc.len() < 30 {
        return Err(format!("table of contents lists {} tables", toc.len()));
    }
    let mut files = BTreeSet::new();
    let want = rows_of(els);
    let mut seen = 0;
    let mut changesets = BTreeSet::new();
    for (table, (file, cols)) in &toc {
        if !files.insert(file) {
            return Err(format!("two tables share {file}"));
        }
        let name = table.trim_start_matches("public.");
        let data = write::read_file(&dir.join(file)).map_err(|e| format!("table {name}: {e}"))?;
        let rows = parse_data(&data, cols.len()).map_err(|e| format!("table {name} ({file}): {e}"))?;
        let at = |c: &str| cols.iter().position(|x| x == c).ok_or(format!("table {name} has no column {c}"));
        if name == "changesets" {
            for r in &rows {
                if !is_sql_time(&r[at("created_at")?]) || !is_sql_time(&r[at("closed_at")?]) || r[at("num_changes")?].parse::<i64>().is_err() {
                    return Err(format!("malformed changeset {}", show(r)));
                }
                changesets.insert(r[at("id")?].clone());
            }
        }
        if name == "users" {
            let mut mails = BTreeSet::new();
            for r in &rows {
                if !is_sql_time(&r[at("creation_time")?]) || !mails.insert(r[at("email")?].clone()) {
                    return Err(format!("malformed user {}", show(r)));
                }
            }
        }
        let Some(w) = want.get(name) else { continue };
        seen += 1;
        let pick: Vec<usize> = match name {
            "changesets" => vec![at("id")?, at("user_id")?],
            "users" => vec![at("id")?, at("display_name")?],
            _ => columns(name).iter().map(|c| at(c)).collect::<Result<_, _>>()?,
        };
        let mut got: Vec<Row> = rows.iter().map(|r| pick.iter().map(|i| r[*i].clone()).collect()).collect();
        let mut w = w.clone();
        got.sort();
        w.sort();
        if got != w {
            let miss = w.iter().find(|r| w.iter().filter(|x| x == r).count() > got.iter().filter(|x| x == r).count());
            let more = got.iter().find(|r| got.iter().filter(|x| x == r).count() > w.iter().filter(|x| x == r).count());
            return Err(format!(
                "table {name}: {} rows expected, {} found{}{}",
                w.len(),
                got.len(),
                miss.map(|r| format!("; missing {}", show(r))).unwrap_or_default(),
                more.map(|r| format!("; not expected {}", show(r))).unwrap_or_default()
            ));
        }
    }
    if seen != want.len() {
        return Err(format!("{} of {} element tables are in the table of contents", seen, want.len()));
    }
    if let Some((file, cols)) = toc.get("public.changeset_tags") {
        let rows = parse_data(&write::read_file(&dir.join(file))?, cols.len())?;
        let mut keys = BTreeSet::new();
        for r in rows {
            if !changesets.contains(&r[0]) {
                return Err(format!("changeset tag without changeset {}", show(&r)));
            }
            if !keys.insert((r[0].clone(), r[1].clone())) {
                return Err(format!("changeset tag twice {}", show(&r)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ generators
pub fn gen_els(c: &Case) -> Vec<El> {
    let mut r = c.rng("els");
    let many = r.chance(8);
    let o = GenOpts {
        text: if c.flag("plain") { Text::Plain } else { Text::Wild },
        history: *r.pick(&[0, 15, 60]),
        deleted_pct: *r.pick(&[0, 15, 50]),
        users: if many { r.range(20, 400) } else { r.range(1, 6) } as u64,
        negative_ids: r.chance(12),
        changesets: if many { r.range(50, 400) } else { r.range(1, 9) } as u64,
        max_tags: if c.flag("plain") { 2 } else { 4 },
        ts_step: if c.flag("foreign") { 1 } else { 1000 },
        ..Default::default()
    };
    let mut els = model::elements(&mut r, c.u("n"), c.u("w"), c.u("r"), &o);
    if c.flag("edited") {
        // the same dump a little later: other digits and letters, the same lengths
        for e in els.iter_mut().filter(|_| r.chance(70)) {
            let v = e.lon / 100;
            if v % 10 != 0 {
                e.lon = (v - v % 10 + v.signum() * (9 - v.abs() % 10)) * 100;
            }
            e.visible = !e.visible;
            for t in e.tags.iter_mut() {
                t.1 = t.1.replace('a', "\u{1}").replace('b', "a").replace('\u{1}', "b");
            }
        }
    }
    els
}
fn gen_sizes(r: &mut Rng, c: &mut Case) {
    match r.below(24) {
        0 => {
            write::counts(r, c, 300);
            c.set("plain", 1);
        }
        1..=5 => write::counts(r, c, 40),
        _ => write::counts(r, c, 12),
    }
}
pub fn gen_write(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    gen_sizes(r, &mut c);
    c.set("sent_pct", *r.pick(&[0, 0, 10]));
    c.set("after", r.range(0, 1));
    c.set("again", r.chance(8) as i64);
    if r.chance(15) {
        c.set("older", r.range(1, 40));
    }
    knobs::soft_io(r, &mut c);
    if r.chance(20) {
        c.fault(rt::F_CLOCK, *r.pick(&[1000, 20_000]));
    }
    c
}
fn nothing(_: &Case, _: &Ctx) {}

pub fn write_dump(c: &Case, dir: PathBuf, els: &[El]) -> Result<DumpWriter, anyhow::Error> {
    let mut r = c.rng("feed");
    let mut w = DumpWriter::new(dir, 0)?;
    for e in els {
        if r.chance(c.get("sent_pct") as u64) {
            w.write_element(Element::Sentinel)?;
        }
        w.write_element(to_lib(e))?;
        rt::progress();
    }
    w.close()?;
    if c.flag("again") {
        // by a caller and by what it calls
        w.close()?;
    }
    Ok(w)
}

/// The files of the dump bear an old date, as copying and unpacking leave them.
pub fn aged(dir: &Path, seconds: u64) {
    let when = std::time::UNIX_EPOCH + std::time::Duration::from_secs(seconds);
    for f in std::fs::read_dir(dir).unwrap().flatten() {
        if f.path().is_file() {
            let _ = std::fs::OpenOptions::new().write(true).open(f.path()).and_then(|f| f.set_modified(when));
        }
    }
}

/// a dump of something else, written to the same folder before
fn older(c: &Case, dir: &Path) {
    if c.get("older") > 0 {
        let mut o = c.clone();
        o.set("data_seed", c.get("data_seed") ^ 0x5555).set("sent_pct", 0);
        for k in ["n", "w", "r"] {
            o.set(k, c.get("older"));
        }
        let els = gen_els(&o);
        let _ = catch_unwind(AssertUnwindSafe(|| write_dump(&o, dir.to_path_buf(), &els)));
    }
}

fn run_write(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let els = gen_els(c);
    let dir = ctx.path("dump");
    older(c, &dir);
    let res = catch_unwind(AssertUnwindSafe(|| write_dump(c, dir.clone(), &els)));
    if let Ok(Ok(_)) = res {
        // from here on the dump must be complete, whatever happens to the process
        rt::user_add(3, 1);
    }
    let hard = rt::hard_faults();
    let out = match res {
        Ok(Ok(w)) => {
            if c.get("after") == 0 {
                // killed right after close: nothing that is only in memory survives
                std::mem::forget(w);
            } else {
                drop(w);
            }
            None
        }
        Ok(Err(e)) => Some(format!("writing failed although nothing went wrong: {e:#}")),
        Err(p) => Some(format!("writing panicked although nothing went wrong: {}", panic_text(&p))),
    };
    rt::freeze();
    match out {
        None => {
            rt::user_add(0, els.len() as u64);
            judge_dump(&dir, &els)
        }
        Some(e) if hard == 0 => Err(e),
        Some(_) => {
            rt::user_add(1, 1);
            Ok(())
        }
    }
}
fn gen_write_faults(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_write(r, t);
    c.set("filter", if r.chance(40) { r.range(0, 4) } else { r.range(5, DUMP_FILTERS.len() as i64 - 1) });
    knobs::hard_write(r, &mut c);
    // few writes reach a single table: make them count
    if r.chance(60) {
        for k in [rt::F_WRITE_EIO, rt::F_ENOSPC, rt::F_ENOSPC_ONCE] {
            let key = format!("f.{k:02}");
            if c.get(&key) > 0 {
                c.set(&key, *r.pick(&[60_000, 300_000]));
            }
        }
    }
    if r.chance(20) {
        c.fault(rt::F_META_FAIL, 300_000);
    }
    c
}
/// everything, all tables, some of them, or the file of one table
const DUMP_FILTERS: &[&str] = &[
    "", ".dat", "toc.dat", "/42", "dump", "4210.dat", "4212.dat", "4214.dat", "4216.dat", "4218.dat", "4219.dat", "4221.dat",
    "4222.dat", "4224.dat", "4225.dat", "4227.dat", "4228.dat", "4230.dat", "4231.dat", "4232.dat", "4234.dat", "4235.dat", "4236.dat",
    "4238.dat", "4240.dat", "4242.dat", "4244.dat", "4245.dat", "4247.dat", "4248.dat", "4250.dat", "4252.dat", "4254.dat", "4256.dat",
    "4257.dat", "4259.dat", "4260.dat", "4261.dat", "4263.dat", "4265.dat", "4267.dat", "4269.dat", "4271.dat", "4273.dat", "4275.dat",
    "4277.dat", "4278.dat", "4279.dat", "4280.dat", "4282.dat", "4283.dat", "4285.dat", "4286.dat", "4288.dat", "4290.dat", "4292.dat",
    "4293.dat", "4294.dat",
];

fn gen_write_crash(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_write(r, t);
    write::crash(r, &mut c, 260);
    c
}
fn post_write(c: &Case, ctx: &Ctx) -> Result<(), String> {
    if rt::user_get(3) == 0 {
        return Ok(());
    }
    judge_dump(&ctx.path("dump"), &gen_els(c)).map_err(|e| format!("close had returned, yet {e}"))
}

// ------------------------------------------------------------------ reading
pub fn norm(mut v: Vec<El>) -> Vec<El> {
    for e in v.iter_mut() {
        e.tags.sort();
    }
    v
}

/// The whole dump as the reader gives it, checked for one end-of-type marker after each type.
pub fn read_dump(c: &Case, dir: PathBuf, tmp: PathBuf, times: usize) -> Result<Vec<Result<Vec<El>, String>>, anyhow::Error> {
    std::env::set_var("OSM_IO_SIM_SORT_CHUNK", c.u("chunk").max(1).to_string());
    let reader = DumpReader::new(dir, tmp.clone())?;
    if c.get("vanish") > 0 {
        // somebody tidies up the folder of temporary files
        let mut names: Vec<PathBuf> = std::fs::read_dir(&tmp)?.map(|e| Ok(e?.path())).collect::<std::io::Result<_>>()?;
        names.sort();
        if !names.is_empty() {
            let _ = std::fs::remove_file(&names[c.u("vanish") % names.len()]);
        }
    }
    let mut all = Vec::new();
    for _ in 0..times {
        let mut got = Vec::new();
        let mut marks = Vec::new();
        for e in reader.elements()? {
            match from_lib(&e) {
                Some(e) => got.push(e),
                None => marks.push(got.len()),
            }
            rt::progress();
        }
        let n = got.iter().filter(|e| e.kind == Kind::N).count();
        let w = got.iter().filter(|e| e.kind == Kind::W).count();
        all.push(if marks != [n, n + w, got.len()] {
            Err(format!("end-of-type markers after {marks:?} elements; {n} nodes, {w} ways, {} elements", got.len()))
        } else {
            Ok(got)
        });
    }
    Ok(all)
}

pub fn judge_read(want: &[El], got: Vec<Result<Vec<El>, String>>) -> Result<(), String> {
    for g in got {
        if let Some(d) = diff(want, &norm(g?)) {
            return Err(format!("reading the dump: {d}"));
        }
    }
    Ok(())
}

fn gen_read(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    gen_sizes(r, &mut c);
    c.set("chunk", *r.pick(&[10_000_000, 10_000_000, 2000, 500, 100, 20]));
    if c.get("n") + c.get("w") + c.get("r") > 150 {
        let k = c.get("chunk");
        c.set("chunk", k.max(500));
    }
    c.set("times", *r.pick(&[1, 1, 1, 2]));
    if r.chance(12) {
        c.set("older", r.range(1, 20));
    }
    knobs::sched(r, &mut c);
    knobs::soft_io(r, &mut c);
    c.set("ncpu", *r.pick(&[1, 2, 2, 3, 4, 8]));
    c
}

fn run_round_trip(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let els = gen_els(c);
    let want = norm(els.clone());
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<_, anyhow::Error> {
        if c.get("older") > 0 {
            // the same folders were used for another dump before
            older(c, &ctx.path("dump"));
            read_dump(c, ctx.path("dump"), ctx.path("sort"), 1)?;
        }
        drop(write_dump(c, ctx.path("dump"), &els)?);
        read_dump(c, ctx.path("dump"), ctx.path("sort"), c.u("times").max(1))
    }));
    rt::freeze();
    match res {
        Ok(Ok(g)) => {
            rt::user_add(0, want.len() as u64);
            judge_read(&want, g)
        }
        Ok(Err(e)) => Err(format!("failed although nothing went wrong: {e:#}")),
        Err(p) => Err(format!("panicked although nothing went wrong: {}", panic_text(&p))),
    }
}

// ---- dumps as the database writes them
fn quote(c: &str) -> String {
    if c == "timestamp" {
        "\"timestamp\"".into()
    } else {
        c.into()
    }
}

fn is_text(c: &str) -> bool {
    matches!(c, "k" | "v" | "member_role" | "display_name" | "description")
}

pub fn foreign_dump(c: &Case, dir: &Path) -> Vec<El> {
    let els = gen_els(c);
    let mut r = c.rng("foreign");
    std::fs::create_dir_all(dir).unwrap();
    let mut t = rows_of(&els);
    let style = r.below(2);
    // users and changesets as they are in the database, some without any element
    let mut users = std::mem::take(t.get_mut("users").unwrap());
    let mut changesets = std::mem::take(t.get_mut("changesets").unwrap());
    for i in 0..r.below(3) {
        users.push(vec![(900_000 + i).to_string(), model::text(&mut r, Text::Wild)]);
        for k in 0..r.below(3) {
            changesets.push(vec![(5_000_000 + i * 10 + k).to_string(), (900_000 + i).to_string()]);
        }
    }
    let when = |r: &mut Rng| sql_time(r.range(1_100_000_000_000, 1_600_000_000_000));
    for row in &changesets {
        let bare = row[0].parse::<i64>().unwrap() >= 5_000_000 && r.chance(60);
        let mut x: Row = vec![row[0].clone(), row[1].clone(), when(&mut r)];
        for _ in 0..4 {
            x.push(if bare { NULL.into() } else { r.range(-900_000_000, 900_000_000).to_string() });
        }
        x.push(when(&mut r));
        x.push(if bare { "0".into() } else { r.range(0, 50_000).to_string() });
        t.get_mut("changesets").unwrap().push(x);
    }
    for row in &users {
        let null = |r: &mut Rng, s: String| if r.chance(50) { NULL.to_string() } else { s };
        let mut x: Row = Vec::new();
        for col in columns("users") {
            let v = match *col {
                "email" => format!("u{}@example.com", row[0]),
                "id" => row[0].clone(),
                "pass_crypt" => "0123456789abcdef".into(),
                "creation_time" => when(&mut r),
                "display_name" => row[1].clone(),
                "data_public" | "email_valid" | "consider_pd" | "terms_seen" | "image_use_gravatar" => b(r.chance(50)),
                "description" => model::text(&mut r, Text::Wild),
                "home_lat" | "home_lon" => null(&mut r, "51.5074".into()),
                "home_zoom" => null(&mut r, "3".into()),
                "pass_salt" | "creation_ip" | "preferred_editor" => null(&mut r, "x".into()),
                "new_email" | "auth_uid" | "auth_provider" | "languages" => null(&mut r, model::text(&mut c.rng("l"), Text::Wild)),
                "status" => r.pick(&["pending", "active", "confirmed", "suspended", "deleted"]).to_string(),
                "terms_agreed" | "tou_agreed" => {
                    let w = when(&mut r);
                    null(&mut r, w)
                }
                "description_format" => r.pick(&["html", "markdown", "text"]).to_string(),
                "changesets_count" | "traces_count" | "diary_entries_count" => r.range(0, 999).to_string(),
                "home_tile" => null(&mut r, "2147483648".into()),
                c => unreachable!("{c}"),
            };
            x.push(v);
        }
        t.get_mut("users").unwrap().push(x);
    }
    // redacted versions stay versions
    for name in ["nodes", "ways", "relations"] {
        for row in t.get_mut(name).unwrap() {
            if r.chance(15) {
                *row.last_mut().unwrap() = r.range(1, 99).to_string();
            }
        }
    }
    let mut toc: Vec<u8> = b"PGDMP\x01\x0e\x00\x04\x08\x03\x01\x01".to_vec();
    let mut names: Vec<&str> = t.keys().copied().filter(|k| !k.starts_with("current_")).collect();
    if r.chance(50) {
        names.push("current_way_tags");
    }
    r.shuffle(&mut names);
    let mut num = r.range(100, 3000);
    for name in names {
        num += r.range(1, 40);
        let mut order: Vec<usize> = (0..columns(name).len()).collect();
        if c.flag("shuffle_cols") {
            r.shuffle(&mut order);
        }
        let mut rows = t[name].clone();
        match c.get("shuffle_rows") {
            0 => {}
            1 => r.shuffle(&mut rows),
            _ => rows.reverse(),
        }
        let mut out = String::new();
        for row in rows {
            let cells: Vec<String> = order.iter().map(|i| if row[*i] == NULL { "\\N".to_string() } else { copy_escape(&row[*i], &mut r, if is_text(columns(name)[*i]) { style } else { 0 }) }).collect();
            out.push_str(&cells.join("\t"));
            out.push('\n');
        }
        out.push_str(if r.chance(70) { "\\.\n\n\n" } else { "\\.\n" });
        std::fs::write(dir.join(format!("{num}.dat")), out).unwrap();
        let cols: Vec<String> = order.iter().map(|i| quote(columns(name)[*i])).collect();
        toc.extend_from_slice(format!("\x01\x00\x00\x00CREATE TABLE public.{name} (\n    id bigint\n);\x00").as_bytes());
        toc.extend_from_slice(format!("9999\x00COPY public.{name} ({}) FROM stdin;\n\x00\x06\x00public\x00postgres\x00false\x00{num}.dat\x00", cols.join(", ")).as_bytes());
    }
    std::fs::write(dir.join("toc.dat"), toc).unwrap();
    els
}

pub fn gen_foreign(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_read(r, t);
    c.set("foreign", 1).set("shuffle_rows", r.range(0, 2)).set("shuffle_cols", r.chance(50) as i64);
    c
}
pub fn setup_foreign(c: &Case, ctx: &Ctx) {
    foreign_dump(c, &ctx.path("dump"));
    std::fs::create_dir_all(ctx.path("sort")).unwrap();
}
fn run_foreign(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let want = norm(gen_els(c));
    let res = catch_unwind(AssertUnwindSafe(|| read_dump(c, ctx.path("dump"), ctx.path("sort"), c.u("times").max(1))));
    let hard = rt::hard_faults();
    rt::freeze();
    match res {
        Ok(Ok(g)) => {
            rt::user_add(0, want.len() as u64);
            judge_read(&want, g)
        }
        Ok(Err(e)) if hard == 0 => Err(format!("failed although nothing went wrong: {e:#}")),
        Err(p) if hard == 0 => Err(format!("panicked although nothing went wrong: {}", panic_text(&p))),
        _ => {
            rt::user_add(1, 1);
            Ok(())
        }
    }
}

// C13
pub const READ_FILTERS: &[&str] = &["", ".dat", "dump/", "sorted-", "part-", "toc.dat", "sort/"];
pub fn gen_storage(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_foreign(r, t);
    c.set("shuffle_cols", 0);
    c.set("filter", r.range(0, READ_FILTERS.len() as i64 - 1));
    if r.chance(60) {
        knobs::hard_read(r, &mut c);
    }
    if r.chance(60) {
        knobs::hard_write(r, &mut c);
        knobs::thread_fail(r, &mut c);
    }
    if r.chance(20) {
        c.fault(rt::F_META_FAIL, *r.pick(&[30_000, 200_000]));
    }
    c
}
/// a sorted file disappears before it is read
fn gen_vanish(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_foreign(r, t);
    c.set("shuffle_cols", 0).set("vanish", r.range(1, 1000)).set("times", 1);
    c
}
fn run_vanish(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let want = norm(gen_els(c));
    let res = catch_unwind(AssertUnwindSafe(|| read_dump(c, ctx.path("dump"), ctx.path("sort"), 1)));
    rt::freeze();
    match res {
        Ok(Ok(g)) => {
            rt::user_add(0, want.len() as u64);
            judge_read(&want, g).map_err(|e| format!("a sorted file is gone, yet reading ended normally: {e}"))
        }
        _ => {
            rt::user_add(1, 1);
            Ok(())
        }
    }
}
/// one table cut short at an arbitrary byte
fn gen_cut(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_foreign(r, t);
    c.set("shuffle_cols", 0).set("cut", r.range(0, 1 << 40)).set("times", 1);
    c
}
fn cut_table(c: &Case, dir: &Path) -> bool {
    let toc = parse_toc(&std::fs::read(dir.join("toc.dat")).unwrap());
    let mut r = c.rng("cut");
    let k = r.next() ^ c.get("cut") as u64;
    let names: Vec<&String> = toc.keys().filter(|n| !n.starts_with("public.current_")).collect();
    let (file, cols) = &toc[names[(k % names.len() as u64) as usize]];
    let p = dir.join(file);
    let mut b = std::fs::read(&p).unwrap();
    // anywhere, or at the end of a row
    let mut at = ((k >> 8) % (b.len() as u64 + 1)) as usize;
    if r.chance(50) {
        while at > 0 && b[at - 1] != b'\n' {
            at -= 1;
        }
    }
    b.truncate(at);
    std::fs::write(&p, &b).unwrap();
    parse_data(&b, cols.len()).is_err()
}
fn setup_cut(c: &Case, ctx: &Ctx) {
    setup_foreign(c, ctx);
    if cut_table(c, &ctx.path("dump")) {
        std::fs::write(ctx.path("damaged"), "").unwrap();
    }
}
fn run_cut(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let want = norm(gen_els(c));
    let res = catch_unwind(AssertUnwindSafe(|| read_dump(c, ctx.path("dump"), ctx.path("sort"), 1)));
    rt::freeze();
    let damaged = ctx.path("damaged").exists();
    match res {
        Ok(Ok(mut g)) => {
            rt::user_add(0, want.len() as u64);
            if damaged {
                let same = g.pop().unwrap().map(|g| diff(&want, &norm(g)).is_none()).unwrap_or(false);
                return if same { Ok(()) } else { Err("a table file is cut off, yet reading the dump ended normally with other elements".into()) };
            }
            judge_read(&want, g)
        }
        _ if damaged => {
            rt::user_add(1, 1);
            Ok(())
        }
        Ok(Err(e)) => Err(format!("failed although nothing went wrong: {e:#}")),
        Err(p) => Err(format!("panicked although nothing went wrong: {}", panic_text(&p))),
    }
}

// ------------------------------------------------------------------ C14: PBF, dump, PBF
pub fn gen_pipe(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_read(r, t);
    c.set("plain", 0);
    c.set("times", 1);
    c.set("block", *r.pick(&[1, 2, 8, 64])).set("zlib", r.chance(60) as i64).set("par", r.chance(60) as i64);
    let total = c.get("n") + c.get("w") + c.get("r");
    c.set("buf", total + c.get("block") + 1);
    c
}
fn pipe_blocks(c: &Case) -> (Head, Vec<(Vec<El>, model::Layout)>) {
    let mut r = c.rng("blocks");
    let head = write::gen_head(&mut r);
    let els = gen_els(c);
    let k = r.range(1, 20) as usize;
    let mut blocks: Vec<(Vec<El>, model::Layout)> = Vec::new();
    for e in els {
        match blocks.last_mut() {
            Some((b, _)) if b.len() < k && b[0].kind == e.kind => b.push(e),
            _ => blocks.push((vec![e], model::Layout { zlib: c.flag("zlib"), ..Default::default() })),
        }
    }
    (head, blocks)
}
pub fn setup_pipe(c: &Case, ctx: &Ctx) {
    let (h, b) = pipe_blocks(c);
    std::fs::write(ctx.path("in.pbf"), model::encode_file(&h, &b).0).unwrap();
}
pub fn pipe(c: &Case, ctx: &Ctx) -> Result<(), anyhow::Error> {
    let src = Reader::new(&ctx.path("in.pbf"))?;
    let mut dw = DumpWriter::new(ctx.path("dump"), 0)?;
    for e in src.elements()? {
        dw.write_element(e)?;
        rt::progress();
    }
    dw.close()?;
    std::env::set_var("OSM_IO_SIM_SORT_CHUNK", c.u("chunk").max(1).to_string());
    let dr = DumpReader::new(ctx.path("dump"), ctx.path("sort"))?;
    let info = src.info().clone();
    if c.flag("par") {
        let mut w = ParallelWriter::from_file_info(c.u("buf"), c.u("block").max(1), ctx.path("out.pbf"), info, write::compression(c))?;
        w.write_header()?;
        for e in dr.elements()? {
            w.write_element(e)?;
            rt::progress();
        }
        w.close()
    } else {
        let mut w = Writer::from_file_info(ctx.path("out.pbf"), info, write::compression(c))?;
        w.write_header()?;
        for e in dr.elements()? {
            w.write_element(e)?;
            rt::progress();
        }
        w.close()
    }
}
fn run_pipe(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let (head, blocks) = pipe_blocks(c);
    let want = norm(blocks.into_iter().flat_map(|b| b.0).collect());
    let res = catch_unwind(AssertUnwindSafe(|| pipe(c, ctx)));
    rt::freeze();
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("pipeline failed although nothing went wrong: {e:#}")),
        Err(p) => return Err(format!("pipeline panicked although nothing went wrong: {}", panic_text(&p))),
    }
    rt::user_add(0, want.len() as u64);
    let b = write::read_file(&ctx.path("out.pbf"))?;
    let d = model::decode_file(&b, false).map_err(|e| format!("the written file is not valid: {e}"))?;
    if d.head.as_ref() != Some(&head) {
        return Err(format!("header of the source: {head:?}, header in the file: {:?}", d.head));
    }
    match diff(&want, &norm(d.els())) {
        Some(x) => Err(format!("elements at the end of the pipeline: {x}")),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ C16: several dumps at once
fn gen_many(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_read(r, t);
    write::counts(r, &mut c, 10);
    c.set("k", r.range(2, 3)).set("times", 1);
    let n = c.get("ncpu");
    c.set("ncpu", n.min(3));
    c
}
fn run_many(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let k = c.u("k").max(1);
    let mut hs = Vec::new();
    std::env::set_var("OSM_IO_SIM_SORT_CHUNK", c.u("chunk").max(1).to_string());
    for i in 0..k {
        let mut ci = c.clone();
        ci.set("data_seed", c.get("data_seed") + i as i64);
        let (d, s) = (ctx.path(&format!("dump{i}")), ctx.path(&format!("sort{i}")));
        hs.push(std::thread::spawn(move || {
            catch_unwind(AssertUnwindSafe(|| -> Result<_, anyhow::Error> {
                let els = gen_els(&ci);
                drop(write_dump(&ci, d.clone(), &els)?);
                let g = read_dump(&ci, d, s, 1)?;
                Ok((els, g))
            }))
        }));
    }
    let res: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    rt::freeze();
    for (i, r) in res.into_iter().enumerate() {
        match r {
            Ok(Ok((els, g))) => {
                judge_read(&norm(els.clone()), g).map_err(|e| format!("dump {i} of {k}: {e}"))?;
                judge_dump(&ctx.path(&format!("dump{i}")), &els).map_err(|e| format!("dump {i} of {k}: {e}"))?;
            }
            Ok(Err(e)) => return Err(format!("dump {i} of {k} failed although nothing went wrong: {e:#}")),
            Err(p) => return Err(format!("dump {i} of {k} panicked although nothing went wrong: {}", panic_text(&p))),
        }
    }
    Ok(())
}

pub static SCENARIOS: [Scenario; 11] = [
    Scenario { prop: "C10", name: "complete", weight: 1, gen: gen_write, setup: nothing, run: run_write, post: None, filters: &[] },
    Scenario { prop: "C10", name: "faults", weight: 3, gen: gen_write_faults, setup: nothing, run: run_write, post: None, filters: DUMP_FILTERS },
    Scenario { prop: "C10", name: "crash", weight: 1, gen: gen_write_crash, setup: nothing, run: run_write, post: Some(post_write), filters: &[] },
    Scenario { prop: "C11", name: "history", weight: 1, gen: gen_write, setup: nothing, run: run_write, post: None, filters: &[] },
    Scenario { prop: "C12", name: "round_trip", weight: 1, gen: gen_read, setup: nothing, run: run_round_trip, post: None, filters: &[] },
    Scenario { prop: "C12", name: "foreign", weight: 1, gen: gen_foreign, setup: setup_foreign, run: run_foreign, post: None, filters: &[] },
    Scenario { prop: "C13", name: "storage", weight: 3, gen: gen_storage, setup: setup_foreign, run: run_foreign, post: None, filters: READ_FILTERS },
    Scenario { prop: "C13", name: "vanished", weight: 1, gen: gen_vanish, setup: setup_foreign, run: run_vanish, post: None, filters: &[] },
    Scenario { prop: "C13", name: "cut_off", weight: 1, gen: gen_cut, setup: setup_cut, run: run_cut, post: None, filters: &[] },
    Scenario { prop: "C14", name: "pbf_dump_pbf", weight: 1, gen: gen_pipe, setup: setup_pipe, run: run_pipe, post: None, filters: &[] },
    Scenario { prop: "C16", name: "dumps_together", weight: 1, gen: gen_many, setup: nothing, run: run_many, post: None, filters: &[] },
];
