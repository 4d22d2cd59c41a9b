//! C30: reading and writing keep to their own files.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;

use super::{again, apidb, house, write};
use crate::fw::{Case, Ctx, Rng, Scenario};
use crate::model::to_lib;
use crate::rt;

#[derive(PartialEq, Clone)]
enum Entry {
    Folder,
    File(Vec<u8>),
    Link(PathBuf),
}
fn inventory(root: &Path) -> BTreeMap<String, Entry> {
    fn walk(root: &Path, p: &Path, m: &mut BTreeMap<String, Entry>) {
        let Ok(list) = std::fs::read_dir(p) else { return };
        for e in list.flatten() {
            let q = e.path();
            let name = q.strip_prefix(root).unwrap().to_string_lossy().into_owned();
            let Ok(t) = e.file_type() else { continue };
            if t.is_symlink() {
                m.insert(name, Entry::Link(std::fs::read_link(&q).unwrap_or_default()));
            } else if t.is_dir() {
                m.insert(name, Entry::Folder);
                walk(root, &q, m);
            } else {
                m.insert(name, Entry::File(std::fs::read(&q).unwrap_or_default()));
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(root, root, &mut m);
    m
}

/// What is there besides the files of the operation: a trailing / is a folder, -> a link.
const BY_PBF: &[&str] = &[
    "out.pbf.bak", "out.pbf~", "out", "OUT.PBF", ".out.pbf", "out.osm", "out.pbf.old", "out.pbf.1", "notes.txt", "empty/", "keep/", "keep/out.pbf", "keep/in.pbf",
    "latest.pbf->out.osm", "out.pbf.md5", "in.pbf.bak", "in.idx", "changes.osc",
];
const BY_DUMP: &[&str] = &[
    "README", "toc.dat.bak", "toc.tar", "restore.sql", "blobs.toc", "99999.dat", "toc", "old/", "old/toc.dat", "old/4208.dat", "users.csv", "empty/", "toc.dat~",
    "current->old", ".hidden",
];
const BY_SORT: &[&str] = &[
    "notes.txt", "sorted.txt", "sorted-by-hand.dat", "99999.dat", "mine/", "mine/x", "empty/", ".hidden", "toc.dat", "out.pbf", "link->notes.txt",
];

fn others(c: &Case, names: &[&str]) -> BTreeMap<String, Entry> {
    let mut r = c.rng("others");
    let mut m: BTreeMap<String, Entry> = BTreeMap::new();
    for n in names {
        let folder = n.split_once('/').map(|x| x.0.to_string());
        let absent = !r.chance(60) || folder.as_ref().is_some_and(|f| !n.ends_with('/') && !m.contains_key(f));
        let len = *r.pick(&[0, 1, 30, 5000]);
        let bytes: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
        if absent {
            continue;
        }
        if let Some((name, to)) = n.split_once("->") {
            m.insert(name.into(), Entry::Link(to.into()));
        } else if let Some(name) = n.strip_suffix('/') {
            m.insert(name.into(), Entry::Folder);
        } else {
            m.insert((*n).into(), Entry::File(bytes));
        }
    }
    m
}
fn lay(c: &Case, dir: &Path, names: &[&str]) {
    std::fs::create_dir_all(dir).unwrap();
    for (n, e) in others(c, names) {
        let p = dir.join(n);
        match e {
            Entry::Folder => std::fs::create_dir(p).unwrap(),
            Entry::File(b) => std::fs::write(p, b).unwrap(),
            Entry::Link(to) => std::os::unix::fs::symlink(to, p).unwrap(),
        }
    }
}
/// Everything else is as it was. `own`: nothing is new but this.
fn intact(c: &Case, dir: &Path, names: &[&str], own: Option<fn(&str) -> bool>, what: &str) -> Result<(), String> {
    let before = others(c, names);
    let now = inventory(dir);
    for (n, e) in &before {
        match (now.get(n), e) {
            (None, _) => return Err(format!("{what} has removed {n:?}, which is not its own")),
            (Some(Entry::File(b)), Entry::File(a)) if a != b => {
                return Err(format!("{what} has changed {n:?}, which is not its own: {} bytes before, {} now", a.len(), b.len()))
            }
            (Some(x), _) if x != e => return Err(format!("{what} has replaced {n:?}, which is not its own")),
            _ => {}
        }
    }
    if let Some(own) = own {
        if let Some(n) = now.keys().find(|n| !before.contains_key(*n) && !own(n)) {
            return Err(format!("{what} has left {n:?} behind"));
        }
    }
    Ok(())
}

fn place(ctx: &Ctx) -> Ctx {
    Ctx { dir: ctx.path("place") }
}

// ------------------------------------------------------------------ writing a PBF file
fn gen_pbf(r: &mut Rng, t: bool) -> Case {
    let mut c = again::gen_writing(r, t);
    if r.chance(30) {
        write::crash(r, &mut c, 60);
    }
    c
}
fn setup_pbf(c: &Case, ctx: &Ctx) {
    lay(c, &place(ctx).dir, BY_PBF);
    write::prior(c, &place(ctx));
}
fn run_pbf(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let mut els = write::arrival(c);
    els.truncate(c.u("give_up"));
    let end = if c.u("give_up") < 1 << 20 { 1 } else { c.get("end") };
    let res = catch_unwind(AssertUnwindSafe(|| again::write_pbf(c, &place(ctx), els, end)));
    let ok = matches!(res, Ok(Ok(()))) && end == 0;
    drop(res);
    if !ok {
        rt::user_add(1, 1);
    }
    rt::freeze();
    intact(c, &place(ctx).dir, BY_PBF, if ok { Some(|n| n == "out.pbf") } else { None }, "writing a PBF file")
}
fn post_pbf(c: &Case, ctx: &Ctx) -> Result<(), String> {
    intact(c, &place(ctx).dir, BY_PBF, None, "the writer that was killed")
}

// ------------------------------------------------------------------ reading a PBF file
fn gen_reading(r: &mut Rng, t: bool) -> Case {
    let mut c = house::gen_iteration(r, t);
    if r.chance(30) {
        write::crash(r, &mut c, 60);
    }
    c
}
fn setup_reading(c: &Case, ctx: &Ctx) {
    let p = place(ctx);
    lay(c, &p.dir, BY_PBF);
    house::setup_damaged(c, &p);
}
fn run_reading(c: &Case, ctx: &Ctx) -> Result<(), String> {
    for _ in 0..c.u("times").max(1) {
        if !matches!(catch_unwind(AssertUnwindSafe(|| house::read_somehow(c, &place(ctx).path("in.pbf")))), Ok(Ok(_))) {
            rt::user_add(1, 1);
        }
    }
    rt::freeze();
    post_reading(c, ctx)
}
fn post_reading(c: &Case, ctx: &Ctx) -> Result<(), String> {
    intact(c, &place(ctx).dir, BY_PBF, Some(|n| n == "in.pbf"), "reading a PBF file")
}

// ------------------------------------------------------------------ writing a dump
fn gen_dump(r: &mut Rng, t: bool) -> Case {
    let mut c = again::gen_dump_writing(r, t);
    if r.chance(30) {
        write::crash(r, &mut c, 260);
    }
    c
}
fn setup_dump(c: &Case, ctx: &Ctx) {
    lay(c, &place(ctx).dir, BY_DUMP);
    if c.rng("prior").chance(30) {
        // an older dump
        for n in ["toc.dat", "4208.dat", "4228.dat"] {
            std::fs::write(place(ctx).path(n), n.repeat(300)).unwrap();
        }
    }
}
fn run_dump(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let mut els = apidb::gen_els(c);
    els.truncate(c.u("give_up"));
    let finish = c.u("give_up") >= 1 << 20 && c.get("end") == 0;
    let dir = place(ctx).dir;
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
        if finish {
            apidb::write_dump(c, dir.clone(), &els)?;
            return Ok(());
        }
        let mut w = DumpWriter::new(dir.clone(), 0)?;
        for e in &els {
            w.write_element(to_lib(e))?;
            rt::progress();
        }
        Ok(())
    }));
    let ok = matches!(res, Ok(Ok(()))) && finish;
    drop(res);
    if !ok {
        rt::user_add(1, 1);
    }
    rt::freeze();
    intact(c, &dir, BY_DUMP, if ok { Some(of_dump) } else { None }, "writing a dump")
}
fn of_dump(n: &str) -> bool {
    n == "toc.dat" || n.strip_suffix(".dat").is_some_and(|d| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()))
}
fn post_dump(c: &Case, ctx: &Ctx) -> Result<(), String> {
    intact(c, &place(ctx).dir, BY_DUMP, None, "the dump writer that was killed")
}

// ------------------------------------------------------------------ reading a dump
fn gen_sort(r: &mut Rng, t: bool) -> Case {
    let mut c = if r.chance(50) { apidb::gen_storage(r, t) } else { apidb::gen_foreign(r, t) };
    if r.chance(30) {
        write::crash(r, &mut c, 300);
    }
    c
}
fn setup_sort(c: &Case, ctx: &Ctx) {
    lay(c, &place(ctx).dir, BY_SORT);
    apidb::setup_foreign(c, ctx);
}
fn run_sort(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let res = catch_unwind(AssertUnwindSafe(|| apidb::read_dump(c, ctx.path("dump"), place(ctx).dir, c.u("times").max(1))));
    let ok = matches!(res, Ok(Ok(_)));
    drop(res);
    if !ok {
        rt::user_add(1, 1);
    }
    rt::freeze();
    // what stays are the sorted tables: few files, no folders
    intact(c, &place(ctx).dir, BY_SORT, None, "reading a dump")?;
    let before = others(c, BY_SORT);
    let new: Vec<_> = inventory(&place(ctx).dir).into_iter().filter(|x| !before.contains_key(&x.0)).collect();
    if ok && (new.len() > 10 || new.iter().any(|x| !matches!(x.1, Entry::File(_)))) {
        return Err(format!("reading a dump has left {} files behind for 10 tables, among them {:?}", new.len(), new.iter().map(|x| x.0.clone()).take(5).collect::<Vec<_>>()));
    }
    Ok(())
}
fn post_sort(c: &Case, ctx: &Ctx) -> Result<(), String> {
    intact(c, &place(ctx).dir, BY_SORT, None, "the dump reader that was killed")
}

pub static SCENARIOS: [Scenario; 4] = [
    Scenario { prop: "C30", name: "pbf_writing", weight: 3, gen: gen_pbf, setup: setup_pbf, run: run_pbf, post: Some(post_pbf), filters: &[] },
    Scenario { prop: "C30", name: "pbf_reading", weight: 1, gen: gen_reading, setup: setup_reading, run: run_reading, post: Some(post_reading), filters: &[] },
    Scenario { prop: "C30", name: "dump_writing", weight: 2, gen: gen_dump, setup: setup_dump, run: run_dump, post: Some(post_dump), filters: &[] },
    Scenario { prop: "C30", name: "dump_reading", weight: 2, gen: gen_sort, setup: setup_sort, run: run_sort, post: Some(post_sort), filters: apidb::READ_FILTERS },
];
