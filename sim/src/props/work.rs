//! C28: four times the data, four times the work.
use std::path::{Path, PathBuf};

use osm_io::osm::apidb_dump::read::reader::Reader as DumpReader;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;

use super::{knobs, write};
use crate::fw::{Case, Ctx, Rng, Scenario};
use crate::model::{self, to_lib, El, Head, Kind, Layout};
use crate::rt;

const FACTOR: usize = 4;

/// Elements that all cost the same: what differs between them has the same length.
/// keys: n, kinds, users and changesets (0 few, 1 one for each element), texts (0 few, 1 of its own), refs, tags, versions
fn els(c: &Case, times: usize) -> Vec<El> {
    let wide = c.flag("wide");
    let n = c.u("n").max(3) * if wide { 1 } else { times };
    let inner = if wide { times } else { 1 };
    let own = |k: &str, i: usize| if c.flag(k) { i } else { i % 7 };
    let (versions, deleted) = (c.u("versions").max(1), c.flag("deleted"));
    let mut out = Vec::new();
    for i in 0..n {
        let kind = match c.get("kinds") {
            0 => Kind::N,
            1 => Kind::W,
            2 => Kind::R,
            _ => [Kind::N, Kind::W, Kind::R][i * 3 / n],
        };
        let uid = 100_000 + own("users", i);
        let tag = |k: usize| (format!("key {:05}", k % 10_000), format!("text {:08}", own("texts", i * c.u("tags") * inner + k)));
        let list = |k: usize| (100_000 + (i * 31 + k * 7) % 800_000) as i64;
        let (w, r) = (kind == Kind::W, kind == Kind::R);
        out.push(El {
            kind,
            id: 100_000 + (i / versions) as i64,
            version: 1 + (i % versions) as i32,
            lat: if kind == Kind::N { (100_000_000 + (i as i64 * 7919) % 800_000_000) / 100 * 100 } else { 0 },
            lon: if kind == Kind::N { (100_000_000 + (i as i64 * 104_729) % 800_000_000) / 100 * 100 } else { 0 },
            ts: 1_300_000_000_000 + i as i64 * 1000,
            changeset: 100_000 + own("changesets", i) as i64,
            uid: uid as i32,
            user: format!("user {uid}"),
            visible: !(deleted && i % versions == versions - 1),
            tags: (0..c.u("tags") * inner).map(tag).collect(),
            refs: if w { (0..c.u("refs") * inner).map(list).collect() } else { vec![] },
            members: if r { (0..c.u("refs") * inner).map(|k| ([Kind::N, Kind::W, Kind::R][k % 3], list(k), format!("role {}", k % 9))).collect() } else { vec![] },
        });
    }
    out
}
fn shape(r: &mut Rng, c: &mut Case) {
    c.set("kinds", r.range(0, 3)).set("wide", r.chance(25) as i64);
    for k in ["users", "changesets", "texts"] {
        c.set(k, r.chance(60) as i64);
    }
    c.set("versions", *r.pick(&[1, 1, 1, 2, 5])).set("deleted", r.chance(30) as i64);
    c.set("tags", r.range(1, 3)).set("refs", r.range(1, 6));
    c.set("n", r.range(500, 900));
    if c.flag("wide") {
        c.set("n", r.range(3, 6)).set("tags", *r.pick(&[3, 150, 400])).set("refs", r.range(150, 500));
    }
    c.set("zlib", r.chance(50) as i64).set("per", if r.chance(40) { 1 << 20 } else { r.range(20, 100) });
    c.set("ncpu", r.range(1, 2));
    knobs::sched(r, c);
    let pm = c.get("s.pm");
    if pm > 0 {
        c.set("s.pm", pm.max(2000));
    }
    if r.chance(30) {
        c.fault(rt::F_EINTR, 10_000).fault(rt::F_SHORT_READ, 10_000).fault(rt::F_SHORT_WRITE, 10_000);
    }
}
fn measure<T>(f: impl FnOnce() -> Result<T, anyhow::Error>) -> (Result<T, anyhow::Error>, [u64; 4]) {
    let a = rt::work();
    let r = f();
    let b = rt::work();
    (r, [b[0] - a[0], b[1] - a[1], b[2] - a[2], b[3] - a[3]])
}
fn judge(what: &str, res: Vec<(Result<(), anyhow::Error>, [u64; 4])>) -> Result<(), String> {
    let mut w = Vec::new();
    for (r, k) in res {
        r.map_err(|e| format!("{what} failed although nothing went wrong: {e:#}"))?;
        w.push(k);
    }
    if std::env::var("SIM_WORK").is_ok() {
        let q: Vec<f64> = (0..4).map(|k| w[1][k] as f64 / w[0][k].max(1) as f64).collect();
        eprintln!("WORK {what} ratio {q:.2?} {:?} {:?}", w[0], w[1]);
    }
    let units = ["basic blocks are executed", "file operations are made", "bytes are read and written", "bytes are allocated"];
    let slack = [100_000, 40, 20_000, 300_000];
    for k in 0..4 {
        let bound = w[0][k] * 11 / 8 * FACTOR as u64 + slack[k];
        if w[1][k] > bound {
            return Err(format!("{what}: {} {} for the small input, {} for one {FACTOR} times as large: work out of proportion", w[0][k], units[k], w[1][k]));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ PBF
fn gen_reading(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    shape(r, &mut c);
    c.set("op", r.range(0, 4)).set("tasks", r.range(1, 2));
    c
}
fn setup_reading(c: &Case, ctx: &Ctx) {
    for (t, name) in [(1, "small.pbf"), (FACTOR, "large.pbf")] {
        let l = Layout { zlib: c.flag("zlib"), level: 1, ..Default::default() };
        let blocks: Vec<(Vec<El>, Layout)> = els(c, t).chunks(c.u("per").max(1)).map(|b| (b.to_vec(), l.clone())).collect();
        std::fs::write(ctx.path(name), model::encode_file(&Head::simple(), &blocks).0).unwrap();
    }
}
fn read(c: &Case, p: &Path) -> Result<(), anyhow::Error> {
    match c.get("op") {
        0 => {
            BoundingBoxCalculator::new(p).calc()?;
        }
        1 => {
            Reader::new(p)?.count_objects()?;
        }
        2 => {
            Reader::new(p)?.elements()?.inspect(|_| rt::progress()).count();
        }
        3 => {
            Reader::new(p)?.blocks()?.inspect(|_| rt::progress()).count();
        }
        _ => Reader::new(p)?.parallel_for_each(c.u("tasks").max(1), |_| {
            rt::progress();
            Ok(())
        })?,
    }
    Ok(())
}
fn run_reading(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let mut c = c.clone();
    if c.get("op") == 0 && matches!(c.get("kinds"), 1 | 2) {
        // a box needs nodes
        c.set("op", 2);
    }
    let what = ["calculating the box", "counting", "iterating over the elements", "iterating over the blocks", "iterating in parallel"][c.u("op") % 5];
    let res = ["small.pbf", "large.pbf"].iter().map(|n| measure(|| read(&c, &ctx.path(n)))).collect();
    rt::freeze();
    judge(what, res)
}

fn gen_writing(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    shape(r, &mut c);
    c.set("op", r.range(0, 3)).set("buf", r.range(0, 300)).set("dis", r.range(0, 40)).set("block", r.range(10, 100));
    c.set("dis", c.get("dis").min((c.get("buf") - c.get("block")).max(0)));
    c
}
fn write(c: &Case, p: PathBuf, els: Vec<Element>) -> Result<(), anyhow::Error> {
    let info = write::file_info(&Head::simple());
    if c.get("op") >= 2 {
        let mut w = ParallelWriter::from_file_info(c.u("buf"), c.u("block").max(1), p, info, write::compression(c))?;
        w.write_header()?;
        if c.get("op") == 3 {
            // lists that need not fit the blocks
            let mut it = els.into_iter().peekable();
            while it.peek().is_some() {
                w.write_elements(it.by_ref().take(c.u("per").max(1)).collect())?;
                rt::progress();
            }
            return w.close();
        }
        for e in els {
            w.write_element(e)?;
            rt::progress();
        }
        return w.close();
    }
    let mut w = Writer::from_file_info(p, info, write::compression(c))?;
    w.write_header()?;
    if c.get("op") == 0 {
        for e in els {
            w.write_element(e)?;
            rt::progress();
        }
    } else {
        let mut it = els.into_iter().peekable();
        while it.peek().is_some() {
            w.write_elements(it.by_ref().take(c.u("per").max(1)).collect())?;
            rt::progress();
        }
    }
    w.close()
}
fn given(c: &Case, times: usize) -> Vec<Element> {
    rt::atomically(|| {
        let v = els(c, times);
        let mut r = c.rng("arrival");
        let mut order: Vec<(u64, usize)> = (0..v.len()).map(|i| (i as u64 + r.below(c.get("dis") as u64 + 1), i)).collect();
        order.sort();
        if c.get("op") < 2 {
            order.sort_by_key(|o| o.1);
        }
        order.into_iter().map(|o| to_lib(&v[o.1])).collect()
    })
}
fn run_writing(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let what = ["writing single elements", "writing lists of elements", "writing in parallel", "writing lists in parallel"][c.u("op") % 4];
    let mut res = Vec::new();
    for (t, name) in [(1, "small.pbf"), (FACTOR, "large.pbf")] {
        let v = given(c, t);
        res.push(measure(|| write(c, ctx.path(name), v)));
    }
    rt::freeze();
    judge(what, res)
}

// ------------------------------------------------------------------ dumps
fn gen_dump(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    shape(r, &mut c);
    c.set("op", r.range(0, 2)).set("chunks", r.range(1, 4)).set("ncpu", r.range(1, 3));
    c
}
fn dump_write(p: PathBuf, els: Vec<Element>) -> Result<(), anyhow::Error> {
    let mut w = DumpWriter::new(p, 0)?;
    for e in els {
        w.write_element(e)?;
        rt::progress();
    }
    w.close()
}
/// of the longest table
fn lines(els: &[Element]) -> usize {
    let (mut n, mut tags, mut lists) = ([0; 3], [0; 3], [0; 3]);
    for e in els {
        let (k, t, l) = match e {
            Element::Node { node } => (0, node.tags().len(), 0),
            Element::Way { way } => (1, way.tags().len(), way.refs().len()),
            Element::Relation { relation } => (2, relation.tags().len(), relation.members().len()),
            Element::Sentinel => continue,
        };
        n[k] += 1;
        tags[k] += t;
        lists[k] += l;
    }
    n.into_iter().chain(tags).chain(lists).max().unwrap_or(0)
}
fn run_dump(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let (mut open, mut iter, mut written) = (Vec::new(), Vec::new(), Vec::new());
    for (t, name, tmp) in [(1, "small", "sort_small"), (FACTOR, "large", "sort_large")] {
        let v = given(c, t);
        let n = lines(&v);
        if c.get("op") == 0 {
            written.push(measure(|| dump_write(ctx.path(name), v)));
            continue;
        }
        let r = rt::atomically(|| dump_write(ctx.path(name), v));
        written.push((r, [0; 4]));
        // in as many pieces, however much there is
        std::env::set_var("OSM_IO_SIM_SORT_CHUNK", (n / c.u("chunks").max(1) + 1).to_string());
        let (r, k) = measure(|| DumpReader::new(ctx.path(name), ctx.path(tmp)));
        match r {
            Err(e) => open.push((Err(e), k)),
            Ok(reader) => {
                open.push((Ok(()), k));
                iter.push(measure(|| {
                    reader.elements()?.inspect(|_| rt::progress()).count();
                    Ok(())
                }));
            }
        }
    }
    rt::freeze();
    judge("writing a dump", written)?;
    if c.get("op") > 0 {
        judge("opening a dump", open)?;
        judge("iterating over a dump", iter)?;
    }
    Ok(())
}

pub static SCENARIOS: [Scenario; 3] = [
    Scenario { prop: "C28", name: "reading", weight: 2, gen: gen_reading, setup: setup_reading, run: run_reading, post: None, filters: &[] },
    Scenario { prop: "C28", name: "writing", weight: 2, gen: gen_writing, setup: nothing, run: run_writing, post: None, filters: &[] },
    Scenario { prop: "C28", name: "dump", weight: 2, gen: gen_dump, setup: nothing, run: run_dump, post: None, filters: &[] },
];
fn nothing(_: &Case, _: &Ctx) {}
