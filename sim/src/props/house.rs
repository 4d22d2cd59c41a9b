//! C21-C23: what is left behind, what stays untouched, how much memory is needed.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

use osm_io::osm::apidb_dump::read::reader::Reader as DumpReader;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;

use super::{apidb, knobs, read, write};
use crate::fw::{panic_text, Case, Ctx, Rng, Scenario};
use crate::model::{self, to_lib, El, GenOpts, Head, Layout, Text};
use crate::rt;

// ------------------------------------------------------------------ C21: threads and open files
/// Basic blocks a thread may need after its last work to come to its end.
const END_OF_THREAD: u64 = 300;

/// Everything has been dropped: no thread but the caller's, no file. `wait`: threads that nobody waits for
/// may take a while to end. Otherwise no file is open any more and no thread does any further work; one whose
/// work is done (all a scope of std::thread waits for) may still have the steps to its end before it.
fn settled(what: &str, wait: bool) -> Result<(), String> {
    rt::faults_off();
    let (mut t, mut f) = (0, (0, String::new()));
    let mut others = 0;
    let (io, calls) = (rt::ioops(), CALLS.load(Ordering::SeqCst));
    for _ in 0..5000 {
        t = rt::live_threads() - 1;
        f = rt::open_files();
        if t == 0 && f.0 == 0 {
            return Ok(());
        }
        if !wait {
            if f.0 > 0 || rt::ioops() != io || CALLS.load(Ordering::SeqCst) != calls || others > END_OF_THREAD * t.max(1) as u64 {
                rt::freeze();
                return Err(if f.0 > 0 { format!("{what}, yet {} files are open:{}", f.0, f.1) } else { format!("{what}, yet {t} threads go on") });
            }
        }
        others += rt::yield_work();
    }
    rt::freeze();
    if t > 0 {
        return Err(format!("{what}, yet {t} threads go on for ever"));
    }
    Err(format!("{what}, yet {} files stay open:{}", f.0, f.1))
}

static CALLS: AtomicU64 = AtomicU64::new(0);

pub fn gen_iteration(r: &mut Rng, t: bool) -> Case {
    let mut c = Case::default();
    read::file_cfg(r, &mut c);
    if c.get("blocks") > 100 {
        c.set("blocks", r.range(0, 12));
    }
    c.set("tasks", *r.pick(&[0, 1, 2, 3, 4, 8]));
    c.set("op", r.range(0, 5));
    c.set("times", r.range(1, 2));
    c.set("fail_at", if r.chance(50) { r.range(0, 30) } else { -1 });
    c.set("fail_kind", r.range(0, 1));
    c.set("fail_on", r.range(0, 1));
    c.set("stop_at", r.range(0, 40));
    knobs::sched(r, &mut c);
    knobs::soft_io(r, &mut c);
    if r.chance(50) {
        knobs::hard_read(r, &mut c);
    }
    c.set("ncpu", *r.pick(&[1, 2, 3, 4]));
    c.set("dam", *r.pick(&[0, 0, 1]));
    let _ = t;
    c
}

pub fn read_somehow(c: &Case, p: &Path) -> Result<u64, anyhow::Error> {
    if c.get("op") == 2 {
        BoundingBoxCalculator::new(p).calc()?;
        return Ok(1);
    }
    let reader = Reader::new(p)?;
    let stop = c.u("stop_at");
    match c.get("op") {
        1 => reader.count_objects().map(|n| n.0 as u64),
        3 => Ok(reader.elements()?.inspect(|_| rt::progress()).take(stop).count() as u64),
        4 => Ok(reader.blocks()?.inspect(|_| rt::progress()).take(stop).count() as u64),
        _ => {
            let (at, kind, on) = (c.get("fail_at"), c.get("fail_kind"), c.get("fail_on"));
            reader.parallel_for_each(c.u("tasks"), move |_| {
                rt::progress();
                let k = CALLS.fetch_add(1, Ordering::SeqCst) as i64;
                if at >= 0 && (k == at || on == 1 && k > at) {
                    if kind == 1 {
                        knobs::blow(k as u64);
                    }
                    return Err(anyhow::anyhow!("callback fails at call {k}"));
                }
                Ok(())
            })?;
            Ok(CALLS.load(Ordering::SeqCst))
        }
    }
}

fn run_iteration(c: &Case, ctx: &Ctx) -> Result<(), String> {
    for _ in 0..c.u("times").max(1) {
        let res = catch_unwind(AssertUnwindSafe(|| read_somehow(c, &ctx.path("in.pbf"))));
        if !matches!(res, Ok(Ok(_))) {
            rt::user_add(1, 1);
        }
        drop(res);
    }
    let what = ["parallel iteration has returned", "counting has returned", "the calculation of the box has returned", "sequential iteration has ended",
        "iteration over the blocks has ended", "parallel iteration has returned"][c.u("op") % 6];
    settled(what, false)?;
    rt::freeze();
    Ok(())
}

// writers
fn gen_writer(r: &mut Rng, t: bool) -> Case {
    let mut c = if r.chance(75) { write::gen_c05(r, t) } else { write::gen_c06(r, t) };
    c.set("block0", 0);
    if c.get("n") > 1000 {
        write::counts(r, &mut c, 60);
    }
    if r.chance(60) {
        knobs::hard_write(r, &mut c);
    }
    // 0 parallel, 1 sequential, 2 dump
    c.set("op", *r.pick(&[0, 0, 0, 1, 2]));
    c.set("keep_going", r.chance(40) as i64);
    // after a failure: closed, dropped at once; 3: dropped without being closed although nothing failed
    c.set("end", r.range(0, 3));
    c.set("no_header", (r.below(12) == 0) as i64);
    c
}

fn write_somehow(c: &Case, ctx: &Ctx, els: &[El]) -> Result<(), anyhow::Error> {
    let head = write::pw_head(c);
    let (go, end) = (c.flag("keep_going"), c.get("end"));
    match c.get("op") {
        0 => {
            let mut w = ParallelWriter::from_file_info(c.u("buf"), c.u("block").max(1), ctx.path("out.pbf"), write::file_info(&head), write::compression(c))?;
            let mut res = if c.flag("no_header") { Ok(()) } else { w.write_header() };
            if res.is_ok() || go {
                res = res.and(write::feed(c, &mut w, els.to_vec(), go));
            }
            if res.is_err() && end == 1 || end == 3 {
                return res;
            }
            let closed = w.close();
            if end != 2 {
                // closed and not yet dropped: the threads have ended all the same
                settled("the parallel writer has been closed", false).map_err(|e| anyhow::anyhow!("LEFT {e}"))?;
            }
            res.and(closed)
        }
        1 => {
            let mut w = Writer::from_file_info(ctx.path("out.pbf"), write::file_info(&head), write::compression(c))?;
            w.write_header()?;
            for e in els {
                w.write_element(to_lib(e))?;
                rt::progress();
            }
            if end != 3 {
                w.close()?;
            }
            Ok(())
        }
        _ => {
            let mut w = DumpWriter::new(ctx.path("dump"), 0)?;
            for e in els {
                w.write_element(to_lib(e))?;
                rt::progress();
            }
            if end != 3 {
                w.close()?;
            }
            Ok(())
        }
    }
}

fn run_writer(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let els = write::arrival(c);
    let res = catch_unwind(AssertUnwindSafe(|| write_somehow(c, ctx, &els)));
    if let Ok(Err(e)) = &res {
        let e = e.to_string();
        if let Some(e) = e.strip_prefix("LEFT ") {
            return Err(e.to_string());
        }
    }
    if !matches!(res, Ok(Ok(()))) {
        rt::user_add(1, 1);
    }
    drop(res);
    settled(["the parallel writer is gone", "the sequential writer is gone", "the dump writer is gone"][c.u("op") % 3], false)?;
    rt::freeze();
    Ok(())
}

// dumps
fn gen_dump(r: &mut Rng, t: bool) -> Case {
    let mut c = apidb::gen_foreign(r, t);
    c.set("stop_at", if r.chance(50) { r.range(0, 20) } else { 1000 });
    c
}

fn run_dump(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<usize, anyhow::Error> {
        std::env::set_var("OSM_IO_SIM_SORT_CHUNK", c.u("chunk").max(1).to_string());
        let reader = DumpReader::new(ctx.path("dump"), ctx.path("sort"))?;
        let mut n = 0;
        for _ in 0..c.u("times").max(1) {
            n += reader.elements()?.inspect(|_| rt::progress()).take(c.u("stop_at")).count();
        }
        Ok(n)
    }));
    let ok = matches!(res, Ok(Ok(_)));
    drop(res);
    if ok {
        settled("the dump has been read", true)?;
    }
    rt::freeze();
    Ok(())
}

// ------------------------------------------------------------------ C22: the source stays as it is
fn snapshot(p: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    if p.is_dir() {
        for e in std::fs::read_dir(p).unwrap() {
            m.append(&mut snapshot(&e.unwrap().path()));
        }
    } else if let Ok(b) = std::fs::read(p) {
        m.insert(p.to_path_buf(), b);
    }
    m
}
fn kept(ctx: &Ctx) -> PathBuf {
    ctx.path("kept")
}
/// a copy of the source, to compare with afterwards
fn keep(ctx: &Ctx, name: &str) {
    std::fs::create_dir_all(kept(ctx)).unwrap();
    for (p, b) in snapshot(&ctx.path(name)) {
        std::fs::write(kept(ctx).join(p.file_name().unwrap()), b).unwrap();
    }
}
fn untouched(ctx: &Ctx, name: &str) -> Result<(), String> {
    let now = snapshot(&ctx.path(name));
    let by_name: BTreeMap<_, _> = now.iter().map(|(p, b)| (p.file_name().unwrap().to_owned(), b)).collect();
    let before = snapshot(&kept(ctx));
    if before.is_empty() {
        return Err("reading has removed files beside its source".into());
    }
    for (p, b) in before {
        let n = p.file_name().unwrap();
        match by_name.get(n) {
            None => return Err(format!("reading has removed {n:?} of its source")),
            Some(x) if **x != b => {
                let at = b.iter().zip(x.iter()).take_while(|(a, b)| a == b).count();
                return Err(format!("reading has changed {n:?} of its source: {} bytes before, {} now, first difference at {at}", b.len(), x.len()));
            }
            _ => {}
        }
    }
    Ok(())
}

fn gen_source_pbf(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_iteration(r, t);
    if r.chance(30) {
        write::crash(r, &mut c, 60);
    }
    c
}
pub fn setup_damaged(c: &Case, ctx: &Ctx) {
    read::setup_file(c, ctx);
    if c.flag("dam") {
        let p = ctx.path("in.pbf");
        let mut b = std::fs::read(&p).unwrap();
        let mut r = c.rng("dam");
        let n = b.len() as u64;
        if r.chance(50) {
            b.truncate(r.below(n) as usize);
        } else {
            b[r.below(n) as usize] ^= 1 << r.below(8);
        }
        std::fs::write(&p, b).unwrap();
    }
}
fn setup_source_pbf(c: &Case, ctx: &Ctx) {
    setup_damaged(c, ctx);
    keep(ctx, "in.pbf");
}
fn run_source_pbf(c: &Case, ctx: &Ctx) -> Result<(), String> {
    for _ in 0..c.u("times").max(1) {
        let _ = catch_unwind(AssertUnwindSafe(|| read_somehow(c, &ctx.path("in.pbf"))));
    }
    rt::freeze();
    untouched(ctx, "in.pbf")
}
fn post_source_pbf(_c: &Case, ctx: &Ctx) -> Result<(), String> {
    untouched(ctx, "in.pbf")
}

fn gen_source_dump(r: &mut Rng, t: bool) -> Case {
    let mut c = if r.chance(50) { apidb::gen_storage(r, t) } else { apidb::gen_foreign(r, t) };
    // the temporary files may go anywhere: a folder that does not exist, the folder of the dump, one inside it, the one around it
    c.set("tmp", r.range(0, 5));
    if r.chance(30) {
        write::crash(r, &mut c, 300);
    }
    c
}
fn setup_source_dump(c: &Case, ctx: &Ctx) {
    apidb::setup_foreign(c, ctx);
    keep(ctx, "dump");
}
fn run_source_dump(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let tmp = [ctx.path("sort"), ctx.path("new/sort"), ctx.path("dump"), ctx.path("dump/sort"), ctx.dir.clone(), ctx.path("dump/../dump")][c.u("tmp") % 6].clone();
    let _ = catch_unwind(AssertUnwindSafe(|| apidb::read_dump(c, ctx.path("dump"), tmp, c.u("times").max(1))));
    rt::freeze();
    untouched(ctx, "dump")
}
fn post_source_dump(_c: &Case, ctx: &Ctx) -> Result<(), String> {
    untouched(ctx, "dump")
}

// ------------------------------------------------------------------ C23: memory
const FAT: usize = 12_000;
fn fat(r: &mut Rng) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::with_capacity(FAT);
    while s.len() < FAT {
        let x = r.next();
        for k in 0..10 {
            s.push(A[(x >> (6 * k) & 63) as usize] as char);
        }
    }
    s
}
/// elements that hold much text, all the same amount
fn fat_els(c: &Case, n: usize) -> Vec<El> {
    let mut r = c.rng("fat");
    let o = GenOpts { text: Text::Plain, users: 3, changesets: 3, max_tags: 0, distinct: 0, ..Default::default() };
    let mut els = match c.get("mix") {
        0 => model::elements(&mut r, n, 0, 0, &o),
        1 => model::elements(&mut r, 0, n, 0, &o),
        2 => model::elements(&mut r, 0, 0, n, &o),
        _ => model::elements(&mut r, n / 2, n / 4, n - n / 2 - n / 4, &o),
    };
    for e in els.iter_mut() {
        e.tags = vec![("k".into(), fat(&mut r))];
        e.refs.truncate(20);
        e.members.truncate(20);
    }
    els
}
fn gen_memory(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    c.set("blocks", r.range(60, 100)).set("per", r.range(10, 16)).set("mix", r.range(0, 3));
    c.set("zlib", r.chance(50) as i64);
    c.set("op", r.range(0, 4)).set("tasks", r.range(1, 2)).set("ncpu", r.range(1, 2));
    knobs::sched(r, &mut c);
    let pm = c.get("s.pm");
    if pm > 0 {
        c.set("s.pm", pm.max(2000));
    }
    knobs::soft_io(r, &mut c);
    c
}
fn setup_memory(c: &Case, ctx: &Ctx) {
    let per = c.u("per");
    let els = fat_els(c, c.u("blocks") * per);
    let l = Layout { zlib: c.flag("zlib"), level: 1, ..Default::default() };
    let blocks: Vec<(Vec<El>, Layout)> = els.chunks(per).map(|b| (b.to_vec(), l.clone())).collect();
    std::fs::write(ctx.path("in.pbf"), model::encode_file(&Head::simple(), &blocks).0).unwrap();
    std::fs::write(ctx.path("one.pbf"), model::encode_file(&Head::simple(), &blocks[..1]).0).unwrap();
}
fn peak_of<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let base = rt::heap_mark();
    let r = f();
    let peak = rt::heap_peak() - base;
    let left = rt::heap_mark().saturating_sub(base);
    (r, peak, left)
}
fn run_memory_read(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let mut one_case = c.clone();
    one_case.set("op", 3).set("stop_at", 1 << 40).set("fail_at", -1);
    let mut case = one_case.clone();
    // a box needs nodes
    let op = if c.get("op") == 2 && matches!(c.get("mix"), 1 | 2) { 0 } else { c.get("op") };
    case.set("op", op);
    let (r1, one, _) = peak_of(|| read_somehow(&one_case, &ctx.path("one.pbf")));
    let (r2, all, left) = peak_of(|| read_somehow(&case, &ctx.path("in.pbf")));
    rt::freeze();
    r1.and(r2).map_err(|e| format!("reading an intact file failed: {e:#}"))?;
    let at_once = match op {
        0 => c.get("tasks") as u64 + 1,
        1 | 2 => c.get("ncpu") as u64 + 1,
        _ => 2,
    };
    let data = (c.u("blocks") * c.u("per") * FAT) as u64;
    memory_verdict(all, one * at_once * 5 / 4 + 600_000, left, data, &format!("reading {} blocks, one of which takes {one} bytes,", c.u("blocks")))
}
fn memory_verdict(peak: u64, bound: u64, left: u64, data: u64, what: &str) -> Result<(), String> {
    if std::env::var("SIM_MEM").is_ok() {
        eprintln!("MEM {what} peak {peak} bound {bound} left {left} of {data}");
    }
    if peak > bound {
        return Err(format!("{what} needs {peak} bytes at a time: memory grows with the amount of data ({data} bytes)"));
    }
    if left > data / 4 {
        return Err(format!("{what} keeps {left} bytes after everything has been dropped"));
    }
    Ok(())
}

fn gen_memory_write(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_memory(r, t);
    c.set("op", r.range(0, 2)).set("per", *r.pick(&[6, 8, 9, 12, 13])).set("blocks", r.range(70, 110));
    c.set("ncpu", 2).set("chunk", 100_000);
    c
}
fn write_lists(c: &Case, p: PathBuf, els: &[El]) -> Result<(), anyhow::Error> {
    let mut w = Writer::from_file_info(p, write::file_info(&Head::simple()), write::compression(c))?;
    w.write_header()?;
    for l in els.chunks(c.u("per").max(1)) {
        w.write_elements(l.iter().map(to_lib).collect())?;
        rt::progress();
    }
    w.close()
}
fn write_tables(p: PathBuf, els: &[El]) -> Result<(), anyhow::Error> {
    let mut w = DumpWriter::new(p, 0)?;
    for e in els {
        w.write_element(to_lib(e))?;
        rt::progress();
    }
    w.close()
}
fn run_memory_write(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let per = c.u("per").max(1);
    let n = c.u("blocks").max(8) * per;
    let els = rt::atomically(|| fat_els(c, n));
    let data = (n * FAT) as u64;
    // for comparison: two lists of each type and those with several
    let mut seen: Vec<(Vec<model::Kind>, usize)> = Vec::new();
    let few: Vec<El> = els.chunks(per).filter(|l| {
        let mut kinds: Vec<_> = l.iter().map(|e| e.kind).collect();
        kinds.dedup();
        match seen.iter_mut().find(|x| x.0 == kinds) {
            Some(x) => x.1 += 1,
            None => seen.push((kinds.clone(), 1)),
        }
        seen.iter().any(|x| x.0 == kinds && x.1 <= 2)
    }).flat_map(|l| l.to_vec()).collect();
    let (what, res, some, all, left) = match c.get("op") {
        0 => {
            let (a, some, _) = peak_of(|| write_lists(c, ctx.path("some.pbf"), &few));
            let (b, all, left) = peak_of(|| write_lists(c, ctx.path("all.pbf"), &els));
            ("writing lists of elements", a.and(b), some, all, left)
        }
        1 => {
            let (a, some, _) = peak_of(|| write_tables(ctx.path("some"), &few));
            let (b, all, left) = peak_of(|| write_tables(ctx.path("all"), &els));
            ("writing a dump", a.and(b), some, all, left)
        }
        _ => {
            let r = rt::atomically(|| write_tables(ctx.path("all"), &els).and(write_tables(ctx.path("some"), &few)));
            std::env::set_var("OSM_IO_SIM_SORT_CHUNK", c.u("chunk").to_string());
            let go = |d: &str| -> Result<(u64, u64), anyhow::Error> {
                let reader = DumpReader::new(ctx.path(d), ctx.path(&format!("sort_{d}")))?;
                let (r, peak, left) = peak_of(|| -> Result<(), anyhow::Error> {
                    for e in reader.elements()? {
                        std::hint::black_box::<Element>(e);
                        rt::progress();
                    }
                    Ok(())
                });
                r.map(|_| (peak, left))
            };
            let a = r.and_then(|_| go("some"));
            let b = go("all");
            match (a, b) {
                (Ok(a), Ok(b)) => ("iterating over a dump", Ok(()), a.0, b.0, b.1),
                (Err(e), _) | (_, Err(e)) => ("iterating over a dump", Err(e), 0, 0, 0),
            }
        }
    };
    rt::freeze();
    res.map_err(|e| format!("{what} failed although nothing went wrong: {e:#}"))?;
    let room = some * 5 / 4 + 200_000;
    memory_verdict(all, room, left, data, &format!("{what}, {some} bytes for {} of {n} elements,", few.len()))
}

/// A parallel writer at rest keeps what its ordering buffer was made for, however much it was given.
fn gen_memory_parallel(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    c.set("buf", *r.pick(&[0, 1, 10, 40, 100])).set("block", *r.pick(&[1, 3, 8, 20])).set("per", *r.pick(&[1, 2, 5, 10, 30, 60]));
    c.set("single", r.chance(20) as i64).set("els", r.range(300, 900)).set("mix", r.range(0, 3)).set("zlib", r.chance(30) as i64);
    knobs::sched(r, &mut c);
    let pm = c.get("s.pm");
    if pm > 0 {
        c.set("s.pm", pm.max(2000));
    }
    knobs::soft_io(r, &mut c);
    c
}
fn run_memory_parallel(c: &Case, ctx: &Ctx) -> Result<(), String> {
    const TEXT: usize = 3000;
    let n = c.u("els");
    let els = rt::atomically(|| {
        let mut v = fat_els(c, n);
        v.iter_mut().for_each(|e| e.tags[0].1.truncate(TEXT));
        v
    });
    let base = rt::heap_mark();
    let (mut kept, mut empty) = (0, 0);
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
        let mut w = ParallelWriter::from_file_info(c.u("buf"), c.u("block").max(1), ctx.path("out.pbf"), write::file_info(&Head::simple()), write::compression(c))?;
        w.write_header()?;
        empty = rt::heap_mark();
        for l in els.chunks(c.u("per").max(1)) {
            if c.flag("single") {
                for e in l {
                    w.write_element(to_lib(e))?;
                }
            } else {
                w.write_elements(l.iter().map(to_lib).collect())?;
            }
            rt::progress();
        }
        let (mut quiet, mut last) = (0, 0);
        while quiet < 3000 {
            rt::yield_now();
            let now = rt::work()[2];
            quiet = if now == last { quiet + 1 } else { 0 };
            if now != last {
                rt::progress();
            }
            last = now;
        }
        kept = rt::heap_mark().saturating_sub(empty);
        w.close()
    }));
    let left = rt::heap_mark().saturating_sub(base);
    rt::freeze();
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("writing in parallel failed although nothing went wrong: {e:#}")),
        Err(p) => return Err(format!("writing in parallel panicked although nothing went wrong: {}", panic_text(&p))),
    }
    let room = (c.u("buf") + c.u("block") + 2) * (TEXT + 2000) + 300_000;
    memory_verdict(kept, room as u64, left, (n * TEXT) as u64, &format!("a parallel writer with room for {} elements, at rest after {n},", c.u("buf")))
}

const W_FILTERS: &[&str] = &[""];
pub static SCENARIOS: [Scenario; 8] = [
    Scenario { prop: "C21", name: "reading", weight: 2, gen: gen_iteration, setup: setup_damaged, run: run_iteration, post: None, filters: &[] },
    Scenario { prop: "C21", name: "writing", weight: 2, gen: gen_writer, setup: nothing, run: run_writer, post: None, filters: W_FILTERS },
    Scenario { prop: "C21", name: "dump", weight: 1, gen: gen_dump, setup: apidb::setup_foreign, run: run_dump, post: None, filters: &[] },
    Scenario { prop: "C22", name: "pbf", weight: 1, gen: gen_source_pbf, setup: setup_source_pbf, run: run_source_pbf, post: Some(post_source_pbf), filters: &[] },
    Scenario { prop: "C22", name: "dump", weight: 1, gen: gen_source_dump, setup: setup_source_dump, run: run_source_dump, post: Some(post_source_dump), filters: apidb::READ_FILTERS },
    Scenario { prop: "C23", name: "reading", weight: 1, gen: gen_memory, setup: setup_memory, run: run_memory_read, post: None, filters: &[] },
    Scenario { prop: "C23", name: "writing", weight: 1, gen: gen_memory_write, setup: nothing, run: run_memory_write, post: None, filters: &[] },
    Scenario { prop: "C23", name: "parallel_writing", weight: 1, gen: gen_memory_parallel, setup: nothing, run: run_memory_parallel, post: None, filters: &[] },
];
fn nothing(_: &Case, _: &Ctx) {}
