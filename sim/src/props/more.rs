//! C24-C26: what is intact is delivered, callbacks run side by side, output is reproducible.
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

use osm_io::osm::apidb_dump::read::reader::Reader as DumpReader;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::pbf::file_block::FileBlock;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;

use super::{apidb, knobs, read, write};
use crate::fw::{panic_text, Case, Ctx, Rng, Scenario};
use crate::model::{self, diff, from_lib, to_lib, El, GenOpts, Head, Layout};
use crate::rt;

// ------------------------------------------------------------------ C24: everything in front of the damage
fn by_hand(c: &Case, p: &Path) -> (Vec<El>, bool) {
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
        let reader = Reader::new(p)?;
        if c.get("via") == 1 {
            for b in reader.blocks()? {
                if let FileBlock::Data { mut data, .. } = b {
                    for e in data.take_elements() {
                        read::record(&e);
                    }
                }
            }
        } else {
            for e in reader.elements()? {
                read::record(&e);
            }
        }
        Ok(())
    }));
    let ok = matches!(res, Ok(Ok(())));
    drop(res);
    (read::hist().iter().filter_map(|h| h.1.clone()).collect(), ok)
}
/// elements of the blocks in front of the first byte that differs
fn intact(c: &Case, ctx: &Ctx) -> Vec<El> {
    let mut blocks = read::gen_blocks(c);
    if c.get("flips") > 0 {
        for b in blocks.iter_mut() {
            b.1.zlib = true;
        }
    }
    let (bytes, ends) = model::encode_file(&Head::simple(), &blocks);
    let now = std::fs::read(ctx.path("in.pbf")).unwrap();
    let same = bytes.iter().zip(&now).take_while(|(a, b)| a == b).count();
    let whole = ends.iter().filter(|e| **e <= same).count();
    blocks.into_iter().take(whole.saturating_sub(1)).flat_map(|b| b.0).collect()
}
fn gen_cut(r: &mut Rng, t: bool) -> Case {
    let mut c = read::gen_c09(r, t);
    c.set("par", 0).set("via", r.range(0, 1));
    if c.get("blocks") < 3 {
        c.set("blocks", r.range(3, 12));
    }
    c
}
fn gen_flip(r: &mut Rng, t: bool) -> Case {
    let mut c = read::gen_c09_flip(r, t);
    c.set("par", 0).set("via", r.range(0, 1));
    if c.get("blocks") < 3 {
        c.set("blocks", r.range(3, 12));
    }
    c
}
fn run_front(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let (got, ok) = by_hand(c, &ctx.path("in.pbf"));
    rt::freeze();
    let want = intact(c, ctx);
    if !ok {
        rt::user_add(1, 1);
    }
    let n = got.len().min(want.len());
    match diff(&want, &got[..n]) {
        Some(d) => Err(format!("{} elements in intact blocks in front of the damage, {} delivered: {d}", want.len(), got.len())),
        None => Ok(()),
    }
}

/// what a writer that was killed has left can be read
fn gen_remains(r: &mut Rng, t: bool) -> Case {
    let mut c = write::gen_c05(r, t);
    if c.get("n") > 1000 {
        write::counts(r, &mut c, 60);
    }
    c.set("block0", 0).set("block", r.range(1, 6)).set("dis", 0).set("dup_pct", 0).set("via", r.range(0, 1));
    c.set("buf", *r.pick(&[0, 1, 5, 20]));
    write::crash(r, &mut c, 60);
    c
}
fn run_remains(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let head = write::pw_head(c);
    let els = write::arrival(c);
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
        let mut w = ParallelWriter::from_file_info(c.u("buf"), c.u("block").max(1), ctx.path("out.pbf"), write::file_info(&head), write::compression(c))?;
        w.write_header()?;
        write::feed(c, &mut w, els, false)?;
        w.close()?;
        rt::user_add(3, 1);
        for _ in 0..100 {
            rt::point();
        }
        Ok(())
    }));
    rt::freeze();
    match res {
        Ok(Ok(())) => post_remains(c, ctx),
        Ok(Err(e)) => Err(format!("writing failed although nothing went wrong: {e:#}")),
        Err(p) => Err(format!("writing panicked although nothing went wrong: {}", panic_text(&p))),
    }
}
fn post_remains(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let p = ctx.path("out.pbf");
    let b = std::fs::read(&p).unwrap_or_default();
    let mut els = write::arrival(c);
    els.sort_by_key(|e| e.key());
    let d = model::decode_file(&b, true).map_err(|e| format!("what was written before the end of the process is not a prefix of a file: {e}"))?;
    let left = d.els();
    if left.len() > els.len() || left[..] != els[..left.len()] || rt::user_get(3) > 0 && left.len() < els.len() {
        return Err(format!("the whole blocks left behind are not the first of the sorted elements: {}", diff(&els[..left.len().min(els.len())], &left).unwrap_or_else(|| "some are missing".into())));
    }
    read::hist().clear();
    let (got, _) = by_hand(c, &p);
    rt::user_add(4, got.len() as u64);
    match diff(&left, &got) {
        Some(d) => Err(format!("{} elements in whole blocks of a file whose writer was killed, {} delivered: {d}", left.len(), got.len())),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ C25: callbacks side by side
static TOGETHER: AtomicUsize = AtomicUsize::new(0);
static MOST: AtomicUsize = AtomicUsize::new(0);
static DONE: AtomicUsize = AtomicUsize::new(0);
static ARRIVED: AtomicUsize = AtomicUsize::new(0);
static GAVE_UP: AtomicUsize = AtomicUsize::new(0);

fn side_sizes(c: &Case) -> Vec<usize> {
    let mut r = c.rng("sizes");
    (0..c.u("blocks").max(c.u("tasks")).max(1)).map(|_| 1 + r.below(c.u("per_block").max(1) as u64) as usize).collect()
}
fn gen_side(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    c.set("tasks", if r.chance(6) { *r.pick(&[12, 17, 20, 33]) } else { *r.pick(&[1, 2, 2, 2, 3, 3, 4, 5, 8]) });
    c.set("blocks", c.get("tasks") + if r.chance(20) { r.range(0, 30) } else { r.range(0, 6) }).set("per_block", r.range(1, 5));
    if r.below(60) == 0 {
        c.set("blocks", r.range(1026, 1060)).set("per_block", 1);
    }
    c.set("mode", r.range(0, 1));
    knobs::sched(r, &mut c);
    knobs::soft_io(r, &mut c);
    c
}
fn setup_side(c: &Case, ctx: &Ctx) {
    let mut r = c.rng("els");
    let o = GenOpts { max_tags: 1, ..Default::default() };
    let blocks: Vec<(Vec<El>, Layout)> = side_sizes(c)
        .into_iter()
        .enumerate()
        .map(|(b, n)| {
            let mut es = model::elements(&mut r, n, 0, 0, &o);
            for (i, e) in es.iter_mut().enumerate() {
                e.id = (b * 1000 + i) as i64;
            }
            (es, Layout::default())
        })
        .collect();
    std::fs::write(ctx.path("in.pbf"), model::encode_file(&Head::simple(), &blocks).0).unwrap();
}
fn wait_for(c: impl Fn() -> bool) {
    // patient as long as anything goes on
    let (mut turns, mut last) = (0, 0);
    while turns < 30_000 {
        if c() || GAVE_UP.load(SeqCst) > 0 {
            return;
        }
        let now = DONE.load(SeqCst) + ARRIVED.load(SeqCst);
        turns = if now == last { turns + 1 } else { 0 };
        last = now;
        rt::yield_now();
    }
    GAVE_UP.store(1, SeqCst);
}
fn run_side(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let sizes = side_sizes(c);
    let (tasks, mode) = (c.u("tasks").max(1), c.get("mode"));
    let mut r = c.rng("held");
    let mut order: Vec<usize> = (0..sizes.len()).collect();
    r.shuffle(&mut order);
    // blocks whose callback at some element waits for others
    let held: BTreeSet<usize> = order.into_iter().take(if mode == 0 { tasks - 1 } else { tasks }).collect();
    let at: Vec<usize> = sizes.iter().map(|n| r.below(*n as u64) as usize).collect();
    let rest: usize = sizes.iter().enumerate().filter(|(b, _)| !held.contains(b)).map(|x| x.1).sum();
    let path = ctx.path("in.pbf");
    let what = if mode == 0 { "the elements of the other blocks" } else { "as many callbacks as tasks" };
    let shared = Arc::new((held, at));
    let res = catch_unwind(AssertUnwindSafe(|| {
        Reader::new(&path)?.parallel_for_each(tasks, move |e| {
            let n = TOGETHER.fetch_add(1, SeqCst) + 1;
            MOST.fetch_max(n, SeqCst);
            rt::point();
            if let Some(e) = from_lib(&e) {
                let (b, i) = (e.id as usize / 1000, e.id as usize % 1000);
                let (held, at) = &*shared;
                if !held.contains(&b) {
                    DONE.fetch_add(1, SeqCst);
                } else if at[b] == i {
                    if mode == 0 {
                        wait_for(|| DONE.load(SeqCst) >= rest);
                    } else {
                        ARRIVED.fetch_add(1, SeqCst);
                        wait_for(|| ARRIVED.load(SeqCst) >= tasks);
                    }
                }
                rt::progress();
            }
            TOGETHER.fetch_sub(1, SeqCst);
            Ok(())
        })
    }));
    rt::freeze();
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("parallel iteration over an intact file failed: {e:#}")),
        Err(p) => return Err(format!("parallel iteration over an intact file panicked: {}", panic_text(&p))),
    }
    rt::user_add(0, MOST.load(SeqCst) as u64);
    if GAVE_UP.load(SeqCst) > 0 {
        return Err(format!("a callback waited for {what} in vain: {tasks} tasks, {} callbacks at once at most", MOST.load(SeqCst)));
    }
    if MOST.load(SeqCst) > tasks {
        return Err(format!("{} callbacks at once in {tasks} tasks", MOST.load(SeqCst)));
    }
    Ok(())
}

// ------------------------------------------------------------------ C26: the same again
fn gen_again(r: &mut Rng, t: bool) -> Case {
    let mut c = write::gen_c05(r, t);
    if c.get("n") > 1000 {
        write::counts(r, &mut c, 60);
    }
    if r.chance(10) {
        // not sorted: both fail, or neither
        c.set("dis", c.get("buf") + 3);
    }
    c
}
fn parallel_once(c: &Case, p: &Path, els: &[El]) -> Result<(), anyhow::Error> {
    let head = write::pw_head(c);
    let mut w = ParallelWriter::from_file_info(c.u("buf"), c.u("block").max(1), p.to_path_buf(), write::file_info(&head), write::compression(c))?;
    let res = w.write_header().and_then(|_| write::feed(c, &mut w, els.to_vec(), false));
    let closed = w.close();
    res.and(closed)
}
fn run_again(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let els = write::arrival(c);
    let mut res = Vec::new();
    for n in ["a.pbf", "b.pbf"] {
        res.push(catch_unwind(AssertUnwindSafe(|| parallel_once(c, &ctx.path(n), &els))));
    }
    rt::freeze();
    let ok: Vec<bool> = res.iter().map(|r| matches!(r, Ok(Ok(())))).collect();
    if ok[0] != ok[1] {
        return Err(format!("the same elements were written twice by a parallel writer: one time it succeeded, the other it failed ({ok:?})"));
    }
    if ok[0] {
        same_file(&ctx.path("a.pbf"), &ctx.path("b.pbf"), "the parallel writer")?;
    }
    Ok(())
}
fn same_file(a: &Path, b: &Path, who: &str) -> Result<(), String> {
    let (x, y) = (std::fs::read(a).map_err(|e| e.to_string())?, std::fs::read(b).map_err(|e| e.to_string())?);
    if x == y {
        return Ok(());
    }
    let at = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
    Err(format!("{who} wrote the same elements to {:?} and {:?}: {} and {} bytes, the first difference at {at}", a.file_name().unwrap(), b.file_name().unwrap(), x.len(), y.len()))
}

fn gen_again_dump(r: &mut Rng, t: bool) -> Case {
    let mut c = apidb::gen_write(r, t);
    if r.chance(30) {
        c.fault(rt::F_CLOCK, *r.pick(&[2_000, 100_000]));
    }
    c
}
/// times of users and changesets are those of the writing
fn timeless(b: &[u8]) -> Vec<u8> {
    let mut s: Vec<u8> = Vec::new();
    for (k, l) in b.split(|x| *x == b'\n').enumerate() {
        if k > 0 {
            s.push(b'\n');
        }
        for (j, f) in l.split(|x| *x == b'\t').enumerate() {
            if j > 0 {
                s.push(b'\t');
            }
            if std::str::from_utf8(f).is_ok_and(apidb::is_sql_time) {
                s.extend_from_slice(b"TIME");
            } else {
                s.extend_from_slice(f);
            }
        }
    }
    s
}
fn run_again_dump(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let els = apidb::gen_els(c);
    for d in ["a", "b"] {
        let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
            let mut w = DumpWriter::new(ctx.path(d), 0)?;
            for e in &els {
                w.write_element(to_lib(e))?;
                rt::progress();
            }
            w.close()
        }));
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("writing a dump failed although nothing went wrong: {e:#}")),
            Err(p) => return Err(format!("writing a dump panicked although nothing went wrong: {}", panic_text(&p))),
        }
    }
    rt::freeze();
    let names = |d: &str| -> BTreeSet<_> { std::fs::read_dir(ctx.path(d)).unwrap().map(|e| e.unwrap().file_name()).collect() };
    let (a, b) = (names("a"), names("b"));
    if a != b {
        return Err(format!("the same elements were written to two dumps: different files {:?}", a.symmetric_difference(&b).collect::<Vec<_>>()));
    }
    let toc = apidb::parse_toc(&std::fs::read(ctx.path("a").join("toc.dat")).unwrap());
    for n in a {
        let (x, y) = (ctx.path("a").join(&n), ctx.path("b").join(&n));
        if let Err(e) = same_file(&x, &y, "the dump writer") {
            let dated = ["users", "changesets"].iter().any(|t| toc.iter().any(|(k, v)| k.ends_with(&format!("public.{t}")) && std::ffi::OsStr::new(&v.0) == n));
            if !dated || timeless(&std::fs::read(&x).unwrap()) != timeless(&std::fs::read(&y).unwrap()) {
                return Err(e);
            }
        }
    }
    Ok(())
}

/// the stages one after the other: file, dump, file
fn gen_again_pipe(r: &mut Rng, t: bool) -> Case {
    apidb::gen_pipe(r, t)
}
fn run_again_pipe(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let mut res = Vec::new();
    for n in ["a", "b"] {
        std::fs::create_dir_all(ctx.path(n)).map_err(|e| e.to_string())?;
        let sub = Ctx { dir: ctx.path(n) };
        rt::atomically(|| std::fs::copy(ctx.path("in.pbf"), sub.path("in.pbf")).unwrap());
        res.push(catch_unwind(AssertUnwindSafe(|| apidb::pipe(c, &sub))));
    }
    rt::freeze();
    for r in res {
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("the conversion failed although nothing went wrong: {e:#}")),
            Err(p) => return Err(format!("the conversion panicked although nothing went wrong: {}", panic_text(&p))),
        }
    }
    same_file(&ctx.path("a/out.pbf"), &ctx.path("b/out.pbf"), "the conversion to a dump and back")
}

// ------------------------------------------------------------------ C16: one reader, many users
fn gen_shared(r: &mut Rng, t: bool) -> Case {
    let mut c = read::gen_par(r, t);
    if c.get("blocks") > 40 {
        c.set("blocks", r.range(0, 12));
    }
    if c.get("per_block") > 100 {
        c.set("per_block", 12);
    }
    c.set("users", r.range(1, 3)).set("ops", (r.next() >> 40) as i64).set("tasks", r.range(1, 3));
    c.set("ncpu", r.range(1, 2));
    c
}
/// One use of a reader that others use as well: the elements it has seen, as a sorted list.
pub fn use_pbf(reader: &Arc<Reader>, op: i64, tasks: usize, r: &mut Rng, want: &Arc<Vec<El>>, within: bool) -> Result<Vec<El>, anyhow::Error> {
    let mut v: Vec<El> = Vec::new();
    match op {
        0 => {
            for e in reader.elements()? {
                v.extend(from_lib(&e));
                rt::progress();
            }
        }
        1 => {
            for b in reader.blocks()? {
                if let FileBlock::Data { mut data, .. } = b {
                    v.extend(data.take_elements().iter().filter_map(from_lib));
                }
                rt::progress();
            }
        }
        2 => {
            // several iterators advance in turns, some are given up
            let mut its = vec![reader.elements()?, reader.elements()?, reader.elements()?];
            let mut got: Vec<Vec<El>> = vec![vec![]; 3];
            let mut open = [true; 3];
            let give_up = r.range(1, 30) as usize;
            while open[0] || open[1] {
                let k = r.below(its.len() as u64) as usize;
                if its.len() == 3 && got[2].len() >= give_up {
                    its.pop();
                    continue;
                }
                match its[k].next() {
                    Some(e) => got[k].extend(from_lib(&e)),
                    None => open[k] = false,
                }
                rt::progress();
            }
            if got[0] != got[1] {
                anyhow::bail!("two iterators of one reader that advance in turns have seen different elements: {} and {}", got[0].len(), got[1].len());
            }
            v = got.swap_remove(0);
        }
        _ => {
            let seen = Arc::new(std::sync::Mutex::new(Vec::new()));
            let (s2, again, want) = (seen.clone(), reader.clone(), want.clone());
            let first = AtomicUsize::new(0);
            let nested = !within && r.chance(50);
            let nested_op = if r.chance(50) { 0 } else { 3 };
            reader.parallel_for_each(tasks, move |e| {
                if let Some(e) = from_lib(&e) {
                    rt::atomically(|| s2.lock().unwrap().push(e));
                    if nested && first.fetch_add(1, SeqCst) == 3 {
                        // a callback that uses the reader itself
                        let mine = use_pbf(&again, nested_op, 1, &mut Rng::new(7), &want, true)?;
                        if mine != *want {
                            anyhow::bail!("a callback that reads the same file has seen {} of {} elements", mine.len(), want.len());
                        }
                    }
                }
                rt::progress();
                Ok(())
            })?;
            v = rt::atomically(|| std::mem::take(&mut *seen.lock().unwrap()));
        }
    }
    v.sort();
    Ok(v)
}
fn judge_shared(outs: Vec<std::thread::Result<Result<Vec<El>, anyhow::Error>>>, mut want: Vec<El>) -> Result<(), String> {
    want.sort();
    for (k, o) in outs.into_iter().enumerate() {
        match o {
            Ok(Ok(v)) => {
                if let Some(d) = diff(&want, &v) {
                    return Err(format!("use {k} of a reader that others use as well: {d}"));
                }
            }
            Ok(Err(e)) => return Err(format!("use {k} of a reader that others use as well failed although nothing went wrong: {e:#}")),
            Err(p) => return Err(format!("use {k} of a reader that others use as well panicked although nothing went wrong: {}", panic_text(&p))),
        }
    }
    Ok(())
}
fn run_shared(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let reader = Arc::new(Reader::new(&ctx.path("in.pbf")).map_err(|e| format!("opening an intact file failed: {e:#}"))?);
    let mut want = read::expected(c).concat();
    want.sort();
    let want = Arc::new(want);
    let mut hs = Vec::new();
    for u in 0..c.u("users").max(1) {
        let (reader, tasks, want) = (reader.clone(), c.u("tasks").max(1), want.clone());
        let op = c.get("ops").max(0) / [1, 5, 25][u % 3] % 5 % 4;
        let mut r = Rng::new(c.get("data_seed") as u64 ^ u as u64);
        hs.push(std::thread::spawn(move || use_pbf(&reader, op, tasks, &mut r, &want, false)));
    }
    let outs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
    rt::freeze();
    judge_shared(outs, want.to_vec())
}

/// iterators of one dump reader advance in turns
fn gen_shared_dump(r: &mut Rng, t: bool) -> Case {
    let mut c = apidb::gen_foreign(r, t);
    c.set("users", r.range(1, 3));
    c
}
fn run_shared_dump(c: &Case, ctx: &Ctx) -> Result<(), String> {
    std::env::set_var("OSM_IO_SIM_SORT_CHUNK", c.u("chunk").max(1).to_string());
    let reader = catch_unwind(AssertUnwindSafe(|| DumpReader::new(ctx.path("dump"), ctx.path("sort"))));
    let reader = match reader {
        Ok(Ok(r)) => Arc::new(r),
        Ok(Err(e)) => return Err(format!("reading an intact dump failed: {e:#}")),
        Err(p) => return Err(format!("reading an intact dump panicked: {}", panic_text(&p))),
    };
    let mut hs = Vec::new();
    for u in 0..c.u("users").max(1) {
        let reader = reader.clone();
        let mut r = Rng::new(c.get("data_seed") as u64 ^ (u as u64 + 99));
        hs.push(std::thread::spawn(move || -> Result<Vec<El>, anyhow::Error> {
            let mut its = vec![reader.elements()?, reader.elements()?];
            let mut got: Vec<Vec<El>> = vec![vec![]; 2];
            let mut ends = [false; 2];
            while !(ends[0] && ends[1]) {
                let k = r.below(2) as usize;
                match its[k].next() {
                    Some(e) => got[k].extend(from_lib(&e)),
                    None => ends[k] = true,
                }
                rt::progress();
            }
            if got[0] != got[1] {
                anyhow::bail!("two iterators of one dump that advance in turns have seen different elements: {} and {}", got[0].len(), got[1].len());
            }
            Ok(got.swap_remove(0))
        }));
    }
    let outs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
    rt::freeze();
    let want = apidb::gen_els(c);
    let outs = outs.into_iter().map(|o| o.map(|r| r.map(|v| { let mut v = apidb::norm(v); v.sort(); v }))).collect();
    judge_shared(outs, apidb::norm(want))
}

fn nothing(_: &Case, _: &Ctx) {}
pub static SCENARIOS: [Scenario; 9] = [
    Scenario { prop: "C16", name: "one_reader", weight: 1, gen: gen_shared, setup: read::setup_file, run: run_shared, post: None, filters: &[] },
    Scenario { prop: "C16", name: "one_dump", weight: 1, gen: gen_shared_dump, setup: apidb::setup_foreign, run: run_shared_dump, post: None, filters: &[] },
    Scenario { prop: "C24", name: "cut", weight: 2, gen: gen_cut, setup: read::setup_cut, run: run_front, post: None, filters: &[] },
    Scenario { prop: "C24", name: "altered", weight: 2, gen: gen_flip, setup: read::setup_flip, run: run_front, post: None, filters: &[] },
    Scenario { prop: "C24", name: "remains", weight: 2, gen: gen_remains, setup: nothing, run: run_remains, post: Some(post_remains), filters: &[] },
    Scenario { prop: "C25", name: "side_by_side", weight: 1, gen: gen_side, setup: setup_side, run: run_side, post: None, filters: &[] },
    Scenario { prop: "C26", name: "parallel_writer", weight: 3, gen: gen_again, setup: nothing, run: run_again, post: None, filters: &[] },
    Scenario { prop: "C26", name: "dump", weight: 1, gen: gen_again_dump, setup: nothing, run: run_again_dump, post: None, filters: &[] },
    Scenario { prop: "C26", name: "pipeline", weight: 1, gen: gen_again_pipe, setup: apidb::setup_pipe, run: run_again_pipe, post: None, filters: &[] },
];
