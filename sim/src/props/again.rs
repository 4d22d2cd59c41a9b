//! C27: what failed, was given up or was killed can be done again.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use osm_io::osm::apidb_dump::read::reader::Reader as DumpReader;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::pbf::reader::Reader;

use super::{apidb, knobs, more, read, write};
use crate::fw::{panic_text, Case, Ctx, Rng, RunFn, Scenario};
use crate::model::{self, diff, from_lib, to_lib, El, Layout};
use crate::rt;

/// From here on everything works again; what hangs now breaks the property.
fn healthy() {
    rt::faults_off();
    rt::user_add(5, 1);
}
fn verdict(res: std::thread::Result<Result<Result<(), String>, anyhow::Error>>, what: &str) -> Result<(), String> {
    match res {
        Ok(Ok(r)) => r.map_err(|e| format!("{what}: {e}")),
        Ok(Err(e)) => Err(format!("{what} fails although everything works: {e:#}")),
        Err(p) => Err(format!("{what} panics although everything works: {}", panic_text(&p))),
    }
}
/// the second attempt may be about other data
fn second_case(c: &Case) -> Case {
    let mut d = c.clone();
    if c.flag("other") {
        d.set("data_seed", c.get("data_seed") ^ 7919);
        for k in ["n", "w", "r"] {
            d.set(k, c.get(&format!("{k}2")));
        }
    }
    d.set("keep_going", 0).set("sent_pct", 0);
    d
}
fn other(r: &mut Rng, c: &mut Case) {
    c.set("other", r.chance(60) as i64);
    for k in ["n2", "w2", "r2"] {
        c.set(k, r.range(0, 15));
    }
}

// ------------------------------------------------------------------ reading a PBF file again
static CALLS: AtomicU64 = AtomicU64::new(0);

fn gen_reading(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    read::file_cfg(r, &mut c);
    c.set("rehead_pct", 0);
    if c.get("blocks") > 60 {
        c.set("blocks", r.range(1, 12));
    }
    if c.get("per_block") > 100 {
        c.set("per_block", 12);
    }
    c.set("tasks", *r.pick(&[1, 2, 3, 4])).set("op", r.range(0, 4)).set("op2", r.range(0, 3)).set("attempts", r.range(1, 2));
    c.set("fail_at", if r.chance(50) { r.range(0, 20) } else { -1 }).set("fail_kind", r.range(0, 1)).set("stop_at", r.range(0, 30));
    knobs::sched(r, &mut c);
    knobs::soft_io(r, &mut c);
    if r.chance(60) {
        knobs::hard_read(r, &mut c);
        knobs::thread_fail(r, &mut c);
    }
    c.set("ncpu", r.range(1, 3));
    // the file is replaced in between: 1 by another one, 2 by one that differs in the ids only; renamed or rewritten
    if r.chance(30) {
        c.set("swap", r.range(1, 2)).set("rename", r.range(0, 1));
    }
    c
}
fn swapped(c: &Case) -> Vec<(Vec<El>, Layout)> {
    let mut d = c.clone();
    if c.get("swap") == 1 {
        d.set("data_seed", c.get("data_seed") ^ 7919);
    }
    let mut blocks = read::gen_blocks(&d);
    if c.get("swap") == 2 {
        for e in blocks.iter_mut().flat_map(|b| b.0.iter_mut()) {
            e.id ^= 1;
        }
    }
    blocks
}
fn attempt(c: &Case, reader: &Reader) -> Result<(), anyhow::Error> {
    let stop = c.u("stop_at");
    match c.get("op") {
        0 => {
            reader.elements()?.inspect(|_| rt::progress()).take(stop).count();
        }
        1 => {
            reader.blocks()?.inspect(|_| rt::progress()).take(stop).count();
        }
        2 => {
            reader.count_objects()?;
        }
        _ => {
            let (at, kind) = (c.get("fail_at"), c.get("fail_kind"));
            reader.parallel_for_each(c.u("tasks"), move |_| {
                rt::progress();
                let k = CALLS.fetch_add(1, Ordering::SeqCst) as i64;
                if at >= 0 && k >= at {
                    if kind == 1 {
                        knobs::blow(k as u64);
                    }
                    return Err(anyhow::anyhow!("callback fails at call {k}"));
                }
                Ok(())
            })?;
        }
    }
    Ok(())
}
fn run_reading(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let p = ctx.path("in.pbf");
    let first = catch_unwind(AssertUnwindSafe(|| Reader::new(&p)));
    let mut reader = match first {
        Ok(Ok(r)) => Some(r),
        _ => None,
    };
    if let Some(r) = &reader {
        for _ in 0..c.u("attempts").max(1) {
            if !matches!(catch_unwind(AssertUnwindSafe(|| attempt(c, r))), Ok(Ok(()))) {
                rt::user_add(1, 1);
            }
        }
    }
    healthy();
    let mut want = read::expected(c).concat();
    if c.get("swap") > 0 {
        reader = None;
        let blocks = swapped(c);
        rt::atomically(|| {
            let bytes = model::encode_file(&model::Head::simple(), &blocks).0;
            if c.flag("rename") {
                std::fs::write(ctx.path("new.pbf"), bytes).unwrap();
                std::fs::rename(ctx.path("new.pbf"), &p).unwrap();
            } else {
                std::fs::write(&p, bytes).unwrap();
            }
        });
        want = blocks.into_iter().flat_map(|b| b.0).collect();
    }
    want.sort();
    let want = Arc::new(want);
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<_, anyhow::Error> {
        let reader = Arc::new(match reader.take() {
            Some(r) => r,
            None => Reader::new(&p)?,
        });
        let mut rng = c.rng("again");
        let got = more::use_pbf(&reader, c.get("op2"), c.u("tasks").max(1), &mut rng, &want, true)?;
        Ok(match diff(&want, &got) {
            Some(d) => Err(d),
            None => Ok(()),
        })
    }));
    rt::freeze();
    verdict(res, "reading again")
}

// ------------------------------------------------------------------ writing a PBF file again
pub fn gen_writing(r: &mut Rng, t: bool) -> Case {
    // 0 parallel, 1 sequential
    let op = r.below(3) as i64 / 2;
    let mut c = if op == 1 {
        write::gen_seq(r, t)
    } else if r.chance(70) {
        write::gen_c05(r, t)
    } else {
        write::gen_c06(r, t)
    };
    if c.get("n") + c.get("w") + c.get("r") > 1000 {
        write::counts(r, &mut c, 40);
    }
    c.set("op", op).set("block0", 0).set("again", 0).set("dup_pct", 0);
    c.set("keep_going", r.chance(40) as i64);
    // the first attempt: closed, or given up at once
    c.set("end", r.range(0, 1)).set("give_up", if r.chance(30) { r.range(0, 20) } else { 1 << 30 });
    other(r, &mut c);
    if r.chance(70) {
        knobs::hard_write(r, &mut c);
    }
    c
}
pub fn write_pbf(c: &Case, ctx: &Ctx, els: Vec<El>, end: i64) -> Result<(), anyhow::Error> {
    if c.get("op") == 1 {
        let head = write::seq_head(c);
        let mut w = write::new_seq(c, ctx.path("out.pbf"), &head)?;
        w.write_header()?;
        write::feed_seq(c, &mut w, &els)?;
        if end == 0 {
            w.close()?;
        }
    } else {
        let head = write::pw_head(c);
        let mut w = write::new_pw(c, ctx.path("out.pbf"), &head)?;
        let a = w.write_header();
        let a = if a.is_ok() || c.flag("keep_going") { a.and(write::feed(c, &mut w, els, c.flag("keep_going"))) } else { a };
        if end == 0 {
            return a.and(w.close());
        }
        a?;
    }
    Ok(())
}
fn write_again(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let mut d = second_case(c);
    d.set("dis", 0).set("late", 0);
    let els = write::arrival(&d);
    let res = catch_unwind(AssertUnwindSafe(|| write_pbf(&d, ctx, els.clone(), 0)));
    rt::freeze();
    let p = ctx.path("out.pbf");
    verdict(
        res.map(|r| {
            r.map(|_| match d.get("op") {
                1 => write::judge_seq(&p, &write::seq_head(&d), &els, d.flag("zlib"), d.get("calls") == 0),
                _ => write::judge_file(&p, &write::pw_head(&d), &els, d.u("block").max(1), d.flag("zlib")),
            })
        }),
        "writing the file again",
    )
}
fn first_write(c: &Case, ctx: &Ctx) {
    let mut els = write::arrival(c);
    els.truncate(c.u("give_up"));
    let end = if c.u("give_up") < 1 << 20 { 1 } else { c.get("end") };
    if !matches!(catch_unwind(AssertUnwindSafe(|| write_pbf(c, ctx, els, end))), Ok(Ok(()))) {
        rt::user_add(1, 1);
    }
}
fn run_writing(c: &Case, ctx: &Ctx) -> Result<(), String> {
    first_write(c, ctx);
    healthy();
    write_again(c, ctx)
}

// ------------------------------------------------------------------ writing a dump again
pub fn gen_dump_writing(r: &mut Rng, t: bool) -> Case {
    let mut c = apidb::gen_write(r, t);
    c.set("again", 0).set("older", 0);
    c.set("end", r.range(0, 1)).set("give_up", if r.chance(30) { r.range(0, 20) } else { 1 << 30 });
    other(r, &mut c);
    if r.chance(70) {
        knobs::hard_write(r, &mut c);
        if r.chance(20) {
            c.fault(rt::F_META_FAIL, 100_000);
        }
    }
    c
}
fn first_dump(c: &Case, ctx: &Ctx) {
    let mut els = apidb::gen_els(c);
    els.truncate(c.u("give_up"));
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
        if c.u("give_up") < 1 << 20 || c.get("end") == 1 {
            let mut w = DumpWriter::new(ctx.path("dump"), 0)?;
            for e in &els {
                w.write_element(to_lib(e))?;
                rt::progress();
            }
            return Ok(());
        }
        apidb::write_dump(c, ctx.path("dump"), &els)?;
        Ok(())
    }));
    if !matches!(res, Ok(Ok(()))) {
        rt::user_add(1, 1);
    }
}
fn dump_again(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let d = second_case(c);
    let els = apidb::gen_els(&d);
    let res = catch_unwind(AssertUnwindSafe(|| apidb::write_dump(&d, ctx.path("dump"), &els)));
    rt::freeze();
    verdict(res.map(|r| r.map(|_w| apidb::judge_dump(&ctx.path("dump"), &els))), "writing the dump again")
}
fn run_dump_writing(c: &Case, ctx: &Ctx) -> Result<(), String> {
    first_dump(c, ctx);
    healthy();
    dump_again(c, ctx)
}

// ------------------------------------------------------------------ reading a dump again
fn gen_dump_reading(r: &mut Rng, t: bool) -> Case {
    let mut c = apidb::gen_storage(r, t);
    // failed thread creation stops the sort pool of the dependency for good
    c.0.retain(|k, _| *k != format!("f.{:02}", rt::F_THREAD_FAIL));
    c.set("stop_at", if r.chance(30) { r.range(0, 20) } else { 1 << 30 });
    // the folder of the first attempt's temporary files is used again, the reader as well if there is one
    c.set("same", r.chance(50) as i64).set("times", 1).set("change", r.chance(40) as i64).set("aged", r.chance(50) as i64);
    c
}
fn first_read(c: &Case, ctx: &Ctx) -> Option<DumpReader> {
    std::env::set_var("OSM_IO_SIM_SORT_CHUNK", c.u("chunk").max(1).to_string());
    let reader = catch_unwind(AssertUnwindSafe(|| DumpReader::new(ctx.path("dump"), ctx.path("sort"))));
    let Ok(Ok(reader)) = reader else {
        rt::user_add(1, 1);
        return None;
    };
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
        reader.elements()?.inspect(|_| rt::progress()).take(c.u("stop_at")).count();
        Ok(())
    }));
    if !matches!(res, Ok(Ok(()))) {
        rt::user_add(1, 1);
    }
    Some(reader)
}
fn read_again(c: &Case, ctx: &Ctx, reader: Option<DumpReader>) -> Result<(), String> {
    // more or less memory for sorting than the first time
    let mut d = c.clone();
    if c.flag("other_chunk") {
        d.set("chunk", if c.get("chunk") > 5000 { 300 } else { 10_000_000 });
    }
    if reader.is_none() && c.flag("change") {
        // the dump has been written anew in between
        d.set("edited", 1);
        rt::atomically(|| {
            apidb::foreign_dump(&d, &ctx.path("dump"));
            if c.flag("aged") {
                apidb::aged(&ctx.path("dump"), 1_000_000_000);
            }
        });
    }
    let want = apidb::norm(apidb::gen_els(&d));
    let res = catch_unwind(AssertUnwindSafe(|| match reader {
        Some(r) => {
            let mut v: Vec<El> = Vec::new();
            for e in r.elements()? {
                v.extend(from_lib(&e));
                rt::progress();
            }
            Ok(vec![Ok(v)])
        }
        None => apidb::read_dump(&d, ctx.path("dump"), ctx.path("sort"), 1),
    }));
    rt::freeze();
    verdict(res.map(|r| r.map(|g| apidb::judge_read(&want, g))), "reading the dump again")
}
fn run_dump_reading(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let reader = first_read(c, ctx);
    healthy();
    read_again(c, ctx, reader.filter(|_| c.flag("same")))
}

// ------------------------------------------------------------------ killed, and done again
// `run` is the process that is killed; `second` the one that is started afterwards, in a simulation of its own
fn gen_killed_writing(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_writing(r, t);
    write::crash(r, &mut c, 80);
    c
}
fn run_killed_writing(c: &Case, ctx: &Ctx) -> Result<(), String> {
    first_write(c, ctx);
    Ok(())
}
fn gen_killed_dump_writing(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_dump_writing(r, t);
    write::crash(r, &mut c, 260);
    c
}
fn run_killed_dump_writing(c: &Case, ctx: &Ctx) -> Result<(), String> {
    first_dump(c, ctx);
    Ok(())
}
fn gen_killed_dump_reading(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_dump_reading(r, t);
    c.set("other_chunk", r.chance(40) as i64);
    write::crash(r, &mut c, 300);
    c
}
fn run_killed_dump_reading(c: &Case, ctx: &Ctx) -> Result<(), String> {
    first_read(c, ctx);
    Ok(())
}
fn second_dump_reading(c: &Case, ctx: &Ctx) -> Result<(), String> {
    read_again(c, ctx, None)
}

/// What is started after the process of `sc` has ended in whatever way.
pub fn second(sc: &Scenario) -> Option<RunFn> {
    match (sc.prop, sc.name) {
        ("C27", "killed_writing") => Some(write_again),
        ("C27", "killed_dump_writing") => Some(dump_again),
        ("C27", "killed_dump_reading") => Some(second_dump_reading),
        _ => None,
    }
}

fn nothing(_: &Case, _: &Ctx) {}
pub static SCENARIOS: [Scenario; 7] = [
    Scenario { prop: "C27", name: "reading", weight: 2, gen: gen_reading, setup: read::setup_file, run: run_reading, post: None, filters: &[] },
    Scenario { prop: "C27", name: "writing", weight: 3, gen: gen_writing, setup: nothing, run: run_writing, post: None, filters: &[] },
    Scenario { prop: "C27", name: "dump_writing", weight: 1, gen: gen_dump_writing, setup: nothing, run: run_dump_writing, post: None, filters: &[] },
    Scenario { prop: "C27", name: "dump_reading", weight: 2, gen: gen_dump_reading, setup: apidb::setup_foreign, run: run_dump_reading, post: None, filters: apidb::READ_FILTERS },
    Scenario { prop: "C27", name: "killed_writing", weight: 1, gen: gen_killed_writing, setup: nothing, run: run_killed_writing, post: None, filters: &[] },
    Scenario { prop: "C27", name: "killed_dump_writing", weight: 1, gen: gen_killed_dump_writing, setup: nothing, run: run_killed_dump_writing, post: None, filters: &[] },
    Scenario { prop: "C27", name: "killed_dump_reading", weight: 2, gen: gen_killed_dump_reading, setup: apidb::setup_foreign, run: run_killed_dump_reading, post: None, filters: apidb::READ_FILTERS },
];
