//! C29: an iterator that is asked again after it has ended or failed.
use std::panic::{catch_unwind, AssertUnwindSafe};

use osm_io::osm::apidb_dump::read::reader::Reader as DumpReader;
use osm_io::osm::pbf::file_block::FileBlock;
use osm_io::osm::pbf::reader::Reader;

use super::{apidb, knobs, read};
use crate::fw::{panic_text, Case, Ctx, Rng, Scenario};
use crate::model::{from_lib, El};
use crate::rt;

enum Polled {
    Els(Vec<El>),
    End,
    Failed(String),
}

/// Ask until the first end or failure, and then `more` times
fn ask(mut next: impl FnMut() -> Result<Option<Vec<El>>, anyhow::Error>, more: usize) -> Vec<Polled> {
    let mut all = Vec::new();
    let mut left = more;
    let mut over = false;
    while !over || left > 0 {
        if over {
            left -= 1;
        }
        let p = match catch_unwind(AssertUnwindSafe(&mut next)) {
            Ok(Ok(Some(v))) => Polled::Els(v),
            Ok(Ok(None)) => Polled::End,
            Ok(Err(e)) => Polled::Failed(format!("{e:#}")),
            Err(p) => Polled::Failed(panic_text(&p)),
        };
        over |= !matches!(p, Polled::Els(_));
        all.push(p);
        rt::progress();
    }
    all
}

/// End for ever after the first end; and what was delivered, in whatever order things happened, are
/// elements of the source in its order, none twice
fn judge(want: &[El], polled: &[Polled], may_fail: bool) -> Result<(), String> {
    let mut at = 0;
    let mut ended = false;
    let mut failed: Option<&str> = None;
    for (k, p) in polled.iter().enumerate() {
        match p {
            Polled::End => {
                if failed.is_none() && at < want.len() && !ended {
                    return Err(format!("the iterator ended normally after {at} of {} elements", want.len()));
                }
                ended = true
            }
            Polled::Failed(e) if ended => return Err(format!("the iterator had ended and failed when it was asked again: {e}")),
            Polled::Failed(e) if !may_fail => return Err(format!("reading an intact source failed at step {k}: {e}")),
            Polled::Failed(e) => {
                rt::user_add(1, 1);
                failed = Some(e)
            }
            Polled::Els(_) if ended => return Err("the iterator had ended and went on when it was asked again".into()),
            Polled::Els(v) => {
                for e in v {
                    match want[at..].iter().position(|w| w == e) {
                        Some(n) if n == 0 || failed.is_some() => at += n + 1,
                        Some(n) => return Err(format!("{n} elements were left out in front of {}", e.short())),
                        None => {
                            return Err(format!(
                                "{}, an element was delivered that the source does not hold there: {}",
                                failed.map_or("before any failure".to_string(), |f| format!("after a failure ({f})")),
                                e.short()
                            ))
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn gen_pbf(r: &mut Rng, t: bool) -> Case {
    let mut c = match r.below(4) {
        0 => read::gen_c09(r, t),
        1 => read::gen_c09_flip(r, t),
        _ => read::gen_par(r, t),
    };
    c.set("damage", if c.get("flips") > 0 { 2 } else if c.get("cut") > 0 { 1 } else { 0 });
    if c.get("blocks") > 60 {
        c.set("blocks", r.range(0, 12));
    }
    if c.get("per_block") > 300 {
        c.set("per_block", 12);
    }
    c.set("par", 0).set("via", r.range(0, 1)).set("more", r.range(1, 6));
    if r.chance(60) {
        knobs::hard_read(r, &mut c);
        c.set("f.max", r.range(1, 6));
    }
    c
}
fn setup_pbf(c: &Case, ctx: &Ctx) {
    match c.get("damage") {
        1 => read::setup_cut(c, ctx),
        2 => read::setup_flip(c, ctx),
        _ => read::setup_file(c, ctx),
    }
}
fn run_pbf(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let p = ctx.path("in.pbf");
    let more = c.u("more").max(1);
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<Polled>, anyhow::Error> {
        let reader = Reader::new(&p)?;
        if c.get("via") == 1 {
            let mut it = reader.blocks()?;
            return Ok(ask(
                || {
                    Ok(it.next().map(|b| match b {
                        FileBlock::Data { mut data, .. } => data.take_elements().iter().filter_map(from_lib).collect(),
                        _ => vec![],
                    }))
                },
                more,
            ));
        }
        let mut it = reader.elements()?;
        Ok(ask(|| Ok(it.next().map(|e| from_lib(&e).into_iter().collect())), more))
    }));
    let hard = rt::hard_faults();
    rt::freeze();
    let may_fail = hard > 0 || c.get("damage") > 0;
    let polled = match res {
        Ok(Ok(p)) => p,
        Ok(Err(_)) | Err(_) if may_fail => return Ok(()),
        Ok(Err(e)) => return Err(format!("opening an intact file failed: {e:#}")),
        Err(p) => return Err(format!("opening an intact file panicked: {}", panic_text(&p))),
    };
    let want = read::expected(c).concat();
    rt::user_add(0, polled.len() as u64);
    judge(&want, &polled, may_fail)
}
fn gen_dump(r: &mut Rng, t: bool) -> Case {
    let mut c = apidb::gen_foreign(r, t);
    c.set("more", r.range(1, 6));
    c
}
fn run_dump(c: &Case, ctx: &Ctx) -> Result<(), String> {
    std::env::set_var("OSM_IO_SIM_SORT_CHUNK", c.u("chunk").max(1).to_string());
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<Polled>, anyhow::Error> {
        let reader = DumpReader::new(ctx.path("dump"), ctx.path("sort"))?;
        let mut it = reader.elements()?;
        Ok(ask(|| Ok(it.next().map(|e| apidb::norm(from_lib(&e).into_iter().collect()))), c.u("more").max(1)))
    }));
    rt::freeze();
    match res {
        Ok(Ok(p)) => judge(&apidb::norm(apidb::gen_els(c)), &p, false),
        Ok(Err(e)) => Err(format!("reading an intact dump failed: {e:#}")),
        Err(p) => Err(format!("reading an intact dump panicked: {}", panic_text(&p))),
    }
}

pub static SCENARIOS: [Scenario; 2] = [
    Scenario { prop: "C29", name: "pbf", weight: 3, gen: gen_pbf, setup: setup_pbf, run: run_pbf, post: None, filters: &[] },
    Scenario { prop: "C29", name: "dump", weight: 1, gen: gen_dump, setup: apidb::setup_foreign, run: run_dump, post: None, filters: &[] },
];
