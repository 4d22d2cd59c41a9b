//! C05-C08, C14 (PBF part), C15, C16, C18: writing PBF files.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use osm_io::osm::model::bounding_box::BoundingBox;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::compression_type::CompressionType;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::thread_local_accumulator::ThreadLocalAccumulator;
use osm_io::osm::pbf::writer::Writer;

use super::knobs;
use super::read;
use crate::fw::{panic_text, Case, Ctx, Rng, Scenario};
use crate::model::{self, diff, from_lib, to_lib, El, GenOpts, Head, Kind, Text};
use crate::rt;

// ------------------------------------------------------------------ shared
pub fn gen_head(r: &mut Rng) -> Head {
    let mut h = Head::simple();
    if r.chance(60) {
        let mut x = [r.range(-180_000_000_000, 180_000_000_000), r.range(-180_000_000_000, 180_000_000_000)];
        let mut y = [r.range(-90_000_000_000, 90_000_000_000), r.range(-90_000_000_000, 90_000_000_000)];
        if r.chance(30) {
            for v in x.iter_mut().chain(y.iter_mut()) {
                *v = *r.pick(&[0, 1, -1, 100, -100, 89_999_999_999, -90_000_000_000, 14_183_248_300, 35_806_528_999]);
            }
        }
        if r.chance(6) {
            // boxes across the 180th meridian are written with values beyond it
            let s = if r.chance(50) { -1 } else { 1 };
            x = [s * r.range(100_000_000_000, 180_000_000_000), s * r.range(180_000_000_000, 360_000_000_000)];
        }
        x.sort();
        y.sort();
        h.bbox = Some((x[0], x[1], y[1], y[0]));
    }
    if r.chance(30) {
        h.required.push("HistoricalInformation".into());
    }
    if r.chance(20) {
        h.required.remove(1);
    }
    if r.chance(8) {
        h.required.clear();
        if r.chance(50) {
            // nothing at all is said about the file
            return Head::default();
        }
    }
    if r.chance(70) {
        h.optional.push("Sort.Type_then_ID".into());
    }
    if r.chance(10) && !h.required.is_empty() {
        // concatenated or rewritten headers may name a feature again
        let f = r.pick(&h.required).clone();
        h.required.push(f);
    }
    for _ in 0..r.below(3) {
        h.optional.push(model::text(r, Text::Any));
    }
    if r.chance(70) {
        h.program = Some(model::text(r, Text::Any));
    }
    if r.chance(60) {
        h.source = Some(model::text(r, Text::Any));
    }
    if r.chance(60) {
        h.rep_ts = Some(*r.pick(&[0, 1, -1, 1_673_215_200, i64::MAX, i64::MIN]));
    }
    if r.chance(60) {
        h.rep_seq = Some(*r.pick(&[0, 1, 3571, -5, i64::MAX]));
    }
    if r.chance(60) {
        h.rep_url = Some(model::text(r, Text::Any));
    }
    h
}

pub fn file_info(h: &Head) -> FileInfo {
    let d = |x: i64| x as f64 / 1e9;
    let bbox = h.bbox.map(|(l, r, t, b)| BoundingBox::new(d(l), d(b), d(r), d(t)));
    let n = h.program.as_ref().map_or(0, |p| p.len());
    if (n + h.optional.len()) % 2 == 1 {
        // field by field
        let mut i = FileInfo::default();
        i.with_bounding_box(&bbox);
        i.with_required_features(&h.required);
        i.with_optional_features(&h.optional);
        match &h.program {
            Some(p) if n % 3 == 0 => i.with_writingprogram_str(p),
            p => i.with_writingprogram(p),
        }
        i.with_source(&h.source);
        i.with_osmosis_replication_timestamp(&h.rep_ts);
        i.with_osmosis_replication_sequence_number(&h.rep_seq);
        i.with_osmosis_replication_base_url(&h.rep_url);
        return i;
    }
    FileInfo::new(
        bbox,
        h.required.clone(),
        h.optional.clone(),
        h.program.clone(),
        h.source.clone(),
        h.rep_ts,
        h.rep_seq,
        h.rep_url.clone(),
    )
}

pub fn head_of(i: &FileInfo) -> Head {
    let n = |x: f64| (x * 1e9).round() as i64;
    Head {
        bbox: i.bounding_box().as_ref().map(|b| (n(b.left()), n(b.right()), n(b.top()), n(b.bottom()))),
        required: i.required_features().iter().map(|f| if i.required(f) { f.clone() } else { format!("{f:?} listed but denied") }).collect(),
        optional: i.optional_features().iter().map(|f| if i.optional(f) { f.clone() } else { format!("{f:?} listed but denied") }).collect(),
        program: i.writingprogram().clone(),
        source: i.source().clone(),
        rep_ts: *i.osmosis_replication_timestamp(),
        rep_seq: *i.osmosis_replication_sequence_number(),
        rep_url: i.osmosis_replication_base_url().clone(),
    }
}

pub fn compression(c: &Case) -> CompressionType {
    if c.flag("zlib") {
        CompressionType::Zlib
    } else {
        CompressionType::Uncompressed
    }
}

/// keys n, w, r: sorted, unique, representable at the writer's resolution
pub fn gen_els(c: &Case) -> Vec<El> {
    let mut r = c.rng("els");
    let o = GenOpts {
        text: if c.flag("plain") { Text::Plain } else { Text::Any },
        negative_ids: !c.flag("plain"),
        max_tags: if c.flag("plain") { 2 } else { 4 },
        distinct: c.get("distinct") as u64,
        unique_tag_keys: false,
        renames: true,
        ..Default::default()
    };
    let mut els = model::elements(&mut r, c.u("n"), c.u("w"), c.u("r"), &o);
    if c.get("dup_pct") > 0 {
        // the same element given more than once
        els = els.into_iter().flat_map(|e| vec![e; if r.chance(c.get("dup_pct") as u64) { 2 } else { 1 }]).collect();
    }
    els
}

/// an older, longer or shorter file where the output goes
fn old_file(c: &Case) -> Vec<u8> {
    let mut r = c.rng("prior");
    (0..c.u("prior")).map(|_| r.next() as u8).collect()
}
pub fn prior(c: &Case, ctx: &Ctx) {
    if c.get("prior") > 0 {
        std::fs::write(ctx.path("out.pbf"), old_file(c)).unwrap();
    }
}
fn set_prior(r: &mut Rng, c: &mut Case) {
    if r.chance(15) {
        c.set("prior", *r.pick(&[1, 300, 5000, 200_000]));
    }
}

pub fn counts(r: &mut Rng, c: &mut Case, max: i64) {
    for k in ["n", "w", "r"] {
        c.set(k, if r.chance(25) { 0 } else { r.range(0, max) });
    }
    c.set("plain", r.chance(50) as i64);
    c.set("zlib", r.chance(70) as i64);
}

pub fn read_file(p: &Path) -> Result<Vec<u8>, String> {
    std::fs::read(p).map_err(|e| format!("{} cannot be read back: {e}", p.file_name().unwrap().to_string_lossy()))
}

/// The complete file: header, and exactly these elements in this order, in well-formed blocks.
pub fn judge_file(p: &Path, head: &Head, want: &[El], max_block: usize, zlib: bool) -> Result<(), String> {
    let b = read_file(p)?;
    let d = model::decode_file(&b, false).map_err(|e| format!("the written file is not valid: {e}"))?;
    if d.head.as_ref() != Some(head) {
        return Err(format!("header written: {head:?}, header in the file: {:?}", d.head));
    }
    for (i, bl) in d.blocks.iter().enumerate() {
        if bl.els.is_empty() {
            return Err(format!("data block {i} is empty"));
        }
        if bl.els.iter().any(|e| e.kind != bl.els[0].kind) {
            return Err(format!("data block {i} mixes types"));
        }
        if bl.els.len() > max_block {
            return Err(format!("data block {i} holds {} elements, allowed are {max_block}", bl.els.len()));
        }
        if bl.zlib != zlib {
            return Err(format!("data block {i}: compressed is {}, asked for {zlib}", bl.zlib));
        }
    }
    match diff(want, &d.els()) {
        Some(x) => Err(format!("elements in the written file: {x}")),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ parallel writer
/// Order of arrival: each element at most `dis` places from its sorted place.
pub fn arrival(c: &Case) -> Vec<El> {
    let els = gen_els(c);
    let mut r = c.rng("arrival");
    let dis = c.u("dis") as u64;
    let calm = c.u("calm");
    let mut v: Vec<(u64, El)> = els.into_iter().enumerate().map(|(i, e)| (i as u64 + if i < calm { 0 } else { r.below(dis + 1) }, e)).collect();
    if c.flag("late") {
        // one element far from its place
        let n = v.len() as u64;
        if n > 1 {
            let a = r.below(n) as usize;
            let b = r.below(n) as usize;
            let x = v.remove(a);
            v.insert(b, x);
            return v.into_iter().map(|x| x.1).collect();
        }
    }
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

fn displacement(arr: &[El]) -> usize {
    let mut s: Vec<(&El, usize)> = arr.iter().enumerate().map(|(i, e)| (e, i)).collect();
    s.sort_by(|a, b| a.0.key().cmp(&b.0.key()).then(a.1.cmp(&b.1)));
    s.iter().enumerate().map(|(r, (_, p))| r.abs_diff(*p)).max().unwrap_or(0)
}

/// What any buffer of this size can repair, whatever its policy: see DESIGN.md.
fn tolerated(arr: &[El], buf: usize, block: usize) -> bool {
    let d = displacement(arr);
    d == 0 || d + block <= buf
}

pub fn new_pw(c: &Case, path: PathBuf, head: &Head) -> Result<ParallelWriter, anyhow::Error> {
    ParallelWriter::from_file_info(c.u("buf"), if c.flag("block0") { 0 } else { c.u("block").max(1) }, path, file_info(head), compression(c))
}

/// How many elements `feed` had passed on before the first call that failed.
static ACCEPTED: AtomicUsize = AtomicUsize::new(0);

/// Feeds the elements in the calls drawn from the case.
pub fn feed(c: &Case, w: &mut ParallelWriter, arr: Vec<El>, keep_going: bool) -> Result<(), anyhow::Error> {
    let mut r = c.rng("feed");
    let mode = c.get("calls");
    let mut it = arr.into_iter().peekable();
    let mut first: Result<(), anyhow::Error> = Ok(());
    let all = it.len();
    ACCEPTED.store(0, Ordering::SeqCst);
    while it.peek().is_some() {
        let before = all - it.len();
        let single = match mode {
            0 => true,
            1 => false,
            _ => r.chance(50),
        };
        let res = if single {
            if r.chance(c.get("sent_pct") as u64) {
                w.write_element(Element::Sentinel)
            } else {
                w.write_element(to_lib(&it.next().unwrap()))
            }
        } else {
            let k = r.below(c.u("batch") as u64 + 1) as usize;
            let mut v: Vec<Element> = it.by_ref().take(k).map(|e| to_lib(&e)).collect();
            if r.chance(c.get("sent_pct") as u64) {
                // anywhere: batches of parallel iteration may hold its markers
                v.insert(r.below(v.len() as u64 + 1) as usize, Element::Sentinel);
            }
            if k == 0 && !it.peek().is_none() && r.chance(30) {
                // an empty list is followed by something
                let e = it.next().unwrap();
                w.write_elements(v).and_then(|_| w.write_element(to_lib(&e)))
            } else {
                w.write_elements(v)
            }
        };
        rt::progress();
        if first.is_ok() {
            ACCEPTED.store(if res.is_ok() { all - it.len() } else { before }, Ordering::SeqCst);
        }
        if res.is_err() {
            if first.is_ok() {
                first = res;
            }
            if !keep_going {
                return first;
            }
        }
    }
    first
}

fn gen_pw(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    match r.below(30) {
        0 => {
            counts(r, &mut c, 500);
            c.set("plain", 1);
        }
        1..=9 => counts(r, &mut c, 60),
        _ => counts(r, &mut c, 14),
    }
    c.set("block", *r.pick(&[1, 1, 2, 3, 4, 8, 8, 64]));
    c.set("buf", *r.pick(&[0, 1, 2, 3, 4, 5, 8, 9, 16, 40, 100, 1000]));
    if r.below(300) == 0 {
        // the sizes that programs use
        counts(r, &mut c, 9000);
        c.set("plain", 1).set("block", 8000).set("buf", *r.pick(&[0, 8000, 16_000, 40_000]));
        // more texts in a block than 16 bits can number
        c.set("distinct", *r.pick(&[0, 0, 1, 5]));
        // in order for a long while at first
        c.set("calm", *r.pick(&[0, 1200, 5000, 9000]));
    }
    c.set("calls", r.range(0, 2));
    c.set("batch", *r.pick(&[1, 2, 5, 8, 9, 30]));
    c.set("sent_pct", *r.pick(&[0, 0, 10, 40]));
    if r.chance(6) {
        c.set("dup_pct", *r.pick(&[10, 50]));
    }
    set_prior(r, &mut c);
    // a header or an end that is asked for twice
    c.set("again", *r.pick(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3]));
    knobs::sched(r, &mut c);
    knobs::soft_io(r, &mut c);
    c
}
pub fn gen_c05(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_pw(r, t);
    let room = c.get("buf") - c.get("block");
    c.set("dis", if r.chance(15) { 0 } else if r.chance(60) { room.max(0) } else { r.range(0, room.max(0)) });
    c
}
pub fn pw_head(c: &Case) -> Head {
    gen_head(&mut c.rng("head"))
}

fn nothing(_: &Case, _: &Ctx) {}

fn sorted(mut v: Vec<El>) -> Vec<El> {
    v.sort_by_key(|e| e.key());
    v
}

fn run_c05(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let head = pw_head(c);
    let arr = arrival(c);
    let ok = tolerated(&arr, c.u("buf"), c.u("block").max(1));
    let want = sorted(arr.clone());
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
        let mut w = new_pw(c, ctx.path("out.pbf"), &head)?;
        w.write_header()?;
        if c.get("again") & 1 > 0 {
            w.write_header()?;
        }
        feed(c, &mut w, arr, false)?;
        w.close()?;
        if c.get("again") & 2 > 0 {
            // whatever it returns, it returns and leaves the file alone
            let _ = catch_unwind(AssertUnwindSafe(|| w.close()));
        }
        Ok(())
    }));
    rt::freeze();
    match res {
        Ok(Ok(())) => {
            rt::user_add(0, want.len() as u64);
            judge_file(&ctx.path("out.pbf"), &head, &want, c.u("block").max(1), c.flag("zlib"))
        }
        _ if !ok => Ok(()),
        Ok(Err(e)) => Err(format!("writing failed although nothing went wrong: {e:#}")),
        Err(p) => Err(format!("writing panicked although nothing went wrong: {}", panic_text(&p))),
    }
}

/// several producers share the writer behind a mutex
fn gen_c05_shared(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_pw(r, t);
    let total = c.get("n") + c.get("w") + c.get("r");
    c.set("dup_pct", 0);
    c.set("buf", total + c.get("block") + 1);
    c.set("producers", r.range(2, 4));
    c
}
fn run_c05_shared(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let head = pw_head(c);
    let arr = arrival(c);
    let room = c.u("buf") > arr.len();
    let want = sorted(arr.clone());
    let path = ctx.path("out.pbf");
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
        let mut w = new_pw(c, path.clone(), &head)?;
        w.write_header()?;
        let w = Arc::new(Mutex::new(w));
        let k = c.u("producers").max(1);
        let mut hs = Vec::new();
        for t in 0..k {
            let mine: Vec<El> = arr.iter().skip(t).step_by(k).cloned().collect();
            let w = w.clone();
            let single = c.get("calls") == 0;
            let b = c.u("batch").max(1);
            hs.push(std::thread::spawn(move || -> Result<(), anyhow::Error> {
                for part in mine.chunks(if single { 1 } else { b }) {
                    let mut g = w.lock().unwrap();
                    if single {
                        g.write_element(to_lib(&part[0]))?;
                    } else {
                        g.write_elements(part.iter().map(to_lib).collect())?;
                    }
                    rt::progress();
                }
                Ok(())
            }));
        }
        for h in hs {
            h.join().map_err(|_| anyhow::anyhow!("producer panicked"))??;
        }
        let mut g = w.lock().unwrap();
        g.close()
    }));
    rt::freeze();
    match res {
        Ok(Ok(())) => judge_file(&path, &head, &want, c.u("block").max(1), c.flag("zlib")),
        _ if !room => Ok(()),
        Ok(Err(e)) => Err(format!("writing failed although nothing went wrong: {e:#}")),
        Err(p) => Err(format!("writing panicked although nothing went wrong: {}", panic_text(&p))),
    }
}

// C06: any disorder
pub fn gen_c06(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_pw(r, t);
    c.set("buf", *r.pick(&[0, 0, 1, 2, 3, 4, 5, 8, 16]));
    if r.chance(40) {
        c.set("late", 1);
    } else {
        let b = c.get("buf");
        c.set("dis", if r.chance(40) { r.range(b.saturating_sub(c.get("block")).max(0), b + 4) } else { r.range(1, 60) });
    }
    c.set("keep_going", r.chance(40) as i64);
    c.set("after", r.range(0, 2));
    // a size that no block can have
    c.set("block0", (r.below(100) == 0) as i64);
    c
}
fn run_c06(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let head = pw_head(c);
    let arr = arrival(c);
    let want = sorted(arr.clone());
    let res = drive_to_end(c, ctx.path("out.pbf"), &head, arr.clone());
    rt::freeze();
    match res {
        Ok(Ok(())) => judge_file(&ctx.path("out.pbf"), &head, &want, c.u("block").max(1), c.flag("zlib"))
            .map_err(|e| format!("every call succeeded although the buffer cannot restore the order: {e}")),
        _ => {
            rt::user_add(1, 1);
            closed_after_failure(&ctx.path("out.pbf"), &arr, 0)
        }
    }
}

/// Some call of close reported success.
static CLOSED: AtomicBool = AtomicBool::new(false);

/// Closing has succeeded although an earlier call failed: the file is valid and sorted, and what had been
/// accepted before the failure is there.
fn closed_after_failure(path: &Path, arr: &[El], accepted: usize) -> Result<(), String> {
    if !CLOSED.load(Ordering::SeqCst) {
        return Ok(());
    }
    let why = "closing succeeded after an earlier failure";
    let d = model::decode_file(&read_file(path)?, true).map_err(|e| format!("{why}, but the written file is not valid: {e}"))?;
    let mut got = d.els();
    if let Some(i) = (1..got.len()).find(|i| got[*i].key() < got[i - 1].key()) {
        return Err(format!("{why}, but the elements are not sorted at position {i}"));
    }
    for e in sorted(arr[..accepted.min(arr.len())].to_vec()) {
        match got.iter().position(|g| *g == e) {
            Some(i) => drop(got.remove(i)),
            None => return Err(format!("{why}, but an element accepted before is missing: {e:?}")),
        }
    }
    Ok(())
}

/// Ok only if every call succeeded. After a failure: 0 close, 1 drop, 2 close and drop.
fn drive_to_end(c: &Case, path: PathBuf, head: &Head, arr: Vec<El>) -> std::thread::Result<Result<(), anyhow::Error>> {
    CLOSED.store(false, Ordering::SeqCst);
    ACCEPTED.store(0, Ordering::SeqCst);
    let w = catch_unwind(AssertUnwindSafe(|| new_pw(c, path, head)));
    let mut w = match w {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => return Ok(Err(e)),
        Err(p) => return Err(p),
    };
    let go = c.flag("keep_going");
    let fed = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
        let mut a = w.write_header();
        if c.get("again") & 1 > 0 {
            a = a.and(w.write_header());
        }
        if a.is_err() && !go {
            return a;
        }
        let b = feed(c, &mut w, arr, go);
        a.and(b)
    }));
    let failed = !matches!(fed, Ok(Ok(())));
    let mut out = fed;
    if !failed || c.get("after") != 1 {
        let closed = catch_unwind(AssertUnwindSafe(|| w.close()));
        if c.get("again") & 2 > 0 {
            // somebody hopes that it works the second time
            let again = catch_unwind(AssertUnwindSafe(|| w.close()));
            CLOSED.fetch_or(matches!(again, Ok(Ok(()))), Ordering::SeqCst);
        }
        CLOSED.fetch_or(matches!(closed, Ok(Ok(()))), Ordering::SeqCst);
        if !failed {
            out = closed;
        }
    }
    rt::progress();
    if c.get("after") != 0 {
        let _ = catch_unwind(AssertUnwindSafe(move || drop(w)));
    } else {
        std::mem::forget(w);
    }
    out
}

// C07
fn gen_c07(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_c05(r, t);
    knobs::hard_write(r, &mut c);
    knobs::thread_fail(r, &mut c);
    c.set("keep_going", r.chance(40) as i64);
    c.set("after", r.range(0, 2));
    c
}
fn run_c07(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let head = pw_head(c);
    let arr = arrival(c);
    let ok = tolerated(&arr, c.u("buf"), c.u("block").max(1));
    let want = sorted(arr.clone());
    let res = drive_to_end(c, ctx.path("out.pbf"), &head, arr.clone());
    rt::freeze();
    let hard = rt::hard_faults();
    match res {
        Ok(Ok(())) => judge_file(&ctx.path("out.pbf"), &head, &want, c.u("block").max(1), c.flag("zlib"))
            .map_err(|e| format!("every call succeeded after {hard} failed storage calls but {e}")),
        _ if hard > 0 || !ok => {
            rt::user_add(1, 1);
            closed_after_failure(&ctx.path("out.pbf"), &arr, ACCEPTED.load(Ordering::SeqCst))
        }
        Ok(Err(e)) => Err(format!("failure reported although no storage call failed: {e:#}")),
        Err(p) => Err(format!("panic although no storage call failed: {}", panic_text(&p))),
    }
}
/// the target cannot be created at all
fn gen_c07_nodir(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_c05(r, t);
    c.set("keep_going", r.chance(60) as i64);
    c.set("after", r.range(0, 2));
    c.set("kind", r.range(0, 1));
    c
}
fn setup_nodir(c: &Case, ctx: &Ctx) {
    if c.get("kind") == 1 {
        std::fs::create_dir(ctx.path("out.pbf")).unwrap();
    }
}
fn run_c07_nodir(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let head = pw_head(c);
    let path = if c.get("kind") == 1 { ctx.path("out.pbf") } else { ctx.path("missing/out.pbf") };
    let res = drive_to_end(c, path.clone(), &head, arrival(c));
    rt::freeze();
    if let Ok(Ok(())) = res {
        // a writer may create the folder, but then the file has to be there
        return judge_file(&path, &head, &gen_els(c), c.u("block").max(1), c.flag("zlib"))
            .map_err(|e| format!("every call succeeded although the file cannot be created: {e}"));
    }
    rt::user_add(1, 1);
    Ok(())
}

// ------------------------------------------------------------------ C08 sequential writer
pub fn gen_seq(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    if r.chance(3) {
        counts(r, &mut c, 20);
        c.set("plain", 1);
        let k = *r.pick(&["n", "w", "r"]);
        c.set(k, *r.pick(&[7999, 8000, 8001, 15999, 16000, 16001]));
        c.set("distinct", *r.pick(&[0, 0, 0, 5]));
    } else {
        counts(r, &mut c, 25);
    }
    c.set("calls", r.range(0, 2));
    c.set("batch", *r.pick(&[1, 2, 5, 8, 30]));
    c.set("sent_pct", *r.pick(&[0, 0, 0, 20]));
    c.set("ctor", r.range(0, 1));
    c.set("again", r.chance(8) as i64);
    c.set("raw", r.chance(15) as i64);
    set_prior(r, &mut c);
    if r.chance(60) {
        knobs::soft_io(r, &mut c);
    }
    c
}
fn gen_c08_complete(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_seq(r, t);
    c.set("mid", r.chance(10) as i64);
    c
}
pub fn seq_head(c: &Case) -> Head {
    let mut h = gen_head(&mut c.rng("head"));
    if c.get("ctor") == 1 {
        // the other constructor decides the features
        let hist = h.required.iter().any(|f| f == "HistoricalInformation");
        h.required = vec!["OsmSchema-V0.6".into(), "DenseNodes".into()];
        if hist {
            h.required.push("HistoricalInformation".into());
        }
        h.optional = vec!["Sort.Type_then_ID".into()];
        h.program.get_or_insert(String::new());
        h.source.get_or_insert(String::new());
    }
    h
}
pub fn new_seq(c: &Case, path: PathBuf, h: &Head) -> Result<Writer, anyhow::Error> {
    if c.get("ctor") == 1 {
        Writer::new(
            path,
            h.program.as_ref().unwrap(),
            h.source.as_ref().unwrap(),
            h.rep_ts,
            h.rep_seq,
            h.rep_url.clone(),
            compression(c),
            file_info(h).bounding_box().clone(),
            h.required.len() == 3,
        )
    } else {
        Writer::from_file_info(path, file_info(h), compression(c))
    }
}
pub fn feed_seq(c: &Case, w: &mut Writer, els: &[El]) -> Result<(), anyhow::Error> {
    let mut r = c.rng("feed");
    let mode = c.get("calls");
    let mut i = 0;
    // elements that were written one by one may wait for more
    let mut waiting = false;
    while i < els.len() {
        if mode == 0 || mode == 2 && r.chance(50) {
            if r.chance(c.get("sent_pct") as u64) {
                w.write_element(Element::Sentinel)?;
            }
            w.write_element(to_lib(&els[i]))?;
            i += 1;
            waiting = true;
        } else if c.flag("raw") && !waiting && r.chance(40) {
            // a block that somebody else has encoded
            let k = (i + 1 + r.below(c.u("batch") as u64) as usize).min(els.len());
            let l = model::Layout { zlib: c.flag("zlib"), ..Default::default() };
            let blob = model::encode_blob("OSMData", &model::encode_block(&els[i..k], &l), &l);
            let n = 4 + u32::from_be_bytes(blob[..4].try_into()?) as usize;
            w.write_blob(blob[4..n].to_vec(), blob[n..].to_vec())?;
            i = k;
        } else {
            let k = (i + r.below(c.u("batch") as u64 + 1) as usize).min(els.len());
            let mut list: Vec<Element> = els[i..k].iter().map(to_lib).collect();
            if r.chance(c.get("sent_pct") as u64) {
                // batches of parallel iteration may hold its markers
                list.insert(r.below(list.len() as u64 + 1) as usize, Element::Sentinel);
            }
            w.write_elements(list)?;
            i = k;
            waiting = r.chance(20) && i < els.len();
            if waiting {
                w.write_element(to_lib(&els[i]))?;
                i += 1;
            }
        }
        rt::progress();
    }
    Ok(())
}
/// lists passed to write_elements become blocks as they are
pub fn judge_seq(p: &Path, head: &Head, want: &[El], zlib: bool, one_by_one: bool) -> Result<(), String> {
    let b = read_file(p)?;
    let d = model::decode_file(&b, false).map_err(|e| format!("the written file is not valid: {e}"))?;
    if d.head.as_ref() != Some(head) {
        return Err(format!("header written: {head:?}, header in the file: {:?}", d.head));
    }
    if let Some(bl) = d.blocks.iter().find(|b| b.zlib != zlib) {
        return Err(format!("a block has compression {}, asked for {zlib}", bl.zlib));
    }
    if let Some((i, bl)) = d.blocks.iter().enumerate().find(|(_, b)| one_by_one && (b.els.is_empty() || b.els.len() > 8000 || b.els.iter().any(|e| e.kind != b.els[0].kind))) {
        return Err(format!("data block {i} of elements written one by one holds {} elements, types {:?} to {:?}", bl.els.len(), bl.els.first().map(|e| e.kind), bl.els.last().map(|e| e.kind)));
    }
    match diff(want, &d.els()) {
        Some(x) => Err(format!("elements in the written file: {x}")),
        None => Ok(()),
    }
}
fn run_c08(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let head = seq_head(c);
    let els = gen_els(c);
    let path = ctx.path("out.pbf");
    let mut done = els.len();
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<Writer, anyhow::Error> {
        let mut w = new_seq(c, path.clone(), &head)?;
        w.write_header()?;
        if c.flag("mid") {
            // a writer that was closed may take more, or refuse it
            let k = c.rng("mid").below(els.len() as u64 + 1) as usize;
            feed_seq(c, &mut w, &els[..k])?;
            w.close()?;
            done = k;
            if feed_seq(c, &mut w, &els[k..]).is_ok() && w.close().is_ok() {
                done = els.len();
            }
            return Ok(w);
        }
        feed_seq(c, &mut w, &els)?;
        w.close()?;
        if c.flag("again") {
            w.close()?;
        }
        // from here on the process may die
        rt::user_add(3, 1);
        for _ in 0..200 {
            rt::point();
        }
        Ok(w)
    }));
    rt::freeze();
    let hard = rt::hard_faults();
    match res {
        // judged while the writer is still alive: nothing may wait in its memory
        Ok(Ok(_w)) => judge_seq(&path, &head, &els[..done], c.flag("zlib"), c.get("calls") == 0)
            .map_err(|e| if hard > 0 { format!("every call succeeded after {hard} failed storage calls but {e}") } else { e }),
        _ if hard > 0 => {
            rt::user_add(1, 1);
            Ok(())
        }
        Ok(Err(e)) => Err(format!("writing failed although nothing went wrong: {e:#}")),
        Err(p) => Err(format!("writing panicked although nothing went wrong: {}", panic_text(&p))),
    }
}
fn gen_c08_faults(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_seq(r, t);
    knobs::hard_write(r, &mut c);
    c
}
pub fn crash(r: &mut Rng, c: &mut Case, max_io: i64) {
    if r.chance(60) {
        c.fault(rt::F_CRASH_IO, 1_000_000);
    } else {
        c.fault(rt::F_CRASH_STEP, 1_000_000);
    }
    c.set("crash_lo", 1);
    c.set("crash_hi", *r.pick(&[4, 12, 40, max_io]));
}
fn gen_c08_crash(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_seq(r, t);
    crash(r, &mut c, 150);
    c
}
fn post_c08(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let head = seq_head(c);
    let els = gen_els(c);
    let path = ctx.path("out.pbf");
    if rt::user_get(3) > 0 {
        return judge_seq(&path, &head, &els, c.flag("zlib"), c.get("calls") == 0).map_err(|e| format!("the process died after close had succeeded: {e}"));
    }
    let b = match std::fs::read(&path) {
        Ok(b) => b,
        Err(_) => return Ok(()),
    };
    if c.get("prior") > 0 && b == old_file(c) {
        return Ok(()); // died before the file was touched
    }
    let d = model::decode_file(&b, true).map_err(|e| format!("what was written before the end of the process is not a prefix of a file: {e}"))?;
    if let Some(h) = &d.head {
        if *h != head {
            return Err(format!("header written: {head:?}, header in the file: {h:?}"));
        }
    }
    let got = d.els();
    if got.len() > els.len() || got[..] != els[..got.len()] {
        return Err(format!("the whole blocks left behind are not a prefix of the written elements: {}", diff(&els[..got.len().min(els.len())], &got).unwrap_or_default()));
    }
    rt::user_add(4, got.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------ C14 pipelines
fn gen_c14(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    c.set("blocks", if r.chance(8) { r.range(10, 40) } else { r.range(0, 9) }).set("per_block", r.range(1, 9));
    c.set("wild", r.chance(50) as i64).set("fit", 1);
    c.set("empty_pct", *r.pick(&[0, 0, 0, 15]));
    c.set("tasks", *r.pick(&[1, 2, 2, 3, 4]));
    c.set("block", *r.pick(&[1, 2, 3, 8, 8, 64]));
    let total = c.get("blocks") * c.get("per_block");
    c.set("buf", if r.chance(70) { total + c.get("block") + 1 } else { r.range(0, total + 1) });
    if r.below(200) == 0 {
        // the sizes that programs use
        c.set("blocks", r.range(1, 3)).set("per_block", *r.pick(&[300, 2500, 8000])).set("distinct", *r.pick(&[0, 0, 5]));
        c.set("block", 8000).set("buf", *r.pick(&[30_000, 30_000, 8000, 16_000]));
    }
    c.set("cap", *r.pick(&[0, 1, 8, 8000]));
    c.set("zlib", r.chance(70) as i64);
    // 0 batches on the marker, 1 element by element, 2 sequential copy, 3 block by block
    c.set("how", *r.pick(&[0, 0, 0, 1, 2, 3]));
    knobs::sched(r, &mut c);
    knobs::soft_io(r, &mut c);
    c
}
fn blocks_c14(c: &Case) -> Vec<(Vec<El>, model::Layout)> {
    // content at the resolution the writer keeps
    let mut b = read::gen_blocks(c);
    for (es, l) in b.iter_mut() {
        l.granularity = 100;
        l.lat_off = 0;
        l.lon_off = 0;
        l.date_gran = 1000;
        for e in es.iter_mut() {
            e.lat = e.lat / 100 * 100;
            e.lon = e.lon / 100 * 100;
            e.ts = e.ts / 1000 * 1000;
        }
    }
    b
}
fn c14_head(c: &Case) -> Head {
    gen_head(&mut c.rng("head"))
}
fn setup_c14(c: &Case, ctx: &Ctx) {
    let (bytes, _) = model::encode_file(&c14_head(c), &blocks_c14(c));
    std::fs::write(ctx.path("in.pbf"), bytes).unwrap();
}
/// The pipeline of the examples.
pub fn copy_parallel(c: &Case, src: &Path, dst: PathBuf) -> Result<(), anyhow::Error> {
    let reader = Reader::new(src)?;
    let info = reader.info().clone();
    let w = Arc::new(Mutex::new(ParallelWriter::from_file_info(c.u("buf"), c.u("block").max(1), dst, info, compression(c))?));
    w.lock().unwrap().write_header()?;
    let w2 = w.clone();
    if c.get("how") == 0 {
        let acc = ThreadLocalAccumulator::new(c.u("cap"));
        reader.parallel_for_each(c.u("tasks"), move |e| {
            if e.is_sentinel() {
                w2.lock().unwrap().write_elements(acc.elements())?;
            } else {
                acc.add(e);
            }
            rt::progress();
            Ok(())
        })?;
    } else {
        reader.parallel_for_each(c.u("tasks"), move |e| {
            rt::progress();
            w2.lock().unwrap().write_element(e)
        })?;
    }
    let r = w.lock().unwrap().close();
    r
}
pub fn copy_sequential(c: &Case, src: &Path, dst: PathBuf) -> Result<(), anyhow::Error> {
    let reader = Reader::new(src)?;
    let mut w = Writer::from_file_info(dst, reader.info().clone(), compression(c))?;
    if c.get("how") == 3 {
        for b in reader.blocks()? {
            w.write_file_block(b)?;
            rt::progress();
        }
        return w.close();
    }
    w.write_header()?;
    for e in reader.elements()? {
        w.write_element(e)?;
        rt::progress();
    }
    w.close()
}
fn run_c14(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let seq = c.get("how") >= 2;
    let res = catch_unwind(AssertUnwindSafe(|| {
        if seq {
            copy_sequential(c, &ctx.path("in.pbf"), ctx.path("out.pbf"))
        } else {
            copy_parallel(c, &ctx.path("in.pbf"), ctx.path("out.pbf"))
        }
    }));
    rt::freeze();
    let want = sorted(blocks_c14(c).into_iter().flat_map(|b| b.0).collect());
    let roomy = c.u("buf") >= want.len() + c.u("block");
    match res {
        Ok(Ok(())) if seq => judge_seq(&ctx.path("out.pbf"), &c14_head(c), &want, c.flag("zlib"), false),
        Ok(Ok(())) => judge_file(&ctx.path("out.pbf"), &c14_head(c), &want, c.u("block").max(1), c.flag("zlib")),
        // the schedule may bring the blocks in any order, a small buffer cannot always repair it
        _ if !roomy && !seq && c.get("tasks") > 1 => {
            rt::user_add(1, 1);
            Ok(())
        }
        Ok(Err(e)) if !seq && !roomy => {
            // a single task delivers in file order
            Err(format!("copying in file order failed: {e:#}"))
        }
        Ok(Err(e)) => Err(format!("copying failed although nothing went wrong: {e:#}")),
        Err(p) => Err(format!("copying panicked although nothing went wrong: {}", panic_text(&p))),
    }
}

// ------------------------------------------------------------------ C15 accumulators
fn gen_c15(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    c.set("threads", r.range(1, 4)).set("accs", r.range(1, 4)).set("ops", r.range(1, 40));
    if r.chance(5) {
        c.set("threads", r.range(1, 12)).set("accs", r.range(1, 20)).set("ops", r.range(1, 150));
    }
    c.set("cap", *r.pick(&[0, 1, 3, 100])).set("recreate", r.chance(30) as i64);
    // how much is added between two takes, and how quickly accumulators come and go
    c.set("take_pct", *r.pick(&[33, 33, 10, 2])).set("new_pct", *r.pick(&[15, 15, 50]));
    match r.below(100) {
        0..=3 => {
            c.set("ops", r.range(300, 4000)).set("take_pct", *r.pick(&[0, 0, 1])).set("accs", r.range(1, 3)).set("threads", r.range(1, 3));
        }
        4..=6 => {
            c.set("recreate", 1).set("new_pct", 80).set("ops", r.range(300, 1500));
        }
        _ => {}
    }
    knobs::sched(r, &mut c);
    c
}
fn node(id: i64) -> Element {
    to_lib(&El {
        kind: match id % 3 {
            0 => Kind::N,
            1 => Kind::W,
            _ => Kind::R,
        },
        id,
        version: 1,
        lat: 0,
        lon: 0,
        ts: 1000,
        changeset: 1,
        uid: 1,
        user: "u".into(),
        visible: true,
        tags: vec![],
        refs: vec![],
        members: vec![],
    })
}
fn run_c15(c: &Case, _ctx: &Ctx) -> Result<(), String> {
    let accs: Arc<Vec<ThreadLocalAccumulator>> = Arc::new((0..c.u("accs").max(1)).map(|_| ThreadLocalAccumulator::new(c.u("cap"))).collect());
    let bad: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let mut hs = Vec::new();
    for t in 0..c.u("threads").max(1) {
        let (accs, bad, c) = (accs.clone(), bad.clone(), c.clone());
        hs.push(std::thread::spawn(move || {
            let mut r = c.rng(&format!("t{t}"));
            // the shared accumulators and this thread's own ones
            let mut model: BTreeMap<usize, Vec<i64>> = BTreeMap::new();
            let mut own: Vec<(usize, ThreadLocalAccumulator)> = Vec::new();
            let mut next_own = 1000;
            for i in 0..c.u("ops") {
                let pick_own = !own.is_empty() && r.chance(30);
                let oi = if pick_own { r.below(own.len() as u64) as usize } else { 0 };
                let (k, a): (usize, &ThreadLocalAccumulator) = if pick_own {
                    (own[oi].0, &own[oi].1)
                } else {
                    let k = r.below(accs.len() as u64) as usize;
                    (k, &accs[k])
                };
                let what = if r.chance(c.get("take_pct") as u64) {
                    3
                } else if r.chance(c.get("new_pct") as u64) {
                    5
                } else {
                    0
                };
                match what {
                    0 => {
                        let id = (t as i64 + 1) * 1_000_000 + i as i64;
                        a.add(node(id));
                        model.entry(k).or_default().push(id);
                    }
                    3 => {
                        let got: Vec<i64> = a.elements().iter().map(|e| from_lib(e).map(|e| e.id).unwrap_or(-1)).collect();
                        let want = model.remove(&k).unwrap_or_default();
                        if got != want {
                            let m = format!("thread {t}, accumulator {k}: taking returned {got:?}, added since the last take: {want:?}");
                            rt::atomically(|| *bad.lock().unwrap() = Some(m));
                        }
                    }
                    _ if c.flag("recreate") => {
                        if own.len() > 2 {
                            let (k, _) = own.remove(0);
                            model.remove(&k);
                        }
                        own.push((next_own, ThreadLocalAccumulator::new(c.u("cap"))));
                        next_own += 1;
                    }
                    _ => rt::yield_now(),
                }
                rt::progress();
            }
            for (k, want) in model {
                let a = if k >= 1000 { &own.iter().find(|o| o.0 == k).unwrap().1 } else { &accs[k] };
                let got: Vec<i64> = a.elements().iter().map(|e| from_lib(e).map(|e| e.id).unwrap_or(-1)).collect();
                if got != want {
                    let m = format!("thread {t}, accumulator {k}: the last take returned {got:?}, added since the take before: {want:?}");
                    rt::atomically(|| *bad.lock().unwrap() = Some(m));
                }
                if !a.elements().is_empty() {
                    let m = format!("thread {t}, accumulator {k}: not empty after a take");
                    rt::atomically(|| *bad.lock().unwrap() = Some(m));
                }
            }
        }));
    }
    let mut died = None;
    for h in hs {
        if let Err(p) = h.join() {
            died = Some(panic_text(&p));
        }
    }
    // the main thread added nothing
    let stray: usize = accs.iter().map(|a| a.elements().len()).sum();
    rt::freeze();
    if let Some(m) = died {
        return Err(format!("panic: {m}"));
    }
    if stray > 0 {
        return Err(format!("{stray} elements turned up on a thread that added none"));
    }
    let b = bad.lock().unwrap().take();
    b.map_or(Ok(()), Err)
}

// ------------------------------------------------------------------ C16 independent instances
fn gen_c16(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    c.set("jobs", r.range(2, 4));
    c.set("blocks", r.range(1, 6)).set("per_block", r.range(1, 6)).set("wild", 0);
    counts(r, &mut c, 10);
    c.set("plain", 1);
    c.set("block", *r.pick(&[1, 2, 4, 8]));
    let room = r.range(0, 10);
    c.set("buf", c.get("block") + room);
    c.set("calls", r.range(0, 2)).set("batch", *r.pick(&[1, 3, 8]));
    c.set("tasks", *r.pick(&[1, 2, 3]));
    c.set("kinds", (r.next() >> 40) as i64);
    knobs::sched(r, &mut c);
    knobs::soft_io(r, &mut c);
    if r.chance(60) {
        // job 0 works on failing storage
        c.set("bad", 1);
        knobs::hard_write(r, &mut c);
        knobs::hard_read(r, &mut c);
    }
    c
}
fn job_case(c: &Case, j: usize) -> Case {
    let mut k = c.clone();
    k.set("data_seed", c.get("data_seed") ^ (j as i64 * 7919));
    k.set("zlib", (j % 2) as i64);
    k.set("block", c.get("block") + j as i64);
    k.set("buf", c.get("buf") + 2 * j as i64);
    k.set("dis", (k.get("buf") - k.get("block").max(1)).max(0));
    k
}
fn job_kind(c: &Case, j: usize) -> i64 {
    c.get("kinds").max(0) / [1, 7, 49, 343, 2401][j % 5] % 7 % 5
}
fn job_dir(ctx: &Ctx, c: &Case, j: usize) -> PathBuf {
    ctx.path(&if j == 0 && c.flag("bad") { format!("bad{j}") } else { format!("job{j}") })
}
fn setup_c16(c: &Case, ctx: &Ctx) {
    for j in 0..c.u("jobs").max(1) {
        let d = job_dir(ctx, c, j);
        std::fs::create_dir_all(&d).unwrap();
        let (bytes, _) = model::encode_file(&Head::simple(), &read::gen_blocks(&job_case(c, j)));
        std::fs::write(d.join("in.pbf"), bytes).unwrap();
    }
}
enum JobOut {
    File,
    Els(Vec<El>),
}
fn run_c16(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let mut hs = Vec::new();
    let jobs = c.u("jobs").max(1);
    for j in 0..jobs {
        let k = job_case(c, j);
        let kind = job_kind(c, j);
        let d = job_dir(ctx, c, j);
        hs.push(std::thread::spawn(move || -> Result<JobOut, anyhow::Error> {
            let head = pw_head(&k);
            match kind {
                0 | 1 => {
                    let mut w = new_pw(&k, d.join("out.pbf"), &head)?;
                    w.write_header()?;
                    feed(&k, &mut w, arrival(&k), false)?;
                    w.close()?;
                    Ok(JobOut::File)
                }
                2 => {
                    let mut w = Writer::from_file_info(d.join("out.pbf"), file_info(&head), compression(&k))?;
                    w.write_header()?;
                    feed_seq(&k, &mut w, &gen_els(&k))?;
                    w.close()?;
                    Ok(JobOut::File)
                }
                3 => {
                    let v = Arc::new(Mutex::new(Vec::new()));
                    let v2 = v.clone();
                    let acc = ThreadLocalAccumulator::new(4);
                    Reader::new(&d.join("in.pbf"))?.parallel_for_each(k.u("tasks").max(1), move |e| {
                        if e.is_sentinel() {
                            let es = acc.elements();
                            rt::atomically(|| v2.lock().unwrap().extend(es.iter().filter_map(from_lib)));
                        } else {
                            acc.add(e);
                        }
                        rt::progress();
                        Ok(())
                    })?;
                    let mut v = rt::atomically(|| std::mem::take(&mut *v.lock().unwrap()));
                    v.sort();
                    Ok(JobOut::Els(v))
                }
                _ => {
                    let mut v = Vec::new();
                    for e in Reader::new(&d.join("in.pbf"))?.elements()? {
                        v.extend(from_lib(&e));
                        rt::progress();
                    }
                    v.sort();
                    Ok(JobOut::Els(v))
                }
            }
        }));
    }
    let outs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
    rt::freeze();
    for (j, out) in outs.into_iter().enumerate() {
        let k = job_case(c, j);
        let d = job_dir(ctx, c, j);
        let kind = job_kind(c, j);
        let name = ["parallel writer", "parallel writer", "sequential writer", "parallel reader", "sequential reader"][kind as usize];
        let excused = j == 0 && c.flag("bad") && rt::hard_faults() > 0;
        let r = match out {
            Ok(Ok(JobOut::File)) if kind <= 1 => judge_file(&d.join("out.pbf"), &pw_head(&k), &sorted(arrival(&k)), k.u("block").max(1), k.flag("zlib")),
            Ok(Ok(JobOut::File)) => judge_seq(&d.join("out.pbf"), &pw_head(&k), &gen_els(&k), k.flag("zlib"), false),
            Ok(Ok(JobOut::Els(v))) => {
                let mut want = read::expected(&k).concat();
                want.sort();
                diff(&want, &v).map_or(Ok(()), |x| Err(format!("elements read: {x}")))
            }
            _ if excused => Ok(()),
            Ok(Err(e)) => Err(format!("failed although its storage is sound: {e:#}")),
            Err(p) => Err(format!("panicked although its storage is sound: {}", panic_text(&p))),
        };
        r.map_err(|e| format!("{name}, job {j} of {jobs} at the same time: {e}"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C18 headers
fn gen_c18(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    c.set("gens", r.range(1, 4)).set("zlib", r.chance(60) as i64);
    c.set("par_pct", *r.pick(&[0, 50, 100]));
    c.set("foreign", r.chance(50) as i64);
    c.set("n", r.range(0, 3)).set("plain", 1);
    knobs::soft_io(r, &mut c);
    if r.chance(50) {
        knobs::sched(r, &mut c);
    }
    c
}
fn setup_c18(c: &Case, ctx: &Ctx) {
    if c.flag("foreign") {
        let l = model::Layout { zlib: c.flag("zlib"), ..Default::default() };
        let (bytes, _) = model::encode_file(&gen_head(&mut c.rng("head")), &[(gen_els(c), l)]);
        std::fs::write(ctx.path("g0.pbf"), bytes).unwrap();
    }
}
fn run_c18(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let head = gen_head(&mut c.rng("head"));
    let mut r = c.rng("gens");
    let mut seen: Vec<Head> = Vec::new();
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
        let mut info = file_info(&head);
        if c.flag("foreign") {
            info = Reader::new(&ctx.path("g0.pbf"))?.info().clone();
            seen.push(head_of(&info));
        }
        for g in 1..=c.u("gens").max(1) {
            let p = ctx.path(&format!("g{g}.pbf"));
            if r.chance(c.get("par_pct") as u64) {
                let mut w = ParallelWriter::from_file_info(10, 8, p.clone(), info, compression(c))?;
                w.write_header()?;
                w.write_elements(gen_els(c).iter().map(to_lib).collect())?;
                w.close()?;
            } else {
                let mut w = Writer::from_file_info(p.clone(), info, compression(c))?;
                w.write_header()?;
                for e in gen_els(c) {
                    w.write_element(to_lib(&e))?;
                }
                w.close()?;
            }
            rt::progress();
            info = Reader::new(&p)?.info().clone();
            seen.push(head_of(&info));
        }
        Ok(())
    }));
    rt::freeze();
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("writing and reading a header failed: {e:#}")),
        Err(p) => return Err(format!("writing and reading a header panicked: {}", panic_text(&p))),
    }
    for (g, h) in seen.iter().enumerate() {
        if *h != head {
            return Err(format!("header given: {head:?}, header reported after generation {g}: {h:?}"));
        }
    }
    let last = read_file(&ctx.path(&format!("g{}.pbf", c.u("gens").max(1))))?;
    let d = model::decode_file(&last, false).map_err(|e| format!("the written file is not valid: {e}"))?;
    if d.head.as_ref() != Some(&head) {
        return Err(format!("header given: {head:?}, header in the file: {:?}", d.head));
    }
    Ok(())
}
fn gen_c18_refuse(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    c.set("which", r.range(0, 5)).set("pos", r.range(0, 3)).set("zlib", r.chance(60) as i64).set("n", 2).set("plain", 1);
    c.set("optional", r.chance(30) as i64);
    knobs::soft_io(r, &mut c);
    c
}
fn refuse_head(c: &Case) -> Head {
    let mut h = gen_head(&mut c.rng("head"));
    let f = ["LocationsOnWays", "osmschema-v0.6", "OsmSchema-V0.7", "", "DenseNodes ", "Sort.Geographic"][c.u("which") % 6].to_string();
    if c.flag("optional") {
        h.optional.push(f);
    } else {
        h.required.insert(c.u("pos").min(h.required.len()), f);
    }
    h
}
fn setup_refuse(c: &Case, ctx: &Ctx) {
    let l = model::Layout { zlib: c.flag("zlib"), ..Default::default() };
    let (bytes, _) = model::encode_file(&refuse_head(c), &[(gen_els(c), l)]);
    std::fs::write(ctx.path("in.pbf"), bytes).unwrap();
}
fn run_refuse(c: &Case, ctx: &Ctx) -> Result<(), String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let res = catch_unwind(AssertUnwindSafe(|| Reader::new(&ctx.path("in.pbf")).map(|r| head_of(r.info()))));
    rt::freeze();
    N.fetch_add(1, Ordering::SeqCst);
    let h = refuse_head(c);
    match res {
        Ok(Ok(got)) if c.flag("optional") => {
            if got == h {
                Ok(())
            } else {
                Err(format!("header in the file: {h:?}, header reported: {got:?}"))
            }
        }
        Ok(Ok(_)) => Err(format!("a file that requires {:?} was opened", h.required)),
        Ok(Err(e)) if c.flag("optional") => Err(format!("a file with an unknown optional feature was refused: {e:#}")),
        Err(p) if c.flag("optional") => Err(format!("a file with an unknown optional feature: panic: {}", panic_text(&p))),
        _ => Ok(()),
    }
}

pub static SCENARIOS: &[Scenario] = &[
    Scenario { prop: "C05", name: "one_producer", weight: 3, gen: gen_c05, setup: prior, run: run_c05, post: None, filters: &[] },
    Scenario { prop: "C05", name: "shared", weight: 1, gen: gen_c05_shared, setup: prior, run: run_c05_shared, post: None, filters: &[] },
    Scenario { prop: "C06", name: "disorder", weight: 1, gen: gen_c06, setup: prior, run: run_c06, post: None, filters: &[] },
    Scenario { prop: "C07", name: "faults", weight: 5, gen: gen_c07, setup: prior, run: run_c07, post: None, filters: &[] },
    Scenario { prop: "C07", name: "cannot_create", weight: 1, gen: gen_c07_nodir, setup: setup_nodir, run: run_c07_nodir, post: None, filters: &[] },
    Scenario { prop: "C08", name: "complete", weight: 1, gen: gen_c08_complete, setup: prior, run: run_c08, post: None, filters: &[] },
    Scenario { prop: "C08", name: "faults", weight: 1, gen: gen_c08_faults, setup: prior, run: run_c08, post: None, filters: &[] },
    Scenario { prop: "C08", name: "crash", weight: 2, gen: gen_c08_crash, setup: prior, run: run_c08, post: Some(post_c08), filters: &[] },
    Scenario { prop: "C14", name: "pbf_copy", weight: 1, gen: gen_c14, setup: setup_c14, run: run_c14, post: None, filters: &[] },
    Scenario { prop: "C15", name: "accumulators", weight: 1, gen: gen_c15, setup: nothing, run: run_c15, post: None, filters: &[] },
    Scenario { prop: "C16", name: "together", weight: 1, gen: gen_c16, setup: setup_c16, run: run_c16, post: None, filters: &["bad"] },
    Scenario { prop: "C18", name: "generations", weight: 3, gen: gen_c18, setup: setup_c18, run: run_c18, post: None, filters: &[] },
    Scenario { prop: "C18", name: "refusal", weight: 1, gen: gen_c18_refuse, setup: setup_refuse, run: run_refuse, post: None, filters: &[] },
];
