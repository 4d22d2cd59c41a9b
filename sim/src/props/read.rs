//! C01-C04, C09, C17: reading PBF files sequentially and in parallel.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::file_block::FileBlock;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::thread_local_accumulator::ThreadLocalAccumulator;

use super::knobs;
use crate::fw::{panic_text, Case, Ctx, Rng, Scenario};
use crate::model::{self, diff, from_lib, El, GenOpts, Head, Kind, Layout, Text};
use crate::rt;

// ------------------------------------------------------------------ input files
pub fn gen_layout(r: &mut Rng) -> Layout {
    let mut l = Layout { zlib: r.chance(75), plain_nodes: r.chance(25), ..Default::default() };
    if r.chance(35) {
        l.granularity = *r.pick(&[1, 10, 100, 1000, 50, 12345]);
        if r.chance(60) {
            l.lat_off = r.range(-2_000_000_000, 2_000_000_000);
            l.lon_off = r.range(-2_000_000_000, 2_000_000_000);
        }
    }
    if r.chance(20) {
        l.date_gran = *r.pick(&[1, 10, 500, 1000, 60000]);
    }
    l.with_visible = r.chance(75);
    l.defaults_explicit = r.chance(60);
    l.unknown_fields = r.chance(15);
    l.indexdata = r.chance(15);
    l.omit_empty_user = r.chance(20);
    l.level = *r.pick(&[0, 1, 6, 9]);
    l.group = *r.pick(&[usize::MAX, 1, 2, 5]);
    l
}

/// Adapts elements to what the layout can express.
pub fn fit(e: &mut El, l: &Layout) {
    if e.kind == Kind::N {
        e.lat = l.lat_off + (e.lat - l.lat_off) / l.granularity * l.granularity;
        e.lon = l.lon_off + (e.lon - l.lon_off) / l.granularity * l.granularity;
    }
    e.ts = e.ts / l.date_gran * l.date_gran;
    if !l.with_visible {
        e.visible = true;
    }
}

/// keys: blocks, per_block, mixed (types in one block), wild (foreign layouts), empty (chance of empty blocks)
pub fn gen_blocks(c: &Case) -> Vec<(Vec<El>, Layout)> {
    let mut r = c.rng("blocks");
    let nb = c.u("blocks");
    let per = c.u("per_block");
    let o = GenOpts {
        text: if c.flag("wild") { Text::Any } else { Text::Plain },
        negative_ids: c.flag("wild"),
        coord_step: 1,
        history: if c.flag("wild") { 20 } else { 0 },
        ts_step: 1,
        renames: true,
        distinct: c.get("distinct") as u64,
        ..Default::default()
    };
    let sizes: Vec<usize> = (0..nb)
        .map(|_| if r.chance(c.get("empty_pct") as u64) { 0 } else { 1 + r.below(per.max(1) as u64) as usize })
        .collect();
    let total: usize = sizes.iter().sum();
    let (n, w) = match r.below(6) {
        0 => (total, 0),
        1 => (0, total),
        2 => (0, 0),
        _ => (total * 6 / 10, total * 25 / 100),
    };
    let mut els = model::elements(&mut r, n, w, total - n - w, &o);
    if c.flag("mixed") {
        // foreign producers may order elements freely
        r.shuffle(&mut els);
    }
    let one = gen_layout(&mut r);
    let mut it = els.into_iter();
    sizes
        .iter()
        .map(|s| {
            let mut es: Vec<El> = it.by_ref().take(*s).collect();
            if c.flag("mixed") && r.chance(50) {
                es.sort_by_key(|e| e.kind);
            }
            let l = if c.flag("wild") { gen_layout(&mut r) } else { Layout { zlib: one.zlib, ..Default::default() } };
            for e in es.iter_mut() {
                fit(e, &l);
            }
            // the decoder delivers a group's elements by type; groups here hold one type each
            (es, l)
        })
        .collect()
}

pub fn file_cfg(r: &mut Rng, c: &mut Case) {
    match r.below(120) {
        0 => {
            // blocks as large as producers make them
            c.set("blocks", r.range(1, 2)).set("per_block", *r.pick(&[300, 300, 1000, 1000, 3000, 3000, 8000, 16_000]));
            c.set("distinct", *r.pick(&[0, 0, 0, 5]));
        }
        1..=3 => {
            c.set("blocks", r.range(1020, 1100)).set("per_block", 1);
        }
        4..=18 => {
            c.set("blocks", r.range(13, 60)).set("per_block", r.range(1, 4));
        }
        _ => {
            c.set("blocks", r.range(0, 12)).set("per_block", r.range(1, 12));
        }
    }
    c.set("empty_pct", *r.pick(&[0, 0, 0, 15]));
    c.set("mixed", r.chance(30) as i64);
    c.set("wild", r.chance(40) as i64);
    c.set("rehead_pct", *r.pick(&[0, 0, 0, 0, 0, 0, 0, 20]));
}

pub fn setup_file(c: &Case, ctx: &Ctx) {
    let (bytes, ends) = model::encode_file(&Head::simple(), &gen_blocks(c));
    let mut out = bytes[..ends[0]].to_vec();
    let mut r = c.rng("rehead");
    for w in ends.windows(2) {
        // files that were concatenated hold further headers
        if r.chance(c.get("rehead_pct") as u64) {
            out.extend_from_slice(&bytes[..ends[0]]);
        }
        out.extend_from_slice(&bytes[w[0]..w[1]]);
    }
    std::fs::write(ctx.path("in.pbf"), out).unwrap();
}

// ------------------------------------------------------------------ callback history
static mut HIST: Vec<(i32, Option<El>)> = Vec::new();
static RETURNED: AtomicBool = AtomicBool::new(false);
static LATE: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

#[allow(static_mut_refs)]
pub fn hist() -> &'static mut Vec<(i32, Option<El>)> {
    unsafe { &mut HIST }
}
pub fn record(e: &Element) {
    rt::atomically(|| {
        if RETURNED.load(Ordering::SeqCst) {
            LATE.fetch_add(1, Ordering::SeqCst);
        }
        CALLS.fetch_add(1, Ordering::SeqCst);
        hist().push((rt::tid(), from_lib(e)));
    });
    rt::progress();
    rt::point();
}

pub fn expected(c: &Case) -> Vec<Vec<El>> {
    gen_blocks(c).into_iter().map(|b| b.0).collect()
}

pub fn multiset(got: &mut Vec<El>, want: &mut Vec<El>) -> Option<String> {
    got.sort();
    want.sort();
    diff(want, got)
}

fn open(ctx: &Ctx) -> Result<Reader, String> {
    Reader::new(&ctx.path("in.pbf")).map_err(|e| format!("opening an intact file failed: {e:#}"))
}

// ------------------------------------------------------------------ C01
pub fn gen_par(r: &mut Rng, _t: bool) -> Case {
    let mut c = Case::default();
    file_cfg(r, &mut c);
    c.set("tasks", *r.pick(&[0, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 4, 4, 4, 4, 8, 8, 8, 8, 16, 16, 33, 33]));
    knobs::sched(r, &mut c);
    knobs::soft_io(r, &mut c);
    c
}

/// more blocks than can wait in a queue, callbacks that take their time
fn gen_slow(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_par(r, t);
    if r.chance(60) {
        c.set("blocks", r.range(1026, 1080)).set("per_block", 1);
    }
    c.set("wild", 0).set("tasks", r.range(1, 3));
    c.set("slow_ppm", *r.pick(&[1000, 5000, 100_000])).set("slow_ms", *r.pick(&[20, 700, 3000, 70_000]));
    c
}

fn run_c01(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let reader = open(ctx)?;
    let (slow_ppm, slow_ms, seed) = (c.get("slow_ppm") as u64, c.get("slow_ms") as u64, c.get("data_seed") as u64);
    let res = catch_unwind(AssertUnwindSafe(|| {
        reader.parallel_for_each(c.u("tasks"), move |e| {
            record(&e);
            if slow_ppm > 0 && crate::fw::mix(seed, CALLS.load(Ordering::SeqCst)) % 1_000_000 < slow_ppm {
                std::thread::sleep(std::time::Duration::from_millis(slow_ms));
                rt::progress();
            }
            Ok(())
        })
    }));
    RETURNED.store(true, Ordering::SeqCst);
    // leave anything that still runs a chance to call back late
    for _ in 0..20 {
        rt::yield_now();
    }
    rt::freeze();
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("parallel iteration of an intact file failed: {e:#}")),
        Err(p) => return Err(format!("parallel iteration of an intact file panicked: {}", panic_text(&p))),
    }
    let mut got: Vec<El> = hist().iter().filter_map(|h| h.1.clone()).collect();
    let mut want: Vec<El> = expected(c).concat();
    if let Some(d) = multiset(&mut got, &mut want) {
        return Err(format!("elements handed to the callback: {d}"));
    }
    if LATE.load(Ordering::SeqCst) > 0 {
        return Err("the callback was still called after parallel iteration had returned".into());
    }
    let mut seq: Vec<El> =
        reader.elements().map_err(|e| e.to_string())?.filter_map(|e| from_lib(&e)).collect();
    if let Some(d) = multiset(&mut seq, &mut want) {
        return Err(format!("sequential iteration differs: {d}"));
    }
    rt::user_add(0, got.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------ C02
/// Splits what one thread saw into blocks.
pub fn segments(h: &[(i32, Option<El>)]) -> Result<Vec<Vec<El>>, String> {
    let mut per: BTreeMap<i32, Vec<Option<El>>> = BTreeMap::new();
    for (t, e) in h {
        per.entry(*t).or_default().push(e.clone());
    }
    let mut out = Vec::new();
    for (t, v) in per {
        let mut cur = Vec::new();
        for e in v {
            match e {
                Some(e) => cur.push(e),
                None => out.push(std::mem::take(&mut cur)),
            }
        }
        if !cur.is_empty() {
            return Err(format!("thread {t}: the last {} elements are not followed by an end-of-block marker", cur.len()));
        }
    }
    Ok(out)
}

pub fn match_blocks(want: Vec<Vec<El>>, got: Vec<Vec<El>>) -> Result<(), String> {
    if want.len() != got.len() {
        return Err(format!("{} data blocks but {} end-of-block markers", want.len(), got.len()));
    }
    let mut w = want;
    let mut g = got;
    w.sort();
    g.sort();
    for (a, b) in w.iter().zip(&g) {
        if let Some(d) = diff(a, b) {
            return Err(format!("the elements between two markers on a thread are not one block in file order: {d}"));
        }
    }
    Ok(())
}

fn run_c02(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let reader = open(ctx)?;
    let res = reader.parallel_for_each(c.u("tasks"), |e| {
        record(&e);
        Ok(())
    });
    rt::freeze();
    res.map_err(|e| format!("parallel iteration of an intact file failed: {e:#}"))?;
    match_blocks(expected(c), segments(hist())?)
}

static mut TAKEN: Vec<Vec<El>> = Vec::new();
#[allow(static_mut_refs)]
fn taken() -> &'static mut Vec<Vec<El>> {
    unsafe { &mut TAKEN }
}

fn run_c02_acc(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let reader = open(ctx)?;
    let acc = ThreadLocalAccumulator::new(c.u("cap"));
    let res = reader.parallel_for_each(c.u("tasks"), move |e| {
        if e.is_sentinel() {
            let v = acc.elements();
            rt::atomically(|| taken().push(v.iter().filter_map(from_lib).collect()));
        } else {
            acc.add(e);
        }
        rt::progress();
        Ok(())
    });
    rt::freeze();
    res.map_err(|e| format!("parallel iteration of an intact file failed: {e:#}"))?;
    match_blocks(expected(c), std::mem::take(taken()))
}

fn gen_c02_acc(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_par(r, t);
    c.set("cap", *r.pick(&[0, 1, 8, 100]));
    c
}

// ------------------------------------------------------------------ C03
fn gen_c03_cb(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_par(r, t);
    // which calls fail: 0 none, 1 the k-th, 2 every call from the k-th, 3 every call, 4 markers only
    c.set("fail_mode", *r.pick(&[0, 1, 1, 1, 2, 3, 3, 4]));
    c.set("fail_at", if r.chance(60) { r.range(0, 6) } else { r.range(0, 80) });
    c.set("fail_kind", *r.pick(&[0, 0, 1, 1, 2]));
    c
}

fn run_c03_cb(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let reader = open(ctx)?;
    static FAILED: AtomicU64 = AtomicU64::new(0);
    let (mode, at, kind) = (c.get("fail_mode"), c.get("fail_at") as u64, c.get("fail_kind"));
    let res = catch_unwind(AssertUnwindSafe(|| {
        reader.parallel_for_each(c.u("tasks"), move |e| {
            let k = CALLS.load(Ordering::SeqCst);
            record(&e);
            let hit = match mode {
                0 => false,
                1 => k == at,
                2 => k >= at,
                3 => true,
                _ => e.is_sentinel(),
            };
            if hit {
                FAILED.fetch_add(1, Ordering::SeqCst);
                if kind == 1 || kind == 2 && k % 2 == 0 {
                    knobs::blow(k as u64);
                }
                return Err(anyhow::anyhow!("callback fails at call {k}"));
            }
            Ok(())
        })
    }));
    rt::freeze();
    let failed = FAILED.load(Ordering::SeqCst);
    rt::user_add(1, (failed > 0) as u64);
    match res {
        Ok(Ok(())) if failed > 0 => Err(format!("success reported although the callback failed {failed} times")),
        Ok(Ok(())) => {
            let mut got: Vec<El> = hist().iter().filter_map(|h| h.1.clone()).collect();
            match multiset(&mut got, &mut expected(c).concat()) {
                Some(d) => Err(format!("success reported but: {d}")),
                None => Ok(()),
            }
        }
        Ok(Err(e)) if failed == 0 => Err(format!("failure reported although nothing failed: {e:#}")),
        Err(p) if failed == 0 => Err(format!("panic although nothing failed: {}", panic_text(&p))),
        _ => Ok(()),
    }
}

fn gen_c03_io(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_par(r, t);
    knobs::hard_read(r, &mut c);
    knobs::thread_fail(r, &mut c);
    c
}

fn run_c03_io(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let res = catch_unwind(AssertUnwindSafe(|| {
        let reader = Reader::new(&ctx.path("in.pbf"))?;
        reader.parallel_for_each(c.u("tasks"), |e| {
            record(&e);
            Ok(())
        })
    }));
    rt::freeze();
    judge_par_read(c, res, "success reported after failed reads but")
}

fn judge_par_read(c: &Case, res: std::thread::Result<Result<(), anyhow::Error>>, what: &str) -> Result<(), String> {
    let mut got: Vec<El> = hist().iter().filter_map(|h| h.1.clone()).collect();
    let mut want = expected(c).concat();
    rt::user_add(2, rt::hard_faults());
    match res {
        Ok(Ok(())) => match multiset(&mut got, &mut want) {
            Some(d) => Err(format!("{what} {d}")),
            None => Ok(()),
        },
        _ => {
            rt::user_add(1, 1);
            subset(got, want)
        }
    }
}

/// everything delivered before a failure must be right
fn subset(mut got: Vec<El>, mut want: Vec<El>) -> Result<(), String> {
    got.sort();
    want.sort();
    let mut j = 0;
    for g in &got {
        while j < want.len() && want[j] < *g {
            j += 1;
        }
        if j >= want.len() || want[j] != *g {
            return Err(format!("an element was delivered that the file does not hold (or twice): {}", g.short()));
        }
        j += 1;
    }
    Ok(())
}

/// damages one block so that it cannot be decoded
fn gen_c03_bad(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_par(r, t);
    if c.get("blocks") == 0 {
        c.set("blocks", 1);
    }
    c.set("bad_kind", r.range(0, 5));
    c.set("bad_block", r.range(0, 1000));
    c.set("bad_all", r.chance(25) as i64);
    c
}
fn bad_blob(kind: i64) -> Vec<u8> {
    let l = Layout { zlib: true, ..Default::default() };
    let mut st = model::Pb::default();
    st.bytes(1, b"");
    match kind {
        0 => model::encode_blob("OSMData", &[0xff, 0xff, 0xff, 0xff], &l), // not a message
        1 => {
            // string table that is not UTF-8
            let mut s = model::Pb::default();
            s.bytes(1, b"");
            s.bytes(1, &[0xff, 0xfe]);
            let mut b = model::Pb::default();
            b.bytes(1, &s.0);
            model::encode_blob("OSMData", &b.0, &l)
        }
        2 => {
            // way with a string index outside the table
            let mut w = model::Pb::default();
            w.int(1, 5);
            w.packed(2, &[77], false);
            w.packed(3, &[78], false);
            let mut g = model::Pb::default();
            g.bytes(3, &w.0);
            let mut b = model::Pb::default();
            b.bytes(1, &st.0);
            b.bytes(2, &g.0);
            model::encode_blob("OSMData", &b.0, &l)
        }
        3 => {
            // dense nodes with fewer latitudes than ids
            let mut d = model::Pb::default();
            d.packed(1, &[1, 1, 1], true);
            d.packed(8, &[1], true);
            d.packed(9, &[1, 1, 1], true);
            let mut g = model::Pb::default();
            g.bytes(2, &d.0);
            let mut b = model::Pb::default();
            b.bytes(1, &st.0);
            b.bytes(2, &g.0);
            model::encode_blob("OSMData", &b.0, &l)
        }
        4 => {
            // compressed data cut short
            let mut z = model::Pb::default();
            z.int(2, 1000);
            z.bytes(3, &[0x78, 0x9c, 0x01]);
            let mut h = model::Pb::default();
            h.bytes(1, b"OSMData");
            h.int(3, z.0.len() as i64);
            let mut out = (h.0.len() as u32).to_be_bytes().to_vec();
            out.extend(h.0);
            out.extend(z.0);
            out
        }
        _ => {
            // unsupported compression
            let mut z = model::Pb::default();
            z.int(2, 1000);
            z.bytes(7, &[1, 2, 3]);
            let mut h = model::Pb::default();
            h.bytes(1, b"OSMData");
            h.int(3, z.0.len() as i64);
            let mut out = (h.0.len() as u32).to_be_bytes().to_vec();
            out.extend(h.0);
            out.extend(z.0);
            out
        }
    }
}
fn setup_bad(c: &Case, ctx: &Ctx) {
    let (bytes, ends) = model::encode_file(&Head::simple(), &gen_blocks(c));
    let nb = ends.len() - 1;
    let k = c.u("bad_block") % (nb + 1);
    let bad = bad_blob(c.get("bad_kind"));
    let mut out = bytes[..ends[0]].to_vec();
    for i in 0..nb {
        if i == k || c.flag("bad_all") {
            out.extend_from_slice(&bad);
        }
        out.extend_from_slice(&bytes[ends[i]..ends[i + 1]]);
    }
    if k == nb {
        out.extend_from_slice(&bad);
    }
    std::fs::write(ctx.path("in.pbf"), out).unwrap();
}
fn run_c03_bad(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let reader = open(ctx)?;
    let res = catch_unwind(AssertUnwindSafe(|| {
        reader.parallel_for_each(c.u("tasks"), |e| {
            record(&e);
            Ok(())
        })
    }));
    rt::freeze();
    if let Ok(Ok(())) = res {
        return Err("success reported although a block cannot be decoded".into());
    }
    let got: Vec<El> = hist().iter().filter_map(|h| h.1.clone()).collect();
    let _ = got;
    Ok(())
}

// ------------------------------------------------------------------ C04
fn run_c04_count(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let res = catch_unwind(AssertUnwindSafe(|| Reader::new(&ctx.path("in.pbf"))?.count_objects()));
    rt::freeze();
    let els = expected(c).concat();
    let n = |k| els.iter().filter(|e| e.kind == k).count() as i64;
    let want = (n(Kind::N), n(Kind::W), n(Kind::R));
    match res {
        Ok(Ok(got)) if got == want => Ok(()),
        Ok(Ok(got)) => Err(format!("counted {got:?} (nodes, ways, relations), the file holds {want:?}")),
        Ok(Err(_)) | Err(_) if rt::hard_faults() > 0 => Ok(()),
        Ok(Err(e)) => Err(format!("counting an intact file failed: {e:#}")),
        Err(p) => Err(format!("counting an intact file panicked: {}", panic_text(&p))),
    }
}
fn run_c04_bbox(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let res = catch_unwind(AssertUnwindSafe(|| BoundingBoxCalculator::new(&ctx.path("in.pbf")).calc()));
    rt::freeze();
    let els = expected(c).concat();
    let nodes: Vec<&El> = els.iter().filter(|e| e.kind == Kind::N).collect();
    let f = |x: Option<i64>| x.map(|x| x as f64 / 1e9);
    let want = (
        f(nodes.iter().map(|e| e.lon).min()),
        f(nodes.iter().map(|e| e.lat).min()),
        f(nodes.iter().map(|e| e.lon).max()),
        f(nodes.iter().map(|e| e.lat).max()),
    );
    match res {
        Ok(Ok(b)) => {
            let got = (Some(b.left()), Some(b.bottom()), Some(b.right()), Some(b.top()));
            if got == want {
                Ok(())
            } else {
                Err(format!("bounding box (left, bottom, right, top) {got:?}, the nodes span {want:?}"))
            }
        }
        Ok(Err(_)) | Err(_) if rt::hard_faults() > 0 || nodes.is_empty() => Ok(()),
        Ok(Err(e)) => Err(format!("bounding box of an intact file failed: {e:#}")),
        Err(p) => Err(format!("bounding box of an intact file panicked: {}", panic_text(&p))),
    }
}
/// the boxes of the single blocks, read sequentially
fn run_c04_blocks(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<Option<[f64; 4]>>, anyhow::Error> {
        let reader = Reader::new(&ctx.path("in.pbf"))?;
        let mut out = Vec::new();
        for b in reader.blocks()? {
            if let FileBlock::Data { data, .. } = b {
                out.push(data.compute_bounding_box().map(|b| [b.left(), b.bottom(), b.right(), b.top()]));
            }
            rt::progress();
        }
        Ok(out)
    }));
    rt::freeze();
    let want: Vec<Option<[f64; 4]>> = expected(c)
        .iter()
        .map(|es| {
            let f = |x: i64| x as f64 / 1e9;
            let n: Vec<&El> = es.iter().filter(|e| e.kind == Kind::N).collect();
            Some([
                f(n.iter().map(|e| e.lon).min()?),
                f(n.iter().map(|e| e.lat).min()?),
                f(n.iter().map(|e| e.lon).max()?),
                f(n.iter().map(|e| e.lat).max()?),
            ])
        })
        .collect();
    match res {
        Ok(Ok(got)) if got == want => Ok(()),
        Ok(Ok(got)) => {
            let i = got.iter().zip(&want).position(|(a, b)| a != b);
            Err(format!("boxes of {} blocks, of {} in the file; the first that differs: {i:?}, {:?} instead of {:?}", got.len(), want.len(), i.map(|i| got[i]), i.map(|i| want[i])))
        }
        Ok(Err(_)) | Err(_) if rt::hard_faults() > 0 => Ok(()),
        Ok(Err(e)) => Err(format!("reading the blocks of an intact file failed: {e:#}")),
        Err(p) => Err(format!("reading the blocks of an intact file panicked: {}", panic_text(&p))),
    }
}
fn gen_c04(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_par(r, t);
    c.set("ncpu", *r.pick(&[1, 2, 2, 3, 4, 4, 6]));
    if c.get("blocks") > 200 && r.chance(60) {
        c.set("blocks", r.range(1, 12));
    }
    if r.below(4000) == 0 {
        // more nodes than 16 bits count
        c.set("blocks", 20).set("per_block", 16_000).set("distinct", 0).set("mixed", 0).set("s.pm", 0);
    } else if r.below(600) == 0 {
        // full blocks
        c.set("blocks", r.range(1, 3)).set("per_block", *r.pick(&[8_000, 8_001, 16_000])).set("distinct", 0).set("s.pm", 0);
    } else if r.below(600) == 0 {
        // more blocks than any table of blocks is likely to have room for
        c.set("blocks", r.range(1_025, 2_200)).set("per_block", 1).set("mixed", 1).set("s.pm", 0);
    }
    c
}
fn gen_c04_io(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_c04(r, t);
    knobs::hard_read(r, &mut c);
    knobs::thread_fail(r, &mut c);
    c
}

// ------------------------------------------------------------------ C09
pub fn gen_c09(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_par(r, t);
    if c.get("blocks") > 200 {
        c.set("blocks", 12);
    }
    c.set("par", r.chance(40) as i64);
    c.set("cut", (r.next() >> 20) as i64);
    c.set("near", r.range(-24, 24)).set("near_block", r.range(0, 60)).set("cut_mode", r.range(0, 2));
    c
}
pub fn setup_cut(c: &Case, ctx: &Ctx) {
    let (bytes, ends) = model::encode_file(&Head::simple(), &gen_blocks(c));
    let len = bytes.len() as i64;
    let mut p = match c.get("cut_mode") {
        0 => c.get("cut") % len,
        // close to a block boundary, where lengths and headers are
        _ => ends[c.u("near_block") % ends.len()] as i64 + c.get("near"),
    };
    p = p.clamp(0, len - 1);
    if ends.contains(&(p as usize)) {
        p -= 1; // a cut exactly between two blocks leaves a valid file
    }
    std::fs::write(ctx.path("in.pbf"), &bytes[..p as usize]).unwrap();
}
fn read_any(c: &Case, ctx: &Ctx, what: &str) -> Result<(), String> {
    let want = expected(c).concat();
    if c.flag("par") {
        let res = catch_unwind(AssertUnwindSafe(|| {
            let reader = Reader::new(&ctx.path("in.pbf"))?;
            reader.parallel_for_each(c.u("tasks"), |e| {
                record(&e);
                Ok(())
            })
        }));
        rt::freeze();
        return judge_par_read(c, res, &format!("parallel reading of {what} reported success but"));
    }
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
        let reader = Reader::new(&ctx.path("in.pbf"))?;
        for e in reader.elements()? {
            record(&e);
        }
        Ok(())
    }));
    rt::freeze();
    let got: Vec<El> = hist().iter().filter_map(|h| h.1.clone()).collect();
    match res {
        Ok(Ok(())) => match diff(&want, &got) {
            Some(d) => Err(format!("sequential reading of {what} ended normally but {d}")),
            None => Ok(()),
        },
        _ => {
            rt::user_add(1, 1);
            if got.len() <= want.len() && got[..] == want[..got.len()] {
                Ok(())
            } else {
                Err(format!("before the failure was noticed, wrong elements were delivered: {}", diff(&want[..got.len().min(want.len())], &got).unwrap_or_default()))
            }
        }
    }
}
fn run_c09_cut(c: &Case, ctx: &Ctx) -> Result<(), String> {
    read_any(c, ctx, "a file that was cut off inside a block")
}
fn gen_c09_io(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_c09(r, t);
    knobs::hard_read(r, &mut c);
    knobs::thread_fail(r, &mut c);
    c
}
fn run_c09_io(c: &Case, ctx: &Ctx) -> Result<(), String> {
    read_any(c, ctx, "failing storage")
}
pub fn gen_c09_flip(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_c09(r, t);
    if c.get("blocks") == 0 {
        c.set("blocks", 2);
    }
    c.set("flips", *r.pick(&[1, 1, 1, 2, 5]));
    // stored without compression, an altered bit shows in the checksum alone
    c.set("stored", r.chance(25) as i64);
    c
}
pub fn setup_flip(c: &Case, ctx: &Ctx) {
    let mut blocks = gen_blocks(c);
    for b in blocks.iter_mut() {
        b.1.zlib = true;
        if c.flag("stored") {
            b.1.level = 0;
        }
    }
    let (mut bytes, ends) = model::encode_file(&Head::simple(), &blocks);
    let mut r = c.rng("flip");
    for _ in 0..c.u("flips").max(1) {
        let k = r.below(ends.len() as u64 - 1) as usize;
        let (s, e) = (ends[k], ends[k + 1]);
        // the compressed data is the last field of the blob
        let hl = u32::from_be_bytes(bytes[s..s + 4].try_into().unwrap()) as usize;
        let body = s + 4 + hl;
        let m = model::parse(&bytes[body..e]).unwrap();
        let zl = m.iter().find_map(|(f, w)| if *f == 3 { if let model::Wire::B(b) = w { Some(b.len()) } else { None } } else { None }).unwrap();
        let zs = e - zl;
        let p = zs + r.below(zl as u64) as usize;
        bytes[p] ^= 1 << r.below(8);
    }
    std::fs::write(ctx.path("in.pbf"), bytes).unwrap();
}
fn run_c09_flip(c: &Case, ctx: &Ctx) -> Result<(), String> {
    read_any(c, ctx, "a file with altered compressed data")
}

// ------------------------------------------------------------------ C17
fn gen_c17(r: &mut Rng, t: bool) -> Case {
    let mut c = gen_par(r, t);
    if c.get("blocks") > 200 {
        c.set("blocks", 12);
    }
    c.set("wild", 1);
    c.set("no_info_pct", *r.pick(&[0, 0, 40]));
    c.set("omit_pct", *r.pick(&[0, 0, 40]));
    c.set("odd_pct", *r.pick(&[0, 0, 40]));
    c.set("foreign_pct", *r.pick(&[0, 0, 0, 25]));
    // a long run of blocks without elements, as a filter that keeps the block structure leaves
    c.set("empty_run", if r.chance(2) { r.range(3000, 12000) } else { 0 });
    // string tables with more strings than the elements use, and than 7, 8, 14 or 16 bits number
    c.set("pad", match r.below(400) {
        0 => 70_000,
        1..=3 => 17_000,
        4..=30 => r.range(1, 400),
        _ => 0,
    });
    c.set("par", r.chance(40) as i64);
    knobs::soft_io(r, &mut c);
    c
}
fn blocks_c17(c: &Case) -> Vec<(Vec<El>, Layout)> {
    let mut r = c.rng("info");
    let mut b = gen_blocks(c);
    for x in b.iter_mut() {
        x.1.no_info = r.chance(c.get("no_info_pct") as u64);
        if r.chance(c.get("omit_pct") as u64) {
            x.1.omit = *r.pick(&[0b11100, 0b11000, 0b01000, 0b10000, 0b00001, 0b00010, 0b00100, 0b11111]);
        }
        x.1.odd_order = r.chance(c.get("odd_pct") as u64);
        if r.chance(30) {
            x.1.pad_strings = c.u("pad");
        }
    }
    let n = c.u("empty_run");
    if n > 0 {
        let at = r.below(b.len() as u64 + 1) as usize;
        let l = Layout { zlib: false, defaults_explicit: false, ..Default::default() };
        b.splice(at..at, std::iter::repeat_with(|| (vec![], l.clone())).take(n));
    }
    b
}
fn setup_c17(c: &Case, ctx: &Ctx) {
    let (bytes, ends) = model::encode_file(&Head::simple(), &blocks_c17(c));
    let d = model::decode_file(&bytes, false).expect("own decoder reads own encoder");
    assert_eq!(d.blocks.len(), c.u("blocks") + c.u("empty_run"));
    let bytes = model::with_foreign_blobs(&bytes, &ends, &mut c.rng("foreign"), c.get("foreign_pct") as u64);
    std::fs::write(ctx.path("in.pbf"), bytes).unwrap();
}
/// blanks what the file does not say
fn mask(e: &mut El, omit: u8) {
    let no = |k: u8| omit & (1 << k) != 0;
    if no(0) {
        e.version = 0;
    }
    if no(1) {
        e.ts = 0;
    }
    if no(2) {
        e.changeset = 0;
    }
    if no(3) {
        e.uid = 0;
    }
    if no(4) {
        e.user = String::new();
    }
    if no(5) {
        e.visible = true;
    }
}
fn run_c17(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), anyhow::Error> {
        let reader = Reader::new(&ctx.path("in.pbf"))?;
        if c.flag("par") {
            reader.parallel_for_each(c.u("tasks"), |e| {
                record(&e);
                Ok(())
            })
        } else {
            for e in reader.elements()? {
                record(&e);
            }
            Ok(())
        }
    }));
    rt::freeze();
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("reading a conforming file failed: {e:#}")),
        Err(p) => return Err(format!("reading a conforming file panicked: {}", panic_text(&p))),
    }
    let blocks = blocks_c17(c);
    // elements without metadata are compared on what the file says about them; an element that
    // occurs in several versions, on what it says about all of them
    let mut bare: BTreeMap<(Kind, i64), u8> = BTreeMap::new();
    let mut want: Vec<El> = Vec::new();
    for (es, l) in &blocks {
        for e in es {
            let m = if l.no_info { 0x3f } else { l.omit };
            if m != 0 {
                *bare.entry((e.kind, e.id)).or_default() |= m;
            }
            want.push(e.clone());
        }
    }
    let mut got: Vec<El> = hist().iter().filter_map(|h| h.1.clone()).collect();
    for e in got.iter_mut().chain(want.iter_mut()) {
        if let Some(m) = bare.get(&(e.kind, e.id)) {
            mask(e, *m);
        }
    }
    if c.flag("par") {
        got.sort();
        want.sort();
    }
    match diff(&want, &got) {
        Some(d) => Err(format!("decoded elements: {d}")),
        None => Ok(()),
    }
}

pub static SCENARIOS: &[Scenario] = &[
    Scenario { prop: "C01", name: "slow_callbacks", weight: 1, gen: gen_slow, setup: setup_file, run: run_c01, post: None, filters: &[] },
    Scenario { prop: "C01", name: "parallel", weight: 8, gen: gen_par, setup: setup_file, run: run_c01, post: None, filters: &[] },
    Scenario { prop: "C02", name: "framing", weight: 2, gen: gen_par, setup: setup_file, run: run_c02, post: None, filters: &[] },
    Scenario { prop: "C02", name: "accumulator", weight: 1, gen: gen_c02_acc, setup: setup_file, run: run_c02_acc, post: None, filters: &[] },
    Scenario { prop: "C03", name: "callback", weight: 2, gen: gen_c03_cb, setup: setup_file, run: run_c03_cb, post: None, filters: &[] },
    Scenario { prop: "C03", name: "storage", weight: 2, gen: gen_c03_io, setup: setup_file, run: run_c03_io, post: None, filters: &[] },
    Scenario { prop: "C03", name: "undecodable", weight: 1, gen: gen_c03_bad, setup: setup_bad, run: run_c03_bad, post: None, filters: &[] },
    Scenario { prop: "C04", name: "count", weight: 1, gen: gen_c04, setup: setup_file, run: run_c04_count, post: None, filters: &[] },
    Scenario { prop: "C04", name: "bbox", weight: 2, gen: gen_c04, setup: setup_file, run: run_c04_bbox, post: None, filters: &[] },
    Scenario { prop: "C04", name: "count_faults", weight: 1, gen: gen_c04_io, setup: setup_file, run: run_c04_count, post: None, filters: &[] },
    Scenario { prop: "C04", name: "bbox_faults", weight: 1, gen: gen_c04_io, setup: setup_file, run: run_c04_bbox, post: None, filters: &[] },
    Scenario { prop: "C04", name: "block_boxes", weight: 1, gen: gen_c04_io, setup: setup_file, run: run_c04_blocks, post: None, filters: &[] },
    Scenario { prop: "C09", name: "cut", weight: 2, gen: gen_c09, setup: setup_cut, run: run_c09_cut, post: None, filters: &[] },
    Scenario { prop: "C09", name: "io_errors", weight: 2, gen: gen_c09_io, setup: setup_file, run: run_c09_io, post: None, filters: &[] },
    Scenario { prop: "C09", name: "altered", weight: 2, gen: gen_c09_flip, setup: setup_flip, run: run_c09_flip, post: None, filters: &[] },
    Scenario { prop: "C17", name: "layouts", weight: 1, gen: gen_c17, setup: setup_c17, run: run_c17, post: None, filters: &[] },
];
