//! Swarm-style choice of scheduler and fault settings, and helpers shared by the workloads.
use crate::fw::{Case, Rng};
use crate::rt;

/// Scheduling behaviour of a run.
pub fn sched(r: &mut Rng, c: &mut Case) {
    c.set("s.pol", r.range(0, 2));
    match r.below(10) {
        0 => {} // plain rotation
        1 | 2 => {
            c.set("s.pm", *r.pick(&[2000, 8000, 40000]));
            c.set("s.yd", *r.pick(&[0, 5_000, 50_000]));
        }
        3 | 4 => {
            c.set("s.pm", *r.pick(&[20, 60, 200, 600]));
            c.set("s.yd", *r.pick(&[0, 20_000, 300_000]));
        }
        5 | 6 => {
            c.set("s.yd", *r.pick(&[10_000, 100_000, 500_000]));
            c.set("s.ws", *r.pick(&[0, 300_000]));
            c.fault(rt::F_STALL, *r.pick(&[500, 3_000, 20_000]));
            c.set("s.stall_len", *r.pick(&[30, 200, 1500]));
        }
        _ => {
            c.set("s.pm", *r.pick(&[100, 400, 3000]));
            c.set("s.yd", *r.pick(&[0, 50_000, 400_000]));
            c.set("s.ws", *r.pick(&[0, 500_000]));
            if r.chance(50) {
                c.fault(rt::F_STALL, *r.pick(&[500, 3_000, 20_000]));
                c.set("s.stall_len", *r.pick(&[30, 200, 1500]));
            }
            if r.chance(30) {
                c.fault(rt::F_SPURIOUS, *r.pick(&[2_000, 30_000]));
            }
            if r.chance(30) {
                c.fault(rt::F_SLOW_IO, *r.pick(&[20_000, 200_000]));
            }
        }
    }
}

/// Faults that correct code hides: partial and interrupted calls.
pub fn soft_io(r: &mut Rng, c: &mut Case) {
    if r.chance(45) {
        return;
    }
    let p = [10_000, 100_000, 400_000];
    if r.chance(70) {
        c.fault(rt::F_SHORT_READ, *r.pick(&p));
    }
    if r.chance(70) {
        c.fault(rt::F_SHORT_WRITE, *r.pick(&p));
    }
    if r.chance(60) {
        c.fault(rt::F_EINTR, *r.pick(&p));
    }
}

/// read-side failures
pub fn hard_read(r: &mut Rng, c: &mut Case) {
    c.set("f.max", r.range(1, 3));
    let p = [3_000, 30_000, 150_000];
    if r.chance(50) {
        c.fault(rt::F_READ_EIO, *r.pick(&p));
    }
    if r.chance(40) {
        c.fault(rt::F_READ_EIO_STICKY, *r.pick(&p));
    }
    if r.chance(40) {
        c.fault(rt::F_OPEN_FAIL, *r.pick(&p));
    }
}

pub fn hard_write(r: &mut Rng, c: &mut Case) {
    c.set("f.max", r.range(1, 3));
    let p = [3_000, 30_000, 150_000];
    match r.below(4) {
        0 => {
            c.fault(rt::F_WRITE_EIO, *r.pick(&p));
        }
        1 => {
            c.fault(rt::F_ENOSPC, *r.pick(&p));
        }
        2 => {
            c.fault(rt::F_ENOSPC_ONCE, *r.pick(&p));
        }
        _ => {
            c.fault(rt::F_WRITE_EIO, *r.pick(&p));
            c.fault(rt::F_ENOSPC, *r.pick(&p));
            c.fault(rt::F_OPEN_FAIL, *r.pick(&p));
        }
    }
    if r.chance(25) {
        c.fault(rt::F_OPEN_FAIL, *r.pick(&[30_000, 300_000]));
    }
}

/// the system has no room for another thread
pub fn thread_fail(r: &mut Rng, c: &mut Case) {
    if r.chance(12) {
        c.fault(rt::F_THREAD_FAIL, *r.pick(&[50_000, 300_000]));
    }
}

/// A panic with one of the payloads that panics come with.
pub fn blow(k: u64) -> ! {
    match k % 3 {
        0 => std::panic::panic_any(k),
        1 => panic!("callback panics"),
        _ => panic!("callback panics at call {k}"),
    }
}
