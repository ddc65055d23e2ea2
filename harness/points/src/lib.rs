//! What the points that `vh-instr` puts before each statement of a crate do: nothing, unless a check
//! asks for a delay at some of them, or for the end of the process at the n-th one passed.

use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU8, Ordering::*};

const SITES: usize = 1 << 14;
const OFF: u8 = 0;
const RECORD: u8 = 1;
const DELAY: u8 = 2;
const KILL: u8 = 3;

static MODE: AtomicU8 = AtomicU8::new(OFF);
static HIT: [AtomicBool; SITES] = [const { AtomicBool::new(false) }; SITES];
static MICROS: [AtomicU32; SITES] = [const { AtomicU32::new(0) }; SITES];
static LEFT: AtomicI64 = AtomicI64::new(0);

#[inline]
pub fn point(site: u32) {
    if MODE.load(Relaxed) != OFF {
        at(site as usize % SITES);
    }
}

#[cold]
fn at(site: usize) {
    match MODE.load(Relaxed) {
        RECORD => HIT[site].store(true, Relaxed),
        DELAY => {
            let us = MICROS[site].load(Relaxed);
            if us > 0 && LEFT.fetch_sub(1, Relaxed) > 0 {
                if us == 1 {
                    std::thread::yield_now();
                } else {
                    std::thread::sleep(std::time::Duration::from_micros(us as u64));
                }
            }
        }
        KILL => {
            if LEFT.fetch_sub(1, Relaxed) == 1 {
                unsafe {
                    libc::kill(libc::getpid(), libc::SIGKILL);
                }
                loop {
                    std::thread::sleep(std::time::Duration::from_secs(1));
                }
            }
        }
        _ => {}
    }
}

/// the points `f` passes
pub fn record(f: impl FnOnce()) -> Vec<u32> {
    HIT.iter().for_each(|h| h.store(false, Relaxed));
    MODE.store(RECORD, SeqCst);
    f();
    MODE.store(OFF, SeqCst);
    (0..SITES as u32).filter(|s| HIT[*s as usize].load(Relaxed)).collect()
}

/// delays at the given points, `budget` of them at most, until this is dropped
pub struct Delays(Vec<u32>);
pub fn delay(at: &[(u32, u32)], budget: u32) -> Delays {
    for (site, us) in at {
        MICROS[*site as usize % SITES].store(*us, Relaxed);
    }
    LEFT.store(budget as i64, SeqCst);
    MODE.store(DELAY, SeqCst);
    Delays(at.iter().map(|x| x.0).collect())
}
impl Drop for Delays {
    fn drop(&mut self) {
        MODE.store(OFF, SeqCst);
        for s in &self.0 {
            MICROS[*s as usize % SITES].store(0, Relaxed);
        }
    }
}

/// the process ends at the `n`-th point from here
pub fn kill_at(n: u32) {
    LEFT.store(n as i64, SeqCst);
    MODE.store(KILL, SeqCst);
}
