//! Every decision of a run is drawn from here: from the seed (recorded) or from a replayed tape.

use crate::{
    rng::{mix, Rng},
    shm,
};

pub const OPS: usize = 0;
pub const CFG: usize = 1;
pub const SCHED: usize = 2;
pub const FAULT: usize = 3;
pub const MEM: usize = 4;
pub const ENTROPY: usize = 5;
/// Where callers lose the processor between two ordinary yield points.
pub const PREEMPT: usize = 6;
/// One stream of random words per call.
pub const WORDS: usize = 8;
pub const STREAMS: usize = 256;

pub struct Tape {
    rngs: [Rng; STREAMS],
    pos: [usize; STREAMS],
    replay: Option<Vec<Vec<u64>>>,
    record: bool,
    zero_end: bool,
}

static mut TAPE: Tape = Tape {
    rngs: [Rng::zero(); STREAMS],
    pos: [0; STREAMS],
    replay: None,
    record: false,
    zero_end: false,
};

#[allow(static_mut_refs)]
fn get() -> &'static mut Tape {
    unsafe { &mut TAPE }
}

pub fn start(seed: u64, replay: Option<&[Vec<u64>]>) {
    let t = get();
    for i in 0..STREAMS {
        t.rngs[i] = Rng::new(mix(seed, 0x7000 + i as u64));
        t.pos[i] = 0;
    }
    t.replay = replay.map(<[Vec<u64>]>::to_vec);
    t.record = true;
}

/// Side runs (solo baselines, allocation counts) must not appear on the tape.
pub fn stop_recording() {
    get().record = false;
}

/// A side run that is compared with the recorded run: past the end of a shortened tape both read 0.
pub fn compare_side_run() {
    get().record = false;
    get().zero_end = true;
}

/// Cuts a side run off the tape: it continues on values derived from `seed`.
pub fn detach(seed: u64) {
    let t = get();
    for i in 0..STREAMS {
        t.rngs[i] = Rng::new(mix(seed, 0x9000 + i as u64));
    }
    t.replay = None;
    t.record = false;
}

/// Gives the entropy stream of a side run other values than the main run has.
pub fn perturb_entropy() {
    get().rngs[ENTROPY] = Rng::new(0x5EED_0F50_1000);
}

/// A value below `bound` made by `gen`; on replay, the recorded value (0 when the tape has ended).
pub fn draw_with(stream: usize, bound: u64, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
    let t = get();
    // the generator advances on replay too: side runs may go further than the recorded run did
    let made = gen(&mut t.rngs[stream]);
    let value = match &t.replay {
        // two streams that a side run and the recorded run need not use in step
        Some(streams) if t.record || (stream != ENTROPY && stream != FAULT) => {
            let end = if t.record || t.zero_end { 0 } else { made };
            let v = streams[stream].get(t.pos[stream]).copied().unwrap_or(end);
            if bound == 0 {
                v
            } else {
                v.min(bound - 1)
            }
        }
        _ => made,
    };
    t.pos[stream] += 1;
    if t.record {
        let s = shm::get();
        let n = s.tape_len as usize;
        if n < shm::TAPE_CAP {
            s.tape[n] = (stream as u32, value);
            s.tape_len += 1;
        } else {
            s.tape_overflow = 1;
        }
    }
    value
}

pub fn draw(stream: usize, bound: u64) -> u64 {
    draw_with(stream, bound, |r| r.below(bound))
}

/// True with probability `p/q`; the simplest (0) choice is false.
pub fn chance(stream: usize, p: u64, q: u64) -> bool {
    draw(stream, q) >= q - p
}

/// Picks by weight; the first entry is the simplest.
pub fn weighted(stream: usize, weights: &[u64]) -> usize {
    let total: u64 = weights.iter().sum();
    let mut v = draw(stream, total);
    for (i, w) in weights.iter().enumerate() {
        if v < *w {
            return i;
        }
        v -= w;
    }
    0
}

pub fn range(stream: usize, low: u64, high: u64) -> u64 {
    low + draw(stream, high - low + 1)
}

pub fn shuffle<T>(stream: usize, items: &mut [T]) {
    for i in (1..items.len()).rev() {
        let j = i as u64 - draw(stream, i as u64 + 1);
        items.swap(i, j as usize);
    }
}
