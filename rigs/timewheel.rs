// The timer wheel behind the ping timeout (src/time/timewheel.rs).
//@main
use crate::time::timewheel::TimeWheel;
use std::time::Duration;

const SLOTS: u64 = 256;
fn tick(w: &TimeWheel<u32>) -> Vec<u32> {
    match w.tick() {
        None => vec![],
        Some(mut m) => m.drain().map(|x| x.1).collect(),
    }
}
/// one entry of an arbitrary duration, inserted after an arbitrary-position number of ticks
#[no_mangle]
pub extern "C" fn h_one(total_ms: u64, pre: u64) {
    let w: TimeWheel<u32> = TimeWheel::new(Duration::from_millis(total_ms));
    let tick_ns = w.tick_duration().as_nanos() as u64;
    nd::check(tick_ns * SLOTS <= total_ms * 1_000_000 && (tick_ns + 1) * SLOTS > total_ms * 1_000_000, "tick_duration is not 1/256 of the wheel");
    for _ in 0..pre {
        nd::check(tick(&w).is_empty(), "an entry appeared from nowhere");
    }
    let d = nd::below(total_ms + 1, "dur_ms");
    nd::assume(d * 1_000_000 >= tick_ns + SLOTS);
    w.insert(Duration::from_millis(d), 7);
    let mut fired = 0u64;
    for k in 1..=2 * SLOTS {
        let e = tick(&w);
        if !e.is_empty() {
            nd::check(fired == 0 && e.len() == 1 && e[0] == 7, "an entry fired twice");
            fired = k;
        }
    }
    nd::log(1, fired);
    nd::check(fired > 0, "an entry never fired");
    // the k-th tick after the insertion happens k-1..k tick lengths after it
    nd::check(fired * tick_ns <= d * 1_000_000 + 2 * tick_ns, "an entry fired late");
    nd::check(fired * tick_ns + 2 * tick_ns >= d * 1_000_000, "an entry fired early");
    nd::cover("fired");
}

/// several entries, refreshed (cancel + insert) or cancelled at arbitrary moments: each live entry fires
/// exactly once at its own time, a cancelled one never
#[no_mangle]
pub extern "C" fn h_many(pre: u64, ops: u64) {
    const MS: u64 = 35_001;
    let w: TimeWheel<u32> = TimeWheel::new(Duration::from_millis(MS));
    let tick_ns = w.tick_duration().as_nanos() as u64;
    for _ in 0..pre {
        tick(&w);
    }
    let durs = [35_000u64, 35_001, 300, 17_500];
    // (entry, id, due time in ns on the tick clock, alive)
    let mut live = vec![];
    let mut clock = 0u64;
    let mut next = 0u32;
    let mut advance = |n: u64, live: &mut Vec<(u32, _, u64, bool)>, clock: &mut u64| {
        for _ in 0..n {
            *clock += 1;
            for e in tick(&w) {
                let Some(x) = live.iter_mut().find(|x: &&mut (u32, _, u64, bool)| x.0 == e) else {
                    nd::fail("an unknown entry fired");
                    return;
                };
                nd::check(x.3, "a cancelled or already fired entry fired");
                x.3 = false;
                nd::log(2, e as u64);
                nd::check(*clock * tick_ns <= x.2 + 2 * tick_ns, "an entry fired late");
                nd::check(*clock * tick_ns + 2 * tick_ns >= x.2, "an entry fired early");
            }
        }
    };
    for _ in 0..ops {
        match nd::choose(3, "op") {
            0 => {
                let d = durs[nd::choose(durs.len(), "dur")];
                let id = w.insert(Duration::from_millis(d), next);
                live.push((next, id, clock * tick_ns + d * 1_000_000, true));
                next += 1;
            }
            1 => {
                let alive: Vec<usize> = (0..live.len()).filter(|&i| live[i].3).collect();
                if alive.is_empty() {
                    nd::assume(false);
                }
                let i = alive[nd::choose(alive.len(), "which")];
                w.cancel(live[i].1);
                live[i].3 = false;
                nd::cover("cancelled");
            }
            _ => {
                let n = [1u64, 2, 3, 127, 254, 255, 256][nd::choose(7, "ticks")];
                advance(n, &mut live, &mut clock);
            }
        }
    }
    advance(2 * SLOTS, &mut live, &mut clock);
    for x in &live {
        nd::check(!x.3, "an entry never fired");
    }
}
