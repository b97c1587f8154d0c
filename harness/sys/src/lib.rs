//! Shared machinery of the monitors: deterministic randomness, panic capture,
//! evidence and verdict reporting.

#[cfg(feature = "vc")]
pub mod clock;
#[cfg(feature = "vc")]
pub mod exec;
#[cfg(feature = "issuer")]
pub mod issue;
#[cfg(feature = "vc")]
pub mod mdoc;
#[cfg(feature = "vc")]
pub mod docs;
pub mod report;
pub mod rng;
#[cfg(feature = "vc")]
pub mod world;

use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDS: Cell<usize> = const { Cell::new(0) };
}

/// Record panics instead of printing them. One that nothing guards means that
/// the code under test answered a sound step of the workload in a way the
/// workload cannot go on from.
pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        if GUARDS.get() == 0 && std::thread::current().name() == Some("main") {
            report::broken_off(&info.to_string());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
    }));
}

/// Run `f`, returning the panic text when it panics.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDS.set(GUARDS.get() + 1);
    let out = catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()));
    GUARDS.set(GUARDS.get() - 1);
    out
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// FNV-1a, used to count distinct cases.
pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3))
}

/// What a pure function answers may depend neither on what was asked before nor
/// on what is asked at the same time: every answer in a sequential pass is
/// compared with those of a pass in another order and of threads released
/// together, each starting elsewhere.
pub fn together<T: Sync>(rep: &mut report::Report, sig: &str, asked: &[T], answer: impl Fn(&T) -> String + Sync) {
    let one = |t: &T| guarded(|| answer(t)).unwrap_or_else(|p| format!("panic: {p}"));
    let alone: Vec<String> = asked.iter().map(one).collect();
    let mut differ: Vec<(usize, String)> = vec![];
    for (k, t) in asked.iter().enumerate().rev() {
        rep.count("answers_repeated_in_another_order");
        let again = one(t);
        if again != alone[k] {
            differ.push((k, again));
        }
    }
    let threads = 8;
    let barrier = std::sync::Barrier::new(threads);
    let found: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (barrier, alone, one) = (&barrier, &alone, &one);
                s.spawn(move || {
                    barrier.wait();
                    let n = asked.len();
                    let mut out = vec![];
                    for k in 0..n {
                        // half of the threads keep in step, the others start elsewhere
                        let at = if t % 2 == 0 { k } else { (k + t * n / threads) % n };
                        let again = one(&asked[at]);
                        if again != alone[at] {
                            out.push((at, again));
                        }
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    rep.add("answers_repeated_at_the_same_time", (threads * asked.len()) as u64);
    for (k, again) in differ.into_iter().chain(found.into_iter().flatten()) {
        rep.violation(sig, format!("question {k}: first {} then {again}", alone[k]));
    }
}
