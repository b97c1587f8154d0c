//! A deterministic single-threaded executor. Every provider operation is a
//! suspension point when yielding is switched on, so a schedule (which request
//! runs its next step) is a list of choices that can be enumerated, drawn at
//! random and replayed.

use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

thread_local! {
    static YIELDING: Cell<bool> = const { Cell::new(false) };
}

fn raw() -> RawWaker {
    fn clone(_: *const ()) -> RawWaker {
        raw()
    }
    fn noop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
    RawWaker::new(std::ptr::null(), &VT)
}

fn waker() -> Waker {
    unsafe { Waker::from_raw(raw()) }
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..1_000_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("future never completes");
}

pub struct Step(bool);

impl Future for Step {
    type Output = ();

    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 || !YIELDING.with(Cell::get) {
            return Poll::Ready(());
        }
        self.0 = true;
        Poll::Pending
    }
}

/// A suspension point.
pub fn step() -> Step {
    Step(false)
}

pub type Task<T> = Pin<Box<dyn Future<Output = T>>>;

/// Run the tasks to completion, choosing the next one to poll with `choose`
/// (given the indices of unfinished tasks). Returns outputs and the schedule.
pub fn interleave<T>(tasks: Vec<Task<T>>, mut choose: impl FnMut(&[usize]) -> usize) -> (Vec<T>, Vec<usize>) {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut tasks: Vec<Option<Task<T>>> = tasks.into_iter().map(Some).collect();
    let mut out: Vec<Option<T>> = tasks.iter().map(|_| None).collect();
    let mut schedule = vec![];
    YIELDING.with(|y| y.set(true));
    loop {
        let live: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].is_some()).collect();
        if live.is_empty() {
            break;
        }
        let i = live[choose(&live) % live.len()];
        schedule.push(i);
        if let Poll::Ready(v) = tasks[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            out[i] = Some(v);
            tasks[i] = None;
        }
        if schedule.len() > 1_000_000 {
            break;
        }
    }
    YIELDING.with(|y| y.set(false));
    (out.into_iter().map(|o| o.expect("finished")).collect(), schedule)
}

/// Make sure a panic inside an interleaved task does not leave yielding on.
pub fn reset() {
    YIELDING.with(|y| y.set(false));
}
