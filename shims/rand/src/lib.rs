//! Stand-in for the part of `rand` 0.8 the repository uses. The thread generator is uniform, and a harness
//! can inject draws (`inject_i32`) to reach outcomes a uniform generator has with probability 2^-32.
use std::cell::RefCell;
use std::collections::VecDeque;

thread_local!(static INJECT: RefCell<VecDeque<i32>> = const { RefCell::new(VecDeque::new()) });

pub fn inject_i32(values: impl IntoIterator<Item = i32>) {
    INJECT.with(|q| q.borrow_mut().extend(values));
}
pub fn clear_injected() -> usize {
    INJECT.with(|q| std::mem::take(&mut *q.borrow_mut()).len())
}

pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub fn random<T: Draw>() -> T {
    T::draw()
}
pub trait Rng {
    fn gen<T: Draw>(&mut self) -> T {
        T::draw()
    }
    fn gen_range<T: Uniform, R: std::ops::RangeBounds<T>>(&mut self, r: R) -> T {
        // an injected draw counts where it is a possible outcome
        match INJECT.with(|q| q.borrow_mut().pop_front()).and_then(T::of) {
            Some(x) if r.contains(&x) => x,
            _ => T::within(r),
        }
    }
}
impl Rng for ThreadRng {}
pub trait Draw: Sized {
    fn draw() -> Self;
}
impl Draw for i32 {
    fn draw() -> Self {
        INJECT.with(|q| q.borrow_mut().pop_front()).unwrap_or_else(|| fastrand::i32(..))
    }
}
impl Draw for u32 {
    fn draw() -> Self {
        i32::draw() as u32
    }
}
impl Draw for u64 {
    fn draw() -> Self {
        fastrand::u64(..)
    }
}
impl Draw for u8 {
    fn draw() -> Self {
        fastrand::u8(..)
    }
}
impl<const N: usize> Draw for [u8; N] {
    fn draw() -> Self {
        let mut b = [0; N];
        b.iter_mut().for_each(|x| *x = fastrand::u8(..));
        b
    }
}

pub trait Uniform: Sized + PartialOrd {
    fn of(x: i32) -> Option<Self>;
    fn within(r: impl std::ops::RangeBounds<Self>) -> Self;
}
macro_rules! uniform {
    ($($t:ident)*) => {$(
        impl Uniform for $t {
            fn of(x: i32) -> Option<Self> {
                x.try_into().ok()
            }
            fn within(r: impl std::ops::RangeBounds<Self>) -> Self {
                fastrand::$t(r)
            }
        }
    )*};
}
uniform!(i32 i64 u8 u16 u32 u64 usize);
