//! Stand-in for `tracing`: what is reported at `info` and `warn` can be
//! listened to (as the operator of an issuer would), the rest is dropped.
pub use tracing_attributes::instrument;

use std::cell::RefCell;

thread_local! {
    static HEARD: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}

/// Run `f`, returning what was reported meanwhile on this thread.
pub fn listen<T>(f: impl FnOnce() -> T) -> (T, Vec<String>) {
    HEARD.with(|h| *h.borrow_mut() = Some(vec![]));
    let out = f();
    (out, HEARD.with(|h| h.borrow_mut().take()).unwrap_or_default())
}

#[doc(hidden)]
pub fn listening() -> bool {
    HEARD.with(|h| h.borrow().is_some())
}

#[doc(hidden)]
pub fn heard(text: String) {
    HEARD.with(|h| {
        if let Some(l) = &mut *h.borrow_mut() {
            l.push(text);
        }
    });
}

pub struct Level;
#[allow(missing_docs)]
impl Level {
    pub const ERROR: Level = Level;
    pub const WARN: Level = Level;
    pub const INFO: Level = Level;
    pub const DEBUG: Level = Level;
    pub const TRACE: Level = Level;
}

#[macro_export]
macro_rules! error { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! trace { ($($t:tt)*) => {{}}; }

#[macro_export]
macro_rules! info {
    (target: $t:expr, $($r:tt)*) => { $crate::info!($($r)*) };
    ($($r:tt)*) => {{
        if $crate::listening() {
            #[allow(unused_mut)]
            let mut text = ::std::string::String::new();
            $crate::__note!(text $($r)*);
            $crate::heard(text);
        }
    }};
}
#[macro_export]
macro_rules! warn { ($($t:tt)*) => { $crate::info!($($t)*) }; }
#[macro_export]
macro_rules! event {
    (target: $t:expr, $l:expr, $($r:tt)*) => { $crate::info!($($r)*) };
    ($l:expr, $($r:tt)*) => { $crate::info!($($r)*) };
}

#[doc(hidden)]
#[macro_export]
macro_rules! __note {
    ($s:ident) => {};
    ($s:ident ,) => {};
    ($s:ident $fmt:literal) => { $s.push_str(&::std::format!($fmt)); };
    ($s:ident $fmt:literal, $($a:tt)*) => { $s.push_str(&::std::format!($fmt, $($a)*)); };
    ($s:ident ? $($k:ident).+ $(, $($r:tt)*)?) => {
        $s.push_str(&::std::format!("{:?} ", $($k).+));
        $($crate::__note!($s $($r)*);)?
    };
    ($s:ident % $($k:ident).+ $(, $($r:tt)*)?) => {
        $s.push_str(&::std::format!("{} ", $($k).+));
        $($crate::__note!($s $($r)*);)?
    };
    ($s:ident $($k:ident).+ = ? $e:expr $(, $($r:tt)*)?) => {
        $s.push_str(&::std::format!("{:?} ", $e));
        $($crate::__note!($s $($r)*);)?
    };
    ($s:ident $($k:ident).+ = % $e:expr $(, $($r:tt)*)?) => {
        $s.push_str(&::std::format!("{} ", $e));
        $($crate::__note!($s $($r)*);)?
    };
    ($s:ident $($k:ident).+ = $e:expr $(, $($r:tt)*)?) => {
        $s.push_str(&::std::format!("{:?} ", $e));
        $($crate::__note!($s $($r)*);)?
    };
    ($s:ident $($k:ident).+ $(, $($r:tt)*)?) => {
        $s.push_str(&::std::format!("{:?} ", $($k).+));
        $($crate::__note!($s $($r)*);)?
    };
    ($s:ident $($r:tt)*) => {};
}
