//! Stand-in for the lazy_static crate.
pub mod lazy {
    pub struct Lazy<T: Sync>(pub std::sync::OnceLock<T>);
    impl<T: Sync> Lazy<T> {
        pub const fn new() -> Self { Lazy(std::sync::OnceLock::new()) }
        pub fn get<F: FnOnce() -> T>(&'static self, f: F) -> &'static T { self.0.get_or_init(f) }
    }
}
#[macro_export]
macro_rules! lazy_static {
    ($(#[$a:meta])* pub static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $crate::__lazy_item!((pub) $n, $t, $e); $crate::lazy_static!($($rest)*);
    };
    ($(#[$a:meta])* pub ($($v:tt)+) static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $crate::__lazy_item!((pub ($($v)+)) $n, $t, $e); $crate::lazy_static!($($rest)*);
    };
    ($(#[$a:meta])* static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $crate::__lazy_item!(() $n, $t, $e); $crate::lazy_static!($($rest)*);
    };
    () => {};
}
#[macro_export]
macro_rules! __lazy_item {
    (($($v:tt)*) $n:ident, $t:ty, $e:expr) => {
        #[allow(non_camel_case_types)]
        $($v)* struct $n { _p: () }
        $($v)* static $n: $n = $n { _p: () };
        impl std::ops::Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                static L: $crate::lazy::Lazy<$t> = $crate::lazy::Lazy::new();
                L.get(|| $e)
            }
        }
    };
}
