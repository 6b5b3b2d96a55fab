//! Stand-in for the if_chain crate.
#[macro_export]
macro_rules! if_chain {
    ($($t:tt)*) => { $crate::__if_chain!(@parse () $($t)*) };
}
#[macro_export]
macro_rules! __if_chain {
    (@parse () then { $($then:tt)* } else { $($other:tt)* }) => { if true { $($then)* } else { $($other)* } };
    (@parse () then { $($then:tt)* }) => { { $($then)* } };
    (@parse ($($else:tt)*) then { $($then:tt)* }) => { { $($then)* } };
    (@parse () let $p:pat = $e:expr; $($rest:tt)*) => { if let $p = $e { $crate::__if_chain!(@parse () $($rest)*) } };
    (@parse () if let $p:pat = $e:expr; $($rest:tt)*) => { if let $p = $e { $crate::__if_chain!(@parse () $($rest)*) } };
    (@parse () if $e:expr; $($rest:tt)*) => { if $e { $crate::__if_chain!(@parse () $($rest)*) } };
}
