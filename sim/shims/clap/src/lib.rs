//! Stand-in: arguments are taken from the script.
pub use clap_macros::Parser;
pub trait Parser: Sized {
    fn parse() -> Self;
}
#[doc(hidden)]
pub mod __sim {
    pub trait Value: Sized { fn value(x: Option<&String>) -> Self; }
    impl Value for Option<String> { fn value(x: Option<&String>) -> Self { x.cloned() } }
    impl Value for String { fn value(x: Option<&String>) -> Self { x.cloned().unwrap_or_default() } }
    impl Value for bool { fn value(x: Option<&String>) -> Self { x.is_some() } }
    macro_rules! number { ($($t:ty),*) => { $(impl Value for $t { fn value(x: Option<&String>) -> Self { x.and_then(|x| x.parse().ok()).unwrap_or_default() } })* } }
    number!(u8, u16, u32, u64, usize, i32, i64);
    pub fn get<T: Value>(name: &str) -> T {
        T::value(simctl::ctl().and_then(|c| c.script.args.get(name)))
    }
}
