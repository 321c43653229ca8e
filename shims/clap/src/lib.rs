//! Stand-in for clap.
pub use clap_derive::Parser;
pub trait Parser: Sized {
    fn parse() -> Self;
}
pub trait Value {
    fn of(v: Option<String>) -> Self;
}
impl Value for String {
    fn of(v: Option<String>) -> Self {
        v.expect("missing argument")
    }
}
impl Value for Option<String> {
    fn of(v: Option<String>) -> Self {
        v
    }
}
pub fn take<T: Value>(args: &[String], flag: &str) -> T {
    let i = args.iter().position(|a| a == flag);
    T::of(i.and_then(|i| args.get(i + 1).cloned()))
}
