//! The real sp-cli1, as a function that can be called.
#![allow(clippy::all)]
use std::cell::RefCell;

thread_local! {
    static OUT: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static HOOK: RefCell<Option<Box<dyn Fn(&str)>>> = const { RefCell::new(None) };
}

#[doc(hidden)]
pub fn out(line: String) {
    HOOK.with(|h| {
        if let Some(h) = h.borrow().as_ref() {
            h(&line)
        }
    });
    OUT.with(|o| o.borrow_mut().push(line));
}

/// What the program printed since the last call.
pub fn take_output() -> Vec<String> {
    OUT.with(|o| std::mem::take(&mut *o.borrow_mut()))
}

/// Called with every printed line as it is printed.
pub fn on_output(h: Option<Box<dyn Fn(&str)>>) {
    HOOK.with(|x| *x.borrow_mut() = h);
}

#[allow(unused_macros)]
macro_rules! println {
    () => { $crate::out(String::new()) };
    ($($t:tt)*) => { $crate::out(format!($($t)*)) };
}
#[allow(unused_macros)]
macro_rules! print {
    ($($t:tt)*) => { $crate::out(format!($($t)*)) };
}
#[allow(unused_macros)]
macro_rules! dbg {
    ($($t:expr),* $(,)?) => { $( { $crate::out(format!("{:#?}", $t)); $t } )* };
}

#[allow(warnings)]
pub mod program {
    include!(concat!(env!("OUT_DIR"), "/program.rs"));
}

/// Run the program with these arguments to its end.
pub fn run(args: &[String]) -> anyhow::Result<()> {
    clap::sim_args(args.to_vec());
    program::sim_main()
}
