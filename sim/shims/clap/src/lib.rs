//! The real command line parser, with the arguments of the simulated process.
pub use clap_derive::{self, Args, Parser, Subcommand, ValueEnum};
pub use clap_real::*;
use std::{cell::RefCell, ffi::OsString};

thread_local! {
    static ARGS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Arguments (without the program's name) of the next simulated process.
pub fn sim_args(args: Vec<String>) {
    ARGS.with(|a| *a.borrow_mut() = args);
}

pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn parse() -> Self {
        let args = ARGS.with(|a| a.borrow().clone());
        let it = std::iter::once("sp-cli".to_string()).chain(args);
        match Self::try_parse_from(it) {
            Ok(s) => s,
            Err(e) => panic!("sim-exit: {e}"),
        }
    }

    fn try_parse() -> Result<Self, Error> {
        let args = ARGS.with(|a| a.borrow().clone());
        Self::try_parse_from(std::iter::once("sp-cli".to_string()).chain(args))
    }

    fn try_parse_from<I, T>(itr: I) -> Result<Self, Error>
    where
        I: IntoIterator<Item = T>,
        T: Into<OsString> + Clone,
    {
        let mut matches = <Self as CommandFactory>::command().try_get_matches_from(itr)?;
        <Self as FromArgMatches>::from_arg_matches_mut(&mut matches)
    }
}
