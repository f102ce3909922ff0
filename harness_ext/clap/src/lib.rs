pub use clap_builder::*;
pub use clap_derive::{self, Args, Parser, Subcommand, ValueEnum};
use std::ffi::OsString;
use std::sync::Mutex;

pub static ARGV: Mutex<Vec<OsString>> = Mutex::new(Vec::new());
fn argv() -> Vec<OsString> { ARGV.lock().map(|v| v.clone()).unwrap_or_default() }

/// As in clap, with ARGV instead of the arguments of the process.
pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn parse() -> Self { Self::parse_from(argv()) }
    fn try_parse() -> Result<Self, Error> { Self::try_parse_from(argv()) }
    fn parse_from<I, T>(itr: I) -> Self where I: IntoIterator<Item = T>, T: Into<OsString> + Clone { match Self::try_parse_from(itr) { Ok(x) => x, Err(e) => e.exit() } }
    fn try_parse_from<I, T>(itr: I) -> Result<Self, Error> where I: IntoIterator<Item = T>, T: Into<OsString> + Clone {
        let mut m = Self::command().try_get_matches_from(itr)?;
        Self::from_arg_matches_mut(&mut m)
    }
}
