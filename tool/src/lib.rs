//! The repository's command-line tool as a function (see build.rs).
#![allow(unused, clippy::all)]
extern crate panacea_simstd as std;
mod tool {
    include!(concat!(env!("OUT_DIR"), "/tool.rs"));
}
pub fn run() -> bool {
    tool::sim_main()
}
