//! `panacea_simstd`: std with its scheduling- and time-dependent parts replaced by simulated ones.
//!
//! The crate is linked in place of `std` (`extern crate panacea_simstd as std;`) by the code under
//! test when it is built with `--cfg panacea_sim`.  Everything not redefined here is std itself.
#![allow(deprecated, unused_imports, dead_code, clippy::all)]
#![allow(ambiguous_glob_reexports, hidden_glob_reexports)]
pub use ::std::*;

pub mod sched;
pub mod sync;
pub mod thread;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::sched::point(crate::sched::kind::YIELD, 0);
        ::std::hint::spin_loop()
    }
}
