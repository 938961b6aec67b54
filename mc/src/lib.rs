//! Exhaustive bounded exploration of renplex against small reference models.
pub mod engine;
pub mod actf;
pub mod archs;
pub mod cx;
pub mod laychk;
pub mod lossf;
pub mod num;
pub mod refnet;
pub mod trainchk;
pub mod sched;
pub mod conc;
