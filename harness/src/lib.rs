pub mod feed;
pub mod fw;
pub mod grammar;
pub mod seq;
#[cfg(feature = "sched")]
pub mod sched;
