//! Reference model shared by the explorers.  Independent of the code under test.
pub mod ty;
pub mod refaper;
pub mod vals;
pub mod family;
pub mod report;
pub mod par;
pub mod e2e;
pub mod logsink;
