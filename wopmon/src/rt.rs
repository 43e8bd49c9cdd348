//! What generated programs are linked with.
pub use logos;
pub use lrp as lrp_published;
pub use lrp_here;
pub use wop;
