// Anchor crate: makes cargo build pin-project (from /repo's working tree) and auxmac.
pub use auxmac;
pub use pin_project;
