//! Loop-free harnesses over full-domain symbolic inputs (complete, not bounded),
//! on the real functions.
#[cfg(all(kani, feature = "c20"))]
mod c20;
#[cfg(all(kani, feature = "c08"))]
mod c08;
