//! Shared machinery of the checks.
//!
//! * [`vm`] runs one instruction of a Solana program natively against an
//!   account database, with the rules of the runtime which the programs rely
//!   on (privileges, ownership, atomicity, conservation of lamports), and with
//!   the real SPL token program as the callee of CPIs.
//! * [`big`] exact unsigned integers and rationals for oracles.
//! * [`pbt`] drives proptest, counts what was generated, shrinks, writes the
//!   replay and evidence files.

pub mod big;
pub mod pbt;
pub mod tok;
pub mod vm;

pub use anchor_lang;
pub use proptest;
pub use serde;
pub use serde_json;
pub use spl_token;
