//! Stand-in for what risc0-build generates from the guest binaries (one `<NAME>_ELF`/`_ID` pair per binary).
pub static MAINNET_ELF: &[u8] = &[]; pub static MAINNET_ID: [u32; 8] = [1; 8]; pub const MAINNET_PATH: &str = "";
pub static SEPOLIA_ELF: &[u8] = &[]; pub static SEPOLIA_ID: [u32; 8] = [2; 8]; pub const SEPOLIA_PATH: &str = "";
pub static TEST_HARNESS_ELF: &[u8] = &[]; pub static TEST_HARNESS_ID: [u32; 8] = [3; 8]; pub const TEST_HARNESS_PATH: &str = "";
