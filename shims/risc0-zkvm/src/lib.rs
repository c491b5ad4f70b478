//! Type-level stand-in for `risc0-zkvm`.
pub mod guest {
    pub mod env {
        pub fn log(_s: &str) { unimplemented!() }
        pub fn read_frame() -> Vec<u8> { unimplemented!() }
        pub fn read<T: serde::de::DeserializeOwned>() -> T { unimplemented!() }
        pub fn read_slice<T>(_s: &mut [T]) { unimplemented!() }
        pub fn commit<T: serde::Serialize + ?Sized>(_t: &T) { unimplemented!() }
        pub fn commit_slice<T>(_s: &[T]) { unimplemented!() }
        pub fn write<T: serde::Serialize + ?Sized>(_t: &T) { unimplemented!() }
        pub fn exit(_c: u8) -> ! { unimplemented!() }
        pub fn cycle_count() -> u64 { unimplemented!() }
    }
    #[macro_export]
    macro_rules! __entry { ($p:path) => { pub const ZKVM_ENTRY: fn() = $p; } }
    pub use __entry as entry;
}
pub struct ExecutorEnv<'a>(std::marker::PhantomData<&'a ()>);
pub struct ExecutorEnvBuilder<'a>(std::marker::PhantomData<&'a ()>);
impl<'a> ExecutorEnv<'a> { pub fn builder() -> ExecutorEnvBuilder<'a> { unimplemented!() } }
impl<'a> ExecutorEnvBuilder<'a> {
    pub fn write_frame(&mut self, _p: &[u8]) -> &mut Self { unimplemented!() }
    pub fn write_slice<T>(&mut self, _p: &[T]) -> &mut Self { unimplemented!() }
    pub fn write<T: serde::Serialize>(&mut self, _p: &T) -> anyhow::Result<&mut Self> { unimplemented!() }
    pub fn build(&mut self) -> anyhow::Result<ExecutorEnv<'a>> { unimplemented!() }
}
pub struct Journal { pub bytes: Vec<u8> }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ExitCode { Halted(u32), Paused(u32), SystemSplit, SessionLimit }
pub struct SessionInfo { pub journal: Journal, pub exit_code: ExitCode }
impl SessionInfo { pub fn cycles(&self) -> u64 { unimplemented!() } }
pub trait Executor { fn execute(&self, env: ExecutorEnv<'_>, elf: &[u8]) -> anyhow::Result<SessionInfo>; }
pub struct DefaultExecutor(());
impl DefaultExecutor { pub fn execute(&self, _env: ExecutorEnv<'_>, _elf: &[u8]) -> anyhow::Result<SessionInfo> { unimplemented!() } }
pub fn default_executor() -> DefaultExecutor { unimplemented!() }
