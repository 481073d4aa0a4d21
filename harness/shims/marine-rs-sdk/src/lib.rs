// Stand-in for marine-rs-sdk off wasm: same records, call parameters set by the harness.
pub use marine_macro_shim::marine;
use std::cell::RefCell;
#[derive(Clone, Debug, Default, Eq, PartialEq, Hash)]
pub struct SecurityTetraplet { pub peer_pk: String, pub service_id: String, pub function_name: String, pub json_path: String }
#[derive(Clone, PartialEq, Default, Eq, Debug)]
pub struct CallParameters { pub init_peer_id: String, pub service_id: String, pub service_creator_peer_id: String, pub host_id: String, pub particle_id: String, pub tetraplets: Vec<Vec<SecurityTetraplet>> }
thread_local! { static CP: RefCell<CallParameters> = Default::default(); }
pub fn get_call_parameters() -> CallParameters { CP.with(|c| c.borrow().clone()) }
pub fn vx_set_call_parameters(c: CallParameters) { CP.with(|x| *x.borrow_mut() = c) }
#[macro_export]
macro_rules! module_manifest { () => {}; }
pub struct WasmLoggerBuilder;
impl WasmLoggerBuilder {
    pub fn new() -> Self { WasmLoggerBuilder }
    pub fn with_log_level(self, _: log::LevelFilter) -> Self { self }
    pub fn build(self) -> Result<(), log::SetLoggerError> { Ok(()) }
}
