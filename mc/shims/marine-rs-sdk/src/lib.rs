//! Harness stand-in for marine-rs-sdk: call parameters are what the explorer says they are.
pub use marine_macro::marine;
#[doc(hidden)]
pub use serde as __serde;
#[doc(hidden)]
pub use serde_json as __serde_json;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

/// Same shape as marine-call-parameters 0.10.2.
#[derive(Clone, Debug, Default, Eq, PartialEq, Hash, Serialize, Deserialize)]
pub struct SecurityTetraplet {
    pub peer_pk: String,
    pub service_id: String,
    pub function_name: String,
    pub json_path: String,
}

impl SecurityTetraplet {
    pub fn new(
        peer_pk: impl Into<String>,
        service_id: impl Into<String>,
        function_name: impl Into<String>,
        json_path: impl Into<String>,
    ) -> Self {
        Self {
            peer_pk: peer_pk.into(),
            service_id: service_id.into(),
            function_name: function_name.into(),
            json_path: json_path.into(),
        }
    }
}

impl std::fmt::Display for SecurityTetraplet {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "peer_pk: {}, service_id: {}, function_name: {}, json_path: {}",
            self.peer_pk, self.service_id, self.function_name, self.json_path
        )
    }
}

#[derive(Clone, PartialEq, Default, Eq, Debug, Serialize, Deserialize)]
pub struct CallParameters {
    pub init_peer_id: String,
    pub service_id: String,
    pub service_creator_peer_id: String,
    pub host_id: String,
    pub particle_id: String,
    pub tetraplets: Vec<Vec<SecurityTetraplet>>,
}

thread_local!(static CP: RefCell<CallParameters> = RefCell::new(CallParameters::default()));

pub fn get_call_parameters() -> CallParameters {
    CP.with(|c| c.borrow().clone())
}

/// Harness control: what the host passes for the next calls on this thread.
pub fn __set_call_parameters(cp: CallParameters) {
    CP.with(|c| *c.borrow_mut() = cp)
}

#[macro_export]
macro_rules! module_manifest {
    () => {};
}

/// Formats every message and drops it: on a node the host prints them, so evaluating their arguments is part of the behaviour.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _m: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        let _ = r.args().to_string();
    }
    fn flush(&self) {}
}

pub struct WasmLoggerBuilder(log::LevelFilter);
impl WasmLoggerBuilder {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(log::LevelFilter::Info)
    }
    pub fn with_log_level(self, l: log::LevelFilter) -> Self {
        Self(l)
    }
    pub fn filter(self, _f: impl Fn(&log::Record<'_>) -> bool + 'static) -> Self {
        self
    }
    pub fn with_target_map(self, _m: &'static std::collections::HashMap<&'static str, i32>) -> Self {
        self
    }
    pub fn build(self) -> Result<(), log::SetLoggerError> {
        // every incarnation of the service is started in the same process
        let _ = log::set_logger(&Sink);
        log::set_max_level(self.0);
        Ok(())
    }
}
