//! Offline stand-in for the `curvelogic/yaml-rust` fork eucalypt depends on
//! by git (not reachable here).  Provides exactly the API surface eucalypt
//! uses.  The parser covers JSON, flow and block YAML, quoted/plain/block
//! scalars, anchors, aliases and tags; the emitter writes YAML that this
//! parser reads back.  It is part of the harness' trusted base, not of the
//! code under test.
pub mod parser;
pub mod scanner;
pub mod yaml;
mod emitter;
pub use emitter::{EmitError, YamlEmitter};
pub use yaml::Yaml;
