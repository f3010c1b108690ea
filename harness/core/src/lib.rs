//! Framework, generators, oracles and tool-level checks. Nothing in here depends on the code under
//! test: the tools are run as subprocesses, the library is called from the `vp` crate only.
pub mod case;
pub mod cli;
pub mod cli2;
pub mod cli3;
pub mod cli4;
pub mod cli5;
pub mod cli6;
pub mod cli7;
pub mod cli8;
pub mod dict;
pub mod frame;
pub mod gens;
pub mod oracle;
pub mod registry;
pub mod tool;
pub mod words;
