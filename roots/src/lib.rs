//! Entry points for mirvc: every function below is monomorphic, so the driver can dump the
//! monomorphised MIR of everything reachable from it.  Nothing here is executed.
#![allow(clippy::all)]
#[cfg(feature = "field")]
pub mod field;
#[cfg(feature = "tower")]
pub mod tower;
#[cfg(feature = "curve")]
pub mod curve;
#[cfg(feature = "vm")]
pub mod vm;
#[cfg(feature = "base")]
pub mod base;
#[cfg(feature = "halo2")]
pub mod halo2;
#[cfg(any(feature = "plonk", feature = "prove", feature = "ser"))]
pub mod plonk;
#[cfg(feature = "kzg")]
pub mod kzg;
#[cfg(feature = "tr")]
pub mod tr;
#[cfg(feature = "pos")]
pub mod pos;
#[cfg(feature = "prove")]
pub mod prove;
#[cfg(feature = "ser")]
pub mod ser;
