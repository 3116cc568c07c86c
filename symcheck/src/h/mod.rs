//! The harnesses: one generic function per group of claims, run with T = Sym
//! (symbolic), f64 and f32 (replay, encoder validation).
pub use crate::api::{c, ne, panics, Sc};
pub use crate::engine::Harness;
pub use crate::sym::{Cond, Sym};

macro_rules! reg {
    ($v:ident, $prop:literal, $name:expr, $f:path, $funcs:expr) => {
        $v.push(Harness { prop: $prop, name: $name, funcs: $funcs, sym: { use $f as f; f::<Sym> }, nat: { use $f as f; f::<f64> }, nat32: Some({ use $f as f; f::<f32> }), thorough: false })
    };
    ($v:ident, thorough $prop:literal, $name:expr, $f:path, $funcs:expr) => {
        $v.push(Harness { prop: $prop, name: $name, funcs: $funcs, sym: { use $f as f; f::<Sym> }, nat: { use $f as f; f::<f64> }, nat32: Some({ use $f as f; f::<f32> }), thorough: true })
    };
}

pub mod checks;
pub mod decomp;
pub mod dual;
pub mod linalg;
pub mod quat;
pub mod transf;
pub mod util;

pub fn registry() -> Vec<Harness> {
    let mut v = vec![];
    linalg::reg(&mut v);
    quat::reg(&mut v);
    transf::reg(&mut v);
    dual::reg(&mut v);
    decomp::reg(&mut v);
    checks::reg(&mut v);
    v
}
