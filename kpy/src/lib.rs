//! The binding module of /repo, compiled as it is against stand-ins for pyo3 and numpy (property C23).
//! Under the model checker the Rust functions it forwards to are replaced by a recorder, so the question is exactly
//! "is the right function called once with these arguments, and is its answer passed on"; natively they are the real ones.
#![allow(clippy::all, unused, static_mut_refs)]
pub mod body;
pub mod rec;
pub mod src;

#[cfg(not(kani))]
pub use ::interpn::{multicubic, multilinear, nearest};
#[cfg(kani)]
pub use rec::{multicubic, multilinear, nearest};
pub use ::interpn::one_dim;

#[path = "/repo/src/python.rs"]
pub mod python;

macro_rules! fun {
    ($py:ident, $method:literal, $rect:literal, $py_mod:ident) => {{
        const F: body::Fun = body::Fun {
            named: body::eq(python::$py_mod::NAME, stringify!($py)),
            places: body::places(body::params($method, $rect), python::$py_mod::PARAMS),
            call: python::$py_mod::call,
        };
        F
    }};
}
macro_rules! harnesses {
    ($($feat:tt { $($name:ident : $f:ident :: < $t:ty, $g:literal, $o:literal > ($method:literal, $rect:literal, $py:ident, $py_mod:ident);)* })*) => {
        #[cfg(kani)]
        mod proofs {
            use super::*;
            $(
                #[cfg(feature = $feat)]
                pub mod group {
                    use super::*;
                    $(
                        #[unsafe(no_mangle)]
                        pub fn $name() {
                            body::$f::<$t, src::k::K, $g, $o>(&mut src::k::K, $method, $rect, fun!($py, $method, $rect, $py_mod));
                        }
                    )*
                    #[kani::proof]
                    fn group() {
                        let mut which: u16 = kani::any();
                        $(
                            if which == 0 {
                                $name();
                            }
                            which -= 1;
                        )*
                    }
                }
            )*
        }
        #[cfg(not(kani))]
        pub fn run(name: &str, s: &mut src::Replay) -> bool {
            match name {
                $($(stringify!($name) => { body::$f::<$t, src::Replay, $g, $o>(s, $method, $rect, fun!($py, $method, $rect, $py_mod)); true })*)*
                _ => false,
            }
        }
    };
}
// method: 0 linear, 1 nearest, 2 cubic, 3 check_bounds
harnesses! {
    "c23_linear" {
        c23_linear_regular_f64_0_0: forward::<f64, 0, 0>(0, false, interpn_linear_regular_f64, __py_interpn_linear_regular_f64);
        c23_linear_regular_f64_0_1: forward::<f64, 0, 1>(0, false, interpn_linear_regular_f64, __py_interpn_linear_regular_f64);
        c23_linear_regular_f64_0_2: forward::<f64, 0, 2>(0, false, interpn_linear_regular_f64, __py_interpn_linear_regular_f64);
        c23_linear_regular_f64_0_3: forward::<f64, 0, 3>(0, false, interpn_linear_regular_f64, __py_interpn_linear_regular_f64);
        c23_linear_regular_f64_0_4: forward::<f64, 0, 4>(0, false, interpn_linear_regular_f64, __py_interpn_linear_regular_f64);
        c23_linear_regular_f64_0_5: forward::<f64, 0, 5>(0, false, interpn_linear_regular_f64, __py_interpn_linear_regular_f64);
        c23_linear_regular_f64_0_6: forward::<f64, 0, 6>(0, false, interpn_linear_regular_f64, __py_interpn_linear_regular_f64);
        c23_linear_regular_f64_0_7: forward::<f64, 0, 7>(0, false, interpn_linear_regular_f64, __py_interpn_linear_regular_f64);
        c23_linear_regular_f64_0_8: forward::<f64, 0, 8>(0, false, interpn_linear_regular_f64, __py_interpn_linear_regular_f64);
        c23_linear_regular_f64_0_9: forward::<f64, 0, 9>(0, false, interpn_linear_regular_f64, __py_interpn_linear_regular_f64);
        c23_linear_regular_f32_0_0: forward::<f32, 0, 0>(0, false, interpn_linear_regular_f32, __py_interpn_linear_regular_f32);
        c23_linear_regular_f32_0_1: forward::<f32, 0, 1>(0, false, interpn_linear_regular_f32, __py_interpn_linear_regular_f32);
        c23_linear_regular_f32_0_2: forward::<f32, 0, 2>(0, false, interpn_linear_regular_f32, __py_interpn_linear_regular_f32);
        c23_linear_regular_f32_0_3: forward::<f32, 0, 3>(0, false, interpn_linear_regular_f32, __py_interpn_linear_regular_f32);
        c23_linear_regular_f32_0_4: forward::<f32, 0, 4>(0, false, interpn_linear_regular_f32, __py_interpn_linear_regular_f32);
        c23_linear_regular_f32_0_5: forward::<f32, 0, 5>(0, false, interpn_linear_regular_f32, __py_interpn_linear_regular_f32);
        c23_linear_regular_f32_0_6: forward::<f32, 0, 6>(0, false, interpn_linear_regular_f32, __py_interpn_linear_regular_f32);
        c23_linear_regular_f32_0_7: forward::<f32, 0, 7>(0, false, interpn_linear_regular_f32, __py_interpn_linear_regular_f32);
        c23_linear_regular_f32_0_8: forward::<f32, 0, 8>(0, false, interpn_linear_regular_f32, __py_interpn_linear_regular_f32);
        c23_linear_regular_f32_0_9: forward::<f32, 0, 9>(0, false, interpn_linear_regular_f32, __py_interpn_linear_regular_f32);
        c23_linear_rectilinear_f64_0_0: forward::<f64, 0, 0>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_1_1: forward::<f64, 1, 1>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_2_2: forward::<f64, 2, 2>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_3_3: forward::<f64, 3, 3>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_4_4: forward::<f64, 4, 4>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_5_5: forward::<f64, 5, 5>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_6_6: forward::<f64, 6, 6>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_7_7: forward::<f64, 7, 7>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_8_8: forward::<f64, 8, 8>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_9_9: forward::<f64, 9, 9>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_1_0: forward::<f64, 1, 0>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_0_1: forward::<f64, 0, 1>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_2_1: forward::<f64, 2, 1>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_1_2: forward::<f64, 1, 2>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_3_2: forward::<f64, 3, 2>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_2_3: forward::<f64, 2, 3>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_9_8: forward::<f64, 9, 8>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_8_9: forward::<f64, 8, 9>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_9_1: forward::<f64, 9, 1>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f64_1_9: forward::<f64, 1, 9>(0, true, interpn_linear_rectilinear_f64, __py_interpn_linear_rectilinear_f64);
        c23_linear_rectilinear_f32_0_0: forward::<f32, 0, 0>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_1_1: forward::<f32, 1, 1>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_2_2: forward::<f32, 2, 2>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_3_3: forward::<f32, 3, 3>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_4_4: forward::<f32, 4, 4>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_5_5: forward::<f32, 5, 5>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_6_6: forward::<f32, 6, 6>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_7_7: forward::<f32, 7, 7>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_8_8: forward::<f32, 8, 8>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_9_9: forward::<f32, 9, 9>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_1_0: forward::<f32, 1, 0>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_0_1: forward::<f32, 0, 1>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_2_1: forward::<f32, 2, 1>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_1_2: forward::<f32, 1, 2>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_3_2: forward::<f32, 3, 2>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_2_3: forward::<f32, 2, 3>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_9_8: forward::<f32, 9, 8>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_8_9: forward::<f32, 8, 9>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_9_1: forward::<f32, 9, 1>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
        c23_linear_rectilinear_f32_1_9: forward::<f32, 1, 9>(0, true, interpn_linear_rectilinear_f32, __py_interpn_linear_rectilinear_f32);
    }
    "c23_nearest" {
        c23_nearest_regular_f64_0_0: forward::<f64, 0, 0>(1, false, interpn_nearest_regular_f64, __py_interpn_nearest_regular_f64);
        c23_nearest_regular_f64_0_1: forward::<f64, 0, 1>(1, false, interpn_nearest_regular_f64, __py_interpn_nearest_regular_f64);
        c23_nearest_regular_f64_0_2: forward::<f64, 0, 2>(1, false, interpn_nearest_regular_f64, __py_interpn_nearest_regular_f64);
        c23_nearest_regular_f64_0_3: forward::<f64, 0, 3>(1, false, interpn_nearest_regular_f64, __py_interpn_nearest_regular_f64);
        c23_nearest_regular_f64_0_4: forward::<f64, 0, 4>(1, false, interpn_nearest_regular_f64, __py_interpn_nearest_regular_f64);
        c23_nearest_regular_f64_0_5: forward::<f64, 0, 5>(1, false, interpn_nearest_regular_f64, __py_interpn_nearest_regular_f64);
        c23_nearest_regular_f64_0_6: forward::<f64, 0, 6>(1, false, interpn_nearest_regular_f64, __py_interpn_nearest_regular_f64);
        c23_nearest_regular_f64_0_7: forward::<f64, 0, 7>(1, false, interpn_nearest_regular_f64, __py_interpn_nearest_regular_f64);
        c23_nearest_regular_f64_0_8: forward::<f64, 0, 8>(1, false, interpn_nearest_regular_f64, __py_interpn_nearest_regular_f64);
        c23_nearest_regular_f64_0_9: forward::<f64, 0, 9>(1, false, interpn_nearest_regular_f64, __py_interpn_nearest_regular_f64);
        c23_nearest_regular_f32_0_0: forward::<f32, 0, 0>(1, false, interpn_nearest_regular_f32, __py_interpn_nearest_regular_f32);
        c23_nearest_regular_f32_0_1: forward::<f32, 0, 1>(1, false, interpn_nearest_regular_f32, __py_interpn_nearest_regular_f32);
        c23_nearest_regular_f32_0_2: forward::<f32, 0, 2>(1, false, interpn_nearest_regular_f32, __py_interpn_nearest_regular_f32);
        c23_nearest_regular_f32_0_3: forward::<f32, 0, 3>(1, false, interpn_nearest_regular_f32, __py_interpn_nearest_regular_f32);
        c23_nearest_regular_f32_0_4: forward::<f32, 0, 4>(1, false, interpn_nearest_regular_f32, __py_interpn_nearest_regular_f32);
        c23_nearest_regular_f32_0_5: forward::<f32, 0, 5>(1, false, interpn_nearest_regular_f32, __py_interpn_nearest_regular_f32);
        c23_nearest_regular_f32_0_6: forward::<f32, 0, 6>(1, false, interpn_nearest_regular_f32, __py_interpn_nearest_regular_f32);
        c23_nearest_regular_f32_0_7: forward::<f32, 0, 7>(1, false, interpn_nearest_regular_f32, __py_interpn_nearest_regular_f32);
        c23_nearest_regular_f32_0_8: forward::<f32, 0, 8>(1, false, interpn_nearest_regular_f32, __py_interpn_nearest_regular_f32);
        c23_nearest_regular_f32_0_9: forward::<f32, 0, 9>(1, false, interpn_nearest_regular_f32, __py_interpn_nearest_regular_f32);
        c23_nearest_rectilinear_f64_0_0: forward::<f64, 0, 0>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_1_1: forward::<f64, 1, 1>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_2_2: forward::<f64, 2, 2>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_3_3: forward::<f64, 3, 3>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_4_4: forward::<f64, 4, 4>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_5_5: forward::<f64, 5, 5>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_6_6: forward::<f64, 6, 6>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_7_7: forward::<f64, 7, 7>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_8_8: forward::<f64, 8, 8>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_9_9: forward::<f64, 9, 9>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_1_0: forward::<f64, 1, 0>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_0_1: forward::<f64, 0, 1>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_2_1: forward::<f64, 2, 1>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_1_2: forward::<f64, 1, 2>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_3_2: forward::<f64, 3, 2>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_2_3: forward::<f64, 2, 3>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_9_8: forward::<f64, 9, 8>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_8_9: forward::<f64, 8, 9>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_9_1: forward::<f64, 9, 1>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f64_1_9: forward::<f64, 1, 9>(1, true, interpn_nearest_rectilinear_f64, __py_interpn_nearest_rectilinear_f64);
        c23_nearest_rectilinear_f32_0_0: forward::<f32, 0, 0>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_1_1: forward::<f32, 1, 1>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_2_2: forward::<f32, 2, 2>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_3_3: forward::<f32, 3, 3>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_4_4: forward::<f32, 4, 4>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_5_5: forward::<f32, 5, 5>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_6_6: forward::<f32, 6, 6>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_7_7: forward::<f32, 7, 7>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_8_8: forward::<f32, 8, 8>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_9_9: forward::<f32, 9, 9>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_1_0: forward::<f32, 1, 0>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_0_1: forward::<f32, 0, 1>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_2_1: forward::<f32, 2, 1>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_1_2: forward::<f32, 1, 2>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_3_2: forward::<f32, 3, 2>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_2_3: forward::<f32, 2, 3>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_9_8: forward::<f32, 9, 8>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_8_9: forward::<f32, 8, 9>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_9_1: forward::<f32, 9, 1>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
        c23_nearest_rectilinear_f32_1_9: forward::<f32, 1, 9>(1, true, interpn_nearest_rectilinear_f32, __py_interpn_nearest_rectilinear_f32);
    }
    "c23_cubic" {
        c23_cubic_regular_f64_0_0: forward::<f64, 0, 0>(2, false, interpn_cubic_regular_f64, __py_interpn_cubic_regular_f64);
        c23_cubic_regular_f64_0_1: forward::<f64, 0, 1>(2, false, interpn_cubic_regular_f64, __py_interpn_cubic_regular_f64);
        c23_cubic_regular_f64_0_2: forward::<f64, 0, 2>(2, false, interpn_cubic_regular_f64, __py_interpn_cubic_regular_f64);
        c23_cubic_regular_f64_0_3: forward::<f64, 0, 3>(2, false, interpn_cubic_regular_f64, __py_interpn_cubic_regular_f64);
        c23_cubic_regular_f64_0_4: forward::<f64, 0, 4>(2, false, interpn_cubic_regular_f64, __py_interpn_cubic_regular_f64);
        c23_cubic_regular_f64_0_5: forward::<f64, 0, 5>(2, false, interpn_cubic_regular_f64, __py_interpn_cubic_regular_f64);
        c23_cubic_regular_f64_0_6: forward::<f64, 0, 6>(2, false, interpn_cubic_regular_f64, __py_interpn_cubic_regular_f64);
        c23_cubic_regular_f64_0_7: forward::<f64, 0, 7>(2, false, interpn_cubic_regular_f64, __py_interpn_cubic_regular_f64);
        c23_cubic_regular_f64_0_8: forward::<f64, 0, 8>(2, false, interpn_cubic_regular_f64, __py_interpn_cubic_regular_f64);
        c23_cubic_regular_f64_0_9: forward::<f64, 0, 9>(2, false, interpn_cubic_regular_f64, __py_interpn_cubic_regular_f64);
        c23_cubic_regular_f32_0_0: forward::<f32, 0, 0>(2, false, interpn_cubic_regular_f32, __py_interpn_cubic_regular_f32);
        c23_cubic_regular_f32_0_1: forward::<f32, 0, 1>(2, false, interpn_cubic_regular_f32, __py_interpn_cubic_regular_f32);
        c23_cubic_regular_f32_0_2: forward::<f32, 0, 2>(2, false, interpn_cubic_regular_f32, __py_interpn_cubic_regular_f32);
        c23_cubic_regular_f32_0_3: forward::<f32, 0, 3>(2, false, interpn_cubic_regular_f32, __py_interpn_cubic_regular_f32);
        c23_cubic_regular_f32_0_4: forward::<f32, 0, 4>(2, false, interpn_cubic_regular_f32, __py_interpn_cubic_regular_f32);
        c23_cubic_regular_f32_0_5: forward::<f32, 0, 5>(2, false, interpn_cubic_regular_f32, __py_interpn_cubic_regular_f32);
        c23_cubic_regular_f32_0_6: forward::<f32, 0, 6>(2, false, interpn_cubic_regular_f32, __py_interpn_cubic_regular_f32);
        c23_cubic_regular_f32_0_7: forward::<f32, 0, 7>(2, false, interpn_cubic_regular_f32, __py_interpn_cubic_regular_f32);
        c23_cubic_regular_f32_0_8: forward::<f32, 0, 8>(2, false, interpn_cubic_regular_f32, __py_interpn_cubic_regular_f32);
        c23_cubic_regular_f32_0_9: forward::<f32, 0, 9>(2, false, interpn_cubic_regular_f32, __py_interpn_cubic_regular_f32);
        c23_cubic_rectilinear_f64_0_0: forward::<f64, 0, 0>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_1_1: forward::<f64, 1, 1>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_2_2: forward::<f64, 2, 2>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_3_3: forward::<f64, 3, 3>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_4_4: forward::<f64, 4, 4>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_5_5: forward::<f64, 5, 5>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_6_6: forward::<f64, 6, 6>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_7_7: forward::<f64, 7, 7>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_8_8: forward::<f64, 8, 8>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_9_9: forward::<f64, 9, 9>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_1_0: forward::<f64, 1, 0>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_0_1: forward::<f64, 0, 1>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_2_1: forward::<f64, 2, 1>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_1_2: forward::<f64, 1, 2>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_3_2: forward::<f64, 3, 2>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_2_3: forward::<f64, 2, 3>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_9_8: forward::<f64, 9, 8>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_8_9: forward::<f64, 8, 9>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_9_1: forward::<f64, 9, 1>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f64_1_9: forward::<f64, 1, 9>(2, true, interpn_cubic_rectilinear_f64, __py_interpn_cubic_rectilinear_f64);
        c23_cubic_rectilinear_f32_0_0: forward::<f32, 0, 0>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_1_1: forward::<f32, 1, 1>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_2_2: forward::<f32, 2, 2>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_3_3: forward::<f32, 3, 3>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_4_4: forward::<f32, 4, 4>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_5_5: forward::<f32, 5, 5>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_6_6: forward::<f32, 6, 6>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_7_7: forward::<f32, 7, 7>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_8_8: forward::<f32, 8, 8>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_9_9: forward::<f32, 9, 9>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_1_0: forward::<f32, 1, 0>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_0_1: forward::<f32, 0, 1>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_2_1: forward::<f32, 2, 1>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_1_2: forward::<f32, 1, 2>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_3_2: forward::<f32, 3, 2>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_2_3: forward::<f32, 2, 3>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_9_8: forward::<f32, 9, 8>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_8_9: forward::<f32, 8, 9>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_9_1: forward::<f32, 9, 1>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
        c23_cubic_rectilinear_f32_1_9: forward::<f32, 1, 9>(2, true, interpn_cubic_rectilinear_f32, __py_interpn_cubic_rectilinear_f32);
    }
    "c23_bounds" {
        c23_bounds_regular_f64_0_0: forward::<f64, 0, 0>(3, false, check_bounds_regular_f64, __py_check_bounds_regular_f64);
        c23_bounds_regular_f64_0_1: forward::<f64, 0, 1>(3, false, check_bounds_regular_f64, __py_check_bounds_regular_f64);
        c23_bounds_regular_f64_0_2: forward::<f64, 0, 2>(3, false, check_bounds_regular_f64, __py_check_bounds_regular_f64);
        c23_bounds_regular_f64_0_3: forward::<f64, 0, 3>(3, false, check_bounds_regular_f64, __py_check_bounds_regular_f64);
        c23_bounds_regular_f64_0_4: forward::<f64, 0, 4>(3, false, check_bounds_regular_f64, __py_check_bounds_regular_f64);
        c23_bounds_regular_f64_0_5: forward::<f64, 0, 5>(3, false, check_bounds_regular_f64, __py_check_bounds_regular_f64);
        c23_bounds_regular_f64_0_6: forward::<f64, 0, 6>(3, false, check_bounds_regular_f64, __py_check_bounds_regular_f64);
        c23_bounds_regular_f64_0_7: forward::<f64, 0, 7>(3, false, check_bounds_regular_f64, __py_check_bounds_regular_f64);
        c23_bounds_regular_f64_0_8: forward::<f64, 0, 8>(3, false, check_bounds_regular_f64, __py_check_bounds_regular_f64);
        c23_bounds_regular_f64_0_9: forward::<f64, 0, 9>(3, false, check_bounds_regular_f64, __py_check_bounds_regular_f64);
        c23_bounds_regular_f32_0_0: forward::<f32, 0, 0>(3, false, check_bounds_regular_f32, __py_check_bounds_regular_f32);
        c23_bounds_regular_f32_0_1: forward::<f32, 0, 1>(3, false, check_bounds_regular_f32, __py_check_bounds_regular_f32);
        c23_bounds_regular_f32_0_2: forward::<f32, 0, 2>(3, false, check_bounds_regular_f32, __py_check_bounds_regular_f32);
        c23_bounds_regular_f32_0_3: forward::<f32, 0, 3>(3, false, check_bounds_regular_f32, __py_check_bounds_regular_f32);
        c23_bounds_regular_f32_0_4: forward::<f32, 0, 4>(3, false, check_bounds_regular_f32, __py_check_bounds_regular_f32);
        c23_bounds_regular_f32_0_5: forward::<f32, 0, 5>(3, false, check_bounds_regular_f32, __py_check_bounds_regular_f32);
        c23_bounds_regular_f32_0_6: forward::<f32, 0, 6>(3, false, check_bounds_regular_f32, __py_check_bounds_regular_f32);
        c23_bounds_regular_f32_0_7: forward::<f32, 0, 7>(3, false, check_bounds_regular_f32, __py_check_bounds_regular_f32);
        c23_bounds_regular_f32_0_8: forward::<f32, 0, 8>(3, false, check_bounds_regular_f32, __py_check_bounds_regular_f32);
        c23_bounds_regular_f32_0_9: forward::<f32, 0, 9>(3, false, check_bounds_regular_f32, __py_check_bounds_regular_f32);
        c23_bounds_rectilinear_f64_0_0: forward::<f64, 0, 0>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_1_1: forward::<f64, 1, 1>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_2_2: forward::<f64, 2, 2>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_3_3: forward::<f64, 3, 3>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_4_4: forward::<f64, 4, 4>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_5_5: forward::<f64, 5, 5>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_6_6: forward::<f64, 6, 6>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_7_7: forward::<f64, 7, 7>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_8_8: forward::<f64, 8, 8>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_9_9: forward::<f64, 9, 9>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_1_0: forward::<f64, 1, 0>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_0_1: forward::<f64, 0, 1>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_2_1: forward::<f64, 2, 1>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_1_2: forward::<f64, 1, 2>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_3_2: forward::<f64, 3, 2>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_2_3: forward::<f64, 2, 3>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_9_8: forward::<f64, 9, 8>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_8_9: forward::<f64, 8, 9>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_9_1: forward::<f64, 9, 1>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f64_1_9: forward::<f64, 1, 9>(3, true, check_bounds_rectilinear_f64, __py_check_bounds_rectilinear_f64);
        c23_bounds_rectilinear_f32_0_0: forward::<f32, 0, 0>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_1_1: forward::<f32, 1, 1>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_2_2: forward::<f32, 2, 2>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_3_3: forward::<f32, 3, 3>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_4_4: forward::<f32, 4, 4>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_5_5: forward::<f32, 5, 5>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_6_6: forward::<f32, 6, 6>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_7_7: forward::<f32, 7, 7>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_8_8: forward::<f32, 8, 8>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_9_9: forward::<f32, 9, 9>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_1_0: forward::<f32, 1, 0>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_0_1: forward::<f32, 0, 1>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_2_1: forward::<f32, 2, 1>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_1_2: forward::<f32, 1, 2>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_3_2: forward::<f32, 3, 2>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_2_3: forward::<f32, 2, 3>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_9_8: forward::<f32, 9, 8>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_8_9: forward::<f32, 8, 9>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_9_1: forward::<f32, 9, 1>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
        c23_bounds_rectilinear_f32_1_9: forward::<f32, 1, 9>(3, true, check_bounds_rectilinear_f32, __py_check_bounds_rectilinear_f32);
    }
    "c23_module" {
        c23_module: module::<f64, 0, 0>(0, false, interpn, __py_module);
    }
}
