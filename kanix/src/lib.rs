//! Model-checking harnesses for interpn (properties C14 and C15).
#![allow(clippy::all, unused)]
pub mod absd;
pub mod absf;
pub mod bodies;
pub mod src;

use bodies::*;

// Every harness is an entry point of the goto program of its group (the group
// function only makes the code generator reach them; it is never solved).
macro_rules! harnesses {
    ($($feat:tt $group:ident { $($name:ident : $t:ty = $f:ident < $($c:literal),* > ( $($a:expr),* );)* })*) => {
        #[cfg(kani)]
        mod proofs {
            use super::bodies::*;
            use super::src::k::K;
            use super::absf::H;
            use super::absd::D;
            $(
                #[cfg(feature = $feat)]
                pub mod $group {
                    use super::*;
                    $(
                        #[unsafe(no_mangle)]
                        pub fn $name() {
                            $f::<$t, K, $($c),*>(&mut K, $($a),*);
                        }
                    )*
                    #[kani::proof]
                    fn group() {
                        let mut which: u16 = kani::any();
                        $(
                            if which == 0 {
                                $name();
                            }
                            which -= 1;
                        )*
                    }
                }
            )*
        }
        /// Run one harness natively on the choices of a replay source.
        pub fn run<T: src::Scal + src::FromF64 + std::fmt::Debug>(name: &str, s: &mut src::Replay) -> bool {
            match name {
                $($(stringify!($name) => { $f::<T, src::Replay, $($c),*>(s, $($a),*); true })*)*
                _ => false,
            }
        }
    };
}
harnesses! {
    "c14_bounds" c14_bounds {
        c14_bounds_reg_1: H = c14_bounds_reg<1>();
        c14_bounds_reg_2: H = c14_bounds_reg<2>();
        c14_bounds_reg_3: H = c14_bounds_reg<3>();
        c14_bounds_regrec_1: H = c14_bounds_regrec<1>();
        c14_bounds_regrec_2: H = c14_bounds_regrec<2>();
        c14_bounds_regrec_3: H = c14_bounds_regrec<3>();
        c14_bounds_rect_1: H = c14_bounds_rect<1>();
        c14_bounds_rect_2: H = c14_bounds_rect<2>();
        c14_bounds_rect_3: H = c14_bounds_rect<3>();
        c14_bounds_rectrec_1: H = c14_bounds_rectrec<1>();
        c14_bounds_rectrec_2: H = c14_bounds_rectrec<2>();
        c14_bounds_rectrec_3: H = c14_bounds_rectrec<3>();
    }
    "c14_alloc_linreg" c14_alloc_linreg {
        c14_alloc_linreg_1: D = c14_alloc_linreg<1, 1, 2>();
        c14_alloc_linreg_2: D = c14_alloc_linreg<2, 3, 4>();
    }
    "c14_alloc_linrect" c14_alloc_linrect {
        c14_alloc_linrect_1: D = c14_alloc_linrect<1, 1, 2>();
        c14_alloc_linrect_2: D = c14_alloc_linrect<2, 3, 4>();
    }
    "c14_alloc_linregrec" c14_alloc_linregrec {
        c14_alloc_linregrec_1: D = c14_alloc_linregrec<1, 1, 2>();
        c14_alloc_linregrec_2: D = c14_alloc_linregrec<2, 3, 4>();
    }
    "c14_alloc_linrectrec" c14_alloc_linrectrec {
        c14_alloc_linrectrec_1: D = c14_alloc_linrectrec<1, 1, 2>();
        c14_alloc_linrectrec_2: D = c14_alloc_linrectrec<2, 3, 4>();
    }
    "c14_alloc_cubreg" c14_alloc_cubreg {
        c14_alloc_cubreg_1: D = c14_alloc_cubreg<1, 1, 4>();
        c14_alloc_cubreg_2: D = c14_alloc_cubreg<2, 3, 16>();
    }
    "c14_alloc_cubrect" c14_alloc_cubrect {
        c14_alloc_cubrect_1: D = c14_alloc_cubrect<1, 1, 4>();
        c14_alloc_cubrect_2: D = c14_alloc_cubrect<2, 3, 16>();
    }
    "c14_alloc_cubregrec" c14_alloc_cubregrec {
        c14_alloc_cubregrec_1: D = c14_alloc_cubregrec<1, 1, 4>();
        c14_alloc_cubregrec_2: D = c14_alloc_cubregrec<2, 3, 16>();
    }
    "c14_alloc_cubrectrec" c14_alloc_cubrectrec {
        c14_alloc_cubrectrec_1: D = c14_alloc_cubrectrec<1, 1, 4>();
        c14_alloc_cubrectrec_2: D = c14_alloc_cubrectrec<2, 3, 16>();
    }
    "c14_alloc_nearreg" c14_alloc_nearreg {
        c14_alloc_nearreg_1: D = c14_alloc_nearreg<1, 1, 2>();
        c14_alloc_nearreg_2: D = c14_alloc_nearreg<2, 3, 4>();
    }
    "c14_alloc_nearrect" c14_alloc_nearrect {
        c14_alloc_nearrect_1: D = c14_alloc_nearrect<1, 1, 2>();
        c14_alloc_nearrect_2: D = c14_alloc_nearrect<2, 3, 4>();
    }
    "c25_canary" c25_canary {
        c25_canary: H = alloc_once<>();
    }
    "c14_conv_cubrect" c14_conv_cubrect {
        c14_conv_cubrect_0: D = c14_conv_cubrect<0, 1, 4>(0);
        c14_conv_cubrect_1: D = c14_conv_cubrect<1, 2, 5>(0);
        c14_conv_cubrect_2: D = c14_conv_cubrect<2, 3, 17>(0);
        c14_conv_cubrect_3: D = c14_conv_cubrect<3, 4, 65>(0);
        c14_conv_cubrect_4: D = c14_conv_cubrect<4, 5, 257>(0);
        c14_conv_cubrect_5: D = c14_conv_cubrect<5, 6, 1025>(0);
        c14_conv_cubrect_6: D = c14_conv_cubrect<6, 7, 4097>(0);
        c14_conv_cubrect_7: D = c14_conv_cubrect<7, 8, 16385>(0);
        c14_conv_cubrect_8: D = c14_conv_cubrect<8, 9, 65537>(0);
        c14_conv_cubrect_9: D = c14_conv_cubrect<9, 10, 262145>(0);
    }
    "c14_conv_cubrect_e" c14_conv_cubrect_e {
        c14_conv_cubrect_1e: D = c14_conv_cubrect<1, 2, 4>(1);
        c14_conv_cubrect_2e: D = c14_conv_cubrect<2, 3, 16>(1);
        c14_conv_cubrect_3e: D = c14_conv_cubrect<3, 4, 64>(1);
        c14_conv_cubrect_4e: D = c14_conv_cubrect<4, 5, 256>(1);
        c14_conv_cubrect_5e: D = c14_conv_cubrect<5, 6, 1024>(1);
        c14_conv_cubrect_6e: D = c14_conv_cubrect<6, 7, 4096>(1);
    }
    "c14_conv_cubrectrec" c14_conv_cubrectrec {
        c14_conv_cubrectrec_0: D = c14_conv_cubrectrec<0, 1, 4>(0);
        c14_conv_cubrectrec_1: D = c14_conv_cubrectrec<1, 2, 5>(0);
        c14_conv_cubrectrec_2: D = c14_conv_cubrectrec<2, 3, 17>(0);
        c14_conv_cubrectrec_3: D = c14_conv_cubrectrec<3, 4, 65>(0);
        c14_conv_cubrectrec_4: D = c14_conv_cubrectrec<4, 5, 257>(0);
        c14_conv_cubrectrec_5: D = c14_conv_cubrectrec<5, 6, 1025>(0);
        c14_conv_cubrectrec_6: D = c14_conv_cubrectrec<6, 7, 4097>(0);
        c14_conv_cubrectrec_7: D = c14_conv_cubrectrec<7, 8, 16385>(0);
        c14_conv_cubrectrec_8: D = c14_conv_cubrectrec<8, 9, 65537>(0);
        c14_conv_cubrectrec_9: D = c14_conv_cubrectrec<9, 10, 262145>(0);
    }
    "c14_conv_cubrectrec_e" c14_conv_cubrectrec_e {
        c14_conv_cubrectrec_1e: D = c14_conv_cubrectrec<1, 2, 4>(1);
        c14_conv_cubrectrec_2e: D = c14_conv_cubrectrec<2, 3, 16>(1);
        c14_conv_cubrectrec_3e: D = c14_conv_cubrectrec<3, 4, 64>(1);
        c14_conv_cubrectrec_4e: D = c14_conv_cubrectrec<4, 5, 256>(1);
        c14_conv_cubrectrec_5e: D = c14_conv_cubrectrec<5, 6, 1024>(1);
        c14_conv_cubrectrec_6e: D = c14_conv_cubrectrec<6, 7, 4096>(1);
    }
    "c14_conv_cubreg" c14_conv_cubreg {
        c14_conv_cubreg_0: D = c14_conv_cubreg<0, 1, 4>(0);
        c14_conv_cubreg_1: D = c14_conv_cubreg<1, 2, 5>(0);
        c14_conv_cubreg_2: D = c14_conv_cubreg<2, 3, 17>(0);
        c14_conv_cubreg_3: D = c14_conv_cubreg<3, 4, 65>(0);
        c14_conv_cubreg_4: D = c14_conv_cubreg<4, 5, 257>(0);
        c14_conv_cubreg_5: D = c14_conv_cubreg<5, 6, 1025>(0);
        c14_conv_cubreg_6: D = c14_conv_cubreg<6, 7, 4097>(0);
        c14_conv_cubreg_7: D = c14_conv_cubreg<7, 8, 16385>(0);
        c14_conv_cubreg_8: D = c14_conv_cubreg<8, 9, 65537>(0);
        c14_conv_cubreg_9: D = c14_conv_cubreg<9, 10, 262145>(0);
    }
    "c14_conv_cubreg_e" c14_conv_cubreg_e {
        c14_conv_cubreg_1e: D = c14_conv_cubreg<1, 2, 4>(1);
        c14_conv_cubreg_2e: D = c14_conv_cubreg<2, 3, 16>(1);
        c14_conv_cubreg_3e: D = c14_conv_cubreg<3, 4, 64>(1);
        c14_conv_cubreg_4e: D = c14_conv_cubreg<4, 5, 256>(1);
        c14_conv_cubreg_5e: D = c14_conv_cubreg<5, 6, 1024>(1);
        c14_conv_cubreg_6e: D = c14_conv_cubreg<6, 7, 4096>(1);
    }
    "c14_conv_cubregrec" c14_conv_cubregrec {
        c14_conv_cubregrec_0: D = c14_conv_cubregrec<0, 1, 4>(0);
        c14_conv_cubregrec_1: D = c14_conv_cubregrec<1, 2, 5>(0);
        c14_conv_cubregrec_2: D = c14_conv_cubregrec<2, 3, 17>(0);
        c14_conv_cubregrec_3: D = c14_conv_cubregrec<3, 4, 65>(0);
        c14_conv_cubregrec_4: D = c14_conv_cubregrec<4, 5, 257>(0);
        c14_conv_cubregrec_5: D = c14_conv_cubregrec<5, 6, 1025>(0);
        c14_conv_cubregrec_6: D = c14_conv_cubregrec<6, 7, 4097>(0);
        c14_conv_cubregrec_7: D = c14_conv_cubregrec<7, 8, 16385>(0);
        c14_conv_cubregrec_8: D = c14_conv_cubregrec<8, 9, 65537>(0);
        c14_conv_cubregrec_9: D = c14_conv_cubregrec<9, 10, 262145>(0);
    }
    "c14_conv_cubregrec_e" c14_conv_cubregrec_e {
        c14_conv_cubregrec_1e: D = c14_conv_cubregrec<1, 2, 4>(1);
        c14_conv_cubregrec_2e: D = c14_conv_cubregrec<2, 3, 16>(1);
        c14_conv_cubregrec_3e: D = c14_conv_cubregrec<3, 4, 64>(1);
        c14_conv_cubregrec_4e: D = c14_conv_cubregrec<4, 5, 256>(1);
        c14_conv_cubregrec_5e: D = c14_conv_cubregrec<5, 6, 1024>(1);
        c14_conv_cubregrec_6e: D = c14_conv_cubregrec<6, 7, 4096>(1);
    }
    "c14_conv_linrect" c14_conv_linrect {
        c14_conv_linrect_0: D = c14_conv_linrect<0, 1, 4>(0);
        c14_conv_linrect_1: D = c14_conv_linrect<1, 2, 4>(0);
        c14_conv_linrect_2: D = c14_conv_linrect<2, 3, 5>(0);
        c14_conv_linrect_3: D = c14_conv_linrect<3, 4, 9>(0);
        c14_conv_linrect_4: D = c14_conv_linrect<4, 5, 17>(0);
        c14_conv_linrect_5: D = c14_conv_linrect<5, 6, 33>(0);
        c14_conv_linrect_6: D = c14_conv_linrect<6, 7, 65>(0);
        c14_conv_linrect_7: D = c14_conv_linrect<7, 8, 129>(0);
        c14_conv_linrect_8: D = c14_conv_linrect<8, 9, 257>(0);
        c14_conv_linrect_9: D = c14_conv_linrect<9, 10, 513>(0);
    }
    "c14_conv_linrect_e" c14_conv_linrect_e {
        c14_conv_linrect_1e: D = c14_conv_linrect<1, 2, 2>(1);
        c14_conv_linrect_2e: D = c14_conv_linrect<2, 3, 4>(1);
        c14_conv_linrect_3e: D = c14_conv_linrect<3, 4, 8>(1);
        c14_conv_linrect_4e: D = c14_conv_linrect<4, 5, 16>(1);
        c14_conv_linrect_5e: D = c14_conv_linrect<5, 6, 32>(1);
        c14_conv_linrect_6e: D = c14_conv_linrect<6, 7, 64>(1);
        c14_conv_linrect_7e: D = c14_conv_linrect<7, 8, 128>(1);
        c14_conv_linrect_8e: D = c14_conv_linrect<8, 9, 256>(1);
    }
    "c14_conv_linrectrec" c14_conv_linrectrec {
        c14_conv_linrectrec_0: D = c14_conv_linrectrec<0, 1, 4>(0);
        c14_conv_linrectrec_1: D = c14_conv_linrectrec<1, 2, 4>(0);
        c14_conv_linrectrec_2: D = c14_conv_linrectrec<2, 3, 5>(0);
        c14_conv_linrectrec_3: D = c14_conv_linrectrec<3, 4, 9>(0);
        c14_conv_linrectrec_4: D = c14_conv_linrectrec<4, 5, 17>(0);
        c14_conv_linrectrec_5: D = c14_conv_linrectrec<5, 6, 33>(0);
        c14_conv_linrectrec_6: D = c14_conv_linrectrec<6, 7, 65>(0);
        c14_conv_linrectrec_7: D = c14_conv_linrectrec<7, 8, 129>(0);
        c14_conv_linrectrec_8: D = c14_conv_linrectrec<8, 9, 257>(0);
        c14_conv_linrectrec_9: D = c14_conv_linrectrec<9, 10, 513>(0);
    }
    "c14_conv_linrectrec_e" c14_conv_linrectrec_e {
        c14_conv_linrectrec_1e: D = c14_conv_linrectrec<1, 2, 2>(1);
        c14_conv_linrectrec_2e: D = c14_conv_linrectrec<2, 3, 4>(1);
        c14_conv_linrectrec_3e: D = c14_conv_linrectrec<3, 4, 8>(1);
        c14_conv_linrectrec_4e: D = c14_conv_linrectrec<4, 5, 16>(1);
        c14_conv_linrectrec_5e: D = c14_conv_linrectrec<5, 6, 32>(1);
        c14_conv_linrectrec_6e: D = c14_conv_linrectrec<6, 7, 64>(1);
        c14_conv_linrectrec_7e: D = c14_conv_linrectrec<7, 8, 128>(1);
        c14_conv_linrectrec_8e: D = c14_conv_linrectrec<8, 9, 256>(1);
    }
    "c14_conv_linreg" c14_conv_linreg {
        c14_conv_linreg_0: D = c14_conv_linreg<0, 1, 4>(0);
        c14_conv_linreg_1: D = c14_conv_linreg<1, 2, 4>(0);
        c14_conv_linreg_2: D = c14_conv_linreg<2, 3, 5>(0);
        c14_conv_linreg_3: D = c14_conv_linreg<3, 4, 9>(0);
        c14_conv_linreg_4: D = c14_conv_linreg<4, 5, 17>(0);
        c14_conv_linreg_5: D = c14_conv_linreg<5, 6, 33>(0);
        c14_conv_linreg_6: D = c14_conv_linreg<6, 7, 65>(0);
        c14_conv_linreg_7: D = c14_conv_linreg<7, 8, 129>(0);
        c14_conv_linreg_8: D = c14_conv_linreg<8, 9, 257>(0);
        c14_conv_linreg_9: D = c14_conv_linreg<9, 10, 513>(0);
    }
    "c14_conv_linreg_e" c14_conv_linreg_e {
        c14_conv_linreg_1e: D = c14_conv_linreg<1, 2, 2>(1);
        c14_conv_linreg_2e: D = c14_conv_linreg<2, 3, 4>(1);
        c14_conv_linreg_3e: D = c14_conv_linreg<3, 4, 8>(1);
        c14_conv_linreg_4e: D = c14_conv_linreg<4, 5, 16>(1);
        c14_conv_linreg_5e: D = c14_conv_linreg<5, 6, 32>(1);
        c14_conv_linreg_6e: D = c14_conv_linreg<6, 7, 64>(1);
        c14_conv_linreg_7e: D = c14_conv_linreg<7, 8, 128>(1);
        c14_conv_linreg_8e: D = c14_conv_linreg<8, 9, 256>(1);
    }
    "c14_conv_linregrec" c14_conv_linregrec {
        c14_conv_linregrec_0: D = c14_conv_linregrec<0, 1, 4>(0);
        c14_conv_linregrec_1: D = c14_conv_linregrec<1, 2, 4>(0);
        c14_conv_linregrec_2: D = c14_conv_linregrec<2, 3, 5>(0);
        c14_conv_linregrec_3: D = c14_conv_linregrec<3, 4, 9>(0);
        c14_conv_linregrec_4: D = c14_conv_linregrec<4, 5, 17>(0);
        c14_conv_linregrec_5: D = c14_conv_linregrec<5, 6, 33>(0);
        c14_conv_linregrec_6: D = c14_conv_linregrec<6, 7, 65>(0);
        c14_conv_linregrec_7: D = c14_conv_linregrec<7, 8, 129>(0);
        c14_conv_linregrec_8: D = c14_conv_linregrec<8, 9, 257>(0);
        c14_conv_linregrec_9: D = c14_conv_linregrec<9, 10, 513>(0);
    }
    "c14_conv_linregrec_e" c14_conv_linregrec_e {
        c14_conv_linregrec_1e: D = c14_conv_linregrec<1, 2, 2>(1);
        c14_conv_linregrec_2e: D = c14_conv_linregrec<2, 3, 4>(1);
        c14_conv_linregrec_3e: D = c14_conv_linregrec<3, 4, 8>(1);
        c14_conv_linregrec_4e: D = c14_conv_linregrec<4, 5, 16>(1);
        c14_conv_linregrec_5e: D = c14_conv_linregrec<5, 6, 32>(1);
        c14_conv_linregrec_6e: D = c14_conv_linregrec<6, 7, 64>(1);
        c14_conv_linregrec_7e: D = c14_conv_linregrec<7, 8, 128>(1);
        c14_conv_linregrec_8e: D = c14_conv_linregrec<8, 9, 256>(1);
    }
    "c14_conv_nearrect" c14_conv_nearrect {
        c14_conv_nearrect_0: D = c14_conv_nearrect<0, 1, 4>(0);
        c14_conv_nearrect_1: D = c14_conv_nearrect<1, 2, 4>(0);
        c14_conv_nearrect_2: D = c14_conv_nearrect<2, 3, 5>(0);
        c14_conv_nearrect_3: D = c14_conv_nearrect<3, 4, 9>(0);
        c14_conv_nearrect_4: D = c14_conv_nearrect<4, 5, 17>(0);
        c14_conv_nearrect_5: D = c14_conv_nearrect<5, 6, 33>(0);
        c14_conv_nearrect_6: D = c14_conv_nearrect<6, 7, 65>(0);
        c14_conv_nearrect_7: D = c14_conv_nearrect<7, 8, 129>(0);
    }
    "c14_conv_nearrect_e" c14_conv_nearrect_e {
        c14_conv_nearrect_1e: D = c14_conv_nearrect<1, 2, 2>(1);
        c14_conv_nearrect_2e: D = c14_conv_nearrect<2, 3, 4>(1);
        c14_conv_nearrect_3e: D = c14_conv_nearrect<3, 4, 8>(1);
        c14_conv_nearrect_4e: D = c14_conv_nearrect<4, 5, 16>(1);
        c14_conv_nearrect_5e: D = c14_conv_nearrect<5, 6, 32>(1);
        c14_conv_nearrect_6e: D = c14_conv_nearrect<6, 7, 64>(1);
    }
    "c14_conv_nearreg" c14_conv_nearreg {
        c14_conv_nearreg_0: D = c14_conv_nearreg<0, 1, 4>(0);
        c14_conv_nearreg_1: D = c14_conv_nearreg<1, 2, 4>(0);
        c14_conv_nearreg_2: D = c14_conv_nearreg<2, 3, 5>(0);
        c14_conv_nearreg_3: D = c14_conv_nearreg<3, 4, 9>(0);
        c14_conv_nearreg_4: D = c14_conv_nearreg<4, 5, 17>(0);
        c14_conv_nearreg_5: D = c14_conv_nearreg<5, 6, 33>(0);
        c14_conv_nearreg_6: D = c14_conv_nearreg<6, 7, 65>(0);
        c14_conv_nearreg_7: D = c14_conv_nearreg<7, 8, 129>(0);
    }
    "c14_conv_nearreg_e" c14_conv_nearreg_e {
        c14_conv_nearreg_1e: D = c14_conv_nearreg<1, 2, 2>(1);
        c14_conv_nearreg_2e: D = c14_conv_nearreg<2, 3, 4>(1);
        c14_conv_nearreg_3e: D = c14_conv_nearreg<3, 4, 8>(1);
        c14_conv_nearreg_4e: D = c14_conv_nearreg<4, 5, 16>(1);
        c14_conv_nearreg_5e: D = c14_conv_nearreg<5, 6, 32>(1);
        c14_conv_nearreg_6e: D = c14_conv_nearreg<6, 7, 64>(1);
    }
    "c14_interp_cubrect" c14_interp_cubrect {
        c14_interp_cubrect_1_1_0: D = c14_interp_cubrect<1, 1, 4>(0, 1);
        c14_interp_cubrect_1_1_1: D = c14_interp_cubrect<1, 1, 4>(1, 1);
        c14_interp_cubrect_1_1_2: D = c14_interp_cubrect<1, 1, 4>(2, 1);
        c14_interp_cubrect_2_2_0: D = c14_interp_cubrect<2, 2, 16>(0, 2);
        c14_interp_cubrect_2_2_1: D = c14_interp_cubrect<2, 2, 16>(1, 2);
        c14_interp_cubrect_2_2_2: D = c14_interp_cubrect<2, 2, 16>(2, 2);
    }
    "c14_interp_cubrectrec" c14_interp_cubrectrec {
        c14_interp_cubrectrec_2_0_0: D = c14_interp_cubrectrec<2, 4, 16>(0, 0);
        c14_interp_cubrectrec_2_0_1: D = c14_interp_cubrectrec<2, 4, 16>(1, 0);
        c14_interp_cubrectrec_2_1_0: D = c14_interp_cubrectrec<2, 4, 16>(0, 1);
        c14_interp_cubrectrec_2_1_1: D = c14_interp_cubrectrec<2, 4, 16>(1, 1);
        c14_interp_cubrectrec_2_2_0: D = c14_interp_cubrectrec<2, 4, 16>(0, 2);
        c14_interp_cubrectrec_2_2_1: D = c14_interp_cubrectrec<2, 4, 16>(1, 2);
        c14_interp_cubrectrec_2_2_2: D = c14_interp_cubrectrec<2, 4, 16>(2, 2);
        c14_interp_cubrectrec_2_3_0: D = c14_interp_cubrectrec<2, 4, 16>(0, 3);
        c14_interp_cubrectrec_2_3_1: D = c14_interp_cubrectrec<2, 4, 16>(1, 3);
        c14_interp_cubrectrec_2_4_0: D = c14_interp_cubrectrec<2, 4, 16>(0, 4);
        c14_interp_cubrectrec_2_4_1: D = c14_interp_cubrectrec<2, 4, 16>(1, 4);
    }
    "c14_interp_cubreg" c14_interp_cubreg {
        c14_interp_cubreg_1_1_0: D = c14_interp_cubreg<1, 1, 4>(0, 1);
        c14_interp_cubreg_1_1_1: D = c14_interp_cubreg<1, 1, 4>(1, 1);
        c14_interp_cubreg_1_1_2: D = c14_interp_cubreg<1, 1, 4>(2, 1);
        c14_interp_cubreg_2_2_0: D = c14_interp_cubreg<2, 2, 16>(0, 2);
        c14_interp_cubreg_2_2_1: D = c14_interp_cubreg<2, 2, 16>(1, 2);
        c14_interp_cubreg_2_2_2: D = c14_interp_cubreg<2, 2, 16>(2, 2);
    }
    "c14_interp_cubregrec" c14_interp_cubregrec {
        c14_interp_cubregrec_2_0_0: D = c14_interp_cubregrec<2, 4, 16>(0, 0);
        c14_interp_cubregrec_2_0_1: D = c14_interp_cubregrec<2, 4, 16>(1, 0);
        c14_interp_cubregrec_2_1_0: D = c14_interp_cubregrec<2, 4, 16>(0, 1);
        c14_interp_cubregrec_2_1_1: D = c14_interp_cubregrec<2, 4, 16>(1, 1);
        c14_interp_cubregrec_2_2_0: D = c14_interp_cubregrec<2, 4, 16>(0, 2);
        c14_interp_cubregrec_2_2_1: D = c14_interp_cubregrec<2, 4, 16>(1, 2);
        c14_interp_cubregrec_2_2_2: D = c14_interp_cubregrec<2, 4, 16>(2, 2);
        c14_interp_cubregrec_2_3_0: D = c14_interp_cubregrec<2, 4, 16>(0, 3);
        c14_interp_cubregrec_2_3_1: D = c14_interp_cubregrec<2, 4, 16>(1, 3);
        c14_interp_cubregrec_2_4_0: D = c14_interp_cubregrec<2, 4, 16>(0, 4);
        c14_interp_cubregrec_2_4_1: D = c14_interp_cubregrec<2, 4, 16>(1, 4);
    }
    "c14_interp_linrect" c14_interp_linrect {
        c14_interp_linrect_1_1_0: D = c14_interp_linrect<1, 1, 2>(0, 1);
        c14_interp_linrect_1_1_1: D = c14_interp_linrect<1, 1, 2>(1, 1);
        c14_interp_linrect_1_1_2: D = c14_interp_linrect<1, 1, 2>(2, 1);
        c14_interp_linrect_3_3_0: D = c14_interp_linrect<3, 3, 8>(0, 3);
        c14_interp_linrect_3_3_1: D = c14_interp_linrect<3, 3, 8>(1, 3);
        c14_interp_linrect_3_3_2: D = c14_interp_linrect<3, 3, 8>(2, 3);
    }
    "c14_interp_linrectrec" c14_interp_linrectrec {
        c14_interp_linrectrec_2_0_0: D = c14_interp_linrectrec<2, 4, 4>(0, 0);
        c14_interp_linrectrec_2_0_1: D = c14_interp_linrectrec<2, 4, 4>(1, 0);
        c14_interp_linrectrec_2_1_0: D = c14_interp_linrectrec<2, 4, 4>(0, 1);
        c14_interp_linrectrec_2_1_1: D = c14_interp_linrectrec<2, 4, 4>(1, 1);
        c14_interp_linrectrec_2_2_0: D = c14_interp_linrectrec<2, 4, 4>(0, 2);
        c14_interp_linrectrec_2_2_1: D = c14_interp_linrectrec<2, 4, 4>(1, 2);
        c14_interp_linrectrec_2_2_2: D = c14_interp_linrectrec<2, 4, 4>(2, 2);
        c14_interp_linrectrec_2_3_0: D = c14_interp_linrectrec<2, 4, 4>(0, 3);
        c14_interp_linrectrec_2_3_1: D = c14_interp_linrectrec<2, 4, 4>(1, 3);
        c14_interp_linrectrec_2_4_0: D = c14_interp_linrectrec<2, 4, 4>(0, 4);
        c14_interp_linrectrec_2_4_1: D = c14_interp_linrectrec<2, 4, 4>(1, 4);
    }
    "c14_interp_linreg" c14_interp_linreg {
        c14_interp_linreg_1_1_0: D = c14_interp_linreg<1, 1, 2>(0, 1);
        c14_interp_linreg_1_1_1: D = c14_interp_linreg<1, 1, 2>(1, 1);
        c14_interp_linreg_1_1_2: D = c14_interp_linreg<1, 1, 2>(2, 1);
        c14_interp_linreg_3_3_0: D = c14_interp_linreg<3, 3, 8>(0, 3);
        c14_interp_linreg_3_3_1: D = c14_interp_linreg<3, 3, 8>(1, 3);
        c14_interp_linreg_3_3_2: D = c14_interp_linreg<3, 3, 8>(2, 3);
    }
    "c14_interp_linregrec" c14_interp_linregrec {
        c14_interp_linregrec_2_0_0: D = c14_interp_linregrec<2, 4, 4>(0, 0);
        c14_interp_linregrec_2_0_1: D = c14_interp_linregrec<2, 4, 4>(1, 0);
        c14_interp_linregrec_2_1_0: D = c14_interp_linregrec<2, 4, 4>(0, 1);
        c14_interp_linregrec_2_1_1: D = c14_interp_linregrec<2, 4, 4>(1, 1);
        c14_interp_linregrec_2_2_0: D = c14_interp_linregrec<2, 4, 4>(0, 2);
        c14_interp_linregrec_2_2_1: D = c14_interp_linregrec<2, 4, 4>(1, 2);
        c14_interp_linregrec_2_2_2: D = c14_interp_linregrec<2, 4, 4>(2, 2);
        c14_interp_linregrec_2_3_0: D = c14_interp_linregrec<2, 4, 4>(0, 3);
        c14_interp_linregrec_2_3_1: D = c14_interp_linregrec<2, 4, 4>(1, 3);
        c14_interp_linregrec_2_4_0: D = c14_interp_linregrec<2, 4, 4>(0, 4);
        c14_interp_linregrec_2_4_1: D = c14_interp_linregrec<2, 4, 4>(1, 4);
    }
    "c14_interp_nearrect" c14_interp_nearrect {
        c14_interp_nearrect_1_1_0: D = c14_interp_nearrect<1, 1, 2>(0, 1);
        c14_interp_nearrect_1_1_1: D = c14_interp_nearrect<1, 1, 2>(1, 1);
        c14_interp_nearrect_1_1_2: D = c14_interp_nearrect<1, 1, 2>(2, 1);
        c14_interp_nearrect_4_4_0: D = c14_interp_nearrect<4, 4, 16>(0, 4);
        c14_interp_nearrect_4_4_1: D = c14_interp_nearrect<4, 4, 16>(1, 4);
        c14_interp_nearrect_4_4_2: D = c14_interp_nearrect<4, 4, 16>(2, 4);
    }
    "c14_interp_nearreg" c14_interp_nearreg {
        c14_interp_nearreg_1_1_0: D = c14_interp_nearreg<1, 1, 2>(0, 1);
        c14_interp_nearreg_1_1_1: D = c14_interp_nearreg<1, 1, 2>(1, 1);
        c14_interp_nearreg_1_1_2: D = c14_interp_nearreg<1, 1, 2>(2, 1);
        c14_interp_nearreg_4_4_0: D = c14_interp_nearreg<4, 4, 16>(0, 4);
        c14_interp_nearreg_4_4_1: D = c14_interp_nearreg<4, 4, 16>(1, 4);
        c14_interp_nearreg_4_4_2: D = c14_interp_nearreg<4, 4, 16>(2, 4);
    }
    "c14_new" c14_new {
        c14_new_linreg_1: f64 = c14_new_linreg<1, 4>(2);
        c14_new_linreg_2: f64 = c14_new_linreg<2, 9>(2);
        c14_new_linreg_3: f64 = c14_new_linreg<3, 12>(2);
        c14_new_linreg_6: f64 = c14_new_linreg<6, 96>(2);
        c14_new_cubreg_1: f64 = c14_new_cubreg<1, 6>(4);
        c14_new_cubreg_2: f64 = c14_new_cubreg<2, 20>(4);
        c14_new_cubreg_4: f64 = c14_new_cubreg<4, 260>(4);
        c14_new_nearreg_1: f64 = c14_new_nearreg<1, 4>(2);
        c14_new_nearreg_2: f64 = c14_new_nearreg<2, 9>(2);
        c14_new_nearreg_3: f64 = c14_new_nearreg<3, 12>(2);
        c14_new_nearreg_6: f64 = c14_new_nearreg<6, 96>(2);
        c14_new_linregrec_2: f64 = c14_new_linregrec<2, 3, 9>(2);
        c14_new_linregrec_4: f64 = c14_new_linregrec<4, 5, 16>(2);
        c14_new_cubregrec_2: f64 = c14_new_cubregrec<2, 3, 20>(4);
        c14_new_cubregrec_3: f64 = c14_new_cubregrec<3, 4, 64>(4);
        c14_new_linrect_1: f64 = c14_new_linrect<1, 1, 4, 4>(2, 1);
        c14_new_linrect_2: f64 = c14_new_linrect<2, 2, 3, 9>(2, 2);
        c14_new_linrect_3: f64 = c14_new_linrect<3, 3, 3, 12>(2, 3);
        c14_new_linrect_6: f64 = c14_new_linrect<6, 6, 3, 96>(2, 6);
        c14_new_cubrect_1: f64 = c14_new_cubrect<1, 1, 5, 5>(4, 1);
        c14_new_cubrect_2: f64 = c14_new_cubrect<2, 2, 5, 25>(4, 2);
        c14_new_cubrect_4: f64 = c14_new_cubrect<4, 4, 5, 320>(4, 4);
        c14_new_nearrect_1: f64 = c14_new_nearrect<1, 1, 4, 4>(2, 1);
        c14_new_nearrect_2: f64 = c14_new_nearrect<2, 2, 3, 9>(2, 2);
        c14_new_nearrect_6: f64 = c14_new_nearrect<6, 6, 3, 96>(2, 6);
        c14_new_linrectrec_2_0: f64 = c14_new_linrectrec<2, 3, 3, 9>(2, 0);
        c14_new_linrectrec_2_1: f64 = c14_new_linrectrec<2, 3, 3, 9>(2, 1);
        c14_new_linrectrec_2_2: f64 = c14_new_linrectrec<2, 3, 3, 9>(2, 2);
        c14_new_linrectrec_2_3: f64 = c14_new_linrectrec<2, 3, 3, 9>(2, 3);
        c14_new_linrectrec_4_0: f64 = c14_new_linrectrec<4, 6, 3, 24>(2, 0);
        c14_new_linrectrec_4_1: f64 = c14_new_linrectrec<4, 6, 3, 24>(2, 1);
        c14_new_linrectrec_4_2: f64 = c14_new_linrectrec<4, 6, 3, 24>(2, 2);
        c14_new_linrectrec_4_3: f64 = c14_new_linrectrec<4, 6, 3, 24>(2, 3);
        c14_new_linrectrec_4_4: f64 = c14_new_linrectrec<4, 6, 3, 24>(2, 4);
        c14_new_linrectrec_4_5: f64 = c14_new_linrectrec<4, 6, 3, 24>(2, 5);
        c14_new_linrectrec_4_6: f64 = c14_new_linrectrec<4, 6, 3, 24>(2, 6);
        c14_new_cubrectrec_2_0: f64 = c14_new_cubrectrec<2, 3, 5, 25>(4, 0);
        c14_new_cubrectrec_2_1: f64 = c14_new_cubrectrec<2, 3, 5, 25>(4, 1);
        c14_new_cubrectrec_2_2: f64 = c14_new_cubrectrec<2, 3, 5, 25>(4, 2);
        c14_new_cubrectrec_2_3: f64 = c14_new_cubrectrec<2, 3, 5, 25>(4, 3);
        c14_new_cubrectrec_3_0: f64 = c14_new_cubrectrec<3, 5, 4, 64>(4, 0);
        c14_new_cubrectrec_3_1: f64 = c14_new_cubrectrec<3, 5, 4, 64>(4, 1);
        c14_new_cubrectrec_3_2: f64 = c14_new_cubrectrec<3, 5, 4, 64>(4, 2);
        c14_new_cubrectrec_3_3: f64 = c14_new_cubrectrec<3, 5, 4, 64>(4, 3);
        c14_new_cubrectrec_3_4: f64 = c14_new_cubrectrec<3, 5, 4, 64>(4, 4);
        c14_new_cubrectrec_3_5: f64 = c14_new_cubrectrec<3, 5, 4, 64>(4, 5);
    }
    "c14_one" c14_one {
        c14_1d_reg: f64 = c14_one_reg<>();
        c14_1d_rect: f64 = c14_one_rect<>();
        c14_1d_eval_linear_reg: D = c14_one_eval<0>(true);
        c14_1d_eval_linear_rect: D = c14_one_eval<0>(false);
        c14_1d_eval_hold_reg: D = c14_one_eval<1>(true);
        c14_1d_eval_hold_rect: D = c14_one_eval<1>(false);
        c14_1d_eval_left_reg: D = c14_one_eval<2>(true);
        c14_1d_eval_left_rect: D = c14_one_eval<2>(false);
        c14_1d_eval_right_reg: D = c14_one_eval<3>(true);
        c14_1d_eval_right_rect: D = c14_one_eval<3>(false);
        c14_1d_eval_near_reg: D = c14_one_eval<4>(true);
        c14_1d_eval_near_rect: D = c14_one_eval<4>(false);
    }
    "c15_cubrect" c15_cubrect {
        c15_cubrect_1: H = c15_cubrect<1, 6>(4, 6, false);
        c15_cubrect_2: H = c15_cubrect<2, 25>(4, 5, false);
        c15_cubrect_3: H = c15_cubrect<3, 80>(4, 5, true);
    }
    "c15_cubrect_big" c15_cubrect_big {
        c15_cubrect_4: H = c15_cubrect<4, 400>(4, 5, true);
    }
    "c15_cubrectrec" c15_cubrectrec {
        c15_cubrectrec_1: H = c15_cubrectrec<1, 6>(4, 6, true);
        c15_cubrectrec_1s: H = c15_cubrectrec<1, 6>(4, 6, false);
        c15_cubrectrec_2: H = c15_cubrectrec<2, 25>(4, 5, true);
        c15_cubrectrec_3: H = c15_cubrectrec<3, 80>(4, 5, true);
    }
    "c15_cubrectrec_big" c15_cubrectrec_big {
        c15_cubrectrec_4: H = c15_cubrectrec<4, 400>(4, 5, true);
    }
    "c15_cubreg" c15_cubreg {
        c15_cubreg_1: H = c15_cubreg<1, 6>(4, 6, false);
        c15_cubreg_2: H = c15_cubreg<2, 25>(4, 5, false);
        c15_cubreg_3: H = c15_cubreg<3, 80>(4, 5, true);
    }
    "c15_cubreg_big" c15_cubreg_big {
        c15_cubreg_4: H = c15_cubreg<4, 400>(4, 5, true);
    }
    "c15_cubregrec" c15_cubregrec {
        c15_cubregrec_1: H = c15_cubregrec<1, 6>(4, 6, true);
        c15_cubregrec_1s: H = c15_cubregrec<1, 6>(4, 6, false);
        c15_cubregrec_2: H = c15_cubregrec<2, 25>(4, 5, true);
        c15_cubregrec_2s: H = c15_cubregrec<2, 25>(4, 5, false);
        c15_cubregrec_3: H = c15_cubregrec<3, 80>(4, 5, true);
    }
    "c15_cubregrec_big" c15_cubregrec_big {
        c15_cubregrec_4: H = c15_cubregrec<4, 400>(4, 5, true);
    }
    "c15_linrect" c15_linrect {
        c15_linrect_1: H = c15_linrect<1, 4>(2, 4, false);
        c15_linrect_2: H = c15_linrect<2, 9>(2, 3, false);
        c15_linrect_3: H = c15_linrect<3, 27>(2, 3, false);
        c15_linrect_4: H = c15_linrect<4, 81>(2, 3, false);
    }
    "c15_linrect_big" c15_linrect_big {
        c15_linrect_5: H = c15_linrect<5, 243>(2, 3, true);
        c15_linrect_6: H = c15_linrect<6, 729>(2, 3, true);
    }
    "c15_linrectrec" c15_linrectrec {
        c15_linrectrec_1: H = c15_linrectrec<1, 4>(2, 4, true);
        c15_linrectrec_1s: H = c15_linrectrec<1, 4>(2, 4, false);
        c15_linrectrec_2: H = c15_linrectrec<2, 9>(2, 3, true);
        c15_linrectrec_2s: H = c15_linrectrec<2, 9>(2, 3, false);
        c15_linrectrec_3: H = c15_linrectrec<3, 27>(2, 3, true);
        c15_linrectrec_3s: H = c15_linrectrec<3, 27>(2, 3, false);
        c15_linrectrec_4: H = c15_linrectrec<4, 81>(2, 3, true);
    }
    "c15_linrectrec_big" c15_linrectrec_big {
        c15_linrectrec_6: H = c15_linrectrec<6, 216>(2, 3, true);
        c15_linrectrec_8: H = c15_linrectrec<8, 1296>(2, 3, true);
    }
    "c15_linreg" c15_linreg {
        c15_linreg_1: H = c15_linreg<1, 4>(2, 4, false);
        c15_linreg_2: H = c15_linreg<2, 9>(2, 3, false);
        c15_linreg_3: H = c15_linreg<3, 27>(2, 3, false);
        c15_linreg_4: H = c15_linreg<4, 81>(2, 3, false);
    }
    "c15_linreg_big" c15_linreg_big {
        c15_linreg_5: H = c15_linreg<5, 243>(2, 3, true);
        c15_linreg_6: H = c15_linreg<6, 729>(2, 3, true);
    }
    "c15_linregrec" c15_linregrec {
        c15_linregrec_1: H = c15_linregrec<1, 4>(2, 4, true);
        c15_linregrec_1s: H = c15_linregrec<1, 4>(2, 4, false);
        c15_linregrec_2: H = c15_linregrec<2, 9>(2, 3, true);
        c15_linregrec_2s: H = c15_linregrec<2, 9>(2, 3, false);
        c15_linregrec_3: H = c15_linregrec<3, 27>(2, 3, true);
        c15_linregrec_3s: H = c15_linregrec<3, 27>(2, 3, false);
        c15_linregrec_4: H = c15_linregrec<4, 81>(2, 3, true);
    }
    "c15_linregrec_big" c15_linregrec_big {
        c15_linregrec_6: H = c15_linregrec<6, 216>(2, 3, true);
        c15_linregrec_8: H = c15_linregrec<8, 1296>(2, 3, true);
    }
    "c15_near" c15_near {
        c15_nearreg_1: H = c15_nearreg<1, 4>(2, 4, false);
        c15_nearreg_2: H = c15_nearreg<2, 9>(2, 3, false);
        c15_nearreg_3: H = c15_nearreg<3, 27>(2, 3, false);
        c15_nearreg_4: H = c15_nearreg<4, 81>(2, 3, false);
        c15_nearreg_5: H = c15_nearreg<5, 243>(2, 3, false);
        c15_nearreg_6: H = c15_nearreg<6, 729>(2, 3, false);
        c15_nearrect_1: H = c15_nearrect<1, 4>(2, 4, false);
        c15_nearrect_2: H = c15_nearrect<2, 9>(2, 3, false);
        c15_nearrect_3: H = c15_nearrect<3, 27>(2, 3, false);
        c15_nearrect_4: H = c15_nearrect<4, 81>(2, 3, false);
        c15_nearrect_5: H = c15_nearrect<5, 243>(2, 3, false);
        c15_nearrect_6: H = c15_nearrect<6, 729>(2, 3, false);
    }
    "c15_one" c15_one {
        c15_1d_linear_reg: H = c15_one_linear_reg<>();
        c15_1d_linear_rect: H = c15_one_linear_rect<>();
        c15_1d_hold_reg: H = c15_one_hold_reg<>();
        c15_1d_hold_rect: H = c15_one_hold_rect<>();
        c15_1d_left_reg: H = c15_one_left_reg<>();
        c15_1d_left_rect: H = c15_one_left_rect<>();
        c15_1d_right_reg: H = c15_one_right_reg<>();
        c15_1d_right_rect: H = c15_one_right_rect<>();
        c15_1d_near_reg: H = c15_one_near_reg<>();
        c15_1d_near_rect: H = c15_one_near_rect<>();
    }
}
