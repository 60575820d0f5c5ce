//! Verification harnesses. The same source is executed symbolically (as LLVM IR,
//! by /verif/engine) and natively (by /verif/replay), against the real crate.
#![allow(clippy::all, improper_ctypes)]

pub mod sym;
pub mod fam;
pub mod world;
pub mod hist;
pub mod parts;
pub mod iter;
pub mod cmp;
pub mod conv;
pub mod panic;
pub mod conc;

/// Declares the entry points of the harnesses.
#[macro_export]
macro_rules! entries {
    ($($name:ident => $e:expr;)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name() { $e }
        )*
        pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}

entries! {
    h_rc_hist => hist::hist::<sym::Item, fam::RcF>();
    h_arc_hist => hist::hist::<sym::Item, fam::ArcF>();
    h_rc_hist_zst => hist::hist::<sym::Zst, fam::RcF>();
    h_arc_hist_zst => hist::hist::<sym::Zst, fam::ArcF>();
    h_rc_parts => parts::shared::<sym::Item, fam::RcF>();
    h_arc_parts => parts::shared::<sym::Item, fam::ArcF>();
    h_rc_parts_zst => parts::shared::<sym::Zst, fam::RcF>();
    h_arc_parts_zst => parts::shared::<sym::Zst, fam::ArcF>();
    h_rc_mparts => parts::unique::<sym::Item, fam::RcF>();
    h_arc_mparts => parts::unique::<sym::Item, fam::ArcF>();
    h_rc_mparts_zst => parts::unique::<sym::Zst, fam::RcF>();
    h_arc_mparts_zst => parts::unique::<sym::Zst, fam::ArcF>();
    h_rc_number => parts::number::<sym::Item, fam::RcF>();
    h_arc_number => parts::number::<sym::Item, fam::ArcF>();
    h_rc_iter => iter::iter::<sym::Item, fam::RcF>();
    h_arc_iter => iter::iter::<sym::Item, fam::ArcF>();
    h_rc_iter_zst => iter::iter::<sym::Zst, fam::RcF>();
    h_arc_iter_zst => iter::iter::<sym::Zst, fam::ArcF>();
    h_rc_hist_val => hist::hist::<sym::Pair, fam::RcF>();
    h_arc_hist_val => hist::hist::<sym::Pair, fam::ArcF>();
    h_rc_cfg => hist::cfg::<sym::Item, fam::RcF>();
    h_arc_cfg => hist::cfg::<sym::Item, fam::ArcF>();
    h_rc_mparts_val => parts::unique::<sym::Pair, fam::RcF>();
    h_arc_mparts_val => parts::unique::<sym::Pair, fam::ArcF>();
    h_rc_iter_val => iter::iter::<sym::Pair, fam::RcF>();
    h_arc_iter_val => iter::iter::<sym::Pair, fam::ArcF>();
    h_rc_hist_byte => hist::hist::<sym::Byte, fam::RcF>();
    h_rc_parts_byte => parts::shared::<sym::Byte, fam::RcF>();
    h_rc_mparts_byte => parts::unique::<sym::Byte, fam::RcF>();
    h_rc_iter_byte => iter::iter::<sym::Byte, fam::RcF>();
    h_rc_hist_odd => hist::hist::<sym::Odd, fam::RcF>();
    h_rc_parts_odd => parts::shared::<sym::Odd, fam::RcF>();
    h_rc_mparts_odd => parts::unique::<sym::Odd, fam::RcF>();
    h_rc_iter_odd => iter::iter::<sym::Odd, fam::RcF>();
    h_rc_hist_wide => hist::hist::<sym::Wide, fam::RcF>();
    h_rc_parts_wide => parts::shared::<sym::Wide, fam::RcF>();
    h_rc_mparts_wide => parts::unique::<sym::Wide, fam::RcF>();
    h_rc_iter_wide => iter::iter::<sym::Wide, fam::RcF>();
    h_rc_hist_zwide => hist::hist::<sym::ZWide, fam::RcF>();
    h_rc_parts_zwide => parts::shared::<sym::ZWide, fam::RcF>();
    h_rc_mparts_zwide => parts::unique::<sym::ZWide, fam::RcF>();
    h_rc_iter_zwide => iter::iter::<sym::ZWide, fam::RcF>();
    h_rc_deepnode => hist::deepnode::<sym::Item, fam::RcF>();
    h_arc_hist_byte => hist::hist::<sym::Byte, fam::ArcF>();
    h_arc_parts_byte => parts::shared::<sym::Byte, fam::ArcF>();
    h_arc_mparts_byte => parts::unique::<sym::Byte, fam::ArcF>();
    h_arc_iter_byte => iter::iter::<sym::Byte, fam::ArcF>();
    h_arc_hist_odd => hist::hist::<sym::Odd, fam::ArcF>();
    h_arc_parts_odd => parts::shared::<sym::Odd, fam::ArcF>();
    h_arc_mparts_odd => parts::unique::<sym::Odd, fam::ArcF>();
    h_arc_iter_odd => iter::iter::<sym::Odd, fam::ArcF>();
    h_arc_hist_wide => hist::hist::<sym::Wide, fam::ArcF>();
    h_arc_parts_wide => parts::shared::<sym::Wide, fam::ArcF>();
    h_arc_mparts_wide => parts::unique::<sym::Wide, fam::ArcF>();
    h_arc_iter_wide => iter::iter::<sym::Wide, fam::ArcF>();
    h_arc_hist_zwide => hist::hist::<sym::ZWide, fam::ArcF>();
    h_arc_parts_zwide => parts::shared::<sym::ZWide, fam::ArcF>();
    h_arc_mparts_zwide => parts::unique::<sym::ZWide, fam::ArcF>();
    h_arc_iter_zwide => iter::iter::<sym::ZWide, fam::ArcF>();
    h_arc_deepnode => hist::deepnode::<sym::Item, fam::ArcF>();
    h_cmp => cmp::cmp();
    h_rc_conv => conv::conv::<fam::RcF>();
    h_arc_conv => conv::conv::<fam::ArcF>();
    h_rc_deep => conv::deep::<fam::RcF>();
    h_arc_deep => conv::deep::<fam::ArcF>();
    h_rc_panic => panic::panic::<fam::RcF>();
    h_arc_panic => panic::panic::<fam::ArcF>();
    h_conc => conc::conc();
}

pub use sym::{Item, Pair, Zst};
