//! One interface over the Rc and the Arc family, so that a harness is written once.

use core::ops::{Deref, DerefMut};

pub trait Fam<T: 'static>: 'static {
    const ARC: bool;
    type S: Deref<Target = [T]> + Clone + 'static;
    type M: Deref<Target = [T]> + DerefMut + 'static;
    type W: Clone + 'static;
    type Parts: DoubleEndedIterator<Item = Self::S> + ExactSizeIterator + Clone;
    type MParts: DoubleEndedIterator<Item = Self::M> + ExactSizeIterator;
    type MIter: DoubleEndedIterator<Item = T> + ExactSizeIterator;
    fn from_vec(v: Vec<T>) -> Self::S;
    fn from_box(v: Box<[T]>) -> Self::S;
    fn m_from_vec(v: Vec<T>) -> Self::M;
    fn m_from_box(v: Box<[T]>) -> Self::M;
    fn clone_left(s: &Self::S) -> Self::S;
    fn clone_right(s: &Self::S) -> Self::S;
    fn split_off_left(s: &mut Self::S) -> Self::S;
    fn split_off_right(s: &mut Self::S) -> Self::S;
    fn split_into_parts(s: Self::S, n: usize) -> Self::Parts;
    fn get_mut(s: &mut Self::S) -> Option<&mut [T]>;
    fn into_mut(s: Self::S) -> Result<Self::M, Self::S>;
    fn downgrade(s: &Self::S) -> Self::W;
    fn w_new() -> Self::W;
    fn upgrade(w: &Self::W) -> Option<Self::S>;
    fn m_split_off_left(m: &mut Self::M) -> Self::M;
    fn m_split_off_right(m: &mut Self::M) -> Self::M;
    fn m_split_into_parts(m: Self::M, n: usize) -> Self::MParts;
    fn into_immut(m: Self::M) -> Self::S;
    fn m_into_iter(m: Self::M) -> Self::MIter;
    fn it_from(i: &mut Self::MIter, at: usize) -> Self::MIter;
    fn it_to(i: &mut Self::MIter, at: usize) -> Self::MIter;
    fn it_slice(i: &Self::MIter) -> &[T];
    fn it_mut_slice(i: &mut Self::MIter) -> &mut [T];
    fn p_slice(p: &Self::Parts) -> &[T];
    fn mp_slice(p: &Self::MParts) -> &[T];
    fn mp_mut_slice(p: &mut Self::MParts) -> &mut [T];
    fn m_clone(m: &Self::M) -> Self::M where T: Clone;
}

pub struct RcF;
pub struct ArcF;

macro_rules! fam {
    ($name:ident, $arc:expr, $m:ident, $S:ident, $M:ident, $P:ident, $MP:ident, $MI:ident) => {
        impl<T: 'static> Fam<T> for $name {
            const ARC: bool = $arc;
            type S = rc_slice::$m::$S<T>;
            type M = rc_slice::$m::$M<T>;
            type W = rc_slice::$m::WeakSlice<T>;
            type Parts = rc_slice::$m::$P<T>;
            type MParts = rc_slice::$m::$MP<T>;
            type MIter = rc_slice::$m::$MI<T>;
            fn from_vec(v: Vec<T>) -> Self::S { rc_slice::$m::$S::from_vec(v) }
            fn from_box(v: Box<[T]>) -> Self::S { rc_slice::$m::$S::from_boxed_slice(v) }
            fn m_from_vec(v: Vec<T>) -> Self::M { rc_slice::$m::$M::from_vec(v) }
            fn m_from_box(v: Box<[T]>) -> Self::M { rc_slice::$m::$M::from_boxed_slice(v) }
            fn clone_left(s: &Self::S) -> Self::S { rc_slice::$m::$S::clone_left(s) }
            fn clone_right(s: &Self::S) -> Self::S { rc_slice::$m::$S::clone_right(s) }
            fn split_off_left(s: &mut Self::S) -> Self::S { rc_slice::$m::$S::split_off_left(s) }
            fn split_off_right(s: &mut Self::S) -> Self::S { rc_slice::$m::$S::split_off_right(s) }
            fn split_into_parts(s: Self::S, n: usize) -> Self::Parts { rc_slice::$m::$S::split_into_parts(s, n) }
            fn get_mut(s: &mut Self::S) -> Option<&mut [T]> { rc_slice::$m::$S::get_mut(s) }
            fn into_mut(s: Self::S) -> Result<Self::M, Self::S> { rc_slice::$m::$S::into_mut(s) }
            fn downgrade(s: &Self::S) -> Self::W { rc_slice::$m::$S::downgrade(s) }
            fn w_new() -> Self::W { rc_slice::$m::WeakSlice::new() }
            fn upgrade(w: &Self::W) -> Option<Self::S> { w.upgrade() }
            fn m_split_off_left(m: &mut Self::M) -> Self::M { rc_slice::$m::$M::split_off_left(m) }
            fn m_split_off_right(m: &mut Self::M) -> Self::M { rc_slice::$m::$M::split_off_right(m) }
            fn m_split_into_parts(m: Self::M, n: usize) -> Self::MParts { rc_slice::$m::$M::split_into_parts(m, n) }
            fn into_immut(m: Self::M) -> Self::S { rc_slice::$m::$M::into_immut(m) }
            fn m_into_iter(m: Self::M) -> Self::MIter { m.into_iter() }
            fn it_from(i: &mut Self::MIter, at: usize) -> Self::MIter { i.split_off_from(at) }
            fn it_to(i: &mut Self::MIter, at: usize) -> Self::MIter { i.split_off_to(at) }
            fn it_slice(i: &Self::MIter) -> &[T] { i.as_slice() }
            fn it_mut_slice(i: &mut Self::MIter) -> &mut [T] { i.as_mut_slice() }
            fn p_slice(p: &Self::Parts) -> &[T] { p.as_slice() }
            fn mp_slice(p: &Self::MParts) -> &[T] { p.as_slice() }
            fn mp_mut_slice(p: &mut Self::MParts) -> &mut [T] { p.as_mut_slice() }
            fn m_clone(m: &Self::M) -> Self::M where T: Clone { m.clone() }
        }
    };
}

fam!(RcF, false, rc, RcSlice, RcSliceMut, RcSliceParts, RcSliceMutParts, RcSliceMutIter);
fam!(ArcF, true, arc, ArcSlice, ArcSliceMut, ArcSliceParts, ArcSliceMutParts, ArcSliceMutIter);
