// Library crates and std items the code under test uses, as far as it uses them.
// Bodies are placeholders; the contracts are trusted (documented behaviour of the item).
pub mod io {
#![allow(unused)]
use vstd::prelude::*;
#[verifier::external_body]
pub struct Error { e: std::io::Error }
pub enum ErrorKind { UnexpectedEof, OutOfMemory, Other }
pub type Result<T> = core::result::Result<T, Error>;
impl Error {
    pub uninterp spec fn kind_spec(self) -> ErrorKind;
    #[verifier::external_body]
    pub fn new<E>(k: ErrorKind, e: E) -> (r: Error) ensures r.kind_spec() == k { unimplemented!() }
}
pub uninterp spec fn error_of(k: ErrorKind) -> Error;
pub broadcast axiom fn axiom_error_of(k: ErrorKind) ensures #[trigger] error_of(k).kind_spec() == k;
impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: ErrorKind) -> Error { error_of(k) }
}
impl From<ErrorKind> for Error {
    #[verifier::external_body]
    fn from(k: ErrorKind) -> Error { unimplemented!() }
}
pub trait Write {
    // the bytes written so far, and the number they stay below
    spec fn by(&self) -> Seq<u8>;
    spec fn lim(&self) -> int;
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
        ensures
            final(self).lim() == old(self).lim(),
            r matches Ok(n) ==> n == buf@.len() && final(self).by() == old(self).by() + buf@ && old(self).by().len() + buf@.len() < old(self).lim(),
            r is Err ==> old(self).by().len() + buf@.len() >= old(self).lim();
    fn flush(&mut self) -> (r: Result<()>);
}
impl Write for Vec<u8> {
    open spec fn by(&self) -> Seq<u8> { self@ }
    open spec fn lim(&self) -> int { usize::MAX + 1 }
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> Result<usize> { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> Result<()> { unimplemented!() }
}
}
pub mod bumpalo {
#![allow(unused)]
use vstd::prelude::*;
use crate::shims::*;
#[verifier::external_body]
pub struct Bump { b: () }
pub mod collections { pub use std::vec::Vec; }
impl Bump {
    #[verifier::external_body]
    pub fn alloc<T>(&self, val: T) -> (r: &mut T) ensures *r == val { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_slice_copy<T: Copy>(&self, src: &[T]) -> (r: &mut [T]) ensures r@ == src@ { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_str<'a>(&'a self, src: &str) -> (r: &'a mut str) ensures r@ == src@ { unimplemented!() }
}
impl Dflt for Bump {
    uninterp spec fn dflt() -> Self;
    #[verifier::external_body]
    fn x_default() -> Self { unimplemented!() }
}
}
pub mod smallvec { pub struct SmallVec; }
pub mod nonmax {
#![allow(unused)]
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct NonMaxUsize { pub n: usize }
impl NonMaxUsize {
    pub fn new_unchecked(n: usize) -> (r: NonMaxUsize) requires n != usize::MAX ensures r.n == n { NonMaxUsize { n } }
    pub fn get(self) -> (r: usize) ensures r == self.n { self.n }
}
}
pub mod arrayvec {
#![allow(unused)]
use vstd::prelude::*;
use crate::shims::*;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ArrayVec<T, const N: usize> { v: Vec<T> }
impl<T, const N: usize> ArrayVec<T, N> {
    pub uninterp spec fn v(self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.v() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_full(&self) -> (r: bool) ensures r == (self.v().len() >= N), self.v().len() <= N { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_slice(&mut self) -> (r: &mut [T])
        ensures r@ == old(self).v(), final(self).v() == final(r)@, final(r)@.len() == r@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_unchecked(&mut self, x: T)
        requires old(self).v().len() < N
        ensures final(self).v() == old(self).v().push(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T)
        requires old(self).v().len() < N
        ensures final(self).v() == old(self).v().push(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_push(&mut self, x: T) -> (r: Result<(), T>)
        ensures
            (r is Ok) == (old(self).v().len() < N),
            r is Ok ==> final(self).v() == old(self).v().push(x),
            r is Err ==> final(self).v() == old(self).v()
    { unimplemented!() }
}
pub broadcast axiom fn axiom_arrayvec_cap<T, const N: usize>(x: ArrayVec<T, N>) ensures #[trigger] x.v().len() <= N;
impl<T, const N: usize> XLen for ArrayVec<T, N> {
    open spec fn xlen(&self) -> int { self.v().len() as int }
    #[verifier::external_body]
    fn x_len(&self) -> (r: usize) { unimplemented!() }
}
impl<T, const N: usize> XSplit<T> for ArrayVec<T, N> {
    open spec fn pv(&self) -> Seq<T> { self.v() }
    #[verifier::external_body]
    fn x_split_first(&self) -> (r: Option<(&T, &[T])>) { unimplemented!() }
}
impl<T, const N: usize> XSlice<T> for ArrayVec<T, N> {
    open spec fn sv(&self) -> Seq<T> { self.v() }
    #[verifier::external_body]
    fn x_slice(&self) -> (r: &[T]) { unimplemented!() }
}
impl<T, const N: usize> ArrayVec<T, N> {
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        ensures
            i < self.v().len() ==> (r matches Some(x) && *x == self.v()[i as int]),
            i >= self.v().len() ==> r is None
    { unimplemented!() }
}
impl<T, const N: usize> std::ops::Deref for ArrayVec<T, N> {
    type Target = [T];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[T]) ensures r@ == self.v() { unimplemented!() }
}
impl<T, const N: usize> Dflt for ArrayVec<T, N> {
    uninterp spec fn dflt() -> Self;
    #[verifier::external_body]
    fn x_default() -> (r: Self) { unimplemented!() }
}
pub broadcast axiom fn axiom_arrayvec_dflt<T, const N: usize>()
    ensures (#[trigger] <ArrayVec<T, N> as Dflt>::dflt()).v() == Seq::<T>::empty();
}
