// Executable meaning of the primitives the specification functions use.
#![allow(non_camel_case_types)]
use std::{any::Any, cell::{Cell, RefCell, UnsafeCell}, fmt, ops::Index};

pub type int = i128;

// ---- enums, pinned independently of the code under test
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum StorageClass { PrivateStatic, ProtectedStatic, PublicStatic, Global, FunctionLocalStatic }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PointerAffinity { Pointer, Reference, RValueReference }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FunctionRefQualifier { Reference, RValueReference }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CallingConv { Cdecl, Pascal, Thiscall, Stdcall, Fastcall, Clrcall, Eabi, Vectorcall, Swift, SwiftAsync }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PrimitiveKind {
    Void, Bool, Char, Schar, Uchar, Char8, Char16, Char32, Short, Ushort, Int, Uint, Long, Ulong, Int64, Uint64,
    Wchar, Float, Double, Ldouble, Nullptr, Auto, DecltypeAuto,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CharKind { Char, Char16, Char32, Wchar }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TagKind { Class, Struct, Union, Enum }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum QualifierMangleMode { Drop, Mangle, Result }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SpecialIntrinsicKind {
    Vftable, Vbtable, Typeof, VcallThunk, LocalStaticGuard, StringLiteralSymbol, UdtReturning, DynamicInitializer,
    DynamicAtexitDestructor, RttiTypeDescriptor, RttiBaseClassDescriptor, RttiBaseClassArray,
    RttiClassHierarchyDescriptor, RttiCompleteObjLocator, LocalVftable, LocalStaticThreadGuard,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IntrinsicFunctionKind {
    New, Delete, Assign, RightShift, LeftShift, LogicalNot, Equals, NotEquals, ArraySubscript, Pointer, Dereference,
    Increment, Decrement, Minus, Plus, BitwiseAnd, MemberPointer, Divide, Modulus, LessThan, LessThanEqual,
    GreaterThan, GreaterThanEqual, Comma, Parens, BitwiseNot, BitwiseXor, BitwiseOr, LogicalAnd, LogicalOr,
    TimesEqual, PlusEqual, MinusEqual, DivEqual, ModEqual, RshEqual, LshEqual, BitwiseAndEqual, BitwiseOrEqual,
    BitwiseXorEqual, VbaseDtor, VecDelDtor, DefaultCtorClosure, ScalarDelDtor, VecCtorIter, VecDtorIter,
    VecVbaseCtorIter, VdispMap, EHVecCtorIter, EHVecDtorIter, EHVecVbaseCtorIter, CopyCtorClosure,
    LocalVftableCtorClosure, ArrayNew, ArrayDelete, ManVectorCtorIter, ManVectorDtorIter, EHVectorCopyCtorIter,
    EHVectorVbaseCopyCtorIter, VectorCopyCtorIter, VectorVbaseCopyCtorIter, ManVectorVbaseCopyCtorIter, CoAwait,
    Spaceship,
}

// ---- immutable sequences: slices of append-only vectors that live until `reset`
thread_local!(static ARENA: RefCell<Vec<Box<dyn Any>>> = const { RefCell::new(Vec::new()) });

/// Frees everything; no `Seq` made before may be used afterwards.
pub fn reset() {
    ARENA.with(|a| a.borrow_mut().clear());
}

// the elements, and the size of the last range measured: (start, len, size)
struct Buf<T>(UnsafeCell<Vec<T>>, Cell<(usize, usize, int)>);

pub struct Seq<T: 'static> {
    buf: &'static Buf<T>,
    start: usize,
    len: usize,
}
impl<T> Clone for Seq<T> {
    fn clone(&self) -> Self { *self }
}
impl<T> Copy for Seq<T> {}

impl<T: Copy + PartialEq + 'static> Seq<T> {
    pub fn from_vec(v: Vec<T>) -> Self {
        let len = v.len();
        let b: Box<Buf<T>> = Box::new(Buf(UnsafeCell::new(v), Cell::new((0, 0, 0))));
        let p: *const Buf<T> = &*b;
        ARENA.with(|a| a.borrow_mut().push(b));
        // SAFETY: the box lives until `reset`
        Seq { buf: unsafe { &*p }, start: 0, len }
    }
    pub fn slice(&self) -> &[T] {
        // SAFETY: elements below a Seq's end are never changed
        unsafe { &(&(*self.buf.0.get()))[self.start..self.start + self.len] }
    }
    pub fn empty() -> Self { Self::from_vec(Vec::new()) }
    pub fn len(&self) -> int { self.len as int }
    pub fn push(self, t: T) -> Self {
        // SAFETY: no reference into the vector is live here
        let v = unsafe { &mut *self.buf.0.get() };
        if v.len() == self.start + self.len {
            v.push(t);
            Seq { len: self.len + 1, ..self }
        } else {
            let mut w = self.slice().to_vec();
            w.push(t);
            Self::from_vec(w)
        }
    }
    pub fn add(self, o: Seq<T>) -> Self {
        let w = o.slice().to_vec();
        // SAFETY: as above
        let v = unsafe { &mut *self.buf.0.get() };
        if v.len() == self.start + self.len {
            v.extend_from_slice(&w);
            Seq { len: self.len + w.len(), ..self }
        } else if v[self.start + self.len..].starts_with(&w) {
            // appended before
            Seq { len: self.len + w.len(), ..self }
        } else {
            let mut u = self.slice().to_vec();
            u.extend_from_slice(&w);
            Self::from_vec(u)
        }
    }
    pub fn subrange(self, a: int, b: int) -> Self {
        assert!(0 <= a && a <= b && b <= self.len as int, "subrange");
        Seq { buf: self.buf, start: self.start + a as usize, len: (b - a) as usize }
    }
    pub fn update(self, i: int, t: T) -> Self {
        let mut w = self.slice().to_vec();
        w[i as usize] = t;
        Self::from_vec(w)
    }
}
impl<T: Copy + PartialEq + 'static> Index<int> for Seq<T> {
    type Output = T;
    fn index(&self, i: int) -> &T { &self.slice()[i as usize] }
}
impl<T: Copy + PartialEq + 'static> PartialEq for Seq<T> {
    fn eq(&self, o: &Self) -> bool { self.slice() == o.slice() }
}
impl<T: Copy + PartialEq + fmt::Debug + 'static> fmt::Debug for Seq<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.slice().fmt(f) }
}

pub fn lit(s: &str) -> Seq<char> { Seq::from_vec(s.chars().collect()) }
pub fn text(s: Seq<char>) -> String { s.slice().iter().collect() }
pub fn ulen(s: Seq<char>) -> int {
    let (a, n, z) = s.buf.1.get();
    let (n, z) = if a == s.start && n <= s.len { (n, z) } else { (0, 0) };
    let z = z + s.slice()[n..].iter().map(|c| c.len_utf8() as int).sum::<int>();
    s.buf.1.set((s.start, s.len, z));
    z
}
pub fn alnum(c: char) -> bool { c.is_alphanumeric() }
pub fn dec(n: int) -> Seq<char> { lit(&n.to_string()) }
pub fn hex2(n: int) -> Seq<char> { lit(&format!("{n:02X}")) }
pub fn chr(n: int) -> char { char::from_u32(n as u32).unwrap() }
pub fn one<T: Copy + PartialEq>(t: T) -> Seq<T> { Seq::from_vec(vec![t]) }
pub fn rev<T: Copy + PartialEq>(s: Seq<T>) -> Seq<T> { Seq::from_vec(s.slice().iter().rev().copied().collect()) }
pub fn seq_eq<T: Copy + PartialEq>(a: Seq<T>, b: Seq<T>) -> bool { a == b }
pub fn seq_map<T: Copy + PartialEq, U: Copy + PartialEq>(s: Seq<T>, f: impl Fn(T) -> U) -> Seq<U> {
    Seq::from_vec(s.slice().iter().map(|t| f(*t)).collect())
}
pub fn emod(x: int, m: int) -> int { x.rem_euclid(m) }
// the tree is acyclic: children were made before, or filled in with, what they belong to
pub fn desc<T>(_: Seq<T>, _: T, _: int) -> bool { true }
