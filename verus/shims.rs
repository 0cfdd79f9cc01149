// Stand-ins for library items the verifier has no specification for. Each function
// forwards to the item it stands for; its contract is trusted.
pub use core::marker::PhantomData;
pub use core::ops::{Deref, DerefMut};
use crate::lem::*;
use vstd::utf8::*;

pub struct XRangeTo { pub end: usize }

#[verifier::external_body]
pub struct XCharIndices<'a> { i: std::str::CharIndices<'a> }
impl<'a> XCharIndices<'a> {
    pub uninterp spec fn v(self) -> (Seq<char>, int);
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures
            final(self).v().0 == old(self).v().0,
            0 <= final(self).v().1 <= final(self).v().0.len(),
            old(self).v().1 < old(self).v().0.len() ==> final(self).v().1 == old(self).v().1 + 1
                && r == Some((boff(old(self).v().0, old(self).v().1) as usize, old(self).v().0[old(self).v().1]))
                && boff(old(self).v().0, old(self).v().1) <= usize::MAX,
            old(self).v().1 >= old(self).v().0.len() ==> r is None && final(self).v() == old(self).v(),
    { self.i.next() }
}
#[verifier::external_body]
pub struct XChars<'a> { i: std::str::Chars<'a> }
impl<'a> XChars<'a> {
    pub uninterp spec fn v(self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            old(self).v().len() > 0 ==> r == Some(old(self).v()[0]) && final(self).v() == old(self).v().subrange(1, old(self).v().len() as int),
            old(self).v().len() == 0 ==> r is None && final(self).v() == old(self).v(),
    { self.i.next() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<char>)
        ensures
            old(self).v().len() > 0 ==> r == Some(old(self).v().last()) && final(self).v() == old(self).v().drop_last(),
            old(self).v().len() == 0 ==> r is None && final(self).v() == old(self).v(),
    { self.i.next_back() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == self.v().len()
    { self.i.count() }
}

pub trait XStr {
    spec fn sv(&self) -> Seq<char>;
    fn x_char_indices(&self) -> (r: XCharIndices<'_>)
        ensures r.v() == (self.sv(), 0int);
    fn x_chars(&self) -> (r: XChars<'_>)
        ensures r.v() == self.sv();
    fn x_starts_with(&self, p: &str) -> (r: bool)
        ensures r == starts(self.sv(), p@);
    fn x_from(&self, i: usize) -> (r: &str)
        requires is_bound(self.sv(), i as int)
        ensures r@ == self.sv().subrange(cut(self.sv(), i as int), self.sv().len() as int);
    fn x_to(&self, i: usize) -> (r: &str)
        requires is_bound(self.sv(), i as int)
        ensures r@ == self.sv().subrange(0, cut(self.sv(), i as int));
    fn x_sub(&self, i: usize, j: usize) -> (r: &str)
        requires i <= j, is_bound(self.sv(), i as int), is_bound(self.sv(), j as int)
        ensures r@ == self.sv().subrange(cut(self.sv(), i as int), cut(self.sv(), j as int));
    fn x_index(&self, i: XRangeTo) -> (r: &str)
        requires is_bound(self.sv(), i.end as int)
        ensures r@ == self.sv().subrange(0, cut(self.sv(), i.end as int));
}
impl XStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn x_char_indices(&self) -> (r: XCharIndices<'_>) { XCharIndices { i: self.char_indices() } }
    #[verifier::external_body]
    fn x_chars(&self) -> (r: XChars<'_>) { XChars { i: self.chars() } }
    #[verifier::external_body]
    fn x_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body]
    fn x_from(&self, i: usize) -> (r: &str) { &self[i..] }
    #[verifier::external_body]
    fn x_to(&self, i: usize) -> (r: &str) { &self[..i] }
    #[verifier::external_body]
    fn x_sub(&self, i: usize, j: usize) -> (r: &str) { &self[i..j] }
    #[verifier::external_body]
    fn x_index(&self, i: XRangeTo) -> (r: &str) { &self[..i.end] }
}
pub assume_specification [ str::split_at_checked ](s: &str, n: usize) -> (r: Option<(&str, &str)>)
    ensures
        (r is Some) == is_bound(s@, n as int),
        r matches Some(p) ==> p.0@ == s@.subrange(0, cut(s@, n as int)) && p.1@ == s@.subrange(cut(s@, n as int), s@.len() as int);
#[verifier::external_body]
pub fn x_char_from_u32_unchecked(n: u32) -> (r: char)
    requires n <= 0xD7FF || 0xE000 <= n <= 0x10FFFF
    ensures r == n as char
{ unsafe { char::from_u32_unchecked(n) } }
pub assume_specification [ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == is_digit(*c);
pub assume_specification [ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == is_upper(*c);
pub assume_specification [ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == is_lower(*c);
pub assume_specification [ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == alnum(c);
pub assume_specification [ <usize as core::convert::From<bool>>::from ](b: bool) -> (r: usize) ensures r == (if b { 1usize } else { 0usize });
pub assume_specification [ u8::is_ascii_digit ](c: &u8) -> (r: bool) ensures r == (48 <= *c <= 57);
pub assume_specification [ u8::is_ascii_uppercase ](c: &u8) -> (r: bool) ensures r == (65 <= *c <= 90);
pub assume_specification [ u8::is_ascii_lowercase ](c: &u8) -> (r: bool) ensures r == (97 <= *c <= 122);

pub trait XLen {
    spec fn xlen(&self) -> int;
    fn x_len(&self) -> (r: usize) ensures r == self.xlen();
}
impl XLen for str {
    open spec fn xlen(&self) -> int { ulen(self@) }
    #[verifier::external_body]
    fn x_len(&self) -> (r: usize) { self.len() }
}
impl<T> XLen for [T] {
    open spec fn xlen(&self) -> int { self@.len() as int }
    fn x_len(&self) -> (r: usize) { let r = self.len(); proof { assert(self.xlen() == self@.len()); } r }
}
pub trait XUnwrap<T> {
    spec fn opt(self) -> Option<T>;
    fn x_unwrap_unchecked(self) -> (r: T)
        requires self.opt() is Some
        ensures Some(r) == self.opt();
}
impl<T> XUnwrap<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn x_unwrap_unchecked(self) -> (r: T) { self.unwrap() }
}
impl<T, const N: usize> XLen for [T; N] {
    open spec fn xlen(&self) -> int { N as int }
    #[verifier::external_body]
    fn x_len(&self) -> (r: usize) { N }
}
impl<T> XLen for Vec<T> {
    open spec fn xlen(&self) -> int { self@.len() as int }
    fn x_len(&self) -> (r: usize) { self.len() }
}
pub trait XSlice<T> {
    spec fn sv(&self) -> Seq<T>;
    fn x_slice(&self) -> (r: &[T]) ensures r@ == self.sv();
}
pub trait XSub<T> {
    spec fn xv(&self) -> Seq<T>;
    fn x_from(&self, i: usize) -> (r: &[T])
        requires i <= self.xv().len()
        ensures r@ == self.xv().subrange(i as int, self.xv().len() as int);
    fn x_to(&self, i: usize) -> (r: &[T])
        requires i <= self.xv().len()
        ensures r@ == self.xv().subrange(0, i as int);
    fn x_sub(&self, i: usize, j: usize) -> (r: &[T])
        requires i <= j <= self.xv().len()
        ensures r@ == self.xv().subrange(i as int, j as int);
}
impl<T> XSub<T> for [T] {
    open spec fn xv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn x_from(&self, i: usize) -> (r: &[T]) { &self[i..] }
    #[verifier::external_body]
    fn x_to(&self, i: usize) -> (r: &[T]) { &self[..i] }
    #[verifier::external_body]
    fn x_sub(&self, i: usize, j: usize) -> (r: &[T]) { &self[i..j] }
}
impl<T> XSlice<T> for [T] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    fn x_slice(&self) -> (r: &[T]) { self }
}
impl<T> XSlice<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    fn x_slice(&self) -> (r: &[T]) { self.as_slice() }
}
pub trait XRev<T> {
    spec fn rv(&self) -> Seq<T>;
    fn x_reverse(&mut self) ensures final(self).rv() == rev(old(self).rv());
}
impl<T> XRev<T> for Vec<T> {
    open spec fn rv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn x_reverse(&mut self) { self.reverse() }
}
pub trait XGet<T> {
    spec fn gv(&self) -> Seq<T>;
    fn x_get_unchecked(&self, i: usize) -> (r: &T)
        requires i < self.gv().len()
        ensures *r == self.gv()[i as int];
}
impl<T> XGet<T> for [T] {
    open spec fn gv(&self) -> Seq<T> { self@ }
    fn x_get_unchecked(&self, i: usize) -> (r: &T) { &self[i] }
}
impl<T, const N: usize> XGet<T> for [T; N] {
    open spec fn gv(&self) -> Seq<T> { self@ }
    fn x_get_unchecked(&self, i: usize) -> (r: &T) { &self[i] }
}
// `TryInto`
pub trait XTryInto<T> {
    type E;
    spec fn ti(self, r: Option<T>) -> bool;
    fn x_try_into(self) -> (r: core::result::Result<T, Self::E>)
        ensures self.ti(match r { Ok(x) => Some(x), Err(_) => None });
}
impl XTryInto<i64> for u64 {
    type E = ();
    open spec fn ti(self, r: Option<i64>) -> bool { r == (if self <= i64::MAX as u64 { Some(self as i64) } else { None }) }
    fn x_try_into(self) -> core::result::Result<i64, ()> { if self <= i64::MAX as u64 { Ok(self as i64) } else { Err(()) } }
}
impl XTryInto<u32> for u64 {
    type E = ();
    open spec fn ti(self, r: Option<u32>) -> bool { r == (if self <= u32::MAX as u64 { Some(self as u32) } else { None }) }
    fn x_try_into(self) -> core::result::Result<u32, ()> { if self <= u32::MAX as u64 { Ok(self as u32) } else { Err(()) } }
}
impl XTryInto<i32> for i64 {
    type E = ();
    open spec fn ti(self, r: Option<i32>) -> bool { r == (if i32::MIN as i64 <= self <= i32::MAX as i64 { Some(self as i32) } else { None }) }
    fn x_try_into(self) -> core::result::Result<i32, ()> { if i32::MIN as i64 <= self && self <= i32::MAX as i64 { Ok(self as i32) } else { Err(()) } }
}
impl XTryInto<u8> for char {
    type E = ();
    open spec fn ti(self, r: Option<u8>) -> bool { r == (if self as u32 <= 255 { Some(self as u8) } else { None }) }
    fn x_try_into(self) -> core::result::Result<u8, ()> { if self as u32 <= 255 { Ok(self as u8) } else { Err(()) } }
}
// `Default`
pub trait Dflt: Sized {
    spec fn dflt() -> Self;
    fn x_default() -> (r: Self) ensures r == Self::dflt();
}
impl Dflt for bool { open spec fn dflt() -> bool { false } fn x_default() -> bool { false } }
impl Dflt for u8 { open spec fn dflt() -> u8 { 0 } fn x_default() -> u8 { 0 } }
impl Dflt for u16 { open spec fn dflt() -> u16 { 0 } fn x_default() -> u16 { 0 } }
impl Dflt for u32 { open spec fn dflt() -> u32 { 0 } fn x_default() -> u32 { 0 } }
impl Dflt for i32 { open spec fn dflt() -> i32 { 0 } fn x_default() -> i32 { 0 } }
impl Dflt for u64 { open spec fn dflt() -> u64 { 0 } fn x_default() -> u64 { 0 } }
impl Dflt for usize { open spec fn dflt() -> usize { 0 } fn x_default() -> usize { 0 } }
impl<T> Dflt for Option<T> { open spec fn dflt() -> Self { None } fn x_default() -> Self { None } }
impl<'a> Dflt for &'a str {
    uninterp spec fn dflt() -> Self;
    #[verifier::external_body]
    fn x_default() -> Self { "" }
}
impl<'a, T> Dflt for &'a [T] {
    uninterp spec fn dflt() -> Self;
    #[verifier::external_body]
    fn x_default() -> Self { &[] }
}
pub broadcast axiom fn axiom_slice_dflt<T>() ensures #[trigger] <&'static [T] as Dflt>::dflt()@ == Seq::<T>::empty();
impl Dflt for String {
    uninterp spec fn dflt() -> Self;
    #[verifier::external_body]
    fn x_default() -> Self { String::new() }
}
pub broadcast axiom fn axiom_str_dflt() ensures #[trigger] <&'static str as Dflt>::dflt()@ == Seq::<char>::empty();
pub broadcast axiom fn axiom_string_dflt() ensures #[trigger] <String as Dflt>::dflt()@ == Seq::<char>::empty();
// two mutable references that agree on what they refer to now and at their end are the same reference
pub axiom fn mut_ext<T>(a: &mut T, b: &mut T) requires *a == *b, *final(a) == *final(b) ensures a == b;
// every `panic!`, failed `assert!`, `unreachable!`, ...: a call site is an obligation to show it is never reached
#[verifier::external_body]
pub fn x_panic() -> (r: !) requires false { unimplemented!() }
#[verifier::external_body]
pub fn x_needs_drop<T>() -> (r: bool) ensures !r { unimplemented!() }
#[verifier::external_body]
pub fn x_take<T: Dflt>(t: &mut T) -> (r: T) ensures r == *old(t), *final(t) == T::dflt() { unimplemented!() }
#[verifier::external_body]
pub fn x_replace<T>(t: &mut T, v: T) -> (r: T) ensures r == *old(t), *final(t) == v { unimplemented!() }
// `x.into()` from a type to itself
pub broadcast axiom fn axiom_from_id<T>(v: T) ensures #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::from_spec(v) == v;
pub broadcast axiom fn axiom_from_id2<T>() ensures #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec();
pub broadcast axiom fn axiom_str_cap(s: &str) ensures #[trigger] ulen(s@) <= isize::MAX;
pub broadcast group group_std { axiom_from_id, axiom_from_id2, axiom_str_dflt, axiom_slice_dflt, axiom_string_dflt }
pub trait XBump<'a> { fn bump(&self) -> &'a crate::bumpalo::Bump; }
impl<'a, T> XBump<'a> for Vec<T> {
    #[verifier::external_body]
    fn bump(&self) -> &'a crate::bumpalo::Bump { unimplemented!() }
}

// ---- text output
use crate::io;
use crate::sp::*;
// a writer holds text, within the limit on its size
pub open spec fn wok<W: io::Write + ?Sized>(w: &W) -> bool { valid_utf8(w.by()) && w.by().len() < MAX_BYTES && w.lim() == MAX_BYTES }
pub open spec fn wv<W: io::Write + ?Sized>(w: &W) -> Seq<char> { decode_utf8(w.by()) }
// what writing leaves: the text `x`, or an error when `x` is one
pub open spec fn out<T, E, W: io::Write + ?Sized>(r: core::result::Result<T, E>, w: &W, x: OR) -> bool {
    match r { Ok(_) => wok(w) && x == Ok::<_, ErrK>(wv(w)), Err(_) => x is Err }
}
// what `{}` prints
pub trait XDisp {
    spec fn text(&self) -> Seq<char>;
    fn x_text(&self) -> (r: String) ensures r@ == self.text();
}
impl XDisp for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_text(&self) -> (r: String) { self.to_string() } }
impl XDisp for u64 { open spec fn text(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn x_text(&self) -> (r: String) { self.to_string() } }
impl XDisp for u32 { open spec fn text(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn x_text(&self) -> (r: String) { self.to_string() } }
impl XDisp for i64 { open spec fn text(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn x_text(&self) -> (r: String) { self.to_string() } }
impl XDisp for i32 { open spec fn text(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn x_text(&self) -> (r: String) { self.to_string() } }
impl XDisp for usize { open spec fn text(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn x_text(&self) -> (r: String) { self.to_string() } }
impl XDisp for char { open spec fn text(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn x_text(&self) -> (r: String) { self.to_string() } }
impl<T: XDisp + ?Sized> XDisp for &T {
    open spec fn text(&self) -> Seq<char> { (**self).text() }
    fn x_text(&self) -> (r: String) { (**self).x_text() }
}
// `{:02X}`
pub trait XHex2 {
    spec fn val(&self) -> int;
    fn x_hex(&self) -> (r: String) ensures r@ == hex2(self.val());
}
impl XHex2 for u32 { open spec fn val(&self) -> int { *self as int } #[verifier::external_body] fn x_hex(&self) -> (r: String) { format!("{:02X}", self) } }
pub proof fn lemma_utf8_append(a: Seq<u8>, t: Seq<char>)
    requires valid_utf8(a)
    ensures
        valid_utf8(a + encode_utf8(t)),
        decode_utf8(a + encode_utf8(t)) == decode_utf8(a) + t,
        ulen(decode_utf8(a) + t) == a.len() + encode_utf8(t).len(),
        ulen(decode_utf8(a)) == a.len(),
{
    let s = decode_utf8(a);
    decode_utf8_encode_utf8(a);
    encode_utf8_concat(s, t);
    encode_utf8_valid_utf8(s + t);
    encode_utf8_decode_utf8(s + t);
}
pub broadcast proof fn lemma_wv_len<W: io::Write + ?Sized>(w: &W)
    requires valid_utf8(w.by())
    ensures ulen(#[trigger] wv(w)) == w.by().len()
{ lemma_utf8_append(w.by(), Seq::empty()); }
pub trait XOut: io::Write + Sized {
    fn x_str(&mut self, s: &str) -> (r: io::Result<()>)
        requires wok(&*old(self))
        ensures out(r, &*final(self), put(wv(&*old(self)), s@));
    fn x_disp<T: XDisp>(&mut self, t: &T) -> (r: io::Result<()>)
        requires wok(&*old(self))
        ensures out(r, &*final(self), put(wv(&*old(self)), t.text()));
    fn x_hex2<T: XHex2>(&mut self, t: &T) -> (r: io::Result<()>)
        requires wok(&*old(self))
        ensures out(r, &*final(self), put(wv(&*old(self)), hex2(t.val())));
}
impl<W: io::Write> XOut for W {
    fn x_str(&mut self, s: &str) -> (r: io::Result<()>) {
        proof { lemma_utf8_append(self.by(), s@); }
        let b = x_bytes(s);
        if b.len() == 0 {
            proof { assert(self.by() + b@ =~= self.by()); }
            return Ok(());
        }
        match self.write(b) { Ok(_) => Ok(()), Err(e) => Err(e) }
    }
    fn x_disp<T: XDisp>(&mut self, t: &T) -> (r: io::Result<()>) { let s = t.x_text(); self.x_str(s.as_str()) }
    fn x_hex2<T: XHex2>(&mut self, t: &T) -> (r: io::Result<()>) { let s = t.x_hex(); self.x_str(s.as_str()) }
}
#[verifier::external_body]
pub fn x_bytes(s: &str) -> (r: &[u8]) ensures r@ == encode_utf8(s@) { s.as_bytes() }
pub trait XSplit<T> {
    spec fn pv(&self) -> Seq<T>;
    fn x_split_first(&self) -> (r: Option<(&T, &[T])>)
        ensures
            self.pv().len() == 0 ==> r is None,
            self.pv().len() > 0 ==> (r matches Some(p) && *p.0 == self.pv()[0] && p.1@ == self.pv().subrange(1, self.pv().len() as int));
}
impl<T> XSplit<T> for [T] {
    open spec fn pv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn x_split_first(&self) -> (r: Option<(&T, &[T])>) { self.split_first() }
}

pub trait XBumpSlice<'a, T> {
    spec fn bv(&self) -> Seq<T>;
    fn into_bump_slice(self) -> (r: &'a [T]) ensures r@ == self.bv();
}
impl<'a, T> XBumpSlice<'a, T> for Vec<T> {
    open spec fn bv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_bump_slice(self) -> (r: &'a [T]) { unimplemented!() }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub uninterp spec fn bytes_of(e: std::string::FromUtf8Error) -> Seq<u8>;
pub assume_specification<'a> [ core::str::from_utf8 ](v: &'a [u8]) -> (r: core::result::Result<&'a str, core::str::Utf8Error>)
    ensures (r is Ok) == valid_utf8(v@), r matches Ok(s) ==> s@ == decode_utf8(v@);
pub assume_specification [ String::from_utf8 ](v: Vec<u8>) -> (r: core::result::Result<String, std::string::FromUtf8Error>)
    ensures (r is Ok) == valid_utf8(v@), r matches Ok(s) ==> s@ == decode_utf8(v@), r matches Err(e) ==> bytes_of(e) == v@;
pub assume_specification [ std::string::FromUtf8Error::into_bytes ](e: std::string::FromUtf8Error) -> (r: Vec<u8>)
    ensures r@ == bytes_of(e);
#[verifier::external_body]
pub fn x_string_from_utf8_unchecked(v: Vec<u8>) -> (r: String)
    requires valid_utf8(v@)
    ensures r@ == decode_utf8(v@)
{ unsafe { String::from_utf8_unchecked(v) } }
pub assume_specification [ String::into_bytes ](s: String) -> (r: Vec<u8>)
    ensures r@ == encode_utf8(s@);
pub use core::str::Utf8Error;
pub use std::string::FromUtf8Error;
pub open spec fn uok(b: Seq<u8>) -> bool { valid_utf8(b) }
pub open spec fn utx(b: Seq<u8>) -> Seq<char> { decode_utf8(b) }

// Memory asked for in advance. A request is for a bounded number of elements (C03); the collection is as it was.
pub open spec fn modest(n: usize) -> bool { n <= 0x10_0000 }
#[verifier::external_body]
pub fn x_with_capacity<T>(n: usize) -> (r: Vec<T>) requires modest(n) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn x_room_like<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn x_string_with_capacity(n: usize) -> (r: String) requires modest(n) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn x_string_room_like(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
pub trait XRoom: Sized {
    fn x_reserve(&mut self, n: usize) requires modest(n) ensures *final(self) == *old(self);
    fn x_reserve_like(&mut self, n: usize) ensures *final(self) == *old(self);
}
impl<T> XRoom for Vec<T> {
    #[verifier::external_body]
    fn x_reserve(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body]
    fn x_reserve_like(&mut self, n: usize) { unimplemented!() }
}
impl XRoom for String {
    #[verifier::external_body]
    fn x_reserve(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body]
    fn x_reserve_like(&mut self, n: usize) { unimplemented!() }
}
