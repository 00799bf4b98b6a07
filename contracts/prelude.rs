// ---------------------------------------------------------------------
// Shared shims (assumed contracts on dependencies; counted as trusted).
// ---------------------------------------------------------------------
#![feature(const_destruct)]
#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_macros, unused_assignments, unused_parens, unused_braces, non_snake_case, unreachable_code, unused_must_use, unreachable_patterns)]
#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;

// R1: logging is dropped (arguments are not evaluated: the log macros of the
// crate are no-ops without the `tracing` cfg).
macro_rules! trace { ($($t:tt)*) => { () } }
macro_rules! debug { ($($t:tt)*) => { () } }
macro_rules! warn { ($($t:tt)*) => { () } }
macro_rules! error { ($($t:tt)*) => { () } }
macro_rules! trace_span { ($($t:tt)*) => { () } }
macro_rules! info { ($($t:tt)*) => { () } }
// R1: assertions and panics become obligations.
macro_rules! vdebug_assert { ($c:expr $(, $($t:tt)*)?) => { vassert_true($c) } }
macro_rules! vassert { ($c:expr $(, $($t:tt)*)?) => { vassert_true($c) } }
macro_rules! vdebug_assert_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { vassert_true($a == $b) } }
macro_rules! vassert_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { vassert_true($a == $b) } }
macro_rules! vpanic { ($($t:tt)*) => { vnever() } }
macro_rules! vunreachable { ($($t:tt)*) => { vnever() } }
macro_rules! vunimplemented { ($($t:tt)*) => { vnever() } }
macro_rules! vtodo { ($($t:tt)*) => { vnever() } }
// ... unless the function is under a `panics=` directive: then a failing
// assertion is a refusal (the call does not return) and what follows may rely on it.
macro_rules! rassert { ($c:expr $(, $($t:tt)*)?) => { if !($c) { vx_refuse() } } }
macro_rules! rassert_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { if !($a == $b) { vx_refuse() } } }
macro_rules! rpanic { ($($t:tt)*) => { vx_refuse() } }
// R2: `ready!` is its definition; `?` in a function returning Poll<Result<..>>
// is the definition of `Try for Poll<Result<..>>` / Result with identity `From`.
macro_rules! ready { ($e:expr $(,)?) => { match $e { Poll::Ready(t) => t, Poll::Pending => return Poll::Pending } } }
macro_rules! ready_try { ($e:expr $(,)?) => { match $e {
    Poll::Ready(Ok(t)) => t, Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), Poll::Pending => return Poll::Pending } } }
macro_rules! poll_try { ($e:expr) => { match $e { Ok(t) => t, Err(e) => return Poll::Ready(Err(e)) } } }
// R6: combinators with a closure literal are replaced by their definition.
macro_rules! inl_map_ok { ($e:expr ; $p:pat => $b:expr) => { match $e {
    Poll::Ready(Ok($p)) => Poll::Ready(Ok($b)), Poll::Ready(Err(e)) => Poll::Ready(Err(e)), Poll::Pending => Poll::Pending } } }
macro_rules! inl_map_err { ($e:expr ; $p:pat => $b:expr) => { match $e { Ok(t) => Ok(t), Err($p) => Err($b) } } }
macro_rules! inl_opt_map { ($e:expr ; $p:pat => $b:expr) => { match $e { Some($p) => Some($b), None => None } } }
macro_rules! inl_opt_and_then { ($e:expr ; $p:pat => $b:expr) => { match $e { Some($p) => $b, None => None } } }
macro_rules! inl_unwrap_or_else { ($e:expr ; => $b:expr) => { match $e { Some(t) => t, None => $b } } }

verus! {
global size_of usize == 8;

/// R11: an unsizing cast of an array reference.
pub fn vx_slice<'a>(s: &'a [u8]) -> (r: &'a [u8]) ensures r@ == s@ { s }
pub fn vassert_true(c: bool) requires c { }
#[verifier::external_body]
pub fn vnever() -> ! requires false { unimplemented!() }
/// a refusal at run time (panic): does not return
#[verifier::external_body]
pub fn vx_refuse() -> ! { unimplemented!() }

pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](_0: Result<T, E>, _1: T) -> (r: T)
    where E: std::marker::Destruct, T: std::marker::Destruct,
    ensures r == (match _0 { Ok(x) => x, Err(_) => _1 });

// std combinators taking a function
pub assume_specification<T, U, F>[ Option::<T>::map_or ](_0: Option<T>, _1: U, _2: F) -> (r: U)
    where F: FnOnce(T) -> U + core::marker::Destruct, U: core::marker::Destruct
    requires _0 is Some ==> _2.requires((_0->0,))
    ensures match _0 { Some(t) => _2.ensures((t,), r), None => r == _1 };
pub assume_specification<T, U, D, F>[ Option::<T>::map_or_else ](_0: Option<T>, _1: D, _2: F) -> (r: U)
    where D: FnOnce() -> U + core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct
    requires _0 is Some ==> _2.requires((_0->0,)), _0 is None ==> _1.requires(())
    ensures match _0 { Some(t) => _2.ensures((t,), r), None => _1.ensures((), r) };
pub assume_specification<T, F>[ Option::<T>::is_some_and ](_0: Option<T>, _1: F) -> (r: bool)
    where F: FnOnce(T) -> bool + core::marker::Destruct
    requires _0 is Some ==> _1.requires((_0->0,))
    ensures match _0 { Some(t) => _1.ensures((t,), r), None => !r };
pub assume_specification<T, F>[ Option::<T>::is_none_or ](_0: Option<T>, _1: F) -> (r: bool)
    where F: FnOnce(T) -> bool + core::marker::Destruct
    requires _0 is Some ==> _1.requires((_0->0,))
    ensures match _0 { Some(t) => _1.ensures((t,), r), None => r };
pub assume_specification<T>[ Option::<T>::or ](_0: Option<T>, _1: Option<T>) -> (r: Option<T>)
    where T: core::marker::Destruct
    ensures r == (if _0 is Some { _0 } else { _1 });
pub assume_specification<T, F>[ Option::<T>::or_else ](_0: Option<T>, _1: F) -> (r: Option<T>)
    where T: core::marker::Destruct, F: FnOnce() -> Option<T> + core::marker::Destruct
    requires _0 is None ==> _1.requires(())
    ensures match _0 { Some(t) => r == _0, None => _1.ensures((), r) };
pub assume_specification<T, U>[ Option::<T>::and ](_0: Option<T>, _1: Option<U>) -> (r: Option<U>)
    where T: core::marker::Destruct, U: core::marker::Destruct
    ensures r == (if _0 is Some { _1 } else { None });
pub assume_specification<T, F>[ Option::<T>::filter ](_0: Option<T>, _1: F) -> (r: Option<T>)
    where T: core::marker::Destruct, F: FnOnce(&T) -> bool + core::marker::Destruct
    requires _0 is Some ==> _1.requires((&_0->0,))
    ensures match _0 { Some(t) => r == _0 && _1.ensures((&t,), true) || r is None && _1.ensures((&t,), false), None => r is None };
pub assume_specification<T>[ Option::<T>::replace ](_0: &mut Option<T>, _1: T) -> (r: Option<T>)
    ensures r == *old(_0), *final(_0) == Some(_1);
pub assume_specification<T, E, F>[ Result::<T, E>::is_ok_and ](_0: Result<T, E>, _1: F) -> (r: bool)
    where T: core::marker::Destruct, E: core::marker::Destruct, F: FnOnce(T) -> bool + core::marker::Destruct
    requires _0 is Ok ==> _1.requires((_0->Ok_0,))
    ensures match _0 { Ok(t) => _1.ensures((t,), r), Err(_) => !r };
pub assume_specification<T, E, F>[ Result::<T, E>::is_err_and ](_0: Result<T, E>, _1: F) -> (r: bool)
    where T: core::marker::Destruct, E: core::marker::Destruct, F: FnOnce(E) -> bool + core::marker::Destruct
    requires _0 is Err ==> _1.requires((_0->Err_0,))
    ensures match _0 { Err(t) => _1.ensures((t,), r), Ok(_) => !r };
pub assume_specification<T, E, U, F>[ Result::<T, E>::and_then ](_0: Result<T, E>, _1: F) -> (r: Result<U, E>)
    where F: FnOnce(T) -> Result<U, E> + core::marker::Destruct
    requires _0 is Ok ==> _1.requires((_0->Ok_0,))
    ensures match _0 { Ok(t) => _1.ensures((t,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T, E, U, F>[ Result::<T, E>::map_or ](_0: Result<T, E>, _1: U, _2: F) -> (r: U)
    where F: FnOnce(T) -> U + core::marker::Destruct, E: core::marker::Destruct, U: core::marker::Destruct
    requires _0 is Ok ==> _2.requires((_0->Ok_0,))
    ensures match _0 { Ok(t) => _2.ensures((t,), r), Err(_) => r == _1 };
pub assume_specification<T, E, F>[ Result::<T, E>::unwrap_or_else ](_0: Result<T, E>, _1: F) -> (r: T)
    where F: FnOnce(E) -> T + core::marker::Destruct
    requires _0 is Err ==> _1.requires((_0->Err_0,))
    ensures match _0 { Ok(t) => r == t, Err(e) => _1.ensures((e,), r) };
pub assume_specification<T>[ bool::then_some ](_0: bool, _1: T) -> (r: Option<T>)
    where T: core::marker::Destruct
    ensures r == (if _0 { Some(_1) } else { None });

// further std functions
pub assume_specification[ u8::is_ascii_digit ](b: &u8) -> (r: bool) ensures r == (0x30 <= *b <= 0x39);
pub assume_specification[ u8::is_ascii_hexdigit ](b: &u8) -> (r: bool) ensures r == (0x30 <= *b <= 0x39 || 0x41 <= *b <= 0x46 || 0x61 <= *b <= 0x66);
pub assume_specification[ u8::is_ascii_alphabetic ](b: &u8) -> (r: bool) ensures r == (0x41 <= *b <= 0x5a || 0x61 <= *b <= 0x7a);
pub assume_specification[ u8::is_ascii_alphanumeric ](b: &u8) -> (r: bool) ensures r == (0x30 <= *b <= 0x39 || 0x41 <= *b <= 0x5a || 0x61 <= *b <= 0x7a);
pub assume_specification[ u8::is_ascii_whitespace ](b: &u8) -> (r: bool) ensures r == (*b == 0x20 || *b == 9 || *b == 10 || *b == 12 || *b == 13);
pub assume_specification[ u8::is_ascii_graphic ](b: &u8) -> (r: bool) ensures r == (0x21 <= *b <= 0x7e);
pub assume_specification[ u8::is_ascii_control ](b: &u8) -> (r: bool) ensures r == (*b < 0x20 || *b == 0x7f);
pub assume_specification[ u8::is_ascii_uppercase ](b: &u8) -> (r: bool) ensures r == (0x41 <= *b <= 0x5a);
pub assume_specification[ u8::is_ascii_lowercase ](b: &u8) -> (r: bool) ensures r == (0x61 <= *b <= 0x7a);
pub assume_specification[ u8::is_ascii ](b: &u8) -> (r: bool) ensures r == (*b < 0x80);
pub assume_specification[ u8::to_ascii_lowercase ](b: &u8) -> (r: u8) ensures r == (if 0x41 <= *b <= 0x5a { (*b + 0x20) as u8 } else { *b });
pub assume_specification[ u8::to_ascii_uppercase ](b: &u8) -> (r: u8) ensures r == (if 0x61 <= *b <= 0x7a { (*b - 0x20) as u8 } else { *b });
pub assume_specification[ u8::eq_ignore_ascii_case ](a: &u8, b: &u8) -> (r: bool)
    ensures r == ((if 0x41 <= *a <= 0x5a { (*a + 0x20) as u8 } else { *a }) == (if 0x41 <= *b <= 0x5a { (*b + 0x20) as u8 } else { *b }));
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ u64::abs_diff ](a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (if a as int % b as int == 0 { a as int / b as int } else { a as int / b as int + 1 });
pub assume_specification[ u64::overflowing_add ](a: u64, b: u64) -> (r: (u64, bool)) ensures r.1 == (a + b > u64::MAX), r.0 == (if a + b > u64::MAX { a + b - u64::MAX - 1 } else { a + b });
pub assume_specification[ usize::overflowing_add ](a: usize, b: usize) -> (r: (usize, bool)) ensures r.1 == (a + b > usize::MAX), r.0 == (if a + b > usize::MAX { a + b - usize::MAX - 1 } else { a + b });
pub assume_specification[ u64::overflowing_sub ](a: u64, b: u64) -> (r: (u64, bool)) ensures r.1 == (a < b), r.0 == (if a < b { a - b + u64::MAX + 1 } else { a - b });
pub assume_specification[ usize::overflowing_sub ](a: usize, b: usize) -> (r: (usize, bool)) ensures r.1 == (a < b), r.0 == (if a < b { a - b + usize::MAX + 1 } else { a - b });
pub assume_specification<T: core::cmp::PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < s@.len() && vstd::std_specs::cmp::PartialEqSpec::eq_spec(&#[trigger] s@[i], x));
pub assume_specification<T>[ Option::<T>::xor ](_0: Option<T>, _1: Option<T>) -> (r: Option<T>)
    where T: core::marker::Destruct
    ensures r == (if _0 is Some && _1 is None { _0 } else if _0 is None && _1 is Some { _1 } else { None });
pub assume_specification<T, U>[ Option::<T>::zip ](_0: Option<T>, _1: Option<U>) -> (r: Option<(T, U)>)
    where T: core::marker::Destruct, U: core::marker::Destruct
    ensures r == (if _0 is Some && _1 is Some { Some((_0->0, _1->0)) } else { None });
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](_0: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match _0 { Some(x) => Some(*x), None => None });
pub assume_specification<T>[ Option::<Option<T>>::flatten ](_0: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match _0 { Some(x) => x, None => None });
pub assume_specification<T, E, F2, O>[ Result::<T, E>::or_else ](_0: Result<T, E>, _1: O) -> (r: Result<T, F2>)
    where O: FnOnce(E) -> Result<T, F2> + core::marker::Destruct
    requires _0 is Err ==> _1.requires((_0->Err_0,))
    ensures match _0 { Ok(t) => r == Ok::<T, F2>(t), Err(e) => _1.ensures((e,), r) };
pub assume_specification<T>[ core::mem::replace ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T: Default>[ core::mem::take ](a: &mut T) -> (r: T) ensures r == *old(a), call_ensures(T::default, (), *final(a));
pub assume_specification<T: core::cmp::Ord>[ core::cmp::min ](a: T, b: T) -> (r: T)
    where T: core::marker::Destruct
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) is Greater { b } else { a });
pub assume_specification<T: core::cmp::Ord>[ core::cmp::max ](a: T, b: T) -> (r: T)
    where T: core::marker::Destruct
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) is Greater { a } else { b });
pub assume_specification<T, P>[ Option::<T>::take_if ](_0: &mut Option<T>, _1: P) -> (r: Option<T>)
    where P: FnOnce(&mut T) -> bool + core::marker::Destruct
    ensures *old(_0) is None ==> r is None && *final(_0) is None, r is Some ==> *final(_0) is None && *old(_0) is Some;
pub assume_specification<T, A: core::alloc::Allocator>[ std::collections::VecDeque::<T, A>::front ](v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 };
pub assume_specification<T, A: core::alloc::Allocator>[ std::collections::VecDeque::<T, A>::back ](v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@[v@.len() - 1], None => v@.len() == 0 };
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len()
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T, A: core::alloc::Allocator>[ std::collections::VecDeque::<T, A>::is_empty ](v: &std::collections::VecDeque<T, A>) -> (r: bool)
    ensures r == (v@.len() == 0);

/// std::task::Poll (same two variants).
pub enum Poll<T> { Ready(T), Pending }
impl<T> Poll<T> {
    pub fn is_ready(&self) -> (r: bool) ensures r == (self is Ready) { match self { Poll::Ready(_) => true, Poll::Pending => false } }
    pub fn is_pending(&self) -> (r: bool) ensures r == (self is Pending) { match self { Poll::Ready(_) => false, Poll::Pending => true } }
}
pub use Poll::*;

#[verifier::external_body]
pub struct Context<'a> { p: core::marker::PhantomData<&'a ()> }
/// std::task::Waker: opaque
#[verifier::external_body]
pub struct Waker { p: u8 }
impl<'a> Context<'a> {
    #[verifier::external_body]
    pub fn waker(&self) -> (r: &Waker) { unimplemented!() }
}
impl Waker {
    #[verifier::external_body]
    pub fn wake_by_ref(&self) { unimplemented!() }
    #[verifier::external_body]
    pub fn wake(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn will_wake(&self, o: &Waker) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Waker) { unimplemented!() }
}

#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected,
    AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull,
    Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other }
pub mod io {
    use vstd::prelude::*;
    pub use super::ErrorKind;
    /// std::io::Error: only the kind is observable here.
    pub struct Error { pub k: ErrorKind }
    impl Error {
        #[verifier::external_body]
        pub fn new<E>(kind: ErrorKind, e: E) -> (r: Error) ensures r.k == kind { unimplemented!() }
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
    }
    pub type Result<T> = core::result::Result<T, Error>;
}

/// bytes::Bytes: an immutable byte sequence.
#[verifier::external_body]
pub struct Bytes { b: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes {
    #[verifier::external_body]
    pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vget(&self, i: usize) -> (r: u8) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: Bytes)
        requires n <= old(self)@.len()
        ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize)
        requires n <= old(self)@.len()
        ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_from_slice(s: &[u8]) -> (r: Bytes) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_static(s: &'static [u8]) -> (r: Bytes) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@, v@.len() <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
}
impl core::ops::Deref for Bytes {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl core::ops::Index<usize> for Bytes {
    type Output = u8;
    #[verifier::external_body]
    fn index(&self, i: usize) -> &u8 { unimplemented!() }
}

/// bytes::BytesMut: a growable byte sequence.
#[verifier::external_body]
pub struct BytesMut { b: Vec<u8> }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl BytesMut {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u8(&mut self, b: u8) ensures final(self)@ == old(self)@.push(b) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len()
        ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize)
        requires n <= old(self)@.len()
        ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
}
impl core::ops::Deref for BytesMut {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
} // verus!
