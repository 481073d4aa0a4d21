// Contracts of the standard-library pieces the extracted code uses (assumed: bodies are external).
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
verus! {
pub broadcast group vx_axioms { axiom_vec_ext, axiom_string_ext, axiom_str_ref, axiom_arr_ext, axiom_le8, axiom_slice_mem, axiom_string_eq, axiom_vecu8_eq, axiom_bytes_eq }

// ---------------------------------------------------------------- comparison of texts
pub assume_specification[ <String as PartialEq<str>>::eq ](a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@);
pub assume_specification[ <String as PartialEq<str>>::ne ](a: &String, b: &str) -> (r: bool) ensures r == (a@ != b@);
pub assume_specification[ <str as PartialEq<String>>::eq ](a: &str, b: &String) -> (r: bool) ensures r == (a@ == b@);
pub assume_specification[ <str as PartialEq<String>>::ne ](a: &str, b: &String) -> (r: bool) ensures r == (a@ != b@);
pub assume_specification<'x>[ <String as PartialEq<&str>>::eq ](a: &String, b: &&str) -> (r: bool) ensures r == (a@ == b@);
pub assume_specification<'x>[ <String as PartialEq<&str>>::ne ](a: &String, b: &&str) -> (r: bool) ensures r == (a@ != b@);
pub assume_specification<'a>[ <&'a str as PartialEq<String>>::eq ](a: &&'a str, b: &String) -> (r: bool) ensures r == (a@ == b@);
pub assume_specification<'a>[ <&'a str as PartialEq<String>>::ne ](a: &&'a str, b: &String) -> (r: bool) ensures r == (a@ != b@);
#[verifier::external_body]
pub proof fn axiom_string_obeys() ensures <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_string_eq(a: String, b: String)
    ensures (#[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b)) == (a@ == b@) { }

#[verifier::external_body]
pub proof fn axiom_bytes_obey() ensures <Vec<u8> as PartialEqSpec<Vec<u8>>>::obeys_eq_spec(), <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_vecu8_eq(a: Vec<u8>, b: Vec<u8>) ensures (#[trigger] PartialEqSpec::eq_spec(&a, &b)) == (a@ == b@) { }
#[verifier::external_body]
pub broadcast proof fn axiom_bytes_eq(a: &[u8], b: &[u8]) ensures (#[trigger] PartialEqSpec::eq_spec(a, b)) == (a@ == b@) { }

// ---------------------------------------------------------------- extensionality of containers
/// `==` on specification level identifies vectors with equal contents (PartialEq of Vec does)
#[verifier::external_body]
pub broadcast proof fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    ensures #![trigger a@, b@] a@ =~= b@ ==> a == b { }
#[verifier::external_body]
pub broadcast proof fn axiom_string_ext(a: String, b: String)
    ensures #![trigger a@, b@] a@ =~= b@ ==> a == b { }
#[verifier::external_body]
pub broadcast proof fn axiom_str_ref(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ =~= b@ ==> a == b { }
#[verifier::external_body]
pub broadcast proof fn axiom_arr_ext<T, const N: usize>(a: [T; N], b: [T; N])
    ensures #![trigger a@, b@] a@ =~= b@ ==> a == b { }

/// language guarantee: no slice is larger than isize::MAX bytes
#[verifier::external_body]
pub broadcast proof fn axiom_slice_mem(a: &[u8])
    ensures #![trigger a@] a@.len() <= isize::MAX { }

#[verifier::external_body]
pub proof fn axiom_vec_mem(a: &Vec<u8>)
    ensures a@.len() <= isize::MAX { }

// ---------------------------------------------------------------- byte views
pub trait VxBytes { spec fn vb(&self) -> Seq<u8>; }
impl VxBytes for Vec<u8> { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl VxBytes for [u8] { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxBytes for [u8; N] { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl<T: VxBytes + ?Sized> VxBytes for &T { open spec fn vb(&self) -> Seq<u8> { (**self).vb() } }

pub trait VxStr { spec fn vs(&self) -> Seq<char>; }
impl VxStr for str { open spec fn vs(&self) -> Seq<char> { self@ } }
impl VxStr for String { open spec fn vs(&self) -> Seq<char> { self@ } }
impl<T: VxStr + ?Sized> VxStr for &T { open spec fn vs(&self) -> Seq<char> { (**self).vs() } }

/// what `as_mut()` of an `impl AsMut<[u8]>` argument gives access to; writes through it are not tracked
pub struct VxBuf { pub b: Vec<u8> }
impl VxBuf {
    pub fn vx_deref(&self) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() }
}
pub trait VxBytesMut: Sized { spec fn mb(self) -> Seq<u8>; fn vx_as_mut(self) -> (r: VxBuf) ensures r.b@ == self.mb(); }
impl VxBytesMut for Vec<u8> { open spec fn mb(self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_as_mut(self) -> (r: VxBuf) { unimplemented!() } }
impl<const N: usize> VxBytesMut for [u8; N] { open spec fn mb(self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_as_mut(self) -> (r: VxBuf) { unimplemented!() } }
impl<const N: usize> VxBytesMut for &mut [u8; N] { open spec fn mb(self) -> Seq<u8> { (*self)@ } #[verifier::external_body] fn vx_as_mut(self) -> (r: VxBuf) { unimplemented!() } }
impl VxBytesMut for &mut [u8] { open spec fn mb(self) -> Seq<u8> { (*self)@ } #[verifier::external_body] fn vx_as_mut(self) -> (r: VxBuf) { unimplemented!() } }
impl VxBytesMut for &mut Vec<u8> { open spec fn mb(self) -> Seq<u8> { (*self)@ } #[verifier::external_body] fn vx_as_mut(self) -> (r: VxBuf) { unimplemented!() } }

pub trait VxDeref { spec fn vd(&self) -> Seq<u8>; fn vx_deref(&self) -> (r: &[u8]) ensures r@ == self.vd(); }
impl VxDeref for [u8] { open spec fn vd(&self) -> Seq<u8> { self@ } fn vx_deref(&self) -> (r: &[u8]) { self } }

// ---------------------------------------------------------------- conversions
pub trait VxInto<T>: Sized { spec fn into_req(self) -> bool; spec fn into_rel(self, r: T) -> bool;
    fn vx_into(self) -> (r: T) requires self.into_req() ensures self.into_rel(r); }
pub trait VxTryInto<T>: Sized { type Error; spec fn ti_rel(self, r: Result<T, Self::Error>) -> bool;
    fn vx_try_into(self) -> (r: Result<T, Self::Error>) ensures self.ti_rel(r); }
impl VxInto<Vec<u8>> for &[u8] { open spec fn into_req(self) -> bool { true } open spec fn into_rel(self, r: Vec<u8>) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: Vec<u8>) { unimplemented!() } }
impl VxInto<String> for &str { open spec fn into_req(self) -> bool { true } open spec fn into_rel(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
impl VxInto<u64> for u32 { open spec fn into_req(self) -> bool { true } open spec fn into_rel(self, r: u64) -> bool { r == self }
    fn vx_into(self) -> (r: u64) { self as u64 } }
impl VxInto<i64> for u32 { open spec fn into_req(self) -> bool { true } open spec fn into_rel(self, r: i64) -> bool { r == self }
    fn vx_into(self) -> (r: i64) { self as i64 } }
impl VxInto<u64> for u8 { open spec fn into_req(self) -> bool { true } open spec fn into_rel(self, r: u64) -> bool { r == self }
    fn vx_into(self) -> (r: u64) { self as u64 } }

#[verifier::external_body] pub struct TryFromSliceError { x: u8 }
#[verifier::external_body] pub struct ParseIntError { x: u8 }
#[verifier::external_body] pub struct TryFromIntError { x: u8 }
pub fn array_try_from<const N: usize>(s: &[u8]) -> (r: Result<[u8; N], TryFromSliceError>)
    ensures r is Ok <==> s@.len() == N, r is Ok ==> r->Ok_0@ == s@
{ vx_array_try_from(s) }
#[verifier::external_body]
fn vx_array_try_from<const N: usize>(s: &[u8]) -> (r: Result<[u8; N], TryFromSliceError>)
    ensures r is Ok <==> s@.len() == N, r is Ok ==> r->Ok_0@ == s@
{ unimplemented!() }
impl<const N: usize> VxTryInto<[u8; N]> for &[u8] { type Error = TryFromSliceError;
    open spec fn ti_rel(self, r: Result<[u8; N], TryFromSliceError>) -> bool { (r is Ok <==> self@.len() == N) && (r is Ok ==> r->Ok_0@ == self@) }
    fn vx_try_into(self) -> (r: Result<[u8; N], TryFromSliceError>) { vx_array_try_from(self) } }
impl VxTryInto<u32> for i64 { type Error = TryFromIntError;
    open spec fn ti_rel(self, r: Result<u32, TryFromIntError>) -> bool { (r is Ok <==> 0 <= self <= u32::MAX) && (r is Ok ==> r->Ok_0 == self) }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, TryFromIntError>) { unimplemented!() } }
#[verifier::external_body]
pub fn u32_try_from(x: i64) -> (r: Result<u32, TryFromIntError>)
    ensures r is Ok <==> 0 <= x <= u32::MAX, r is Ok ==> r->Ok_0 == x { unimplemented!() }
pub fn i64_from(x: u32) -> (r: i64) ensures r == x { x as i64 }

// ---------------------------------------------------------------- parsing
/// decimal numbers as `u64::from_str` accepts them; the accepted language is uninterpreted,
/// except that the canonical rendering of a number is accepted and gives that number
pub uninterp spec fn parse_u64(s: Seq<char>) -> Option<u64>;
pub uninterp spec fn dec(x: u64) -> Seq<char>;
#[verifier::external_body]
pub proof fn axiom_dec(x: u64) ensures parse_u64(dec(x)) == Some(x), dec(x).len() > 0, no_nl(dec(x)) { }
pub trait VxFromStr: Sized { type Err; spec fn fs_rel(s: Seq<char>, r: Result<Self, Self::Err>) -> bool;
    fn vx_from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures Self::fs_rel(s@, r); }
impl VxFromStr for u64 { type Err = ParseIntError;
    open spec fn fs_rel(s: Seq<char>, r: Result<u64, ParseIntError>) -> bool { (r is Ok <==> parse_u64(s) is Some) && (r is Ok ==> Some(r->Ok_0) == parse_u64(s)) }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<u64, ParseIntError>) { unimplemented!() } }
pub trait VxParse { spec fn ps(&self) -> Seq<char>; fn vx_parse<F: VxFromStr>(&self) -> (r: Result<F, F::Err>) ensures F::fs_rel(self.ps(), r); }
impl VxParse for str { open spec fn ps(&self) -> Seq<char> { self@ } fn vx_parse<F: VxFromStr>(&self) -> (r: Result<F, F::Err>) { F::vx_from_str(self) } }

// ---------------------------------------------------------------- strings
pub open spec fn no_nl(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '\n' && s[i] != '\r' }
pub trait VxToString { spec fn vx_str_ok(&self, s: Seq<char>) -> bool; fn vx_to_string(&self) -> (r: String) ensures self.vx_str_ok(r@); }
impl VxToString for str { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s == self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for String { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s == self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl<T: VxToString + ?Sized> VxToString for &T { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { (**self).vx_str_ok(s) } fn vx_to_string(&self) -> (r: String) { (**self).vx_to_string() } }
impl VxToString for u64 { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s == dec(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for u32 { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s == dec(*self as u64) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for usize { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s == dec(*self as u64) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for i64 { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for TryFromSliceError { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for ParseIntError { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for TryFromIntError { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn lit(a: &str) -> (r: String) ensures r@ == a@, r@.len() > 0 { unimplemented!() }
#[verifier::external_body] pub fn vx_debug<T: ?Sized>(a: &T, f: &str) -> (r: String) ensures r@.len() > 0 { unimplemented!() }
#[verifier::external_body] pub fn str_eq<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.vs() == b.vs()) { unimplemented!() }
pub trait VxToOwned { type Owned; spec fn to_rel(&self, r: Self::Owned) -> bool; fn vx_to_owned(&self) -> (r: Self::Owned) ensures self.to_rel(r); }
impl VxToOwned for [u8] { type Owned = Vec<u8>; open spec fn to_rel(&self, r: Vec<u8>) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl VxToOwned for str { type Owned = String; open spec fn to_rel(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }

/// lines as `str::lines`: split at '\n', a '\r' immediately before it removed, no final empty line
pub open spec fn find_nl(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { s.len() as int } else if s[i] == '\n' { i } else { find_nl(s, i + 1) }
}
pub open spec fn strip_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
pub open spec fn lines(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let k = find_nl(s, 0);
        if k < 0 || k >= s.len() { seq![s] } else { seq![strip_cr(s.subrange(0, k))] + lines(s.subrange(k + 1, s.len() as int)) }
    }
}
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub trait VxLines { spec fn ls(&self) -> Seq<char>; fn vx_lines(&self) -> (r: Vec<&str>) ensures strs(r@) == lines(self.ls()); }
impl VxLines for str { open spec fn ls(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_lines(&self) -> (r: Vec<&str>) { unimplemented!() } }

// ---------------------------------------------------------------- panics
pub fn vx_assert(b: bool) requires b { }
#[verifier::external_body] pub fn vx_unreachable() -> ! requires false { unimplemented!() }
pub trait VxUnwrap<T>: Sized { spec fn un_ok(self) -> bool; spec fn un_val(self) -> T;
    fn vx_unwrap(self) -> (r: T) requires self.un_ok() ensures r == self.un_val();
    fn vx_expect(self, m: &str) -> (r: T) requires self.un_ok() ensures r == self.un_val(); }
impl<T> VxUnwrap<T> for Option<T> { open spec fn un_ok(self) -> bool { self is Some } open spec fn un_val(self) -> T { self->0 }
    fn vx_unwrap(self) -> (r: T) { match self { Some(x) => x, None => vx_unreachable() } }
    fn vx_expect(self, m: &str) -> (r: T) { match self { Some(x) => x, None => vx_unreachable() } } }
impl<T, E> VxUnwrap<T> for Result<T, E> { open spec fn un_ok(self) -> bool { self is Ok } open spec fn un_val(self) -> T { self->Ok_0 }
    fn vx_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_unreachable() } }
    fn vx_expect(self, m: &str) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_unreachable() } } }

// ---------------------------------------------------------------- iteration: the items an iterator yields, as a vector
pub trait VxIntoIter: Sized { type Item; spec fn vseq(self) -> Seq<Self::Item>; fn vx_into_iter(self) -> (r: Vec<Self::Item>) ensures r@ == self.vseq(); }
impl<T> VxIntoIter for Vec<T> { type Item = T; open spec fn vseq(self) -> Seq<T> { self@ } fn vx_into_iter(self) -> (r: Vec<T>) { assert(self.vseq() == self@); self } }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> VxIntoIter for &'a Vec<T> { type Item = &'a T; open spec fn vseq(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<'a, T> VxIntoIter for &'a [T] { type Item = &'a T; open spec fn vseq(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<T, const N: usize> VxIntoIter for [T; N] { type Item = T; open spec fn vseq(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: Vec<T>) { unimplemented!() } }
/// `Vec::from` / `String::from`
pub trait VxVecFrom<T> { spec fn vfseq(self) -> Seq<T>; }
impl<T> VxVecFrom<T> for Vec<T> { open spec fn vfseq(self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxVecFrom<T> for [T; N] { open spec fn vfseq(self) -> Seq<T> { self@ } }
impl<'a, T: Copy> VxVecFrom<T> for &'a [T] { open spec fn vfseq(self) -> Seq<T> { self@ } }
impl<'a, T: Copy, const N: usize> VxVecFrom<T> for &'a [T; N] { open spec fn vfseq(self) -> Seq<T> { self@ } }
#[verifier::external_body] pub fn vec_from<T, S: VxVecFrom<T>>(s: S) -> (r: Vec<T>) ensures r@ == s.vfseq() { unimplemented!() }
#[verifier::external_body] pub fn string_from<S: VxStr>(s: S) -> (r: String) ensures r@ == s.vs() { unimplemented!() }
pub trait VxIter { type T; spec fn iseq(&self) -> Seq<Self::T>; fn vx_iter<'a>(&'a self) -> (r: Vec<&'a Self::T>) ensures r@ == refs(self.iseq()); }
impl<T> VxIter for Vec<T> { type T = T; open spec fn iseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<T> VxIter for [T] { type T = T; open spec fn iseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: Vec<&'a T>) { unimplemented!() } }

#[verifier::reject_recursive_types(T)]
pub struct Peekable<T> { pub v: Vec<T> }
impl<T> Peekable<T> {
    pub fn vx_new(v: Vec<T>) -> (r: Self) ensures r.v == v { Peekable { v } }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&T>) ensures final(self).v == old(self).v, old(self).v@.len() == 0 ==> r is None, old(self).v@.len() > 0 ==> r == Some(&old(self).v@[0]) { unimplemented!() }
}
impl<T> VxIntoIter for Peekable<T> { type Item = T; open spec fn vseq(self) -> Seq<T> { self.v@ } fn vx_into_iter(self) -> (r: Vec<T>) { self.v } }
#[verifier::external_body] pub fn rev<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { unimplemented!() }
#[verifier::external_body] pub fn skip<T>(v: Vec<T>, k: usize) -> (r: Vec<T>) ensures r@ == (if k <= v@.len() { v@.subrange(k as int, v@.len() as int) } else { Seq::empty() }) { unimplemented!() }
#[verifier::external_body] pub fn take<T>(v: Vec<T>, k: usize) -> (r: Vec<T>) ensures r@ == (if k <= v@.len() { v@.subrange(0, k as int) } else { v@ }) { unimplemented!() }
#[verifier::external_body] pub fn chain<T>(v: Vec<T>, w: Vec<T>) -> (r: Vec<T>) ensures r@ == v@ + w@ { unimplemented!() }
#[verifier::external_body] pub fn zip<T, U>(v: Vec<T>, w: Vec<U>) -> (r: Vec<(T, U)>) ensures r@.len() == (if v@.len() < w@.len() { v@.len() } else { w@.len() }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (v@[i], w@[i]) { unimplemented!() }
#[verifier::external_body] pub fn range(a: usize, b: usize) -> (r: Vec<usize>) ensures r@.len() == (if a < b { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == a + i { unimplemented!() }
#[verifier::external_body] pub fn range_rev(a: usize, b: usize) -> (r: Vec<usize>) ensures r@.len() == (if a < b { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == b - 1 - i { unimplemented!() }
#[verifier::external_body] pub fn range_step(a: usize, b: usize, k: usize) -> (r: Vec<usize>)
    requires k > 0
    ensures r@.len() == (if a < b { (b - a + k - 1) / k as int } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == a + i * k && r@[i] < b { unimplemented!() }
pub open spec fn smax(s: Seq<u32>) -> Option<u32> decreases s.len() {
    if s.len() == 0 { None } else { match smax(s.drop_last()) { None => Some(s.last()), Some(m) => Some(if s.last() >= m { s.last() } else { m }) } }
}
pub open spec fn smin(s: Seq<u32>) -> Option<u32> decreases s.len() {
    if s.len() == 0 { None } else { match smin(s.drop_last()) { None => Some(s.last()), Some(m) => Some(if s.last() < m { s.last() } else { m }) } }
}
#[verifier::external_body] pub fn nth<T>(v: Vec<T>, k: usize) -> (r: Option<T>) ensures r == (if k < v@.len() { Some(v@[k as int]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn seq_max(v: Vec<u32>) -> (r: Option<u32>) ensures r == smax(v@) { unimplemented!() }
#[verifier::external_body] pub fn seq_min(v: Vec<u32>) -> (r: Option<u32>) ensures r == smin(v@) { unimplemented!() }
#[verifier::external_body] pub fn vec_rep<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) == x { unimplemented!() }

// ---------------------------------------------------------------- numbers
pub fn u64_max_value() -> (r: u64) ensures r == u64::MAX { u64::MAX }
pub fn u32_default() -> (r: u32) ensures r == 0 { 0 }
pub fn u64_default() -> (r: u64) ensures r == 0 { 0 }
pub trait VxOrd: Sized + Copy { spec fn ov(self) -> int; fn le_(self, o: Self) -> (r: bool) ensures r == (self.ov() <= o.ov()); }
impl VxOrd for u32 { open spec fn ov(self) -> int { self as int } fn le_(self, o: Self) -> (r: bool) { self <= o } }
impl VxOrd for u64 { open spec fn ov(self) -> int { self as int } fn le_(self, o: Self) -> (r: bool) { self <= o } }
impl VxOrd for usize { open spec fn ov(self) -> int { self as int } fn le_(self, o: Self) -> (r: bool) { self <= o } }
pub fn min<T: VxOrd>(a: T, b: T) -> (r: T) ensures r == (if a.ov() <= b.ov() { a } else { b }) { if a.le_(b) { a } else { b } }
pub fn max<T: VxOrd>(a: T, b: T) -> (r: T) ensures r == (if a.ov() <= b.ov() { b } else { a }) { if a.le_(b) { b } else { a } }
pub open spec fn le8(x: u64) -> Seq<u8> { vstd::bytes::spec_u64_to_le_bytes(x) }
pub trait VxLe { spec fn le(self) -> Seq<u8>; fn vx_to_le_bytes(self) -> (r: [u8; 8]) ensures r@ == self.le(); }
impl VxLe for u64 { open spec fn le(self) -> Seq<u8> { le8(self) } #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 8]) { unimplemented!() } }
#[verifier::external_body] pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == vstd::bytes::spec_u64_from_le_bytes(b@), b@ == le8(r) { unimplemented!() }
pub broadcast proof fn axiom_le8(x: u64) ensures #![trigger le8(x)] le8(x).len() == 8, vstd::bytes::spec_u64_from_le_bytes(le8(x)) == x { vstd::bytes::lemma_auto_spec_u64_to_from_le_bytes(); }
pub proof fn lemma_le8_inj(x: u64, y: u64) requires le8(x) == le8(y) ensures x == y { axiom_le8(x); axiom_le8(y); }
pub trait VxPow: Sized { spec fn pv(self) -> nat; spec fn mx() -> nat; fn vx_pow(self, e: u32) -> (r: Self) requires vstd::arithmetic::power::pow(self.pv() as int, e as nat) <= Self::mx() ensures r.pv() == vstd::arithmetic::power::pow(self.pv() as int, e as nat); }
impl VxPow for u32 { open spec fn pv(self) -> nat { self as nat } open spec fn mx() -> nat { u32::MAX as nat } #[verifier::external_body] fn vx_pow(self, e: u32) -> (r: u32) { unimplemented!() } }

// ---------------------------------------------------------------- collections
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>) ensures r@ =~= s@;
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool) ensures T::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < s@.len() && x.eq_spec(&#[trigger] s@[i]));
pub trait VxExtend<S> { fn vx_extend(&mut self, s: S); }
pub trait VxExtSrc { spec fn es(self) -> Seq<u8>; }
impl VxExtSrc for Vec<u8> { open spec fn es(self) -> Seq<u8> { self@ } }
impl VxExtSrc for &[u8] { open spec fn es(self) -> Seq<u8> { self@ } }
impl VxExtSrc for &Vec<u8> { open spec fn es(self) -> Seq<u8> { self@ } }
impl<const N: usize> VxExtSrc for [u8; N] { open spec fn es(self) -> Seq<u8> { self@ } }
impl<const N: usize> VxExtSrc for &[u8; N] { open spec fn es(self) -> Seq<u8> { self@ } }
pub trait VxExtendBytes { spec fn xb(&self) -> Seq<u8>; fn vx_extend<S: VxExtSrc>(&mut self, s: S) ensures final(self).xb() == old(self).xb() + s.es(); }
impl VxExtendBytes for Vec<u8> { open spec fn xb(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_extend<S: VxExtSrc>(&mut self, s: S) { unimplemented!() } }

pub trait Borrow<B> { spec fn bview(&self) -> B; fn borrow(&self) -> (r: &B) ensures *r == self.bview(); }
impl<T> Borrow<T> for T { open spec fn bview(&self) -> T { *self } fn borrow(&self) -> (r: &T) { self } }
impl<T> Borrow<T> for &T { open spec fn bview(&self) -> T { **self } fn borrow(&self) -> (r: &T) { *self } }

#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { t: Vec<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains<Q>(&self, t: &Q) -> (r: bool) where T: Borrow<Q> ensures r == (exists|x: T| #[trigger] self@.contains(x) && x.bview() == *t) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t) { unimplemented!() }
    #[verifier::external_body] pub fn vx_from_vec(v: Vec<T>) -> (r: Self) ensures forall|x: T| #[trigger] r@.contains(x) <==> v@.contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
}
impl<T> Clone for HashSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Default for HashSet<T> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VecDeque<T> { t: Vec<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body] pub fn push_front(&mut self, t: T) ensures final(self)@ == seq![t] + old(self)@ { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Arc<T> { t: Box<T> }
impl<T> Arc<T> { pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body] pub fn new(t: T) -> (r: Self) ensures r@ == t { unimplemented!() } }
impl<T> Clone for Arc<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct BoxDyn { b: u8 }
impl VxToString for BoxDyn { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { true } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn transmuted<A, B>(a: A) -> B;
#[verifier::external_body] pub fn transmute<A, B>(a: A) -> (r: B) ensures r == transmuted::<A, B>(a) { unimplemented!() }

// ---------------------------------------------------------------- time
pub struct Duration { pub s: u64, pub n: u32 }
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Duration {}
pub open spec fn dur_ns(d: Duration) -> int { d.s * 1_000_000_000 + d.n }
pub open spec fn secs(s: u64) -> Duration { Duration { s, n: 0 } }
/// nanoseconds of a Duration are below one second
pub open spec fn dur_lt(a: Duration, b: Duration) -> bool { a.s < b.s || (a.s == b.s && a.n < b.n) }
impl Duration {
    pub const ZERO: Duration = Duration { s: 0, n: 0 };
    pub const MAX: Duration = Duration { s: u64::MAX, n: 999_999_999 };
    pub fn from_secs(s: u64) -> (r: Duration) ensures r == secs(s) { Duration { s, n: 0 } }
    pub fn as_secs(&self) -> (r: u64) ensures r == self.s { self.s }
    #[verifier::external_body] pub fn checked_sub(self, o: Duration) -> (r: Option<Duration>) ensures r is None <==> dur_lt(self, o), r is Some ==> r->0 == dur_sub(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, o: Duration) -> (r: Option<Duration>) ensures r is Some <==> dur_fits(self, o), r is Some ==> r->0 == dur_add(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn saturating_sub(self, o: Duration) -> (r: Duration) ensures r == (if dur_lt(self, o) { secs(0) } else { dur_sub(self, o) }) { unimplemented!() }
    #[verifier::external_body] pub fn saturating_add(self, o: Duration) -> (r: Duration) ensures r == (if dur_fits(self, o) { dur_add(self, o) } else { Duration { s: u64::MAX, n: 999_999_999 } }) { unimplemented!() }
    #[verifier::external_body] pub fn abs_diff(self, o: Duration) -> (r: Duration) ensures r == (if dur_lt(self, o) { dur_sub(o, self) } else { dur_sub(self, o) }) { unimplemented!() }
    #[verifier::external_body] pub fn new(s: u64, n: u32) -> (r: Duration) requires n < 1_000_000_000 || s < u64::MAX - 4 ensures n < 1_000_000_000 ==> r == (Duration { s, n }), dur_ns(r) == s * 1_000_000_000 + n { unimplemented!() }
    #[verifier::external_body] pub fn from_millis(s: u64) -> (r: Duration) ensures dur_ns(r) == s * 1_000_000, r == (Duration { s: s / 1000, n: ((s % 1000) * 1_000_000) as u32 }) { unimplemented!() }
    #[verifier::external_body] pub fn from_micros(s: u64) -> (r: Duration) ensures r == (Duration { s: s / 1_000_000, n: ((s % 1_000_000) * 1000) as u32 }) { unimplemented!() }
    #[verifier::external_body] pub fn from_nanos(s: u64) -> (r: Duration) ensures r == (Duration { s: s / 1_000_000_000, n: (s % 1_000_000_000) as u32 }) { unimplemented!() }
    #[verifier::external_body] pub fn subsec_nanos(&self) -> (r: u32) ensures r == self.n { unimplemented!() }
    #[verifier::external_body] pub fn subsec_micros(&self) -> (r: u32) ensures r == self.n / 1000 { unimplemented!() }
    #[verifier::external_body] pub fn subsec_millis(&self) -> (r: u32) ensures r == self.n / 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn as_nanos(&self) -> (r: u128) ensures r == dur_ns(*self) { unimplemented!() }
    #[verifier::external_body] pub fn as_micros(&self) -> (r: u128) ensures r == dur_ns(*self) / 1000 { unimplemented!() }
    #[verifier::external_body] pub fn as_millis(&self) -> (r: u128) ensures r == dur_ns(*self) / 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.s == 0 && self.n == 0) { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: Duration) -> (r: Duration) ensures r == (if dur_lt(self, o) { o } else { self }) { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: Duration) -> (r: Duration) ensures r == (if dur_lt(o, self) { o } else { self }) { unimplemented!() }
    #[verifier::external_body] pub fn clamp(self, a: Duration, b: Duration) -> (r: Duration) requires !dur_lt(b, a) ensures r == (if dur_lt(self, a) { a } else if dur_lt(b, self) { b } else { self }) { unimplemented!() }
}
impl Default for Duration { #[verifier::external_body] fn default() -> (r: Self) ensures r == secs(0) { unimplemented!() } }
pub open spec fn dur_fits(a: Duration, b: Duration) -> bool { a.s + b.s + (if a.n + b.n >= 1_000_000_000 { 1int } else { 0 }) <= u64::MAX }
pub open spec fn dur_add(a: Duration, b: Duration) -> Duration { if a.n + b.n >= 1_000_000_000 { Duration { s: (a.s + b.s + 1) as u64, n: (a.n + b.n - 1_000_000_000) as u32 } } else { Duration { s: (a.s + b.s) as u64, n: (a.n + b.n) as u32 } } }
pub open spec fn dur_sub(a: Duration, b: Duration) -> Duration { if a.n < b.n { Duration { s: (a.s - b.s - 1) as u64, n: (a.n + 1_000_000_000 - b.n) as u32 } } else { Duration { s: (a.s - b.s) as u64, n: (a.n - b.n) as u32 } } }
impl core::ops::Add for Duration { type Output = Duration; #[verifier::external_body] fn add(self, o: Duration) -> Duration { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Duration { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Duration) -> bool { dur_fits(self, o) } open spec fn add_spec(self, o: Duration) -> Duration { dur_add(self, o) } }
impl core::ops::Sub for Duration { type Output = Duration; #[verifier::external_body] fn sub(self, o: Duration) -> Duration { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<Duration> for Duration { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Duration) -> bool { !dur_lt(self, o) } open spec fn sub_spec(self, o: Duration) -> Duration { dur_sub(self, o) } }
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl Eq for Duration {}
impl Ord for Duration { #[verifier::external_body] fn cmp(&self, o: &Self) -> (r: core::cmp::Ordering) { unimplemented!() } }
impl vstd::std_specs::cmp::OrdSpecImpl for Duration { open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { if dur_lt(*self, *o) { core::cmp::Ordering::Less } else if dur_lt(*o, *self) { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal } } }
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration { open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> {
        if dur_lt(*self, *o) { Some(core::cmp::Ordering::Less) } else if dur_lt(*o, *self) { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }

// ---------------------------------------------------------------- hashing
/// a hash set finds equal values because they feed equal bytes to the hasher
pub mod hash { use vstd::prelude::*; verus! {
    pub trait Hasher: Sized { spec fn fed(&self) -> Seq<u8>;
        fn write(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@;
        fn finish(&self) -> u64; }
    pub trait Hv: Sized { spec fn hv(&self) -> Seq<u8>; }
    pub trait Hash: Hv {
        fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + self.hv();
        fn hash_slice<H: Hasher>(data: &[Self], state: &mut H) ensures final(state).fed() == old(state).fed() + all_hv(data@); }
    pub open spec fn all_hv<T: Hv>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { all_hv(s.drop_last()) + s.last().hv() } }
} }

// ---------------------------------------------------------------- formatting
pub mod fmt { use vstd::prelude::*; verus! {
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    pub struct Formatter<'a> { pub s: String, pub p: core::marker::PhantomData<&'a u8> }
    impl<'a> Formatter<'a> {
        pub open spec fn view(&self) -> Seq<char> { self.s@ }
        #[verifier::external_body] pub fn vx_new() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
        pub fn vx_finish(self) -> (r: String) ensures r@ == self@ { self.s }
        /// writing into a String-backed formatter does not fail
        #[verifier::external_body] pub fn vx_write_str(&mut self, s: String) -> (r: core::result::Result<(), Error>) ensures r is Ok, final(self)@ == old(self)@ + s@ { unimplemented!() }
        #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: core::result::Result<(), Error>) ensures r is Ok, final(self)@ == old(self)@ + s@ { unimplemented!() }
    }
} }
pub trait VxTupEq<B> { spec fn teq(&self, o: &B) -> bool; fn vx_tup_eq(&self, o: &B) -> (r: bool) ensures r == self.teq(o); }
impl<A: VxStr, B: VxStr, C: VxStr, D: VxStr> VxTupEq<(C, D)> for (A, B) {
    open spec fn teq(&self, o: &(C, D)) -> bool { self.0.vs() == o.0.vs() && self.1.vs() == o.1.vs() }
    #[verifier::external_body] fn vx_tup_eq(&self, o: &(C, D)) -> (r: bool) { unimplemented!() } }
}
