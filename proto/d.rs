#![feature(allocator_api)]
use vstd::prelude::*;
use std::convert::TryFrom;
use std::time::Duration;
mod vx { use vstd::prelude::*; verus!{
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_ensures(T::clone, (&s@[i],), #[trigger] r@[i]) || r@[i] == s@[i], r@ =~= s@;
pub uninterp spec fn le8(x: u64) -> Seq<u8>;
pub trait VxLe { spec fn le(self) -> Seq<u8>; fn vx_to_le_bytes(self) -> (r: [u8;8]) ensures r@ == self.le(); }
impl VxLe for u64 { open spec fn le(self) -> Seq<u8> { le8(self) } #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8;8]) { self.to_le_bytes() } }

#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTFS(std::array::TryFromSliceError);
pub uninterp spec fn into_seq<T, I>(i: I) -> Seq<T>;
pub broadcast axiom fn ax1<T>(v: Vec<T>) ensures #[trigger] into_seq::<T, Vec<T>>(v) == v@;
pub assume_specification<T, A: std::alloc::Allocator, I: IntoIterator<Item = T>> [<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend] (v: &mut std::vec::Vec<T, A>, i: I) ensures final(v)@ == old(v)@ + into_seq::<T, I>(i);
}}
verus! {
broadcast use vx::ax1; use vx::*;
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum KeyFormat { Ed25519, Rsa, Secp256k1 }
pub enum DErr { Bad, Other(String) }
pub enum TErr { D(DErr), Exp(Duration, Duration) }
impl From<DErr> for TErr { fn from(e: DErr) -> (r: TErr) ensures r == TErr::D(e) { TErr::D(e) } }

pub open spec fn tag(k: KeyFormat) -> u8 { match k { KeyFormat::Ed25519 => 0u8, KeyFormat::Rsa => 1u8, KeyFormat::Secp256k1 => 2u8 } }
impl From<KeyFormat> for u8 {
    fn from(kf: KeyFormat) -> (r: Self) ensures r == tag(kf) {
        match kf { KeyFormat::Ed25519 => 0, KeyFormat::Rsa => 1, KeyFormat::Secp256k1 => 2 }
    }
}
impl TryFrom<u8> for KeyFormat {
    type Error = DErr;
    fn try_from(value: u8) -> (r: Result<Self, Self::Error>)
      ensures r is Ok ==> tag(r->Ok_0) == value, r is Err ==> value > 2
    {
        match value { 0 => Ok(KeyFormat::Ed25519), 1 => Ok(KeyFormat::Rsa), 2 => Ok(KeyFormat::Secp256k1), _ => Err(DErr::Bad) }
    }
}

impl vstd::std_specs::convert::FromSpecImpl<KeyFormat> for u8 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: KeyFormat) -> u8 { tag(v) } }
impl vstd::std_specs::convert::FromSpecImpl<DErr> for TErr { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: DErr) -> TErr { TErr::D(v) } }
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for KeyFormat { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: u8) -> Result<Self, Self::Error> { arbitrary() } }
fn t1(k: KeyFormat) -> (r: u8) ensures r == tag(k) { k.into() }
fn t1b(k: KeyFormat) -> (r: u8) ensures r == tag(k) { let x: u8 = KeyFormat::into(k); x }
fn t2(b: &[u8]) -> (r: Result<KeyFormat, DErr>) ensures r is Ok ==> b@.len() > 0 && tag(r->Ok_0) == b@[0] {
    let k = KeyFormat::try_from(*b.first().ok_or(DErr::Bad)?)?; Ok(k)
}
fn t3(b: &[u8]) -> (r: Vec<u8>) requires b@.len() > 0 ensures r@ == b@.subrange(1, b@.len() as int) { b[1..].to_vec() }
fn t4(b: &[u8]) -> (r: Result<Vec<u8>, TErr>) ensures r is Ok ==> b@.len() > 0 && r->Ok_0@ == seq![b@[0]], r is Err ==> r->Err_0 is D {
    let k = t2(b)?; Ok(vec![k.into()])
}
fn t5(a: [u8;32]) -> (r: Vec<u8>) ensures r@ == a@ { a.to_vec() }
fn t6(a: Duration, b: Duration) -> (r: bool) { a < b }
fn t7(x: u64) -> (r: [u8; 8]) { x.vx_to_le_bytes() }
fn t8(s: &str) -> String { s.to_string() }
fn t9(s: &[u8]) -> (r: Result<[u8;32], std::array::TryFromSliceError>) { <[u8;32]>::try_from(s) }
fn t10(v: &mut Vec<u8>, w: Vec<u8>) ensures final(v)@ == old(v)@ + w@ { v.extend(w); }
fn t11(v: &mut Vec<u8>, w: &[u8]) ensures final(v)@ == old(v)@ + w@ { v.extend_from_slice(w); }
fn t12(v: &mut Vec<u8>, w: &mut Vec<u8>) ensures final(v)@ == old(v)@ + old(w)@ { v.append(w); }
fn main() {}
}
