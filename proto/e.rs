use vstd::prelude::*;
use std::borrow::Borrow;
use std::collections::{HashSet, VecDeque};
use std::time::Duration;
verus! {
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct PublicKey { pub b: Vec<u8> }
#[derive(PartialEq, Eq, Debug, Clone)]
pub struct PK(PublicKey);
impl std::hash::Hash for PK { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, state: &mut H) {} }
impl From<PublicKey> for PK { fn from(p: PublicKey) -> (r: PK) { PK(p) } }
impl vstd::std_specs::convert::FromSpecImpl<PublicKey> for PK { open spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(v: PublicKey) -> PK { PK(v) } }
impl AsRef<PK> for PublicKey { #[verifier::external_body] fn as_ref(&self) -> (r: &PK) ensures r.0 == *self { unimplemented!() } }
impl AsRef<PublicKey> for PK { fn as_ref(&self) -> (r: &PublicKey) ensures r == self.0 { &self.0 } }

pub struct Trust { pub issued_for: PublicKey, pub e: Duration }
fn b1<T: Borrow<Trust>>(t: T) -> PublicKey { t.borrow().issued_for.clone() }
fn b2(p: &PublicKey) -> bool { let pk: &PK = p.as_ref(); let x = pk.eq(p.as_ref()); x }
fn b3(s: &HashSet<&PK>, p: &PublicKey) -> bool { let pk: &PK = p.as_ref(); s.contains(pk) }
fn b4(s: &mut HashSet<PK>, p: PublicKey) { s.insert(p.into()); }
fn b5(v: Vec<PublicKey>) { for x in v { let y = x; } }
fn b6(v: &Vec<PublicKey>) { for x in v { let y = x; } }
fn b7(v: Vec<PublicKey>) { for x in v.iter() { let y = x; } }
fn b8(k: &Vec<PK>) -> HashSet<&PK> { k.iter().collect() }
fn b9(mut q: VecDeque<PK>) { while !q.is_empty() { let c = q.pop_front().expect("dd"); q.push_back(c) ;} }
fn main() {}
}
