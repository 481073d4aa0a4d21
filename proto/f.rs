use vstd::prelude::*;
verus! {
pub struct A { pub x: u64 }
fn f1(v: Vec<A>) -> (r: Vec<u64>) ensures r@.len() == v@.len(), forall|i:int| 0 <= i < r@.len() ==> r@[i] == v@[i].x {
    let mut out = Vec::new();
    for a in it: v invariant out@.len() == it.index@, forall|i:int| 0 <= i < out@.len() ==> out@[i] == v@[i].x { out.push(a.x); }
    out
}
fn f2(v: &Vec<A>) -> (r: Vec<u64>) ensures r@.len() == v@.len(), forall|i:int| 0 <= i < r@.len() ==> r@[i] == v@[i].x {
    let mut out = Vec::new();
    for a in it: v invariant out@.len() == it.index@, forall|i:int| 0 <= i < out@.len() ==> out@[i] == v@[i].x { out.push(a.x); }
    out
}
fn f3(v: &Vec<A>) -> (r: Vec<u64>) ensures r@.len() == v@.len(), forall|i:int| 0 <= i < r@.len() ==> r@[i] == v@[i].x {
    let mut out = Vec::new();
    for a in it: v.iter() invariant out@.len() == it.index@, forall|i:int| 0 <= i < out@.len() ==> out@[i] == v@[i].x { out.push(a.x); }
    out
}
trait E2 {}
trait St { type Error: E2 + 'static; spec fn sv(&self) -> Seq<u64>; fn get(&self, k: u64) -> (r: Result<Option<u64>, Self::Error>) ensures r is Ok ==> (r->Ok_0 is Some ==> self.sv().contains(r->Ok_0->0));
  fn put(&mut self, k: u64) -> (r: Result<(), Self::Error>) ensures r is Ok ==> final(self).sv() == old(self).sv().push(k), r is Err ==> final(self).sv() == old(self).sv(); }
enum GErr { In(Box<u8>), No }
impl<T: E2 + 'static> From<T> for GErr { #[verifier::external_body] fn from(e: T) -> GErr { GErr::No } }
struct G<S> where S: St { s: S }
impl<S> G<S> where S: St {
  fn t(&mut self, k: u64) -> (r: Result<u64, GErr>) ensures r is Ok ==> final(self).s.sv() == old(self).s.sv().push(k) {
     let q = self.s.get(k)?;
     self.s.put(k)?;
     Ok(3)
  }
}
fn main() {}
}
