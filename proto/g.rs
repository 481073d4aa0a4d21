use vstd::prelude::*;
verus! {
// ---- stubs
#[verifier::external_body] pub struct PublicKey { b: Vec<u8> }
impl Clone for PublicKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for PublicKey { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for PublicKey { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
pub struct PK(pub PublicKey);
impl Clone for PK { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl From<PublicKey> for PK { fn from(p: PublicKey) -> (r: PK) { PK(p) } }
impl vstd::std_specs::convert::FromSpecImpl<PublicKey> for PK { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: PublicKey) -> PK { PK(v) } }
impl AsRef<PK> for PublicKey { #[verifier::external_body] fn as_ref(&self) -> (r: &PK) ensures r.0 == *self { unimplemented!() } }
impl AsRef<PublicKey> for PK { fn as_ref(&self) -> (r: &PublicKey) ensures r == self.0 { &self.0 } }
pub struct Trust { pub issued_for: PublicKey, pub n: u64 }
pub struct Auth { pub trust: Trust, pub issued_by: PublicKey }
impl Clone for Auth { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Revocation { pub pk: PublicKey, pub revoked_by: PublicKey }
impl Clone for Revocation { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum TrustRelation { Auth(Auth), Revocation(Revocation) }

pub trait VxBorrow<B: ?Sized> { }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { t: Vec<T> }
impl<T> HashSet<T> { pub uninterp spec fn view(&self) -> Set<T>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, t: &T) -> (r: bool) ensures r == self@.contains(*t) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t) { unimplemented!() }
}
impl<T> Clone for HashSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Default for HashSet<T> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VecDeque<T> { t: Vec<T> }
impl<T> VecDeque<T> { pub uninterp spec fn view(&self) -> Seq<T>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
  #[verifier::external_body] pub fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct NonEmpty<T> { t: Vec<T> }
impl<T> NonEmpty<T> { pub uninterp spec fn view(&self) -> Seq<T>;
  #[verifier::external_body] pub fn new(t: T) -> (r: Self) ensures r@ == seq![t] { unimplemented!() }
  #[verifier::external_body] pub fn last(&self) -> (r: &T) ensures self@.len() > 0, *r == self@.last() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r > 0 { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
  #[verifier::external_body] pub fn vx_as_slice(&self) -> (r: &[T]) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn into(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
impl<T> Clone for NonEmpty<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

pub struct TrustGraphError { e: u8 }
pub trait StorageError {}
impl<T: StorageError + 'static> From<T> for TrustGraphError { #[verifier::external_body] fn from(e: T) -> TrustGraphError { unimplemented!() } }
pub open spec fn rel_for(r: TrustRelation) -> PublicKey { match r { TrustRelation::Auth(a) => a.trust.issued_for, TrustRelation::Revocation(v) => v.pk } }
pub open spec fn rel_by(r: TrustRelation) -> PublicKey { match r { TrustRelation::Auth(a) => a.issued_by, TrustRelation::Revocation(v) => v.revoked_by } }
pub type Rels = Map<(PublicKey, PublicKey), TrustRelation>;
pub open spec fn rels_wf(m: Rels) -> bool { forall|k: (PublicKey, PublicKey)| #[trigger] m.contains_key(k) ==> rel_for(m[k]) == k.0 && rel_by(m[k]) == k.1 }
pub open spec fn has_auth(m: Rels, a: Auth) -> bool { m.contains_key((a.trust.issued_for, a.issued_by)) && m[(a.trust.issued_for, a.issued_by)] == TrustRelation::Auth(a) }
pub open spec fn has_rev(m: Rels, r: Revocation) -> bool { m.contains_key((r.pk, r.revoked_by)) && m[(r.pk, r.revoked_by)] == TrustRelation::Revocation(r) }
pub open spec fn revoked(m: Rels, pk: PublicKey, by: PublicKey) -> bool { m.contains_key((pk, by)) && m[(pk, by)] is Revocation }
pub trait Storage { type Error: StorageError + 'static;
   spec fn rels(&self) -> Rels; spec fn roots(&self) -> Map<PublicKey, u32>;
   fn get_authorizations(&self, issued_for: &PK) -> (r: Result<Vec<Auth>, Self::Error>)
     ensures rels_wf(self.rels()), r is Ok ==> forall|a: Auth| #[trigger] r->Ok_0@.contains(a) <==> has_auth(self.rels(), a) && a.trust.issued_for == issued_for.0;
   fn get_revocations(&self, issued_for: &PK) -> (r: Result<Vec<Revocation>, Self::Error>)
     ensures rels_wf(self.rels()), r is Ok ==> forall|a: Revocation| #[trigger] r->Ok_0@.contains(a) <==> has_rev(self.rels(), a) && a.pk == issued_for.0,
  r is Ok ==> forall|k: PK| #[trigger] is_rvk(r->Ok_0@, k) <==> revoked(self.rels(), issued_for.0, k.0);
}
pub struct Chain { pub auths: NonEmpty<Auth>, pub revoked_by: HashSet<PK> }
impl Clone for Chain { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn is_rvk(s: Seq<Revocation>, k: PK) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).revoked_by == k.0 }
impl Chain {
    pub fn new(auths: NonEmpty<Auth>, revocations: Vec<Revocation>) -> (r: Self)
      ensures r.auths == auths, forall|k: PK| #[trigger] r.revoked_by@.contains(k) <==> is_rvk(revocations@, k)
    {
        let mut chain = Self { auths, revoked_by: Default::default() };
        chain.add_revocations(revocations);
        chain
    }
    pub fn can_be_extended_by(&self, pk: &PublicKey) -> (r: bool)
      ensures r == (!self.revoked_by@.contains(PK(*pk)) && forall|i: int| 0 <= i < self.auths@.len() ==> #[trigger] self.auths@[i].trust.issued_for != *pk)
    {
        !self.revoked_by.contains(pk.as_ref())
            && !({ let mut any = false; for a in it: self.auths.vx_as_slice()
              invariant any == (exists|i: int| 0 <= i < it.index@ && #[trigger] self.auths@[i].trust.issued_for == *pk), it.seq() == self.auths@.map_values(|x: Auth| &x) { if a.trust.issued_for.eq(pk) { any = true; } } any })
    }
    pub fn add_revocations(&mut self, revocations: Vec<Revocation>)
      ensures final(self).auths == old(self).auths, forall|k: PK| #[trigger] final(self).revoked_by@.contains(k) <==> old(self).revoked_by@.contains(k) || is_rvk(revocations@, k)
    {
        for r in it: revocations 
          invariant self.auths == old(self).auths, forall|k: PK| #[trigger] self.revoked_by@.contains(k) <==> old(self).revoked_by@.contains(k) || (exists|i: int| 0 <= i < it.index@ && (#[trigger] revocations@[i]).revoked_by == k.0)
        { self.revoked_by.insert(r.revoked_by.into()); }
    }
}
pub open spec fn valid_prefix(m: Rels, pk: PublicKey, c: Seq<Auth>) -> bool {
   &&& c.len() >= 1 && c[0].trust.issued_for == pk
   &&& forall|i: int| 0 <= i < c.len() ==> has_auth(m, #[trigger] c[i])
   &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i && j == i + 1 && j < c.len() ==> c[j].trust.issued_for == c[i].issued_by
   &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() ==> c[j].issued_by != c[i].trust.issued_for
   &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() ==> !revoked(m, c[i].trust.issued_for, c[j].issued_by)
   &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() ==> !revoked(m, c[i].issued_by, c[j].issued_by)
}
pub open spec fn complete(m: Rels, roots: Set<PK>, pk: PublicKey, c: Seq<Auth>) -> bool {
   valid_prefix(m, pk, c) && c.len() > 1 && c.last().issued_by == c.last().trust.issued_for && roots.contains(PK(c.last().issued_by))
}
pub open spec fn chain_wf(m: Rels, pk: PublicKey, ch: Chain) -> bool {
  valid_prefix(m, pk, ch.auths@) && forall|k: PK| #[trigger] ch.revoked_by@.contains(k) <==> revoked(m, pk, k.0) || exists|i: int| 0 <= i < ch.auths@.len() && revoked(m, (#[trigger] ch.auths@[i]).issued_by, k.0)
}
pub open spec fn found(t: Seq<Vec<Auth>>, c: Seq<Auth>) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i])@ == c }
pub open spec fn queued(q: Seq<Chain>, c: Seq<Auth>) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).auths@.is_prefix_of(c) }

proof fn lemma_push(m: Rels, pk: PublicKey, c: Seq<Auth>, a: Auth)
  requires valid_prefix(m, pk, c)
  ensures valid_prefix(m, pk, c.push(a)) <==> has_auth(m, a) && a.trust.issued_for == c.last().issued_by
     && (forall|i: int| 0 <= i < c.len() ==> a.issued_by != (#[trigger] c[i]).trust.issued_for)
     && !revoked(m, pk, a.issued_by) && (forall|i: int| 0 <= i < c.len() ==> !revoked(m, (#[trigger] c[i]).issued_by, a.issued_by))
{
  let d = c.push(a);
  assert(forall|i: int| 0 <= i < c.len() ==> d[i] == c[i]);
  assert(d[c.len() as int] == a);
  if valid_prefix(m, pk, d) {
    assert(d[c.len() - 1] == c.last());
    assert forall|i: int| 0 <= i < c.len() implies a.issued_by != (#[trigger] c[i]).trust.issued_for by { assert(d[i] == c[i]); }
    assert forall|i: int| 0 <= i < c.len() implies !revoked(m, (#[trigger] c[i]).issued_by, a.issued_by) by { assert(d[i] == c[i]); }
    assert(d[0] == c[0]);
  }
  if has_auth(m, a) && a.trust.issued_for == c.last().issued_by
     && (forall|i: int| 0 <= i < c.len() ==> a.issued_by != (#[trigger] c[i]).trust.issued_for)
     && !revoked(m, pk, a.issued_by) && (forall|i: int| 0 <= i < c.len() ==> !revoked(m, (#[trigger] c[i]).issued_by, a.issued_by)) {
    assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies !revoked(m, d[i].trust.issued_for, d[j].issued_by) by {
      if j == c.len() { if i > 0 { assert(c[i].trust.issued_for == c[i-1].issued_by); } }
    }
  }
}

// a chain produced by extending `ch` with `a` (whose issuer's revokers were added)
proof fn lemma_ext(m: Rels, pk: PublicKey, ch: Chain, a: Auth, nc: Chain)
  requires chain_wf(m, pk, ch), valid_prefix(m, pk, ch.auths@.push(a)), nc.auths@ == ch.auths@.push(a),
    forall|k: PK| #[trigger] nc.revoked_by@.contains(k) <==> ch.revoked_by@.contains(k) || revoked(m, a.issued_by, k.0)
  ensures chain_wf(m, pk, nc)
{
  let c = ch.auths@; let d = nc.auths@;
  assert(forall|i: int| 0 <= i < c.len() ==> d[i] == c[i]);
  assert(d[c.len() as int] == a);
  assert forall|k: PK| #[trigger] nc.revoked_by@.contains(k) <==> revoked(m, pk, k.0) || exists|i: int| 0 <= i < d.len() && revoked(m, (#[trigger] d[i]).issued_by, k.0) by {
    if exists|i: int| 0 <= i < c.len() && revoked(m, (#[trigger] c[i]).issued_by, k.0) {
      let i = choose|i: int| 0 <= i < c.len() && revoked(m, (#[trigger] c[i]).issued_by, k.0); assert(d[i] == c[i]);
    }
    if exists|i: int| 0 <= i < d.len() && revoked(m, (#[trigger] d[i]).issued_by, k.0) {
      let i = choose|i: int| 0 <= i < d.len() && revoked(m, (#[trigger] d[i]).issued_by, k.0);
      if i < c.len() { assert(c[i] == d[i]); }
    }
    if revoked(m, a.issued_by, k.0) { assert(revoked(m, d[c.len() as int].issued_by, k.0)); }
  }
}
proof fn lemma_step(m: Rels, pk: PublicKey, p: Seq<Auth>, c: Seq<Auth>)
  requires valid_prefix(m, pk, c), p.is_prefix_of(c), p.len() > 0
  ensures p == c || (p.push(c[p.len() as int]).is_prefix_of(c) && valid_prefix(m, pk, p.push(c[p.len() as int])))
{
  if p.len() == c.len() { assert(p =~= c); } else {
    let d = p.push(c[p.len() as int]);
    assert(d =~= c.subrange(0, d.len() as int));
    assert(forall|i: int| 0 <= i < d.len() ==> d[i] == c[i]);
  }
}
pub struct TrustGraph<S> where S: Storage { pub storage: S }
impl<S> TrustGraph<S> where S: Storage {
    #[verifier::exec_allows_no_decreases_clause]
    fn bf_search_paths(&self, pk: &PK, roots: HashSet<PK>) -> (r: Result<Vec<Vec<Auth>>, TrustGraphError>)
      ensures r is Ok ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> complete(self.storage.rels(), roots@, pk.0, (#[trigger] r->Ok_0@[i])@),
        r is Ok ==> forall|c: Seq<Auth>| #[trigger] complete(self.storage.rels(), roots@, pk.0, c) ==> found(r->Ok_0@, c)
    {
        let mut chains_queue: VecDeque<Chain> = VecDeque::new();
        let node_auths: Vec<Auth> = self.storage.get_authorizations(pk)?;
        let node_revocations = self.storage.get_revocations(pk)?;
        for auth in it: node_auths 
          invariant 
            rels_wf(self.storage.rels()),
            forall|a: Auth| #[trigger] node_auths@.contains(a) <==> has_auth(self.storage.rels(), a) && a.trust.issued_for == pk.0,
            forall|k: PK| #[trigger] is_rvk(node_revocations@, k) <==> revoked(self.storage.rels(), pk.0, k.0),
            chains_queue@.len() == it.index@,
            forall|i: int| 0 <= i < chains_queue@.len() ==> chain_wf(self.storage.rels(), pk.0, #[trigger] chains_queue@[i]),
            forall|i: int| 0 <= i < chains_queue@.len() ==> (#[trigger] chains_queue@[i]).auths@ == seq![node_auths@[i]],
        {
            let issuer_revocations = self.storage.get_revocations(&auth.issued_by.clone().into())?;
            let mut chain = Chain::new(NonEmpty::new(auth), node_revocations.clone());
            chain.add_revocations(issuer_revocations);
            chains_queue.push_back(chain);
            proof { assert(node_auths@.contains(auth)); let c = chains_queue@.last(); assert(c.auths@ =~= seq![node_auths@[it.index@ as int]]); assert(c.auths@[0] == auth); assert(forall|k: PK| #[trigger] c.revoked_by@.contains(k) <==> revoked(self.storage.rels(), pk.0, k.0) || revoked(self.storage.rels(), c.auths@[0].issued_by, k.0)); }
        }
        let mut terminated_chains: Vec<Vec<Auth>> = Vec::new();
        proof { let m = self.storage.rels(); assert forall|c: Seq<Auth>| #[trigger] complete(m, roots@, pk.0, c) implies queued(chains_queue@, c) by {
            assert(node_auths@.contains(c[0])); let j = choose|j: int| 0 <= j < node_auths@.len() && node_auths@[j] == c[0]; assert(chains_queue@[j].auths@ =~= c.subrange(0, 1)); } }
        while !chains_queue.is_empty() 
          invariant
            rels_wf(self.storage.rels()),
            forall|i: int| 0 <= i < chains_queue@.len() ==> chain_wf(self.storage.rels(), pk.0, #[trigger] chains_queue@[i]),
            forall|i: int| 0 <= i < terminated_chains@.len() ==> complete(self.storage.rels(), roots@, pk.0, (#[trigger] terminated_chains@[i])@),
            forall|c: Seq<Auth>| #[trigger] complete(self.storage.rels(), roots@, pk.0, c) ==> found(terminated_chains@, c) || queued(chains_queue@, c),
        {
            let ghost q0 = chains_queue@;
            let cur_chain = chains_queue.pop_front().expect("x");
            let ghost q1 = chains_queue@;
            let ghost t1 = terminated_chains@;
            let last = cur_chain.auths.last();
            let auths = self.storage.get_authorizations(&last.issued_by.clone().into())?;
            for auth in it: auths 
              invariant
               rels_wf(self.storage.rels()),
               cur_chain == q0[0],
               chain_wf(self.storage.rels(), pk.0, cur_chain),
               *last == cur_chain.auths@.last(),
               forall|a: Auth| #[trigger] auths@.contains(a) <==> has_auth(self.storage.rels(), a) && a.trust.issued_for == last.issued_by,
               forall|i: int| 0 <= i < chains_queue@.len() ==> chain_wf(self.storage.rels(), pk.0, #[trigger] chains_queue@[i]),
               q1.is_prefix_of(chains_queue@),
               forall|j: int| 0 <= j < it.index@ && valid_prefix(self.storage.rels(), pk.0, cur_chain.auths@.push(#[trigger] auths@[j])) ==> queued(chains_queue@, cur_chain.auths@.push(auths@[j])),
            {
                let ghost qs = chains_queue@;
                if cur_chain.can_be_extended_by(&auth.issued_by) {
                    let mut new_chain = cur_chain.clone();
                    new_chain.add_revocations(self.storage.get_revocations(&auth.issued_by.clone().into())?);
                    new_chain.auths.push(auth);
                    chains_queue.push_back(new_chain);
                }
                proof { let m = self.storage.rels(); let a = auths@[it.index@ as int]; let cc = cur_chain.auths@;
                  assert(auths@.contains(a)); lemma_push(m, pk.0, cc, a);
                  if chains_queue@.len() > qs.len() { let nc = chains_queue@.last(); assert(nc.auths@ =~= cc.push(a)); lemma_ext(m, pk.0, cur_chain, a, nc); }
                  assert(valid_prefix(m, pk.0, cc.push(a)) ==> queued(chains_queue@, cc.push(a))) by { if chains_queue@.len() > qs.len() { assert(chains_queue@[chains_queue@.len() - 1].auths@ == cc.push(a)); } }
                  assert forall|c: Seq<Auth>| queued(qs, c) implies queued(chains_queue@, c) by { let i = choose|i: int| 0 <= i < qs.len() && (#[trigger] qs[i]).auths@.is_prefix_of(c); assert(chains_queue@[i] == qs[i]); }
                }
            }
            let self_signed = last.issued_by == last.trust.issued_for;
            let issued_by: &PK = last.issued_by.as_ref();
            let converges_to_root = roots.contains(issued_by);
            if self_signed && converges_to_root && cur_chain.auths.len() > 1 {
                terminated_chains.push(cur_chain.auths.into());
            }
            proof { let m = self.storage.rels(); let p = cur_chain.auths@;
              assert forall|c: Seq<Auth>| #[trigger] complete(m, roots@, pk.0, c) implies found(terminated_chains@, c) || queued(chains_queue@, c) by {
                if found(t1, c) { let i = choose|i: int| 0 <= i < t1.len() && (#[trigger] t1[i])@ == c; assert(terminated_chains@[i] == t1[i]); }
                else { let i = choose|i: int| 0 <= i < q0.len() && (#[trigger] q0[i]).auths@.is_prefix_of(c);
                  if i > 0 { assert(q0[i] == q1[i - 1]); assert(chains_queue@[i - 1] == q1[i-1]); }
                  else { lemma_step(m, pk.0, p, c);
                    if p == c { assert(terminated_chains@.last()@ == c); }
                    else { let a = c[p.len() as int]; assert(has_auth(m, a)); assert(p.push(a)[p.len() - 1] == p.last()); assert(p.push(a).last() == a); assert(a.trust.issued_for == p.last().issued_by); assert(auths@.contains(a));
                       let j = choose|j: int| 0 <= j < auths@.len() && auths@[j] == a; assert(queued(chains_queue@, p.push(auths@[j]))); 
                       let qi = choose|i: int| 0 <= i < chains_queue@.len() && (#[trigger] chains_queue@[i]).auths@.is_prefix_of(p.push(a)); assert(chains_queue@[qi].auths@.is_prefix_of(c)); }
                  } } }
            }
        }
        Ok(terminated_chains)
    }
}
fn main() {}
}
