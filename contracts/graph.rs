// The trust graph: stored relations, certificate paths, weights.
use vstd::prelude::*;
use crate::vx::{Duration, secs, dur_lt, HashSet};
use crate::spec::*;
use crate::fluence_keypair::public_key::PublicKey;
use crate::fluence_keypair::signature::Signature;
use crate::trust_graph::trust::Trust;
use crate::trust_graph::certificate::Certificate;
use crate::trust_graph::revoke::Revocation;
use crate::trust_graph::trust_relation::{Auth, TrustRelation};
use crate::trust_graph::public_key_hashable::PublicKeyHashable as PK;
use crate::trust_graph::chain::Chain;
verus! {
// ================================================================ stored relations
pub type Rels = IMap<(PublicKey, PublicKey), TrustRelation>;
pub type Roots = IMap<PublicKey, u32>;
pub open spec fn rel_for(r: TrustRelation) -> PublicKey { match r { TrustRelation::Auth(a) => a.trust.issued_for, TrustRelation::Revocation(v) => v.pk } }
pub open spec fn rel_by(r: TrustRelation) -> PublicKey { match r { TrustRelation::Auth(a) => a.issued_by, TrustRelation::Revocation(v) => v.revoked_by } }
pub open spec fn rel_at(r: TrustRelation) -> Duration { match r { TrustRelation::Auth(a) => a.trust.issued_at, TrustRelation::Revocation(v) => v.revoked_at } }
pub open spec fn rel_exp(r: TrustRelation) -> Duration { match r { TrustRelation::Auth(a) => a.trust.expires_at, TrustRelation::Revocation(v) => secs(0) } }
pub open spec fn rel_sig(r: TrustRelation) -> Signature { match r { TrustRelation::Auth(a) => a.trust.signature, TrustRelation::Revocation(v) => v.signature } }
pub open spec fn rel_key(r: TrustRelation) -> (PublicKey, PublicKey) { (rel_for(r), rel_by(r)) }
/// the relation at one-second granularity
pub open spec fn rsec(r: TrustRelation) -> TrustRelation { match r {
    TrustRelation::Auth(a) => TrustRelation::Auth(Auth { trust: tsec(a.trust), issued_by: a.issued_by }),
    TrustRelation::Revocation(v) => TrustRelation::Revocation(Revocation { revoked_at: secs(v.revoked_at.s), ..v }) } }
pub open spec fn rels_wf(m: Rels) -> bool { forall|k: (PublicKey, PublicKey)| #[trigger] m.contains_key(k) ==> rel_for(m[k]) == k.0 && rel_by(m[k]) == k.1 }
pub open spec fn covers(u: Set<PublicKey>, m: Rels) -> bool { forall|k: (PublicKey, PublicKey)| #[trigger] m.contains_key(k) ==> u.contains(k.0) && u.contains(k.1) }
/// the relations are over finitely many keys
pub open spec fn fin(m: Rels) -> bool { exists|u: Set<PublicKey>| covers(u, m) }
pub open spec fn lookup(m: Rels, f: PublicKey, b: PublicKey) -> Option<TrustRelation> { if m.contains_key((f, b)) { Some(m[(f, b)]) } else { None } }
pub open spec fn has_auth(m: Rels, a: Auth) -> bool { m.contains_key((a.trust.issued_for, a.issued_by)) && m[(a.trust.issued_for, a.issued_by)] == TrustRelation::Auth(a) }
pub open spec fn has_rev(m: Rels, r: Revocation) -> bool { m.contains_key((r.pk, r.revoked_by)) && m[(r.pk, r.revoked_by)] == TrustRelation::Revocation(r) }
pub open spec fn revoked(m: Rels, pk: PublicKey, by: PublicKey) -> bool { m.contains_key((pk, by)) && m[(pk, by)] is Revocation }
pub open spec fn is_rvk(s: Seq<Revocation>, k: PK) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).revoked_by == k.0 }
pub open spec fn auths_of(m: Rels, pk: PublicKey, s: Seq<Auth>) -> bool { forall|a: Auth| #[trigger] s.contains(a) <==> has_auth(m, a) && a.trust.issued_for == pk }
pub open spec fn revs_of(m: Rels, pk: PublicKey, s: Seq<Revocation>) -> bool { forall|a: Revocation| #[trigger] s.contains(a) <==> has_rev(m, a) && a.pk == pk }
pub proof fn lemma_rvk(m: Rels, pk: PublicKey, s: Seq<Revocation>, k: PK)
    requires rels_wf(m), revs_of(m, pk, s)
    ensures is_rvk(s, k) <==> revoked(m, pk, k.0)
{
    if is_rvk(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).revoked_by == k.0; assert(s.contains(s[i])); }
    if revoked(m, pk, k.0) { let r = m[(pk, k.0)]->Revocation_0; assert(rel_key(m[(pk, k.0)]) == (pk, k.0)); assert(s.contains(r)); let i = choose|i: int| 0 <= i < s.len() && s[i] == r; assert(s[i].revoked_by == k.0); }
}
pub open spec fn rvk_of(m: Rels, pk: PublicKey, s: Seq<Revocation>) -> bool { forall|k: PK| #[trigger] is_rvk(s, k) <==> revoked(m, pk, k.0) }
pub proof fn lemma_rvk_of(m: Rels, pk: PublicKey, s: Seq<Revocation>)
    requires rels_wf(m), revs_of(m, pk, s)
    ensures rvk_of(m, pk, s)
{ assert forall|k: PK| #[trigger] is_rvk(s, k) <==> revoked(m, pk, k.0) by { lemma_rvk(m, pk, s, k); } }
/// the newest statement for an ordered pair of keys wins
pub open spec fn upd(m: Rels, r: TrustRelation) -> Rels {
    if m.contains_key(rel_key(r)) && !dur_lt(rel_at(m[rel_key(r)]), rel_at(r)) { m } else { m.insert(rel_key(r), rsec(r)) }
}
/// seconds up to this limit are comparable inside the store (292 billion years)
pub open spec fn in_range(t: Duration) -> bool { t.s <= i64::MAX }
pub open spec fn expired(r: TrustRelation, t: Duration) -> bool { r is Auth && rel_exp(r).s <= t.s && in_range(t) }
pub open spec fn gc(m: Rels, t: Duration) -> Rels { IMap::new(|k: (PublicKey, PublicKey)| m.contains_key(k) && !expired(m[k], t), |k: (PublicKey, PublicKey)| m[k]) }
pub proof fn lemma_gc(m: Rels, t: Duration)
    requires rels_wf(m)
    ensures rels_wf(gc(m, t)), gc(gc(m, t), t) == gc(m, t), forall|p: PublicKey, b: PublicKey| #[trigger] revoked(gc(m, t), p, b) == revoked(m, p, b),
        forall|a: Auth| in_range(t) ==> (#[trigger] has_auth(gc(m, t), a) <==> has_auth(m, a) && a.trust.expires_at.s > t.s)
{ assert(gc(gc(m, t), t) =~= gc(m, t)); }

// ================================================================ paths
pub open spec fn valid_prefix(m: Rels, pk: PublicKey, c: Seq<Auth>) -> bool {
    &&& c.len() >= 1 && c[0].trust.issued_for == pk
    &&& forall|i: int| 0 <= i < c.len() ==> has_auth(m, #[trigger] c[i])
    &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i && j == i + 1 && j < c.len() ==> c[j].trust.issued_for == c[i].issued_by
    &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() ==> c[j].issued_by != c[i].trust.issued_for
    &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() ==> !revoked(m, c[i].trust.issued_for, c[j].issued_by)
    &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() ==> !revoked(m, c[i].issued_by, c[j].issued_by)
}

pub open spec fn rset(s: Set<&PK>) -> ISet<PublicKey> { ISet::new(|k: PublicKey| exists|x: &PK| #[trigger] s.contains(x) && x.0 == k) }
pub broadcast proof fn lemma_refs<T>(s: Seq<T>, x: &T)
    ensures #![trigger crate::vx::refs(s).contains(x)] crate::vx::refs(s).contains(x) <==> s.contains(*x)
{ if s.contains(*x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == *x; assert(crate::vx::refs(s)[i] == x); } if crate::vx::refs(s).contains(x) { let i = choose|i: int| 0 <= i < s.len() && crate::vx::refs(s)[i] == x; assert(s[i] == *x); } }
pub broadcast proof fn lemma_rset(s: Set<&PK>, roots: Roots)
    ensures #![trigger rset(s), rdom(roots)] (forall|x: &PK| #[trigger] s.contains(x) <==> roots.contains_key(x.0)) ==> rset(s) == rdom(roots)
{ if forall|x: &PK| #[trigger] s.contains(x) <==> roots.contains_key(x.0) { assert forall|k: PublicKey| roots.contains_key(k) implies #[trigger] rset(s).contains(k) by { assert(s.contains(&PK(k))); } assert(rset(s) =~= rdom(roots)); } }
/// a path from the key to the self-signed trust of a root, nearest trust first
pub open spec fn complete(m: Rels, roots: ISet<PublicKey>, pk: PublicKey, c: Seq<Auth>) -> bool {
    valid_prefix(m, pk, c) && c.len() > 1 && c.last().issued_by == c.last().trust.issued_for && roots.contains(c.last().issued_by)
}
pub open spec fn chain_wf(m: Rels, pk: PublicKey, ch: Chain) -> bool {
    valid_prefix(m, pk, ch.auths@) && forall|k: PK| #[trigger] ch.revoked_by@.contains(k) <==> revoked(m, pk, k.0) || exists|i: int| 0 <= i < ch.auths@.len() && revoked(m, (#[trigger] ch.auths@[i]).issued_by, k.0)
}
pub open spec fn found(t: Seq<Vec<Auth>>, c: Seq<Auth>) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i])@ == c }
pub open spec fn paths_sound(m: Rels, rs: ISet<PublicKey>, pk: PublicKey, b: Seq<Vec<Auth>>) -> bool { forall|i: int| 0 <= i < b.len() ==> complete(m, rs, pk, (#[trigger] b[i])@) }
pub open spec fn paths_all(m: Rels, rs: ISet<PublicKey>, pk: PublicKey, b: Seq<Vec<Auth>>) -> bool { forall|c: Seq<Auth>| #[trigger] complete(m, rs, pk, c) ==> found(b, c) }
pub open spec fn queued(q: Seq<Chain>, c: Seq<Auth>) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).auths@.is_prefix_of(c) }
pub proof fn lemma_push(m: Rels, pk: PublicKey, c: Seq<Auth>, a: Auth)
  requires valid_prefix(m, pk, c)
  ensures valid_prefix(m, pk, c.push(a)) <==> has_auth(m, a) && a.trust.issued_for == c.last().issued_by
     && (forall|i: int| 0 <= i < c.len() ==> a.issued_by != (#[trigger] c[i]).trust.issued_for)
     && !revoked(m, pk, a.issued_by) && (forall|i: int| 0 <= i < c.len() ==> !revoked(m, (#[trigger] c[i]).issued_by, a.issued_by))
{
  let d = c.push(a);
  assert(forall|i: int| 0 <= i < c.len() ==> d[i] == c[i]);
  assert(d[c.len() as int] == a);
  if valid_prefix(m, pk, d) {
    assert(d[c.len() - 1] == c.last());
    assert forall|i: int| 0 <= i < c.len() implies a.issued_by != (#[trigger] c[i]).trust.issued_for by { assert(d[i] == c[i]); }
    assert forall|i: int| 0 <= i < c.len() implies !revoked(m, (#[trigger] c[i]).issued_by, a.issued_by) by { assert(d[i] == c[i]); }
    assert(d[0] == c[0]);
  }
  if has_auth(m, a) && a.trust.issued_for == c.last().issued_by
     && (forall|i: int| 0 <= i < c.len() ==> a.issued_by != (#[trigger] c[i]).trust.issued_for)
     && !revoked(m, pk, a.issued_by) && (forall|i: int| 0 <= i < c.len() ==> !revoked(m, (#[trigger] c[i]).issued_by, a.issued_by)) {
    assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies !revoked(m, d[i].trust.issued_for, d[j].issued_by) by {
      if j == c.len() { if i > 0 { assert(c[i].trust.issued_for == c[i-1].issued_by); } }
    }
  }
}

// a chain produced by extending `ch` with `a` (whose issuer's revokers were added)
pub proof fn lemma_ext(m: Rels, pk: PublicKey, ch: Chain, a: Auth, nc: Chain)
  requires chain_wf(m, pk, ch), valid_prefix(m, pk, ch.auths@.push(a)), nc.auths@ == ch.auths@.push(a),
    forall|k: PK| #[trigger] nc.revoked_by@.contains(k) <==> ch.revoked_by@.contains(k) || revoked(m, a.issued_by, k.0)
  ensures chain_wf(m, pk, nc)
{
  let c = ch.auths@; let d = nc.auths@;
  assert(forall|i: int| 0 <= i < c.len() ==> d[i] == c[i]);
  assert(d[c.len() as int] == a);
  assert forall|k: PK| #[trigger] nc.revoked_by@.contains(k) <==> revoked(m, pk, k.0) || exists|i: int| 0 <= i < d.len() && revoked(m, (#[trigger] d[i]).issued_by, k.0) by {
    if exists|i: int| 0 <= i < c.len() && revoked(m, (#[trigger] c[i]).issued_by, k.0) {
      let i = choose|i: int| 0 <= i < c.len() && revoked(m, (#[trigger] c[i]).issued_by, k.0); assert(d[i] == c[i]);
    }
    if exists|i: int| 0 <= i < d.len() && revoked(m, (#[trigger] d[i]).issued_by, k.0) {
      let i = choose|i: int| 0 <= i < d.len() && revoked(m, (#[trigger] d[i]).issued_by, k.0);
      if i < c.len() { assert(c[i] == d[i]); }
    }
    if revoked(m, a.issued_by, k.0) { assert(revoked(m, d[c.len() as int].issued_by, k.0)); }
  }
}
pub proof fn lemma_step(m: Rels, pk: PublicKey, p: Seq<Auth>, c: Seq<Auth>)
  requires valid_prefix(m, pk, c), p.is_prefix_of(c), p.len() > 0
  ensures p == c || (p.push(c[p.len() as int]).is_prefix_of(c) && valid_prefix(m, pk, p.push(c[p.len() as int])))
{
  if p.len() == c.len() { assert(p =~= c); } else {
    let d = p.push(c[p.len() as int]);
    assert(d =~= c.subrange(0, d.len() as int));
    assert(forall|i: int| 0 <= i < d.len() ==> d[i] == c[i]);
  }
}

// the search: its three steps
pub proof fn lemma_start(m: Rels, rs: ISet<PublicKey>, k: PublicKey, b: Seq<Auth>, q: Seq<Chain>)
    requires auths_of(m, k, b), q.len() == b.len(), forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).auths@ == seq![b[i]]
    ensures forall|c: Seq<Auth>| #[trigger] complete(m, rs, k, c) ==> queued(q, c), b.no_duplicates() ==> apart(q)
{
    if b.no_duplicates() { assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < q.len() && 0 <= j < q.len() && i != j implies !q[i].auths@.is_prefix_of(q[j].auths@) by { assert(q[i].auths@[0] == b[i] && q[j].auths@[0] == b[j]); } }
    assert forall|c: Seq<Auth>| #[trigger] complete(m, rs, k, c) implies queued(q, c) by {
        assert(has_auth(m, c[0])); assert(b.contains(c[0])); let j = choose|j: int| 0 <= j < b.len() && b[j] == c[0];
        assert(q[j].auths@ =~= c.subrange(0, 1)); assert(q[j].auths@.is_prefix_of(c));
    }
}
pub proof fn lemma_extend(m: Rels, k: PublicKey, cur: Chain, a: Auth, qs: Seq<Chain>, q: Seq<Chain>)
    requires chain_wf(m, k, cur), has_auth(m, a), a.trust.issued_for == cur.auths@.last().issued_by,
        ({ let nc = q.last(); let ok = !cur.revoked_by@.contains(PK(a.issued_by)) && (forall|i: int| 0 <= i < cur.auths@.len() ==> (#[trigger] cur.auths@[i]).trust.issued_for != a.issued_by);
           (!ok && q == qs) || (ok && q == qs.push(nc) && nc.auths@ == cur.auths@.push(a) && (forall|x: PK| #[trigger] nc.revoked_by@.contains(x) <==> cur.revoked_by@.contains(x) || revoked(m, a.issued_by, x.0))) })
    ensures valid_prefix(m, k, cur.auths@.push(a)) ==> queued(q, cur.auths@.push(a)),
        q.len() > qs.len() ==> chain_wf(m, k, q.last()), qs.is_prefix_of(q),
        forall|c: Seq<Auth>| #[trigger] queued(qs, c) ==> queued(q, c)
{
    let cc = cur.auths@; lemma_push(m, k, cc, a);
    assert(cur.revoked_by@.contains(PK(a.issued_by)) <==> revoked(m, k, a.issued_by) || exists|i: int| 0 <= i < cc.len() && revoked(m, (#[trigger] cc[i]).issued_by, a.issued_by));
    if q.len() > qs.len() { let nc = q.last(); lemma_ext(m, k, cur, a, nc); assert(q[q.len() - 1].auths@.is_prefix_of(cc.push(a))); }
    assert forall|c: Seq<Auth>| queued(qs, c) implies #[trigger] queued(q, c) by { let i = choose|i: int| 0 <= i < qs.len() && (#[trigger] qs[i]).auths@.is_prefix_of(c); assert(q[i] == qs[i]); }
}
pub open spec fn was_extended(m: Rels, k: PublicKey, p: Seq<Auth>, q: Seq<Chain>, a: Auth) -> bool { valid_prefix(m, k, p.push(a)) ==> queued(q, p.push(a)) }
pub open spec fn all_extended(m: Rels, k: PublicKey, p: Seq<Auth>, q: Seq<Chain>) -> bool { forall|a: Auth| has_auth(m, a) && a.trust.issued_for == p.last().issued_by ==> #[trigger] was_extended(m, k, p, q, a) }
pub proof fn lemma_all_extended(m: Rels, k: PublicKey, p: Seq<Auth>, q: Seq<Chain>, b: Seq<Auth>)
    requires auths_of(m, p.last().issued_by, b), forall|j: int| 0 <= j < b.len() ==> was_extended(m, k, p, q, #[trigger] b[j])
    ensures all_extended(m, k, p, q)
{
    assert forall|a: Auth| has_auth(m, a) && a.trust.issued_for == p.last().issued_by implies #[trigger] was_extended(m, k, p, q, a) by {
        assert(b.contains(a)); let j = choose|j: int| 0 <= j < b.len() && b[j] == a; assert(was_extended(m, k, p, q, b[j]));
    }
}
// ---- each path once, and the search ends
pub open spec fn distinct(t: Seq<Vec<Auth>>) -> bool { forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < t.len() && 0 <= j < t.len() && i != j ==> t[i]@ != t[j]@ }
/// no path under construction continues another
pub open spec fn apart(q: Seq<Chain>) -> bool { forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < q.len() && 0 <= j < q.len() && i != j ==> !q[i].auths@.is_prefix_of(q[j].auths@) }
/// no path under construction will lead to a finished one again
pub open spec fn ahead(q: Seq<Chain>, t: Seq<Vec<Auth>>) -> bool { forall|i: int, j: int| #![trigger q[i], t[j]] 0 <= i < q.len() && 0 <= j < t.len() ==> !q[i].auths@.is_prefix_of(t[j]@) }
pub open spec fn ext_by(p: Seq<Auth>, c: Seq<Auth>, b: Seq<Auth>, n: int) -> bool { exists|j: int| 0 <= j < n && c == p.push(#[trigger] b[j]) }
/// q is q1 followed by extensions of p by some of the first n authorizations, each at most once
pub open spec fn grown(p: Seq<Auth>, q1: Seq<Chain>, q: Seq<Chain>, b: Seq<Auth>, n: int) -> bool {
    &&& q1.is_prefix_of(q) && q.len() <= q1.len() + n
    &&& forall|i: int| q1.len() <= i < q.len() ==> ext_by(p, (#[trigger] q[i]).auths@, b, n)
    &&& forall|i: int, j: int| #![trigger q[i], q[j]] q1.len() <= i < j < q.len() ==> q[i].auths@ != q[j].auths@
}
pub open spec fn grown_by(m: Rels, p: Seq<Auth>, q1: Seq<Chain>, q: Seq<Chain>) -> bool { exists|b: Seq<Auth>| auths_of(m, p.last().issued_by, b) && b.no_duplicates() && #[trigger] grown(p, q1, q, b, b.len() as int) }
pub proof fn lemma_grow(p: Seq<Auth>, q1: Seq<Chain>, qs: Seq<Chain>, q: Seq<Chain>, b: Seq<Auth>, n: int)
    requires grown(p, q1, qs, b, n), 0 <= n < b.len(), b.no_duplicates(), q == qs || (q == qs.push(q.last()) && q.last().auths@ == p.push(b[n]))
    ensures grown(p, q1, q, b, n + 1)
{
    assert forall|i: int| q1.len() <= i < q.len() implies ext_by(p, (#[trigger] q[i]).auths@, b, n + 1) by {
        if i < qs.len() { assert(q[i] == qs[i]); let j = choose|j: int| 0 <= j < n && qs[i].auths@ == p.push(#[trigger] b[j]); assert(q[i].auths@ == p.push(b[j])); }
        else { assert(q[i].auths@ == p.push(b[n])); }
    }
    assert forall|i: int, j: int| #![trigger q[i], q[j]] q1.len() <= i < j < q.len() implies q[i].auths@ != q[j].auths@ by {
        assert(q[i] == qs[i]);
        if j < qs.len() { assert(q[j] == qs[j]); }
        else { let x = choose|x: int| 0 <= x < n && qs[i].auths@ == p.push(#[trigger] b[x]); assert(p.push(b[x]).last() == b[x]); assert(p.push(b[n]).last() == b[n]); assert(b[x] != b[n]); }
    }
}
pub proof fn lemma_once(m: Rels, p: Seq<Auth>, q0: Seq<Chain>, q: Seq<Chain>, t1: Seq<Vec<Auth>>, t: Seq<Vec<Auth>>)
    requires q0.len() > 0, p == q0[0].auths@, grown_by(m, p, q0.subrange(1, q0.len() as int), q), apart(q0), ahead(q0, t1), distinct(t1),
        t == t1 || (t.len() == t1.len() + 1 && t.drop_last() =~= t1 && t.last()@ == p)
    ensures apart(q), ahead(q, t), distinct(t)
{
    let q1 = q0.subrange(1, q0.len() as int); let n = q1.len() as int; let b = choose|b: Seq<Auth>| auths_of(m, p.last().issued_by, b) && b.no_duplicates() && #[trigger] grown(p, q1, q, b, b.len() as int);
    assert forall|i: int| 0 <= i < n implies q[i] == q0[i + 1] by { assert(q1[i] == q0[i + 1]); }
    assert forall|i: int| n <= i < q.len() implies p.is_prefix_of((#[trigger] q[i]).auths@) && q[i].auths@.len() == p.len() + 1 by { assert(ext_by(p, q[i].auths@, b, b.len() as int)); }
    assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < q.len() && 0 <= j < q.len() && i != j implies !q[i].auths@.is_prefix_of(q[j].auths@) by {
        let x = q[i].auths@; let y = q[j].auths@;
        if x.is_prefix_of(y) {
            if i < n && j < n { assert(!q0[i + 1].auths@.is_prefix_of(q0[j + 1].auths@)); }
            else if i < n { assert(!q0[i + 1].auths@.is_prefix_of(q0[0].auths@)); assert(!q0[0].auths@.is_prefix_of(q0[i + 1].auths@));
                if x.len() <= p.len() { assert(x =~= p.take(x.len() as int)); assert(x.is_prefix_of(p)); } else { assert(x =~= y); } }
            else if j < n { assert(!q0[0].auths@.is_prefix_of(q0[j + 1].auths@)); assert(p =~= y.take(p.len() as int)); assert(p.is_prefix_of(y)); }
            else { assert(x =~= y); if i < j { assert(q[i].auths@ != q[j].auths@); } else { assert(q[j].auths@ != q[i].auths@); } }
        }
    }
    assert forall|i: int, j: int| #![trigger q[i], t[j]] 0 <= i < q.len() && 0 <= j < t.len() implies !q[i].auths@.is_prefix_of(t[j]@) by {
        let x = q[i].auths@; let y = t[j]@;
        if j < t1.len() { assert(t[j] == t1[j]); assert(!q0[0].auths@.is_prefix_of(t1[j]@)); if i < n { assert(!q0[i + 1].auths@.is_prefix_of(t1[j]@)); } else if x.is_prefix_of(y) { assert(p =~= y.take(p.len() as int)); } }
        else { assert(y == p); if i < n { assert(!q0[i + 1].auths@.is_prefix_of(q0[0].auths@)); } }
    }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i]@ != t[j]@ by {
        if i < t1.len() && j < t1.len() { assert(t[i] == t1[i] && t[j] == t1[j]); }
        else { let l = if i < j { i } else { j }; assert(t[l] == t1[l]); assert(!q0[0].auths@.is_prefix_of(t1[l]@)); assert(p.is_prefix_of(p)); }
    }
}
pub open spec fn pw(b: nat, e: nat) -> nat decreases e { if e == 0 { 1 } else { b * pw(b, (e - 1) as nat) } }
pub proof fn lemma_pw(b: nat, e: nat) requires b > 0 ensures pw(b, e) > 0 decreases e { if e > 0 { lemma_pw(b, (e - 1) as nat); assert(b * pw(b, (e - 1) as nat) > 0) by (nonlinear_arith) requires b > 0, pw(b, (e - 1) as nat) > 0; } }
/// bound on the work still caused by a path of the given length, over u keys
pub open spec fn room(u: nat, len: int) -> nat { if len > 2 * u { 0 } else { pw(u + 1, (2 * u - len) as nat) } }
pub open spec fn work(q: Seq<Chain>, u: nat) -> nat decreases q.len() { if q.len() == 0 { 0 } else { work(q.drop_last(), u) + room(u, q.last().auths@.len() as int) } }
pub proof fn lemma_work_first(q: Seq<Chain>, u: nat)
    requires q.len() > 0
    ensures work(q, u) == room(u, q[0].auths@.len() as int) + work(q.subrange(1, q.len() as int), u)
    decreases q.len()
{
    let r = q.subrange(1, q.len() as int);
    if q.len() > 1 { lemma_work_first(q.drop_last(), u); assert(r.drop_last() =~= q.drop_last().subrange(1, q.len() - 1)); assert(r.last() == q.last()); }
    else { assert(q.drop_last() =~= Seq::empty()); assert(r =~= Seq::empty()); }
}
pub proof fn lemma_work_ext(q1: Seq<Chain>, q: Seq<Chain>, u: nat, l: int)
    requires q1.is_prefix_of(q), forall|i: int| q1.len() <= i < q.len() ==> (#[trigger] q[i]).auths@.len() == l
    ensures work(q, u) == work(q1, u) + (q.len() - q1.len()) * room(u, l)
    decreases q.len()
{
    if q.len() == q1.len() { assert(q =~= q1); assert((q.len() - q1.len()) * room(u, l) == 0) by (nonlinear_arith) requires q.len() == q1.len(); }
    else {
        let r = q.drop_last(); assert(q1 =~= r.subrange(0, q1.len() as int));
        assert forall|i: int| q1.len() <= i < r.len() implies (#[trigger] r[i]).auths@.len() == l by { assert(q[i] == r[i]); }
        lemma_work_ext(q1, r, u, l); assert(q.last() == q[q.len() - 1]);
        let a = q.len() as int; let b = q1.len() as int; let c = room(u, l) as int;
        assert((a - b) * c == (a - 1 - b) * c + c) by (nonlinear_arith);
    }
}
/// a path visits every key at most twice
pub proof fn lemma_path_len(m: Rels, k: PublicKey, c: Seq<Auth>, u: Set<PublicKey>)
    requires valid_prefix(m, k, c), covers(u, m)
    ensures c.len() <= 2 * u.len()
{
    let e = Seq::new(((c.len() + 1) / 2) as nat, |i: int| c[2 * i].trust.issued_for);
    assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i < j implies e[i] != e[j] by {
        assert(c[2 * j].trust.issued_for == c[2 * j - 1].issued_by); assert(c[2 * j - 1].issued_by != c[2 * i].trust.issued_for);
    }
    assert(e.no_duplicates());
    assert forall|x: PublicKey| #[trigger] e.to_set().contains(x) implies u.contains(x) by { let i = choose|i: int| 0 <= i < e.len() && e[i] == x; assert(has_auth(m, c[2 * i])); }
    e.unique_seq_to_set();
    vstd::set_lib::lemma_len_subset(e.to_set(), u);
}
/// at most one authorization per issuer
pub proof fn lemma_fan(m: Rels, k: PublicKey, b: Seq<Auth>, u: Set<PublicKey>)
    requires auths_of(m, k, b), b.no_duplicates(), covers(u, m)
    ensures b.len() <= u.len()
{
    let e = Seq::new(b.len(), |i: int| b[i].issued_by);
    assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i < j implies e[i] != e[j] by { assert(b.contains(b[i]) && b.contains(b[j])); }
    assert(e.no_duplicates());
    assert forall|x: PublicKey| #[trigger] e.to_set().contains(x) implies u.contains(x) by { let i = choose|i: int| 0 <= i < e.len() && e[i] == x; assert(b.contains(b[i])); }
    e.unique_seq_to_set();
    vstd::set_lib::lemma_len_subset(e.to_set(), u);
}
/// every round leaves less work
pub proof fn lemma_less(m: Rels, k: PublicKey, q0: Seq<Chain>, q: Seq<Chain>, u: Set<PublicKey>)
    requires q0.len() > 0, covers(u, m), chain_wf(m, k, q0[0]),
        grown_by(m, q0[0].auths@, q0.subrange(1, q0.len() as int), q), forall|i: int| 0 <= i < q.len() ==> chain_wf(m, k, #[trigger] q[i])
    ensures work(q, u.len()) < work(q0, u.len())
{
    let p = q0[0].auths@; let n = u.len(); let l = p.len() as int; let q1 = q0.subrange(1, q0.len() as int);
    let b = choose|b: Seq<Auth>| auths_of(m, p.last().issued_by, b) && b.no_duplicates() && #[trigger] grown(p, q1, q, b, b.len() as int);
    lemma_work_first(q0, n); lemma_path_len(m, k, p, u); lemma_fan(m, p.last().issued_by, b, u);
    assert forall|i: int| q1.len() <= i < q.len() implies (#[trigger] q[i]).auths@.len() == l + 1 by { assert(ext_by(p, q[i].auths@, b, b.len() as int)); }
    lemma_work_ext(q1, q, n, l + 1);
    let e = q.len() - q1.len();
    lemma_pw(n + 1, (2 * n - l) as nat);
    if e > 0 { let c = q[q.len() - 1]; lemma_path_len(m, k, c.auths@, u);
        let w = room(n, l + 1); assert(room(n, l) == (n + 1) * w); lemma_pw(n + 1, (2 * n - l - 1) as nat);
        assert(e * w < (n + 1) * w) by (nonlinear_arith) requires e <= n, w > 0;
    } else { assert(e * room(n, l + 1) == 0) by (nonlinear_arith) requires e == 0; }
}
pub proof fn lemma_round(m: Rels, rs: ISet<PublicKey>, k: PublicKey, q0: Seq<Chain>, q: Seq<Chain>, t1: Seq<Vec<Auth>>, t: Seq<Vec<Auth>>)
    requires q0.len() > 0, chain_wf(m, k, q0[0]), all_extended(m, k, q0[0].auths@, q), q0.subrange(1, q0.len() as int).is_prefix_of(q),
        forall|c: Seq<Auth>| #[trigger] complete(m, rs, k, c) ==> found(t1, c) || queued(q0, c),
        t == t1 || (t.len() == t1.len() + 1 && t.drop_last() =~= t1),
        complete(m, rs, k, q0[0].auths@) ==> t.len() == t1.len() + 1 && t.last()@ == q0[0].auths@,
    ensures forall|c: Seq<Auth>| #[trigger] complete(m, rs, k, c) ==> found(t, c) || queued(q, c)
{
    let p = q0[0].auths@; let q1 = q0.subrange(1, q0.len() as int);
    assert forall|c: Seq<Auth>| #[trigger] complete(m, rs, k, c) implies found(t, c) || queued(q, c) by {
        if found(t1, c) { let i = choose|i: int| 0 <= i < t1.len() && (#[trigger] t1[i])@ == c; assert(t[i] == t1[i]); }
        else { let i = choose|i: int| 0 <= i < q0.len() && (#[trigger] q0[i]).auths@.is_prefix_of(c);
            if i > 0 { assert(q0[i] == q1[i - 1]); assert(q[i - 1] == q1[i - 1]); }
            else { lemma_step(m, k, p, c);
                if p == c { assert(t[t.len() - 1]@ == c); }
                else { let a = c[p.len() as int]; assert(has_auth(m, a)); assert(p.push(a)[p.len() - 1] == p.last()); assert(p.push(a).last() == a); assert(a.trust.issued_for == p.last().issued_by); assert(was_extended(m, k, p, q, a));
                    let qi = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).auths@.is_prefix_of(p.push(a)); assert(q[qi].auths@.is_prefix_of(c)); }
            } }
    }
}
// ---------------------------------------------------------------- certificates of a key
pub open spec fn cert_of(a: Seq<Auth>) -> Seq<Trust> { Seq::new(a.len(), |i: int| a[i].trust).reverse() }
pub open spec fn certs_are(cs: Seq<Certificate>, b: Seq<Vec<Auth>>, n: int) -> bool { cs.len() == n && forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).chain@ == cert_of(b[i]@) }
pub open spec fn trusts_are(ts: Seq<Trust>, b: Seq<Auth>, n: int) -> bool { ts.len() == n && forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]) == b[i].trust }
pub open spec fn rdom(roots: Roots) -> ISet<PublicKey> { roots.dom() }
#[verifier::opaque]
pub open spec fn is_cert(m: Rels, roots: Roots, pk: PublicKey, ch: Seq<Trust>) -> bool { exists|a: Seq<Auth>| #[trigger] complete(m, rdom(roots), pk, a) && ch == cert_of(a) }
/// cs lists the certificates of pk: only those, and all of them
pub open spec fn all_certs(m: Rels, roots: Roots, pk: PublicKey, cs: Seq<Certificate>) -> bool {
    &&& forall|i: int| 0 <= i < cs.len() ==> is_cert(m, roots, pk, (#[trigger] cs[i]).chain@)
    &&& forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) ==> exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).chain@ == ch
}
/// trust i of the certificate is stored as issued by the key before it (the root issues its own)
pub open spec fn link(m: Rels, ch: Seq<Trust>, i: int) -> bool { has_auth(m, Auth { trust: ch[i], issued_by: if i == 0 { ch[0].issued_for } else { ch[i - 1].issued_for } }) }
/// no chain is listed twice
pub open spec fn once(cs: Seq<Certificate>) -> bool { forall|i: int, j: int| #![trigger cs[i], cs[j]] 0 <= i < cs.len() && 0 <= j < cs.len() && i != j ==> cs[i].chain@ != cs[j].chain@ }
/// different paths are different certificates
pub proof fn lemma_cert_inj(m: Rels, rs: ISet<PublicKey>, pk: PublicKey, a: Seq<Auth>, b: Seq<Auth>)
    requires complete(m, rs, pk, a), complete(m, rs, pk, b), cert_of(a) == cert_of(b)
    ensures a == b
{
    let n = a.len() as int; assert(cert_of(a).len() == n && cert_of(b).len() == b.len());
    assert forall|i: int| 0 <= i < n implies (#[trigger] a[i]).trust == b[i].trust by { assert(cert_of(a)[n - 1 - i] == cert_of(b)[n - 1 - i]); assert(cert_of(a)[n - 1 - i] == a[i].trust); assert(cert_of(b)[n - 1 - i] == b[i].trust); }
    assert forall|i: int| 0 <= i < n implies #[trigger] a[i] == b[i] by { if i + 1 < n { assert(a[i + 1].trust == b[i + 1].trust); assert(a[i + 1].trust.issued_for == a[i].issued_by); assert(b[i + 1].trust.issued_for == b[i].issued_by); } }
    assert(a =~= b);
}
pub proof fn lemma_collect(m: Rels, roots: Roots, pk: PublicKey, b: Seq<Vec<Auth>>, cs: Seq<Certificate>)
    requires cs.len() == b.len(), forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).chain@ == cert_of(b[i]@),
        paths_sound(m, rdom(roots), pk, b), paths_all(m, rdom(roots), pk, b)
    ensures all_certs(m, roots, pk, cs), distinct(b) ==> once(cs)
{
    reveal(is_cert);
    if distinct(b) { assert forall|i: int, j: int| #![trigger cs[i], cs[j]] 0 <= i < cs.len() && 0 <= j < cs.len() && i != j implies cs[i].chain@ != cs[j].chain@ by { if cs[i].chain@ == cs[j].chain@ { lemma_cert_inj(m, rdom(roots), pk, b[i]@, b[j]@); } } }
    assert forall|i: int| 0 <= i < cs.len() implies is_cert(m, roots, pk, (#[trigger] cs[i]).chain@) by { assert(complete(m, rdom(roots), pk, b[i]@)); }
    assert forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) implies exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).chain@ == ch by {
        let a = choose|a: Seq<Auth>| #[trigger] complete(m, rdom(roots), pk, a) && ch == cert_of(a);
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == a; assert(cs[i].chain@ == ch);
    }
}
/// what being a certificate of the graph at time t means, in certificate order (root first) /*C06*/
pub proof fn lemma_cert_facts(m: Rels, roots: Roots, pk: PublicKey, t: Duration, ch: Seq<Trust>) /*C06*/
    requires rels_wf(m), in_range(t), is_cert(gc(m, t), roots, pk, ch)
    ensures
        ch.len() > 1, ch.last().issued_for == pk, roots.contains_key(ch[0].issued_for),
        forall|i: int| 0 <= i < ch.len() ==> #[trigger] link(m, ch, i),
        forall|i: int| 0 <= i < ch.len() ==> (#[trigger] ch[i]).expires_at.s > t.s,
        forall|i: int, j: int| #![trigger ch[i], ch[j]] 0 <= i < j - 1 && j < ch.len() ==> ch[i].issued_for != ch[j].issued_for,
        forall|i: int, j: int| #![trigger ch[i], ch[j]] 0 <= i < j < ch.len() && ch[i].issued_for != ch[j].issued_for ==> !revoked(m, ch[j].issued_for, ch[i].issued_for),
{
    let g = gc(m, t); lemma_gc(m, t); reveal(is_cert);
    let a = choose|a: Seq<Auth>| #[trigger] complete(g, rdom(roots), pk, a) && ch == cert_of(a);
    let n = a.len() as int;
    assert forall|i: int| 0 <= i < n implies (#[trigger] ch[i]) == a[n - 1 - i].trust by { }
    assert forall|i: int| 0 <= i < n implies #[trigger] link(m, ch, i) by {
        let x = a[n - 1 - i]; assert(has_auth(g, x));
        if i > 0 { let y = a[n - i]; assert(y.trust.issued_for == x.issued_by); assert(ch[i - 1] == y.trust); }
    }
    assert forall|i: int| 0 <= i < n implies (#[trigger] ch[i]).expires_at.s > t.s by { assert(has_auth(g, a[n - 1 - i])); }
    assert forall|i: int, j: int| #![trigger ch[i], ch[j]] 0 <= i < j - 1 && j < n implies ch[i].issued_for != ch[j].issued_for by {
        let p = n - 1 - j; let q = n - 1 - i; // p < q - 1
        assert(a[q].trust.issued_for == a[q - 1].issued_by); assert(a[q - 1].issued_by != a[p].trust.issued_for);
    }
    assert forall|i: int, j: int| #![trigger ch[i], ch[j]] 0 <= i < j < n && ch[i].issued_for != ch[j].issued_for implies !revoked(m, ch[j].issued_for, ch[i].issued_for) by {
        let p = n - 1 - j; let q = n - 1 - i; // p < q; key of q is the issuer of q - 1
        assert(a[q].trust.issued_for == a[q - 1].issued_by);
        if p < q - 1 { assert(!revoked(g, a[p].trust.issued_for, a[q - 1].issued_by)); }
        else {
            // a[q-1] = a[p] itself is an authorization of that pair, so the pair holds no revocation
            assert(has_auth(g, a[p])); assert(!revoked(g, a[p].trust.issued_for, a[p].issued_by));
        }
    }
}
/// every path satisfying the conditions of C06 is one of the listed certificates /*C07*/
pub proof fn lemma_path_listed(m: Rels, roots: Roots, pk: PublicKey, t: Duration, ch: Seq<Trust>, cs: Seq<Certificate>) /*C07*/
    requires rels_wf(m), in_range(t), all_certs(gc(m, t), roots, pk, cs),
        ch.len() > 1, ch.last().issued_for == pk, roots.contains_key(ch[0].issued_for),
        forall|i: int| 0 <= i < ch.len() ==> #[trigger] link(m, ch, i),
        forall|i: int| 0 <= i < ch.len() ==> (#[trigger] ch[i]).expires_at.s > t.s,
        forall|i: int, j: int| #![trigger ch[i], ch[j]] 0 <= i < j < ch.len() ==> ch[i].issued_for != ch[j].issued_for,
        forall|i: int, j: int| #![trigger ch[i], ch[j]] 0 <= i < j < ch.len() ==> !revoked(m, ch[j].issued_for, ch[i].issued_for),
    ensures exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).chain@ == ch
{
    let g = gc(m, t); lemma_gc(m, t); let n = ch.len() as int;
    let a = Seq::new(n as nat, |k: int| Auth { trust: ch[n - 1 - k], issued_by: if k == n - 1 { ch[0].issued_for } else { ch[n - 2 - k].issued_for } });
    assert forall|k: int| 0 <= k < n implies has_auth(g, #[trigger] a[k]) by {
        let i = n - 1 - k; assert(a[k].trust == ch[i]);
        assert(link(m, ch, i));
    }
    assert forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < n implies a[j].issued_by != a[i].trust.issued_for && !revoked(g, a[i].trust.issued_for, a[j].issued_by) && !revoked(g, a[i].issued_by, a[j].issued_by) by {
        let p = n - 1 - i; let q = n - 1 - j; // q < p
        let r = if q == 0 { 0int } else { q - 1 };
        assert(a[j].issued_by == ch[r].issued_for);
        assert(ch[r].issued_for != ch[p].issued_for);
        assert(!revoked(m, ch[p].issued_for, ch[r].issued_for));
        // issuer of i is the key at p - 1
        assert(a[i].issued_by == ch[p - 1].issued_for);
        if r < p - 1 { assert(!revoked(m, ch[p - 1].issued_for, ch[r].issued_for)); }
        else { // p - 1 == r == 0: the root's own self-signed trust occupies the pair
            assert(p == 1 && r == 0); assert(link(m, ch, 0));
        }
    }
    assert(a.last() == a[n - 1]);
    assert(complete(g, rdom(roots), pk, a));
    assert(cert_of(a) =~= ch);
    assert(is_cert(g, roots, pk, ch)) by { reveal(is_cert); }
}

// ---------------------------------------------------------------- weight
pub open spec fn p2(e: nat) -> nat decreases e { if e == 0 { 1 } else { 2 * p2((e - 1) as nat) } }
pub open spec fn wt(f: int) -> nat { if 0 <= f <= 16 { p2((16 - f) as nat) } else { 0 } }
pub broadcast proof fn lemma_shl_p2(e: u32)
    requires e <= 16,
    ensures #[trigger] (1u32 << e) == p2(e as nat)
    decreases e
{
    if e == 0 { assert(1u32 << 0u32 == 1u32) by (bit_vector); }
    else {
        let d = (e - 1) as u32;
        lemma_shl_p2(d);
        assert(1u32 << e == 2u32 * (1u32 << d)) by (bit_vector) requires 0 < e <= 16, d == sub(e, 1);
    }
}
pub broadcast proof fn lemma_shr1(x: u32)
    ensures #[trigger] (x >> 1) == x / 2
{
    assert(x >> 1 == x / 2) by (bit_vector);
}
pub proof fn lemma_p2(e: nat)
    ensures p2(e) == vstd::arithmetic::power::pow(2, e), e <= 16 ==> p2(e) <= 65536, p2(e) >= 1
    decreases e
{
    reveal(vstd::arithmetic::power::pow);
    if e > 0 { lemma_p2((e - 1) as nat); if e <= 16 { lemma_p2_le(e, 16); } }
    assert(p2(16) == 65536) by (compute);
}
pub proof fn lemma_p2_le(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b), a < b ==> p2(a) < p2(b), p2(a) >= 1 decreases b
{ if b == 0 { } else if a == b { if a > 0 { lemma_p2_le((a - 1) as nat, (a - 1) as nat); } } else { lemma_p2_le(a, (b - 1) as nat); if a > 0 { lemma_p2_le((a - 1) as nat, (a - 1) as nat); } } }
pub proof fn lemma_wt(a: int, b: int) requires 0 <= a <= b ensures wt(a) >= wt(b), wt(a) <= 65536
{ lemma_p2(16); if b <= 16 { lemma_p2_le((16 - b) as nat, (16 - a) as nat); } if a <= 16 { lemma_p2_le((16 - a) as nat, 16); } }
/// number of steps from the configured limit
pub open spec fn factor(roots: Roots, ch: Seq<Trust>) -> int { roots[ch[0].issued_for] + ch.len() - 1 }
pub open spec fn roots_ok(roots: Roots) -> bool { forall|k: PublicKey| #[trigger] roots.contains_key(k) ==> roots[k] <= 16 }
pub open spec fn is_weight(m: Rels, roots: Roots, pk: PublicKey, w: u32) -> bool {
    &&& roots.contains_key(pk) ==> w >= wt(roots[pk] as int)
    &&& forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) ==> w >= wt(factor(roots, ch))
    &&& w == 0 || (roots.contains_key(pk) && w == wt(roots[pk] as int)) || exists|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) && w == wt(factor(roots, ch))
}
pub open spec fn is_weight_from(m: Rels, roots: Roots, pk: PublicKey, by: PublicKey, w: u32) -> bool {
    &&& forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) && holds(ch, by) ==> w >= wt(factor(roots, ch))
    &&& w == 0 || exists|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) && holds(ch, by) && w == wt(factor(roots, ch))
}
pub open spec fn weight_of(m: Rels, roots: Roots, pk: PublicKey) -> u32 { choose|w: u32| is_weight(m, roots, pk, w) }
/// the weight is determined by the graph
pub proof fn lemma_weight(m: Rels, roots: Roots, pk: PublicKey, w: u32) /*C08*/
    requires is_weight(m, roots, pk, w) ensures weight_of(m, roots, pk) == w
{ let v = weight_of(m, roots, pk); assert(is_weight(m, roots, pk, v)); assert(v <= w && w <= v); }
/// the smallest factor among the certificates (or among those satisfying the filter)
pub open spec fn min_factor(roots: Roots, cs: Seq<Seq<Trust>>, f: u32) -> bool {
    (forall|i: int| 0 <= i < cs.len() ==> f <= factor(roots, #[trigger] cs[i])) && (exists|i: int| 0 <= i < cs.len() && f == factor(roots, #[trigger] cs[i]))
}
pub proof fn lemma_is_cert(m: Rels, roots: Roots, pk: PublicKey, ch: Seq<Trust>)
    requires is_cert(m, roots, pk, ch)
    ensures ch.len() > 1, roots.contains_key(ch[0].issued_for)
{ reveal(is_cert); let a = choose|a: Seq<Auth>| #[trigger] complete(m, rdom(roots), pk, a) && ch == cert_of(a); assert(ch[0] == a.last().trust); }
pub open spec fn chains(cs: Seq<Certificate>) -> Seq<Seq<Trust>> { Seq::new(cs.len(), |i: int| cs[i].chain@) }
/// o is the smallest factor of the listed chains, None when there is none
pub open spec fn best_of(roots: Roots, ks: Seq<Seq<Trust>>, o: Option<u32>) -> bool { (o is None <==> ks.len() == 0) && (o is Some ==> min_factor(roots, ks, o->0)) }
pub open spec fn rooted(roots: Roots, ks: Seq<Seq<Trust>>) -> bool { forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).len() > 0 && roots.contains_key(ks[i][0].issued_for) }
/// o is the smallest factor of all certificates of the key
pub open spec fn best(m: Rels, roots: Roots, pk: PublicKey, o: Option<u32>) -> bool {
    &&& o is None ==> forall|ch: Seq<Trust>| !#[trigger] is_cert(m, roots, pk, ch)
    &&& o is Some ==> (forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) ==> o->0 <= factor(roots, ch)) && (exists|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) && o->0 == factor(roots, ch))
}
pub open spec fn best_from(m: Rels, roots: Roots, pk: PublicKey, by: PublicKey, o: Option<u32>) -> bool {
    &&& o is None ==> forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) ==> !holds(ch, by)
    &&& o is Some ==> (forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) && holds(ch, by) ==> o->0 <= factor(roots, ch)) && (exists|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) && holds(ch, by) && o->0 == factor(roots, ch))
}
pub broadcast proof fn lemma_rooted(m: Rels, roots: Roots, pk: PublicKey, cs: Seq<Certificate>, ks: Seq<Seq<Trust>>)
    ensures #![trigger all_certs(m, roots, pk, cs), rooted(roots, ks)] all_certs(m, roots, pk, cs) && ks =~= chains(cs) ==> rooted(roots, ks)
{ if all_certs(m, roots, pk, cs) && ks =~= chains(cs) { assert forall|i: int| 0 <= i < ks.len() implies (#[trigger] ks[i]).len() > 0 && roots.contains_key(ks[i][0].issued_for) by { assert(is_cert(m, roots, pk, cs[i].chain@)); lemma_is_cert(m, roots, pk, ks[i]); } } }
pub broadcast proof fn lemma_rooted_from(m: Rels, roots: Roots, pk: PublicKey, by: PublicKey, cs: Seq<Certificate>, ks: Seq<Seq<Trust>>)
    ensures #![trigger certs_from(m, roots, pk, by, cs), rooted(roots, ks)] certs_from(m, roots, pk, by, cs) && ks =~= chains(cs) ==> rooted(roots, ks)
{ if certs_from(m, roots, pk, by, cs) && ks =~= chains(cs) { lemma_certs_from(m, roots, pk, by, cs); assert forall|i: int| 0 <= i < ks.len() implies (#[trigger] ks[i]).len() > 0 && roots.contains_key(ks[i][0].issued_for) by { assert(is_cert(m, roots, pk, cs[i].chain@)); lemma_is_cert(m, roots, pk, ks[i]); } } }
pub broadcast proof fn lemma_best(m: Rels, roots: Roots, pk: PublicKey, cs: Seq<Certificate>, ks: Seq<Seq<Trust>>, o: Option<u32>)
    ensures #![trigger all_certs(m, roots, pk, cs), best_of(roots, ks, o)] all_certs(m, roots, pk, cs) && ks =~= chains(cs) && best_of(roots, ks, o) ==> best(m, roots, pk, o)
{
    if all_certs(m, roots, pk, cs) && ks =~= chains(cs) && best_of(roots, ks, o) {
        assert forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) implies o is Some && o->0 <= factor(roots, ch) by {
            let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).chain@ == ch; assert(ks[i] == ch);
        }
        if o is Some { let i = choose|i: int| 0 <= i < ks.len() && o->0 == factor(roots, #[trigger] ks[i]); assert(is_cert(m, roots, pk, cs[i].chain@)); assert(ks[i] == cs[i].chain@); }
    }
}
pub broadcast proof fn lemma_best_from(m: Rels, roots: Roots, pk: PublicKey, by: PublicKey, cs: Seq<Certificate>, ks: Seq<Seq<Trust>>, o: Option<u32>)
    ensures #![trigger certs_from(m, roots, pk, by, cs), best_of(roots, ks, o)] certs_from(m, roots, pk, by, cs) && ks =~= chains(cs) && best_of(roots, ks, o) ==> best_from(m, roots, pk, by, o)
{
    if certs_from(m, roots, pk, by, cs) && ks =~= chains(cs) && best_of(roots, ks, o) {
        lemma_certs_from(m, roots, pk, by, cs);
        assert forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) && holds(ch, by) implies o is Some && o->0 <= factor(roots, ch) by {
            let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).chain@ == ch; assert(ks[i] == ch);
        }
        if o is Some { let i = choose|i: int| 0 <= i < ks.len() && o->0 == factor(roots, #[trigger] ks[i]); assert(is_cert(m, roots, pk, cs[i].chain@) && holds(cs[i].chain@, by)); assert(ks[i] == cs[i].chain@); }
    }
}
/// own root weight and best certificate together are the weight
pub open spec fn weight_val(roots: Roots, pk: PublicKey, o: Option<u32>) -> nat {
    let a = if roots.contains_key(pk) { wt(roots[pk] as int) } else { 0 }; let b = if o is Some { wt(o->0 as int) } else { 0 }; if a <= b { b } else { a }
}
pub broadcast proof fn lemma_is_weight(m: Rels, roots: Roots, pk: PublicKey, o: Option<u32>, w: u32)
    ensures #![trigger best(m, roots, pk, o), is_weight(m, roots, pk, w)] roots_ok(roots) && best(m, roots, pk, o) && w == weight_val(roots, pk, o) ==> is_weight(m, roots, pk, w) && weight_of(m, roots, pk) == w
{
    if roots_ok(roots) && best(m, roots, pk, o) && w == weight_val(roots, pk, o) {
        assert forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) implies w >= wt(factor(roots, ch)) by { lemma_wt(o->0 as int, factor(roots, ch)); }
        assert(is_weight(m, roots, pk, w));
        lemma_weight(m, roots, pk, w);
    }
}
pub broadcast proof fn lemma_weight_eq(m: Rels, roots: Roots, pk: PublicKey, o: Option<u32>)
    ensures #![trigger best(m, roots, pk, o), weight_of(m, roots, pk)] roots_ok(roots) && best(m, roots, pk, o) ==> weight_of(m, roots, pk) == weight_val(roots, pk, o)
{ if o is Some { lemma_wt(o->0 as int, o->0 as int); } if roots.contains_key(pk) { lemma_wt(roots[pk] as int, roots[pk] as int); } lemma_is_weight(m, roots, pk, o, weight_val(roots, pk, o) as u32); }
pub broadcast proof fn lemma_is_weight_from(m: Rels, roots: Roots, pk: PublicKey, by: PublicKey, o: Option<u32>, w: u32)
    ensures #![trigger best_from(m, roots, pk, by, o), is_weight_from(m, roots, pk, by, w)] best_from(m, roots, pk, by, o) && w == (if o is Some { wt(o->0 as int) } else { 0 }) ==> is_weight_from(m, roots, pk, by, w)
{
    if best_from(m, roots, pk, by, o) && w == (if o is Some { wt(o->0 as int) } else { 0 }) {
        assert forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) && holds(ch, by) implies w >= wt(factor(roots, ch)) by { lemma_wt(o->0 as int, factor(roots, ch)); }
    }
}
/// cs is the list of all certificates (in some order), filtered by the issuer
pub open spec fn certs_from(m: Rels, roots: Roots, pk: PublicKey, by: PublicKey, cs: Seq<Certificate>) -> bool {
    exists|all: Seq<Certificate>| #[trigger] all_certs(m, roots, pk, all) && once(all) && cs == all.filter(by_issuer(by))
}
pub open spec fn by_issuer(by: PublicKey) -> spec_fn(Certificate) -> bool { |c: Certificate| holds(c.chain@, by) }
pub proof fn lemma_filter<A>(s: Seq<A>, p: spec_fn(A) -> bool)
    ensures forall|x: A| #[trigger] s.filter(p).contains(x) <==> s.contains(x) && p(x),
        forall|i: int| 0 <= i < s.filter(p).len() ==> s.contains(#[trigger] s.filter(p)[i]) && p(s.filter(p)[i])
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last(); lemma_filter(d, p);
        assert(d.push(s.last()) =~= s);
        assert forall|x: A| #[trigger] s.filter(p).contains(x) <==> s.contains(x) && p(x) by {
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < d.len() { assert(d[i] == x); assert(d.contains(x)); } 
                if p(x) { assert(s.filter(p).contains(x)) by {
                    if i < d.len() { assert(d.filter(p).contains(x)); let j = choose|j: int| 0 <= j < d.filter(p).len() && d.filter(p)[j] == x; assert(s.filter(p)[j] == x); }
                    else { assert(s.filter(p).last() == x); }
                } }
            }
            if s.filter(p).contains(x) { let j = choose|j: int| 0 <= j < s.filter(p).len() && s.filter(p)[j] == x;
                if j < d.filter(p).len() { assert(d.filter(p)[j] == x); assert(d.filter(p).contains(x)); assert(d.contains(x)); let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); } else { assert(s[s.len() - 1] == x); } }
        }
        assert forall|i: int| 0 <= i < s.filter(p).len() implies s.contains(#[trigger] s.filter(p)[i]) && p(s.filter(p)[i]) by { assert(s.filter(p).contains(s.filter(p)[i])); }
    }
}
pub proof fn lemma_filter_step<A>(s: Seq<A>, p: spec_fn(A) -> bool, k: int)
    requires 0 <= k < s.len()
    ensures s.take(k + 1).filter(p) == (if p(s[k]) { s.take(k).filter(p).push(s[k]) } else { s.take(k).filter(p) })
{ reveal(Seq::filter); assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn lemma_certs_from(m: Rels, roots: Roots, pk: PublicKey, by: PublicKey, cs: Seq<Certificate>)
    requires certs_from(m, roots, pk, by, cs)
    ensures forall|i: int| 0 <= i < cs.len() ==> is_cert(m, roots, pk, (#[trigger] cs[i]).chain@) && holds(cs[i].chain@, by),
        forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) && holds(ch, by) ==> exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).chain@ == ch
{
    let p = by_issuer(by);
    let all = choose|all: Seq<Certificate>| #[trigger] all_certs(m, roots, pk, all) && cs == all.filter(p);
    lemma_filter(all, p);
    assert forall|i: int| 0 <= i < cs.len() implies is_cert(m, roots, pk, (#[trigger] cs[i]).chain@) && holds(cs[i].chain@, by) by {
        let c = cs[i]; assert(all.contains(c) && p(c)); let j = choose|j: int| 0 <= j < all.len() && all[j] == c; assert(is_cert(m, roots, pk, all[j].chain@));
    }
    assert forall|ch: Seq<Trust>| #[trigger] is_cert(m, roots, pk, ch) && holds(ch, by) implies exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).chain@ == ch by {
        let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).chain@ == ch;
        let c = all[i]; assert(p(c)); assert(all.contains(c)); assert(cs.contains(c));
        let j = choose|j: int| 0 <= j < cs.len() && cs[j] == c; assert(cs[j].chain@ == ch);
    }
}
// ---------------------------------------------------------------- adding
pub open spec fn next_weight(m: Rels, roots: Roots, by: PublicKey, f: PublicKey) -> u32 { if by == f { weight_of(m, roots, by) } else { weight_of(m, roots, by) / 2 } }
/// the relations after adding one verified trust
#[verifier::opaque]
pub open spec fn add1(m: Rels, roots: Roots, t: Trust, by: PublicKey, cur: Duration) -> Rels {
    let g = gc(m, cur);
    if next_weight(g, roots, by, t.issued_for) == 0 { g } else { upd(g, TrustRelation::Auth(Auth { trust: t, issued_by: by })) }
}
pub open spec fn giver(c: Seq<Trust>, i: int) -> PublicKey { if i == 0 { c[0].issued_for } else { c[i - 1].issued_for } }
/// the i-th trust is a valid statement of the one before it (the first: of its own subject)
pub open spec fn given_ok(c: Seq<Trust>, i: int, cur: Duration) -> bool { trust_ok(c[i], giver(c, i), cur) }
/// the relations after adding the first k trusts of a certificate
pub open spec fn addn(m: Rels, roots: Roots, c: Seq<Trust>, k: int, cur: Duration) -> Rels decreases k {
    if k <= 0 { m } else { add1(addn(m, roots, c, k - 1, cur), roots, c[k - 1], giver(c, k - 1), cur) }
}
}
