// How the SQLite tables represent the stored relations and roots.
use vstd::prelude::*;
use crate::vx::{Duration, secs, dur_lt};
use crate::spec::*;
use crate::graph::*;
pub use crate::sqlgen::*;
use crate::ext::marine_sqlite_connector::*;
pub use crate::ext::marine_sqlite_connector::{vals, val, selects, pos_of, step, run, nulls, StV, Step, Db, Row, V};
use crate::ext::bs58::{b58, b58dec, axiom_b58};
use crate::fluence_keypair::public_key::PublicKey;
use crate::fluence_keypair::signature::Signature;
use crate::trust_graph::trust::Trust;
use crate::trust_graph::revoke::Revocation;
use crate::trust_graph::trust_relation::{Auth, TrustRelation};
use crate::trust_graph::public_key_hashable::PublicKeyHashable as PK;
verus! {
/// two's complement: seconds survive the trip through a signed 64-bit column, and beyond i64::MAX they are negative there
pub proof fn lemma_cast(x: u64)
    ensures (x as i64) as u64 == x, x <= i64::MAX ==> (x as i64) as int == x as int, x > i64::MAX ==> (x as i64) < 0
{
    assert((x as i64) as u64 == x) by (bit_vector);
    assert(x <= 0x7fff_ffff_ffff_ffffu64 ==> (x as i64) >= 0) by (bit_vector);
    assert(x > 0x7fff_ffff_ffff_ffffu64 ==> (x as i64) < 0) by (bit_vector);
}
pub open spec fn pks(k: PublicKey) -> Seq<char> { b58(pk_enc(k)) }
pub proof fn lemma_pks(a: PublicKey, b: PublicKey) requires pks(a) == pks(b) ensures a == b { axiom_b58(pk_enc(a)); axiom_b58(pk_enc(b)); lemma_pk_enc_inj(a, b); }
pub open spec fn typ(x: TrustRelation) -> i64 { if x is Auth { 0 } else { 1 } }
pub open spec fn rel_row(x: TrustRelation) -> Row { seq![V::I(typ(x)), V::S(pks(rel_for(x))), V::S(pks(rel_by(x))), V::I(rel_at(x).s as i64), V::I(rel_exp(x).s as i64), V::B(sig_enc(rel_sig(x)))] }
pub open spec fn root_row(k: PublicKey, w: u32) -> Row { seq![V::S(pks(k)), V::I(w as i64)] }
pub open spec fn whole(x: TrustRelation) -> bool { rsec(x) == x }
pub proof fn lemma_rel_row(x: TrustRelation, y: TrustRelation)
    requires rel_row(x) == rel_row(y), whole(x), whole(y)
    ensures x == y
{
    let a = rel_row(x); let b = rel_row(y);
    assert(a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4] && a[5] == b[5]);
    lemma_pks(rel_for(x), rel_for(y)); lemma_pks(rel_by(x), rel_by(y)); lemma_sig_enc_inj(rel_sig(x), rel_sig(y));
    lemma_cast(rel_at(x).s); lemma_cast(rel_at(y).s); lemma_cast(rel_exp(x).s); lemma_cast(rel_exp(y).s);
}
pub broadcast proof fn lemma_row_sec(x: TrustRelation)
    ensures #![trigger rel_row(x)] rel_row(rsec(x)) == rel_row(x), whole(rsec(x)), rel_row(x).len() == 6
{ }
pub open spec fn stored(d: Db, x: TrustRelation) -> bool { whole(x) && d.t0.contains(rel_row(x)) }
pub open spec fn row_ok(r: Row) -> bool { exists|x: TrustRelation| whole(x) && #[trigger] rel_row(x) == r }
pub open spec fn root_ok(r: Row) -> bool { exists|k: PublicKey, w: u32| #[trigger] root_row(k, w) == r }
#[verifier::opaque]
pub open spec fn db_inv(d: Db) -> bool {
    &&& forall|r: Row| #[trigger] d.t0.contains(r) ==> row_ok(r)
    &&& forall|x: TrustRelation, y: TrustRelation| #![trigger rel_row(x), rel_row(y)] stored(d, x) && stored(d, y) && rel_key(x) == rel_key(y) ==> x == y
    &&& forall|r: Row| #[trigger] d.t1.contains(r) ==> root_ok(r)
    &&& forall|k: PublicKey, w: u32, v: u32| #![trigger root_row(k, w), root_row(k, v)] d.t1.contains(root_row(k, w)) && d.t1.contains(root_row(k, v)) ==> w == v
}
pub open spec fn has_key(d: Db, k: (PublicKey, PublicKey)) -> bool { exists|x: TrustRelation| #[trigger] stored(d, x) && rel_key(x) == k }
pub open spec fn has_root(d: Db, k: PublicKey) -> bool { exists|w: u32| d.t1.contains(#[trigger] root_row(k, w)) }
#[verifier::opaque]
pub open spec fn rels_of(d: Db) -> Rels { IMap::new(|k: (PublicKey, PublicKey)| has_key(d, k), |k: (PublicKey, PublicKey)| choose|x: TrustRelation| #[trigger] stored(d, x) && rel_key(x) == k) }
#[verifier::opaque]
pub open spec fn roots_of(d: Db) -> Roots { IMap::new(|k: PublicKey| has_root(d, k), |k: PublicKey| choose|w: u32| d.t1.contains(#[trigger] root_row(k, w))) }
pub broadcast proof fn lemma_rels(d: Db, k: (PublicKey, PublicKey))
    ensures #![trigger rels_of(d).contains_key(k)] rels_of(d).contains_key(k) <==> has_key(d, k), rels_of(d).contains_key(k) ==> stored(d, rels_of(d)[k]) && rel_key(rels_of(d)[k]) == k
{ reveal(rels_of); }
pub broadcast proof fn lemma_stored(d: Db, x: TrustRelation)
    ensures #![trigger stored(d, x)] db_inv(d) && stored(d, x) ==> rels_of(d).contains_key(rel_key(x)) && rels_of(d)[rel_key(x)] == x
{ reveal(db_inv); if db_inv(d) && stored(d, x) { lemma_rels(d, rel_key(x)); let y = rels_of(d)[rel_key(x)]; assert(stored(d, y)); let a = rel_row(x); let b = rel_row(y); assert(x == y); } }
pub proof fn lemma_rels_wf(d: Db)
    ensures rels_wf(rels_of(d))
{ assert forall|k: (PublicKey, PublicKey)| #[trigger] rels_of(d).contains_key(k) implies rel_for(rels_of(d)[k]) == k.0 && rel_by(rels_of(d)[k]) == k.1 by { lemma_rels(d, k); } }
/// finitely many rows: finitely many relations
pub proof fn lemma_fin(d: Db)
    ensures fin(rels_of(d))
{
    let g = |r: Row| choose|x: TrustRelation| whole(x) && #[trigger] rel_row(x) == r;
    let u = d.t0.map(|r: Row| rel_for(g(r))).union(d.t0.map(|r: Row| rel_by(g(r))));
    assert forall|k: (PublicKey, PublicKey)| #[trigger] rels_of(d).contains_key(k) implies u.contains(k.0) && u.contains(k.1) by {
        lemma_rels(d, k); let x = rels_of(d)[k]; let r = rel_row(x); let y = g(r); lemma_rel_row(x, y);
        assert(d.t0.contains(r));
        assert(d.t0.map(|r: Row| rel_for(g(r))).contains(rel_for(g(r)))); assert(d.t0.map(|r: Row| rel_by(g(r))).contains(rel_by(g(r))));
    }
    assert(covers(u, rels_of(d)));
}
pub broadcast proof fn lemma_roots(d: Db, k: PublicKey)
    ensures #![trigger roots_of(d).contains_key(k)] roots_of(d).contains_key(k) <==> has_root(d, k), roots_of(d).contains_key(k) ==> d.t1.contains(root_row(k, roots_of(d)[k]))
{ reveal(roots_of); }
pub broadcast proof fn lemma_root(d: Db, k: PublicKey, w: u32)
    ensures #![trigger d.t1.contains(root_row(k, w))] db_inv(d) && d.t1.contains(root_row(k, w)) ==> roots_of(d).contains_key(k) && roots_of(d)[k] == w
{ reveal(db_inv); if db_inv(d) && d.t1.contains(root_row(k, w)) { lemma_roots(d, k); assert(has_root(d, k)); let v = roots_of(d)[k]; assert(d.t1.contains(root_row(k, v))); } }
/// two databases holding the same relations
pub proof fn lemma_rels_ext(a: Db, m: Rels)
    requires db_inv(a), rels_wf(m), forall|x: TrustRelation| #[trigger] stored(a, x) <==> m.contains_key(rel_key(x)) && m[rel_key(x)] == x
    ensures rels_of(a) == m
{
    assert forall|k: (PublicKey, PublicKey)| #[trigger] rels_of(a).contains_key(k) <==> m.contains_key(k) by {
        lemma_rels(a, k);
        if m.contains_key(k) { let x = m[k]; assert(rel_key(x) == k); assert(stored(a, x)); }
    }
    assert forall|k: (PublicKey, PublicKey)| rels_of(a).contains_key(k) implies #[trigger] rels_of(a)[k] == m[k] by { lemma_rels(a, k); }
    assert(rels_of(a) =~= m);
}
pub open spec fn ins_rel(id: int, p: Seq<V>, x: TrustRelation) -> bool { sql_kind(id) == 3 && sql_table(id) == 0 && sql_ins(id, p) =~= rel_row(x) }
/// the effect of inserting the row of a relation
pub broadcast proof fn lemma_insert(d: Db, id: int, p: Seq<V>, x: TrustRelation)
    ensures #![trigger run(d, id, p), rel_row(x)] db_inv(d) && ins_rel(id, p, x) ==> db_inv(run(d, id, p)) && rels_of(run(d, id, p)) == rels_of(d).insert(rel_key(x), rsec(x)) && roots_of(run(d, id, p)) == roots_of(d)
{
    if db_inv(d) && ins_rel(id, p, x) {
        reveal(db_inv);
        let e = run(d, id, p); let r = rel_row(x); lemma_row_sec(x); let xs = rsec(x);
        assert(schema_pk(0) =~= seq![1int, 2int]);
        assert(e.t1 == d.t1);
        assert forall|y: TrustRelation| #[trigger] stored(e, y) <==> (if rel_key(y) == rel_key(x) { y == xs } else { stored(d, y) }) by {
            let b = rel_row(y);
            assert(same_key(0, b, r) <==> rel_key(y) == rel_key(x)) by {
                assert(schema_pk(0)[0] == 1 && schema_pk(0)[1] == 2);
                if same_key(0, b, r) { assert(b[1] == r[1] && b[2] == r[2]); lemma_pks(rel_for(y), rel_for(x)); lemma_pks(rel_by(y), rel_by(x)); }
            }
            if whole(y) && b == r { lemma_rel_row(y, xs); }
        }
        assert forall|q: Row| #[trigger] e.t0.contains(q) implies row_ok(q) by { if q == r { assert(rel_row(xs) == q); } else { assert(d.t0.contains(q)); } }
        assert forall|a: TrustRelation, b: TrustRelation| #![trigger rel_row(a), rel_row(b)] stored(e, a) && stored(e, b) && rel_key(a) == rel_key(b) implies a == b by { }
        assert(db_inv(e));
        lemma_rels_wf(d);
        let m = rels_of(d).insert(rel_key(x), xs);
        assert forall|y: TrustRelation| #[trigger] stored(e, y) <==> m.contains_key(rel_key(y)) && m[rel_key(y)] == y by { lemma_stored(d, y); if rel_key(y) != rel_key(x) { lemma_rels(d, rel_key(y)); } }
        assert(rels_wf(m));
        lemma_rels_ext(e, m);
        assert(roots_of(e) == roots_of(d)) by { reveal(roots_of); assert forall|k: PublicKey| has_root(e, k) == has_root(d, k) by { } assert(roots_of(e) =~= roots_of(d)); }
    }
}
pub open spec fn ins_root(id: int, p: Seq<V>, k: PublicKey, w: u32) -> bool { sql_kind(id) == 3 && sql_table(id) == 1 && sql_ins(id, p) =~= root_row(k, w) }
pub broadcast proof fn lemma_insert_root(d: Db, id: int, p: Seq<V>, k: PublicKey, w: u32)
    ensures #![trigger run(d, id, p), root_row(k, w)] db_inv(d) && ins_root(id, p, k, w) ==> db_inv(run(d, id, p)) && roots_of(run(d, id, p)) == roots_of(d).insert(k, w) && rels_of(run(d, id, p)) == rels_of(d)
{
    if db_inv(d) && ins_root(id, p, k, w) {
        reveal(db_inv);
        let e = run(d, id, p); let r = root_row(k, w);
        assert(schema_pk(1) =~= seq![0int]); assert(e.t0 == d.t0);
        assert forall|j: PublicKey, v: u32| e.t1.contains(#[trigger] root_row(j, v)) <==> (if j == k { v == w } else { d.t1.contains(root_row(j, v)) }) by {
            let b = root_row(j, v);
            assert(same_key(1, b, r) <==> j == k) by { assert(schema_pk(1)[0] == 0); if same_key(1, b, r) { assert(b[0] == r[0]); lemma_pks(j, k); } }
            if b == r { assert(b[0] == r[0] && b[1] == r[1]); lemma_pks(j, k); }
        }
        assert forall|q: Row| #[trigger] e.t1.contains(q) implies root_ok(q) by { if q == r { } else { assert(d.t1.contains(q)); } }
        assert forall|x: TrustRelation| #[trigger] stored(e, x) == stored(d, x) by { }
        assert(db_inv(e));
        let m = roots_of(d).insert(k, w);
        assert forall|j: PublicKey| #[trigger] roots_of(e).contains_key(j) <==> m.contains_key(j) by {
            lemma_roots(e, j); lemma_roots(d, j);
            if has_root(e, j) { let v = choose|v: u32| e.t1.contains(#[trigger] root_row(j, v)); if j != k { assert(d.t1.contains(root_row(j, v))); } }
            if j == k { assert(e.t1.contains(root_row(k, w))); } else if has_root(d, j) { let v = choose|v: u32| d.t1.contains(#[trigger] root_row(j, v)); assert(e.t1.contains(root_row(j, v))); }
        }
        assert forall|j: PublicKey| roots_of(e).contains_key(j) implies #[trigger] roots_of(e)[j] == m[j] by {
            lemma_roots(e, j); lemma_roots(d, j); if j != k { lemma_root(d, j, roots_of(e)[j]); }
        }
        assert(roots_of(e) =~= m);
        assert(rels_of(e) == rels_of(d)) by { reveal(rels_of); assert forall|q: (PublicKey, PublicKey)| has_key(e, q) == has_key(d, q) by {
            if has_key(d, q) { let x = choose|x: TrustRelation| #[trigger] stored(d, x) && rel_key(x) == q; assert(stored(e, x)); }
            if has_key(e, q) { let x = choose|x: TrustRelation| #[trigger] stored(e, x) && rel_key(x) == q; assert(stored(d, x)); } }
            lemma_rels_wf(d); assert forall|y: TrustRelation| #[trigger] stored(e, y) <==> rels_of(d).contains_key(rel_key(y)) && rels_of(d)[rel_key(y)] == y by { assert(stored(e, y) == stored(d, y)); lemma_stored(d, y); lemma_rels(d, rel_key(y)); }
            lemma_rels_ext(e, rels_of(d)); }
    }
}
/// the statement deletes exactly the expired authorizations at time t
pub open spec fn del_expired(id: int, p: Seq<V>, t: Duration) -> bool {
    sql_kind(id) == 4 && sql_table(id) == 0 && forall|x: TrustRelation| whole(x) ==> (#[trigger] sql_where(id, rel_row(x), p) <==> expired(x, t))
}
pub broadcast proof fn lemma_delete(d: Db, id: int, p: Seq<V>, t: Duration)
    ensures #![trigger run(d, id, p), del_expired(id, p, t)] db_inv(d) && del_expired(id, p, t) ==> db_inv(run(d, id, p)) && rels_of(run(d, id, p)) == gc(rels_of(d), t) && roots_of(run(d, id, p)) == roots_of(d)
{
    if db_inv(d) && del_expired(id, p, t) {
        reveal(db_inv);
        let e = run(d, id, p); assert(e.t1 == d.t1);
        assert forall|x: TrustRelation| #[trigger] stored(e, x) <==> stored(d, x) && !expired(x, t) by { if whole(x) { assert(sql_where(id, rel_row(x), p) <==> expired(x, t)); } }
        assert forall|q: Row| #[trigger] e.t0.contains(q) implies row_ok(q) by { assert(d.t0.contains(q)); }
        assert forall|a: TrustRelation, b: TrustRelation| #![trigger rel_row(a), rel_row(b)] stored(e, a) && stored(e, b) && rel_key(a) == rel_key(b) implies a == b by { assert(stored(d, a) && stored(d, b)); }
        assert(db_inv(e));
        lemma_rels_wf(d); lemma_gc(rels_of(d), t);
        let m = gc(rels_of(d), t);
        assert forall|y: TrustRelation| #[trigger] stored(e, y) <==> m.contains_key(rel_key(y)) && m[rel_key(y)] == y by { lemma_stored(d, y); lemma_rels(d, rel_key(y)); }
        lemma_rels_ext(e, m);
        assert(roots_of(e) == roots_of(d)) by { reveal(roots_of); assert(roots_of(e) =~= roots_of(d)); }
    }
}
/// what the WHERE clause of the deletion has to say
pub proof fn lemma_expired_row(x: TrustRelation, t: Duration)
    requires whole(x)
    ensures expired(x, t) <==> (rel_row(x)[0] == V::I(0) && v_le(V::I(0), rel_row(x)[4]) && v_le(rel_row(x)[4], V::I(t.s as i64)))
{ lemma_cast(t.s); lemma_cast(rel_exp(x).s); }

// ---------------------------------------------------------------- reading rows
pub open spec fn row_facts(x: TrustRelation, row: Seq<Value>) -> bool {
    &&& row.len() == 6 && val(row[0]) == V::I(typ(x)) && val(row[1]) == V::S(pks(rel_for(x))) && val(row[2]) == V::S(pks(rel_by(x)))
    &&& val(row[3]) == V::I(rel_at(x).s as i64) && val(row[4]) == V::I(rel_exp(x).s as i64) && val(row[5]) == V::B(sig_enc(rel_sig(x)))
    &&& b58dec(pks(rel_for(x))) == Some(pk_enc(rel_for(x))) && b58dec(pks(rel_by(x))) == Some(pk_enc(rel_by(x))) && pk_bytes_ok(pk_enc(rel_for(x))) && pk_bytes_ok(pk_enc(rel_by(x))) && sig_bytes_ok(sig_enc(rel_sig(x)))
    &&& (rel_at(x).s as i64) as u64 == rel_at(x).s && (rel_exp(x).s as i64) as u64 == rel_exp(x).s
}
pub proof fn lemma_row_facts(x: TrustRelation, row: Seq<Value>)
    requires rel_row(x) == vals(row)
    ensures row_facts(x, row)
{
    let a = rel_row(x); assert(a.len() == 6); let b = vals(row); assert(a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4] && a[5] == b[5]);
    axiom_b58(pk_enc(rel_for(x))); axiom_b58(pk_enc(rel_by(x))); lemma_pk_enc(rel_for(x)); lemma_pk_enc(rel_by(x)); lemma_sig_enc(rel_sig(x)); lemma_cast(rel_at(x).s); lemma_cast(rel_exp(x).s);
}
/// a relation with the same type, keys, seconds and signature as the row's
pub proof fn lemma_parsed(x: TrustRelation, y: TrustRelation, row: Seq<Value>)
    requires whole(x), row_facts(x, row), (x is Auth <==> y is Auth), pk_enc(rel_for(y)) == pk_enc(rel_for(x)), pk_enc(rel_by(y)) == pk_enc(rel_by(x)), rel_at(y) == rel_at(x), rel_exp(y) == rel_exp(x), sig_enc(rel_sig(y)) == sig_enc(rel_sig(x))
    ensures x == y
{ lemma_pk_enc_inj(rel_for(y), rel_for(x)); lemma_pk_enc_inj(rel_by(y), rel_by(x)); lemma_sig_enc_inj(rel_sig(y), rel_sig(x)); }
/// the query selects the row of the pair
pub open spec fn sel_pair(id: int, p: Seq<V>, f: PublicKey, b: PublicKey) -> bool {
    sql_kind(id) == 2 && sql_table(id) == 0 && forall|x: TrustRelation| #[trigger] sql_where(id, rel_row(x), p) <==> rel_key(x) == (f, b)
}
pub open spec fn proj_all(id: int) -> bool { forall|x: TrustRelation| #[trigger] sql_proj(id, rel_row(x)) == rel_row(x) }
pub broadcast proof fn lemma_pks_inj(a: PublicKey, b: PublicKey) ensures #![trigger b58(pk_enc(a)), b58(pk_enc(b))] b58(pk_enc(a)) == b58(pk_enc(b)) ==> a == b { if pks(a) == pks(b) { lemma_pks(a, b); } }
pub proof fn axiom_b58x(k: PublicKey) ensures b58dec(pks(k)) == Some(pk_enc(k)), pk_bytes_ok(pk_enc(k)), forall|j: PublicKey| #[trigger] pk_enc(j) == pk_enc(k) ==> j == k
{ axiom_b58(pk_enc(k)); lemma_pk_enc(k); assert forall|j: PublicKey| #[trigger] pk_enc(j) == pk_enc(k) implies j == k by { lemma_pk_enc_inj(j, k); } }
pub proof fn lemma_src(d: Db, s: StV, i: int) -> (x: TrustRelation)
    requires db_inv(d), sql_table(s.id) == 0, selects(d, s.id, s.p, s.src), 0 <= i < s.src.len()
    ensures stored(d, x), rel_row(x) == s.src[i], sql_where(s.id, rel_row(x), s.p)
{ reveal(db_inv); assert(s.src.contains(s.src[i])); assert(row_ok(s.src[i])); choose|x: TrustRelation| whole(x) && #[trigger] rel_row(x) == s.src[i] }
pub broadcast proof fn lemma_src_b(d: Db, id: int, p: Seq<V>, src: Seq<Seq<V>>, i: int)
    requires db_inv(d), sql_table(id) == 0, selects(d, id, p, src), 0 <= i < src.len()
    ensures #![trigger selects(d, id, p, src), sql_proj(id, src[i])] exists|x: TrustRelation| stored(d, x) && #[trigger] rel_row(x) == src[i] && (sql_proj(id, src[i]) =~= rel_row(x) ==> sql_proj(id, src[i]) == rel_row(x))
{ reveal(db_inv); assert(src.contains(src[i])); assert(row_ok(src[i])); let x = choose|x: TrustRelation| whole(x) && #[trigger] rel_row(x) == src[i]; assert(stored(d, x)); }
pub proof fn lemma_rsrc(d: Db, s: StV, i: int) -> (x: (PublicKey, u32))
    requires db_inv(d), sql_table(s.id) == 1, selects(d, s.id, s.p, s.src), 0 <= i < s.src.len()
    ensures d.t1.contains(root_row(x.0, x.1)), root_row(x.0, x.1) == s.src[i], sql_where(s.id, root_row(x.0, x.1), s.p)
{ reveal(db_inv); assert(s.src.contains(s.src[i])); assert(root_ok(s.src[i])); choose|k: PublicKey, w: u32| #[trigger] root_row(k, w) == s.src[i] }
pub proof fn lemma_lookup(d: Db, s: StV, f: PublicKey, b: PublicKey, r: Option<TrustRelation>)
    requires db_inv(d), selects(d, s.id, s.p, s.src), sel_pair(s.id, s.p, f, b), r is None <==> s.src.len() == 0, r is Some ==> whole(r->0) && rel_row(r->0) == s.src[0]
    ensures r == lookup(rels_of(d), f, b)
{
    lemma_rels(d, (f, b));
    if rels_of(d).contains_key((f, b)) { let x = rels_of(d)[(f, b)]; assert(stored(d, x)); assert(sql_where(s.id, rel_row(x), s.p)); assert(s.src.contains(rel_row(x))); }
    if r is Some { let x = r->0; assert(s.src.contains(s.src[0])); assert(sql_where(s.id, rel_row(x), s.p)); lemma_stored(d, x); }
}
pub open spec fn sel_typ(id: int, p: Seq<V>, f: PublicKey, ty: i64) -> bool {
    sql_kind(id) == 2 && sql_table(id) == 0 && forall|x: TrustRelation| #[trigger] sql_where(id, rel_row(x), p) <==> rel_for(x) == f && typ(x) == ty
}
pub proof fn lemma_rows(d: Db, s: StV, rel: Seq<TrustRelation>, f: PublicKey, ty: i64)
    requires db_inv(d), selects(d, s.id, s.p, s.src), sel_typ(s.id, s.p, f, ty), rel.len() == s.src.len(), forall|i: int| 0 <= i < rel.len() ==> whole(#[trigger] rel[i]) && rel_row(rel[i]) == s.src[i]
    ensures forall|x: TrustRelation| #[trigger] rel.contains(x) <==> stored(d, x) && rel_for(x) == f && typ(x) == ty, rel.no_duplicates()
{
    assert forall|i: int, j: int| 0 <= i < rel.len() && 0 <= j < rel.len() && i != j implies rel[i] != rel[j] by { assert(s.src[i] != s.src[j]); }
    assert forall|x: TrustRelation| #[trigger] rel.contains(x) <==> stored(d, x) && rel_for(x) == f && typ(x) == ty by {
        if rel.contains(x) { let i = choose|i: int| 0 <= i < rel.len() && rel[i] == x; assert(s.src.contains(s.src[i])); assert(sql_where(s.id, rel_row(x), s.p)); }
        if stored(d, x) && rel_for(x) == f && typ(x) == ty { assert(sql_where(s.id, rel_row(x), s.p)); assert(s.src.contains(rel_row(x))); let i = choose|i: int| 0 <= i < s.src.len() && s.src[i] == rel_row(x); lemma_rel_row(x, rel[i]); }
    }
}
pub open spec fn auth_items(acc: Seq<Auth>, b: Seq<TrustRelation>, n: int) -> bool { (b.no_duplicates() ==> acc.no_duplicates()) && forall|a: Auth| #[trigger] acc.contains(a) <==> exists|i: int| 0 <= i < n && #[trigger] b[i] == TrustRelation::Auth(a) }
pub open spec fn rev_items(acc: Seq<Revocation>, b: Seq<TrustRelation>, n: int) -> bool { (b.no_duplicates() ==> acc.no_duplicates()) && forall|a: Revocation| #[trigger] acc.contains(a) <==> exists|i: int| 0 <= i < n && #[trigger] b[i] == TrustRelation::Revocation(a) }
pub proof fn lemma_push_has<A>(s: Seq<A>, x: A) ensures forall|a: A| #[trigger] s.push(x).contains(a) <==> s.contains(a) || a == x
{ assert forall|a: A| #[trigger] s.push(x).contains(a) <==> s.contains(a) || a == x by {
    if s.contains(a) { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(s.push(x)[i] == a); } if a == x { assert(s.push(x)[s.len() as int] == a); }
    if s.push(x).contains(a) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == a; if i < s.len() { assert(s[i] == a); } } } }
pub proof fn lemma_push_nodup<A>(s: Seq<A>, x: A) requires s.no_duplicates(), !s.contains(x) ensures s.push(x).no_duplicates()
{ let t = s.push(x); assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < s.len() { assert(s.contains(s[i])); } if j < s.len() { assert(s.contains(s[j])); } } }
pub proof fn lemma_fold_auth(s0: Seq<Auth>, s1: Seq<Auth>, b: Seq<TrustRelation>, k: int)
    requires auth_items(s0, b, k), 0 <= k < b.len(), s1 == (if b[k] is Auth { s0.push(b[k]->Auth_0) } else { s0 })
    ensures auth_items(s1, b, k + 1)
{
    if b[k] is Auth { lemma_push_has(s0, b[k]->Auth_0); if b.no_duplicates() { assert(!s0.contains(b[k]->Auth_0)); lemma_push_nodup(s0, b[k]->Auth_0); } }
    assert forall|a: Auth| #[trigger] s1.contains(a) <==> exists|i: int| 0 <= i < k + 1 && #[trigger] b[i] == TrustRelation::Auth(a) by {
        if s0.contains(a) { let i = choose|i: int| 0 <= i < k && #[trigger] b[i] == TrustRelation::Auth(a); assert(0 <= i < k + 1); }
        if exists|i: int| 0 <= i < k + 1 && #[trigger] b[i] == TrustRelation::Auth(a) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] b[i] == TrustRelation::Auth(a); if i < k { assert(s0.contains(a)); } }
    }
}
pub proof fn lemma_fold_rev(s0: Seq<Revocation>, s1: Seq<Revocation>, b: Seq<TrustRelation>, k: int)
    requires rev_items(s0, b, k), 0 <= k < b.len(), s1 == (if b[k] is Revocation { s0.push(b[k]->Revocation_0) } else { s0 })
    ensures rev_items(s1, b, k + 1)
{
    if b[k] is Revocation { lemma_push_has(s0, b[k]->Revocation_0); if b.no_duplicates() { assert(!s0.contains(b[k]->Revocation_0)); lemma_push_nodup(s0, b[k]->Revocation_0); } }
    assert forall|a: Revocation| #[trigger] s1.contains(a) <==> exists|i: int| 0 <= i < k + 1 && #[trigger] b[i] == TrustRelation::Revocation(a) by {
        if s0.contains(a) { let i = choose|i: int| 0 <= i < k && #[trigger] b[i] == TrustRelation::Revocation(a); assert(0 <= i < k + 1); }
        if exists|i: int| 0 <= i < k + 1 && #[trigger] b[i] == TrustRelation::Revocation(a) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] b[i] == TrustRelation::Revocation(a); if i < k { assert(s0.contains(a)); } }
    }
}
pub proof fn lemma_auths(d: Db, f: PublicKey, b: Seq<TrustRelation>, acc: Seq<Auth>)
    requires db_inv(d), auth_items(acc, b, b.len() as int), forall|x: TrustRelation| #[trigger] b.contains(x) <==> stored(d, x) && rel_for(x) == f && typ(x) == 0
    ensures auths_of(rels_of(d), f, acc)
{
    assert forall|a: Auth| #[trigger] acc.contains(a) <==> has_auth(rels_of(d), a) && a.trust.issued_for == f by {
        let x = TrustRelation::Auth(a); lemma_stored(d, x); lemma_rels(d, rel_key(x));
        if acc.contains(a) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x; assert(b.contains(x)); }
        if has_auth(rels_of(d), a) && a.trust.issued_for == f { assert(stored(d, x)); assert(b.contains(x)); let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(b[i] == TrustRelation::Auth(a)); }
    }
}
pub proof fn lemma_revs(d: Db, f: PublicKey, b: Seq<TrustRelation>, acc: Seq<Revocation>)
    requires db_inv(d), rev_items(acc, b, b.len() as int), forall|x: TrustRelation| #[trigger] b.contains(x) <==> stored(d, x) && rel_for(x) == f && typ(x) == 1
    ensures revs_of(rels_of(d), f, acc)
{
    assert forall|a: Revocation| #[trigger] acc.contains(a) <==> has_rev(rels_of(d), a) && a.pk == f by {
        let x = TrustRelation::Revocation(a); lemma_stored(d, x); lemma_rels(d, rel_key(x));
        if acc.contains(a) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x; assert(b.contains(x)); }
        if has_rev(rels_of(d), a) && a.pk == f { assert(stored(d, x)); assert(b.contains(x)); let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(b[i] == TrustRelation::Revocation(a)); }
    }
}
pub open spec fn sel_root(id: int, p: Seq<V>, k: PublicKey) -> bool {
    sql_kind(id) == 2 && sql_table(id) == 1 && forall|j: PublicKey, w: u32| #[trigger] sql_where(id, root_row(j, w), p) <==> j == k
}
pub open spec fn sel_roots(id: int, p: Seq<V>) -> bool { sql_kind(id) == 2 && sql_table(id) == 1 && forall|j: PublicKey, w: u32| #[trigger] sql_where(id, root_row(j, w), p) }
pub open spec fn key_at(k: PK, r: Row) -> bool { exists|w: u32| #[trigger] root_row(k.0, w) == r }
pub open spec fn keys_are(rel: Seq<PK>, src: Seq<Row>, n: int) -> bool { rel.len() == n && forall|i: int| 0 <= i < rel.len() ==> key_at(#[trigger] rel[i], src[i]) }
pub proof fn lemma_root_rows(d: Db, s: StV, rel: Seq<PK>)
    requires db_inv(d), selects(d, s.id, s.p, s.src), sel_roots(s.id, s.p), keys_are(rel, s.src, s.src.len() as int)
    ensures forall|k: PK| #[trigger] rel.contains(k) <==> roots_of(d).contains_key(k.0), rel.no_duplicates()
{
    assert forall|i: int, j: int| 0 <= i < rel.len() && 0 <= j < rel.len() && i != j implies rel[i] != rel[j] by {
        if rel[i] == rel[j] { reveal(db_inv); assert(key_at(rel[i], s.src[i]) && key_at(rel[j], s.src[j])); let k = rel[i].0; let v = choose|w: u32| #[trigger] root_row(k, w) == s.src[i]; let w = choose|w: u32| #[trigger] root_row(k, w) == s.src[j];
            assert(s.src.contains(s.src[i]) && s.src.contains(s.src[j])); assert(d.t1.contains(root_row(k, v)) && d.t1.contains(root_row(k, w))); assert(v == w); }
    }
    assert forall|k: PK| #[trigger] rel.contains(k) <==> roots_of(d).contains_key(k.0) by {
        lemma_roots(d, k.0);
        if rel.contains(k) { let i = choose|i: int| 0 <= i < rel.len() && rel[i] == k; assert(key_at(rel[i], s.src[i])); let w = choose|w: u32| #[trigger] root_row(k.0, w) == s.src[i]; assert(s.src.contains(s.src[i])); assert(d.t1.contains(root_row(k.0, w))); }
        if roots_of(d).contains_key(k.0) { let w = roots_of(d)[k.0]; let r = root_row(k.0, w); assert(sql_where(s.id, r, s.p)); assert(s.src.contains(r)); let i = choose|i: int| 0 <= i < s.src.len() && s.src[i] == r;
            assert(key_at(rel[i], s.src[i])); let v = choose|v: u32| #[trigger] root_row(rel[i].0, v) == r; assert(root_row(rel[i].0, v)[0] == r[0]); lemma_pks(rel[i].0, k.0); assert(rel[i] == k); }
    }
}
pub open spec fn root_fact(d: Db, r: Row, row: Seq<Value>, cols: Seq<V>, k: PublicKey, w: u32) -> bool {
    &&& r == root_row(k, w) && d.t1.contains(r) && row.len() == cols.len() && (forall|j: int| 0 <= j < row.len() ==> val(#[trigger] row[j]) == cols[j])
    &&& r.len() == 2 && r[0] == V::S(pks(k)) && r[1] == V::I(w as i64)
    &&& b58dec(pks(k)) == Some(pk_enc(k)) && pk_bytes_ok(pk_enc(k)) && (forall|j: PublicKey| #[trigger] pk_enc(j) == pk_enc(k) ==> j == k)
}
/// a fetched row of the roots table decodes
pub broadcast proof fn lemma_read_root(d: Db, id: int, p: Seq<V>, src: Seq<Row>, i: int, row: Seq<Value>)
    ensures #![trigger selects(d, id, p, src), sql_proj(id, src[i]), vals(row)]
        db_inv(d) && sql_kind(id) == 2 && sql_table(id) == 1 && 0 <= i < src.len() && selects(d, id, p, src) && vals(row) == sql_proj(id, src[i]) ==> exists|k: PublicKey, w: u32| root_fact(d, src[i], row, sql_proj(id, src[i]), k, w)
{
    if db_inv(d) && sql_kind(id) == 2 && sql_table(id) == 1 && 0 <= i < src.len() && selects(d, id, p, src) && vals(row) == sql_proj(id, src[i]) {
        let (k, w) = lemma_rsrc(d, StV { id, p, started: true, src, pos: 0 }, i);
        let v = vals(row);
        assert forall|j: int| 0 <= j < row.len() implies val(#[trigger] row[j]) == v[j] by {}
        axiom_b58x(k);
        assert(root_fact(d, src[i], row, sql_proj(id, src[i]), k, w));
    }
}
}
