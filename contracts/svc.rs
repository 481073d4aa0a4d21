// The service layer: exchange format, peer ids, call parameters, and the effect of each operation.
use vstd::prelude::*;
use crate::vx::*;
use crate::spec::*;
use crate::ext::libp2p_identity::{peer_b58, peer_parse, peer_of, axiom_peer_text_key, pb_dec};
use crate::ext::marine_rs_sdk::{CallParameters, SecurityTetraplet, call_params};
use crate::fluence_keypair::key_pair::KeyFormat;
use crate::fluence_keypair::public_key::PublicKey;
use crate::fluence_keypair::signature::Signature;
use crate::trust_graph::trust::Trust;
use crate::trust_graph::certificate::Certificate;
use crate::trust_graph::revoke::Revocation;
use crate::trust_graph::trust_relation::TrustRelation;
use crate::trust_graph::trust_graph::TrustGraph;
pub use crate::trust_graph::trust_graph::tg_inv;
use crate::trust_graph::trust_graph_storage::Storage;
use crate::service::storage_impl::SQLiteStorage;
use crate::service::dto::{Trust as DTrust, Revocation as DRev, Certificate as DCert};
verus! {
broadcast use {crate::vx::vx_axioms, crate::ext::ext_axioms};
pub type TG = TrustGraph<SQLiteStorage>;
pub open spec fn srels(g: TG) -> Rels { g.storage.rels() }
pub open spec fn sroots(g: TG) -> Roots { g.storage.roots() }
pub open spec fn slive(g: TG) -> bool { g.storage.live() }
// ================================================================ call parameters
/// the argument was produced by the host's own ("peer", "timestamp_sec")
pub open spec fn ts_tetraplet(t: SecurityTetraplet, host: Seq<char>) -> bool { t.service_id@ == "peer"@ && t.function_name@ == "timestamp_sec"@ && t.peer_pk@ == host }
pub open spec fn ts_ok_in(cp: CallParameters, arg: int) -> bool { 0 <= arg < cp.tetraplets@.len() && cp.tetraplets@[arg]@.len() > 0 && ts_tetraplet(cp.tetraplets@[arg]@[0], cp.host_id@) }
pub open spec fn ts_ok(arg: int) -> bool { ts_ok_in(call_params(), arg) }
pub open spec fn owner() -> bool { call_params().service_creator_peer_id@ == call_params().init_peer_id@ }
pub open spec fn host() -> Seq<char> { call_params().host_id@ }

// ================================================================ peer ids
pub open spec fn peer_str_key(s: Seq<char>, k: PublicKey) -> bool { peer_parse(s) is Some && peer_key(peer_parse(s)->0, k) }
/// the text is a peer id that contains its key
pub open spec fn peer_str_ok(s: Seq<char>) -> bool { peer_parse(s) is Some && peer_has_key(peer_parse(s)->0) }
pub open spec fn key_of(s: Seq<char>) -> PublicKey { choose|k: PublicKey| peer_str_key(s, k) }
pub broadcast proof fn lemma_key_of(s: Seq<char>, k: PublicKey)
    requires #[trigger] peer_str_key(s, k)
    ensures k == key_of(s), peer_str_ok(s)
{
    let q = key_of(s); assert(peer_str_key(s, q)); lemma_peer_key_fn(peer_parse(s)->0, k, q);
    match k { PublicKey::Ed25519(p) => { let b = p.0@; }, PublicKey::Secp256k1(p) => { let b = p.0@; }, _ => {} }
}
pub open spec fn peer_text(k: PublicKey) -> Seq<char> { peer_b58(peer_of(lkey(k))) }
pub proof fn lemma_peer_text(k: PublicKey) requires !(k is Rsa) ensures peer_str_key(peer_text(k), k), peer_str_ok(peer_text(k))
{ axiom_peer_text_key(lkey(k)); lemma_peer_key(k); lemma_key_of(peer_text(k), k); }

// ================================================================ exchange format
pub open spec fn trust_dto(t: Trust, d: DTrust) -> bool {
    &&& d.issued_for@ == peer_text(t.issued_for) && d.expires_at == t.expires_at.s && d.issued_at == t.issued_at.s
    &&& d.signature@ == b58(sig_raw(t.signature)) && d.sig_type@ == fmt_name(sig_fmt(t.signature))
}
pub open spec fn sig_parses(text: Seq<char>, typ: Seq<char>, s: Signature) -> bool { b58dec(text) == Some(sig_raw(s)) && fmt_parse(typ) == Some(sig_fmt(s)) }
pub open spec fn sig_good(text: Seq<char>, typ: Seq<char>) -> bool { b58dec(text) is Some && fmt_parse(typ) is Some }
pub open spec fn dto_trust(d: DTrust, t: Trust) -> bool {
    &&& peer_str_key(d.issued_for@, t.issued_for) && t.expires_at == secs(d.expires_at) && t.issued_at == secs(d.issued_at)
    &&& sig_parses(d.signature@, d.sig_type@, t.signature)
}
pub open spec fn dto_good(d: DTrust) -> bool { peer_str_ok(d.issued_for@) && sig_good(d.signature@, d.sig_type@) }
pub open spec fn trust_of(d: DTrust) -> Trust { choose|t: Trust| dto_trust(d, t) }
pub broadcast proof fn lemma_trust_of(d: DTrust, t: Trust)
    requires #[trigger] dto_trust(d, t)
    ensures t == trust_of(d), dto_good(d)
{ let u = trust_of(d); assert(dto_trust(d, u)); lemma_key_of(d.issued_for@, t.issued_for); lemma_key_of(d.issued_for@, u.issued_for); lemma_sig_eq(t.signature, u.signature); }
/// exchange form and back: the same trust, at one-second granularity
pub proof fn lemma_trust_roundtrip(t: Trust, d: DTrust, u: Trust) /*C21*/
    requires trust_dto(t, d), !(t.issued_for is Rsa)
    ensures dto_good(d), dto_trust(d, u) ==> u == tsec(t)
{
    lemma_peer_text(t.issued_for); lemma_fmt_name(sig_fmt(t.signature));
    assert(dto_trust(d, tsec(t)));
    lemma_trust_of(d, tsec(t)); if dto_trust(d, u) { lemma_trust_of(d, u); }
}
pub open spec fn rev_dto(t: Revocation, d: DRev) -> bool {
    &&& d.revoked_peer_id@ == peer_text(t.pk) && d.revoked_by@ == peer_text(t.revoked_by) && d.revoked_at == t.revoked_at.s
    &&& d.signature@ == b58(sig_raw(t.signature)) && d.sig_type@ == fmt_name(sig_fmt(t.signature))
}
pub open spec fn dto_rev(d: DRev, t: Revocation) -> bool {
    &&& peer_str_key(d.revoked_peer_id@, t.pk) && peer_str_key(d.revoked_by@, t.revoked_by) && t.revoked_at == secs(d.revoked_at)
    &&& sig_parses(d.signature@, d.sig_type@, t.signature)
}
pub open spec fn rev_good(d: DRev) -> bool { peer_str_ok(d.revoked_peer_id@) && peer_str_ok(d.revoked_by@) && sig_good(d.signature@, d.sig_type@) }
pub open spec fn rev_of(d: DRev) -> Revocation { choose|t: Revocation| dto_rev(d, t) }
pub broadcast proof fn lemma_rev_of(d: DRev, t: Revocation)
    requires #[trigger] dto_rev(d, t)
    ensures t == rev_of(d), rev_good(d)
{
    let u = rev_of(d); assert(dto_rev(d, u)); lemma_key_of(d.revoked_peer_id@, t.pk); lemma_key_of(d.revoked_peer_id@, u.pk);
    lemma_key_of(d.revoked_by@, t.revoked_by); lemma_key_of(d.revoked_by@, u.revoked_by); lemma_sig_eq(t.signature, u.signature);
}
pub open spec fn vsec(v: Revocation) -> Revocation { Revocation { revoked_at: secs(v.revoked_at.s), ..v } }
pub proof fn lemma_rev_roundtrip(t: Revocation, d: DRev, u: Revocation) /*C21*/
    requires rev_dto(t, d), !(t.pk is Rsa), !(t.revoked_by is Rsa)
    ensures rev_good(d), dto_rev(d, u) ==> u == vsec(t)
{
    lemma_peer_text(t.pk); lemma_peer_text(t.revoked_by); lemma_fmt_name(sig_fmt(t.signature));
    assert(dto_rev(d, vsec(t)));
    lemma_rev_of(d, vsec(t)); if dto_rev(d, u) { lemma_rev_of(d, u); }
}
pub open spec fn trusts_dto(c: Seq<Trust>, d: Seq<DTrust>, n: int) -> bool { d.len() == n && n <= c.len() && forall|i: int| 0 <= i < n ==> trust_dto(c[i], #[trigger] d[i]) }
pub open spec fn dto_trusts(d: Seq<DTrust>, c: Seq<Trust>, n: int) -> bool { c.len() == n && n <= d.len() && forall|i: int| 0 <= i < n ==> dto_trust(d[i], #[trigger] c[i]) }
pub open spec fn cert_dto(c: Certificate, d: DCert) -> bool { trusts_dto(c.chain@, d.chain@, c.chain@.len() as int) }
pub open spec fn dto_cert(d: DCert, c: Certificate) -> bool { dto_trusts(d.chain@, c.chain@, d.chain@.len() as int) }
pub open spec fn cert_good(d: DCert) -> bool { forall|i: int| 0 <= i < d.chain@.len() ==> dto_good(#[trigger] d.chain@[i]) }
pub open spec fn bad_upto(d: Seq<DTrust>, n: int) -> bool { exists|i: int| 0 <= i < n && n <= d.len() && !dto_good(#[trigger] d[i]) }
pub open spec fn chain_of(d: DCert) -> Seq<Trust> { Seq::new(d.chain@.len(), |i: int| trust_of(d.chain@[i])) }
pub broadcast proof fn lemma_chain_of(d: DCert, c: Certificate)
    requires #[trigger] dto_cert(d, c)
    ensures c.chain@ == chain_of(d), cert_good(d)
{
    assert forall|i: int| 0 <= i < d.chain@.len() implies c.chain@[i] == chain_of(d)[i] && dto_good(#[trigger] d.chain@[i]) by { assert(dto_trust(d.chain@[i], c.chain@[i])); lemma_trust_of(d.chain@[i], c.chain@[i]); }
    assert(c.chain@ =~= chain_of(d));
}
pub proof fn lemma_cert_roundtrip(c: Certificate, d: DCert, u: Certificate) /*C21*/
    requires cert_dto(c, d), forall|i: int| 0 <= i < c.chain@.len() ==> !((#[trigger] c.chain@[i]).issued_for is Rsa)
    ensures cert_good(d), dto_cert(d, u) ==> u.chain@ == csec(c.chain@)
{
    assert forall|i: int| 0 <= i < d.chain@.len() implies dto_good(#[trigger] d.chain@[i]) by { assert(!(c.chain@[i].issued_for is Rsa)); lemma_trust_roundtrip(c.chain@[i], d.chain@[i], c.chain@[i]); }
    if dto_cert(d, u) {
        assert forall|i: int| 0 <= i < u.chain@.len() implies u.chain@[i] == csec(c.chain@)[i] by { assert(trust_dto(c.chain@[i], d.chain@[i])); assert(!(c.chain@[i].issued_for is Rsa)); assert(dto_trust(d.chain@[i], u.chain@[i])); lemma_trust_roundtrip(c.chain@[i], d.chain@[i], u.chain@[i]); }
        assert(u.chain@ =~= csec(c.chain@));
    }
}
pub open spec fn certs_dto(c: Seq<Certificate>, d: Seq<DCert>, n: int) -> bool { d.len() == n && n <= c.len() && forall|i: int| 0 <= i < n ==> cert_dto(c[i], #[trigger] d[i]) }
pub open spec fn revs_dto(c: Seq<Revocation>, d: Seq<DRev>, n: int) -> bool { d.len() == n && n <= c.len() && forall|i: int| 0 <= i < n ==> rev_dto(c[i], #[trigger] d[i]) }
/// the chain a certificate text describes
pub open spec fn text_of(s: Seq<char>) -> Seq<Trust> { choose|c: Seq<Trust>| text_parses(lines(s), c) }
pub broadcast proof fn lemma_text_of(s: Seq<char>, c: Seq<Trust>)
    requires #[trigger] text_parses(lines(s), c)
    ensures c == text_of(s)
{
    let e = text_of(s); let l = lines(s); assert(text_parses(l, e));
    assert forall|i: int| 0 <= i < c.len() implies c[i] == e[i] by { assert(quad(l, i, c[i]) && quad(l, i, e[i])); lemma_tparse_fn(l[2 + 4 * i], l[3 + 4 * i], l[4 + 4 * i], l[5 + 4 * i], c[i], e[i]); }
    assert(c =~= e);
}

// ================================================================ operations
/// no effect
pub open spec fn same(o: TG, f: TG) -> bool { tg_inv(f) && f.storage.rels() == o.storage.rels() && f.storage.roots() == o.storage.roots() && (o.storage.live() ==> f.storage.live()) }
/// truthful report: success and an empty message, or failure and a message
pub open spec fn report(ok: bool, msg: Seq<char>) -> bool { ok <==> msg.len() == 0 }
/// a query at `t`: succeeds exactly for usable peer ids (on a working database); removes at most what has expired
pub open spec fn asked(o: TG, f: TG, t: u64, good: bool, ok: bool) -> bool {
    &&& tg_inv(f) && f.storage.roots() == o.storage.roots()
    &&& ok ==> good && f.storage.rels() == gc(o.storage.rels(), secs(t))
    &&& !ok ==> f.storage.rels() == o.storage.rels() || f.storage.rels() == gc(o.storage.rels(), secs(t))
    &&& o.storage.live() ==> f.storage.live() && (ok <==> good)
}
pub open spec fn lists_certs(f: TG, k: PublicKey, v: Seq<DCert>) -> bool { exists|cs: Seq<Certificate>| #[trigger] all_certs(f.storage.rels(), f.storage.roots(), k, cs) && certs_dto(cs, v, cs.len() as int) }
pub open spec fn lists_certs_from(f: TG, k: PublicKey, by: PublicKey, v: Seq<DCert>) -> bool { exists|cs: Seq<Certificate>| #[trigger] certs_from(f.storage.rels(), f.storage.roots(), k, by, cs) && certs_dto(cs, v, cs.len() as int) }
pub open spec fn lists_revs(f: TG, k: PublicKey, v: Seq<DRev>) -> bool { exists|cs: Seq<Revocation>| #[trigger] revs_of(f.storage.rels(), k, cs) && revs_dto(cs, v, cs.len() as int) }
pub open spec fn set_root_op(o: TG, f: TG, allowed: bool, peer: Seq<char>, len: u32, ok: bool) -> bool {
    &&& tg_inv(f) && f.storage.rels() == o.storage.rels()
    &&& ok ==> allowed && peer_str_ok(peer) && f.storage.roots() == o.storage.roots().insert(key_of(peer), if len <= 16 { (16 - len) as u32 } else { 0 })
    &&& !ok ==> f.storage.roots() == o.storage.roots()
    &&& o.storage.live() ==> f.storage.live() && (ok <==> allowed && peer_str_ok(peer))
}
/// adding a certificate given as the chain `ch` (if `good`)
pub open spec fn insert_op(o: TG, f: TG, good: bool, ch: Seq<Trust>, t: u64, ok: bool) -> bool {
    &&& tg_inv(f) && f.storage.roots() == o.storage.roots()
    &&& !good ==> !ok && f.storage.rels() == o.storage.rels()
    &&& ok ==> ch.len() > 0 && f.storage.rels() == addn(o.storage.rels(), o.storage.roots(), ch, ch.len() as int, secs(t)) && forall|i: int| 0 <= i < ch.len() ==> #[trigger] given_ok(ch, i, secs(t))
    &&& o.storage.live() ==> f.storage.live()
    &&& o.storage.live() && good && !ok && ch.len() > 0 ==> exists|k: int| 0 <= k < ch.len() && !given_ok(ch, k, secs(t)) && f.storage.rels() == #[trigger] addn(o.storage.rels(), o.storage.roots(), ch, k, secs(t))
}
pub open spec fn add_op(o: TG, f: TG, good: bool, tr: Trust, by: PublicKey, t: u64, ok: bool, w: u32) -> bool {
    &&& tg_inv(f) && f.storage.roots() == o.storage.roots()
    &&& !good ==> !ok && f.storage.rels() == o.storage.rels()
    &&& ok ==> trust_ok(tr, by, secs(t)) && f.storage.rels() == add1(o.storage.rels(), o.storage.roots(), tr, by, secs(t)) && w == next_weight(gc(o.storage.rels(), secs(t)), o.storage.roots(), by, tr.issued_for)
    &&& !ok ==> f.storage.rels() == o.storage.rels() || f.storage.rels() == gc(o.storage.rels(), secs(t))
    &&& o.storage.live() ==> f.storage.live() && (ok <==> good && trust_ok(tr, by, secs(t)))
}
pub open spec fn revoke_op(o: TG, f: TG, good: bool, v: Revocation, ok: bool) -> bool {
    &&& tg_inv(f) && f.storage.roots() == o.storage.roots()
    &&& ok ==> good && rev_ok(v) && f.storage.rels() == upd(o.storage.rels(), TrustRelation::Revocation(v))
    &&& !ok ==> f.storage.rels() == o.storage.rels()
    &&& o.storage.live() ==> f.storage.live() && (ok <==> good && rev_ok(v))
}
}
