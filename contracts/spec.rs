// Specification functions and lemmas shared by all contracts.
use vstd::prelude::*;
use crate::vx::*;
use crate::ext::ed25519_dalek::*;
use crate::ext::libsecp256k1::{secp_pk_ok, secp_pk_of, secp_sig_ok, secp_sk_ok};
use crate::ext::ring::signature::rsa_sig_ok;
use crate::ext::sha2::sha256;
use crate::ext::libp2p_identity::{LKey, LPair, peer_of, pb_dec, pb_enc, axiom_pb, lkey_ok};
use crate::fluence_keypair::key_pair::{KeyFormat, KeyPair};
use crate::fluence_keypair::public_key::PublicKey;
use crate::fluence_keypair::signature::Signature;
pub use crate::ext::bs58::{b58, b58dec};
use crate::trust_graph::trust::Trust;
use crate::trust_graph::certificate::Certificate;
use crate::trust_graph::revoke::Revocation;
pub use crate::graph::*;
pub use crate::db::*;
pub use crate::svc::*;
verus! {
/// proved below
pub broadcast group spec_axioms { axiom_mem, lemma_kp_bytes, lemma_kp_secret, axiom_transmute }
broadcast use {crate::vx::vx_axioms, crate::ext::ext_axioms};

// ================================================================ keys and signatures
pub open spec fn fmt_tag(f: KeyFormat) -> u8 { match f { KeyFormat::Ed25519 => 0, KeyFormat::Rsa => 1, KeyFormat::Secp256k1 => 2 } }
pub open spec fn fmt_name(f: KeyFormat) -> Seq<char> { match f { KeyFormat::Ed25519 => "ed25519"@, KeyFormat::Rsa => "rsa"@, KeyFormat::Secp256k1 => "secp256k1"@ } }
pub open spec fn fmt_parse(s: Seq<char>) -> Option<KeyFormat> {
    if s == "ed25519"@ { Some(KeyFormat::Ed25519) } else if s == "secp256k1"@ { Some(KeyFormat::Secp256k1) } else if s == "rsa"@ { Some(KeyFormat::Rsa) } else { None }
}
pub proof fn lemma_fmt_name(f: KeyFormat)
    ensures fmt_parse(fmt_name(f)) == Some(f)
{
    reveal_strlit("ed25519"); reveal_strlit("rsa"); reveal_strlit("secp256k1");
    assert("ed25519"@.len() == 7); assert("rsa"@.len() == 3); assert("secp256k1"@.len() == 9);
}
pub open spec fn pk_fmt(k: PublicKey) -> KeyFormat { match k { PublicKey::Ed25519(_) => KeyFormat::Ed25519, PublicKey::Rsa(_) => KeyFormat::Rsa, PublicKey::Secp256k1(_) => KeyFormat::Secp256k1 } }
pub open spec fn pk_raw(k: PublicKey) -> Seq<u8> { match k { PublicKey::Ed25519(p) => p.0@, PublicKey::Rsa(p) => p.0@, PublicKey::Secp256k1(p) => p.0@ } }
/// binary form: type byte, then raw bytes
pub open spec fn pk_enc(k: PublicKey) -> Seq<u8> { seq![fmt_tag(pk_fmt(k))] + pk_raw(k) }
pub open spec fn sig_fmt(s: Signature) -> KeyFormat { match s { Signature::Ed25519(_) => KeyFormat::Ed25519, Signature::Rsa(_) => KeyFormat::Rsa, Signature::Secp256k1(_) => KeyFormat::Secp256k1 } }
pub open spec fn sig_raw(s: Signature) -> Seq<u8> { match s { Signature::Ed25519(p) => p.0@, Signature::Rsa(p) => p.0@, Signature::Secp256k1(p) => p.0@ } }
pub open spec fn sig_enc(s: Signature) -> Seq<u8> { seq![fmt_tag(sig_fmt(s))] + sig_raw(s) }

/// the bytes are the raw form of a key of this type
pub open spec fn raw_ok(f: KeyFormat, b: Seq<u8>) -> bool {
    match f { KeyFormat::Ed25519 => b.len() == 32 && ed_pk_ok(b), KeyFormat::Rsa => true, KeyFormat::Secp256k1 => b.len() == 33 && secp_pk_ok(b) }
}
/// the bytes are the binary form of a public key / of a signature
pub open spec fn pk_bytes_ok(b: Seq<u8>) -> bool {
    b.len() > 0 && (b[0] == 0 && raw_ok(KeyFormat::Ed25519, b.subrange(1, b.len() as int)) || b[0] == 1 || b[0] == 2 && raw_ok(KeyFormat::Secp256k1, b.subrange(1, b.len() as int)))
}
pub open spec fn sig_bytes_ok(b: Seq<u8>) -> bool { b.len() > 0 && b[0] <= 2 }

/// a key is determined by its type and raw bytes
pub proof fn lemma_pk_eq(a: PublicKey, b: PublicKey)
    requires pk_fmt(a) == pk_fmt(b), pk_raw(a) == pk_raw(b)
    ensures a == b
{ match (a, b) { (PublicKey::Ed25519(p), PublicKey::Ed25519(q)) => { assert(p.0@ == q.0@); }, (PublicKey::Rsa(p), PublicKey::Rsa(q)) => { assert(p.0@ == q.0@); }, (PublicKey::Secp256k1(p), PublicKey::Secp256k1(q)) => { assert(p.0@ == q.0@); }, _ => {} } }
pub proof fn lemma_sig_eq(a: Signature, b: Signature)
    requires sig_fmt(a) == sig_fmt(b), sig_raw(a) == sig_raw(b)
    ensures a == b
{ match (a, b) { (Signature::Ed25519(p), Signature::Ed25519(q)) => { assert(p.0@ == q.0@); }, (Signature::Rsa(p), Signature::Rsa(q)) => { assert(p.0@ == q.0@); }, (Signature::Secp256k1(p), Signature::Secp256k1(q)) => { assert(p.0@ == q.0@); }, _ => {} } }
pub proof fn lemma_pk_enc(a: PublicKey)
    ensures pk_enc(a).len() == pk_raw(a).len() + 1, pk_enc(a)[0] == fmt_tag(pk_fmt(a)), pk_enc(a).subrange(1, pk_enc(a).len() as int) == pk_raw(a), pk_bytes_ok(pk_enc(a)),
        pk_fmt(a) is Ed25519 ==> pk_enc(a).len() == 33, pk_fmt(a) is Secp256k1 ==> pk_enc(a).len() == 34
{
    assert(pk_enc(a).subrange(1, pk_enc(a).len() as int) =~= pk_raw(a));
    match a { PublicKey::Ed25519(p) => { let b = p.0@; assert(pk_raw(a) == b); }, PublicKey::Rsa(p) => {}, PublicKey::Secp256k1(p) => { let b = p.0@; } }
}
pub proof fn lemma_pk_enc_inj(a: PublicKey, b: PublicKey)
    requires pk_enc(a) == pk_enc(b)
    ensures a == b
{ lemma_pk_enc(a); lemma_pk_enc(b); lemma_pk_eq(a, b); }
pub proof fn lemma_sig_enc(a: Signature)
    ensures sig_enc(a).len() == sig_raw(a).len() + 1, sig_enc(a)[0] == fmt_tag(sig_fmt(a)), sig_enc(a).subrange(1, sig_enc(a).len() as int) == sig_raw(a), sig_bytes_ok(sig_enc(a))
{ assert(sig_enc(a).subrange(1, sig_enc(a).len() as int) =~= sig_raw(a)); }
pub proof fn lemma_sig_enc_inj(a: Signature, b: Signature)
    requires sig_enc(a) == sig_enc(b)
    ensures a == b
{ lemma_sig_enc(a); lemma_sig_enc(b); lemma_sig_eq(a, b); }

/// the scheme of the key accepts the raw signature for the message
pub open spec fn sig_ok(k: PublicKey, m: Seq<u8>, s: Seq<u8>) -> bool {
    match k { PublicKey::Ed25519(p) => ed_sig_ok(p.0@, m, s), PublicKey::Rsa(p) => rsa_sig_ok(1, p.0@, m, s), PublicKey::Secp256k1(p) => secp_sig_ok(p.0@, sha256(m), s) }
}

// ---------------------------------------------------------------- key pairs
pub open spec fn kp_fmt(k: KeyPair) -> KeyFormat { match k { KeyPair::Ed25519(_) => KeyFormat::Ed25519, KeyPair::Rsa(_) => KeyFormat::Rsa, KeyPair::Secp256k1(_) => KeyFormat::Secp256k1 } }
/// raw public key of the pair
pub open spec fn kp_pkraw(k: KeyPair) -> Seq<u8> { match k { KeyPair::Ed25519(p) => ed_pk_of(p.0@), KeyPair::Rsa(p) => p.0@.pubkey(), KeyPair::Secp256k1(p) => p.public.0@ } }
/// secret bytes (not for RSA)
pub open spec fn kp_secret(k: KeyPair) -> Seq<u8> { match k { KeyPair::Ed25519(p) => p.0@, KeyPair::Rsa(p) => Seq::empty(), KeyPair::Secp256k1(p) => p.secret.0@ } }
/// exported bytes of a pair (not for RSA)
pub open spec fn kp_bytes(k: KeyPair) -> Seq<u8> { match k { KeyPair::Ed25519(p) => p.0@ + ed_pk_of(p.0@), KeyPair::Rsa(p) => Seq::empty(), KeyPair::Secp256k1(p) => p.secret.0@ } }
/// the public half belongs to the secret half; every constructor establishes it and no public method breaks it
pub open spec fn kp_wf(k: KeyPair) -> bool { k matches KeyPair::Secp256k1(p) ==> secp_wf(p) }
pub open spec fn secp_wf(p: crate::fluence_keypair::secp256k1::Keypair) -> bool { p.public.0@ == secp_pk_of(p.secret.0@) }
pub open spec fn is_pub(kp: KeyPair, pk: PublicKey) -> bool { pk_fmt(pk) == kp_fmt(kp) && pk_raw(pk) == kp_pkraw(kp) }
pub proof fn lemma_is_pub(kp: KeyPair, a: PublicKey, b: PublicKey) requires is_pub(kp, a), is_pub(kp, b) ensures a == b { lemma_pk_eq(a, b); }

/// the bytes a pair (a secret key) is read from
pub open spec fn kp_good(f: KeyFormat, b: Seq<u8>) -> bool { match f { KeyFormat::Ed25519 => b.len() == 64 && b.subrange(32, 64) == ed_pk_of(b.subrange(0, 32)), KeyFormat::Secp256k1 => b.len() == 32 && secp_sk_ok(b), KeyFormat::Rsa => false } }
pub open spec fn sk_good(f: KeyFormat, b: Seq<u8>) -> bool { match f { KeyFormat::Ed25519 => b.len() == 32, KeyFormat::Secp256k1 => b.len() == 32 && secp_sk_ok(b), KeyFormat::Rsa => false } }
/// what a pair is exported as reads back
pub proof fn lemma_kp_good(k: KeyPair)
    ensures !(k is Rsa) ==> kp_good(kp_fmt(k), kp_bytes(k)) && sk_good(kp_fmt(k), kp_secret(k)) /*C17*/
{ broadcast use {lemma_kp_bytes, lemma_kp_secret}; let b = kp_bytes(k); let s = kp_secret(k); assert(b == kp_bytes(k)); }
pub broadcast proof fn lemma_kp_bytes(k: KeyPair)
    ensures #![trigger kp_bytes(k)] k is Ed25519 ==> kp_bytes(k).len() == 64 && kp_bytes(k).subrange(32, 64) == ed_pk_of(kp_bytes(k).subrange(0, 32)), k is Secp256k1 ==> kp_bytes(k).len() == 32 && secp_sk_ok(kp_bytes(k))
{ match k { KeyPair::Ed25519(p) => { let s = p.0@; axiom_ed(s, Seq::empty()); assert((s + ed_pk_of(s)).subrange(0, 32) =~= s); assert((s + ed_pk_of(s)).subrange(32, 64) =~= ed_pk_of(s)); }, KeyPair::Secp256k1(p) => { let s = p.secret.0@; }, _ => {} } }
pub broadcast proof fn lemma_kp_secret(k: KeyPair)
    ensures #![trigger kp_secret(k)] k is Ed25519 ==> kp_secret(k).len() == 32, k is Secp256k1 ==> kp_secret(k).len() == 32 && secp_sk_ok(kp_secret(k))
{ match k { KeyPair::Ed25519(p) => { let s = p.0@; }, KeyPair::Secp256k1(p) => { let s = p.secret.0@; }, _ => {} } }

// ---------------------------------------------------------------- libp2p
/// both RSA pair types wrap the same `Arc<ring::RsaKeyPair>`; reinterpreting there and back gives the original (assumed)
#[verifier::external_body]
pub broadcast proof fn axiom_transmute(a: crate::ext::libp2p_identity::rsa::Keypair)
    ensures #![trigger transmuted::<crate::ext::libp2p_identity::rsa::Keypair, crate::fluence_keypair::rsa::Keypair>(a)]
        transmuted::<crate::fluence_keypair::rsa::Keypair, crate::ext::libp2p_identity::rsa::Keypair>(transmuted::<crate::ext::libp2p_identity::rsa::Keypair, crate::fluence_keypair::rsa::Keypair>(a)) == a { }
pub open spec fn lkey(k: PublicKey) -> LKey { match k { PublicKey::Ed25519(p) => LKey::Ed(p.0@), PublicKey::Rsa(p) => LKey::Rsa(p.0@), PublicKey::Secp256k1(p) => LKey::Secp(p.0@) } }
pub open spec fn lpair(k: KeyPair) -> LPair { match k { KeyPair::Ed25519(p) => LPair::Ed(p.0@), KeyPair::Rsa(p) => LPair::Rsa(transmuted(p)), KeyPair::Secp256k1(p) => LPair::Secp(p.secret.0@) } }
pub proof fn lemma_lkey_inj(a: PublicKey, b: PublicKey) requires lkey(a) == lkey(b) ensures a == b { lemma_pk_eq(a, b); }
/// the peer id of a non-RSA key contains the key
pub proof fn lemma_peer(k: PublicKey)
    requires !(k is Rsa)
    ensures peer_of(lkey(k)) == (0u64, pb_enc(lkey(k))), pb_dec(pb_enc(lkey(k))) == Some(lkey(k)), lkey_ok(lkey(k))
{ axiom_pb(lkey(k)); match k { PublicKey::Ed25519(p) => { let b = p.0@; }, PublicKey::Secp256k1(p) => { let b = p.0@; }, _ => {} } }
pub proof fn lemma_peer_inj(a: PublicKey, b: PublicKey)
    requires !(a is Rsa), !(b is Rsa), peer_of(lkey(a)) == peer_of(lkey(b))
    ensures a == b
{ lemma_peer(a); lemma_peer(b); lemma_lkey_inj(a, b); }
/// what a peer id resolves to
pub open spec fn peer_key(p: (u64, Seq<u8>), k: PublicKey) -> bool { p.0 == 0 && pb_dec(p.1) == Some(lkey(k)) }
pub open spec fn peer_has_key(p: (u64, Seq<u8>)) -> bool { p.0 == 0 && pb_dec(p.1) is Some && lkey_ok(pb_dec(p.1)->0) }
pub proof fn lemma_peer_key(k: PublicKey) requires !(k is Rsa) ensures peer_key(peer_of(lkey(k)), k), peer_has_key(peer_of(lkey(k))) { lemma_peer(k); }
pub proof fn lemma_peer_key_fn(p: (u64, Seq<u8>), a: PublicKey, b: PublicKey) requires peer_key(p, a), peer_key(p, b) ensures a == b { lemma_lkey_inj(a, b); }

// ================================================================ trusts and revocations
/// memory bound: no vector of trusts reaches 2^31 - 256 elements (assumed; a trust occupies over 100 bytes)
#[verifier::external_body]
pub broadcast proof fn axiom_mem(v: Vec<Trust>) ensures #![trigger v@] v@.len() < 0x7fff_ff00 { }

/// what a trust signature covers, before hashing
pub open spec fn trust_pre(pk: PublicKey, exp: u64, iss: u64) -> Seq<u8> { pk_enc(pk) + le8(exp) + le8(iss) }
pub open spec fn trust_msg(pk: PublicKey, exp: u64, iss: u64) -> Seq<u8> { sha256(trust_pre(pk, exp, iss)) }
pub open spec fn rev_pre(pk: PublicKey, at: u64) -> Seq<u8> { seq![pk_enc(pk).len() as u8] + pk_enc(pk) + le8(at) }
pub open spec fn rev_msg(pk: PublicKey, at: u64) -> Seq<u8> { sha256(rev_pre(pk, at)) }
pub open spec fn trust_ok(t: Trust, by: PublicKey, cur: Duration) -> bool {
    !dur_lt(t.expires_at, cur) && sig_ok(by, trust_msg(t.issued_for, t.expires_at.s, t.issued_at.s), sig_raw(t.signature))
}
pub open spec fn rev_ok(r: Revocation) -> bool { sig_ok(r.revoked_by, rev_msg(r.pk, r.revoked_at.s), sig_raw(r.signature)) }

/// the covered bytes determine subject, expiry and creation second
pub proof fn lemma_trust_pre_inj(p: PublicKey, e: u64, i: u64, q: PublicKey, f: u64, j: u64) /*C01*/
    requires trust_pre(p, e, i) == trust_pre(q, f, j)
    ensures p == q, e == f, i == j
{
    let a = trust_pre(p, e, i); let b = trust_pre(q, f, j);
    axiom_le8(e); axiom_le8(i); axiom_le8(f); axiom_le8(j);
    let n = a.len() as int;
    assert(a.len() == pk_enc(p).len() + 16); assert(b.len() == pk_enc(q).len() + 16);
    assert(a.subrange(0, n - 16) =~= pk_enc(p)); assert(b.subrange(0, n - 16) =~= pk_enc(q));
    assert(a.subrange(n - 16, n - 8) =~= le8(e)); assert(b.subrange(n - 16, n - 8) =~= le8(f));
    assert(a.subrange(n - 8, n) =~= le8(i)); assert(b.subrange(n - 8, n) =~= le8(j));
    lemma_pk_enc_inj(p, q); lemma_le8_inj(e, f); lemma_le8_inj(i, j);
}
pub proof fn lemma_rev_pre_inj(p: PublicKey, i: u64, q: PublicKey, j: u64) /*C02*/
    requires rev_pre(p, i) == rev_pre(q, j)
    ensures p == q, i == j
{
    let a = rev_pre(p, i); let b = rev_pre(q, j);
    axiom_le8(i); axiom_le8(j);
    let n = a.len() as int;
    assert(a.len() == pk_enc(p).len() + 9); assert(b.len() == pk_enc(q).len() + 9);
    assert(a.subrange(1, n - 8) =~= pk_enc(p)); assert(b.subrange(1, n - 8) =~= pk_enc(q));
    assert(a.subrange(n - 8, n) =~= le8(i)); assert(b.subrange(n - 8, n) =~= le8(j));
    lemma_pk_enc_inj(p, q); lemma_le8_inj(i, j);
}
/// a revocation of a non-RSA key never covers the bytes a trust covers
pub proof fn lemma_domain(p: PublicKey, i: u64, q: PublicKey, f: u64, j: u64) /*C02*/
    requires !(p is Rsa)
    ensures rev_pre(p, i) != trust_pre(q, f, j)
{
    lemma_pk_enc(p); lemma_pk_enc(q);
    assert(rev_pre(p, i)[0] == pk_enc(p).len() as u8);
    assert(trust_pre(q, f, j)[0] == pk_enc(q)[0]);
}

// ---------------------------------------------------------------- certificates
pub open spec fn cert_ok(c: Seq<Trust>, roots: Seq<PublicKey>, cur: Duration) -> bool {
    &&& c.len() > 0
    &&& trust_ok(c[0], c[0].issued_for, cur)
    &&& roots.contains(c[0].issued_for)
    &&& forall|i: int, j: int| #![trigger c[i], c[j]] 1 <= i < c.len() && j == i - 1 ==> trust_ok(c[i], c[j].issued_for, cur)
}
/// k is the last position at which `pk` holds a trust
pub open spec fn last_at(c: Seq<Trust>, pk: PublicKey, k: int) -> bool {
    0 <= k < c.len() && c[k].issued_for == pk && forall|j: int| k < j < c.len() ==> (#[trigger] c[j]).issued_for != pk
}
pub open spec fn holds(c: Seq<Trust>, pk: PublicKey) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).issued_for == pk }
/// r is `c` up to and including the last trust of `by`, followed by t
pub open spec fn extends_at(c: Seq<Trust>, by: PublicKey, r: Seq<Trust>, t: Trust) -> bool {
    exists|k: int| #[trigger] last_at(c, by, k) && r == c.subrange(0, k + 1).push(t)
}
/// extending a verifying certificate by a trust that verifies gives a verifying certificate
pub proof fn lemma_issue_ok(c: Seq<Trust>, roots: Seq<PublicKey>, by: PublicKey, r: Seq<Trust>, t: Trust, cur: Duration) /*C05*/
    requires cert_ok(c, roots, cur), extends_at(c, by, r, t), trust_ok(t, by, cur)
    ensures cert_ok(r, roots, cur)
{
    let k = choose|k: int| #[trigger] last_at(c, by, k) && r == c.subrange(0, k + 1).push(t);
    assert forall|i: int| 1 <= i < r.len() implies trust_ok(#[trigger] r[i], r[i - 1].issued_for, cur) by {
        if i <= k { assert(r[i] == c[i]); assert(r[i - 1] == c[i - 1]); } else { assert(r[k] == c[k]); }
    }
    assert(r[0] == c[0]);
}

// ---------------------------------------------------------------- binary form
pub open spec fn sec(t: Trust) -> bool { t.expires_at.n == 0 && t.issued_at.n == 0 }
/// the trust at one-second granularity
pub open spec fn tsec(t: Trust) -> Trust { Trust { issued_for: t.issued_for, expires_at: secs(t.expires_at.s), signature: t.signature, issued_at: secs(t.issued_at.s) } }
pub open spec fn fits(t: Trust) -> bool { pk_enc(t.issued_for).len() <= 255 && sig_enc(t.signature).len() <= 255 }
pub open spec fn trust_bytes(t: Trust) -> Seq<u8> {
    seq![pk_enc(t.issued_for).len() as u8] + pk_enc(t.issued_for) + seq![sig_enc(t.signature).len() as u8] + sig_enc(t.signature) + le8(t.expires_at.s) + le8(t.issued_at.s)
}
pub open spec fn tb_facts(t: Trust, b: Seq<u8>) -> bool {
    let n = pk_enc(t.issued_for).len() as int; let m = sig_enc(t.signature).len() as int;
    b.len() == n + m + 18 && b[0] == n as u8 && b.subrange(1, n + 1) == pk_enc(t.issued_for) && b[n + 1] == m as u8 && b.subrange(n + 2, n + 2 + m) == sig_enc(t.signature)
        && b.subrange(n + 2 + m, n + 10 + m) == le8(t.expires_at.s) && b.subrange(n + 10 + m, n + 18 + m) == le8(t.issued_at.s) && n > 0 && m > 0 && pk_bytes_ok(pk_enc(t.issued_for)) && sig_bytes_ok(sig_enc(t.signature))
}
pub proof fn lemma_trust_bytes(t: Trust)
    ensures tb_facts(t, trust_bytes(t))
{
    let b = trust_bytes(t); let n = pk_enc(t.issued_for).len() as int; let m = sig_enc(t.signature).len() as int;
    axiom_le8(t.expires_at.s); axiom_le8(t.issued_at.s); lemma_pk_enc(t.issued_for); lemma_sig_enc(t.signature);
    assert(b.subrange(1, n + 1) =~= pk_enc(t.issued_for)); assert(b.subrange(n + 2, n + 2 + m) =~= sig_enc(t.signature));
    assert(b.subrange(n + 2 + m, n + 10 + m) =~= le8(t.expires_at.s)); assert(b.subrange(n + 10 + m, n + 18 + m) =~= le8(t.issued_at.s));
}
/// two trusts with the same binary form are the same up to fractions of seconds
pub proof fn lemma_trust_bytes_inj(a: Trust, b: Trust) /*C14*/
    requires fits(a), fits(b), trust_bytes(a) == trust_bytes(b)
    ensures tsec(a) == tsec(b)
{
    lemma_trust_bytes(a); lemma_trust_bytes(b);
    lemma_pk_enc_inj(a.issued_for, b.issued_for); lemma_sig_enc_inj(a.signature, b.signature);
    lemma_le8_inj(a.expires_at.s, b.expires_at.s); lemma_le8_inj(a.issued_at.s, b.issued_at.s);
}
pub proof fn lemma_tsec(t: Trust) ensures trust_bytes(tsec(t)) == trust_bytes(t), sec(tsec(t)), sec(t) ==> tsec(t) == t, fits(tsec(t)) == fits(t) { }
/// the i-th .. last trusts, each preceded by its length
pub open spec fn chain_bytes(c: Seq<Trust>) -> Seq<u8> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { chain_bytes(c.drop_last()) + seq![trust_bytes(c.last()).len() as u8] + trust_bytes(c.last()) }
}
pub open spec fn cfits(c: Seq<Trust>) -> bool { forall|i: int| 0 <= i < c.len() ==> fits(#[trigger] c[i]) && trust_bytes(c[i]).len() <= 255 }
pub open spec fn cert_bytes(c: Seq<Trust>) -> Seq<u8> { seq![0u8, 0u8, 0u8, 0u8, 0u8, 0u8, c.len() as u8] + chain_bytes(c) }
pub open spec fn csec(c: Seq<Trust>) -> Seq<Trust> { Seq::new(c.len(), |i: int| tsec(c[i])) }
pub proof fn lemma_chain_prefix(c: Seq<Trust>, k: int)
    requires 0 <= k <= c.len()
    ensures chain_bytes(c.take(k)).len() <= chain_bytes(c).len(), chain_bytes(c).subrange(0, chain_bytes(c.take(k)).len() as int) == chain_bytes(c.take(k))
    decreases c.len()
{ hide(trust_bytes);
    if k == c.len() { assert(c.take(k) =~= c); assert(chain_bytes(c).subrange(0, chain_bytes(c).len() as int) =~= chain_bytes(c)); }
    else { lemma_chain_prefix(c.drop_last(), k); assert(c.drop_last().take(k) =~= c.take(k));
        let p = chain_bytes(c.drop_last()); let n = chain_bytes(c.take(k)).len() as int;
        assert(chain_bytes(c).subrange(0, n) =~= p.subrange(0, n)); }
}
pub proof fn lemma_chain_step(c: Seq<Trust>, k: int)
    requires 0 <= k < c.len()
    ensures chain_bytes(c.take(k + 1)) == chain_bytes(c.take(k)) + seq![trust_bytes(c[k]).len() as u8] + trust_bytes(c[k])
{ hide(trust_bytes); assert(c.take(k + 1).drop_last() =~= c.take(k)); assert(c.take(k + 1).last() == c[k]); }
/// where the k-th trust lies in the chain bytes
pub proof fn lemma_chain_at(c: Seq<Trust>, k: int)
    requires 0 <= k < c.len()
    ensures ({ let o = chain_bytes(c.take(k)).len() as int; let b = trust_bytes(c[k]);
        o + 1 + b.len() <= chain_bytes(c).len() && chain_bytes(c)[o] == b.len() as u8 && chain_bytes(c).subrange(o + 1, o + 1 + b.len()) == b && chain_bytes(c.take(k + 1)).len() == o + 1 + b.len() })
{ hide(trust_bytes);
    lemma_chain_step(c, k); lemma_chain_prefix(c, k + 1);
    let o = chain_bytes(c.take(k)).len() as int; let b = trust_bytes(c[k]); let q = chain_bytes(c.take(k + 1));
    assert(q[o] == chain_bytes(c).subrange(0, q.len() as int)[o]);
    assert(q.subrange(o + 1, o + 1 + b.len()) =~= b);
    assert(chain_bytes(c).subrange(o + 1, o + 1 + b.len()) =~= q.subrange(o + 1, o + 1 + b.len()));
}
/// chains of the same length whose bytes are prefixes of the same bytes are the same up to fractions of seconds
pub proof fn lemma_chain_inj(a: Seq<Trust>, b: Seq<Trust>, s: Seq<u8>) /*C14*/
    requires cfits(a), cfits(b), a.len() == b.len(), chain_bytes(a).is_prefix_of(s), chain_bytes(b).is_prefix_of(s)
    ensures csec(a) == csec(b), chain_bytes(a) == chain_bytes(b)
    decreases a.len()
{ hide(trust_bytes);
    if a.len() == 0 { assert(csec(a) =~= csec(b)); } else {
        let k = a.len() - 1;
        let a1 = a.drop_last(); let b1 = b.drop_last();
        assert(a.take(k) =~= a1); assert(b.take(k) =~= b1); assert(a.take(k + 1) =~= a); assert(b.take(k + 1) =~= b);
        lemma_chain_prefix(a, k); lemma_chain_prefix(b, k);
        assert(cfits(a1)) by { assert forall|i: int| 0 <= i < a1.len() implies fits(#[trigger] a1[i]) && trust_bytes(a1[i]).len() <= 255 by { assert(a1[i] == a[i]); } }
        assert(cfits(b1)) by { assert forall|i: int| 0 <= i < b1.len() implies fits(#[trigger] b1[i]) && trust_bytes(b1[i]).len() <= 255 by { assert(b1[i] == b[i]); } }
        assert(chain_bytes(a1).is_prefix_of(s)) by { assert(chain_bytes(a1) =~= s.subrange(0, chain_bytes(a1).len() as int)); }
        assert(chain_bytes(b1).is_prefix_of(s)) by { assert(chain_bytes(b1) =~= s.subrange(0, chain_bytes(b1).len() as int)); }
        lemma_chain_inj(a1, b1, s);
        lemma_chain_at(a, k); lemma_chain_at(b, k);
        let o = chain_bytes(a1).len() as int; let n = trust_bytes(a[k]).len() as int; let m = trust_bytes(b[k]).len() as int;
        assert(chain_bytes(a)[o] == s[o]); assert(chain_bytes(b)[o] == s[o]);
        assert(n == m);
        assert(trust_bytes(a[k]) =~= s.subrange(o + 1, o + 1 + n)); assert(trust_bytes(b[k]) =~= s.subrange(o + 1, o + 1 + n));
        lemma_trust_bytes_inj(a[k], b[k]);
        assert forall|i: int| 0 <= i < a.len() implies csec(a)[i] == csec(b)[i] by { if i < k { assert(csec(a1)[i] == csec(b1)[i]); assert(a1[i] == a[i]); assert(b1[i] == b[i]); } }
        assert(csec(a) =~= csec(b));
    }
}
/// what decoding bytes as a certificate means
pub open spec fn cert_decodes(b: Seq<u8>, c: Seq<Trust>) -> bool {
    &&& b.len() >= 7 && c.len() == b[6] && c.len() >= 2 && cfits(c) && csec(c) == c
    &&& chain_bytes(c).is_prefix_of(b.subrange(7, b.len() as int))
}
/// encode, then decode: the same certificate at one-second granularity
pub proof fn lemma_cert_binary_roundtrip(c: Seq<Trust>, d: Seq<Trust>) /*C14*/
    requires 2 <= c.len() <= 255, cfits(c), cert_decodes(cert_bytes(c), d)
    ensures d == csec(c)
{
    let b = cert_bytes(c);
    assert(b.subrange(7, b.len() as int) =~= chain_bytes(c));
    lemma_chain_inj(c, d, chain_bytes(c));
}
pub proof fn lemma_decodes_self(c: Seq<Trust>)
    requires 2 <= c.len() <= 255, cfits(c)
    ensures cert_decodes(cert_bytes(c), csec(c))
{
    let b = cert_bytes(c); assert(b.subrange(7, b.len() as int) =~= chain_bytes(c));
    lemma_csec_bytes(c); lemma_csec(c);
    assert(cfits(csec(c))) by { assert forall|i: int| 0 <= i < c.len() implies fits(#[trigger] csec(c)[i]) && trust_bytes(csec(c)[i]).len() <= 255 by { lemma_tsec(c[i]); assert(fits(c[i])); } }
}
pub proof fn lemma_csec(c: Seq<Trust>) ensures csec(csec(c)) == csec(c) { assert(csec(csec(c)) =~= csec(c)); }
pub proof fn lemma_csec_bytes(c: Seq<Trust>) ensures chain_bytes(csec(c)) == chain_bytes(c) decreases c.len()
{ if c.len() > 0 { lemma_csec_bytes(c.drop_last()); assert(csec(c).drop_last() =~= csec(c.drop_last())); lemma_tsec(c.last()); } }
/// every ed25519 and secp256k1 key fits
pub proof fn lemma_fits(t: Trust) /*C14*/
    requires !(t.issued_for is Rsa), sig_raw(t.signature).len() <= 100
    ensures fits(t), trust_bytes(t).len() <= 255
{ lemma_pk_enc(t.issued_for); lemma_sig_enc(t.signature); lemma_trust_bytes(t); }

pub proof fn lemma_cert_at(c: Seq<Trust>, s: Seq<u8>, d: Seq<Trust>, off: int, k: int)
    requires cfits(c), cfits(d), 2 <= c.len() <= 255, cert_bytes(c) == s, 7 <= off <= s.len(), chain_bytes(d) == s.subrange(7, off), d.len() == k, 0 <= k < c.len()
    ensures fits(c[k]), chain_bytes(c).len() == s.len() - 7, ({ let b = trust_bytes(c[k]); off + 1 + b.len() <= s.len() && s[off] == b.len() && s.subrange(off + 1, off + 1 + b.len()) == b })
{ hide(trust_bytes);
    let cb = chain_bytes(c); let t = c.take(k);
    assert(s.subrange(7, s.len() as int) =~= cb);
    lemma_chain_prefix(c, k); lemma_chain_at(c, k);
    assert(cfits(t)) by { assert forall|i: int| 0 <= i < t.len() implies fits(#[trigger] t[i]) && trust_bytes(t[i]).len() <= 255 by { assert(t[i] == c[i]); } }
    assert(chain_bytes(t).is_prefix_of(cb)) by { assert(chain_bytes(t) =~= cb.subrange(0, chain_bytes(t).len() as int)); }
    assert(chain_bytes(d).is_prefix_of(cb)) by { assert(chain_bytes(d) =~= cb.subrange(0, off - 7)); }
    lemma_chain_inj(t, d, cb);
    let o = chain_bytes(t).len() as int; let b = trust_bytes(c[k]);
    assert(o == off - 7); assert(cb[o] == s[off]);
    assert(s.subrange(off + 1, off + 1 + b.len()) =~= cb.subrange(o + 1, o + 1 + b.len()));
}

pub proof fn lemma_decode_step(s: Seq<u8>, d: Seq<Trust>, off: int, t: Trust)
    requires cfits(d), csec(d) == d, 7 <= off, off + 1 + trust_bytes(t).len() <= s.len(), chain_bytes(d) == s.subrange(7, off), fits(t), sec(t), trust_bytes(t).len() == s[off], s.subrange(off + 1, off + 1 + trust_bytes(t).len()) == trust_bytes(t)
    ensures cfits(d.push(t)), csec(d.push(t)) == d.push(t), chain_bytes(d.push(t)) == s.subrange(7, off + 1 + trust_bytes(t).len())
{ hide(trust_bytes);
    let e = d.push(t); let b = trust_bytes(t);
    assert(e.drop_last() =~= d); assert(e.last() == t);
    assert(csec(e) =~= e) by { assert forall|i: int| 0 <= i < e.len() implies csec(e)[i] == e[i] by { if i < d.len() { assert(csec(d)[i] == d[i]); } } }
    assert(cfits(e)) by { assert forall|i: int| 0 <= i < e.len() implies fits(#[trigger] e[i]) && trust_bytes(e[i]).len() <= 255 by { if i < d.len() { assert(e[i] == d[i]); } } }
    assert(chain_bytes(e) =~= s.subrange(7, off + 1 + b.len())) by {
        let x = s.subrange(7, off + 1 + b.len());
        assert forall|i: int| 0 <= i < x.len() implies x[i] == chain_bytes(e)[i] by {
            if i < off - 7 { assert(s.subrange(7, off)[i] == x[i]); } else if i > off - 7 { assert(b[i - (off - 7) - 1] == s.subrange(off + 1, off + 1 + b.len())[i - (off - 7) - 1]); }
        }
    }
}

// ---------------------------------------------------------------- text form
pub open spec fn nl() -> Seq<char> { "\n"@ }
pub proof fn lemma_nl() ensures nl() == seq!['\n'] { reveal_strlit("\n"); assert(nl() =~= seq!['\n']); }
pub open spec fn trust_text(t: Trust) -> Seq<char> { b58(pk_enc(t.issued_for)) + nl() + b58(sig_enc(t.signature)) + nl() + dec(t.expires_at.s) + nl() + dec(t.issued_at.s) }
pub open spec fn chain_text(c: Seq<Trust>) -> Seq<char> decreases c.len() { if c.len() == 0 { Seq::empty() } else { chain_text(c.drop_last()) + (trust_text(c.last()) + nl()) } }
pub open spec fn cert_text(c: Seq<Trust>) -> Seq<char> { (b58(seq![0u8, 0u8]) + nl()) + (b58(seq![0u8, 0u8, 0u8, 0u8]) + nl()) + chain_text(c) }
/// the four lines describe t
pub open spec fn tparse(l: Seq<Seq<char>>, i: int, t: Trust) -> bool {
    b58dec(l[i]) == Some(pk_enc(t.issued_for)) && b58dec(l[i + 1]) == Some(sig_enc(t.signature)) && parse_u64(l[i + 2]) == Some(t.expires_at.s) && parse_u64(l[i + 3]) == Some(t.issued_at.s) && sec(t)
}
pub open spec fn tparse4(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, t: Trust) -> bool {
    b58dec(a) == Some(pk_enc(t.issued_for)) && b58dec(b) == Some(sig_enc(t.signature)) && parse_u64(c) == Some(t.expires_at.s) && parse_u64(d) == Some(t.issued_at.s) && sec(t)
}
pub open spec fn tparse4_ok(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>) -> bool {
    b58dec(a) is Some && pk_bytes_ok(b58dec(a)->0) && b58dec(b) is Some && sig_bytes_ok(b58dec(b)->0) && parse_u64(c) is Some && parse_u64(d) is Some
}
pub open spec fn text_ok(l: Seq<Seq<char>>) -> bool { l.len() >= 2 && (l.len() - 2) % 4 == 0 && forall|i: int| 0 <= i < (l.len() - 2) / 4 ==> #[trigger] quad_ok(l, i) }
pub open spec fn quad_ok(l: Seq<Seq<char>>, i: int) -> bool { tparse4_ok(l[2 + 4 * i], l[3 + 4 * i], l[4 + 4 * i], l[5 + 4 * i]) }
pub open spec fn quad(l: Seq<Seq<char>>, i: int, t: Trust) -> bool { tparse4(l[2 + 4 * i], l[3 + 4 * i], l[4 + 4 * i], l[5 + 4 * i], t) }
pub open spec fn text_parses(l: Seq<Seq<char>>, c: Seq<Trust>) -> bool { l.len() == 2 + 4 * c.len() && forall|i: int| 0 <= i < c.len() ==> quad(l, i, #[trigger] c[i]) }
pub proof fn lemma_tparse_fn(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, t: Trust, u: Trust)
    requires tparse4(a, b, c, d, t), tparse4(a, b, c, d, u)
    ensures t == u
{ lemma_pk_enc_inj(t.issued_for, u.issued_for); lemma_sig_enc_inj(t.signature, u.signature); }
proof fn lemma_find(s: Seq<char>, i: int, k: int)
    requires 0 <= i <= k < s.len(), s[k] == '\n', forall|j: int| i <= j < k ==> s[j] != '\n'
    ensures find_nl(s, i) == k
    decreases k - i
{ if i < k { lemma_find(s, i + 1, k); } }
/// a line without line breaks, then the rest
pub proof fn lemma_lines(a: Seq<char>, r: Seq<char>)
    requires no_nl(a)
    ensures lines(a + nl() + r) == seq![a] + lines(r)
{
    lemma_nl(); let s = a + nl() + r; let k = a.len() as int;
    assert(s[k] == '\n');
    assert forall|j: int| 0 <= j < k implies s[j] != '\n' by { assert(s[j] == a[j]); }
    lemma_find(s, 0, k);
    assert(s.subrange(0, k) =~= a); assert(s.subrange(k + 1, s.len() as int) =~= r);
    assert(strip_cr(a) == a) by { if a.len() > 0 { assert(a[a.len() - 1] != '\r'); } }
}
pub open spec fn tlines(t: Trust) -> Seq<Seq<char>> { seq![b58(pk_enc(t.issued_for)), b58(sig_enc(t.signature)), dec(t.expires_at.s), dec(t.issued_at.s)] }
pub open spec fn clines(c: Seq<Trust>) -> Seq<Seq<char>> decreases c.len() { if c.len() == 0 { Seq::empty() } else { tlines(c[0]) + clines(c.subrange(1, c.len() as int)) } }
proof fn lemma_chain_text(c: Seq<Trust>)
    ensures c.len() > 0 ==> chain_text(c) == (trust_text(c[0]) + nl()) + chain_text(c.subrange(1, c.len() as int))
    decreases c.len()
{
    if c.len() > 1 {
        let d = c.drop_last(); lemma_chain_text(d);
        let e = c.subrange(1, c.len() as int);
        assert(e.drop_last() =~= d.subrange(1, d.len() as int)); assert(e.last() == c.last()); assert(d[0] == c[0]);
        assert(chain_text(c) =~= (trust_text(c[0]) + nl()) + chain_text(e));
    } else if c.len() == 1 {
        let e = c.subrange(1, 1); assert(e =~= Seq::empty()); assert(c.drop_last() =~= Seq::empty()); assert(chain_text(Seq::empty()) =~= Seq::empty()); assert(c.last() == c[0]);
        assert(chain_text(c) =~= (trust_text(c[0]) + nl()) + chain_text(e));
    }
}
proof fn lemma_lines4(l0: Seq<char>, l1: Seq<char>, l2: Seq<char>, l3: Seq<char>, r: Seq<char>)
    requires no_nl(l0), no_nl(l1), no_nl(l2), no_nl(l3)
    ensures lines(((l0 + nl() + l1 + nl() + l2 + nl() + l3) + nl()) + r) == seq![l0, l1, l2, l3] + lines(r)
{
    hide(lines); hide(no_nl); hide(nl);
    let r2 = l3 + nl() + r; let r1 = l2 + nl() + r2; let r0 = l1 + nl() + r1;
    lemma_lines(l3, r); lemma_lines(l2, r2); lemma_lines(l1, r1); lemma_lines(l0, r0);
    assert(((l0 + nl() + l1 + nl() + l2 + nl() + l3) + nl()) + r =~= l0 + nl() + r0);
    assert(seq![l0] + (seq![l1] + (seq![l2] + (seq![l3] + lines(r)))) =~= seq![l0, l1, l2, l3] + lines(r));
}
proof fn lemma_text_lines(c: Seq<Trust>)
    ensures lines(chain_text(c)) == clines(c)
    decreases c.len()
{
    hide(pk_enc); hide(sig_enc); hide(no_nl); hide(nl);
    if c.len() > 0 {
        let e = c.subrange(1, c.len() as int); let t = c[0];
        lemma_chain_text(c); lemma_text_lines(e);
        axiom_dec(t.expires_at.s); axiom_dec(t.issued_at.s);
        lemma_lines4(b58(pk_enc(t.issued_for)), b58(sig_enc(t.signature)), dec(t.expires_at.s), dec(t.issued_at.s), chain_text(e));
    }
}
proof fn lemma_clines(c: Seq<Trust>)
    ensures clines(c).len() == 4 * c.len(), forall|i: int| 0 <= i < c.len() ==> clines(c)[4 * i] == b58(pk_enc((#[trigger] c[i]).issued_for)) && clines(c)[4 * i + 1] == b58(sig_enc(c[i].signature)) && clines(c)[4 * i + 2] == dec(c[i].expires_at.s) && clines(c)[4 * i + 3] == dec(c[i].issued_at.s)
    decreases c.len()
{
    if c.len() > 0 {
        let e = c.subrange(1, c.len() as int); lemma_clines(e);
        assert forall|i: int| 0 <= i < c.len() implies clines(c)[4 * i] == b58(pk_enc((#[trigger] c[i]).issued_for)) && clines(c)[4 * i + 1] == b58(sig_enc(c[i].signature)) && clines(c)[4 * i + 2] == dec(c[i].expires_at.s) && clines(c)[4 * i + 3] == dec(c[i].issued_at.s) by {
            if i > 0 { assert(c[i] == e[i - 1]); assert(clines(c)[4 * i] == clines(e)[4 * (i - 1)]); }
        }
    }
}
/// render, then parse: accepted, and the same certificate at one-second granularity
pub proof fn lemma_text_roundtrip(c: Seq<Trust>) /*C15*/
    ensures text_ok(lines(cert_text(c))), forall|d: Seq<Trust>| #[trigger] text_parses(lines(cert_text(c)), d) ==> d == csec(c)
{
    let f = b58(seq![0u8, 0u8]); let v = b58(seq![0u8, 0u8, 0u8, 0u8]); let r = chain_text(c);
    lemma_lines(v, r); lemma_lines(f, v + nl() + r); lemma_text_lines(c); lemma_clines(c);
    assert(cert_text(c) =~= f + nl() + (v + nl() + r));
    let l = lines(cert_text(c));
    assert(l =~= seq![f, v] + clines(c));
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] quad_ok(l, i) && quad(l, i, tsec(c[i])) by {
        let t = c[i]; axiom_dec(t.expires_at.s); axiom_dec(t.issued_at.s); lemma_pk_enc(t.issued_for); lemma_sig_enc(t.signature);
        assert(l[2 + 4 * i] == clines(c)[4 * i]); assert(l[3 + 4 * i] == clines(c)[4 * i + 1]); assert(l[4 + 4 * i] == clines(c)[4 * i + 2]); assert(l[5 + 4 * i] == clines(c)[4 * i + 3]);
    }
    assert((l.len() - 2) / 4 == c.len());
    assert forall|d: Seq<Trust>| #[trigger] text_parses(l, d) implies d == csec(c) by {
        assert forall|i: int| 0 <= i < c.len() implies d[i] == csec(c)[i] by {
            assert(quad_ok(l, i));
            lemma_tparse_fn(l[2 + 4 * i], l[3 + 4 * i], l[4 + 4 * i], l[5 + 4 * i], d[i], tsec(c[i]));
        }
        assert(d =~= csec(c));
    }
}
// ---------------------------------------------------------------- serde forms
pub open spec fn certs_tok(c: Seq<Certificate>) -> crate::ext::serde::Tok { crate::ext::serde::Tok::L(Seq::new(c.len(), |i: int| crate::ext::serde::Tok::S(cert_text(c[i].chain@)))) }
pub open spec fn certs_dom(t: crate::ext::serde::Tok) -> bool { t is L && forall|i: int| 0 <= i < t->L_0.len() ==> (#[trigger] t->L_0[i]) is S }
pub open spec fn certs_ok(t: crate::ext::serde::Tok) -> bool { forall|i: int| 0 <= i < t->L_0.len() ==> text_ok(lines((#[trigger] t->L_0[i])->S_0)) }
pub open spec fn certs_read(t: crate::ext::serde::Tok, c: Seq<Certificate>) -> bool { c.len() == t->L_0.len() && forall|i: int| 0 <= i < c.len() ==> text_parses(lines(t->L_0[i]->S_0), (#[trigger] c[i]).chain@) }
pub open spec fn cert_at(b: String, c: Certificate) -> bool { text_ok(lines(b@)) && text_parses(lines(b@), c.chain@) }
pub open spec fn certs_upto(b: Seq<String>, c: Seq<Certificate>, n: int) -> bool { c.len() == n && n <= b.len() && forall|i: int| 0 <= i < n ==> cert_at(b[i], #[trigger] c[i]) }
pub proof fn lemma_certs_push(b: Seq<String>, c: Seq<Certificate>, d: Seq<Certificate>, n: int) /*C23*/
    requires certs_upto(b, c, n), n < b.len(), d.len() == n + 1, d =~= c.push(d[n]), text_ok(lines(b[n]@)), text_parses(lines(b[n]@), d[n].chain@)
    ensures certs_upto(b, d, n + 1)
{ assert forall|i: int| 0 <= i < n + 1 implies cert_at(b[i], #[trigger] d[i]) by { if i < n { assert(d[i] == c[i]); } } }
pub proof fn lemma_certs_done(t: crate::ext::serde::Tok, b: Seq<String>, c: Seq<Certificate>, ok: bool) /*C23*/
    requires certs_dom(t) ==> b.len() == t->L_0.len() && (forall|i: int| 0 <= i < b.len() ==> t->L_0[i] == crate::ext::serde::Tok::S((#[trigger] b[i])@)), ok ==> certs_upto(b, c, b.len() as int), !ok ==> exists|i: int| 0 <= i < b.len() && !text_ok(lines((#[trigger] b[i])@))
    ensures certs_dom(t) ==> (ok <==> certs_ok(t)), certs_dom(t) && ok ==> certs_read(t, c)
{
    if certs_dom(t) {
        if ok { assert forall|i: int| 0 <= i < t->L_0.len() implies text_ok(lines((#[trigger] t->L_0[i])->S_0)) by { assert(cert_at(b[i], c[i])); assert(t->L_0[i] == crate::ext::serde::Tok::S(b[i]@)); }
            assert forall|i: int| 0 <= i < c.len() implies text_parses(lines(t->L_0[i]->S_0), (#[trigger] c[i]).chain@) by { assert(t->L_0[i] == crate::ext::serde::Tok::S(b[i]@)); } }
        else { let i = choose|i: int| 0 <= i < b.len() && !text_ok(lines((#[trigger] b[i])@)); assert(t->L_0[i] == crate::ext::serde::Tok::S(b[i]@)); }
    }
}
/// the list that is written is read back: accepted, every certificate in its place, at one-second granularity
pub proof fn lemma_serde_certs(c: Seq<Certificate>) /*C23*/
    ensures certs_dom(certs_tok(c)), certs_ok(certs_tok(c)), forall|d: Seq<Certificate>| #[trigger] certs_read(certs_tok(c), d) ==> d.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] d[i]).chain@ == csec(c[i].chain@)
{
    let t = certs_tok(c);
    assert forall|i: int| 0 <= i < t->L_0.len() implies text_ok(lines((#[trigger] t->L_0[i])->S_0)) by { lemma_text_roundtrip(c[i].chain@); }
    assert forall|d: Seq<Certificate>, i: int| certs_read(t, d) && 0 <= i < c.len() implies (#[trigger] d[i]).chain@ == csec(c[i].chain@) by {
        lemma_text_roundtrip(c[i].chain@); assert(t->L_0[i]->S_0 == cert_text(c[i].chain@)); assert(text_parses(lines(t->L_0[i]->S_0), d[i].chain@)); }
}
/// a peer id that is written is read back
pub proof fn lemma_serde_peer(p: crate::ext::libp2p_identity::PeerId) /*C23*/
    ensures crate::ext::libp2p_identity::peer_parse(crate::ext::libp2p_identity::peer_b58(p@)) == Some(p@)
{ crate::ext::libp2p_identity::axiom_peer_text(p); }
}
