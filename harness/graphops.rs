// Random graphs for the model of common.rs.
use crate::common::*;
use fluence_keypair::{KeyFormat, PublicKey, Signature};
use std::time::Duration;
use trust_graph::{Auth, Revocation, Trust};

/// a random store: few keys, dense or sparse, several roots, cycles, self-signed trusts, revocations, expiries around `now`
pub fn gen_graph(r: &mut Rng, i: usize) -> (Model, Vec<PublicKey>, Duration) {
    if i % 25 == 7 { return wide(r, i / 25 % 5) }
    let n = 2 + r.below(if i % 5 == 4 { 5 } else { 4 });
    let keys: Vec<PublicKey> = (0..n).map(|k| if k == i % 9 { rsa_public(i) } else if k % 3 == 2 { secp(r).public() } else { ed(r).public() }).collect();
    let now = match r.below(6) { 0 => Duration::from_secs(0), 1 => Duration::new(100, 999_999_999), _ => Duration::from_secs(100) };
    let mut m = Model::default();
    let nroots = *r.pick(&[0usize, 1, 1, 1, 2, 2, 3]);
    for k in 0..nroots.min(n) { m.roots.insert(tagged(&keys[k]), factor(*r.pick(&[0u32, 1, 1, 2, 3, 5, 15, 16, 40]))); }
    let dens = *r.pick(&[15usize, 30, 50, 80]); let rev = *r.pick(&[0usize, 10, 10, 25, 60]);
    for f in 0..n { for b in 0..n {
        let p = if f == b { if f < nroots { 85 } else { 25 } } else { dens };
        if !r.chance(p) { if r.chance(rev / 2) && f != b { let at = Duration::from_secs(r.next() % 50); let s = Signature::from_bytes(KeyFormat::Ed25519, r.bytes(64)); m.put(Rel::R(Revocation::new(keys[b].clone(), keys[f].clone(), at, s))); } continue }
        let exp = match r.below(12) { 0 => now.as_secs().saturating_sub(1), 1 => now.as_secs(), 2 => now.as_secs() + 1, 3 => u64::MAX, 4 => (1 << 63) + 5, _ => now.as_secs() + 100 };
        let at = Duration::from_secs(r.next() % 50); let s = Signature::from_bytes(KeyFormat::Ed25519, r.bytes(64));
        if r.chance(rev / 3) { m.put(Rel::R(Revocation::new(keys[b].clone(), keys[f].clone(), at, s))); }
        else { m.put(Rel::A(Auth { trust: Trust::new(keys[f].clone(), Duration::from_secs(exp), at, s), issued_by: keys[b].clone() })); }
    } }
    (m, keys, now)
}
/// one key with many issuers (the subject, or one before it), or a long chain; the subject is the first key
fn wide(r: &mut Rng, kind: usize) -> (Model, Vec<PublicKey>, Duration) {
    let n = 12 + r.below(60);
    let keys: Vec<PublicKey> = (0..n).map(|_| ed(r).public()).collect();
    let mut m = Model::default(); let now = Duration::from_secs(100);
    m.roots.insert(tagged(&keys[1]), factor(*r.pick(&[2u32, 5, 16, 40])));
    let mut add = |r: &mut Rng, f: usize, b: usize| { let s = Signature::from_bytes(KeyFormat::Ed25519, r.bytes(64)); m.put(Rel::A(Auth { trust: Trust::new(keys[f].clone(), Duration::from_secs(1000), Duration::from_secs(r.next() % 50), s), issued_by: keys[b].clone() })); };
    add(r, 1, 1);
    match kind { 0 => for k in 2..n { add(r, k, 1); add(r, 0, k) },
        // the best certificate is among the longest
        3 => { for k in 5..n { add(r, k, 1); add(r, 0, k) } add(r, 2, 2); add(r, 3, 2); add(r, 4, 3); add(r, 0, 4) }
        // many others have revoked the subject
        4 => { for k in 2..5 { add(r, k, 1); add(r, 0, k) } }
        1 => { for k in 3..n { add(r, k, 1); add(r, 2, k) } add(r, 0, 2) } _ => { for k in 2..n { add(r, k, k - 1) } add(r, 0, n - 1) } }
    if kind == 3 { m.roots.insert(tagged(&keys[1]), factor(3)); m.roots.insert(tagged(&keys[2]), factor(12)); }
    if kind == 4 { for b in 5..n { let s = Signature::from_bytes(KeyFormat::Ed25519, r.bytes(64)); m.put(Rel::R(Revocation::new(keys[b].clone(), keys[0].clone(), Duration::from_secs(60), s))); } let b = 1; let s = Signature::from_bytes(KeyFormat::Ed25519, r.bytes(64)); m.put(Rel::R(Revocation::new(keys[b].clone(), keys[0].clone(), Duration::from_secs(60), s))); }
    if kind != 3 && r.chance(40) { let (f, b) = (r.below(n), r.below(n)); let s = Signature::from_bytes(KeyFormat::Ed25519, r.bytes(64)); m.put(Rel::R(Revocation::new(keys[b].clone(), keys[f].clone(), Duration::from_secs(60), s))); }
    let s = keys[0].clone();
    (m, vec![s; 1].into_iter().chain(keys.into_iter().skip(if r.chance(50) { n } else { 1 })).collect(), now)
}
pub fn name(keys: &[PublicKey], k: &PublicKey) -> String { keys.iter().position(|x| tagged(x) == tagged(k)).map(|i| format!("k{i}")).unwrap_or_else(|| hexs(&tagged(k))) }
pub fn show(m: &Model, keys: &[PublicKey], now: Duration) -> String {
    let mut s = format!("graph at {:?}: roots", now);
    for (k, w) in &m.roots { s += &format!(" {}(factor {})", keys.iter().position(|x| &tagged(x) == k).map(|i| format!("k{i}")).unwrap_or_default(), w); }
    for r in m.rel.values() { s += &match r { Rel::A(a) => format!("; {} trusts {} (exp {} at {})", name(keys, &a.issued_by), name(keys, &a.trust.issued_for), a.trust.expires_at.as_secs(), a.trust.issued_at.as_secs()), Rel::R(v) => format!("; {} revokes {} (at {})", name(keys, &v.revoked_by), name(keys, &v.pk), v.revoked_at.as_secs()) }; }
    s
}
pub fn short(keys: &[PublicKey], c: &[String]) -> String { c.iter().map(|t| { let h = t.split('|').next().unwrap_or(""); keys.iter().position(|k| hexs(&tagged(k)) == h).map(|i| format!("k{i}")).unwrap_or_else(|| h.to_string()) }).collect::<Vec<_>>().join("->") }
pub fn rel_str(r: &Rel) -> String { match r { Rel::A(a) => akey(a), Rel::R(v) => rkey(v) } }
pub fn diff(want: &Model, got: &Model) -> String {
    let mut s = String::new();
    for (k, v) in &want.rel { match got.rel.get(k) { None => s += &format!("missing {}; ", rel_str(v)), Some(g) => if rel_str(g) != rel_str(v) { s += &format!("{} instead of {}; ", rel_str(g), rel_str(v)) } } }
    for (k, v) in &got.rel { if !want.rel.contains_key(k) { s += &format!("unexpected {}; ", rel_str(v)) } }
    if want.roots != got.roots { s += &format!("roots {:?} instead of {:?}", got.roots.values().collect::<Vec<_>>(), want.roots.values().collect::<Vec<_>>()) }
    s
}
