// Executable forms of C01-C10 and C14-C18 against the real crates: the witness search behind the proofs.
#[path = "../../common.rs"]
#[macro_use]
mod common;
#[path = "../../graphops.rs"]
#[macro_use]
mod graphops;
use common::*;
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use std::collections::HashMap;
use std::convert::TryFrom;
use std::str::FromStr;
use std::time::Duration;
use trust_graph::{Auth, Certificate, PublicKeyHashable, Revocation, Storage, StorageError, Trust, TrustRelation};

// ---------------------------------------------------------------- C01
fn c01_verify(r: &mut Rng, _: usize) -> Res {
    let a = keypair(r); let b = keypair(r); let c = keypair(r);
    let (exp, iat) = (dur(r), dur(r));
    let t = Trust::create(&a, b.public(), exp, iat);
    ensure!(t.issued_for == b.public() && t.expires_at == exp && t.issued_at == iat, "create changed a field: {}", fmt_trust(&t));
    let mut tt = t.clone(); let mut by = a.public();
    match r.below(9) {
        0 => tt.issued_for = c.public(),
        1 => tt.expires_at = near(r, exp),
        2 => tt.issued_at = near(r, iat),
        3 => tt.signature = Signature::from_bytes(t.signature.get_signature_type(), flip(r, t.signature.to_vec())),
        4 => by = c.public(),
        5 => { std::mem::swap(&mut tt.expires_at, &mut tt.issued_at) }
        6 => { let x = sig_any(r); tt.signature = Signature::from_bytes(x.get_signature_type(), t.signature.to_vec().to_vec()) }
        7 => { tt.signature = c.sign(&Trust::signature_bytes(&tt.issued_for, tt.expires_at, tt.issued_at)).map_err(|e| format!("{e}"))? }
        _ => (),
    }
    let now = near(r, tt.expires_at);
    // what was verified before must not matter
    let first = r.chance(60) && exp >= now; if first { ensure!(Trust::verify(&t, &a.public(), now).is_ok(), "{} issuer={} now={:?}: refused", fmt_trust(&t), hexs(&tagged(&a.public())), now); }
    let want = tt.expires_at >= now && oracle_verify(&by, &msg_trust(&tt), tt.signature.to_vec());
    let got = Trust::verify(&tt, &by, now).is_ok();
    ensure!(want == got, "{} issuer={} now={:?}: verify says {}, the definition {}{}", fmt_trust(&tt), hexs(&tagged(&by)), now, got, want, if first { format!(" (after verifying {} by {})", fmt_trust(&t), hexs(&tagged(&a.public()))) } else { String::new() });
    if first { ensure!(Trust::verify(&t, &a.public(), now).is_ok(), "{} refused after {} was verified", fmt_trust(&t), fmt_trust(&tt)); if let Some(l) = exp.checked_add(Duration::from_secs(1)) { ensure!(Trust::verify(&t, &a.public(), l).is_err(), "{} still accepted at {:?} after it was verified at {:?}", fmt_trust(&t), l, now); } }
    // and independently of the code's own message: no field may change what is signed
    if tt.expires_at >= now && tagged(&by) == tagged(&a.public()) && sig_same(&tt.signature, &t.signature) {
        let same = tagged(&tt.issued_for) == tagged(&t.issued_for) && tt.expires_at.as_secs() == exp.as_secs() && tt.issued_at.as_secs() == iat.as_secs();
        ensure!(got == same, "{} was signed as {}: verify says {}", fmt_trust(&tt), fmt_trust(&t), got);
    }
    Ok(())
}
fn sig_same(a: &Signature, b: &Signature) -> bool { a.to_vec() == b.to_vec() }
fn msg_trust(t: &Trust) -> Vec<u8> { Trust::signature_bytes(&t.issued_for, t.expires_at, t.issued_at) }
/// the signed messages, written independently: what other implementations sign
fn layout_trust(k: &PublicKey, e: Duration, i: Duration) -> Vec<u8> { use sha2::Digest; let mut v = tagged(k); v.extend(e.as_secs().to_le_bytes()); v.extend(i.as_secs().to_le_bytes()); sha2::Sha256::digest(&v).to_vec() }
fn layout_rev(k: &PublicKey, at: Duration) -> Vec<u8> { use sha2::Digest; let t = tagged(k); let mut v = vec![t.len() as u8]; v.extend(t); v.extend(at.as_secs().to_le_bytes()); sha2::Sha256::digest(&v).to_vec() }
fn c01_layout(r: &mut Rng, i: usize) -> Res {
    let (a, k) = (kinds(r.below(9), r), kinds(i, r).public()); let (e, at) = (dur(r), dur(r));
    let m = layout_trust(&k, e, at);
    ensure!(Trust::signature_bytes(&k, e, at) == m, "message of trust for {} expires {:?} issued {:?} is {}", hexs(&tagged(&k)), e, at, hexs(&Trust::signature_bytes(&k, e, at)));
    let t = Trust::new(k, e, at, a.sign(&m).map_err(|e| e.to_string())?);
    ensure!(Trust::verify(&t, &a.public(), e).is_ok(), "a trust signed elsewhere is refused: {} by {}", fmt_trust(&t), hexs(&tagged(&a.public())));
    Ok(())
}
fn c02_layout(r: &mut Rng, i: usize) -> Res {
    let (a, k) = (kinds(r.below(9), r), kinds(i, r).public()); let at = dur(r);
    let m = layout_rev(&k, at);
    ensure!(Revocation::signature_bytes(&k, at) == m, "message of revocation of {} at {:?} is {}", hexs(&tagged(&k)), at, hexs(&Revocation::signature_bytes(&k, at)));
    let v = Revocation::new(a.public(), k, at, a.sign(&m).map_err(|e| e.to_string())?);
    ensure!(Revocation::verify(&v).is_ok(), "a revocation signed elsewhere is refused: {}", rkey(&v));
    Ok(())
}
fn c01_message(r: &mut Rng, _: usize) -> Res {
    let ks: Vec<PublicKey> = (0..3).map(|_| keypair(r).public()).collect();
    let ts: Vec<Duration> = (0..4).map(|_| wdur(r)).collect();
    let mut seen: HashMap<Vec<u8>, (usize, u64, u64)> = HashMap::new();
    for (i, k) in ks.iter().enumerate() { for e in &ts { for j in &ts {
        let i = ks.iter().position(|x| tagged(x) == tagged(&ks[i])).unwrap();
        let m = Trust::signature_bytes(k, *e, *j);
        let v = (i, e.as_secs(), j.as_secs());
        if let Some(o) = seen.insert(m, v) { ensure!(o == v, "two different trusts have the same message: key#/expiry/creation {:?} and {:?} (keys {})", o, v, ks.iter().map(|k| hexs(&tagged(k))).collect::<Vec<_>>().join(",")); }
    } } }
    Ok(())
}
// ---------------------------------------------------------------- C02
fn c02_verify(r: &mut Rng, _: usize) -> Res {
    let a = keypair(r); let b = keypair(r); let c = keypair(r);
    let at = dur(r);
    let v = Revocation::create(&a, b.public(), at);
    ensure!(v.pk == b.public() && v.revoked_by == a.public() && v.revoked_at == at, "create changed a field");
    let mut w = v.clone();
    match r.below(8) {
        0 => w.pk = c.public(),
        1 => w.revoked_at = near(r, at),
        2 => w.revoked_by = c.public(),
        3 => w.signature = Signature::from_bytes(v.signature.get_signature_type(), flip(r, v.signature.to_vec())),
        4 => std::mem::swap(&mut w.pk, &mut w.revoked_by),
        5 => { let e = dur(r); w.signature = Trust::create(&a, w.pk.clone(), *r.pick(&[at, e]), at).signature }
        6 => { w.signature = b.sign(&Revocation::signature_bytes(&w.pk, w.revoked_at)).map_err(|e| format!("{e}"))? }
        _ => (),
    }
    if r.chance(60) { ensure!(Revocation::verify(&v).is_ok(), "{} refused", rkey(&v)); }
    let want = oracle_verify(&w.revoked_by, &Revocation::signature_bytes(&w.pk, w.revoked_at), w.signature.to_vec());
    let got = Revocation::verify(&w).is_ok();
    ensure!(want == got, "{}: verify says {}, the definition {}", rkey(&w), got, want);
    if sig_same(&w.signature, &v.signature) && tagged(&w.revoked_by) == tagged(&a.public()) {
        let same = tagged(&w.pk) == tagged(&v.pk) && w.revoked_at.as_secs() == at.as_secs();
        ensure!(got == same, "{} was signed as {}: verify says {}", rkey(&w), rkey(&v), got);
    }
    if got { ensure!(sig_same(&w.signature, &v.signature) || tagged(&w.revoked_by) == tagged(&a.public()) || tagged(&w.revoked_by) == tagged(&b.public()), "{}: accepted without the revoker signing it", rkey(&w)); }
    Ok(())
}
fn c02_domain(r: &mut Rng, _: usize) -> Res {
    let ks: Vec<PublicKey> = (0..3).map(|_| small_keypair(r).public()).collect();
    let mut ts: Vec<Duration> = (0..3).map(|_| wdur(r)).collect(); ts.push(Duration::ZERO);
    let mut tm = HashMap::new();
    for (i, k) in ks.iter().enumerate() { for e in &ts { for j in &ts { tm.insert(Trust::signature_bytes(k, *e, *j), (i, e.as_secs(), j.as_secs())); } } }
    let mut rm: HashMap<Vec<u8>, (usize, u64)> = HashMap::new();
    for (i, k) in ks.iter().enumerate() { for e in &ts {
        let m = Revocation::signature_bytes(k, *e);
        ensure!(tm.get(&m).is_none(), "revocation of {} at {} has the message of trust {:?}", hexs(&tagged(k)), e.as_secs(), tm[&m]);
        if let Some(o) = rm.insert(m, (i, e.as_secs())) { ensure!(o == (i, e.as_secs()), "two different revocations share a message: {:?} {:?}", o, (i, e.as_secs())); }
    } }
    Ok(())
}
// ---------------------------------------------------------------- C03
fn c03_sign(r: &mut Rng, i: usize) -> Res {
    let kp = kinds(i, r); let other = kinds(r.below(9), r);
    let n = *r.pick(&[0usize, 1, 31, 32, 33, 64, 200, 1000, 1024, 1025, 4096, 4097, 8193, 70000]);
    let msg = r.bytes(n); use sha2::Digest;
    let pk = kp.public();
    let s = kp.sign(&msg).map_err(|e| format!("sign refused: {e}"))?;
    ensure!(sig_tag(&s) == raw_key(&pk).0, "signature of type {} from key of type {}", sig_tag(&s), raw_key(&pk).0);
    ensure!(KeyFormat::from_str(&String::from(s.get_signature_type())).map(u8::from).ok() == Some(sig_tag(&s)), "signature type name does not name its type");
    ensure!(pk.verify(&msg, &s).is_ok() && KeyPair::verify(&pk, &msg, &s).is_ok(), "own signature refused: key {} msg {}", hexs(&tagged(&pk)), hexs(&msg));
    ensure!(oracle_verify(&pk, &msg, s.to_vec()), "signature refused by libp2p-identity: key {} msg {} sig {}", hexs(&tagged(&pk)), hexs(&msg), hexs(s.to_vec()));
    for j in 0..9 {
        let (mut m2, mut s2, mut k2) = (msg.clone(), s.to_vec().to_vec(), pk.clone());
        if j == 6 { m2 = sha2::Sha256::digest(&msg).to_vec() } else if j == 7 { m2 = if r.chance(50) { sha2::Sha512::digest(&msg).to_vec() } else { let n = r.below(msg.len() + 1); msg[..n].to_vec() } } else if j == 8 { m2.push(0) } else { match r.below(4) { 0 => m2 = flip(r, &msg), 1 => s2 = flip(r, &s2), 2 => k2 = other.public(), _ => { let n = *r.pick(&[0usize, 1, 5, 63, 64, 65, 72, 256]); s2 = r.bytes(n) } } }
        let want = oracle_verify(&k2, &m2, &s2);
        // the type a signature claims does not matter to the key that checks it
        let sg = Signature::from_bytes(if r.chance(80) { s.get_signature_type() } else { sig_any(r).get_signature_type() }, s2.clone());
        let got = k2.verify(&m2, &sg).is_ok();
        ensure!(got == want, "key {} msg {} sig {}: verify says {}, the scheme {}", hexs(&tagged(&k2)), hexs(&m2), hexs(&s2), got, want);
        ensure!(KeyPair::verify(&k2, &m2, &sg).is_ok() == got, "KeyPair::verify differs from PublicKey::verify");
    }
    Ok(())
}
/// signatures made by the bare scheme: over the hash, over the bytes themselves, high and low halves
fn c03_scheme(r: &mut Rng, _: usize) -> Res {
    let kp = secp(r); let pk = kp.public(); let sec = kp.secret().map_err(|e| e.to_string())?;
    let sk = libsecp256k1::SecretKey::parse_slice(&sec).map_err(|e| e.to_string())?;
    let msg = if r.chance(70) { r.bytes(32) } else { let n = r.below(70); r.bytes(n) };
    let mut d = [0u8; 32]; let hashed = r.chance(50);
    if hashed { use sha2::Digest; d.copy_from_slice(&sha2::Sha256::digest(&msg)); } else { for (i, b) in msg.iter().take(32).enumerate() { d[i] = *b } }
    let (mut sg, _) = libsecp256k1::sign(&libsecp256k1::Message::parse(&d), &sk);
    if r.chance(30) { sg.s = -sg.s; }
    let mut bytes = sg.serialize_der().as_ref().to_vec();
    match r.below(8) { 0 => bytes = sg.serialize().to_vec(), 1 => bytes.push(0), 2 => bytes = flip(r, &bytes), 3 => { bytes.insert(0, bytes.len() as u8); }, _ => () }
    let want = oracle_verify(&pk, &msg, &bytes);
    let got = pk.verify(&msg, &Signature::from_bytes(KeyFormat::Secp256k1, bytes.clone())).is_ok();
    ensure!(got == want, "key {} msg {} sig {} ({} message): verify says {}, the scheme {}", hexs(&tagged(&pk)), hexs(&msg), hexs(&bytes), if hashed { "hashed" } else { "bare" }, got, want);
    Ok(())
}
// ---------------------------------------------------------------- C04, C05
fn chain(r: &mut Rng, kps: &[KeyPair], exp: Duration) -> Certificate {
    let mut c = vec![];
    for i in 0..kps.len() { let iat = wdur(r); let e = if r.chance(30) { Duration::from_secs(u64::MAX) } else { exp }; c.push(Trust::create(&kps[if i == 0 { 0 } else { i - 1 }], kps[i].public(), e, iat)); }
    Certificate::new_unverified(c)
}
fn cert_ok(c: &Certificate, roots: &[PublicKey], now: Duration) -> bool {
    let ch = &c.chain;
    !ch.is_empty() && roots.iter().any(|k| tagged(k) == tagged(&ch[0].issued_for))
        && ch.iter().enumerate().all(|(i, t)| { let by = if i == 0 { &t.issued_for } else { &ch[i - 1].issued_for }; t.expires_at >= now && oracle_verify(by, &msg_trust(t), t.signature.to_vec()) })
}
fn pool(r: &mut Rng, n: usize) -> Vec<KeyPair> { let k: Vec<KeyPair> = (0..5).map(|i| if i == 4 && r.chance(20) { keypair(r) } else { small_keypair(r) }).collect(); (0..n).map(|_| r.pick(&k).clone()).collect() }
fn damage(r: &mut Rng, c: &mut Certificate, kps: &[KeyPair], exp: Duration) {
    let n = c.chain.len(); if n == 0 { return }
    let i = if r.chance(30) { 0 } else if r.chance(30) { n - 1 } else { r.below(n) };
    match r.below(12) {
        0 => { c.chain.remove(i); }
        1 => { let j = r.below(n); c.chain.swap(i, j) }
        2 => { let t = c.chain[i].clone(); c.chain.insert(i, t) }
        3 => c.chain[i].signature = { let s = c.chain[i].signature.clone(); Signature::from_bytes(s.get_signature_type(), flip(r, s.to_vec())) },
        4 => { let k = r.pick(kps).public(); c.chain[i].issued_for = k }
        5 => { c.chain[i].expires_at = near(r, exp) }
        6 => { c.chain[i].issued_at = near(r, exp) }
        7 => { c.chain.clear() }
        8 => { c.chain.truncate(i) }
        9 => { // the key signs its own trust instead of its giver
            let k = c.chain[i].issued_for.clone(); if let Some(kp) = kps.iter().find(|x| x.public() == k) { c.chain[i] = Trust::create(kp, k, c.chain[i].expires_at, c.chain[i].issued_at) } }
        10 => { // someone else signs
            let kp = r.pick(kps); c.chain[i] = Trust::create(kp, c.chain[i].issued_for.clone(), c.chain[i].expires_at, c.chain[i].issued_at) }
        _ => { // genuinely expired element
            let by = if i == 0 { c.chain[0].issued_for.clone() } else { c.chain[i - 1].issued_for.clone() };
            let e = exp.checked_sub(Duration::from_secs(1 + r.next() % 3)).unwrap_or(exp);
            if let Some(kp) = kps.iter().find(|x| x.public() == by) { c.chain[i] = Trust::create(kp, c.chain[i].issued_for.clone(), e, c.chain[i].issued_at) } }
    }
}
fn c04_verify(r: &mut Rng, i: usize) -> Res {
    let n = if i % 160 == 9 { 250 + r.below(60) } else if i % 60 == 5 { 60 + r.below(80) } else if r.chance(8) { 7 + r.below(40) } else { 1 + r.below(6) };
    let kps = pool(r, n); let exp = dur(r);
    let mut c = chain(r, &kps, exp);
    if r.chance(30) { let _ = Certificate::verify(&c, &[kps[0].public()], exp); }
    if r.chance(70) || n > 50 { damage(r, &mut c, &kps, exp); }
    let mut roots: Vec<PublicKey> = (0..r.below(3)).map(|_| small_keypair(r).public()).collect();
    if r.chance(80) { roots.push(kps[0].public()) }
    if r.chance(30) { roots.push(kps[n - 1].public()) }
    r.shuffle(&mut roots);
    let now = if r.chance(60) { exp } else { near(r, exp) };
    let want = cert_ok(&c, &roots, now);
    let got = Certificate::verify(&c, &roots, now).is_ok();
    ensure!(want == got, "chain {:?} roots {:?} now {:?}: verify says {}, the definition {}", ckey(&c), roots.iter().map(|k| hexs(&tagged(k))).collect::<Vec<_>>(), now, got, want);
    Ok(())
}
/// one bad element, anywhere in a long chain
fn c04_long(r: &mut Rng, i: usize) -> Res {
    let n = [18usize, 34, 66, 130, 260, 520][i % 6]; let n = n + r.below(4);
    let kps = pool(r, n); let exp = dur(r); let c = chain(r, &kps, exp); let roots = [kps[0].public()];
    ensure!(Certificate::verify(&c, &roots, exp).is_ok(), "unbroken chain of {n} trusts refused");
    for p in [1, 2, n / 2, 1 + r.below(n - 1)] {
        let mut b = c.clone(); let t = b.chain[p].clone();
        b.chain[p].signature = Signature::from_bytes(t.signature.get_signature_type(), { let mut s = t.signature.to_vec().to_vec(); let l = s.len(); s[l - 2] ^= 4; s });
        ensure!(Certificate::verify(&b, &roots, exp).is_err(), "chain of {n} trusts accepted with a bad signature at {p}: {:?}", ckey(&b));
    }
    Ok(())
}
fn c05_issue(r: &mut Rng, i: usize) -> Res {
    let n = if i % 160 == 9 { 250 + r.below(60) } else if i % 60 == 5 { 60 + r.below(80) } else if r.chance(6) { 6 + r.below(20) } else { 1 + r.below(5) };
    let kps = pool(r, n); let exp = dur(r);
    let mut c = chain(r, &kps, exp);
    if r.chance(40) { damage(r, &mut c, &kps, exp); }
    let by = if r.chance(85) { r.pick(&kps).clone() } else { small_keypair(r) };
    let subj = if r.chance(80) { small_keypair(r).public() } else { r.pick(&kps).public() };
    let now = if r.chance(70) { exp.checked_sub(Duration::from_secs(1)).unwrap_or(exp) } else { near(r, exp) };
    let iat = dur(r);
    let nexp = match r.below(4) { 0 => near(r, iat), 1 => near(r, now), 2 => Duration::from_secs(u64::MAX), _ => exp };
    let verifies = !c.chain.is_empty() && cert_ok(&c, &[c.chain[0].issued_for.clone()], now);
    let pos = c.chain.iter().rposition(|t| tagged(&t.issued_for) == tagged(&by.public()));
    let base = nexp >= iat && verifies && pos.is_some();
    let what = || format!("chain {:?} issuer {} subject {} expires {:?} issued {:?} now {:?}", ckey(&c), hexs(&tagged(&by.public())), hexs(&tagged(&subj)), nexp, iat, now);
    let judge = |name: &str, got: Result<Certificate, String>, want: bool, sig: Option<&Signature>| -> Res {
        ensure!(got.is_ok() == want, "{} {}: returned {:?}, expected {}", name, what(), got.as_ref().err(), if want { "a certificate" } else { "a refusal" });
        if let Ok(g) = got {
            let p = pos.unwrap();
            ensure!(g.chain.len() == p + 2 && g.chain[..=p] == c.chain[..=p], "{} {}: wrong prefix {:?}", name, what(), ckey(&g));
            let t = &g.chain[p + 1];
            ensure!(t.issued_for == subj && t.expires_at == nexp && t.issued_at == iat, "{} {}: wrong new trust {}", name, what(), fmt_trust(t));
            if let Some(s) = sig { ensure!(&t.signature == s, "{}: signature changed", name); }
            ensure!(oracle_verify(&by.public(), &msg_trust(t), t.signature.to_vec()), "{} {}: new trust not signed by the issuer", name, what());
            if nexp >= now { ensure!(Certificate::verify(&g, &[c.chain[0].issued_for.clone()], now).is_ok(), "{} {}: the result does not verify", name, what()); }
        }
        Ok(())
    };
    judge("issue", Certificate::issue(&by, subj.clone(), &c, nexp, iat, now).map_err(|e| e.to_string()), base, None)?;
    let mut t = Trust::create(&by, subj.clone(), nexp, iat);
    let mut good = true;
    if r.chance(35) {
        match r.below(3) {
            0 => { t = Trust::create(r.pick(&kps), subj.clone(), nexp, iat) }
            1 => { t.signature = Signature::from_bytes(t.signature.get_signature_type(), flip(r, t.signature.to_vec())) }
            _ => { t = Trust::create(&by, kps[0].public(), nexp, iat); t.issued_for = subj.clone() }
        }
        good = oracle_verify(&by.public(), &msg_trust(&t), t.signature.to_vec());
    }
    let s = t.signature.clone();
    judge("issue_with_trust", Certificate::issue_with_trust(by.public(), t, &c, now).map_err(|e| e.to_string()), base && good && nexp >= now, Some(&s))
}
fn c05_root(r: &mut Rng, _: usize) -> Res {
    let (a, b) = (keypair(r), keypair(r)); let (e, i) = (dur(r), dur(r));
    let c = Certificate::issue_root(&a, b.public(), e, i);
    ensure!(c.chain.len() == 2 && c.chain[0].issued_for == a.public() && c.chain[1].issued_for == b.public(), "wrong chain {:?}", ckey(&c));
    ensure!(c.chain[0].expires_at >= Duration::from_secs(u64::MAX), "root trust expires at {:?}", c.chain[0].expires_at);
    ensure!(c.chain[1].expires_at == e && c.chain[1].issued_at == i, "wrong times {:?}", ckey(&c));
    ensure!(c.chain.iter().all(|t| oracle_verify(&a.public(), &msg_trust(t), t.signature.to_vec())), "not signed by the root: {:?}", ckey(&c));
    ensure!(Certificate::verify(&c, &[a.public()], e.min(Duration::from_secs(u64::MAX))).is_ok(), "does not verify: {:?}", ckey(&c));
    // two supplied trusts
    let kps = [a.clone(), b.clone()];
    let mut c2 = chain(r, &kps, e);
    if r.chance(50) { damage(r, &mut c2, &kps, e); }
    if c2.chain.len() == 2 {
        let now = near(r, e);
        let want = cert_ok(&c2, &[c2.chain[0].issued_for.clone()], now);
        let got = Certificate::new_from_root_trust(c2.chain[0].clone(), c2.chain[1].clone(), now);
        ensure!(got.is_ok() == want, "new_from_root_trust {:?} now {:?}: {:?}", ckey(&c2), now, got.as_ref().err().map(|e| e.to_string()));
        if let Ok(g) = got { ensure!(g == c2, "new_from_root_trust changed the chain"); }
    }
    Ok(())
}
// ---------------------------------------------------------------- C06-C10 over an in-memory store
#[derive(Debug)] pub struct Fault(&'static str);
impl std::fmt::Display for Fault { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "injected {}", self.0) } }
impl std::error::Error for Fault {}
impl StorageError for Fault {}
pub struct Mem { m: std::rc::Rc<std::cell::RefCell<Model>>, order: u64, calls: std::cell::Cell<usize>, fail_at: usize, writes: std::rc::Rc<std::cell::Cell<usize>>, failed: std::rc::Rc<std::cell::Cell<bool>> }
impl Mem {
    fn tick(&self, n: &'static str) -> Result<(), Fault> { let c = self.calls.get(); self.calls.set(c + 1); if c == self.fail_at { self.failed.set(true); Err(Fault(n)) } else { Ok(()) } }
    fn perm<T>(&self, k: &[u8], v: &mut Vec<T>) { let h = k.iter().fold(self.order, |a, b| a.wrapping_mul(131).wrapping_add(*b as u64)); Rng::new(h).shuffle(v) }
}
fn pkb(k: &PublicKeyHashable) -> Vec<u8> { let p: &PublicKey = k.as_ref(); tagged(p) }
impl Storage for Mem {
    type Error = Fault;
    fn get_relation(&self, f: &PublicKeyHashable, b: &PublicKeyHashable) -> Result<Option<TrustRelation>, Fault> { self.tick("get_relation")?; Ok(self.m.borrow().rel.get(&(pkb(f), pkb(b))).cloned().map(|r| match r { Rel::A(a) => TrustRelation::Auth(a), Rel::R(a) => TrustRelation::Revocation(a) })) }
    fn get_authorizations(&self, f: &PublicKeyHashable) -> Result<Vec<Auth>, Fault> { self.tick("get_authorizations")?; let k = pkb(f); let mut v = self.m.borrow().auths_for(&k); self.perm(&k, &mut v); Ok(v) }
    fn get_revocations(&self, f: &PublicKeyHashable) -> Result<Vec<Revocation>, Fault> { self.tick("get_revocations")?; let k = pkb(f); let mut v = self.m.borrow().revs_for(&k); self.perm(&k, &mut v); Ok(v) }
    fn insert(&mut self, n: TrustRelation) -> Result<(), Fault> { self.tick("insert")?; self.writes.set(self.writes.get() + 1); let r = match n { TrustRelation::Auth(a) => Rel::A(a), TrustRelation::Revocation(a) => Rel::R(a) }; let k = r.pair(); self.m.borrow_mut().rel.insert(k, r); Ok(()) }
    fn get_root_weight_factor(&self, k: &PublicKeyHashable) -> Result<Option<u32>, Fault> { self.tick("get_root_weight_factor")?; Ok(self.m.borrow().roots.get(&pkb(k)).copied()) }
    fn set_root_weight_factor(&mut self, k: PublicKeyHashable, w: u32) -> Result<(), Fault> { self.tick("set_root_weight_factor")?; self.m.borrow_mut().roots.insert(pkb(&k), w); Ok(()) }
    fn root_keys(&self) -> Result<Vec<PublicKeyHashable>, Fault> { self.tick("root_keys")?; let mut v: Vec<PublicKeyHashable> = self.m.borrow().roots.keys().map(|k| PublicKey::decode(k).expect("key").into()).collect(); self.perm(b"roots", &mut v); Ok(v) }
    fn revoke(&mut self, v: Revocation) -> Result<(), Fault> { self.tick("revoke")?; self.writes.set(self.writes.get() + 1); self.m.borrow_mut().put(Rel::R(v)); Ok(()) }
    fn update_auth(&mut self, a: Auth, _: Duration) -> Result<(), Fault> { self.tick("update_auth")?; self.writes.set(self.writes.get() + 1); self.m.borrow_mut().put(Rel::A(a)); Ok(()) }
    fn remove_expired(&mut self, t: Duration) -> Result<(), Fault> { self.tick("remove_expired")?; self.m.borrow_mut().gc(t); Ok(()) }
}
struct MemWorld { g: trust_graph::TrustGraph<Mem>, m: std::rc::Rc<std::cell::RefCell<Model>>, writes: std::rc::Rc<std::cell::Cell<usize>>, failed: std::rc::Rc<std::cell::Cell<bool>> }
fn mem(r: &mut Rng, m: Model, fail_at: usize) -> MemWorld {
    let m = std::rc::Rc::new(std::cell::RefCell::new(m));
    let writes = std::rc::Rc::new(std::cell::Cell::new(0)); let failed = std::rc::Rc::new(std::cell::Cell::new(false));
    let s = Mem { m: m.clone(), order: r.next(), calls: Default::default(), fail_at, writes: writes.clone(), failed: failed.clone() };
    MemWorld { g: trust_graph::TrustGraph::new(s), m, writes, failed }
}
fn search(r: &mut Rng, i: usize, what: &str) -> Res {
    let (m, keys, now) = graphops::gen_graph(r, i);
    let pk = r.pick(&keys).clone();
    let iss = r.pick(&keys).clone();
    let fault = if r.chance(15) { r.below(30) } else { usize::MAX };
    let mut after = m.clone(); after.gc(now);
    let shape = || graphops::show(&m, &keys, now);
    let k = tagged(&pk);
    let mut w = mem(r, m.clone(), fault);
    let certs = match w.g.get_all_certs(&pk, now) { Ok(c) => c, Err(e) => { ensure!(w.failed.get(), "get_all_certs failed without a storage fault: {e}; {}", shape()); return Ok(()) } };
    let want = pset(&after.paths(&k)); let got = cset(&certs);
    let at = || format!("key {} of {}", graphops::name(&keys, &pk), shape());
    if what == "sound" { for c in &got { ensure!(want.contains(c), "returned a certificate that is no valid path: {} {}", graphops::short(&keys, c), at()); } return Ok(()) }
    if what == "complete" { let mut seen = cset(&[]); for c in &certs { let c = ckey(c); ensure!(!seen.contains(&c), "certificate returned twice: {} {}", graphops::short(&keys, &c), at()); seen.insert(c); }
        for c in &want { ensure!(got.contains(c), "valid path not returned{}: {} {}", if w.failed.get() { " (a storage fault was hidden)" } else { "" }, graphops::short(&keys, c), at()); } return Ok(()) }
    if what == "weight" {
        let mut w = mem(r, m.clone(), fault);
        match w.g.weight(&pk, now) { Ok(x) => ensure!(x == after.weight(&k), "weight {} instead of {}: {}", x, after.weight(&k), at()), Err(e) => ensure!(w.failed.get(), "weight failed without a fault: {e}; {}", at()) }
        let mut w = mem(r, m.clone(), usize::MAX);
        let cs = w.g.get_all_certs(&pk, now).map_err(|e| e.to_string())?;
        let f = w.g.certificates_weight_factor(&cs).map_err(|e| e.to_string())?;
        let want = cs.iter().map(|c| after.roots[&tagged(&c.chain[0].issued_for)] + c.chain.len() as u32 - 1).min();
        ensure!(f == want, "certificates_weight_factor {:?} instead of {:?}: {}", f, want, at());
        for c in &cs { let one = vec![c.clone()]; let f = w.g.certificates_weight_factor(&one).map_err(|e| e.to_string())?; let want = after.roots[&tagged(&c.chain[0].issued_for)] + c.chain.len() as u32 - 1; ensure!(f == Some(want), "certificates_weight_factor of the single certificate {} is {:?} instead of {}: {}", graphops::short(&keys, &ckey(c)), f, want, at()); }
        return Ok(())
    }
    // issuer-restricted
    let i = tagged(&iss);
    let filt: Vec<Vec<String>> = certs.iter().filter(|c| c.chain.iter().any(|t| tagged(&t.issued_for) == i)).map(ckey).collect();
    let mut w2 = mem(r, m.clone(), usize::MAX); w2.g = { let s = Mem { m: w2.m.clone(), order: 7, calls: Default::default(), fail_at: usize::MAX, writes: w2.writes.clone(), failed: w2.failed.clone() }; trust_graph::TrustGraph::new(s) };
    let cf = w2.g.get_all_certs_from(&pk, &iss, now).map_err(|e| e.to_string())?;
    let w3 = mem(r, m.clone(), usize::MAX);
    let mut g3 = trust_graph::TrustGraph::new(Mem { m: w3.m.clone(), order: 7, calls: Default::default(), fail_at: usize::MAX, writes: w3.writes.clone(), failed: w3.failed.clone() });
    let base: Vec<Vec<String>> = g3.get_all_certs(&pk, now).map_err(|e| e.to_string())?.iter().filter(|c| c.chain.iter().any(|t| tagged(&t.issued_for) == i)).map(ckey).collect();
    let cfk: Vec<Vec<String>> = cf.iter().map(ckey).collect();
    ensure!(cfk == base, "issuer {}: {} certificates instead of {} ({}) {}", graphops::name(&keys, &iss), cfk.len(), base.len(), filt.len(), at());
    let x = w2.g.weight_from(&pk, &iss, now).map_err(|e| e.to_string())?;
    ensure!(x == after.weight_from(&k, &i), "weight_from issuer {} is {} instead of {}: {}", graphops::name(&keys, &iss), x, after.weight_from(&k, &i), at());
    Ok(())
}
fn c06(r: &mut Rng, i: usize) -> Res { search(r, i, "sound") }
fn c07(r: &mut Rng, i: usize) -> Res { search(r, i, "complete") }
fn c08(r: &mut Rng, i: usize) -> Res { search(r, i, "weight") }
fn c09(r: &mut Rng, i: usize) -> Res { search(r, i, "from") }
fn long_chain(r: &mut Rng, n: usize, len: u32) -> (Model, Vec<PublicKey>, Duration) {
    let keys: Vec<PublicKey> = (0..n).map(|_| ed(r).public()).collect();
    let mut m = Model::default();
    m.roots.insert(tagged(&keys[0]), factor(len));
    for i in 0..n { let by = keys[i.saturating_sub(1)].clone(); let s = Signature::from_bytes(KeyFormat::Ed25519, r.bytes(64)); m.put(Rel::A(Auth { trust: Trust::new(keys[i].clone(), Duration::from_secs(1000), Duration::from_secs(i as u64), s), issued_by: by })); }
    (m, keys, Duration::from_secs(10))
}
fn c08_long(r: &mut Rng, i: usize) -> Res {
    let len = [0u32, 1, 2, 3, 15, 16, 17, 20, u32::MAX][i % 9]; let n = 2 + r.below(20);
    let (m, keys, now) = long_chain(r, n, len);
    for k in &keys {
        let mut w = mem(r, m.clone(), usize::MAX);
        let x = w.g.weight(k, now).map_err(|e| e.to_string())?;
        ensure!(x == m.weight(&tagged(k)), "root allowing chains of {}, chain of {} keys: weight of key {} is {} instead of {}", len, n, graphops::name(&keys, k), x, m.weight(&tagged(k)));
    }
    Ok(())
}
fn c08_root(r: &mut Rng, _: usize) -> Res {
    let k = ed(r).public(); let len = *r.pick(&[0u32, 1, 2, 7, 14, 15, 16, 17, 31, 32, 255, 1 << 20, u32::MAX]);
    let mut w = mem(r, Model::default(), usize::MAX);
    w.g.set_root(k.clone(), len).map_err(|e| e.to_string())?;
    let x = w.g.weight(&k, dur(r)).map_err(|e| e.to_string())?;
    ensure!(x == 1u32 << len.min(16), "root set with chain length {} has weight {}", len, x);
    Ok(())
}
/// one long-lived graph: every answer must follow from the statements accepted so far, whatever was asked before
fn seq(r: &mut Rng, what: &str) -> Res {
    let kps: Vec<KeyPair> = (0..4).map(|_| ed(r)).collect(); let keys: Vec<PublicKey> = kps.iter().map(|k| k.public()).collect();
    let mut m = Model::default(); let mut w = mem(r, Model::default(), usize::MAX); let mut log: Vec<String> = vec![];
    for _ in 0..16 {
        let now = Duration::from_secs(*r.pick(&[10u64, 20, 20, 30])); let at = Duration::from_secs(1 + r.next() % 9);
        let (b, f) = (r.below(4), r.below(4));
        match r.below(6) {
            0 => { let l = r.below(6) as u32; let k = r.below(2); log.push(format!("set_root k{k} {l}")); w.g.set_root(keys[k].clone(), l).map_err(|e| e.to_string())?; m.roots.insert(tagged(&keys[k]), factor(l)); }
            1 => { let v = Revocation::create(&kps[b], keys[f].clone(), at); log.push(format!("k{b} revokes k{f} at {at:?}")); w.g.revoke(v.clone()).map_err(|e| e.to_string())?; m.put(Rel::R(v)); }
            _ => { let f = if r.chance(25) { b } else { f }; let e = Duration::from_secs(*r.pick(&[20u64, 30, 40, 1000])); let t = Trust::create(&kps[b], keys[f].clone(), e, at); log.push(format!("k{b} trusts k{f} at {at:?} until {e:?}, added at {now:?}"));
                if e >= now { m.gc(now) } let iw = m.weight(&tagged(&keys[b])); let want = if b == f { iw } else { iw / 2 };
                let got = w.g.add_trust(&t, &keys[b], now).ok();
                if e < now { ensure!(got.is_none() || what != "add", "expired trust accepted: {log:?}"); if got.is_some() { return Ok(()) } } else { if got != Some(want) && what != "add" { return Ok(()) } ensure!(got == Some(want), "adding returned {got:?} instead of {want}: {log:?}"); if want > 0 { m.put(Rel::A(Auth { trust: t, issued_by: keys[b].clone() })); } } }
        }
        let now = if r.chance(70) { Duration::from_secs(10) } else { now };
        for (n, k) in keys.iter().enumerate() { if r.chance(60) {
            log.push(format!("ask k{n} at {now:?}"));
            m.gc(now); let t = tagged(k); let i = r.below(4);
            let c = w.g.get_all_certs(k, now).map_err(|e| e.to_string())?;
            let (have, want) = (cset(&c), pset(&m.paths(&t)));
            ensure!(what != "sound" || have.is_subset(&want), "k{n} has a certificate that is no valid path: {log:?}");
            ensure!(what != "complete" || want.is_subset(&have), "k{n} lacks the certificate of a valid path: {log:?}");
            if have != want { return Ok(()) }
            let x = w.g.weight(k, now).map_err(|e| e.to_string())?; ensure!(what != "weight" || x == m.weight(&t), "weight of k{n} is {x} instead of {}: {log:?}", m.weight(&t));
            let x = w.g.weight_from(k, &keys[i], now).map_err(|e| e.to_string())?; ensure!(what != "from" || x == m.weight_from(&t, &tagged(&keys[i])), "weight of k{n} from k{i} is {x} instead of {}: {log:?}", m.weight_from(&t, &tagged(&keys[i])));
        } }
    }
    Ok(())
}
fn c06_seq(r: &mut Rng, _: usize) -> Res { seq(r, "sound") }
fn c07_seq(r: &mut Rng, _: usize) -> Res { seq(r, "complete") }
fn c08_seq(r: &mut Rng, _: usize) -> Res { seq(r, "weight") }
fn c09_seq(r: &mut Rng, _: usize) -> Res { seq(r, "from") }
fn c10_seq(r: &mut Rng, _: usize) -> Res { seq(r, "add") }
fn c10_add(r: &mut Rng, _: usize) -> Res {
    let kps: Vec<KeyPair> = (0..4).map(|_| ed(r)).collect();
    let keys: Vec<PublicKey> = kps.iter().map(|k| k.public()).collect();
    let now = Duration::from_secs(100);
    let mut m = Model::default();
    for k in 0..2 { if r.chance(75) { m.roots.insert(tagged(&keys[k]), factor(r.below(5) as u32)); } }
    for f in 0..4 { for b in 0..4 { if r.chance(if f == b { 50 } else { 25 }) {
        let s = Signature::from_bytes(KeyFormat::Ed25519, r.bytes(64)); let at = Duration::from_secs(r.next() % 60);
        if r.chance(85) { let e = 95 + r.next() % 20; m.put(Rel::A(Auth { trust: Trust::new(keys[f].clone(), Duration::from_secs(e), at, s), issued_by: keys[b].clone() })); }
        else { m.put(Rel::R(Revocation::new(keys[b].clone(), keys[f].clone(), at, s))); }
    } } }
    let fault = if r.chance(25) { r.below(25) } else { usize::MAX };
    let mut w = mem(r, m.clone(), fault);
    let (b, f) = (r.below(4), r.below(4)); let f = if r.chance(20) { b } else { f };
    let exp = *r.pick(&[Duration::from_secs(99), Duration::from_secs(100), Duration::new(99, 999_999_999), Duration::from_secs(101), Duration::from_secs(u64::MAX)]);
    let mut t = Trust::create(&kps[b], keys[f].clone(), exp, Duration::from_secs(r.next() % 150));
    if r.chance(20) { match r.below(4) { 0 => t.issued_for = keys[(f + 1) % 4].clone(), 1 => t.signature = kps[(b + 1) % 4].sign(&msg_trust(&t)).map_err(|e| e.to_string())?, 2 => t.expires_at += Duration::from_secs(0).max(Duration::from_secs((exp.as_secs() < 200) as u64)), _ => t.issued_at += Duration::from_secs(1) } }
    let ok = t.expires_at >= now && oracle_verify(&keys[b], &msg_trust(&t), t.signature.to_vec());
    let at = || format!("{} issued by key {} at {:?} into {}", fmt_trust(&t), b, now, graphops::show(&m, &keys, now));
    let got = w.g.add_trust(&t, &keys[b], now);
    if w.failed.get() { ensure!(got.is_err(), "a storage fault was reported as success: {}", at()); return Ok(()) }
    if !ok { ensure!(got.is_err() && w.writes.get() == 0, "unverifiable trust: returned {:?}, {} writes; {}", got.ok(), w.writes.get(), at()); return Ok(()) }
    let mut after = m.clone(); after.gc(now);
    let iw = after.weight(&tagged(&keys[b]));
    let want = if tagged(&t.issued_for) == tagged(&keys[b]) { iw } else { iw / 2 };
    match got { Ok(x) => ensure!(x == want, "returned {} instead of {}: {}", x, want, at()), Err(e) => return Err(format!("refused ({e}): {}", at())) }
    ensure!((w.writes.get() > 0) == (want > 0), "weight {} but {} writes: {}", want, w.writes.get(), at());
    if want > 0 { after.put(Rel::A(Auth { trust: t.clone(), issued_by: keys[b].clone() })); }
    let d = graphops::diff(&after, &w.m.borrow()); ensure!(d.is_empty(), "store differs: {} after {}", d, at());
    Ok(())
}
fn c10_cert(r: &mut Rng, i: usize) -> Res {
    let n = if i % 30 == 3 { 36 + r.below(20) } else { r.below(6) };
    let kps: Vec<KeyPair> = { let p: Vec<KeyPair> = (0..5).map(|_| ed(r)).collect(); (0..n).map(|i| if r.chance(85) { p[i % 5].clone() } else { r.pick(&p).clone() }).collect() };
    let exp = Duration::from_secs(100);
    let mut c = chain(r, &kps, exp);
    if n > 6 { if r.chance(70) { let k = n - 1 - r.below(4); c.chain[k].signature = sig_any(r) } } else if r.chance(50) { damage(r, &mut c, &kps, exp); }
    let now = if r.chance(80) { exp } else { near(r, exp) };
    let mut m = Model::default();
    if n > 0 && r.chance(85) { m.roots.insert(tagged(&kps[0].public()), factor(r.below(6) as u32)); }
    let mut w = mem(r, m.clone(), usize::MAX);
    let got = w.g.add(&c, now);
    // the definition: each trust in turn through the rule for single trusts
    let mut by = c.chain.first().map(|t| t.issued_for.clone()); let mut ok = by.is_some();
    for t in &c.chain {
        let b = by.clone().unwrap();
        if !(t.expires_at >= now && oracle_verify(&b, &msg_trust(t), t.signature.to_vec())) { ok = false; break }
        m.gc(now);
        let iw = m.weight(&tagged(&b)); let nw = if tagged(&b) == tagged(&t.issued_for) { iw } else { iw / 2 };
        if nw > 0 { m.put(Rel::A(Auth { trust: t.clone(), issued_by: b })); }
        by = Some(t.issued_for.clone());
    }
    ensure!(got.is_ok() == ok, "add {:?} at {:?}: {:?}, expected {}", ckey(&c), now, got.err().map(|e| e.to_string()), ok);
    let d = graphops::diff(&m, &w.m.borrow()); ensure!(d.is_empty(), "add {:?} at {:?}: store differs: {}", ckey(&c), now, d);
    Ok(())
}
// ---------------------------------------------------------------- C14, C15
fn any_trust(r: &mut Rng) -> Trust {
    let k = small_keypair(r);
    let s = if r.chance(40) { let m = r.bytes(8); k.sign(&m).unwrap() } else { sig_any(r) };
    Trust::new(k.public(), wdur(r), wdur(r), s)
}
fn c14_trust(r: &mut Rng, _: usize) -> Res {
    let t = any_trust(r); let e = t.encode();
    match Trust::decode(&e) { Ok(d) => ensure!(d == t, "{} decodes as {}", fmt_trust(&t), fmt_trust(&d)), Err(x) => return Err(format!("{} does not decode: {x}", fmt_trust(&t))) }
    for _ in 0..12 {
        let mut b = flip(r, &e); if r.chance(20) { b = flip(r, &b) } if r.chance(10) { let n = 1 + r.below(3); b.extend(r.bytes(n)) } if r.chance(10) { let n = r.below(b.len() + 1); b.truncate(n) }
        if let Ok(d) = Trust::decode(&b) { ensure!(d.encode() == b, "bytes {} decode as {} whose encoding is {}", hexs(&b), fmt_trust(&d), hexs(&d.encode())); }
    }
    Ok(())
}
/// sometimes the same trust several times in a row
fn repeats(r: &mut Rng, mut c: Certificate) -> Certificate { if r.chance(30) { for i in 1..c.chain.len() { if r.chance(30) { c.chain[i] = c.chain[i - 1].clone() } } } c }
fn c14_cert(r: &mut Rng, i: usize) -> Res {
    let n = match i % 8 { 0 => 2, 1 => 3, 2 => 255, 3 => 254, 4 => 128, _ => 2 + r.below(20) };
    let base: Vec<Trust> = (0..4).map(|_| any_trust(r)).collect();
    let c = Certificate::new_unverified((0..n).map(|_| { let mut t = r.pick(&base).clone(); t.expires_at = wdur(r); t }).collect()); let c = repeats(r, c);
    let e = c.encode();
    match Certificate::decode(&e) { Ok(d) => ensure!(d == c, "{} trusts: decodes to {} trusts / different {:?}", n, d.chain.len(), ckey(&c)), Err(x) => return Err(format!("certificate of {n} trusts does not decode: {x} {:?}", ckey(&c))) }
    for cut in [1usize, 2, 8, 17, 60] { if cut < e.len() { ensure!(Certificate::decode(&e[..e.len() - cut]).is_err(), "truncated certificate ({} bytes short) accepted {:?}", cut, ckey(&c)); } }
    Ok(())
}
fn c15_text(r: &mut Rng, i: usize) -> Res {
    let n = match i % 6 { 0 => 0, 1 => 1, 2 => 300, _ => 1 + r.below(12) };
    let base: Vec<Trust> = (0..4).map(|_| { let mut t = any_trust(r); if r.chance(15) { t.issued_for = rsa_key(r.below(3)).map(|k| k.public()).unwrap_or(t.issued_for) } t }).collect();
    let c = Certificate::new_unverified((0..n).map(|_| { let mut t = r.pick(&base).clone(); t.expires_at = wdur(r); t.issued_at = wdur(r); t }).collect()); let c = repeats(r, c);
    let s = c.to_string();
    match Certificate::from_str(&s) { Ok(d) => ensure!(d == c, "text of {:?} parses as {:?}", ckey(&c), ckey(&d)), Err(x) => return Err(format!("text of {:?} does not parse: {x}", ckey(&c))) }
    for t in c.chain.iter().take(4) {
        let mut sg = vec![sig_tag(&t.signature)]; sg.extend(t.signature.to_vec());
        let want = format!("{}\n{}\n{}\n{}", bs58::encode(tagged(&t.issued_for)).into_string(), bs58::encode(sg).into_string(), t.expires_at.as_secs(), t.issued_at.as_secs());
        ensure!(t.to_string() == want, "text form {:?} instead of {:?}", t.to_string(), want);
        let l: Vec<&str> = want.split('\n').collect();
        match Trust::convert_from_strings(l[0], l[1], l[2], l[3]) { Ok(d) => ensure!(&d == t, "{:?} parses as {}", want, fmt_trust(&d)), Err(x) => return Err(format!("{want:?} does not parse: {x}")) }
    }
    Ok(())
}
// ---------------------------------------------------------------- C16
fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + r.below(4) {
        match r.below(9) {
            0 => { let n = r.below(v.len() + 1); v.truncate(n) }
            1 => { let n = r.below(20); v.extend(r.bytes(n)) }
            2 if !v.is_empty() => { let i = r.below(v.len()); v[i] = *r.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0xff]) }
            3 if !v.is_empty() => { let i = r.below(v.len().min(12)); v[i] = r.next() as u8 }
            4 if !v.is_empty() => { let i = r.below(v.len()); v.remove(i); }
            5 => { let i = r.below(v.len() + 1); v.insert(i, r.next() as u8) }
            6 => { let n = r.below(8); v = v[..n.min(v.len())].to_vec() }
            7 if v.len() > 1 => { let i = r.below(v.len()); let j = r.below(v.len()); v.swap(i, j) }
            _ => v = flip(r, &v),
        }
    }
    v
}
fn no_panic<T>(what: &str, input: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| format!("{} panics on {}: {}", what, input, LAST_PANIC.with(|p| p.borrow().clone())))
}
fn c16_bytes(r: &mut Rng, i: usize) -> Res {
    let kp = kinds(i, r); let t = Trust::new(kp.public(), dur(r), dur(r), sig_any(r));
    let cert = Certificate::new_unverified((0..2 + r.below(3)).map(|_| any_trust(r)).collect());
    let small = any_trust(r);
    let seedb: Vec<u8> = match r.below(9) {
        0 => t.encode(), 1 => cert.encode(), 2 => kp.public().encode(), 3 => t.signature.encode(), 4 => small.encode(), 5 => { let n = r.below(300); r.bytes(n) }
        6 => std::fs::read(format!("{}/keypair/src/test/{}", option_env!("VX_REPO").unwrap_or("/repo"), RSA[i % 3])).unwrap_or_default(),
        7 => { let mut v = vec![0x30u8, 0x2e, 2, 1, 1, 4, 0x20]; v.extend(r.bytes(32)); v.extend([0xa0, 7, 6, 5, 0x2b, 0x81, 4, 0, 10]); v }
        _ => vec![],
    };
    for _ in 0..25 {
        let b = if r.chance(95) { mutate(r, &seedb) } else { seedb.clone() }; let h = format!("bytes {} ({})", hexs(&b), b.len());
        let _ = no_panic("PublicKey::decode", &h, || PublicKey::decode(&b).is_ok())?;
        let _ = no_panic("Signature::decode", &h, || Signature::decode(b.clone()).is_ok())?;
        let _ = no_panic("Trust::decode", &h, || Trust::decode(&b).is_ok())?;
        let _ = no_panic("Certificate::decode", &h, || Certificate::decode(&b).is_ok())?;
        for f in [KeyFormat::Ed25519, KeyFormat::Rsa, KeyFormat::Secp256k1] {
            let _ = no_panic("KeyPair::from_vec", &h, || KeyPair::from_vec(b.clone(), f).is_ok())?;
            let _ = no_panic("KeyPair::from_secret_key", &h, || KeyPair::from_secret_key(b.clone(), f).is_ok())?;
        }
        let _ = no_panic("KeyPair::rsa_from_pkcs8", &h, || KeyPair::rsa_from_pkcs8(&mut b.clone()).is_ok())?;
        let _ = no_panic("KeyPair::secp256k1_from_der", &h, || KeyPair::secp256k1_from_der(&mut b.clone()).is_ok())?;
        let x = r.next() as u8; let _ = no_panic("KeyFormat::try_from", &format!("{x}"), || KeyFormat::try_from(x).is_ok())?;
        if let Ok(p) = libp2p_identity::PeerId::from_bytes(&b) { let _ = no_panic("PublicKey::try_from(PeerId)", &h, || PublicKey::try_from(p).is_ok())?; }
        let d = match r.below(3) { 0 => kp.public().to_peer_id().to_bytes(), 1 => ed(r).public().to_peer_id().to_bytes(), _ => secp(r).public().to_peer_id().to_bytes() };
        let d = mutate(r, &d);
        if let Ok(p) = libp2p_identity::PeerId::from_bytes(&d) { let _ = no_panic("PublicKey::try_from(PeerId)", &hexs(&d), || PublicKey::try_from(p).is_ok())?; }
    }
    Ok(())
}
/// text with characters of two to four bytes at any offset
fn unicode(r: &mut Rng) -> String { let n = r.below(120); let c = ["é", "ß", "日", "😀", "1", "a"]; let d = r.below(c.len()); (0..n).map(|_| if r.chance(60) { c[d] } else { *r.pick(&c) }).collect() }
fn c16_text(r: &mut Rng, _: usize) -> Res {
    let cert = Certificate::new_unverified((0..r.below(4)).map(|_| any_trust(r)).collect());
    let s = cert.to_string();
    for _ in 0..25 {
        let mut l: Vec<String> = s.lines().map(|x| x.to_string()).collect();
        for _ in 0..r.below(4) {
            let junk = ["", "0", "-1", "18446744073709551616", "1", "11", "OIl0", "é", " ", "\r", "1.5", "99999999999999999999999", "z", "+18446744073709551615", "+5", "00018446744073709551615", "18446744073709551615"]; let uni = unicode(r);
            match r.below(6) {
                0 if !l.is_empty() => { let i = r.below(l.len()); l.remove(i); }
                1 => { let i = r.below(l.len() + 1); l.insert(i, if r.chance(70) { r.pick(&junk).to_string() } else { uni }) }
                2 if r.chance(30) && !l.is_empty() => { let i = r.below(l.len()); l[i] = uni }
                2 if !l.is_empty() => { let i = r.below(l.len()); l[i] = r.pick(&junk).to_string() }
                3 => { let n = r.below(l.len() + 1); l.truncate(n) }
                4 if !l.is_empty() => { let i = r.below(l.len()); let n = r.below(l[i].len() + 1); l[i] = l[i].chars().take(n).collect() }
                _ if !l.is_empty() => { let i = r.below(l.len()); let j = r.below(l.len()); l.swap(i, j) }
                _ => (),
            }
        }
        let x = if r.chance(10) { r.pick(&["", "\n", "\n\n", "\n\n\n", "11\n1111\n", "a"]).to_string() } else { l.join(if r.chance(90) { "\n" } else { "\r\n" }) };
        let _ = no_panic("Certificate::from_str", &format!("{x:?}"), || Certificate::from_str(&x).is_ok())?;
        let g = |r: &mut Rng, l: &Vec<String>| if l.is_empty() { String::new() } else { r.pick(l).clone() };
        let (a, b, c, d) = (g(r, &l), g(r, &l), g(r, &l), g(r, &l));
        let _ = no_panic("Trust::convert_from_strings", &format!("{a:?} {b:?} {c:?} {d:?}"), || Trust::convert_from_strings(&a, &b, &c, &d).is_ok())?;
        let _ = no_panic("PublicKey::from_base58", &a, || PublicKey::from_base58(&a).is_ok())?;
        let u = unicode(r); let _ = no_panic("KeyFormat::from_str", &u, || KeyFormat::from_str(&u).is_ok())?; let _ = no_panic("PublicKey::from_base58", &u, || PublicKey::from_base58(&u).is_ok())?;
        let _ = no_panic("KeyFormat::from_str", &a, || KeyFormat::from_str(&a).is_ok())?;
    }
    Ok(())
}
// ---------------------------------------------------------------- C17
fn c17_keys(r: &mut Rng, i: usize) -> Res {
    let kp = kinds(i, r); let pk = kp.public(); let (tag, raw) = raw_key(&pk);
    ensure!(pk.encode() == tagged(&pk), "key encodes as {} instead of {}", hexs(&pk.encode()), hexs(&tagged(&pk)));
    ensure!(pk.to_vec() == raw, "to_vec gives {}", hexs(&pk.to_vec()));
    ensure!(u8::from(pk.get_key_format()) == tag && u8::from(kp.key_format()) == tag, "key format of a key of type {tag}");
    match PublicKey::decode(&pk.encode()) { Ok(d) => ensure!(d == pk && raw_key(&d) == (tag, raw.clone()), "decodes as {}", hexs(&tagged(&d))), Err(e) => return Err(format!("does not decode: {e}")) }
    let b58 = bs58::encode(tagged(&pk)).into_string();
    match PublicKey::from_base58(&b58) { Ok(d) => ensure!(d == pk, "{b58} parses as {}", hexs(&tagged(&d))), Err(e) => return Err(format!("{b58} does not parse: {e}")) }
    let mut b = tagged(&pk); let x = r.next() as u8; b[0] = x;
    if x > 2 { ensure!(PublicKey::decode(&b).is_err() && Signature::decode(b.clone()).is_err() && KeyFormat::try_from(x).is_err(), "type byte {x} accepted"); }
    if tag != 1 {
        let n = *r.pick(&[0usize, 1, 16, 31, 32, 33, 34, 64, 65]);
        if n != raw.len() { let mut b = vec![tag]; b.extend(raw.iter().cycle().take(n)); ensure!(PublicKey::decode(&b).is_err(), "key of type {tag} and {n} bytes accepted: {}", hexs(&b)); }
        let mut long = tagged(&pk); let n = 1 + r.below(40); long.extend(r.bytes(n)); ensure!(PublicKey::decode(&long).is_err(), "over-long key accepted: {}", hexs(&long));
    }
    if tag == 2 {
        let full = libsecp256k1::PublicKey::parse_slice(&raw, None).map_err(|e| e.to_string())?.serialize();
        let mut hy = full; hy[0] = 6 | (full[64] & 1);
        for b in [full.to_vec(), full[1..].to_vec(), hy.to_vec()] { let mut v = vec![2u8]; v.extend(&b); ensure!(PublicKey::decode(&v).is_err(), "secp256k1 key of {} bytes accepted: {}", b.len(), hexs(&v)); }
    }
    if tag == 0 {
        let mut b = kp.to_vec(); let o = ed(r).to_vec();
        let bad: Vec<u8> = match r.below(4) { 0 => { b[32..].copy_from_slice(&o[32..]); b } 1 => { b.truncate(r.below(64)); b } 2 => { b.push(0); b } _ => { b[..32].copy_from_slice(&o[..32]); b } };
        ensure!(KeyPair::from_vec(bad.clone(), KeyFormat::Ed25519).is_err(), "ed25519 pair accepted from {} bytes whose halves do not match: {}", bad.len(), hexs(&bad));
    }
    ensure!(PublicKey::decode(&[]).is_err() && Signature::decode(vec![]).is_err(), "empty input accepted");
    for (n, v) in [("ed25519", 0u8), ("rsa", 1), ("secp256k1", 2)] { ensure!(KeyFormat::from_str(n).map(u8::from).ok() == Some(v), "format name {n}"); ensure!(KeyFormat::try_from(v).map(String::from).ok().as_deref() == Some(n), "format byte {v}"); }
    let s = sig_any(r); let mut want = vec![sig_tag(&s)]; want.extend(s.to_vec());
    ensure!(s.encode() == want, "signature encodes as {} instead of {}", hexs(&s.encode()), hexs(&want));
    match Signature::decode(s.encode()) { Ok(d) => ensure!(d == s && sig_tag(&d) == sig_tag(&s) && d.to_vec() == s.to_vec(), "signature decodes as {}", hexs(&d.encode())), Err(e) => return Err(format!("signature does not decode: {e}")) }
    let raw_s = s.get_raw_signature(); ensure!(raw_s.bytes == s.to_vec() && u8::from(raw_s.sig_type) == sig_tag(&s), "raw signature differs");
    if tag != 1 {
        let sec = kp.secret().map_err(|e| format!("no secret: {e}"))?;
        let f = kp.key_format();
        for (n, k) in [("exported bytes", KeyPair::from_vec(kp.to_vec(), f)), ("secret", KeyPair::from_secret_key(sec.clone(), f))] {
            let k = k.map_err(|e| format!("pair from {n}: {e}"))?;
            ensure!(k.public() == pk && k.secret().ok() == Some(sec.clone()) && k.to_vec() == kp.to_vec(), "pair rebuilt from its {n} differs: secret {}", hexs(&sec));
            let m = r.bytes(20); let sg = k.sign(&m).map_err(|e| e.to_string())?; ensure!(pk.verify(&m, &sg).is_ok(), "pair rebuilt from its {n} signs differently");
        }
    } else { ensure!(kp.secret().is_err(), "RSA secret exported"); }
    // standard documents
    let mut key = r.bytes(32); key[0] &= 0x7f; key[31] |= 1;
    let mut doc = der(2, &[1]); doc.extend(der(4, &key));
    if r.chance(50) { doc.extend(der(0xa0, &der(6, &[0x2b, 0x81, 4, 0, 10]))); }
    if r.chance(30) { let n = *r.pick(&[10usize, 66, 130, 300, 70000]); doc.extend(der(0xa1, &r.bytes(n))); }
    let doc = der(0x30, &doc);
    match KeyPair::secp256k1_from_der(&mut doc.clone()) { Ok(k) => ensure!(k.secret().ok() == Some(key.clone()) && u8::from(k.key_format()) == 2, "the key in {} is imported as another one", hexs(&doc)), Err(e) => return Err(format!("EC private key {} refused: {e}", hexs(&doc))) }
    let mut bad = der(2, &[1]); match r.below(3) { 0 => (), 1 => { let n = *r.pick(&[0usize, 16, 31, 33, 64]); bad.extend(der(4, &r.bytes(n))) } _ => bad.extend(der(3, &key)) }
    let bad = der(0x30, &bad); ensure!(KeyPair::secp256k1_from_der(&mut bad.clone()).is_err(), "{} accepted as an EC private key", hexs(&bad));
    if let PublicKey::Rsa(k) = &pk { ensure!(k.encode_x509() == x509(&raw), "X.509 form of {} is {}", hexs(&raw), hexs(&k.encode_x509())); }
    let n = *r.pick(&[0usize, 1, 90, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 126, 127, 128, 220, 230, 240, 254, 255, 256, 257, 65400, 65500, 65535, 65536]); let n = n + r.below(3); let any = r.bytes(n);
    let mut t = vec![1u8]; t.extend(&any);
    if let Ok(PublicKey::Rsa(k)) = PublicKey::decode(&t) { ensure!(k.encode_x509() == x509(&any), "X.509 form of an RSA key of {n} bytes differs"); }
    let g = KeyPair::generate(if i % 2 == 0 { KeyFormat::Ed25519 } else { KeyFormat::Secp256k1 });
    ensure!(u8::from(g.key_format()) == if i % 2 == 0 { 0 } else { 2 } && raw_key(&g.public()).0 == u8::from(g.key_format()), "generated pair of the wrong type");
    Ok(())
}
// ---------------------------------------------------------------- C18
fn c18_conv(r: &mut Rng, i: usize) -> Res {
    let kp = kinds(i, r); let pk = kp.public(); let (tag, raw) = raw_key(&pk);
    let lp: libp2p_identity::PublicKey = pk.clone().into();
    let lib = match tag {
        0 => libp2p_identity::PublicKey::from(libp2p_identity::ed25519::PublicKey::try_from_bytes(&raw).map_err(|e| e.to_string())?),
        2 => libp2p_identity::PublicKey::from(libp2p_identity::secp256k1::PublicKey::try_from_bytes(&raw).map_err(|e| e.to_string())?),
        _ => libp2p_identity::PublicKey::from(libp2p_identity::rsa::PublicKey::try_decode_x509(&x509(&raw)).map_err(|e| e.to_string())?),
    };
    ensure!(lp == lib, "libp2p form of key {} is another key", hexs(&tagged(&pk)));
    let back: PublicKey = lp.clone().into();
    ensure!(back == pk && raw_key(&back) == (tag, raw.clone()), "{} comes back as {}", hexs(&tagged(&pk)), hexs(&tagged(&back)));
    let pid = pk.to_peer_id();
    ensure!(pid == lib.to_peer_id() && kp.get_peer_id() == pid, "peer id of {} is {}", hexs(&tagged(&pk)), pid);
    match PublicKey::try_from(pid) {
        Ok(k) => { ensure!(tag != 1, "a hashed peer id gave a key"); ensure!(k == pk && raw_key(&k) == (tag, raw.clone()), "peer id {} gives {}", pid, hexs(&tagged(&k))) }
        Err(e) => ensure!(tag == 1, "peer id {} of {} refused: {}", pid, hexs(&tagged(&pk)), e),
    }
    let lk: libp2p_identity::Keypair = kp.clone().into();
    ensure!(lk.public() == lib, "libp2p pair has another public key");
    let m = r.bytes(33);
    let s = lk.sign(&m).map_err(|e| e.to_string())?; ensure!(oracle_verify(&pk, &m, &s), "libp2p pair signs differently");
    let k2: KeyPair = lk.into();
    ensure!(k2.public() == pk, "pair comes back with another public key");
    let s = k2.sign(&m).map_err(|e| e.to_string())?; ensure!(oracle_verify(&pk, &m, s.to_vec()), "pair comes back with another secret");
    if tag != 1 { ensure!(k2.secret().ok() == kp.secret().ok() && k2.to_vec() == kp.to_vec(), "pair comes back with another secret"); }
    // identity multihash around bytes that are no key, and hashes
    let n = r.below(40); let junk = r.bytes(n); let mut mh = vec![0u8, n as u8]; mh.extend(&junk);
    if let Ok(p) = libp2p_identity::PeerId::from_bytes(&mh) {
        let want = libp2p_identity::PublicKey::try_decode_protobuf(&junk);
        match (PublicKey::try_from(p), want) { (Ok(k), Ok(w)) => { let l: libp2p_identity::PublicKey = k.into(); ensure!(l == w, "peer id gives another key") } (Err(_), Err(_)) => (), (Ok(k), Err(_)) => return Err(format!("peer id of junk {} gives key {}", hexs(&junk), hexs(&tagged(&k)))), (Err(e), Ok(_)) => return Err(format!("peer id of a key refused: {e}")) }
    }
    let mut h = vec![0x12u8, 32]; h.extend(if r.chance(50) { raw.iter().cycle().take(32).cloned().collect() } else { r.bytes(32) });
    if let Ok(p) = libp2p_identity::PeerId::from_bytes(&h) { ensure!(PublicKey::try_from(p).is_err(), "hashed peer id accepted {}", hexs(&h)); }
    let p = lib.encode_protobuf();
    for code in [0x11u8, 0x12, 0x13, 0x14, 0x1b, 0x55] { if p.len() < 64 {
        let mut h = vec![code, p.len() as u8]; h.extend(&p);
        if let Ok(x) = libp2p_identity::PeerId::from_bytes(&h) { ensure!(PublicKey::try_from(x).is_err(), "peer id with hash code {code} accepted {}", hexs(&h)); }
    } }
    // pairs built by libp2p itself
    let mut sec = r.bytes(32); sec[31] |= 1; sec[0] = sec[0].min(0xfe);
    let lk: libp2p_identity::Keypair = if i % 2 == 0 { libp2p_identity::Keypair::ed25519_from_bytes(sec.clone()).map_err(|e| e.to_string())? } else { libp2p_identity::secp256k1::Keypair::from(libp2p_identity::secp256k1::SecretKey::try_from_bytes(sec.clone()).map_err(|e| e.to_string())?).into() };
    if r.chance(40) { let raw_sec = sec.clone(); let k: KeyPair = lk.clone().into();
        ensure!(k.secret().ok() == Some(raw_sec.clone()), "libp2p pair with secret {} arrives with secret {:?}", hexs(&raw_sec), k.secret().map(|s| hexs(&s)).ok());
        let l: libp2p_identity::PublicKey = k.public().into(); ensure!(l == lk.public(), "libp2p pair with secret {} arrives with another public key", hexs(&raw_sec)); }
    Ok(())
}

// ---------------------------------------------------------------- C23
#[derive(serde::Serialize, serde::Deserialize)]
struct Certs(#[serde(with = "trust_graph::certificate_serde::vec")] Vec<Certificate>);
#[derive(serde::Serialize, serde::Deserialize)]
struct Peer(#[serde(with = "fluence_keypair::peerid_serializer")] libp2p_identity::PeerId);
/// written and read back in three formats: the value again, byte for byte in each
fn through<T: serde::Serialize + serde::de::DeserializeOwned>(what: &str, v: &T, show: &dyn Fn(&T) -> String) -> Result<serde_json::Value, String> {
    let want = show(v);
    let chk = |f: &str, x: Result<T, String>| -> Res { match x { Ok(d) => { ensure!(show(&d) == want, "{} {}: through {} it comes back as {}", what, want, f, show(&d)); Ok(()) } Err(e) => Err(format!("{what} {want}: what is written as {f} does not read back: {e}")) } };
    let j = serde_json::to_string(v).map_err(|e| format!("{what} {want} is not written as JSON: {e}"))?;
    chk("JSON", no_panic(what, &j, || serde_json::from_str::<T>(&j))?.map_err(|e| format!("{e} ({j})")))?;
    let val = serde_json::to_value(v).map_err(|e| e.to_string())?;
    chk("a JSON value", serde_json::from_value::<T>(val.clone()).map_err(|e| e.to_string()))?;
    let b = bincode::serialize(v).map_err(|e| format!("{what} {want} is not written as bincode: {e}"))?;
    chk("bincode", bincode::deserialize::<T>(&b).map_err(|e| format!("{e} ({})", hexs(&b))))?;
    let m = rmp_serde::to_vec(v).map_err(|e| format!("{what} {want} is not written as MessagePack: {e}"))?;
    chk("MessagePack", rmp_serde::from_slice::<T>(&m).map_err(|e| format!("{e} ({})", hexs(&m))))?;
    Ok(val)
}
fn fkey(t: &Trust) -> String { format!("{} {:?} {:?}", tkey(t), t.expires_at, t.issued_at) }
fn c23_serde(r: &mut Rng, i: usize) -> Res {
    let kp = kinds(i, r); let pk = kp.public(); let by = kinds(r.below(9), r).public();
    let sig = if r.chance(50) { kp.sign(&r.bytes(9)).map_err(|e| e.to_string())? } else { sig_any(r) };
    through("public key", &pk, &|k| hexs(&tagged(k)))?;
    through("signature", &sig, &|s| format!("{}:{}", sig_tag(s), s.to_vec().iter().map(|b| format!("{b:02x}")).collect::<String>()))?;
    let t = Trust::new(pk.clone(), dur(r), dur(r), sig.clone());
    through("trust", &t, &fkey)?;
    let v = Revocation::new(by.clone(), pk.clone(), dur(r), sig);
    let vk = |v: &Revocation| format!("{} {:?}", rkey(v), v.revoked_at);
    through("revocation", &v, &vk)?;
    let a = Auth { trust: t, issued_by: by };
    let ak = |a: &Auth| format!("{} {}", akey(a), fkey(&a.trust));
    through("authorization", &a, &ak)?;
    let rel = if r.chance(50) { TrustRelation::Auth(a) } else { TrustRelation::Revocation(v) };
    through("relation", &rel, &|x| match x { TrustRelation::Auth(a) => ak(a), TrustRelation::Revocation(v) => vk(v) })?;
    let text = bs58::encode(tagged(&pk)).into_string();
    let h = PublicKeyHashable::from(pk.clone());
    let j = through("hashable key", &h, &|h| hexs(&tagged(h.as_ref())))?;
    ensure!(j == serde_json::Value::from(text.clone()), "hashable key {} is written as {}", text, j);
    // the byte form of a key is read too
    let m = rmp_serde::to_vec(&Bytes(pk.encode())).map_err(|e| e.to_string())?;
    match rmp_serde::from_slice::<PublicKeyHashable>(&m) { Ok(d) => ensure!(d == h, "bytes of key {} read as {}", text, d), Err(e) => return Err(format!("bytes of key {text} are not read: {e}")) }
    let id = if r.chance(50) { pk.to_peer_id() } else { libp2p_identity::PeerId::from_bytes(&[&[0x12u8, 0x20][..], &r.bytes(32)].concat()).map_err(|e| e.to_string())? };
    let j = through("peer id", &Peer(id), &|p| p.0.to_base58())?;
    ensure!(j == serde_json::Value::from(id.to_base58()), "peer id {} is written as {}", id, j);
    Ok(())
}
struct Bytes(Vec<u8>);
impl serde::Serialize for Bytes { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
fn c23_certs(r: &mut Rng, i: usize) -> Res {
    let n = match i % 25 { 0 => 0, 1 => 1, 2 => 17, 7 => 120, 12 => 300, _ => r.below(6) };
    let base: Vec<Trust> = (0..4).map(|_| any_trust(r)).collect();
    let mut cs: Vec<Certificate> = vec![];
    for _ in 0..n {
        let l = r.below(5);
        let c = Certificate::new_unverified((0..l).map(|_| { let mut t = r.pick(&base).clone(); t.expires_at = wdur(r); t.issued_at = wdur(r); t }).collect());
        cs.push(if r.chance(20) && !cs.is_empty() { r.pick(&cs).clone() } else { c });
    }
    let texts: Vec<String> = cs.iter().map(|c| c.to_string()).collect();
    let j = through("certificates", &Certs(cs), &|c| format!("{:?}", c.0.iter().map(ckey).collect::<Vec<_>>()))?;
    ensure!(j == serde_json::Value::from(texts.clone()), "certificates {:?} are written as {}", texts, j);
    Ok(())
}
/// what is not the form of a value is refused
fn c23_junk(r: &mut Rng, i: usize) -> Res {
    let pk = kinds(i, r).public();
    let b58 = |b: &[u8]| bs58::encode(b).into_string();
    let s = match r.below(8) {
        0 => String::new(), 1 => b58(&{ let n = r.below(40); r.bytes(n) }), 2 => { let mut x = b58(&pk.encode()); let k = r.below(x.len()); x.truncate(k); x }
        3 => b58(&flip(r, &pk.encode())), 4 => { let mut b = pk.encode(); b.push(r.next() as u8); b58(&b) }, 5 => pk.to_peer_id().to_base58(), 6 => format!("{}{}{}", r.pick(&["", " ", "\n"]), if r.chance(50) { b58(&pk.encode()) } else { pk.to_peer_id().to_base58() }, r.pick(&["", " ", "\n", "\0"])), _ => "0OIl".to_string() };
    let js = serde_json::Value::from(s.clone()).to_string();
    let want: Option<Vec<u8>> = bs58::decode(&s).into_vec().ok().and_then(|b: Vec<u8>| PublicKey::decode(&b).ok()).map(|k| tagged(&k));
    let got = no_panic("reading a hashable key", &js, || serde_json::from_str::<PublicKeyHashable>(&js))?.ok().map(|k| tagged(k.as_ref()));
    ensure!(want == got, "text {:?} is read as key {:?} instead of {:?}", s, got.map(|k| hexs(&k)), want.map(|k| hexs(&k)));
    let want = libp2p_identity::PeerId::from_str(&s).ok();
    let got = no_panic("reading a peer id", &js, || serde_json::from_str::<Peer>(&js))?.ok().map(|p| p.0);
    ensure!(want == got, "text {:?} is read as peer id {:?} instead of {:?}", s, got, want);
    // a key with bytes added, removed or changed is another key or none
    let b = bincode::serialize(&pk).map_err(|e| e.to_string())?;
    if let PublicKey::Secp256k1(_) = pk {
        let k = match r.below(4) { 0 => { let mut k = raw_key(&pk).1; k.push(r.next() as u8); k } 1 => { let mut k = raw_key(&pk).1; k.pop(); k } 2 => { let k = raw_key(&pk).1; flip(r, &k) } _ => vec![] };
        let mut e = b[..4].to_vec(); e.extend((k.len() as u64).to_le_bytes()); e.extend(&k);
        let want = PublicKey::decode(&[&[2u8][..], &k].concat()).ok().map(|k| tagged(&k));
        let got = no_panic("reading a key", &hexs(&e), || bincode::deserialize::<PublicKey>(&e))?.ok().map(|k| tagged(&k));
        ensure!(want == got, "bytes {} are read as key {:?} instead of {:?}", hexs(&e), got.map(|k| hexs(&k)), want.map(|k| hexs(&k)));
    }
    let good = Certificate::new_unverified(vec![any_trust(r), any_trust(r)]).to_string();
    let mut bad: Vec<char> = good.chars().collect();
    match r.below(4) { 0 => { let k = r.below(bad.len()); bad.truncate(k) } 1 => { let k = r.below(bad.len()); bad[k] = *r.pick(&['0', 'l', 'x', '\n', ' ']) } 2 => { let k = r.below(bad.len()); bad.remove(k); } _ => bad.extend("\n17".chars()) }
    let bad: String = bad.into_iter().collect();
    let mut l = vec![good.clone(), good]; let k = r.below(3); l.insert(k, bad.clone());
    let js = serde_json::Value::from(l.clone()).to_string();
    let want: Option<Vec<Vec<String>>> = l.iter().map(|s| Certificate::from_str(s).ok().map(|c| ckey(&c))).collect();
    let got = no_panic("reading certificates", &js, || serde_json::from_str::<Certs>(&js))?.ok().map(|c| c.0.iter().map(ckey).collect::<Vec<_>>());
    ensure!(want == got, "texts {:?} are read as {:?} instead of {:?}", l, got, want);
    Ok(())
}
fn table(id: &str) -> Vec<Case> {
    macro_rules! c { ($($f:ident $min:expr, $max:expr;)*) => { vec![$(Case { name: stringify!($f), f: $f, min: $min, max: $max }),*] } }
    const M: usize = 1 << 40;
    match id {
        "C01" => c![c01_verify 600, M; c01_message 100, M; c01_layout 60, M;],
        "C02" => c![c02_verify 600, M; c02_domain 100, M; c02_layout 60, M;],
        "C03" => c![c03_sign 200, M; c03_scheme 400, M;],
        "C04" => c![c04_verify 500, M; c04_long 6, M;],
        "C05" => c![c05_issue 300, M; c05_root 80, M;],
        "C06" => c![c06_seq 60, M; c06 1500, M;],
        "C07" => c![c07_seq 60, M; c07 1500, M;],
        "C08" => c![c08_seq 60, M; c08 1000, M; c08_long 30, M; c08_root 40, 2000;],
        "C09" => c![c09_seq 60, M; c09 1000, M;],
        "C10" => c![c10_seq 60, M; c10_add 400, M; c10_cert 200, M;],
        "C14" => c![c14_trust 500, M; c14_cert 60, M;],
        "C15" => c![c15_text 100, M;],
        "C16" => c![c16_bytes 150, M; c16_text 200, M;],
        "C17" => c![c17_keys 300, M;],
        "C18" => c![c18_conv 200, M;],
        "C23" => c![c23_serde 100, M; c23_certs 60, M; c23_junk 150, M;],
        _ => vec![],
    }
}
fn main() { drive(table) }
