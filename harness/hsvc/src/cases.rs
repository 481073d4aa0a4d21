use crate::dto;
use crate::graphops;
use crate::service_api as api;
use crate::storage_impl::{create_tables, SQLiteStorage, DB_PATH};
use crate::vxcommon::*;
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use libp2p_identity::PeerId;
use marine_rs_sdk::{vx_set_call_parameters, CallParameters, SecurityTetraplet};
use marine_sqlite_connector as sq;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::{TryFrom, TryInto};
use std::str::FromStr;
use std::time::Duration;
use trust_graph::{Auth, Certificate, PublicKeyHashable as PK, Revocation, Storage, Trust, TrustGraph, TrustRelation};

/// every case has a thread of its own: the service keeps its graph in a thread-local, the shim its databases
fn fresh(r: &mut Rng, f: impl FnOnce(&mut Rng) -> Res + Send + 'static) -> Res {
    let mut q = Rng(r.next());
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { create_tables(); f(&mut q) })) {
        Ok(x) => x, Err(_) => Err(format!("the code panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))) });
    h.map_err(|e| e.to_string()).and_then(|h| h.join().unwrap_or_else(|_| Err("thread died".into())))
}
fn store() -> SQLiteStorage { SQLiteStorage::new(sq::open(DB_PATH).unwrap()) }
fn s(k: u64) -> Duration { Duration::from_secs(k) }
fn sig(r: &mut Rng) -> Signature { sig_any(r) }
fn mk_rel(r: &mut Rng, keys: &[PublicKey], ats: &[u64], exps: &[u64]) -> Rel {
    let (f, b) = (r.pick(keys).clone(), r.pick(keys).clone()); let at = s(*r.pick(ats)); let g = sig(r);
    if r.chance(60) { Rel::A(Auth { trust: Trust::new(f, s(*r.pick(exps)), at, g), issued_by: b }) } else { Rel::R(Revocation::new(b, f, at, g)) }
}
fn to_tr(r: &Rel) -> TrustRelation { match r { Rel::A(a) => TrustRelation::Auth(a.clone()), Rel::R(v) => TrustRelation::Revocation(v.clone()) } }
fn tr_str(r: &TrustRelation) -> String { match r { TrustRelation::Auth(a) => akey(a), TrustRelation::Revocation(v) => rkey(v) } }
fn relstr(r: &Rel) -> String { tr_str(&to_tr(r)) }
fn put(st: &mut SQLiteStorage, r: &Rel) -> Result<(), String> { match r { Rel::A(a) => st.update_auth(a.clone(), s(0)), Rel::R(v) => st.revoke(v.clone()) }.map_err(|e| e.to_string()) }
fn keyset(r: &mut Rng, n: usize) -> Vec<PublicKey> { (0..n).map(|i| if i % 3 == 2 { secp(r).public() } else if i == 4 { rsa_key(0).map(|k| k.public()).unwrap_or_else(|| ed(r).public()) } else { ed(r).public() }).collect() }
/// the relation of every pair, through lookup by pair
fn by_pair(st: &SQLiteStorage, keys: &[PublicKey], m: &Model) -> Res {
    for f in keys { for b in keys {
        let got = st.get_relation(&f.clone().into(), &b.clone().into()).map_err(|e| e.to_string())?.map(|x| tr_str(&x));
        let want = m.rel.get(&(tagged(f), tagged(b))).map(relstr);
        ensure!(got == want, "pair ({} by {}): stored {:?}, expected {:?}", graphops::name(keys, f), graphops::name(keys, b), got, want);
    } }
    Ok(())
}
fn listings(st: &SQLiteStorage, keys: &[PublicKey], m: &Model) -> Res {
    for f in keys {
        let k: PK = f.clone().into(); let t = tagged(f);
        let sorted = |mut v: Vec<String>| { v.sort(); v };
        let got = sorted(st.get_authorizations(&k).map_err(|e| e.to_string())?.iter().map(akey).collect());
        let want = sorted(m.auths_for(&t).iter().map(akey).collect());
        ensure!(got == want, "authorizations of {}: {:?}, expected {:?}", graphops::name(keys, f), got, want);
        let got = sorted(st.get_revocations(&k).map_err(|e| e.to_string())?.iter().map(rkey).collect());
        let want = sorted(m.revs_for(&t).iter().map(rkey).collect());
        ensure!(got == want, "revocations of {}: {:?}, expected {:?}", graphops::name(keys, f), got, want);
    }
    Ok(())
}
fn roots(st: &SQLiteStorage, keys: &[PublicKey], m: &Model) -> Res {
    let mut got: Vec<Vec<u8>> = st.root_keys().map_err(|e| e.to_string())?.into_iter().map(|k| { let p: PublicKey = k.into(); tagged(&p) }).collect(); got.sort();
    let want: Vec<Vec<u8>> = m.roots.keys().cloned().collect();
    ensure!(got == want, "{} roots listed, {} set", got.len(), want.len());
    for f in keys { let g = st.get_root_weight_factor(&f.clone().into()).map_err(|e| e.to_string())?; ensure!(g == m.roots.get(&tagged(f)).copied(), "factor of {} is {:?} instead of {:?}", graphops::name(keys, f), g, m.roots.get(&tagged(f))); }
    Ok(())
}
const BIG: [u64; 12] = [0, 1, 5, 255, 256, (1 << 31) - 1, 1 << 32, 1 << 53, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX];
// ---------------------------------------------------------------- C11
fn c11_newest(r: &mut Rng, _: usize) -> Res { fresh(r, |r| {
    let keys = keyset(r, 3); let mut st = store(); let mut m = Model::default();
    let ats: Vec<u64> = match r.below(3) { 0 => vec![1, 2, 3, 4], 1 => BIG.to_vec(), _ => { let x = *r.pick(&BIG); vec![x.saturating_sub(1), x, x.saturating_add(1)] } };
    let mut log = vec![];
    for _ in 0..12 {
        let x = mk_rel(r, &keys, &ats, &[0, 50, 1 << 63, u64::MAX]);
        log.push(relstr(&x));
        let fault = r.chance(15);
        if fault { sq::vx_fail_at(r.next() % 18) }
        let before = sq::vx_dump(DB_PATH);
        let res = put(&mut st, &x);
        let failed = fault && sq::vx_failed(); sq::vx_fail_at(u64::MAX);
        if failed { ensure!(res.is_err() || sq::vx_dump(DB_PATH) != before || { let mut n = m.clone(); !n.put(x.clone()) }, "a database failure was reported as success: {:?}", log); if res.is_err() { ensure!(sq::vx_dump(DB_PATH) == before, "failed update changed the store"); continue } }
        else { ensure!(res.is_ok(), "refused: {:?} {:?}", res, log) }
        m.put(x);
        by_pair(&st, &keys, &m).map_err(|e| format!("{e} after {log:?}"))?;
    }
    Ok(()) }) }
fn c11_verified(r: &mut Rng, _: usize) -> Res { fresh(r, |r| {
    let kps: Vec<KeyPair> = (0..3).map(|_| small_keypair(r)).collect(); let keys: Vec<PublicKey> = kps.iter().map(|k| k.public()).collect();
    let mut g = TrustGraph::new(store()); let st = store(); let mut m = Model::default();
    for i in 0..2 { if r.chance(80) { g.set_root(keys[i].clone(), 5).map_err(|e| e.to_string())?; m.roots.insert(tagged(&keys[i]), factor(5)); } }
    let mut log = vec![];
    for _ in 0..10 {
        let (b, f) = (r.below(3), r.below(3)); let at = s(1 + r.next() % 6);
        if r.chance(50) {
            let mut v = Revocation::create(&kps[b], keys[f].clone(), at); let mut ok = true;
            if r.chance(35) { ok = false; match r.below(4) {
                0 => v.revoked_at += s(1), 1 => { v.signature = kps[(b + 1) % 3].sign(&Revocation::signature_bytes(&keys[f], at)).map_err(|e| e.to_string())? }
                2 => v.pk = keys[(f + 1) % 3].clone(), _ => v.signature = Trust::create(&kps[b], keys[f].clone(), at, at).signature } }
            log.push(format!("{} {}", if ok { "good" } else { "forged" }, rkey(&v)));
            let res = g.revoke(v.clone());
            ensure!(res.is_ok() == ok, "revoke returned {:?} for {:?}", res.err().map(|e| e.to_string()), log);
            if ok { m.put(Rel::R(v)); }
        } else {
            let t = Trust::create(&kps[b], keys[f].clone(), s(1000), at);
            log.push(format!("trust by {b} {}", tkey(&t)));
            let w = g.add_trust(&t, &keys[b], s(10)).map_err(|e| format!("{e} {log:?}"))?;
            if w > 0 { m.put(Rel::A(Auth { trust: t, issued_by: keys[b].clone() })); }
        }
        by_pair(&st, &keys, &m).map_err(|e| format!("{e} after {log:?}"))?;
        for k in &keys { let c = g.get_all_certs(k, s(10)).map_err(|e| e.to_string())?; ensure!(cset(&c) == pset(&m.paths(&tagged(k))), "certificates of {} differ after {:?}", graphops::name(&keys, k), log); }
    }
    Ok(()) }) }
// ---------------------------------------------------------------- C12
fn c12_gc(r: &mut Rng, _: usize) -> Res { fresh(r, |r| {
    let keys = keyset(r, 4); let mut st = store(); let mut m = Model::default();
    let base = *r.pick(&[0u64, 1, 100, 256, 1 << 31, 1 << 32, 1 << 40, (1 << 62) + 3, (1 << 63) - 2]);
    let exps = [base.saturating_sub(1), base, base + 1, 0, (1 << 63) - 1, 1 << 63, (1 << 63) + 7, u64::MAX, base ^ 1];
    let keys = if r.chance(15) { keyset(r, 12) } else { keys };
    for _ in 0..if keys.len() > 5 { 60 } else { 10 } { let x = mk_rel(r, &keys, &[0, 1, 2, base, u64::MAX], &exps); st.insert(to_tr(&x)).map_err(|e| e.to_string())?; let k = x.pair(); m.rel.insert(k, x); }
    for k in keys.iter().take(if r.chance(25) { 0 } else { 2 }) { let w = r.below(17) as u32; st.set_root_weight_factor(k.clone().into(), w).map_err(|e| e.to_string())?; m.roots.insert(tagged(k), w); }
    let now = Duration::new(base, *r.pick(&[0, 0, 1, 999_999_999]));
    let before = format!("{:?}", m.rel.values().map(relstr).collect::<Vec<_>>());
    let fault = r.chance(15); if fault { sq::vx_fail_at(r.next() % 5) }
    let via = r.below(4);
    let res = match via { 0 | 1 => st.remove_expired(now).map_err(|e| e.to_string()), 2 => TrustGraph::new(store()).get_all_certs(&keys[0], now).map(|_| ()).map_err(|e| e.to_string()), _ => TrustGraph::new(store()).weight(&keys[0], now).map(|_| ()).map_err(|e| e.to_string()) };
    let failed = fault && sq::vx_failed(); sq::vx_fail_at(u64::MAX);
    if failed { ensure!(res.is_err(), "a database failure was reported as success"); return Ok(()) }
    res?;
    m.gc(now);
    by_pair(&st, &keys, &m).and_then(|_| roots(&st, &keys, &m)).map_err(|e| format!("at {:?} from {}: {}", now, before, e)) }) }
// ---------------------------------------------------------------- C13
fn c13_store(r: &mut Rng, _: usize) -> Res { fresh(r, |r| {
    let keys = keyset(r, 5); let mut st = store(); let mut m = Model::default(); let mut log = vec![];
    for _ in 0..12 {
        if r.chance(70) { let x = mk_rel(r, &keys, &BIG, &BIG); log.push(relstr(&x)); st.insert(to_tr(&x)).map_err(|e| format!("{e} {log:?}"))?; let k = x.pair(); m.rel.insert(k, x); }
        else { let k = r.pick(&keys).clone(); let w = *r.pick(&[0u32, 1, 15, 16, 17, 255, 65536, i32::MAX as u32, u32::MAX]); log.push(format!("root {} {w}", graphops::name(&keys, &k))); st.set_root_weight_factor(k.clone().into(), w).map_err(|e| e.to_string())?; m.roots.insert(tagged(&k), w); }
    }
    let st2 = store(); let st = if r.chance(50) { st } else { st2 };
    by_pair(&st, &keys, &m).and_then(|_| listings(&st, &keys, &m)).and_then(|_| roots(&st, &keys, &m)).map_err(|e| format!("{e} after {log:?}"))?;
    // a failing read is reported, not answered from half a result
    sq::vx_fail_at(r.next() % 12);
    let k: PK = r.pick(&keys).clone().into();
    let a = st.get_authorizations(&k).map(|v| v.len()).ok(); let hit = sq::vx_failed(); sq::vx_fail_at(u64::MAX);
    let p: &PublicKey = k.as_ref();
    if hit { ensure!(a.is_none(), "authorizations answered {:?} over a database failure", a) } else { ensure!(a == Some(m.auths_for(&tagged(p)).len()), "authorizations changed") }
    Ok(()) }) }
/// many relations of one key, many roots: nothing is cut off
fn c13_many(r: &mut Rng, _: usize) -> Res { fresh(r, |r| {
    let n = 9 + r.below(60); let keys: Vec<PublicKey> = (0..n).map(|_| ed(r).public()).collect(); let mut st = store(); let mut m = Model::default();
    for k in 1..n {
        let g = sig(r); let at = s(*r.pick(&BIG)); let b = keys[k].clone(); let f = if r.chance(90) { keys[0].clone() } else { r.pick(&keys).clone() };
        let x = if r.chance(50) { Rel::A(Auth { trust: Trust::new(f, s(*r.pick(&BIG)), at, g), issued_by: b }) } else { Rel::R(Revocation::new(b, f, at, g)) };
        st.insert(to_tr(&x)).map_err(|e| e.to_string())?; let p = x.pair(); m.rel.insert(p, x);
        if r.chance(60) { let w = r.below(17) as u32; st.set_root_weight_factor(keys[k].clone().into(), w).map_err(|e| e.to_string())?; m.roots.insert(tagged(&keys[k]), w); }
    }
    listings(&st, &keys, &m).and_then(|_| roots(&st, &keys, &m)).map_err(|e| format!("{n} keys: {e}")) }) }
fn c13_reroot(r: &mut Rng, _: usize) -> Res { fresh(r, |r| {
    let keys = keyset(r, 2); let mut g = TrustGraph::new(store()); let st = store(); let mut m = Model::default();
    for _ in 0..5 { let k = r.pick(&keys).clone(); let l = *r.pick(&[0u32, 1, 2, 8, 15, 16, 17, u32::MAX]); g.set_root(k.clone(), l).map_err(|e| e.to_string())?; m.roots.insert(tagged(&k), factor(l)); roots(&st, &keys, &m).map_err(|e| format!("{e} (set to length {l})"))?; ensure!(g.weight(&k, s(1)).map_err(|e| e.to_string())? == 1 << l.min(16), "root set to length {l} has another weight"); }
    Ok(()) }) }
// ---------------------------------------------------------------- the service
const OPS: [&str; 16] = ["insert_cert_raw", "insert_cert", "get_all_certs", "get_all_certs_from", "get_host_certs", "get_host_certs_from", "get_weight", "get_weight_from", "verify_trust", "add_trust", "revoke", "get_trust_bytes", "issue_trust", "get_revocation_bytes", "issue_revocation", "export_revocations"];
/// position of the time argument; none for operations without one
fn ts_arg(op: usize) -> Option<usize> { match OPS[op] { "insert_cert_raw" | "insert_cert" | "get_all_certs" | "get_host_certs_from" | "get_weight" | "revoke" => Some(1), "get_all_certs_from" | "get_weight_from" | "verify_trust" | "add_trust" => Some(2), "get_host_certs" => Some(0), _ => None } }
struct Args { p1: String, p2: String, ts: u64, raw: String, cert: Vec<DT>, trust: DT, rev: DR, e: u64, i: u64, bytes: Vec<u8> }
/// exchange records as plain data
#[derive(Clone, Debug, PartialEq)] struct DT { f: String, e: u64, s: String, t: String, i: u64 }
#[derive(Clone, Debug, PartialEq)] struct DR { p: String, at: u64, s: String, t: String, by: String }
fn pid(k: &PublicKey) -> String { let l: libp2p_identity::PublicKey = match k {
    PublicKey::Ed25519(x) => libp2p_identity::ed25519::PublicKey::try_from_bytes(&x.encode()).unwrap().into(),
    PublicKey::Secp256k1(x) => libp2p_identity::secp256k1::PublicKey::try_from_bytes(&x.encode()).unwrap().into(),
    PublicKey::Rsa(x) => libp2p_identity::rsa::PublicKey::try_decode_x509(&x509(x.to_pkcs1())).unwrap().into() }; l.to_peer_id().to_base58() }
fn tname(g: &Signature) -> &'static str { ["ed25519", "rsa", "secp256k1"][sig_tag(g) as usize] }
fn dt(t: &Trust) -> DT { DT { f: pid(&t.issued_for), e: t.expires_at.as_secs(), s: bs58::encode(t.signature.to_vec()).into_string(), t: tname(&t.signature).into(), i: t.issued_at.as_secs() } }
fn dr(v: &Revocation) -> DR { DR { p: pid(&v.pk), at: v.revoked_at.as_secs(), s: bs58::encode(v.signature.to_vec()).into_string(), t: tname(&v.signature).into(), by: pid(&v.revoked_by) } }
fn key_of(p: &str) -> Option<PublicKey> {
    let p = PeerId::from_str(p).ok()?; let b = p.to_bytes();
    if b.first() != Some(&0) { return None }
    let l = libp2p_identity::PublicKey::try_decode_protobuf(&b[2..]).ok()?;
    if let Ok(k) = l.clone().try_into_ed25519() { let mut v = vec![0]; v.extend(k.to_bytes()); return PublicKey::decode(&v).ok() }
    if let Ok(k) = l.try_into_secp256k1() { let mut v = vec![2]; v.extend(k.to_bytes()); return PublicKey::decode(&v).ok() }
    None
}
fn sig_of(s: &str, t: &str) -> Option<Signature> { let b = bs58::decode(s).into_vec().ok()?; let f = match t { "ed25519" => KeyFormat::Ed25519, "rsa" => KeyFormat::Rsa, "secp256k1" => KeyFormat::Secp256k1, _ => return None }; Some(Signature::from_bytes(f, b)) }
fn trust_of(d: &DT) -> Option<Trust> { Some(Trust::new(key_of(&d.f)?, s(d.e), s(d.i), sig_of(&d.s, &d.t)?)) }
fn rev_of(d: &DR) -> Option<Revocation> { Some(Revocation::new(key_of(&d.by)?, key_of(&d.p)?, s(d.at), sig_of(&d.s, &d.t)?)) }
fn to_dto(d: &DT) -> dto::Trust { dto::Trust { issued_for: d.f.clone(), expires_at: d.e, signature: d.s.clone(), sig_type: d.t.clone(), issued_at: d.i } }
fn from_dto(d: &dto::Trust) -> DT { DT { f: d.issued_for.clone(), e: d.expires_at, s: d.signature.clone(), t: d.sig_type.clone(), i: d.issued_at } }
fn to_dtor(d: &DR) -> dto::Revocation { dto::Revocation { revoked_peer_id: d.p.clone(), revoked_at: d.at, signature: d.s.clone(), sig_type: d.t.clone(), revoked_by: d.by.clone() } }
fn from_dtor(d: &dto::Revocation) -> DR { DR { p: d.revoked_peer_id.clone(), at: d.revoked_at, s: d.signature.clone(), t: d.sig_type.clone(), by: d.revoked_by.clone() } }
struct Out { ok: bool, err: String, val: String }
fn certs_str(v: &[Vec<DT>]) -> String { format!("{:?}", v) }
fn call(op: usize, a: &Args) -> Out {
    macro_rules! o { ($r:expr, $v:expr) => {{ let r = $r; let v: String = { let f = $v; f(&r) }; Out { ok: r.success, err: r.error.clone(), val: v } }}; }
    let cs = |v: &Vec<dto::Certificate>| certs_str(&v.iter().map(|c| c.chain.iter().map(from_dto).collect()).collect::<Vec<Vec<DT>>>());
    match OPS[op] {
        "insert_cert_raw" => o!(api::insert_cert_raw(a.raw.clone(), a.ts), |_: &_| String::new()),
        "insert_cert" => o!(api::insert_cert(dto::Certificate { chain: a.cert.iter().map(to_dto).collect() }, a.ts), |_: &_| String::new()),
        "get_all_certs" => o!(api::get_all_certs(a.p1.clone(), a.ts), |r: &crate::results::AllCertsResult| cs(&r.certificates)),
        "get_all_certs_from" => o!(api::get_all_certs_from(a.p1.clone(), a.p2.clone(), a.ts), |r: &crate::results::AllCertsResult| cs(&r.certificates)),
        "get_host_certs" => o!(api::get_host_certs(a.ts), |r: &crate::results::AllCertsResult| cs(&r.certificates)),
        "get_host_certs_from" => o!(api::get_host_certs_from(a.p2.clone(), a.ts), |r: &crate::results::AllCertsResult| cs(&r.certificates)),
        "get_weight" => o!(api::get_weight(a.p1.clone(), a.ts), |r: &crate::results::WeightResult| format!("{} {}", r.weight, r.peer_id)),
        "get_weight_from" => o!(api::get_weight_from(a.p1.clone(), a.p2.clone(), a.ts), |r: &crate::results::WeightResult| format!("{} {}", r.weight, r.peer_id)),
        "verify_trust" => o!(api::verify_trust(to_dto(&a.trust), a.p2.clone(), a.ts), |_: &_| String::new()),
        "add_trust" => o!(api::add_trust(to_dto(&a.trust), a.p2.clone(), a.ts), |r: &crate::results::AddTrustResult| format!("{}", r.weight)),
        "revoke" => o!(api::revoke(to_dtor(&a.rev), a.ts), |_: &_| String::new()),
        "get_trust_bytes" => o!(api::get_trust_bytes(a.p1.clone(), a.e, a.i), |r: &crate::results::GetTrustBytesResult| format!("{:?}", r.result)),
        "issue_trust" => o!(api::issue_trust(a.p1.clone(), a.e, a.i, a.bytes.clone()), |r: &crate::results::IssueTrustResult| format!("{:?}", from_dto(&r.trust))),
        "get_revocation_bytes" => o!(api::get_revocation_bytes(a.p1.clone(), a.i), |r: &crate::results::GetRevokeBytesResult| format!("{:?}", r.result)),
        "issue_revocation" => o!(api::issue_revocation(a.p2.clone(), a.p1.clone(), a.i, a.bytes.clone()), |r: &crate::results::IssueRevocationResult| format!("{:?}", from_dtor(&r.revocation))),
        _ => o!(api::export_revocations(a.p1.clone()), |r: &crate::results::ExportRevocationsResult| format!("{:?}", r.revocations.iter().map(from_dtor).collect::<Vec<_>>())),
    }
}
/// what a failed operation carries
fn empty_val(op: usize) -> String { match OPS[op] { "get_all_certs" | "get_all_certs_from" | "get_host_certs" | "get_host_certs_from" | "get_trust_bytes" | "get_revocation_bytes" | "export_revocations" => "[]".into(), "get_weight" | "get_weight_from" => "0 ".into(), "add_trust" => "0".into(), "issue_trust" => format!("{:?}", DT { f: "".into(), e: 0, s: "".into(), t: "".into(), i: 0 }), "issue_revocation" => format!("{:?}", DR { p: "".into(), at: 0, s: "".into(), t: "".into(), by: "".into() }), _ => String::new() } }
const MIRROR: &str = "mirror";
/// the same operation on a graph of its own, straight on the library
fn mirror(op: usize, a: &Args, host: &str) -> Option<String> {
    let mut g = TrustGraph::new(SQLiteStorage::new(sq::open(MIRROR).unwrap())); let now = s(a.ts);
    let cs = |v: Vec<Certificate>| certs_str(&v.iter().map(|c| c.chain.iter().map(dt).collect()).collect::<Vec<Vec<DT>>>());
    Some(match OPS[op] {
        "insert_cert_raw" => { g.add(Certificate::from_str(&a.raw).ok()?, now).ok()?; String::new() }
        "insert_cert" => { let c: Option<Vec<Trust>> = a.cert.iter().map(trust_of).collect(); g.add(Certificate::new_unverified(c?), now).ok()?; String::new() }
        "get_all_certs" => cs(g.get_all_certs(key_of(&a.p1)?, now).ok()?),
        "get_all_certs_from" => cs(g.get_all_certs_from(key_of(&a.p1)?, key_of(&a.p2)?, now).ok()?),
        "get_host_certs" => cs(g.get_all_certs(key_of(host)?, now).ok()?),
        "get_host_certs_from" => cs(g.get_all_certs_from(key_of(host)?, key_of(&a.p2)?, now).ok()?),
        "get_weight" => format!("{} {}", g.weight(key_of(&a.p1)?, now).ok()?, a.p1),
        "get_weight_from" => format!("{} {}", g.weight_from(key_of(&a.p1)?, key_of(&a.p2)?, now).ok()?, a.p1),
        "verify_trust" => { Trust::verify(&trust_of(&a.trust)?, &key_of(&a.p2)?, now).ok()?; String::new() }
        "add_trust" => { let (k, t) = (key_of(&a.p2)?, trust_of(&a.trust)?); if a.trust.i > a.ts { return None } format!("{}", g.add_trust(&t, &k, now).ok()?) }
        "revoke" => { if a.rev.at > a.ts { return None } g.revoke(rev_of(&a.rev)?).ok()?; String::new() }
        "get_trust_bytes" => format!("{:?}", Trust::signature_bytes(&key_of(&a.p1)?, s(a.e), s(a.i))),
        "issue_trust" => { let k = key_of(&a.p1)?; let t = if tagged(&k)[0] == 0 { "ed25519" } else { "secp256k1" }; format!("{:?}", DT { f: pid(&k), e: a.e, s: bs58::encode(&a.bytes).into_string(), t: t.into(), i: a.i }) }
        "get_revocation_bytes" => format!("{:?}", Revocation::signature_bytes(&key_of(&a.p1)?, s(a.i))),
        "issue_revocation" => { let (k, b) = (key_of(&a.p1)?, key_of(&a.p2)?); let t = if tagged(&b)[0] == 0 { "ed25519" } else { "secp256k1" }; format!("{:?}", DR { p: pid(&k), at: a.i, s: bs58::encode(&a.bytes).into_string(), t: t.into(), by: pid(&b) }) }
        _ => format!("{:?}", g.get_revocations(key_of(&a.p1)?).ok()?.iter().map(dr).collect::<Vec<_>>()),
    })
}
fn good(host: &str) -> SecurityTetraplet { SecurityTetraplet { peer_pk: host.into(), service_id: "peer".into(), function_name: "timestamp_sec".into(), json_path: String::new() } }
fn lit(p: &str) -> SecurityTetraplet { SecurityTetraplet { peer_pk: p.into(), ..Default::default() } }
fn params(host: &str, init: &str, owner: &str, ts: Option<usize>, n: usize) -> CallParameters {
    let mut t: Vec<Vec<SecurityTetraplet>> = (0..n).map(|_| vec![lit(init)]).collect();
    if let Some(i) = ts { t[i] = vec![good(host)] }
    CallParameters { init_peer_id: init.into(), service_id: "tg".into(), service_creator_peer_id: owner.into(), host_id: host.into(), particle_id: "p".into(), tetraplets: t }
}
struct World { kps: Vec<KeyPair>, keys: Vec<PublicKey>, pids: Vec<String>, now: u64 }
/// a service whose graph already holds a random set of genuine relations
fn world(r: &mut Rng) -> World {
    let kps: Vec<KeyPair> = (0..5).map(|i| if i == 3 { secp(r) } else { ed(r) }).collect();
    let keys: Vec<PublicKey> = kps.iter().map(|k| k.public()).collect();
    let now = *r.pick(&[100u64, 100, 1 << 32, 1_700_000_000]);
    let mut st = store();
    for k in 0..2 { if r.chance(85) { st.set_root_weight_factor(keys[k].clone().into(), factor(2 + r.below(5) as u32)).unwrap(); } }
    for f in 0..4 { for b in 0..4 { let p = if f == b { if f < 2 { 90 } else { 20 } } else { 35 };
        if r.chance(p) { let at = s(now - r.next() % 50 - 1);
            if r.chance(85) { let e = s(now + 1 + r.next() % 50); st.insert(TrustRelation::Auth(Auth { trust: Trust::create(&kps[b], keys[f].clone(), e, at), issued_by: keys[b].clone() })).unwrap() }
            else { st.insert(TrustRelation::Revocation(Revocation::create(&kps[b], keys[f].clone(), at))).unwrap() } } } }
    // a crowd that was trusted by the first key, trusts the third and has revoked another
    if r.chance(8) { let f = r.below(4); let sg = sig_any(r); for _ in 0..24 { let k = ed(r).public(); let at = s(now - 1 - r.next() % 50);
        for (x, b) in [(k.clone(), keys[0].clone()), (keys[2].clone(), k.clone())] { st.insert(TrustRelation::Auth(Auth { trust: Trust::new(x, s(now + 100), at, sg.clone()), issued_by: b })).unwrap() }
        if f != 2 { st.insert(TrustRelation::Revocation(Revocation::new(k, keys[f].clone(), at, sg.clone()))).unwrap() } } }
    let pids = keys.iter().map(pid).collect();
    World { kps, keys, pids, now }
}
fn args(r: &mut Rng, w: &World) -> Args {
    let junk = |r: &mut Rng, p: String| if r.chance(6) { r.pick(&["", "x", "QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N", "12D3KooW", "1AfaK"]).to_string() } else { p };
    let (b, f) = (r.below(5), r.below(5));
    let ts = match r.below(8) { 0 => w.now + 5, 1 => w.now + 60, _ => w.now };
    let i = match r.below(6) { 0 => ts, 1 => ts + 1, 2 => ts.saturating_sub(1), 3 => 0, 4 => u64::MAX, _ => w.now - 1 - r.next() % 60 };
    let e = *r.pick(&[ts, ts + 1, ts.saturating_sub(1), ts + 100, u64::MAX]);
    let mut t = dt(&Trust::create(&w.kps[b], w.keys[f].clone(), s(e), s(i)));
    if r.chance(15) { match r.below(6) { 0 => t.s = "0OIl".into(), 1 => t.t = "none".into(), 2 => t.f = "zz".into(), 3 => t.e ^= 1, 4 => t.i ^= 1, _ => t.s = bs58::encode(r.bytes(64)).into_string() } }
    let mut v = dr(&Revocation::create(&w.kps[b], w.keys[f].clone(), s(i)));
    if r.chance(15) { match r.below(6) { 0 => v.s = "0OIl".into(), 1 => v.t = "none".into(), 2 => v.p = "zz".into(), 3 => v.at ^= 1, 4 => v.by = w.pids[(b + 1) % 5].clone(), _ => v.s = bs58::encode(r.bytes(64)).into_string() } }
    // a certificate from one of the possible roots
    let n = 1 + r.below(4); let mut ch = vec![r.below(3)]; for _ in 1..n { ch.push(r.below(5)) }
    let mut cert: Vec<Trust> = ch.iter().enumerate().map(|(k, x)| Trust::create(&w.kps[ch[k.saturating_sub(1)]], w.keys[*x].clone(), s(if r.chance(90) { ts + 50 } else { ts.saturating_sub(1) }), s(if r.chance(80) { w.now } else { r.next() % (2 * w.now) }))).collect();
    if r.chance(20) && n > 1 { let k = r.below(n); cert[k].signature = sig_any(r) }
    if r.chance(5) { cert.clear() }
    let raw = if r.chance(92) { Certificate::new_unverified(cert.clone()).to_string() } else { "junk\ntext".into() };
    let raw = match r.below(16) { 0 => format!(" {raw}"), 1 => format!("\n{raw}"), 2 => format!("{raw}\n"), 3 => format!("{raw} "), _ => raw };
    let mut cert: Vec<DT> = cert.iter().map(dt).collect();
    if r.chance(10) && !cert.is_empty() { let k = r.below(cert.len()); match r.below(3) { 0 => cert[k].f = "q".into(), 1 => cert[k].s = "0".into(), _ => cert[k].t = "x".into() } }
    let bytes = if r.chance(70) { let m = Trust::signature_bytes(&w.keys[f], s(e), s(i)); w.kps[b].sign(&m).unwrap().to_vec().to_vec() } else { let n = r.below(80); r.bytes(n) };
    let (p1, p2) = (w.pids[f].clone(), w.pids[b].clone());
    Args { p1: junk(r, p1), p2: junk(r, p2), ts, raw, cert, trust: t, rev: v, e, i, bytes }
}
fn show_args(op: usize, a: &Args) -> String { format!("{} p1={} p2={} ts={} e={} i={} trust={:?} rev={:?} cert={:?}", OPS[op], a.p1, a.p2, a.ts, a.e, a.i, a.trust, a.rev, a.cert) }
// ---------------------------------------------------------------- C19
/// an id that resembles the given one
fn like(r: &mut Rng, o: &str) -> String { match r.below(8) { 0 => o.to_lowercase(), 1 => o.to_uppercase(), 2 => format!("{o} "), 3 => format!(" {o}"), 4 => o[..o.len().saturating_sub(1)].to_string(), 5 => format!("{o}1"), 6 => format!("{o}\n"), _ => o.chars().rev().collect() } }
fn c19_owner(r: &mut Rng, _: usize) -> Res { fresh(r, |r| {
    let w = world(r); let st = store();
    for _ in 0..6 {
        let host = &w.pids[0]; let owner = w.pids[r.below(3)].clone();
        let init = match r.below(5) { 0 | 1 => owner.clone(), 2 => host.clone(), 3 => String::new(), _ => w.pids[r.below(5)].clone() };
        let init = if r.chance(25) { like(r, &owner) } else { init };
        let owner = if r.chance(8) { String::new() } else { owner };
        let k = r.below(5); let peer = if r.chance(85) { w.pids[k].clone() } else { r.pick(&["", "nope", "QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N"]).to_string() };
        let len = *r.pick(&[0u32, 1, 5, 16, 17, u32::MAX]);
        vx_set_call_parameters(params(host, &init, &owner, None, 2));
        let before = sq::vx_dump(DB_PATH);
        sq::vx_clone(DB_PATH, MIRROR, true);
        let res = api::set_root(peer.clone(), len);
        let at = format!("set_root({peer}, {len}) by {init:?} on a service of {owner:?}: success={} error={:?}", res.success, res.error);
        let key = key_of(&peer);
        if init == owner && key.is_some() {
            ensure!(res.success && res.error.is_empty(), "{at}");
            let g = st.get_root_weight_factor(&key.clone().unwrap().into()).map_err(|e| e.to_string())?; ensure!(g == Some(factor(len)), "{at}: recorded factor {g:?}");
            TrustGraph::new(SQLiteStorage::new(sq::open(MIRROR).unwrap())).set_root(key.unwrap(), len).map_err(|e| e.to_string())?;
            ensure!(sq::vx_dump(DB_PATH) == sq::vx_dump(MIRROR), "{at}: other data changed");
        } else {
            ensure!(!res.success && !res.error.is_empty(), "{at}");
            ensure!(sq::vx_dump(DB_PATH) == before, "{at}: the store changed");
        }
    }
    Ok(()) }) }
/// no other operation touches the roots
fn c19_others(r: &mut Rng, _: usize) -> Res { fresh(r, |r| {
    let w = world(r); let roots = || sq::vx_rows(&sq::open(DB_PATH).unwrap(), "SELECT * FROM sqlite_master").len();
    let _ = roots;
    let list = || { let st = store(); let mut v: Vec<String> = st.root_keys().unwrap().iter().map(|k| format!("{k} {:?}", st.get_root_weight_factor(k).unwrap())).collect(); v.sort(); v };
    let before = list();
    for _ in 0..8 { let op = r.below(16); let a = args(r, &w); let i = r.below(5); vx_set_call_parameters(params(&w.pids[0], &w.pids[i], &w.pids[1], ts_arg(op), 4)); call(op, &a); ensure!(list() == before, "{} changed the roots", show_args(op, &a)); }
    Ok(()) }) }
// ---------------------------------------------------------------- C20
fn c20_time(r: &mut Rng, i: usize) -> Res { fresh(r, move |r| {
    let w = world(r); let op = i % 11; let ts = ts_arg(op).unwrap(); let host = w.pids[r.below(5)].clone(); let init = w.pids[r.below(5)].clone(); let other = w.pids.iter().find(|p| **p != host).unwrap().clone();
    for k in 0..18 {
        let a = args(r, &w);
        let mut cp = params(&host, &init, &init, Some(ts), 4);
        let t = &mut cp.tetraplets;
        let g = good(&host);
        let why = match k {
            0 => { t[ts][0].peer_pk = other.clone(); "produced on another peer" }
            1 => { t[ts][0].service_id = "Peer".into(); "another service" }
            2 => { t[ts][0].function_name = "timestamp_ms".into(); "another function" }
            3 => { t[ts] = vec![]; "no tetraplet" }
            4 => { t.truncate(ts); "argument missing" }
            5 => { t[ts] = vec![lit(&init)]; "literal" }
            6 => { for x in 0..4 { t[x] = vec![g.clone()] } t[ts] = vec![lit(&host)]; "time in the other arguments only" }
            7 => { t.insert(0, vec![lit(&host)]); t[ts] = vec![lit(&host)]; "time in the next argument" }
            8 => { t[ts] = vec![lit(&host), g.clone()]; "time in the second tetraplet only" }
            9 => { let x = &mut t[ts][0]; std::mem::swap(&mut x.service_id, &mut x.function_name); "service and function swapped" }
            10 => { t[ts][0].service_id.clear(); "service empty" }
            11 => { t[ts][0].function_name = "timestamp_sec2".into(); "function with a suffix" }
            13 => { t[ts][0].peer_pk = like(r, &host); "from a peer with a similar name" }
            14 => { t.truncate(ts); t.push(vec![]); "empty tetraplets" }
            15 => { t.truncate(ts); for x in t.iter_mut() { *x = vec![g.clone()] } "argument missing, time in the earlier ones" }
            16 => { t[ts][0].function_name = "timestamp".into(); "function cut short" }
            12 => { t[ts][0].peer_pk.clear(); "peer empty" }
            _ => { t.clear(); "no tetraplets" }
        };
        let before = sq::vx_dump(DB_PATH);
        vx_set_call_parameters(cp);
        let o = call(op, &a);
        ensure!(!o.ok && !o.err.is_empty() && o.val == empty_val(op), "time {why}: accepted (success={} error={:?} value={}) {}", o.ok, o.err, o.val, show_args(op, &a));
        ensure!(sq::vx_dump(DB_PATH) == before, "time {why}: the store changed: {}", show_args(op, &a));
    }
    // and the genuine host time is accepted
    let mut a = args(r, &w); a.p1 = w.pids[0].clone(); a.p2 = w.pids[1].clone();
    vx_set_call_parameters(params(&host, &init, &other, Some(ts), 4));
    let o = call(op, &a);
    ensure!(!o.err.contains("timestamp_sec to pass"), "host time refused: {} {}", o.err, show_args(op, &a));
    Ok(()) }) }
fn c20_future(r: &mut Rng, i: usize) -> Res { fresh(r, move |r| {
    let w = world(r); let host = w.pids[0].clone();
    for _ in 0..6 {
        let ts = *r.pick(&[0u64, 1, 100, w.now, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1]); let fut = ts + match r.below(4) { 0 | 1 => 1, 2 => 1 + r.next() % 9, _ => 1 << 40 }.min(u64::MAX - ts);
        let b = r.below(2); let f = r.below(5);
        let mut a = args(r, &w); a.ts = ts; a.p2 = w.pids[b].clone();
        a.trust = dt(&Trust::create(&w.kps[b], w.keys[f].clone(), s(u64::MAX), s(fut)));
        a.rev = dr(&Revocation::create(&w.kps[b], w.keys[f].clone(), s(fut)));
        let op = if i % 2 == 0 { 9 } else { 10 };
        vx_set_call_parameters(params(&host, &host, &host, ts_arg(op), 4));
        let before = sq::vx_dump(DB_PATH);
        let o = call(op, &a);
        ensure!(!o.ok && !o.err.is_empty() && sq::vx_dump(DB_PATH) == before, "created at {fut}, accepted at {ts}: success={} error={:?} {}", o.ok, o.err, show_args(op, &a));
    }
    Ok(()) }) }
// ---------------------------------------------------------------- C21
fn c21_dto(r: &mut Rng, i: usize) -> Res {
    let (a, b) = (small_keypair(r).public(), small_keypair(r).public());
    let t = Trust::new(a.clone(), wdur(r), wdur(r), sig_any(r));
    let d = dto::Trust::from(t.clone());
    ensure!(from_dto(&d) == dt(&t), "{} becomes {:?} instead of {:?}", tkey(&t), from_dto(&d), dt(&t));
    match Trust::try_from(d) { Ok(x) => ensure!(x == t && tkey(&x) == tkey(&t), "{} comes back as {}", tkey(&t), tkey(&x)), Err(e) => return Err(format!("{} does not come back: {e}", tkey(&t))) }
    let v = Revocation::new(a.clone(), b.clone(), wdur(r), sig_any(r));
    let d = dto::Revocation::from(v.clone());
    ensure!(from_dtor(&d) == dr(&v), "{} becomes {:?} instead of {:?}", rkey(&v), from_dtor(&d), dr(&v));
    match Revocation::try_from(d) { Ok(x) => ensure!(rkey(&x) == rkey(&v), "{} comes back as {}", rkey(&v), rkey(&x)), Err(e) => return Err(format!("{} does not come back: {e}", rkey(&v))) }
    let n = if i % 40 == 11 { 70 + r.below(300) } else { r.below(6) };
    let c = Certificate::new_unverified((0..n).map(|_| { let k = if r.chance(50) { a.clone() } else { b.clone() }; Trust::new(k, wdur(r), wdur(r), sig_any(r)) }).collect());
    let d = dto::Certificate::from(c.clone());
    ensure!(d.chain.iter().map(from_dto).collect::<Vec<_>>() == c.chain.iter().map(dt).collect::<Vec<_>>(), "certificate {:?} changes", ckey(&c));
    match Certificate::try_from(d) { Ok(x) => ensure!(x == c, "certificate {:?} comes back as {:?}", ckey(&c), ckey(&x)), Err(e) => return Err(format!("certificate {:?} does not come back: {e}", ckey(&c))) }
    // damaged records
    let bad_pid = |r: &mut Rng, p: &str| -> String { match r.below(5) { 0 => String::new(), 1 => p[..p.len() - 1].into(), 2 => format!("{p}1"), 3 => "QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N".into(), _ => "not a peer".into() } };
    let mut x = dt(&t);
    match r.below(4) { 0 => x.f = bad_pid(r, &x.f), 1 => x.s = r.pick(&["0", "l", "a b", "I", "O0", "é"]).to_string(), 2 => x.t = r.pick(&["", "ed", "Ed25519", "rsa2", "secp256", " rsa", "ed25519 "]).to_string(), _ => { x.e ^= 1; x.i = secs(r) } }
    judge(Trust::try_from(to_dto(&x)).map(|t| tkey(&t)).map_err(|e| e.to_string()), trust_of(&x).map(|t| tkey(&t)), format!("{x:?}"))?;
    let mut y = dr(&v);
    match r.below(5) { 0 => y.p = bad_pid(r, &y.p), 1 => y.by = bad_pid(r, &y.by), 2 => y.s = r.pick(&["0", "l", "a b"]).to_string(), 3 => y.t = r.pick(&["", "ed", "RSA"]).to_string(), _ => y.at = secs(r) }
    judge(Revocation::try_from(to_dtor(&y)).map(|t| rkey(&t)).map_err(|e| e.to_string()), rev_of(&y).map(|t| rkey(&t)), format!("{y:?}"))?;
    if n > 0 { let mut ch: Vec<DT> = c.chain.iter().map(dt).collect(); let k = r.below(n); ch[k] = x; let want: Option<Vec<String>> = ch.iter().map(|d| trust_of(d).map(|t| tkey(&t))).collect();
        judge(Certificate::try_from(dto::Certificate { chain: ch.iter().map(to_dto).collect() }).map(|c| format!("{:?}", ckey(&c))).map_err(|e| e.to_string()), want.map(|w| format!("{w:?}")), format!("{ch:?}"))?; }
    Ok(())
}
fn judge(got: Result<String, String>, want: Option<String>, what: String) -> Res {
    match (got, want) { (Ok(g), Some(w)) => ensure!(g == w, "{what} becomes {g} instead of {w}"), (Ok(g), None) => return Err(format!("{what} is accepted as {g}")), (Err(e), Some(_)) => return Err(format!("{what} is refused: {e}")), (Err(e), None) => ensure!(!e.is_empty(), "empty error") }
    Ok(())
}
// ---------------------------------------------------------------- C22
fn c22_ops(r: &mut Rng, i: usize) -> Res { fresh(r, move |r| {
    let w = world(r); sq::vx_clone(DB_PATH, MIRROR, true);
    let host = w.pids[r.below(5)].clone(); let init = w.pids[r.below(5)].clone();
    for k in 0..6 {
        let op = if k == 0 { i % 16 } else { r.below(16) };
        let a = args(r, &w);
        vx_set_call_parameters(params(&host, &init, &w.pids[4], ts_arg(op), 4));
        let fault = r.chance(8); if fault { sq::vx_fail_at(r.next() % 12) }
        let o = call(op, &a);
        let failed = fault && sq::vx_failed(); sq::vx_fail_at(u64::MAX);
        if failed { ensure!(!o.ok && !o.err.is_empty() && o.val == empty_val(op), "a database failure was reported as success={} value={} {}", o.ok, o.val, show_args(op, &a)); sq::vx_clone(DB_PATH, MIRROR, true); continue }
        let want = mirror(op, &a, &host);
        match want {
            Some(v) => { ensure!(o.ok && o.err.is_empty(), "reported success={} error={:?} for a successful operation: host {host} {}", o.ok, o.err, show_args(op, &a)); ensure!(o.val == v, "returned {} instead of {}: host {host} {}", o.val, v, show_args(op, &a)) }
            None => { ensure!(!o.ok && !o.err.is_empty(), "reported success={} error={:?} for a failed operation: {}", o.ok, o.err, show_args(op, &a)); ensure!(o.val == empty_val(op), "failure carries {}: {}", o.val, show_args(op, &a)) }
        }
        ensure!(sq::vx_dump(DB_PATH) == sq::vx_dump(MIRROR), "the store differs after {}", show_args(op, &a));
    }
    Ok(()) }) }
/// the bytes offered for signing are the ones verification checks
fn c22_roundtrip(r: &mut Rng, _: usize) -> Res { fresh(r, |r| {
    let w = world(r); let (b, f) = (r.below(5), r.below(5)); let host = w.pids[0].clone(); let ts = w.now;
    let (e, i) = (ts + r.next() % 100, ts - r.next() % 50);
    vx_set_call_parameters(params(&host, &host, &host, None, 4));
    let g = api::get_trust_bytes(w.pids[f].clone(), e, i); ensure!(g.success, "get_trust_bytes: {}", g.error);
    let sg = w.kps[b].sign(&g.result).map_err(|e| e.to_string())?;
    let t = api::issue_trust(w.pids[f].clone(), e, i, sg.to_vec().to_vec()); ensure!(t.success, "issue_trust: {}", t.error);
    let t = from_dto(&t.trust);
    vx_set_call_parameters(params(&host, &host, &host, Some(2), 4));
    let v = api::verify_trust(to_dto(&t), w.pids[b].clone(), ts); ensure!(v.success, "issued trust does not verify: {} {:?} by {}", v.error, t, w.pids[b]);
    let o = (b + 1) % 5; let v = api::verify_trust(to_dto(&t), w.pids[o].clone(), ts); ensure!(!v.success, "issued trust verifies for another issuer: {:?}", t);
    vx_set_call_parameters(params(&host, &host, &host, None, 4));
    let g = api::get_revocation_bytes(w.pids[f].clone(), i); ensure!(g.success, "get_revocation_bytes: {}", g.error);
    let sg = w.kps[b].sign(&g.result).map_err(|e| e.to_string())?;
    let v = api::issue_revocation(w.pids[b].clone(), w.pids[f].clone(), i, sg.to_vec().to_vec()); ensure!(v.success, "issue_revocation: {}", v.error);
    let v = from_dtor(&v.revocation);
    vx_set_call_parameters(params(&host, &host, &host, Some(1), 4));
    let x = api::revoke(to_dtor(&v), ts); ensure!(x.success, "issued revocation is refused: {} {:?}", x.error, v);
    Ok(()) }) }

pub fn table(id: &str) -> Vec<Case> {
    macro_rules! c { ($($f:ident $min:expr;)*) => { vec![$(Case { name: stringify!($f), f: $f, min: $min, max: 1 << 40 }),*] } }
    match id {
        "C11" => c![c11_newest 250; c11_verified 60;],
        "C12" => c![c12_gc 600;],
        "C13" => c![c13_store 300; c13_reroot 60; c13_many 25;],
        "C19" => c![c19_owner 150; c19_others 60;],
        "C20" => c![c20_time 110; c20_future 60;],
        "C21" => c![c21_dto 800;],
        "C22" => c![c22_ops 350; c22_roundtrip 100;],
        _ => vec![],
    }
}
