// Shared by the harness crates: rng, keys, oracles.
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use trust_graph::{Auth, Certificate, Revocation, Trust};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9e3779b97f4a7c15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}

pub type Res = Result<(), String>;
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

/// one property run: a list of case functions, each called with case numbers until the budget is spent
pub struct Case { pub name: &'static str, pub f: fn(&mut Rng, usize) -> Res, pub min: usize, pub max: usize }

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}

thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = Default::default(); }

pub fn run_case(c: &Case, seed: u64, i: usize) -> Res {
    let h = c.name.bytes().fold(seed.wrapping_mul(0x100000001b3), |a, b| a.wrapping_mul(31).wrapping_add(b as u64)) ^ (i as u64).wrapping_mul(0x2545F4914F6CDD1D);
    let mut r = Rng::new(h);
    match catch_unwind(AssertUnwindSafe(|| (c.f)(&mut r, i))) {
        Ok(x) => x,
        Err(_) => Err(format!("the code panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

/// arguments: ID tier seed witness budget_s [case index]; exit 1 and a witness file on a failing input
pub fn drive(table: fn(&str) -> Vec<Case>) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let (id, seed, wit) = (a[1].clone(), a[3].parse::<u64>().unwrap_or(1), a[4].clone());
    let budget = Duration::from_secs_f64(a[5].parse::<f64>().unwrap_or(10.0));
    std::panic::set_hook(Box::new(|i| { let s = format!("{}", i); LAST_PANIC.with(|p| *p.borrow_mut() = s); }));
    let cases = table(&id);
    let t0 = Instant::now();
    let fail = |c: &Case, i: usize, e: String| -> ! {
        let j = format!("{{\"property\":{},\"case\":{},\"index\":{},\"seed\":{},\"signature\":{},\"what\":{}}}", esc(&id), esc(c.name), i, seed, esc(c.name), esc(&e));
        let _ = std::fs::write(&wit, &j);
        println!("WITNESS {}", j);
        std::process::exit(1)
    };
    if a.len() > 7 {
        let c = cases.iter().find(|c| c.name == a[6]).expect("no such case");
        let i = a[7].parse().unwrap();
        if let Err(e) = run_case(c, seed, i) { fail(c, i, e) }
        println!("case passes"); std::process::exit(0)
    }
    // a case takes milliseconds: one that runs for 90 s hangs
    let now: std::sync::Arc<std::sync::Mutex<(&'static str, usize, Instant)>> = std::sync::Arc::new(std::sync::Mutex::new(("", 0, Instant::now())));
    let (w, id2, wit2) = (now.clone(), id.clone(), wit.clone());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let (n, i, t) = *w.lock().unwrap();
        if !n.is_empty() && t.elapsed() > Duration::from_secs(90) {
            let j = format!("{{\"property\":{},\"case\":{},\"index\":{},\"seed\":{},\"signature\":{},\"what\":\"the code did not return within 90 s on this case\"}}", esc(&id2), esc(n), i, seed, esc(n));
            std::fs::write(&wit2, &j).unwrap();
            println!("WITNESS {}", j);
            std::process::exit(1)
        }
    });
    let cur = std::fs::File::create(format!("{}.cur", wit)).ok();
    let mut done = vec![0usize; cases.len()];
    let mut total = 0usize;
    'o: loop {
        let mut any = false;
        for (k, c) in cases.iter().enumerate() {
            let late = t0.elapsed() > budget;
            let n = if done[k] < c.min { c.min } else if late { 0 } else { (c.min / 4).max(1).min(c.max - done[k]) };
            for _ in 0..n {
                let i = done[k];
                done[k] += 1; total += 1;
                *now.lock().unwrap() = (c.name, i, Instant::now());
                if let Some(f) = &cur { use std::os::unix::fs::FileExt; let _ = f.write_all_at(format!("{:<24}{:<12}", c.name, i).as_bytes(), 0); }
                if let Err(e) = run_case(c, seed, i) { fail(c, i, e) }
                any = true;
                if t0.elapsed() > budget * 4 { break 'o }
                if done[k] >= c.min && t0.elapsed() > budget { break }
            }
        }
        if !any { break }
    }
    let per: Vec<String> = cases.iter().zip(&done).map(|(c, n)| format!("{}: {}", esc(c.name), n)).collect();
    println!("STATS {{\"evaluations\":{},\"cases\":{{{}}},\"wall_s\":{:.1}}}", total, per.join(","), t0.elapsed().as_secs_f64());
    std::process::exit(0)
}

// ---------------------------------------------------------------- keys
pub const RSA: [&str; 3] = ["rsa-2048.pk8", "rsa-3072.pk8", "rsa-4096.pk8"];
pub fn rsa_key(i: usize) -> Option<KeyPair> {
    let p = format!("{}/keypair/src/test/{}", option_env!("VX_REPO").unwrap_or("/repo"), RSA[i % 3]);
    let mut b = std::fs::read(p).ok()?;
    KeyPair::rsa_from_pkcs8(&mut b).ok()
}
pub fn rsa_public(i: usize) -> PublicKey {
    thread_local! { static K: Vec<PublicKey> = (0..3).filter_map(|i| rsa_key(i).map(|k| k.public())).collect(); }
    K.with(|k| if k.is_empty() { ed(&mut Rng::new(i as u64)).public() } else { k[i % k.len()].clone() })
}
pub fn ed(r: &mut Rng) -> KeyPair { KeyPair::from_secret_key(r.bytes(32), KeyFormat::Ed25519).expect("ed25519 secret") }
pub fn secp(r: &mut Rng) -> KeyPair { let mut b = r.bytes(32); b[0] = b[0].min(0xfe); b[31] |= 1; KeyPair::from_secret_key(b, KeyFormat::Secp256k1).expect("secp256k1 secret") }
pub fn keypair(r: &mut Rng) -> KeyPair {
    match r.below(10) { 0..=4 => ed(r), 5..=8 => secp(r), _ => { let i = r.below(3); rsa_key(i).unwrap_or_else(|| ed(r)) } }
}
/// keys whose encodings fit the one-byte fields
pub fn small_keypair(r: &mut Rng) -> KeyPair { if r.chance(55) { ed(r) } else { secp(r) } }
pub fn kinds(i: usize, r: &mut Rng) -> KeyPair { match i % 3 { 0 => ed(r), 1 => secp(r), _ => rsa_key(i / 3).unwrap_or_else(|| ed(r)) } }

pub const SECS: [u64; 30] = [0, 1, 2, 59, 60, 127, 128, 255, 256, 257, 65535, 65536, 999_999_999, 1_000_000_000, 1_700_000_000, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX];
pub fn secs(r: &mut Rng) -> u64 {
    match r.below(6) { 0..=2 => *r.pick(&SECS), 3 => r.next(), 4 => r.next() % 1000, _ => r.next() >> r.below(64) }
}
pub fn dur(r: &mut Rng) -> Duration { let n = *r.pick(&[0u32, 0, 0, 1, 500_000_000, 999_999_999]); Duration::new(secs(r), n) }
pub fn wdur(r: &mut Rng) -> Duration { Duration::from_secs(secs(r)) }
/// a time near another one
pub fn near(r: &mut Rng, d: Duration) -> Duration {
    match r.below(7) {
        0 => d, 1 => d.checked_add(Duration::from_secs(1)).unwrap_or(d), 2 => d.checked_sub(Duration::from_secs(1)).unwrap_or(d),
        3 => d.checked_add(Duration::from_nanos(1)).unwrap_or(d), 4 => d.checked_sub(Duration::from_nanos(1)).unwrap_or(d),
        _ => dur(r),
    }
}

pub fn sig_any(r: &mut Rng) -> Signature {
    let n = *r.pick(&[0usize, 1, 10, 63, 64, 65, 70, 71, 72, 100]);
    let k = *r.pick(&[KeyFormat::Ed25519, KeyFormat::Rsa, KeyFormat::Secp256k1]);
    Signature::from_bytes(k, r.bytes(n))
}

/// independent signature check: libp2p-identity's implementation on the raw key bytes
pub fn oracle_verify(pk: &PublicKey, msg: &[u8], sig: &[u8]) -> bool {
    let raw = pk.to_vec();
    let _ = &raw;
    match pk {
        PublicKey::Ed25519(k) => libp2p_identity::ed25519::PublicKey::try_from_bytes(&k.encode()).map(|p| p.verify(msg, sig)).unwrap_or(false),
        PublicKey::Secp256k1(k) => libp2p_identity::secp256k1::PublicKey::try_from_bytes(&k.encode()).map(|p| p.verify(msg, sig)).unwrap_or(false),
        PublicKey::Rsa(k) => libp2p_identity::rsa::PublicKey::try_decode_x509(&x509(k.to_pkcs1())).map(|p| p.verify(msg, sig)).unwrap_or(false),
    }
}
pub fn der(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag]; let n = body.len();
    if n < 128 { v.push(n as u8) } else if n < 256 { v.extend([0x81, n as u8]) } else if n < 65536 { v.extend([0x82, (n >> 8) as u8, n as u8]) } else { v.extend([0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]) }
    v.extend_from_slice(body); v
}
/// SubjectPublicKeyInfo around a PKCS#1 key, written independently of the repository
pub fn x509(pkcs1: &[u8]) -> Vec<u8> {
    let alg = der(0x30, &[der(6, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]), der(5, &[])].concat());
    let mut b = vec![0u8]; b.extend_from_slice(pkcs1);
    der(0x30, &[alg, der(3, &b)].concat())
}
/// type byte and raw bytes of a key, independently of `encode`
pub fn raw_key(pk: &PublicKey) -> (u8, Vec<u8>) {
    match pk {
        PublicKey::Ed25519(k) => (0, k.encode().to_vec()),
        PublicKey::Secp256k1(k) => (2, k.encode().to_vec()),
        PublicKey::Rsa(k) => (1, k.to_pkcs1().to_vec()),
    }
}
pub fn tagged(pk: &PublicKey) -> Vec<u8> { let (t, b) = raw_key(pk); let mut v = vec![t]; v.extend(b); v }
pub fn sig_tag(s: &Signature) -> u8 { match s { Signature::Ed25519(_) => 0, Signature::Rsa(_) => 1, Signature::Secp256k1(_) => 2 } }

pub fn flip(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match r.below(8) {
        0 => { v.pop(); }
        1 => { v.push(r.next() as u8); }
        2 => { v.clear(); }
        3 if !v.is_empty() => { v.remove(0); }
        4 => { v.insert(0, 0); }
        _ if !v.is_empty() => { let i = r.below(v.len()); v[i] ^= 1 << r.below(8); }
        _ => v.push(1),
    }
    v
}
pub fn fmt_trust(t: &Trust) -> String { format!("trust{{for={} exp={:?} iat={:?} sig={}}}", hexs(&tagged(&t.issued_for)), t.expires_at, t.issued_at, hexs(t.signature.to_vec())) }
pub fn hexs(b: &[u8]) -> String { let s: String = b.iter().take(80).map(|x| format!("{:02x}", x)).collect(); if b.len() > 80 { format!("{}..({})", s, b.len()) } else { s } }

// ---------------------------------------------------------------- graph model
/// a relation of the model; the key pair (issued_for, issued_by) indexes it
#[derive(Clone)]
pub enum Rel { A(Auth), R(Revocation) }
impl Rel {
    pub fn at(&self) -> u64 { match self { Rel::A(a) => a.trust.issued_at.as_secs(), Rel::R(r) => r.revoked_at.as_secs() } }
    pub fn pair(&self) -> (Vec<u8>, Vec<u8>) { match self { Rel::A(a) => (tagged(&a.trust.issued_for), tagged(&a.issued_by)), Rel::R(r) => (tagged(&r.pk), tagged(&r.revoked_by)) } }
}
#[derive(Default, Clone)]
pub struct Model { pub rel: BTreeMap<(Vec<u8>, Vec<u8>), Rel>, pub roots: BTreeMap<Vec<u8>, u32> }
impl Model {
    /// newest statement wins, ties keep the stored one
    pub fn put(&mut self, r: Rel) -> bool {
        let k = r.pair();
        if let Some(o) = self.rel.get(&k) { if r.at() <= o.at() { return false } }
        self.rel.insert(k, r); true
    }
    pub fn gc(&mut self, now: Duration) { let n = now.as_secs(); self.rel.retain(|_, r| match r { Rel::A(a) => a.trust.expires_at.as_secs() > n, _ => true }) }
    pub fn auths_for(&self, k: &[u8]) -> Vec<Auth> { self.rel.iter().filter(|((f, _), _)| f == k).filter_map(|(_, r)| match r { Rel::A(a) => Some(a.clone()), _ => None }).collect() }
    pub fn revs_for(&self, k: &[u8]) -> Vec<Revocation> { self.rel.iter().filter(|((f, _), _)| f == k).filter_map(|(_, r)| match r { Rel::R(a) => Some(a.clone()), _ => None }).collect() }
    pub fn revoked(&self, of: &[u8], by: &[u8]) -> bool { matches!(self.rel.get(&(of.to_vec(), by.to_vec())), Some(Rel::R(_))) }
    /// every valid path to `k`, as a chain root first (by definition, independent of the search in the code)
    pub fn paths(&self, k: &[u8]) -> Vec<Vec<Auth>> {
        let mut out = vec![];
        let mut cur: Vec<Auth> = vec![];
        self.extend(k, &mut cur, &mut out);
        out.into_iter().map(|mut p: Vec<Auth>| { p.reverse(); p }).collect()
    }
    fn extend(&self, k: &[u8], cur: &mut Vec<Auth>, out: &mut Vec<Vec<Auth>>) {
        for a in self.auths_for(k) {
            let by = tagged(&a.issued_by);
            // the keys before this trust (nearer to the subject) must differ from its issuer, and not be revoked by it
            let bad = cur.iter().any(|c| { let f = tagged(&c.trust.issued_for); let b = tagged(&c.issued_by); f == by || self.revoked(&f, &by) || self.revoked(&b, &by) });
            if bad { continue }
            let selfsigned = tagged(&a.trust.issued_for) == by;
            cur.push(a);
            if selfsigned && self.roots.contains_key(&by) && cur.len() > 1 { out.push(cur.clone()) }
            self.extend(&by, cur, out);
            cur.pop();
        }
    }
    /// weight of a path of `n` trusts from root `k`
    pub fn path_weight(&self, k: &[u8], n: usize) -> u32 {
        let wf = self.roots[k];
        let e = 16i64 - wf as i64 - (n as i64 - 1);
        if e < 0 { 0 } else { 1u32 << e }
    }
    pub fn weight(&self, k: &[u8]) -> u32 {
        let own = self.roots.get(k).map(|_| self.path_weight(k, 1)).unwrap_or(0);
        self.paths(k).iter().map(|p| self.path_weight(&tagged(&p[0].trust.issued_for), p.len())).fold(own, u32::max)
    }
    pub fn weight_from(&self, k: &[u8], i: &[u8]) -> u32 {
        self.paths(k).iter().filter(|p| p.iter().any(|a| tagged(&a.trust.issued_for) == i)).map(|p| self.path_weight(&tagged(&p[0].trust.issued_for), p.len())).fold(0, u32::max)
    }
}
/// allowed chain length -> root weight factor
pub fn factor(max_chain_len: u32) -> u32 { 16u32.saturating_sub(max_chain_len) }
/// comparable form of a trust
pub fn tkey(t: &Trust) -> String { format!("{}|{}|{}|{}:{}", hexs(&tagged(&t.issued_for)), t.expires_at.as_secs(), t.issued_at.as_secs(), sig_tag(&t.signature), hexs(t.signature.to_vec())) }
pub fn ckey(c: &Certificate) -> Vec<String> { c.chain.iter().map(tkey).collect() }
pub fn pkey(p: &[Auth]) -> Vec<String> { p.iter().map(|a| tkey(&a.trust)).collect() }
pub fn cset(v: &[Certificate]) -> BTreeSet<Vec<String>> { v.iter().map(ckey).collect() }
pub fn pset(v: &[Vec<Auth>]) -> BTreeSet<Vec<String>> { v.iter().map(|p| pkey(p)).collect() }
pub fn rkey(r: &Revocation) -> String { format!("rev {}|{}|{}|{}:{}", hexs(&tagged(&r.pk)), hexs(&tagged(&r.revoked_by)), r.revoked_at.as_secs(), sig_tag(&r.signature), hexs(r.signature.to_vec())) }
pub fn akey(a: &Auth) -> String { format!("{} by {}", tkey(&a.trust), hexs(&tagged(&a.issued_by))) }
