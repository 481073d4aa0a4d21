// Assumed contracts of the third-party crates the code uses.
use vstd::prelude::*;
verus! { pub broadcast group ext_axioms {
    ed25519_dalek::axiom_vk_ext, ed25519_dalek::axiom_sk_ext, libsecp256k1::axiom_pk_ext, libsecp256k1::axiom_sk_ext, libsecp256k1::axiom_sig_ext,
    libp2p_identity::axiom_pk_ext, libp2p_identity::axiom_peer_ext, libp2p_identity::ed25519::axiom_pk_ext, bs58::axiom_b58, bs58::lemma_b58_ext, sha2::lemma_sha_ext, nonempty::axiom_ne_ext, nonempty::axiom_ne_len,
    libp2p_identity::axiom_mhash, ed25519_dalek::axiom_vk, ed25519_dalek::axiom_sk, libsecp256k1::axiom_pk, libsecp256k1::axiom_sk,
} }

pub mod bs58 { use vstd::prelude::*; use crate::vx::*; verus! {
    pub uninterp spec fn b58(b: Seq<u8>) -> Seq<char>;
    pub uninterp spec fn b58dec(s: Seq<char>) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub broadcast proof fn axiom_b58(b: Seq<u8>) ensures #![trigger b58(b)] b58dec(b58(b)) == Some(b), no_nl(b58(b)), b.len() > 0 ==> b58(b).len() > 0 { }
    pub broadcast proof fn lemma_b58_ext(a: Seq<u8>, b: Seq<u8>) ensures #![trigger b58(a), b58(b)] a =~= b ==> b58(a) == b58(b) { }
    #[verifier::external_body] pub struct EncodeBuilder { x: u8 }
    #[verifier::external_body] pub struct DecodeBuilder { x: u8 }
    impl EncodeBuilder { pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn vx_into_string(self) -> (r: String) ensures r@ == b58(self@) { unimplemented!() } }
    impl DecodeBuilder { pub uninterp spec fn view(&self) -> Seq<char>;
        #[verifier::external_body] pub fn into_vec(self) -> (r: Result<Vec<u8>, decode::Error>) ensures r is Ok <==> b58dec(self@) is Some, r is Ok ==> Some(r->Ok_0@) == b58dec(self@) { unimplemented!() } }
    #[verifier::external_body] pub fn encode<T: VxBytes>(t: T) -> (r: EncodeBuilder) ensures r@ == t.vb() { unimplemented!() }
    #[verifier::external_body] pub fn decode<T: VxStr>(t: T) -> (r: DecodeBuilder) ensures r@ == t.vs() { unimplemented!() }
    pub mod decode { use vstd::prelude::*; use crate::vx::*; verus! { #[verifier::external_body] pub struct Error { x: u8 }
        impl VxToString for Error { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } } } }
} }

pub mod sha2 { use vstd::prelude::*; use crate::vx::*; verus! {
    /// SHA-256; distinct inputs are NOT assumed to have distinct digests
    pub uninterp spec fn sha256(b: Seq<u8>) -> Seq<u8>;
    pub broadcast proof fn lemma_sha_ext(a: Seq<u8>, b: Seq<u8>) ensures #![trigger sha256(a), sha256(b)] a =~= b ==> sha256(a) == sha256(b) { }
    pub trait Digest {}
    pub struct Sha256;
    #[verifier::external_body] pub struct Output { x: u8 }
    impl Output { pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
    impl VxExtSrc for Output { open spec fn es(self) -> Seq<u8> { self@ } }
    impl Sha256 { #[verifier::external_body] pub fn digest<T: VxBytes>(t: T) -> (r: Output) ensures r@ == sha256(t.vb()), r@.len() == 32 { unimplemented!() } }
} }

pub mod asn1_der { use vstd::prelude::*; use crate::vx::*; verus! {
    // DER as asn1_der 0.6 writes and reads it (RFC-conformant lengths; on reading, bits 4-6 of a long length byte are ignored)
    pub open spec fn be(n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { be(n / 256).push((n % 256) as u8) } }
    pub open spec fn be_val(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { be_val(s.drop_last()) * 256 + s.last() as nat } }
    pub open spec fn der_len(n: nat) -> Seq<u8> { if n < 128 { seq![n as u8] } else { seq![(0x80 + be(n).len()) as u8] + be(n) } }
    /// an object is its tag byte and its payload
    pub open spec fn der(o: (u8, Seq<u8>)) -> Seq<u8> { seq![o.0] + der_len(o.1.len()) + o.1 }
    /// (length, bytes used)
    pub open spec fn len_read(s: Seq<u8>) -> Option<(nat, nat)> {
        if s.len() == 0 { None } else if s[0] < 128 { Some((s[0] as nat, 1)) } else {
            let k = (s[0] % 16) as nat;
            if k > 8 || s.len() < 1 + k { None } else { let n = be_val(s.subrange(1, 1 + k as int)); if n < 128 { None } else { Some((n, 1 + k)) } } } }
    /// (object, bytes used)
    pub open spec fn der_read(s: Seq<u8>) -> Option<((u8, Seq<u8>), nat)> {
        if s.len() == 0 { None } else { match len_read(s.skip(1)) { None => None, Some((n, k)) =>
            if s.len() < 1 + k + n { None } else { Some(((s[0], s.subrange(1 + k as int, 1 + k as int + n as int)), 1 + k + n)) } } } }
    pub open spec fn seq_read(s: Seq<u8>) -> Option<Seq<(u8, Seq<u8>)>> decreases s.len() {
        if s.len() == 0 { Some(Seq::empty()) } else { match der_read(s) { None => None, Some((o, k)) =>
            if k == 0 || k > s.len() { None } else { match seq_read(s.skip(k as int)) { None => None, Some(l) => Some(seq![o] + l) } } } } }

    pub proof fn lemma_be(n: nat) ensures be_val(be(n)) == n, forall|e: nat| n < #[trigger] pow256(e) ==> be(n).len() <= e decreases n {
        if n > 0 { lemma_be(n / 256); assert(be(n).drop_last() =~= be(n / 256));
            assert(be_val(be(n)) == (n / 256) * 256 + n % 256);
            assert forall|e: nat| n < #[trigger] pow256(e) implies be(n).len() <= e by { if e > 0 { assert(n / 256 < pow256((e - 1) as nat)) by (nonlinear_arith) requires n < 256 * pow256((e - 1) as nat) {} } } }
    }
    pub open spec fn pow256(e: nat) -> nat decreases e { if e == 0 { 1 } else { 256 * pow256((e - 1) as nat) } }
    pub proof fn lemma_be8(n: nat) requires n <= u64::MAX ensures be(n).len() <= 8, be_val(be(n)) == n { lemma_be(n); assert(pow256(8) == 0x1_0000_0000_0000_0000) by (compute); }
    /// reading what was written gives the object back, whatever follows
    pub proof fn lemma_der_read(o: (u8, Seq<u8>), rest: Seq<u8>)
        requires o.1.len() <= u64::MAX
        ensures der_read(der(o) + rest) == Some((o, der(o).len())), der(o).len() > 0
    {
        let s = der(o) + rest; let n = o.1.len(); lemma_be8(n);
        let t = s.skip(1);
        assert(s[0] == o.0);
        if n < 128 { assert(t[0] == n as u8); assert(len_read(t) == Some((n as nat, 1 as nat))); assert(s.subrange(2, 2 + n as int) =~= o.1); }
        else {
            let k = be(n).len();
            assert(t[0] == (0x80 + k) as u8);
            assert(((0x80 + k) as u8) % 16 == k);
            assert(t.subrange(1, 1 + k as int) =~= be(n));
            assert(len_read(t) == Some((n as nat, (1 + k) as nat)));
            assert(s.subrange(2 + k as int, 2 + k as int + n as int) =~= o.1);
        }
    }
    pub proof fn lemma_seq2(a: (u8, Seq<u8>), b: (u8, Seq<u8>))
        requires a.1.len() <= u64::MAX, b.1.len() <= u64::MAX
        ensures seq_read(der(a) + der(b)) == Some(seq![a, b])
    {
        let s = der(a) + der(b);
        lemma_der_read(a, der(b)); lemma_der_read(b, Seq::empty());
        assert(der(b) + Seq::empty() =~= der(b));
        assert(s.skip(der(a).len() as int) =~= der(b));
        assert(der(b).skip(der(b).len() as int) =~= Seq::empty());
        reveal_with_fuel(seq_read, 4);
        assert(seq_read(der(b)) == Some(seq![b] + Seq::empty()));
        assert(seq![a] + (seq![b] + Seq::<(u8, Seq<u8>)>::empty()) =~= seq![a, b]);
    }

    // X.509 SubjectPublicKeyInfo of an RSA key (RFC 5280, RFC 3279)
    pub open spec fn oid_rsa() -> Seq<u8> { seq![0x2Au8, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x01, 0x01, 0x01] }
    pub open spec fn alg_rsa() -> (u8, Seq<u8>) { (0x30u8, der((0x06u8, oid_rsa())) + der((0x05u8, Seq::empty()))) }
    pub open spec fn x509(pk: Seq<u8>) -> Seq<u8> { der((0x30u8, der(alg_rsa()) + der((0x03u8, seq![0u8] + pk)))) }
    pub open spec fn alg_ok(o: (u8, Seq<u8>)) -> bool { o.0 == 0x30 && match seq_read(o.1) { Some(l) => l.len() == 2 && l[0].0 == 0x06 && l[0].1 =~= oid_rsa() && l[1].0 == 0x05 && l[1].1.len() == 0, None => false } }
    pub open spec fn x509_read(s: Seq<u8>) -> Option<Seq<u8>> { match der_read(s) { None => None, Some((o, _)) =>
        if o.0 != 0x30 { None } else { match seq_read(o.1) { None => None, Some(l) =>
            if l.len() == 2 && alg_ok(l[0]) && l[1].0 == 0x03 { Some(if l[1].1.len() == 0 { l[1].1 } else { l[1].1.skip(1) }) } else { None } } } } }
    pub proof fn lemma_der_len(o: (u8, Seq<u8>)) requires o.1.len() <= u64::MAX ensures o.1.len() + 2 <= der(o).len() <= o.1.len() + 10 { lemma_be8(o.1.len()); }
    pub proof fn lemma_x509(k: Seq<u8>) requires k.len() <= isize::MAX ensures x509_read(x509(k)) == Some(k), x509(k).len() <= k.len() + 64
    {
        hide(seq_read); hide(len_read); hide(der_len);
        let a = (0x06u8, oid_rsa()); let n = (0x05u8, Seq::<u8>::empty()); let b = (0x03u8, seq![0u8] + k);
        lemma_der_len(a); lemma_der_len(n); lemma_der_len(b);
        lemma_seq2(a, n);
        lemma_der_len(alg_rsa());
        lemma_seq2(alg_rsa(), b);
        let o = (0x30u8, der(alg_rsa()) + der(b));
        lemma_der_len(o);
        lemma_der_read(o, Seq::empty());
        assert(der(o) + Seq::empty() =~= x509(k));
        assert(alg_ok(alg_rsa()));
        assert(b.1.skip(1) =~= k);
    }
    /// the secret inside a DER-encoded EC private key (RFC 5915): the second element, an OCTET STRING
    pub open spec fn ec_read(s: Seq<u8>) -> Option<Seq<u8>> { match der_read(s) { None => None, Some((o, _)) =>
        if o.0 != 0x30 { None } else { match seq_read(o.1) { None => None, Some(l) => if l.len() >= 2 && l[1].0 == 0x04 { Some(l[1].1) } else { None } } } } }

    #[derive(Clone, Copy)] pub struct DerTag { pub b: u8 }
    #[allow(non_upper_case_globals)] impl DerTag {
        pub const x00: DerTag = DerTag { b: 0x00 };
        pub const Boolean: DerTag = DerTag { b: 0x01 };
        pub const Integer: DerTag = DerTag { b: 0x02 };
        pub const x03: DerTag = DerTag { b: 0x03 };
        pub const OctetString: DerTag = DerTag { b: 0x04 };
        pub const Null: DerTag = DerTag { b: 0x05 };
        pub const x06: DerTag = DerTag { b: 0x06 };
        pub const x07: DerTag = DerTag { b: 0x07 };
        pub const x08: DerTag = DerTag { b: 0x08 };
        pub const x09: DerTag = DerTag { b: 0x09 };
        pub const x0a: DerTag = DerTag { b: 0x0a };
        pub const x0b: DerTag = DerTag { b: 0x0b };
        pub const Utf8String: DerTag = DerTag { b: 0x0c };
        pub const x0d: DerTag = DerTag { b: 0x0d };
        pub const x0e: DerTag = DerTag { b: 0x0e };
        pub const x0f: DerTag = DerTag { b: 0x0f };
        pub const x10: DerTag = DerTag { b: 0x10 };
        pub const x11: DerTag = DerTag { b: 0x11 };
        pub const x12: DerTag = DerTag { b: 0x12 };
        pub const x13: DerTag = DerTag { b: 0x13 };
        pub const x14: DerTag = DerTag { b: 0x14 };
        pub const x15: DerTag = DerTag { b: 0x15 };
        pub const x16: DerTag = DerTag { b: 0x16 };
        pub const x17: DerTag = DerTag { b: 0x17 };
        pub const x18: DerTag = DerTag { b: 0x18 };
        pub const x19: DerTag = DerTag { b: 0x19 };
        pub const x1a: DerTag = DerTag { b: 0x1a };
        pub const x1b: DerTag = DerTag { b: 0x1b };
        pub const x1c: DerTag = DerTag { b: 0x1c };
        pub const x1d: DerTag = DerTag { b: 0x1d };
        pub const x1e: DerTag = DerTag { b: 0x1e };
        pub const x1f: DerTag = DerTag { b: 0x1f };
        pub const x20: DerTag = DerTag { b: 0x20 };
        pub const x21: DerTag = DerTag { b: 0x21 };
        pub const x22: DerTag = DerTag { b: 0x22 };
        pub const x23: DerTag = DerTag { b: 0x23 };
        pub const x24: DerTag = DerTag { b: 0x24 };
        pub const x25: DerTag = DerTag { b: 0x25 };
        pub const x26: DerTag = DerTag { b: 0x26 };
        pub const x27: DerTag = DerTag { b: 0x27 };
        pub const x28: DerTag = DerTag { b: 0x28 };
        pub const x29: DerTag = DerTag { b: 0x29 };
        pub const x2a: DerTag = DerTag { b: 0x2a };
        pub const x2b: DerTag = DerTag { b: 0x2b };
        pub const x2c: DerTag = DerTag { b: 0x2c };
        pub const x2d: DerTag = DerTag { b: 0x2d };
        pub const x2e: DerTag = DerTag { b: 0x2e };
        pub const x2f: DerTag = DerTag { b: 0x2f };
        pub const Sequence: DerTag = DerTag { b: 0x30 };
        pub const x31: DerTag = DerTag { b: 0x31 };
        pub const x32: DerTag = DerTag { b: 0x32 };
        pub const x33: DerTag = DerTag { b: 0x33 };
        pub const x34: DerTag = DerTag { b: 0x34 };
        pub const x35: DerTag = DerTag { b: 0x35 };
        pub const x36: DerTag = DerTag { b: 0x36 };
        pub const x37: DerTag = DerTag { b: 0x37 };
        pub const x38: DerTag = DerTag { b: 0x38 };
        pub const x39: DerTag = DerTag { b: 0x39 };
        pub const x3a: DerTag = DerTag { b: 0x3a };
        pub const x3b: DerTag = DerTag { b: 0x3b };
        pub const x3c: DerTag = DerTag { b: 0x3c };
        pub const x3d: DerTag = DerTag { b: 0x3d };
        pub const x3e: DerTag = DerTag { b: 0x3e };
        pub const x3f: DerTag = DerTag { b: 0x3f };
    }
    impl PartialEq for DerTag { fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { self.b == o.b } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for DerTag { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    pub struct DerValue { pub data: Vec<u8> }
    impl Clone for DerValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.data@ == self.data@ { unimplemented!() } }
    impl PartialEq for DerValue { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (self.data@ == o.data@) { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for DerValue { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.data@ == o.data@ } }
    impl VxInto<DerValue> for Vec<u8> { open spec fn into_req(self) -> bool { true } open spec fn into_rel(self, r: DerValue) -> bool { r.data@ == self@ } fn vx_into(self) -> (r: DerValue) { DerValue { data: self } } }
    impl VxInto<Vec<u8>> for DerValue { open spec fn into_req(self) -> bool { true } open spec fn into_rel(self, r: Vec<u8>) -> bool { r@ == self.data@ } fn vx_into(self) -> (r: Vec<u8>) { self.data } }
    pub struct DerObject { pub tag: DerTag, pub value: DerValue }
    impl Clone for DerObject { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.v() == self.v() { unimplemented!() } }
    impl PartialEq for DerObject { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (self.v() == o.v()) { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for DerObject { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.v() == o.v() } }
    impl DerObject {
        pub open spec fn v(self) -> (u8, Seq<u8>) { (self.tag.b, self.value.data@) }
        pub fn new(tag: DerTag, value: DerValue) -> (r: Self) ensures r.tag == tag, r.value == value { DerObject { tag, value } }
        #[verifier::external_body] pub fn compute_serialized_len(n: usize) -> (r: usize) requires n <= usize::MAX - 16 ensures r == 1 + der_len(n as nat).len() + n { unimplemented!() }
        #[verifier::external_body] pub fn serialized_len(&self) -> (r: usize) ensures r == der(self.v()).len() { unimplemented!() }
    }
    pub enum Asn1DerError { LengthMismatch, InvalidTag, InvalidEncoding, Unsupported }
    pub open spec fn derefs(s: Seq<&u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| *s[i]) }
    pub broadcast proof fn lemma_derefs(s: Seq<u8>) ensures #![trigger refs(s)] derefs(refs(s)) =~= s { }
    pub trait IntoDerObject: Sized {
        spec fn dv(self) -> (u8, Seq<u8>);
        fn into_der_object(self) -> (r: DerObject) ensures r.v().0 == self.dv().0, r.v().1 =~= self.dv().1;
        fn serialized_len(&self) -> (r: usize) ensures r == der(self.dv()).len();
        #[verifier::external_body] fn serialize(self, buf: &mut Vec<u8>) -> (r: Result<usize, Asn1DerError>)
            ensures r is Ok <==> old(buf)@.len() >= der(self.dv()).len(), final(buf)@.len() == old(buf)@.len(),
                r is Ok ==> final(buf)@ =~= der(self.dv()) + old(buf)@.skip(der(self.dv()).len() as int), r is Ok ==> r->Ok_0 == der(self.dv()).len() { unimplemented!() }
    }
    pub trait FromDerObject: Sized {
        spec fn der_ok(o: (u8, Seq<u8>)) -> bool;
        spec fn der_is(o: (u8, Seq<u8>), s: Self) -> bool;
        fn from_der_object(o: DerObject) -> (r: Result<Self, Asn1DerError>) ensures r is Ok <==> Self::der_ok(o.v()), r is Ok ==> Self::der_is(o.v(), r->Ok_0);
        #[verifier::external_body] fn deserialize(source: Vec<&u8>) -> (r: Result<Self, Asn1DerError>)
            ensures match der_read(derefs(source@)) { None => r is Err, Some((o, _)) => (r is Ok <==> Self::der_ok(o)) && (r is Ok ==> Self::der_is(o, r->Ok_0)) } { unimplemented!() }
    }
    impl FromDerObject for DerObject { open spec fn der_ok(o: (u8, Seq<u8>)) -> bool { true } open spec fn der_is(o: (u8, Seq<u8>), s: Self) -> bool { s.v() == o } fn from_der_object(o: DerObject) -> (r: Result<Self, Asn1DerError>) { Ok(o) } }
    impl FromDerObject for () { open spec fn der_ok(o: (u8, Seq<u8>)) -> bool { o.0 == 0x05 && o.1.len() == 0 } open spec fn der_is(o: (u8, Seq<u8>), s: Self) -> bool { true } #[verifier::external_body] fn from_der_object(o: DerObject) -> (r: Result<Self, Asn1DerError>) { unimplemented!() } }
    impl FromDerObject for Vec<u8> { open spec fn der_ok(o: (u8, Seq<u8>)) -> bool { o.0 == 0x04 } open spec fn der_is(o: (u8, Seq<u8>), s: Self) -> bool { s@ == o.1 } #[verifier::external_body] fn from_der_object(o: DerObject) -> (r: Result<Self, Asn1DerError>) { unimplemented!() } }
    impl FromDerObject for Vec<DerObject> { open spec fn der_ok(o: (u8, Seq<u8>)) -> bool { o.0 == 0x30 && seq_read(o.1) is Some }
        open spec fn der_is(o: (u8, Seq<u8>), s: Self) -> bool { match seq_read(o.1) { Some(l) => l.len() == s@.len() && forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]).v() == l[i], None => false } }
        #[verifier::external_body] fn from_der_object(o: DerObject) -> (r: Result<Self, Asn1DerError>) { unimplemented!() } }
    impl IntoDerObject for () { open spec fn dv(self) -> (u8, Seq<u8>) { (0x05u8, Seq::empty()) } #[verifier::external_body] fn into_der_object(self) -> (r: DerObject) { unimplemented!() } #[verifier::external_body] fn serialized_len(&self) -> (r: usize) { unimplemented!() } }
    impl IntoDerObject for Vec<u8> { open spec fn dv(self) -> (u8, Seq<u8>) { (0x04u8, self@) } #[verifier::external_body] fn into_der_object(self) -> (r: DerObject) { unimplemented!() } #[verifier::external_body] fn serialized_len(&self) -> (r: usize) { unimplemented!() } }
} }

pub mod zeroize { use vstd::prelude::*; use crate::vx::*; verus! {
    pub trait Zeroize { fn zeroize(&mut self); }
    impl Zeroize for [u8] { #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() } }
    impl Zeroize for Vec<u8> { #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() } }
    impl Zeroize for VxBuf { #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() } }
} }

pub mod rand { use vstd::prelude::*; verus! {
    pub trait RngCore { }
    pub struct ThreadRng;
    impl ThreadRng { #[verifier::external_body] pub fn fill_bytes<const N: usize>(&mut self, b: &mut [u8; N]) { unimplemented!() } }
    pub fn thread_rng() -> ThreadRng { ThreadRng }
    pub mod rngs { use vstd::prelude::*; verus! { pub struct OsRng; } }
} }

pub mod ed25519_dalek { use vstd::prelude::*; use crate::vx::*; verus! {
    pub uninterp spec fn ed_pk_of(seed: Seq<u8>) -> Seq<u8>;
    /// the bytes are the compressed form of a curve point
    pub uninterp spec fn ed_pk_ok(b: Seq<u8>) -> bool;
    /// the scheme's verification algorithm accepts (key, message, signature)
    pub uninterp spec fn ed_sig_ok(pk: Seq<u8>, msg: Seq<u8>, sig: Seq<u8>) -> bool;
    pub uninterp spec fn ed_sign(seed: Seq<u8>, msg: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub proof fn axiom_ed(seed: Seq<u8>, msg: Seq<u8>) ensures ed_pk_of(seed).len() == 32, ed_pk_ok(ed_pk_of(seed)), ed_sig_ok(ed_pk_of(seed), msg, ed_sign(seed, msg)), ed_sign(seed, msg).len() == 64 { }
    #[verifier::external_body]
    pub broadcast proof fn axiom_vk_ext(a: VerifyingKey, b: VerifyingKey) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
    #[verifier::external_body]
    pub broadcast proof fn axiom_sk_ext(a: SigningKey, b: SigningKey) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
    /// values of the library's key types are well formed: they can only be made by its checked constructors
    #[verifier::external_body]
    pub broadcast proof fn axiom_vk(a: VerifyingKey) ensures #![trigger a@] a@.len() == 32, ed_pk_ok(a@) { }
    #[verifier::external_body]
    pub broadcast proof fn axiom_sk(a: SigningKey) ensures #![trigger a@] a@.len() == 32 { }
    pub trait Signer {}
    pub trait Verifier {}
    pub type SecretKey = [u8; 32];
    pub mod ed25519 { use vstd::prelude::*; use crate::vx::*; verus! { #[verifier::external_body] pub struct Error { x: u8 }
        impl VxToString for Error { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } } } }
    #[verifier::external_body] pub struct SigningKey { x: u8 }
    #[verifier::external_body] pub struct VerifyingKey { x: u8 }
    #[verifier::external_body] pub struct Signature { x: u8 }
    impl Clone for SigningKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for VerifyingKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Copy for VerifyingKey {}
    impl PartialEq for VerifyingKey { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for VerifyingKey { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl SigningKey {
        /// the 32 secret bytes
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn generate(rng: &mut crate::ext::rand::rngs::OsRng) -> (r: Self) ensures r@.len() == 32 { unimplemented!() }
        #[verifier::external_body] pub fn from_bytes(b: &[u8; 32]) -> (r: Self) ensures r@ == b@ { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn to_keypair_bytes(&self) -> (r: [u8; 64]) ensures r@ == self@ + ed_pk_of(self@), self@.len() == 32, ed_pk_of(self@).len() == 32 { unimplemented!() }
        #[verifier::external_body] pub fn from_keypair_bytes(b: &[u8; 64]) -> (r: Result<Self, ed25519::Error>)
            ensures r is Ok <==> b@.subrange(32, 64) == ed_pk_of(b@.subrange(0, 32)), r is Ok ==> r->Ok_0@ == b@.subrange(0, 32) { unimplemented!() }
        #[verifier::external_body] pub fn try_sign(&self, m: &[u8]) -> (r: Result<Signature, ed25519::Error>) ensures r is Ok, r->Ok_0@ == ed_sign(self@, m@), ed_sig_ok(ed_pk_of(self@), m@, r->Ok_0@), r->Ok_0@.len() == 64 { unimplemented!() }
        #[verifier::external_body] pub fn sign(&self, m: &[u8]) -> (r: Signature) ensures r@ == ed_sign(self@, m@), ed_sig_ok(ed_pk_of(self@), m@, r@), r@.len() == 64 { unimplemented!() }
        #[verifier::external_body] pub fn verifying_key(&self) -> (r: VerifyingKey) ensures r@ == ed_pk_of(self@), r@.len() == 32, ed_pk_ok(r@) { unimplemented!() }
    }
    impl VerifyingKey {
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn from_bytes(b: &[u8; 32]) -> (r: Result<Self, ed25519::Error>) ensures r is Ok <==> ed_pk_ok(b@), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self@, ed_pk_ok(r@) { unimplemented!() }
        #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self@, ed_pk_ok(r@) { unimplemented!() }
        #[verifier::external_body] pub fn verify(&self, m: &[u8], s: &Signature) -> (r: Result<(), ed25519::Error>) ensures r is Ok <==> ed_sig_ok(self@, m@, s@) { unimplemented!() }
    }
    impl Signature {
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn try_from(b: &[u8]) -> (r: Result<Self, ed25519::Error>)
            ensures r is Ok ==> r->Ok_0@ == b@, r is Err ==> forall|k: Seq<u8>, m: Seq<u8>| !#[trigger] ed_sig_ok(k, m, b@) { unimplemented!() }
        #[verifier::external_body] pub fn from_slice(b: &[u8]) -> (r: Result<Self, ed25519::Error>)
            ensures r is Ok ==> r->Ok_0@ == b@, r is Err ==> forall|k: Seq<u8>, m: Seq<u8>| !#[trigger] ed_sig_ok(k, m, b@) { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 64]) ensures r@ == self@ { unimplemented!() }
    }
} }

pub mod libsecp256k1 { use vstd::prelude::*; use crate::vx::*; verus! {
    pub uninterp spec fn secp_sk_ok(b: Seq<u8>) -> bool;
    pub uninterp spec fn secp_pk_ok(b: Seq<u8>) -> bool;
    pub uninterp spec fn secp_pk_of(sk: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn secp_der(s: int) -> Seq<u8>;
    pub uninterp spec fn secp_parse(b: Seq<u8>) -> Option<int>;
    pub uninterp spec fn secp_accepts(pk: Seq<u8>, hash: Seq<u8>, s: int) -> bool;
    /// ECDSA verification of a DER signature over a 32-byte digest
    pub open spec fn secp_sig_ok(pk: Seq<u8>, hash: Seq<u8>, sig: Seq<u8>) -> bool { secp_parse(sig) is Some && secp_accepts(pk, hash, secp_parse(sig)->0) }
    #[verifier::external_body] pub broadcast proof fn axiom_pk_ext(a: PublicKey, b: PublicKey) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
    #[verifier::external_body] pub broadcast proof fn axiom_sk_ext(a: SecretKey, b: SecretKey) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
    #[verifier::external_body] pub broadcast proof fn axiom_sig_ext(a: Signature, b: Signature) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
    #[verifier::external_body] pub broadcast proof fn axiom_pk(a: PublicKey) ensures #![trigger a@] a@.len() == 33, secp_pk_ok(a@) { }
    #[verifier::external_body] pub broadcast proof fn axiom_sk(a: SecretKey) ensures #![trigger a@] a@.len() == 32, secp_sk_ok(a@) { }
    pub mod util { pub const SECRET_KEY_SIZE: usize = 32; pub const MESSAGE_SIZE: usize = 32; pub const FULL_PUBLIC_KEY_SIZE: usize = 65; pub const COMPRESSED_PUBLIC_KEY_SIZE: usize = 33; }
    pub enum Error { InvalidSignature, InvalidPublicKey, InvalidSecretKey, InvalidRecoveryId, InvalidMessage, InvalidInputLength, TweakOutOfRange, InvalidAffine }
    impl VxToString for Error { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
    pub enum PublicKeyFormat { Compressed, Full, Raw }
    #[verifier::external_body] pub struct SecretKey { x: u8 }
    #[verifier::external_body] pub struct PublicKey { x: u8 }
    #[verifier::external_body] pub struct Message { x: u8 }
    #[verifier::external_body] pub struct Signature { x: u8 }
    #[verifier::external_body] pub struct SignatureArray { x: u8 }
    #[verifier::external_body] pub struct RecoveryId { x: u8 }
    impl Clone for SecretKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for PublicKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl PartialEq for PublicKey { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for PublicKey { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl SecretKey {
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn parse(b: &[u8; 32]) -> (r: Result<Self, Error>) ensures r is Ok <==> secp_sk_ok(b@), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
        #[verifier::external_body] pub fn parse_slice(b: &[u8]) -> (r: Result<Self, Error>) ensures r is Ok <==> b@.len() == 32 && secp_sk_ok(b@), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
        #[verifier::external_body] pub fn serialize(&self) -> (r: [u8; 32]) ensures r@ == self@, secp_sk_ok(r@) { unimplemented!() }
    }
    impl PublicKey {
        /// the 33-byte compressed form
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn from_secret_key(s: &SecretKey) -> (r: Self) ensures r@ == secp_pk_of(s@), r@.len() == 33, secp_pk_ok(r@) { unimplemented!() }
        #[verifier::external_body] pub fn serialize_compressed(&self) -> (r: [u8; 33]) ensures r@ == self@, secp_pk_ok(r@) { unimplemented!() }
        #[verifier::external_body] pub fn serialize(&self) -> (r: [u8; 65]) { unimplemented!() }
        /// only the compressed format is characterised completely
        #[verifier::external_body] pub fn parse_slice(b: &[u8], f: Option<PublicKeyFormat>) -> (r: Result<Self, Error>)
            ensures f == Some(PublicKeyFormat::Compressed) ==> (r is Ok <==> b@.len() == 33 && secp_pk_ok(b@)), r is Ok && b@.len() == 33 ==> r->Ok_0@ == b@ { unimplemented!() }
    }
    impl Message {
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn parse_slice(b: &[u8]) -> (r: Result<Self, Error>) ensures r is Ok <==> b@.len() == 32, r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
    }
    impl Signature {
        pub uninterp spec fn view(&self) -> int;
        #[verifier::external_body] pub fn parse_der(b: &[u8]) -> (r: Result<Self, Error>) ensures r is Ok <==> secp_parse(b@) is Some, r is Ok ==> Some(r->Ok_0@) == secp_parse(b@) { unimplemented!() }
        #[verifier::external_body] pub fn parse_der_lax(b: &[u8]) -> (r: Result<Self, Error>) { unimplemented!() }
        #[verifier::external_body] pub fn serialize_der(&self) -> (r: SignatureArray) ensures r@ == secp_der(self@), secp_parse(r@) == Some(self@) { unimplemented!() }
    }
    impl SignatureArray { pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
    #[verifier::external_body] pub fn sign(m: &Message, k: &SecretKey) -> (r: (Signature, RecoveryId)) ensures secp_accepts(secp_pk_of(k@), m@, r.0@) { unimplemented!() }
    #[verifier::external_body] pub fn verify(m: &Message, s: &Signature, k: &PublicKey) -> (r: bool) ensures r == secp_accepts(k@, m@, s@) { unimplemented!() }
} }

pub mod ring { use vstd::prelude::*; verus! {
    pub mod error { use vstd::prelude::*; use crate::vx::*; verus! { pub struct Unspecified;
        #[verifier::external_body] pub struct KeyRejected { x: u8 }
        impl VxToString for Unspecified { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } } } }
    pub mod rand { use vstd::prelude::*; verus! { pub struct SystemRandom; impl SystemRandom { pub fn new() -> SystemRandom { SystemRandom } } } }
    pub mod signature { use vstd::prelude::*; use crate::vx::*; verus! {
        /// verification of PKCS#1 v1.5 / PSS under the named parameter set
        pub uninterp spec fn rsa_sig_ok(alg: int, pk: Seq<u8>, msg: Seq<u8>, sig: Seq<u8>) -> bool;
        /// the public key of the RSA pair in a PKCS#8 document, if it is an acceptable one
        pub uninterp spec fn pkcs8_pub(b: Seq<u8>) -> Option<Seq<u8>>;
        pub struct RsaParameters { pub id: u8 }
        pub struct RsaEncoding { pub id: u8 }
        pub exec const RSA_PKCS1_2048_8192_SHA256: RsaParameters ensures RSA_PKCS1_2048_8192_SHA256.id == 1 { RsaParameters { id: 1 } }
        pub exec const RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY: RsaParameters ensures RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY.id == 2 { RsaParameters { id: 2 } }
        pub exec const RSA_PKCS1_2048_8192_SHA512: RsaParameters ensures RSA_PKCS1_2048_8192_SHA512.id == 3 { RsaParameters { id: 3 } }
        pub exec const RSA_PKCS1_2048_8192_SHA384: RsaParameters ensures RSA_PKCS1_2048_8192_SHA384.id == 4 { RsaParameters { id: 4 } }
        pub exec const RSA_PKCS1_2048_8192_SHA1_FOR_LEGACY_USE_ONLY: RsaParameters ensures RSA_PKCS1_2048_8192_SHA1_FOR_LEGACY_USE_ONLY.id == 5 { RsaParameters { id: 5 } }
        pub exec const RSA_PSS_2048_8192_SHA256: RsaParameters ensures RSA_PSS_2048_8192_SHA256.id == 6 { RsaParameters { id: 6 } }
        pub exec const RSA_PKCS1_SHA256: RsaEncoding ensures RSA_PKCS1_SHA256.id == 1 { RsaEncoding { id: 1 } }
        pub exec const RSA_PKCS1_SHA384: RsaEncoding ensures RSA_PKCS1_SHA384.id == 4 { RsaEncoding { id: 4 } }
        pub exec const RSA_PKCS1_SHA512: RsaEncoding ensures RSA_PKCS1_SHA512.id == 3 { RsaEncoding { id: 3 } }
        pub exec const RSA_PSS_SHA256: RsaEncoding ensures RSA_PSS_SHA256.id == 6 { RsaEncoding { id: 6 } }
        #[verifier::external_body] pub struct RsaKeyPair { x: u8 }
        #[verifier::external_body] pub struct RsaSubjectPublicKey { x: u8 }
        impl RsaSubjectPublicKey { pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
        impl RsaKeyPair {
            pub uninterp spec fn pubkey(&self) -> Seq<u8>;
            pub uninterp spec fn modlen(&self) -> nat;
            #[verifier::external_body] pub fn from_pkcs8(b: &[u8]) -> (r: Result<Self, crate::ext::ring::error::KeyRejected>) ensures r is Ok <==> pkcs8_pub(b@) is Some, r is Ok ==> Some(r->Ok_0.pubkey()) == pkcs8_pub(b@) { unimplemented!() }
        }
        impl Arc<RsaKeyPair> {
            #[verifier::external_body] pub fn public_key(&self) -> (r: &RsaSubjectPublicKey) ensures r@ == self@.pubkey() { unimplemented!() }
            #[verifier::external_body] pub fn public_modulus_len(&self) -> (r: usize) ensures r == self@.modlen() { unimplemented!() }
            #[verifier::external_body] pub fn sign(&self, alg: &RsaEncoding, rng: &crate::ext::ring::rand::SystemRandom, m: &[u8], out: &mut Vec<u8>) -> (r: Result<(), crate::ext::ring::error::Unspecified>)
                ensures r is Ok <==> old(out)@.len() == self@.modlen(), r is Ok ==> rsa_sig_ok(alg.id as int, self@.pubkey(), m@, final(out)@), final(out)@.len() == old(out)@.len() { unimplemented!() }
        }
        #[verifier::external_body] #[verifier::reject_recursive_types(B)] pub struct UnparsedPublicKey<B> { x: B }
        impl<B: VxBytes> UnparsedPublicKey<B> {
            pub uninterp spec fn alg(&self) -> int; pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body] pub fn new(a: &RsaParameters, b: B) -> (r: Self) ensures r.alg() == a.id, r@ == b.vb() { unimplemented!() }
            #[verifier::external_body] pub fn verify(&self, m: &[u8], s: &[u8]) -> (r: Result<(), crate::ext::ring::error::Unspecified>) ensures r is Ok <==> rsa_sig_ok(self.alg(), self@, m@, s@) { unimplemented!() }
        }
    } }
} }

pub mod eyre { use vstd::prelude::*; use crate::vx::*; verus! {
    #[verifier::external_body] pub struct Report { x: u8 }
    pub type Result<T> = core::result::Result<T, Report>;
    pub trait VxStdErr {}
    impl<E: VxStdErr> From<E> for Report { #[verifier::external_body] fn from(e: E) -> (r: Report) { unimplemented!() } }
    impl<E: VxStdErr> vstd::std_specs::convert::FromSpecImpl<E> for Report { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: E) -> Self { arbitrary() } }
    #[verifier::external_body] pub fn vx_eyre() -> (r: Report) { unimplemented!() }
    impl VxStdErr for crate::fluence_keypair::error::DecodingError {}
    impl VxStdErr for crate::ext::libp2p_identity::DecodingError {}
    impl VxStdErr for crate::ext::libp2p_identity::OtherVariantError {}
} }

pub mod multihash { use vstd::prelude::*; verus! {
    pub enum Code { Identity, Sha2_256, Other }
    pub open spec fn code_of(c: u64) -> Option<Code> { if c == 0 { Some(Code::Identity) } else if c == 0x12 { Some(Code::Sha2_256) } else { other_code(c) } }
    pub uninterp spec fn other_code(c: u64) -> Option<Code>;
    #[verifier::external_body] pub struct Error { x: u8 }
    impl Code { #[verifier::external_body] pub fn try_from(c: u64) -> (r: Result<Code, Error>) ensures c == 0 <==> (r is Ok && r->Ok_0 is Identity), r is Ok && c == 0x12 ==> r->Ok_0 is Sha2_256 { unimplemented!() } }
} }

pub mod libp2p_identity { use vstd::prelude::*; use crate::vx::*; use crate::ext::ed25519_dalek::*; use crate::ext::libsecp256k1::{secp_pk_ok, secp_sk_ok, secp_pk_of}; verus! {
    /// abstract value of a libp2p public key: its kind and raw bytes
    pub enum LKey { Ed(Seq<u8>), Rsa(Seq<u8>), Secp(Seq<u8>) }
    pub enum LPair { Ed(Seq<u8>), Rsa(rsa::Keypair), Secp(Seq<u8>) }
    pub uninterp spec fn pb_enc(k: LKey) -> Seq<u8>;
    pub uninterp spec fn pb_dec(b: Seq<u8>) -> Option<LKey>;
    pub open spec fn lkey_ok(k: LKey) -> bool { match k { LKey::Ed(b) => b.len() == 32 && ed_pk_ok(b), LKey::Rsa(_) => true, LKey::Secp(b) => b.len() == 33 && secp_pk_ok(b) } }
    #[verifier::external_body] pub proof fn axiom_pb(k: LKey) ensures pb_dec(pb_enc(k)) == Some(k), !(k is Rsa) ==> pb_enc(k).len() <= 42 { }
    pub uninterp spec fn sha_hash(b: Seq<u8>) -> Seq<u8>;
    /// abstract value of a peer id: multihash code and digest
    pub open spec fn peer_of(k: LKey) -> (u64, Seq<u8>) { if pb_enc(k).len() <= 42 { (0u64, pb_enc(k)) } else { (0x12u64, sha_hash(pb_enc(k))) } }
    pub uninterp spec fn peer_b58(p: (u64, Seq<u8>)) -> Seq<char>;
    pub uninterp spec fn peer_parse(s: Seq<char>) -> Option<(u64, Seq<u8>)>;
    #[verifier::external_body] pub proof fn axiom_peer_text_key(k: LKey) ensures peer_parse(peer_b58(peer_of(k))) == Some(peer_of(k)) { }
    #[verifier::external_body] pub proof fn axiom_peer_text(p: PeerId) ensures peer_parse(peer_b58(p@)) == Some(p@), peer_b58(p@).len() > 0 { }
    #[verifier::external_body] pub broadcast proof fn axiom_pk_ext(a: PublicKey, b: PublicKey) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
    #[verifier::external_body] pub broadcast proof fn axiom_peer_ext(a: PeerId, b: PeerId) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
    #[verifier::external_body] pub broadcast proof fn axiom_mhash(a: Multihash, b: Multihash) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
    pub enum KeyType { Ed25519, RSA, Secp256k1, Ecdsa }
    #[verifier::external_body] pub struct PublicKey { x: u8 }
    #[verifier::external_body] pub struct Keypair { x: u8 }
    #[verifier::external_body] pub struct PeerId { x: u8 }
    #[verifier::external_body] pub struct Multihash { x: u8 }
    #[verifier::external_body] pub struct DecodingError { x: u8 }
    #[verifier::external_body] pub struct OtherVariantError { x: u8 }
    #[verifier::external_body] pub struct ParseError { x: u8 }
    impl VxToString for ParseError { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
    impl VxToString for DecodingError { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
    impl Clone for PublicKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for PeerId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Copy for PeerId {}
    impl PartialEq for PeerId { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for PeerId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    /// the crate is built without the `ecdsa` feature, so no key of that type exists
    pub open spec fn ktype(k: LKey) -> KeyType { match k { LKey::Ed(_) => KeyType::Ed25519, LKey::Rsa(_) => KeyType::RSA, LKey::Secp(_) => KeyType::Secp256k1 } }
    impl PublicKey {
        pub uninterp spec fn view(&self) -> LKey;
        #[verifier::external_body] pub fn key_type(&self) -> (r: KeyType) ensures r == ktype(self@), lkey_ok(self@) { unimplemented!() }
        #[verifier::external_body] pub fn try_into_ed25519(self) -> (r: Result<ed25519::PublicKey, OtherVariantError>) ensures r is Ok <==> self@ is Ed, r is Ok ==> LKey::Ed(r->Ok_0@) == self@, lkey_ok(self@) { unimplemented!() }
        #[verifier::external_body] pub fn try_into_secp256k1(self) -> (r: Result<secp256k1::PublicKey, OtherVariantError>) ensures r is Ok <==> self@ is Secp, r is Ok ==> LKey::Secp(r->Ok_0@) == self@, lkey_ok(self@) { unimplemented!() }
        #[verifier::external_body] pub fn try_into_rsa(self) -> (r: Result<rsa::PublicKey, OtherVariantError>) ensures r is Ok <==> self@ is Rsa, r is Ok ==> LKey::Rsa(r->Ok_0@) == self@ { unimplemented!() }
        #[verifier::external_body] pub fn try_decode_protobuf(b: &[u8]) -> (r: Result<Self, DecodingError>) ensures r is Ok ==> pb_dec(b@) == Some(r->Ok_0@), (pb_dec(b@) is Some && lkey_ok(pb_dec(b@)->0)) ==> r is Ok { unimplemented!() }
        #[verifier::external_body] pub fn encode_protobuf(&self) -> (r: Vec<u8>) ensures r@ == pb_enc(self@) { unimplemented!() }
        #[verifier::external_body] pub fn to_peer_id(&self) -> (r: PeerId) ensures r@ == peer_of(self@) { unimplemented!() }
    }
    impl From<ed25519::PublicKey> for PublicKey { #[verifier::external_body] fn from(k: ed25519::PublicKey) -> (r: Self) ensures r@ == LKey::Ed(k@) { unimplemented!() } }
    impl From<secp256k1::PublicKey> for PublicKey { #[verifier::external_body] fn from(k: secp256k1::PublicKey) -> (r: Self) ensures r@ == LKey::Secp(k@) { unimplemented!() } }
    impl From<rsa::PublicKey> for PublicKey { #[verifier::external_body] fn from(k: rsa::PublicKey) -> (r: Self) ensures r@ == LKey::Rsa(k@) { unimplemented!() } }
    impl vstd::std_specs::convert::FromSpecImpl<ed25519::PublicKey> for PublicKey { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ed25519::PublicKey) -> Self { arbitrary() } }
    impl vstd::std_specs::convert::FromSpecImpl<secp256k1::PublicKey> for PublicKey { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: secp256k1::PublicKey) -> Self { arbitrary() } }
    impl vstd::std_specs::convert::FromSpecImpl<rsa::PublicKey> for PublicKey { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: rsa::PublicKey) -> Self { arbitrary() } }
    /// ed25519 pairs are the pairs derived from their secret (libp2p does not check this when it decodes a pair)
    impl Keypair {
        pub uninterp spec fn view(&self) -> LPair;
        #[verifier::external_body] pub fn key_type(&self) -> (r: KeyType) ensures r == (match self@ { LPair::Ed(_) => KeyType::Ed25519, LPair::Rsa(_) => KeyType::RSA, LPair::Secp(_) => KeyType::Secp256k1 }) { unimplemented!() }
        #[verifier::external_body] pub fn try_into_ed25519(self) -> (r: Result<ed25519::Keypair, OtherVariantError>) ensures r is Ok <==> self@ is Ed, r is Ok ==> LPair::Ed(r->Ok_0@) == self@ { unimplemented!() }
        #[verifier::external_body] pub fn try_into_secp256k1(self) -> (r: Result<secp256k1::Keypair, OtherVariantError>) ensures r is Ok <==> self@ is Secp, r is Ok ==> LPair::Secp(r->Ok_0@) == self@ { unimplemented!() }
        #[verifier::external_body] pub fn try_into_rsa(self) -> (r: Result<rsa::Keypair, OtherVariantError>) ensures r is Ok <==> self@ is Rsa, r is Ok ==> LPair::Rsa(r->Ok_0) == self@ { unimplemented!() }
        #[verifier::external_body] pub fn ed25519_from_bytes<B: VxBytesMut>(b: B) -> (r: Result<Self, DecodingError>) ensures r is Ok <==> b.mb().len() == 32, r is Ok ==> r->Ok_0@ == LPair::Ed(b.mb()) { unimplemented!() }
    }
    impl From<secp256k1::Keypair> for Keypair { #[verifier::external_body] fn from(k: secp256k1::Keypair) -> (r: Self) ensures r@ == LPair::Secp(k@) { unimplemented!() } }
    impl From<ed25519::Keypair> for Keypair { #[verifier::external_body] fn from(k: ed25519::Keypair) -> (r: Self) ensures r@ == LPair::Ed(k@) { unimplemented!() } }
    impl From<rsa::Keypair> for Keypair { #[verifier::external_body] fn from(k: rsa::Keypair) -> (r: Self) ensures r@ == LPair::Rsa(k) { unimplemented!() } }
    impl vstd::std_specs::convert::FromSpecImpl<secp256k1::Keypair> for Keypair { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: secp256k1::Keypair) -> Self { arbitrary() } }
    impl vstd::std_specs::convert::FromSpecImpl<ed25519::Keypair> for Keypair { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: ed25519::Keypair) -> Self { arbitrary() } }
    impl vstd::std_specs::convert::FromSpecImpl<rsa::Keypair> for Keypair { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: rsa::Keypair) -> Self { arbitrary() } }
    impl PeerId {
        pub uninterp spec fn view(&self) -> (u64, Seq<u8>);
        #[verifier::external_body] pub fn from_public_key(k: &PublicKey) -> (r: Self) ensures r@ == peer_of(k@) { unimplemented!() }
        #[verifier::external_body] pub fn to_base58(&self) -> (r: String) ensures r@ == peer_b58(self@), r@.len() > 0 { unimplemented!() }
        #[verifier::external_body] pub fn as_ref(&self) -> (r: &Multihash) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn from_str(s: &str) -> (r: Result<Self, ParseError>) ensures r is Ok <==> peer_parse(s@) is Some, r is Ok ==> Some(r->Ok_0@) == peer_parse(s@) { unimplemented!() }
    }
    impl VxToString for PeerId { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s == peer_b58(self@) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
    impl VxFromStr for PeerId { type Err = ParseError;
        open spec fn fs_rel(s: Seq<char>, r: Result<PeerId, ParseError>) -> bool { (r is Ok <==> peer_parse(s) is Some) && (r is Ok ==> Some(r->Ok_0@) == peer_parse(s)) }
        fn vx_from_str(s: &str) -> (r: Result<PeerId, ParseError>) { PeerId::from_str(s) } }
    impl Multihash {
        pub uninterp spec fn view(&self) -> (u64, Seq<u8>);
        #[verifier::external_body] pub fn code(&self) -> (r: u64) ensures r == self@.0 { unimplemented!() }
        #[verifier::external_body] pub fn digest(&self) -> (r: &[u8]) ensures r@ == self@.1 { unimplemented!() }
    }
    pub mod ed25519 { use vstd::prelude::*; use crate::vx::*; use crate::ext::ed25519_dalek::*; verus! {
        #[verifier::external_body] pub struct PublicKey { x: u8 }
        #[verifier::external_body] pub struct Keypair { x: u8 }
        #[verifier::external_body] pub broadcast proof fn axiom_pk_ext(a: PublicKey, b: PublicKey) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
        impl PublicKey { pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self@ { unimplemented!() }
            #[verifier::external_body] pub fn try_from_bytes(b: &[u8]) -> (r: Result<Self, super::DecodingError>) ensures r is Ok <==> b@.len() == 32 && ed_pk_ok(b@), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() } }
        /// view: the 32 secret bytes
        impl Keypair { pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 64]) ensures r@ == self@ + ed_pk_of(self@), self@.len() == 32, r@.subrange(0, 32) == self@, r@.subrange(32, 64) == ed_pk_of(self@) { unimplemented!() } }
    } }
    pub mod secp256k1 { use vstd::prelude::*; use crate::vx::*; use crate::ext::libsecp256k1::{secp_pk_ok, secp_sk_ok, secp_pk_of}; verus! {
        #[verifier::external_body] pub struct PublicKey { x: u8 }
        #[verifier::external_body] pub struct SecretKey { x: u8 }
        #[verifier::external_body] pub struct Keypair { x: u8 }
        impl PublicKey { pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 33]) ensures r@ == self@ { unimplemented!() }
            #[verifier::external_body] pub fn try_from_bytes(b: &[u8]) -> (r: Result<Self, super::DecodingError>) ensures r is Ok <==> b@.len() == 33 && secp_pk_ok(b@), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() } }
        impl SecretKey { pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self@, secp_sk_ok(r@) { unimplemented!() }
            #[verifier::external_body] pub fn try_from_bytes<B: VxBytesMut>(b: B) -> (r: Result<Self, super::DecodingError>) ensures r is Ok <==> b.mb().len() == 32 && secp_sk_ok(b.mb()), r is Ok ==> r->Ok_0@ == b.mb() { unimplemented!() } }
        impl Keypair { pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body] pub fn secret(&self) -> (r: &SecretKey) ensures r@ == self@ { unimplemented!() }
            #[verifier::external_body] pub fn public(&self) -> (r: &PublicKey) ensures r@ == secp_pk_of(self@) { unimplemented!() } }
        impl From<SecretKey> for Keypair { #[verifier::external_body] fn from(k: SecretKey) -> (r: Self) ensures r@ == k@ { unimplemented!() } }
        impl vstd::std_specs::convert::FromSpecImpl<SecretKey> for Keypair { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: SecretKey) -> Self { arbitrary() } }
    } }
    pub mod rsa { use vstd::prelude::*; use crate::vx::*; verus! {
        #[verifier::external_body] pub struct PublicKey { x: u8 }
        #[verifier::external_body] pub struct Keypair { x: u8 }
        use crate::ext::asn1_der::x509;
        impl PublicKey { pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body] pub fn encode_pkcs1(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
            #[verifier::external_body] pub fn encode_x509(&self) -> (r: Vec<u8>) ensures r@ == x509(self@) { unimplemented!() }
            #[verifier::external_body] pub fn try_decode_x509(b: &[u8]) -> (r: Result<Self, super::DecodingError>) ensures forall|k: Seq<u8>| b@ == #[trigger] x509(k) ==> r is Ok && r->Ok_0@ == k { unimplemented!() } }
    } }
} }

pub mod nonempty { use vstd::prelude::*; use crate::vx::*; verus! {
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct NonEmpty<T> { t: Vec<T> }
    #[verifier::external_body] pub broadcast proof fn axiom_ne_ext<T>(a: NonEmpty<T>, b: NonEmpty<T>) ensures #![trigger a@, b@] a@ =~= b@ ==> a == b { }
    #[verifier::external_body] pub broadcast proof fn axiom_ne_len<T>(a: NonEmpty<T>) ensures #![trigger a@] a@.len() > 0 { }
    impl<T> NonEmpty<T> {
        pub uninterp spec fn view(&self) -> Seq<T>;
        #[verifier::external_body] pub fn new(t: T) -> (r: Self) ensures r@ == seq![t] { unimplemented!() }
        #[verifier::external_body] pub fn last(&self) -> (r: &T) ensures *r == self@.last() { unimplemented!() }
        #[verifier::external_body] pub fn first(&self) -> (r: &T) ensures *r == self@[0] { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body] pub fn push(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
        #[verifier::external_body] pub fn from_vec(v: Vec<T>) -> (r: Option<Self>) ensures r is Some <==> v@.len() > 0, r is Some ==> r->0@ == v@ { unimplemented!() }
    }
    impl<T> Clone for NonEmpty<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl<T> VxInto<Vec<T>> for NonEmpty<T> { open spec fn into_req(self) -> bool { true } open spec fn into_rel(self, r: Vec<T>) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: Vec<T>) { unimplemented!() } }
    impl<T> VxIter for NonEmpty<T> { type T = T; open spec fn iseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: Vec<&'a T>) { unimplemented!() } }
    impl<T> VxIntoIter for NonEmpty<T> { type Item = T; open spec fn vseq(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: Vec<T>) { unimplemented!() } }
} }

pub mod rmp_serde { use vstd::prelude::*; verus! {
    pub mod encode { use vstd::prelude::*; use crate::vx::*; verus! { #[verifier::external_body] pub struct Error { x: u8 }
        impl VxToString for Error { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } } } }
    pub mod decode { use vstd::prelude::*; use crate::vx::*; verus! { #[verifier::external_body] pub struct Error { x: u8 }
        impl VxToString for Error { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } } } }
} }

pub mod marine_rs_sdk { use vstd::prelude::*; use crate::vx::*; verus! {
    pub struct SecurityTetraplet { pub peer_pk: String, pub service_id: String, pub function_name: String, pub json_path: String }
    pub struct CallParameters { pub init_peer_id: String, pub service_creator_peer_id: String, pub service_id: String, pub host_id: String, pub particle_id: String, pub tetraplets: Vec<Vec<SecurityTetraplet>> }
    /// the parameters of the current call: fixed during one call, supplied by the host
    pub uninterp spec fn call_params() -> CallParameters;
    #[verifier::external_body] pub fn get_call_parameters() -> (r: CallParameters) ensures r == call_params() { unimplemented!() }
} }

/// SQLite: the effect of a statement is determined by its text (parsed by the extractor into the
/// functions of `crate::sqlgen`), its bound values and the tables; statements are atomic
pub mod marine_sqlite_connector { use vstd::prelude::*; use crate::vx::*; use crate::sqlgen::*; verus! {
    pub enum V { I(i64), F(int), S(Seq<char>), B(Seq<u8>), N }
    pub enum Value { Binary(Vec<u8>), Float(f64), Integer(i64), String(String), Null }
    pub uninterp spec fn fl(f: f64) -> int;
    pub open spec fn val(v: Value) -> V { match v { Value::Binary(b) => V::B(b@), Value::Float(f) => V::F(fl(f)), Value::Integer(i) => V::I(i), Value::String(s) => V::S(s@), Value::Null => V::N } }
    pub open spec fn vals(s: Seq<Value>) -> Seq<V> { Seq::new(s.len(), |i: int| val(s[i])) }
    /// SQL comparison is true (never for NULL); values of different storage classes are not equal
    pub open spec fn v_eq(a: V, b: V) -> bool { a == b && !(a is N) }
    pub open spec fn v_le(a: V, b: V) -> bool { match (a, b) { (V::I(x), V::I(y)) => x <= y, _ => false } }
    pub open spec fn v_lt(a: V, b: V) -> bool { match (a, b) { (V::I(x), V::I(y)) => x < y, _ => false } }
    pub type Row = Seq<V>;
    pub struct Db { pub t0: Set<Row>, pub t1: Set<Row> }
    pub open spec fn table(d: Db, t: int) -> Set<Row> { if t == 0 { d.t0 } else { d.t1 } }
    pub open spec fn with_table(d: Db, t: int, s: Set<Row>) -> Db { if t == 0 { Db { t0: s, ..d } } else { Db { t1: s, ..d } } }
    pub open spec fn same_key(t: int, a: Row, b: Row) -> bool { forall|i: int| 0 <= i < schema_pk(t).len() ==> a[#[trigger] schema_pk(t)[i]] == b[schema_pk(t)[i]] }
    pub open spec fn ins_or_rep(t: int, s: Set<Row>, r: Row) -> Set<Row> { s.filter(|x: Row| !same_key(t, x, r)).insert(r) }
    pub open spec fn del(id: int, s: Set<Row>, p: Seq<V>) -> Set<Row> { s.filter(|x: Row| !sql_where(id, x, p)) }
    /// the tables after executing a data-changing statement
    pub open spec fn run(d: Db, id: int, p: Seq<V>) -> Db {
        if sql_kind(id) == 3 { with_table(d, sql_table(id), ins_or_rep(sql_table(id), table(d, sql_table(id)), sql_ins(id, p))) }
        else if sql_kind(id) == 4 { with_table(d, sql_table(id), del(id, table(d, sql_table(id)), p)) }
        else { d }
    }
    /// `src` enumerates the matching rows, each once, in some order
    pub open spec fn selects(d: Db, id: int, p: Seq<V>, src: Seq<Row>) -> bool {
        &&& src.no_duplicates()
        &&& forall|x: Row| #[trigger] src.contains(x) <==> table(d, sql_table(id)).contains(x) && sql_where(id, x, p)
    }
    #[verifier::external_body] pub struct Error { x: u8 }
    impl VxToString for Error { open spec fn vx_str_ok(&self, s: Seq<char>) -> bool { s.len() > 0 } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
    pub enum State { Row, Done }
    #[verifier::external_body] pub struct Connection { x: u8 }
    #[verifier::external_body] pub struct Statement { x: u8 }
    #[verifier::external_body] pub struct Cursor { x: u8 }
    impl Value {
        #[verifier::external_body] pub fn as_integer(&self) -> (r: Option<i64>) ensures r == (match *self { Value::Integer(i) => Some(i), _ => None }) { unimplemented!() }
        #[verifier::external_body] pub fn as_string(&self) -> (r: Option<&str>) ensures r is Some <==> self is String, r is Some ==> r->0@ == self->String_0@ { unimplemented!() }
        #[verifier::external_body] pub fn as_binary(&self) -> (r: Option<&[u8]>) ensures r is Some <==> self is Binary, r is Some ==> r->0@ == self->Binary_0@ { unimplemented!() }
    }
    pub struct StV { pub id: int, pub p: Seq<V>, pub started: bool, pub src: Seq<Row>, pub pos: int }
    pub open spec fn nulls(n: int) -> Seq<V> { Seq::new(n as nat, |i: int| V::N) }
    pub trait Step { spec fn sv(&self) -> StV; }
    impl Step for Statement { uninterp spec fn sv(&self) -> StV; }
    impl Step for Cursor { uninterp spec fn sv(&self) -> StV; }
    impl Statement {
        #[verifier::external_body] pub fn bind(&mut self, i: usize, v: &Value) -> (r: Result<(), Error>)
            ensures r is Ok ==> 1 <= i <= old(self).sv().p.len() && final(self).sv() == (StV { p: old(self).sv().p.update(i - 1, val(*v)), ..old(self).sv() }), r is Err ==> final(self).sv() == old(self).sv(), 1 <= i <= old(self).sv().p.len() ==> r is Ok { unimplemented!() }
        #[verifier::external_body] pub fn cursor(self) -> (r: Cursor) ensures r.sv() == self.sv() { unimplemented!() }
    }
    impl Cursor {
        #[verifier::external_body] pub fn bind<const N: usize>(&mut self, v: &[Value; N]) -> (r: Result<(), Error>)
            ensures r is Ok ==> N <= old(self).sv().p.len() && final(self).sv() == (StV { p: vals(v@) + old(self).sv().p.subrange(N as int, old(self).sv().p.len() as int), started: false, ..old(self).sv() }), N <= old(self).sv().p.len() ==> r is Ok { unimplemented!() }
    }
    impl Connection {
        pub uninterp spec fn view(&self) -> Db;
        /// the database engine works: no statement fails (disk, memory, lock)
        pub uninterp spec fn live(&self) -> bool;
        #[verifier::external_body] pub fn vx_prepare(&self, sql: &str, id: Ghost<int>) -> (r: Result<Statement, Error>)
            ensures r is Ok ==> r->Ok_0.sv() == (StV { id: id@, p: nulls(sql_np(id@)), started: false, src: Seq::empty(), pos: 0 }), self.live() ==> r is Ok { unimplemented!() }
        #[verifier::external_body] pub fn vx_execute(&self, sql: &str, id: Ghost<int>) -> (r: Result<(), Error>) { unimplemented!() }
        /// reading: the statement must be a query
        #[verifier::external_body] pub fn vx_next_ro(&self, c: &mut Cursor) -> (r: Result<Option<&[Value]>, Error>)
            requires sql_kind(old(c).sv().id) == 2
            ensures step(old(c).sv(), final(c).sv(), self@), self.live() ==> r is Ok,
                r is Ok ==> (r->Ok_0 is Some <==> pos_of(old(c).sv()) < final(c).sv().src.len()),
                r is Ok && r->Ok_0 is Some ==> vals(r->Ok_0->0@) == sql_proj(final(c).sv().id, final(c).sv().src[pos_of(old(c).sv())]) && r->Ok_0->0@.len() == sql_proj(final(c).sv().id, final(c).sv().src[pos_of(old(c).sv())]).len()
        { unimplemented!() }
        /// executing: a query leaves the tables alone; a failing statement has no effect
        #[verifier::external_body] pub fn vx_next<S: Step>(&mut self, c: &mut S) -> (r: Result<bool, Error>)
            ensures r is Ok ==> final(self)@ == run(old(self)@, old(c).sv().id, old(c).sv().p), r is Err ==> final(self)@ == old(self)@, old(self).live() ==> r is Ok && final(self).live(), final(c).sv().id == old(c).sv().id && final(c).sv().p == old(c).sv().p
        { unimplemented!() }
    }
    pub open spec fn pos_of(a: StV) -> int { if a.started { a.pos } else { 0 } }
    pub open spec fn step(a: StV, b: StV, d: Db) -> bool {
        &&& b.id == a.id && b.p == a.p && b.started
        &&& a.started ==> b.src == a.src
        &&& !a.started ==> selects(d, a.id, a.p, b.src)
        &&& b.pos == (if pos_of(a) < b.src.len() { pos_of(a) + 1 } else { pos_of(a) })
    }
    #[verifier::external_body] pub fn open(p: &str) -> (r: Result<Connection, Error>) { unimplemented!() }
} }

// ---------------------------------------------------------------- serde
// serde's data model as far as the code speaks it. A format is trusted to hand back what was written to it (`wrote` becomes `data`),
// and a derived implementation to write and read the declared fields in order.
pub mod serde { use vstd::prelude::*; use crate::vx::*; verus! {
    pub enum Tok { S(Seq<char>), B(Seq<u8>), N(int), L(Seq<Tok>), V(int, Seq<Tok>), Other }
    /// what a value is written as
    pub trait Tokd { spec fn tok(&self) -> Tok; }
    /// what is read: `de_dom` the forms a type asks for, `de_ok` those that are accepted, `de_is` the value they give
    pub trait Read: Sized { spec fn de_dom(t: Tok) -> bool; spec fn de_ok(t: Tok) -> bool; spec fn de_is(t: Tok, v: Self) -> bool; }
    /// what is written can be read, and as nothing else
    pub trait RoundTrip: Tokd + Read { proof fn lemma_rt(x: Self) ensures Self::de_dom(x.tok()), Self::de_ok(x.tok()), forall|y: Self| #[trigger] Self::de_is(x.tok(), y) ==> y == x; }
    pub mod ser { use vstd::prelude::*; verus! {
        pub trait SerializeSeq: Sized { type Ok; type Error;
            spec fn items(&self) -> Seq<super::Tok>;
            spec fn wrote(ok: Self::Ok) -> super::Tok;
            fn serialize_element<T: super::Tokd>(&mut self, v: &T) -> (r: Result<(), Self::Error>) ensures r is Ok ==> final(self).items() == old(self).items().push(v.tok());
            fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> Self::wrote(r->Ok_0) == super::Tok::L(self.items());
        }
        pub use super::{Serialize, Serializer};
    } }
    pub mod de { use vstd::prelude::*; use crate::vx::*; verus! {
        pub trait Error: Sized + VxToString { fn custom<T>(msg: T) -> Self; }
        pub trait Visitor<'de>: Sized { type Value;
            spec fn str_ok(s: Seq<char>) -> bool; spec fn str_is(s: Seq<char>, v: Self::Value) -> bool;
            spec fn bytes_ok(b: Seq<u8>) -> bool; spec fn bytes_is(b: Seq<u8>, v: Self::Value) -> bool;
            fn visit_str<E: Error>(self, s: &str) -> (r: Result<Self::Value, E>) ensures r is Ok <==> Self::str_ok(s@), r is Ok ==> Self::str_is(s@, r->Ok_0);
            fn visit_bytes<E: Error>(self, b: &[u8]) -> (r: Result<Self::Value, E>) ensures r is Ok <==> Self::bytes_ok(b@), r is Ok ==> Self::bytes_is(b@, r->Ok_0);
        }
        pub use super::{Deserialize, Deserializer};
    } }
    pub trait Serializer: Sized { type Ok; type Error; type SerializeSeq: ser::SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
        spec fn wrote(ok: Self::Ok) -> Tok;
        fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> Self::wrote(r->Ok_0) == Tok::S(v@);
        fn serialize_bytes(self, v: &[u8]) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> Self::wrote(r->Ok_0) == Tok::B(v@);
        fn collect_str<T: VxToString>(self, v: &T) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> exists|s: Seq<char>| #[trigger] v.vx_str_ok(s) && Self::wrote(r->Ok_0) == Tok::S(s);
        fn serialize_seq(self, n: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>) ensures r is Ok ==> ser::SerializeSeq::items(&r->Ok_0) == Seq::<Tok>::empty();
    }
    /// what a sequence's end returns is what the serializer returns
    #[verifier::external_body]
    pub broadcast proof fn axiom_seq<S: Serializer>(ok: S::Ok) ensures #[trigger] S::wrote(ok) == <S::SerializeSeq as ser::SerializeSeq>::wrote(ok) { }
    pub trait Serialize: Tokd {
        fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) ensures r is Ok ==> S::wrote(r->Ok_0) == self.tok(); }
    /// a format only has to honour the form it is asked for: nothing is known of `deserialize_str` where the input is not a string
    pub trait Deserializer<'de>: Sized { type Error: de::Error; spec fn data(&self) -> Tok;
        fn deserialize_str<V: de::Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>) ensures self.data() is S ==> (r is Ok <==> V::str_ok(self.data()->S_0)) && (r is Ok ==> V::str_is(self.data()->S_0, r->Ok_0));
        fn deserialize_string<V: de::Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>) ensures self.data() is S ==> (r is Ok <==> V::str_ok(self.data()->S_0)) && (r is Ok ==> V::str_is(self.data()->S_0, r->Ok_0));
        fn deserialize_bytes<V: de::Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>) ensures self.data() is B ==> (r is Ok <==> V::bytes_ok(self.data()->B_0)) && (r is Ok ==> V::bytes_is(self.data()->B_0, r->Ok_0));
        fn deserialize_byte_buf<V: de::Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>) ensures self.data() is B ==> (r is Ok <==> V::bytes_ok(self.data()->B_0)) && (r is Ok ==> V::bytes_is(self.data()->B_0, r->Ok_0));
        fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>);
    }
    pub trait Deserialize<'de>: Read {
        fn deserialize<D: Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>) ensures Self::de_dom(d.data()) ==> (r is Ok <==> Self::de_ok(d.data())) && (r is Ok ==> Self::de_is(d.data(), r->Ok_0)); }
    impl Tokd for str { open spec fn tok(&self) -> Tok { Tok::S(self@) } }
    impl Serialize for str { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
    impl Tokd for String { open spec fn tok(&self) -> Tok { Tok::S(self@) } }
    impl Serialize for String { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
    impl Read for String { open spec fn de_dom(t: Tok) -> bool { t is S } open spec fn de_ok(t: Tok) -> bool { t is S } open spec fn de_is(t: Tok, v: String) -> bool { t == Tok::S(v@) } }
    impl<'de> Deserialize<'de> for String { #[verifier::external_body] fn deserialize<D: Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>) { unimplemented!() } }
    impl RoundTrip for String { proof fn lemma_rt(x: String) { assert forall|y: String| #[trigger] String::de_is(x.tok(), y) implies y == x by { axiom_string_ext(y, x); } } }
    impl<T: Read> Read for Vec<T> {
        open spec fn de_dom(t: Tok) -> bool { t is L && forall|i: int| 0 <= i < t->L_0.len() ==> T::de_dom(#[trigger] t->L_0[i]) }
        open spec fn de_ok(t: Tok) -> bool { t is L && forall|i: int| 0 <= i < t->L_0.len() ==> T::de_ok(#[trigger] t->L_0[i]) }
        open spec fn de_is(t: Tok, v: Vec<T>) -> bool { t is L && v@.len() == t->L_0.len() && forall|i: int| 0 <= i < v@.len() ==> T::de_is(t->L_0[i], #[trigger] v@[i]) } }
    impl<'de, T: Deserialize<'de>> Deserialize<'de> for Vec<T> { #[verifier::external_body] fn deserialize<D: Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>) { unimplemented!() } }
    impl<T: Tokd> Tokd for Vec<T> { open spec fn tok(&self) -> Tok { Tok::L(Seq::new(self@.len(), |i: int| self@[i].tok())) } }
    impl<T: Serialize> Serialize for Vec<T> { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
    impl<T: RoundTrip> RoundTrip for Vec<T> { proof fn lemma_rt(x: Vec<T>) {
        assert forall|i: int| 0 <= i < x@.len() implies T::de_dom(#[trigger] x.tok()->L_0[i]) && T::de_ok(x.tok()->L_0[i]) by { T::lemma_rt(x@[i]); }
        assert forall|y: Vec<T>| #[trigger] Self::de_is(x.tok(), y) implies y == x by {
            assert forall|i: int| 0 <= i < y@.len() implies y@[i] == x@[i] by { T::lemma_rt(x@[i]); assert(T::de_is(x.tok()->L_0[i], y@[i])); }
            assert(y@ =~= x@); axiom_vec_ext(y, x); } } }
    impl Tokd for u8 { open spec fn tok(&self) -> Tok { Tok::N(*self as int) } }
    impl Serialize for u8 { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
    impl Read for u8 { open spec fn de_dom(t: Tok) -> bool { t is N } open spec fn de_ok(t: Tok) -> bool { t is N && 0 <= t->N_0 < 256 } open spec fn de_is(t: Tok, v: u8) -> bool { t == Tok::N(v as int) } }
    impl RoundTrip for u8 { proof fn lemma_rt(x: u8) { } }
    impl<'de> Deserialize<'de> for u8 { #[verifier::external_body] fn deserialize<D: Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>) { unimplemented!() } }
    /// serde writes a Duration as its seconds and nanoseconds
    impl Tokd for Duration { open spec fn tok(&self) -> Tok { Tok::L(seq![Tok::N(self.s as int), Tok::N(self.n as int)]) } }
    impl Read for Duration { open spec fn de_dom(t: Tok) -> bool { t is L && t->L_0.len() == 2 && t->L_0[0] is N && t->L_0[1] is N }
        open spec fn de_ok(t: Tok) -> bool { Self::de_dom(t) && 0 <= t->L_0[0]->N_0 <= u64::MAX && 0 <= t->L_0[1]->N_0 <= u32::MAX }
        open spec fn de_is(t: Tok, v: Duration) -> bool { Self::de_dom(t) && t->L_0[0]->N_0 == v.s && t->L_0[1]->N_0 == v.n } }
    impl RoundTrip for Duration { proof fn lemma_rt(x: Duration) { } }
    /// ed25519-dalek writes a key as its 32 bytes and reads only bytes that are a key
    impl Tokd for crate::ext::ed25519_dalek::VerifyingKey { open spec fn tok(&self) -> Tok { Tok::B(self@) } }
    impl Read for crate::ext::ed25519_dalek::VerifyingKey { open spec fn de_dom(t: Tok) -> bool { t is B }
        open spec fn de_ok(t: Tok) -> bool { t is B && t->B_0.len() == 32 && crate::ext::ed25519_dalek::ed_pk_ok(t->B_0) }
        open spec fn de_is(t: Tok, v: crate::ext::ed25519_dalek::VerifyingKey) -> bool { t == Tok::B(v@) } }
    impl RoundTrip for crate::ext::ed25519_dalek::VerifyingKey { proof fn lemma_rt(x: Self) { broadcast use crate::ext::ext_axioms; } }
} }
pub mod serde_bytes { use vstd::prelude::*; use crate::ext::serde::*; use crate::vx::*; verus! {
    #[verifier::external_body] pub struct Bytes { x: u8 }
    #[verifier::external_body] pub struct ByteBuf { x: u8 }
    impl Bytes { pub uninterp spec fn view(&self) -> Seq<u8>; #[verifier::external_body] pub fn new(b: &[u8]) -> (r: &Bytes) ensures r@ == b@ { unimplemented!() } }
    impl Tokd for Bytes { open spec fn tok(&self) -> Tok { Tok::B(self@) } }
    impl Serialize for Bytes { #[verifier::external_body] fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() } }
    impl ByteBuf { pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn into_vec(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
    impl Read for ByteBuf { open spec fn de_dom(t: Tok) -> bool { t is B } open spec fn de_ok(t: Tok) -> bool { t is B } open spec fn de_is(t: Tok, v: ByteBuf) -> bool { t == Tok::B(v@) } }
    impl<'de> Deserialize<'de> for ByteBuf { #[verifier::external_body] fn deserialize<D: Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>) { unimplemented!() } }
} }
