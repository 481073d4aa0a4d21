#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
TG='trust-graph/src/'; KP='keypair/src/'; SV='service/src/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=hook
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

prop('C01','A trust verifies only if unexpired and signed by its issuer over all fields',
 'Verifying a trust against an issuer key at a given time succeeds exactly when the trust has not expired before that time and its signature is a valid signature, under the issuer key, of the message built from the subject key, the expiry second and the creation second. The message has one fixed layout (SHA-256 of the tagged key followed by the two times as eight little-endian bytes each), so statements signed elsewhere or earlier keep verifying. It determines those three values uniquely, so changing any one of them, the issuer or the signature invalidates the trust, and a trust created with a key pair always verifies under that pair\'s public key until it expires.',
 ['inputs'],'all trusts, issuer keys of every type, signatures and times',
 'tests verify one created trust and one corrupted creation time with ed25519 keys; a check that skips one field, one key type or one time boundary passes them.',
 [TG+'trust.rs',KP+'key_pair.rs',KP+'public_key.rs'],
 [('expiry test and signature check','trust.rs Trust::verify'),('signed message','trust.rs Trust::signature_bytes'),('creation','trust.rs Trust::create')],
 observe=['result of trust verification','bytes handed to the signer'])
prop('C02','A revocation verifies only if signed by its revoker, and is not a trust',
 'Verifying a revocation succeeds exactly when its signature is a valid signature, under the revoker key it names, of the message built from the revoked key and the revocation second, in one fixed layout (SHA-256 of the length byte, the tagged key and the time as eight little-endian bytes). That message determines both values uniquely and, for ed25519 and secp256k1 subject keys, differs from every message a trust signature covers, so a signature made for one kind of statement can never be passed off as the other.',
 ['inputs'],'all revocations, keys of every type, signatures and times; all pairs of a trust and a revocation',
 'tests check one valid and one altered revocation; equality of messages across the two kinds is never looked at.',
 [TG+'revoke.rs',TG+'trust.rs'],
 [('signature check','revoke.rs Revocation::verify'),('signed message with length prefix','revoke.rs Revocation::signature_bytes'),('creation','revoke.rs Revocation::create')],
 observe=['result of revocation verification'])
prop('C03','Signatures: what a key pair signs its public key accepts, and nothing else',
 'For every supported key type, a signature produced by a key pair carries the type of that pair and is accepted by the pair\'s public key for exactly the signed message. A public key accepts a signature only when the underlying signature scheme reports it valid for those bytes and that message; malformed, foreign or altered signatures are rejected with an error, never with a crash.',
 ['inputs'],'all key pairs of the three types, messages and signature byte strings',
 'tests sign and verify a few random messages; negative cases exist only for ed25519.',
 [KP+'key_pair.rs',KP+'public_key.rs',KP+'ed25519.rs',KP+'secp256k1.rs',KP+'rsa.rs',KP+'signature.rs'],
 [('dispatch on key type','key_pair.rs KeyPair::sign/verify, public_key.rs PublicKey::verify'),('scheme calls','ed25519.rs, secp256k1.rs, rsa.rs sign/verify')],
 observe=['results of sign and verify'])
prop('C04','A certificate verifies iff it is an unbroken unexpired chain from a trusted root',
 'Verifying a certificate against a list of trusted roots at a given time succeeds exactly when the certificate is non-empty, its first trust is self-signed, its first key is one of the trusted roots, and every later trust is signed by the key of the trust before it, with no trust expired. One bad, missing, reordered or expired element anywhere in the chain makes verification fail.',
 ['inputs'],'all certificates of any length, root lists and times',
 'tests cover chains of up to three or four trusts with one alteration each; the claim is for every position in chains of every length.',
 [TG+'certificate.rs',TG+'trust.rs'],
 [('chain walk','certificate.rs Certificate::verify'),('per-trust check','trust.rs Trust::verify')],
 observe=['result of certificate verification'])
prop('C05','Issuing extends exactly the chain up to the issuer, or refuses',
 'Issuing from an existing certificate returns the trusts of that certificate up to and including the last one given to the issuer, followed by one new trust with the requested subject, expiry and creation time signed by the issuer, so the result verifies against the same root whenever the new trust is unexpired. It refuses with an error, and never crashes, when the source certificate is empty or does not verify at the current time, the issuer holds no trust in it, the expiry precedes the creation time, or a supplied trust is not validly signed by the issuer. A freshly issued root certificate consists of a never-expiring self-signed root trust and the requested trust.',
 ['inputs'],'all source certificates (including empty and invalid ones), issuers, subjects and times',
 'tests extend short valid certificates and look at a few refusals; empty sources and issuers in the middle of long chains are not explored.',
 [TG+'certificate.rs'],
 [('prefix selection','certificate.rs Certificate::issue, issue_with_trust'),('root creation','certificate.rs Certificate::issue_root, new_from_root_trust')],
 observe=['returned certificate or error'])
prop('C06','Every certificate the graph returns is a genuine unrevoked path from a root',
 'Every certificate returned for a key at a given time has at least two trusts, ends in that key, starts with a self-signed trust of a currently configured root, and each of its trusts is a currently stored, not yet expired authorization issued by the key of the preceding trust. No key occurs in it twice except through a key\'s own self-signed trust, and no member of the chain has a stored revocation of any later member.',
 ['inputs','histories'],'every stored graph, root set, target key and time',
 'the repository has no automated graph tests that run without the wasm artifacts; even those sample a handful of small graphs.',
 [TG+'trust_graph.rs',TG+'chain.rs'],
 [('path search','trust_graph.rs bf_search_paths'),('extension test','chain.rs can_be_extended_by, add_revocations'),('conversion','trust_graph.rs get_all_certs')],
 [('chain','path under construction with the issuers of revocations of its members','chain.rs')],['returned certificates'])
prop('C07','The graph returns every valid certificate path',
 'For every key and time, every simple unrevoked path of stored unexpired authorizations from a configured root\'s self-signed trust to the key, with at least two trusts, is returned as a certificate, exactly once, and the search ends on every graph. No valid path is lost because of other paths, shared members, several roots, or the order in which relations were stored.',
 ['inputs','histories'],'every stored graph, root set, target key and time',
 'completeness quantifies over all paths of all graphs; tests look for particular expected certificates.',
 [TG+'trust_graph.rs',TG+'chain.rs'],
 [('queue of partial paths','trust_graph.rs bf_search_paths'),('conversion and length filter','trust_graph.rs get_all_certs')],
 observe=['returned certificates'])
prop('C08','Weight is the best root-to-key power of two, and zero without a path',
 'The weight of a key is the maximum of its own root weight, if it is a root, and over its certificates of two to the power of the root\'s allowed chain length (capped at sixteen) minus the number of trusts after the root trust. A chain longer than its root allows contributes nothing, and a key with no root status and no certificate has weight zero.',
 ['inputs','histories'],'every stored graph, root configuration, key and time; every list of certificates handed to the weight calculation',
 'tests compare a few weights in small graphs; the maximum over all certificates and the length cut-off are claims over all graphs.',
 [TG+'trust_graph.rs'],
 [('weight formula','trust_graph.rs get_weight_factor, get_weight_from_factor'),('minimum over certificates','trust_graph.rs certificates_weight_factor'),('combination','trust_graph.rs weight')],
 observe=['returned weight'])
prop('C09','Queries restricted to an issuer return exactly the paths through that issuer',
 'The certificates returned for a key and an issuer are exactly the certificates of the key in which the issuer\'s key occurs as a holder of one of the trusts, in the same order. The weight of a key restricted to an issuer is the best weight among exactly those certificates and zero when there are none.',
 ['inputs','histories'],'every stored graph, key, issuer and time',
 'tests use single graphs in which the issuer is adjacent to the key.',
 [TG+'trust_graph.rs'],
 [('filter','trust_graph.rs get_all_certs_from'),('restricted weight','trust_graph.rs weight_from')],
 observe=['returned certificates and weight'])
prop('C10','A trust enters the graph only if it verifies and its issuer has weight',
 'Adding a trust fails without storing anything when the trust does not verify against the claimed issuer at the current time; otherwise the result is half the issuer\'s weight, or the issuer\'s own weight for a self-signed trust, and the authorization is handed to the store exactly when that result is not zero. Adding a certificate adds its trusts in chain order, each against the key of the trust before it (the first against its own key), stops with an error at the first one that does not verify, and rejects an empty certificate.',
 ['inputs','histories'],'every stored graph, trust, claimed issuer, certificate and time',
 'tests add valid trusts to small graphs; the absence of any effect for every invalid or weightless input is not sampled.',
 [TG+'trust_graph.rs'],
 [('verification before any effect','trust_graph.rs add_trust'),('weight of the new edge','trust_graph.rs get_next_weight'),('chain insertion','trust_graph.rs add')],
 observe=['stored relations before and after','returned weight'])
prop('C11','Between two keys the newest statement wins, and only verified ones count',
 'The persistent store keeps at most one relation, a trust or a revocation, for each ordered pair of keys: a submitted relation replaces the stored one exactly when it was created strictly later, and leaves every other pair untouched. A revocation is recorded only if its signature verifies, cancels the trust it postdates and is cancelled by a later trust.',
 ['inputs','histories'],'every sequence of submitted trusts and revocations in any order',
 'tests submit a trust and a revocation in the natural order; replays, equal timestamps and out-of-order arrival are histories.',
 [SV+'storage_impl.rs',TG+'trust_graph.rs',TG+'trust_relation.rs'],
 [('newest wins','storage_impl.rs update_relation, revoke, update_auth'),('verification','trust_graph.rs revoke'),('replacement by pair','storage_impl.rs insert')],
 [('relation table','one row per (subject, issuer) pair','storage_impl.rs create_tables')],['stored relations'])
prop('C12','Garbage collection removes expired authorizations and nothing else',
 'Every query at a time (up to the largest signed 64-bit second, the largest the store can compare) first removes from the store exactly the authorizations whose expiry second lies at or before that time. Authorizations expiring later (including ones that practically never expire), revocations and roots survive unchanged.',
 ['inputs','histories'],'every stored content and every time up to the largest signed 64-bit second',
 'tests use expiry offsets of seconds around now; the far end of the range and the interplay with revocations are not reached.',
 [SV+'storage_impl.rs',TG+'trust_graph.rs',TG+'trust_relation.rs'],
 [('deletion','storage_impl.rs remove_expired'),('call before search','trust_graph.rs get_all_certs'),('revocation expiry value','trust_relation.rs expires_at')],
 observe=['stored relations'])
prop('C13','The store returns what was stored, and a root set again takes the new length',
 'Whatever trust, revocation or root is stored can be read back with the same keys, times, signature and kind: lookup by pair, listing of authorizations and listing of revocations for a key return exactly the stored relations of that key and kind, each once. Setting a root again replaces its earlier weight factor, and the listed roots are exactly the ones set.',
 ['inputs','histories'],'every relation over keys of every type and every 64-bit second, and every sequence of writes',
 'the storage code is compiled only for wasm; no test reads rows back field by field.',
 [SV+'storage_impl.rs'],
 [('row writing','storage_impl.rs insert, set_root_weight_factor'),('row reading','storage_impl.rs parse_relation, get_relations, get_relation, root_keys')],
 [('tables','relations and roots','storage_impl.rs create_tables')],['values returned by the store'])
prop('C14','Binary form of trusts and certificates decodes back to the same value',
 'Encoding a trust, or a certificate of two to 255 trusts, and decoding the bytes yields an equal value, with times at one-second granularity, provided keys and signatures fit the one-byte length fields (all ed25519 and secp256k1 ones do). Bytes that decode as a trust are exactly the encoding of the decoded trust, so truncated or extended input is refused.',
 ['inputs'],'all trusts and certificates with ed25519 and secp256k1 keys and signatures; all byte strings',
 'tests round-trip one ed25519 trust and certificate.',
 [TG+'trust.rs',TG+'certificate.rs'],
 [('trust codec','trust.rs Trust::encode, decode'),('certificate codec','certificate.rs Certificate::encode, decode')],
 observe=['encoded bytes, decoded value'])
prop('C15','Text form of trusts and certificates parses back to the same value',
 'Rendering a certificate as text and parsing the text yields an equal certificate, for any number of trusts, key type and signature, with times at one-second granularity. Each trust contributes exactly its subject key, signature, expiry and creation second, in that order.',
 ['inputs'],'all certificates over keys and signatures of every type and all 64-bit seconds',
 'tests round-trip one certificate with ed25519 keys.',
 [TG+'trust.rs',TG+'certificate.rs'],
 [('rendering','trust.rs to_string, certificate.rs Display'),('parsing','trust.rs convert_from_strings, certificate.rs from_str')],
 observe=['text, parsed value'])
prop('C16','Decoding and parsing never crash',
 'Decoding a public key, signature, key pair, trust or certificate from arbitrary bytes or text, from any of the supported forms, either returns a value or an error. No input, including empty, truncated, over-long or deliberately inconsistent ones, causes a panic.',
 ['inputs'],'all byte strings and all strings handed to a decoder or parser',
 'tests feed only outputs of the encoders.',
 [KP+'public_key.rs',KP+'signature.rs',KP+'key_pair.rs',KP+'ed25519.rs',KP+'secp256k1.rs',KP+'rsa.rs',TG+'trust.rs',TG+'certificate.rs',TG+'public_key_hashable.rs'],
 [('length checks','trust.rs check_arr_len, certificate.rs check_arr_len'),('tag check','public_key.rs decode, signature.rs decode'),('line count check','certificate.rs from_str')],
 observe=['panic or return'])
prop('C17','Key and signature encodings are tagged, injective and reversible',
 'The binary form of a public key or signature is one type byte (0 ed25519, 1 RSA, 2 secp256k1) followed by the raw bytes, decodes back to an equal value of the same type, and an unknown type byte or wrong-length ed25519 or secp256k1 key is refused; the base58 form of a key round-trips likewise. A key pair rebuilt from its exported secret or its exported bytes has the same public and secret key. Bytes of an ed25519 pair whose halves do not match are refused. A pair imported from a standard document (secp256k1 from a DER EC private key, RSA from PKCS#8) is the pair that document contains, and an RSA public key read back from its X.509 form is the same key.',
 ['inputs'],'all keys, signatures and key pairs of every supported type; all byte strings',
 'tests round-trip single random values; injectivity and refusals are over all byte strings.',
 [KP+'public_key.rs',KP+'signature.rs',KP+'key_pair.rs',KP+'ed25519.rs',KP+'secp256k1.rs',KP+'rsa.rs'],
 [('type byte','key_pair.rs KeyFormat conversions'),('codecs','public_key.rs encode/decode, signature.rs encode/decode/from_bytes/get_raw_signature'),('key pair export','key_pair.rs to_vec, from_vec, secret, from_secret_key')],
 observe=['encoded bytes, decoded value'])
prop('C18','Conversions to and from libp2p identities and peer ids preserve the key',
 'Converting a public key or key pair of any supported type to its libp2p counterpart and back yields the same key. For ed25519 and secp256k1 the peer id of a key determines the key and the key recovered from the peer id is the original, while a peer id that does not contain its key is refused with an error.',
 ['inputs'],'all public keys and key pairs of the three types; all peer ids',
 'tests convert a few random ed25519 and secp256k1 keys.',
 [KP+'public_key.rs',KP+'key_pair.rs'],
 [('conversions','public_key.rs From/TryFrom impls, as_public_key'),('key pair conversions','key_pair.rs From impls')],
 observe=['converted values'])
prop('C19','Only the service owner can set roots',
 'A request to set a root takes effect only when the peer that started the request is the creator of the service; for anybody else it reports failure and leaves roots and relations as they were. For the owner it records the root named by the peer id with the requested chain length and reports success, or reports failure for an unusable peer id.',
 ['inputs','histories'],'all call contexts, peer ids, chain lengths and stored states',
 'service tests need the wasm artifacts and try one stranger and one owner.',
 [SV+'service_api.rs'],
 [('owner comparison','service_api.rs set_root')],
 observe=['reported result, stored roots'])
prop('C20','The service accepts time only from the host and rejects future statements',
 'Every service operation that evaluates or changes trust at a given time - queries, verification, adding trusts or certificates, revoking - fails without any effect unless the time argument was produced by the host peer\'s own timestamp function. Adding a trust or a revocation created after that time is rejected.',
 ['inputs','histories'],'all operations, call contexts and arguments',
 'service tests pass correct provenance except in single cases; the claim is per operation and per argument position.',
 [SV+'service_api.rs',SV+'misc.rs'],
 [('provenance check','misc.rs check_timestamp_tetraplets and its calls in service_api.rs'),('future check','service_api.rs add_trust, revoke')],
 observe=['reported result, stored relations'])
prop('C21','The service\'s exchange format preserves trusts, revocations and certificates',
 'Converting a trust, revocation or certificate with ed25519 or secp256k1 keys to the service\'s exchange form and back yields an equal value: subject, issuer, times (whole seconds), signature bytes and signature type survive. Unparsable peer ids, signatures or signature types are reported as errors and never produce a value.',
 ['inputs'],'all trusts, revocations and certificates; all exchange-form values',
 'the conversion code is compiled only for wasm and has no direct tests.',
 [SV+'dto.rs'],
 [('conversions','dto.rs From and TryFrom impls')],
 observe=['converted values'])
prop('C22','Service operations act on exactly the peers and data given and report truthfully',
 'Each service operation resolves its peer id arguments to the keys they contain and performs the corresponding graph operation on exactly those keys, the given time and data: host queries use the host\'s peer id, restricted queries keep subject and issuer apart, and the bytes offered for signing are those that verification later checks. The result reports success with the operation\'s value exactly when the operation succeeded, and otherwise failure, a non-empty message and empty payload.',
 ['inputs','histories'],'all operations and arguments, all graph outcomes',
 'service tests need the wasm artifacts and look at a few operations.',
 [SV+'service_api.rs',SV+'misc.rs',SV+'results.rs'],
 [('operations','service_api.rs'),('peer id resolution','misc.rs extract_public_key'),('result mapping','results.rs')],
 observe=['reported results'])
prop('C23','Values written through serde are read back as they were, in any format',
 'What is written through serde reads back as the same value, whatever the format: public keys of every type, signatures, trusts, revocations, authorizations and relations in full; a hashable public key, which is written as the base58 text of its encoding; a peer id through the peer id serializer, as its base58 text; and a list of certificates through the certificate serializer, as a sequence of the certificates\' text forms in order, none dropped, added or exchanged (times to the second). Reading something that is not such a form is refused: no key, peer id or certificate is produced from a text or bytes that do not encode it, one bad certificate fails the whole list, and nothing panics.',
 ['inputs'],'all values, all formats that hand back what was written to them',
 'no test serializes any of these values.',
 [TG+'public_key_hashable.rs',TG+'certificate_serde.rs',KP+'lib.rs',KP+'secp256k1.rs',TG+'trust.rs',TG+'revoke.rs',TG+'trust_relation.rs',KP+'public_key.rs',KP+'signature.rs'],
 [('hashable key','public_key_hashable.rs Serialize/Deserialize/PKVisitor'),('certificates','certificate_serde.rs single, vec'),('peer ids','keypair lib.rs peerid_serializer'),('secp256k1 keys','secp256k1.rs Serialize/Deserialize'),('derived forms','#[derive(Serialize, Deserialize)] and their attributes')],
 observe=['what a format is given','the value read back'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
