COMMON = "Deductive proof, for all inputs, of contracts on the code extracted from /repo on every run (Verus/Z3). Trusted: the extractor's translation rules, Verus/Z3, and the assumed contracts of dependencies in contracts/ext.rs and contracts/vx.rs. When a changed function leaves the verifier's reach, only the bounded search on the real crates decides and the evidence says so. "
TG = "trust_graph::trust_graph::TrustGraph::"
SQ = "service::storage_impl::SQLiteStorage::"
TH = {
 "C01": ["trust_graph::trust::Trust::verify","trust_graph::trust::Trust::create","trust_graph::trust::Trust::signature_bytes","spec::lemma_trust_pre_inj"],
 "C02": ["trust_graph::revoke::Revocation::verify","trust_graph::revoke::Revocation::create","trust_graph::revoke::Revocation::signature_bytes","spec::lemma_rev_pre_inj","spec::lemma_domain"],
 "C03": ["fluence_keypair::public_key::PublicKey::verify","fluence_keypair::key_pair::KeyPair::sign","fluence_keypair::key_pair::KeyPair::public"],
 "C04": ["trust_graph::certificate::Certificate::verify"],
 "C05": ["trust_graph::certificate::Certificate::issue","trust_graph::certificate::Certificate::issue_with_trust","trust_graph::certificate::Certificate::issue_root","trust_graph::certificate::Certificate::new_from_root_trust","spec::lemma_issue_ok"],
 "C06": [TG+"get_all_certs",TG+"bf_search_paths","graph::lemma_cert_facts"],
 "C07": [TG+"get_all_certs",TG+"bf_search_paths","graph::lemma_path_listed"],
 "C08": [TG+"weight",TG+"certificates_weight_factor","trust_graph::trust_graph::get_weight_from_factor","graph::lemma_weight"],
 "C09": [TG+"get_all_certs_from",TG+"weight_from"],
 "C10": [TG+"add_trust",TG+"add",TG+"get_next_weight"],
 "C11": [SQ+"update_relation",SQ+"update_auth",SQ+"revoke",TG+"revoke"],
 "C12": [SQ+"remove_expired",TG+"get_all_certs"],
 "C13": [SQ+"insert",SQ+"get_relation",SQ+"get_relations",SQ+"get_root_weight_factor",SQ+"set_root_weight_factor",SQ+"root_keys"],
 "C14": ["trust_graph::trust::Trust::encode","trust_graph::trust::Trust::decode","trust_graph::certificate::Certificate::encode","trust_graph::certificate::Certificate::decode","spec::lemma_cert_binary_roundtrip"],
 "C15": ["trust_graph::trust::Trust::to_string","trust_graph::trust::Trust::convert_from_strings","trust_graph::certificate::Certificate::fmt","trust_graph::certificate::Certificate::from_str","spec::lemma_text_roundtrip"],
 "C16": ["trust_graph::trust::Trust::decode","trust_graph::certificate::Certificate::decode","trust_graph::certificate::Certificate::from_str","fluence_keypair::public_key::PublicKey::decode","fluence_keypair::signature::Signature::decode"],
 "C17": ["fluence_keypair::public_key::PublicKey::encode","fluence_keypair::public_key::PublicKey::decode","fluence_keypair::signature::Signature::encode","fluence_keypair::signature::Signature::decode","fluence_keypair::key_pair::KeyPair::to_vec","fluence_keypair::key_pair::KeyPair::from_vec","fluence_keypair::key_pair::KeyPair::secp256k1_from_der","fluence_keypair::rsa::PublicKey::encode_x509","fluence_keypair::rsa::PublicKey::decode_x509","ext::asn1_der::lemma_x509","spec::lemma_pk_enc_inj","spec::lemma_sig_enc_inj"],
 "C18": ["fluence_keypair::public_key::PublicKey::to_peer_id","fluence_keypair::public_key::PublicKey::try_from<PeerId>","spec::lemma_peer_inj","spec::lemma_lkey_inj"],
 "C19": ["service::service_api::set_root","service::service_api::set_root__c0"],
 "C20": ["service::misc::check_timestamp_tetraplets"] + ['service::service_api::insert_cert_raw', 'service::service_api::insert_cert', 'service::service_api::get_all_certs', 'service::service_api::get_all_certs_from', 'service::service_api::get_host_certs', 'service::service_api::get_host_certs_from', 'service::service_api::get_weight', 'service::service_api::get_weight_from', 'service::service_api::verify_trust', 'service::service_api::add_trust', 'service::service_api::revoke'],
 "C21": ["service::dto::Trust::from<trust_graph::Trust>","service::dto::trust_graph::Trust::try_from<Trust>","service::dto::Revocation::from<trust_graph::Revocation>","service::dto::trust_graph::Revocation::try_from<Revocation>","service::dto::Certificate::from<trust_graph::Certificate>","service::dto::trust_graph::Certificate::try_from<Certificate>","svc::lemma_trust_roundtrip","svc::lemma_rev_roundtrip","svc::lemma_cert_roundtrip"],
 "C22": ["service::misc::extract_public_key","service::misc::parse_peer_id"] + ['service::service_api::set_root', 'service::service_api::insert_cert_raw', 'service::service_api::insert_cert', 'service::service_api::get_all_certs', 'service::service_api::get_all_certs_from', 'service::service_api::get_host_certs', 'service::service_api::get_host_certs_from', 'service::service_api::get_weight', 'service::service_api::get_weight_from', 'service::service_api::verify_trust', 'service::service_api::add_trust', 'service::service_api::revoke', 'service::service_api::get_trust_bytes', 'service::service_api::issue_trust', 'service::service_api::get_revocation_bytes', 'service::service_api::issue_revocation', 'service::service_api::export_revocations'],
 "C23": ["trust_graph::public_key_hashable::PublicKeyHashable::serialize","trust_graph::public_key_hashable::PublicKeyHashable::deserialize","trust_graph::public_key_hashable::PKVisitor::visit_str","trust_graph::certificate_serde::vec::serialize","trust_graph::certificate_serde::vec::deserialize","fluence_keypair::peerid_serializer::serialize","fluence_keypair::peerid_serializer::deserialize","fluence_keypair::secp256k1::PublicKey::serialize","fluence_keypair::secp256k1::PublicKey::deserialize","spec::lemma_serde_certs"],
}
X = {
 "C01": "Signature schemes and SHA-256 are uninterpreted functions; unforgeability is not claimed, only that acceptance is the scheme's own verdict on the right message. Nanoseconds of times are outside the signed message.",
 "C02": "As C01; domain separation is of the hashed byte strings.",
 "C03": "The schemes' sign/verify correctness is an assumed contract of ed25519-dalek, libsecp256k1 and ring.",
 "C06": "Over any store satisfying the Storage contract; SQLiteStorage is proved to satisfy it relative to the SQL semantics assumed in contracts/ext.rs.",
 "C07": "As C06; termination of the search is proved (decreasing bound on the remaining work), so completeness is total.",
 "C12": "Times beyond i64::MAX seconds are excluded.",
 "C13": "SQL statements are read from the source and given relational meaning by the extractor; the connector's contract is assumed.",
 "C14": "RSA keys and signatures and chains beyond 255 trusts do not fit the one-byte length fields and are excluded by the statement.",
 "C16": "Absence of panics is proved for the functions under contract; panics inside dependencies are assumed absent.",
 "C19": "The call parameters are what marine_rs_sdk::get_call_parameters returns (assumed to be the host's); with_tg's opening of the database is trusted.",
 "C20": "As C19: tetraplets are the host's. The future-date refusal is claimed for add_trust and revoke.",
 "C21": "Peer-id texts and base58 are assumed codecs (parse after render returns the value); RSA keys do not fit inside a peer id and are excluded by the statement.",
 "C22": "Functional contracts of the operations over the abstract store; storage errors are covered (operations may fail, and then nothing changes beyond expiry), a working database makes success exact.",
 "C23": "serde's data model is given by contracts/ext.rs: a format hands back what was written to it and honours the form it is asked for, and a derived implementation writes and reads the declared fields in order (the round trip of each derived type is an obligation generated from its declaration and attributes).",
 "C18": "libp2p-identity's conversions are assumed contracts; the RSA transmutes are trusted.",
}
NOTE = {k: COMMON + X.get(k, "") for k in TH}
NA = {}
