#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One dict per property."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": ", ".join(files)} for m in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("S01", "A credential whose status bit is set never passes a status check",
  "Checking a credential's status succeeds only if every one of its status entries was resolved to a status list issued by the credential's own issuer and the bit at that entry's index is clear; an entry with a set bit is reported as revoked or suspended according to its purpose. An entry of an unknown type, with missing or malformed fields, with an out-of-range index, or whose list cannot be resolved or decoded makes the check fail rather than pass, and no input makes it crash.",
  ["inputs"], "every credential (any number of status entries of either supported kind, any field present/absent/mistyped, any index) and every status list the resolver may return",
  "tests use a handful of fixed credentials; the combination of entry order, index arithmetic, purposes and malformed lists is unbounded",
  ["status/status.go", "status/validator/validator.go", "status/validator/bitstringstatus/bitstringstatus.go", "status/validator/statuslist2021/statuslist2021.go", "status/internal/bitstring/bitstring.go"],
  ["the status client walks the entries, validates each by type, resolves the list credential, compares issuers and reads the bit"])
p("S02", "Status list bits are addressed exactly and encodings round-trip",
  "Reading position i of a status bit list returns bit (i mod 8), least significant first, of byte (i div 8), and any negative or too large position is an error, never a wrong bit or a crash. Encoding a bit list and decoding it again, in either supported text encoding, yields the same bytes, and text that is not a valid encoding is an error.",
  ["inputs"], "every byte string and every 64-bit position, every encoded text",
  "tests probe a few positions of one list; index arithmetic must be right for all of them",
  ["status/internal/bitstring/bitstring.go"], ["bit extraction, bounds check, compress and text-encode"])
p("S03", "Multi-bit status entries are accepted only with a consistent message table",
  "A bitstring status entry that declares a status size is accepted only when the size is a positive number and, for sizes above one, the entry carries a status message table with exactly two-to-the-size entries; a missing size means one. An entry of the wrong type, or lacking its purpose, index or list location, is rejected by the validator of its kind, and an accepted entry yields exactly the index, location and purpose it declares.",
  ["inputs"], "every status size value, every message table length, every presence/absence/type of the entry fields and every index text",
  "tests use sizes 1 and 2; the exponent, sign and overflow cases are not sampled",
  ["status/validator/bitstringstatus/bitstringstatus.go", "status/validator/statuslist2021/statuslist2021.go"], ["status entry validators"])
p("J01", "A signed token is accepted only through verification of its own signature",
  "Checking a compact token succeeds only if the verifier accepted the token's decoded signature bytes over exactly the transmitted header text and the transmitted payload content, with the algorithm and key id named in its header; when an issuer check is requested the expected issuer handed to the verifier is the token's own issuer claim, which must be present. A token with no algorithm, without a signature, with a wrong number of parts or with undecodable parts is never accepted as signed.",
  ["inputs"], "every three-part text, header, payload, signature and every answer of the verifier",
  "tests verify a few well-formed tokens; the binding between transmitted bytes and verified bytes must hold for every token",
  ["jwt/jwt.go", "jwt/verifier.go", "jwt/jose_wrappers.go", "proof/checker/checker.go"], ["parse, split, rebuild of the signing input, proof-checker call"])
p("J02", "Token building and parsing are inverse, and header rules are enforced",
  "Building a token from claims and headers and parsing the serialisation returns the same headers, claims and payload. A token is rejected on parsing if its content type says it nests another token, or if its type header is present and is neither the token type nor one of the explicitly typed forms; whether a text is classed as a signed or an unsigned token depends only on whether its header and payload are JSON objects and whether a signature part is present.",
  ["inputs"], "every claims object and header set within the bound",
  "round trips are tested on two or three literals",
  ["jwt/jwt.go", "jwt/jose_wrappers.go"], ["serialisation, header checks, token classification"])
p("K01", "A proof is accepted only from a key of the expected controller that fits it",
  "A token, linked-data or CBOR proof is accepted only when the verification method named by the proof was resolved for the expected issuer (or, with none given, for the identifier part of the key id), the algorithm or proof type is registered, the resolved key's type and curve are ones that algorithm allows, and the signature check for exactly that key, message and signature succeeded. If any of these is missing or mismatched the check fails with an error and never crashes.",
  ["inputs", "configurations"], "every header, key id, verification method type, key type/curve, resolver answer and signature verdict",
  "tests try one happy path per algorithm; algorithm/key confusion is a cross product",
  ["proof/checker/checker.go", "proof/jwtproofs", "proof/ldproofs"], ["proof checker dispatch over registered proof descriptors and signature verifiers"])
p("K02", "Verification keys come only from the controller's document and relationship",
  "A key is returned for a verification method only if the expected controller's resolved document lists a method with exactly that id under a relationship other than key agreement, and the returned key is that method's own key; otherwise resolution fails.",
  ["inputs"], "every document (any number of methods and relationships), every requested id",
  "tests use one document with one key",
  ["vermethod/vdrkeyresolver.go"], ["scan of the resolved document's relationships"])
p("K03", "Signature verifiers hand the exact signature, digest and key to the primitive",
  "A signature verifier accepts only if the key is of a type it supports and the underlying primitive accepted the signature under exactly that key and message; fixed-width signatures are split into two equal halves, anything shorter is rejected, and wrong key sizes or types are errors rather than crashes. A BBS+ signature covers exactly the non-blank lines of the message, and a proof derived from one exactly the lines it reveals: further lines are refused, and a malformed proof is an error.",
  ["inputs"], "every signature length and content, every key type and key size, every primitive verdict",
  "tests check one good and one corrupted signature per algorithm",
  ["crypto-ext/verifiers/ecdsa/verifier.go", "crypto-ext/verifiers/ed25519/verifier.go", "crypto-ext/verifiers/rsa/verifier.go", "crypto-ext/verifiers/bbs/verifier.go"], ["signature length checks and splitting, key type checks"])
p("K04", "A proof is made by the signer asked for, and the default checker accepts it",
  "The proof creator signs exactly the given bytes with exactly the signer registered for the requested algorithm or proof type, refuses algorithms, types and key types it was not set up for without signing, and passes a signer's failure on. A credential or presentation signed as JWT, CWT or with linked-data proofs by any supported kind of key and written out is accepted by the parsers with the default proof checker, with the same content; with a changed claim, proof option, key identifier or signature byte, or another party's key, it is refused.",
  ["inputs", "configurations"], "every algorithm, proof type, key kind, form and single change",
  "tests sample pairs of one key and one form and mostly use stub checkers",
  ["proof/creator/creator.go", "proof/defaults/all.go", "verifiable/jws.go", "verifiable/cose.go", "verifiable/linked_data_proof.go", "verifiable/lddocument/signer.go"], ["signer selection, what is signed, where the proof is put"])
p("K05", "Sealed credentials, presentations, DID documents verify only while unchanged",
  "A credential, presentation or DID document given a data integrity proof with any supported suite and key verifies with the configured verifier under matching expectations, also when no domain or challenge is expected; the same holds for DID documents with one or more linked-data proofs. Any changed or missing part of the document, any changed, added or missing member of a proof that is covered, another party's key or method, an unmet expectation, or a missing verifier makes verification fail, and sealing changes nothing but the proofs.",
  ["inputs", "configurations"], "every suite, key kind, proof shape and single change",
  "tests cover one shape of each document and hardly any change",
  ["verifiable/data_integrity_proof.go", "verifiable/did_data_integrity.go", "verifiable/did_ldp.go", "dataintegrity/verifier.go", "dataintegrity/signer.go", "verifiable/embedded_proof.go"], ["sealing and checking of documents"])
p("D01", "Only digests in the signed payload make a disclosure count",
  "A selective-disclosure token verifies only if every presented disclosure is well formed and its digest occurs exactly once in the signed payload or inside another presented disclosure; a duplicated or unreferenced disclosure, a repeated digest, or a disclosed claim name colliding with an existing claim at the same level makes verification fail. The claims returned are exactly the signed payload with its digests replaced by the matching disclosed claims at their original places, and contain no digest or hash-algorithm bookkeeping.",
  ["inputs"], "every payload with digests at any level, every list of disclosures",
  "tests sample a few shapes; an attacker chooses the disclosures",
  ["sdjwt/common/common.go", "sdjwt/verifier/verifier.go"], ["digest lookup, recursive disclosure processing"])
p("D02", "Issue, select, present and verify recovers exactly the selected claims",
  "For any claims and issuing options, presenting all disclosures of an issued token and verifying it returns exactly the original claims, and presenting a subset returns exactly the original claims minus the undisclosed ones. No value of an undisclosed claim appears in the issued payload.",
  ["inputs", "configurations"], "every small claims tree, draft version, issuing options and subset of disclosures",
  "tests check hand-written examples of each option, not their combination with every claims shape",
  ["sdjwt/issuer/issuer.go", "sdjwt/issuer/v2.go", "sdjwt/issuer/v5.go", "sdjwt/holder/holder.go", "sdjwt/verifier/verifier.go", "sdjwt/common/common.go"], ["disclosure creation, digest replacement, claim reconstruction"])
p("D03", "Holder binding is enforced whenever required or present",
  "When holder verification is required, a presentation without a holder token fails; whenever a holder token is present it verifies only if it is of the expected type, is signed with an allowed algorithm by the key the issuer bound into the token, is inside its validity times, and carries the expected nonce and audience whenever those are given.",
  ["inputs", "configurations"], "every combination of options and holder token contents",
  "tests flip one condition at a time",
  ["sdjwt/verifier/verifier.go", "sdjwt/common/common.go"], ["holder verification"])
p("D04", "Combined formats round-trip and never confuse their parts",
  "Serialising a token with any list of disclosures and an optional holder token and parsing it back returns the same token, disclosures in order and holder token, for both the issuance and the presentation format. A holder's presentation contains only disclosures it was issued and asked to present, and asking for an unknown one fails.",
  ["inputs"], "every list of parts up to the bound",
  "tests cover one list",
  ["sdjwt/common/common.go", "sdjwt/holder/holder.go"], ["tilde separated serialisation"])
p("D05", "Signing algorithm, hash algorithm, type and time gates hold for SD tokens",
  "A selective-disclosure token is rejected if its signing algorithm is missing, is the unsigned one or is not on the caller's allow-list, if its digest algorithm is not one of the three supported ones, if an expected type header does not match, or if it is expired, not yet valid or issued in the future beyond the allowed leeway; within those limits time claims never cause rejection.",
  ["inputs", "configurations"], "every algorithm name, allow-list, hash name, type header, time claim and leeway",
  "boundary instants and near-miss names are not sampled",
  ["sdjwt/common/common.go", "sdjwt/verifier/verifier.go"], ["algorithm allow-list, time claim validation"])
p("C01", "A credential is returned only if every proof on it verified for its issuer",
  "Parsing a credential with proof checking enabled succeeds only if it carries proof (the token or CBOR envelope it came in, otherwise at least one embedded proof) and each proof was accepted by the checker configured for its kind with the credential's own issuer as expected issuer. A credential without issuer, without proof, with any failing or malformed proof, or with no checker configured for its kind of proof is rejected.",
  ["inputs", "configurations"], "every envelope kind, number and order of embedded proofs, issuer form and checker verdict",
  "tests check single-proof credentials",
  ["verifiable/credential.go", "verifiable/embedded_proof.go", "verifiable/credential_parser.go", "verifiable/credential_jws.go", "verifiable/lddocument/verifier.go"], ["proof routing and verification in credential parsing"])
p("C02", "Parsing and serialising a credential preserves every field",
  "Parsing a JSON credential and serialising it again yields an equivalent document: identifiers, types, contexts, issuer (in either form), subjects, dates in their original text, status, schemas, evidence, terms, refresh service, related resources, proofs and custom fields are all preserved, and the parsed contents report the same values. A document that does not have the required structure is an error, never a crash.",
  ["inputs"], "every credential document within the bound (each field absent / each of its legal shapes / wrong type)",
  "tests round trip two fixed credentials",
  ["verifiable/credential.go", "verifiable/common.go", "util/json/json.go", "util/time/time.go"], ["raw document to contents and back"])
p("C03", "Credential to token claims and back preserves the credential",
  "Turning a credential into token claims (minimised or not, signed or unsigned) and parsing the token back returns the same issuer, subject, identifier, dates and contents. The registered claims always agree with the credential, and a token whose issuer claim contradicts the credential's identifier issuer is rejected.",
  ["inputs", "configurations"], "every credential within the bound, minimised or not, every claim/credential disagreement",
  "tests use fixed credentials and never contradict the claims",
  ["verifiable/credential_jwt.go", "verifiable/credential_parser.go", "verifiable/jws.go", "verifiable/jwt_unsecured.go", "verifiable/credential_jwt_unsecured.go"], ["claim extraction, minimisation, refinement from claims"])
p("C04", "Deriving a modified credential never changes the original or keeps its proofs",
  "Each operation that derives a credential with a changed field returns a credential having exactly that change, keeps every other field, and carries none of the original's proofs or envelope where the signed content changed; the original credential, its contents and its proofs are unchanged.",
  ["inputs", "histories"], "every derived-credential operation on every small credential and every sequence of two",
  "aliasing shows only when both copies are observed after each mutation",
  ["verifiable/credential.go", "verifiable/common.go", "util/maphelpers/map.go"], ["copy-on-derive"])
p("C05", "Presentations are returned only if their proof verified and preserve contents",
  "Parsing a presentation with proof checking enabled succeeds only if its envelope or every embedded proof was accepted by the checker, and each enveloped or token credential inside passed its own proof check for its own issuer. With the holder check on, a presentation about a single subject whose embedded proof was made by the same identifier as the proof of one of its credentials fails unless its holder is that credential's issuer. The parsed presentation has the same holder, identifiers, contexts, types, credentials (in order) and further members as the document, and is written again as the same document, also after being carried in a token.",
  ["inputs", "configurations"], "every presentation envelope, number of credentials and checker verdict",
  "tests verify one or two examples",
  ["verifiable/presentation.go", "verifiable/presentation_parser.go", "verifiable/presentation_jwt.go", "verifiable/presentation_jws.go", "verifiable/presentation_cwt.go"], ["presentation parser chain and proof check"])
p("C06", "Selective-disclosure credentials reveal exactly the chosen disclosures",
  "Marshalling an SD credential with a chosen set of disclosures carries exactly those disclosures, building its display form shows exactly the disclosed claims, and neither changes the credential it was made from. Asking for a disclosure that does not exist, or for contradictory selections, is an error.",
  ["inputs", "configurations"], "every subset of disclosures, by name or all",
  "tests select one or two names",
  ["verifiable/credential_sdjwt.go"], ["disclosure filtering and display"])
p("C07", "The CBOR envelope is verified and preserved like the token envelope",
  "A CBOR-signed credential is accepted only if the checker accepted the decoded signature over the structure made of its own protected headers and payload, under the key id in its headers and, when the issuer check is on, for the issuer claim in its payload. Content lacking headers or issuer is an error, never a crash, and a message without key id reaches the checker as such. What was signed, credential or presentation, minimised or not, is accepted again with the same contents, and what was parsed is written again as the same bytes.",
  ["inputs"], "every decoded message, header set and verdict",
  "tests check one message",
  ["cwt/cwt.go", "cwt/wrappers.go", "verifiable/cwt/cwt.go", "verifiable/cose.go", "verifiable/credential_parser.go", "verifiable/presentation_parser.go", "verifiable/presentation_cwt.go"], ["Sign1 parse, canonical signature structure, proof call"])
p("C08", "Cached schemas expire and are returned unchanged",
  "A schema put in the cache is returned byte for byte until its lifetime has passed and never afterwards; looking up an absent key finds nothing and no lookup crashes. A credential that names a schema of a supported type is accepted only if that very schema was obtained, from the cache or served without failure, and it fits; what was served is kept, a failure is not.",
  ["inputs", "histories"], "every schema content, lifetime and elapsed time",
  "tests sleep for one fixed expiry",
  ["verifiable/cache.go", "verifiable/credential.go"], ["expiry stamp appended to cached value, schema lookup and download"])
p("C09", "Data-URL envelopes round-trip and malformed ones are rejected",
  "Writing a data URL for a media type and content and parsing it returns the same media type and content; text that is not a data URL of that form is an error. Enveloped credentials and presentations are unwrapped only from such URLs with a supported media type.",
  ["inputs"], "every media type and content up to the bound",
  "tests use one literal",
  ["verifiable/common.go", "verifiable/credential_parser.go"], ["data URL writer and parser"])
p("C10", "Validation admits exactly the contexts, types and members its mode allows",
  "Under base context validation a credential is accepted only if its sole context is the base one and its sole type the base type; under the extended mode only if every context and type is one of the listed. In either the members required by the data model version must be present, and all modelled members must be of their kinds; a template with a requirement switched off waives exactly that one. This does not depend on whether the credential comes as JSON, unsecured token, CBOR message or data URL of one.",
  ["inputs", "configurations"], "every list of contexts and types, every missing or malformed member",
  "tests reject a few examples",
  ["verifiable/credential.go", "verifiable/common.go"], ["model validation modes and schema templates"])
p("P01", "A presentation has the members its data model requires, of their kinds",
  "Parsing succeeds exactly for a presentation whose first context is that of a supported data model, whose types include VerifiablePresentation, and whose identifier, holder, credentials and proofs are of their kinds and complete for that data model. This holds in the same way for a document, an unsecured or signed token, a CBOR message and an enveloped presentation, also with the proof check off.",
  ["inputs", "configurations"], "every missing or malformed member, in every form of a presentation",
  "tests reject a few examples in one form",
  ["verifiable/presentation.go", "verifiable/presentation_parser.go", "verifiable/jsonld.go"], ["presentation schemas and parsers"])
p("R01", "Related resources are accepted only if what was fetched fits their digest",
  "Validating credentials succeeds exactly when every related resource of each of them was fetched (or is cached) and the digest it states, in any of its text forms, is the digest of the fetched content under the stated algorithm. A missing, malformed or differing digest, an unknown algorithm, a failed or empty answer is an error and never crashes, in every order in which the fetches run.",
  ["inputs", "schedules"], "every digest, content, answer and schedule of two fetches",
  "tests check one resource",
  ["verifiable/related_resource.go"], ["concurrent fetches, cache, digest comparison"])
p("L01", "Every linked-data proof on a document is checked, against its own content",
  "Verifying a document's embedded linked-data proofs succeeds only if there is at least one proof and each was accepted by the checker over the document without proofs combined with that proof's own options, for the expected controller; a proof lacking its value or public key reference fails. Adding a proof keeps the earlier ones, states the options requested and signs exactly these and the document without proofs.",
  ["inputs"], "every number of proofs and verdicts",
  "tests check one-proof documents",
  ["verifiable/lddocument/verifier.go", "verifiable/linked_data_proof.go"], ["iteration over proofs, verify data creation"])
p("L02", "A document derived from a BBS+ credential shows what was asked for, and verifies",
  "Deriving a document from a credential with BBS+ signatures, by a frame, yields exactly the members the frame asks for and one proof for every BBS+ signature, and the document verifies with the issuer's key; the credential and the frame are left alone. Any change to what is shown or to a signed proof option, another nonce or another key makes verification fail. A presentation exchange with limited disclosure shows only what its fields select besides the mandatory members. What cannot be derived (no BBS+ proof, an unusable key, a statement the credential does not have) is refused with nothing shown.",
  ["inputs"], "every value, every combination of shown members and proof options",
  "tests derive from a few fixed documents",
  ["verifiable/bbs_selective_disclosure.go", "verifiable/credential_bbs.go", "presexch/definition.go", "crypto-ext/verifiers/bbs/verifier.go"], ["revealed indexes, derived proof options, reveal documents, blank nodes"])
p("I01", "Data integrity proofs are each fully checked under their own method and options",
  "Verifying a data integrity proof succeeds only if the document has at least one proof and every proof is of the right type, has a registered suite, matches the expected purpose, domain and challenge, is not expired, and its suite accepted it under the verification method that this same proof names in the resolved document for that purpose. The suite gives the primitive of the key's own curve the proof's value and the digests of that proof's options and of the document without proofs. Checking one proof never changes how another is checked.",
  ["inputs", "configurations"], "every list of proofs and options, every suite verdict and document",
  "tests verify single-proof documents",
  ["dataintegrity/verifier.go", "dataintegrity/signer.go", "dataintegrity/suite/ecdsa2019/ecdsa2019.go", "dataintegrity/suite/eddsa2022/eddsa2022.go"], ["proof loop, option matching, method resolution"])
p("I02", "Added data integrity proofs state what was requested, and verify",
  "Adding a proof succeeds only with a registered suite and a resolvable method of the requested purpose, and the added proof carries the requested purpose, domain, challenge, creation and expiry times and method; the rest of the document is unchanged and the result verifies under the same options. The signed configuration covers every one of these options.",
  ["inputs", "configurations"], "every option combination",
  "tests sign with one option set",
  ["dataintegrity/signer.go", "verifiable/data_integrity_proof.go", "dataintegrity/suite/ecdsa2019/ecdsa2019.go", "dataintegrity/suite/eddsa2022/eddsa2022.go"], ["proof configuration, hashing"])
p("X01", "A presentation is built exactly when the submission requirements can be met",
  "Given which input descriptors have matching credentials, building a presentation from credentials of one base context succeeds if and only if some non-empty set of those descriptors satisfies the definition's submission requirements (all of them when there are none), including nested pick/all with count, minimum and maximum; the chosen set always satisfies them. A requirement that takes from a group no descriptor is in is an error. No definition that passes validation makes it crash.",
  ["inputs"], "every requirement tree within the bound and every set of satisfiable descriptors",
  "combinatorial: tests sample a few trees",
  ["presexch/definition.go", "presexch/internal/requirementlogic/requirementlogic.go"], ["requirement logic and subset iterator"])
p("X02", "A submission's descriptor map points at the credential chosen for it",
  "In a built presentation, or list of presentations, every descriptor mapping's path selects a credential that matched that descriptor, every matched credential is included once (credentials that share a non-empty id count as one), and matching the presentation against the same definition accepts it and returns those credentials.",
  ["inputs"], "every set of credentials (with or without ids) and descriptors",
  "tests use distinct credentials with ids",
  ["presexch/definition.go", "presexch/api.go"], ["merge, descriptor map creation, path selection"])
p("X03", "Matching accepts a submission only if every descriptor is truly satisfied",
  "Matching a presentation succeeds only if each input descriptor of the definition is mapped to a credential in the presentation that meets that descriptor's schema and field constraints; unknown descriptors, missing credentials, or constraint violations fail. A credential meets its constraints only if each non-optional field has a value at one of its paths that passes its filter, and subject-is-issuer holds if required.",
  ["inputs"], "every descriptor map and credential content within the bound",
  "tests violate one condition at a time",
  ["presexch/api.go", "presexch/definition.go"], ["getMatchedCreds, filterConstraints"])
p("X04", "Limited disclosure reveals only the requested fields",
  "When a descriptor requires limited disclosure, the credential handed out contains only the mandatory envelope fields, subject identifiers and the fields selected by the descriptor's paths, with their original values (list elements keep their order, those not selected are left out); a required predicate replaces the value with true; of an SD-JWT credential, exactly the disclosures needed for the selected values are handed out. The holder's own credential is left as it was, and credentials that cannot limit disclosure are not used.",
  ["inputs"], "every credential shape and path within the bound",
  "tests compare a few outputs",
  ["presexch/definition.go"], ["limitDisclosure, compactArrayPaths"])
p("G01", "A domain is linked to an identifier only by a valid matching credential",
  "Domain linkage verification succeeds only if the configuration has exactly the allowed members and contains a linkage credential with valid proof whose issuer and subject are the requested identifier and whose origin has the same scheme, host and port as the requested domain, with no identifier of its own, and with issuance and expiry dates. Anything else fails with an error and never crashes.",
  ["inputs"], "every configuration document and verdict within the bound",
  "tests flip one field at a time",
  ["didconfig/verifier/didconfig.go"], ["property checks, credential filter, proof verification"])
p("U01", "JSON helpers keep existing fields, lose nothing and never alias",
  "Merging custom fields never overrides a modelled field and keeps all others; splitting an object by field names partitions it; copying without keys and deep copying produce independent equal values; selecting fields returns exactly those. Time texts are re-emitted exactly as read, and denote the same instant.",
  ["inputs"], "every small object, field set and time text",
  "tests use one literal each",
  ["util/json/json.go", "util/maphelpers/map.go", "util/time/time.go"], ["map helpers and time wrapper"])
p("S04", "A status list is read only from the place its address names",
  "Resolving a status list address returns exactly the list credential served at that web address, or, for an identifier address, exactly the object asked for by the first usable query (object ids compared without case), read once from the identity hub that the identifier's resolved document names first. Any failure on the way (no such identifier, service, query or object, an unsuccessful status of the response, of the whole answer or of any reply, an unreadable or damaged body) is an error, never another object. A list whose own proof does not verify is not used.",
  ["inputs"], "every server answer, hub answer, document and query within the bound",
  "tests exercise one good answer and a few failures, not mixtures of replies, services and queries",
  ["status/resolver/resolver.go", "status/internal/identityhub/identityhub.go"], ["HTTP fetch, identity hub request and reply selection"])
p("M01", "The in-memory store behaves as a map with tags for every history",
  "For every sequence of writes, removals and batches, reading a key returns the value and tags of the last write to it or reports it missing, and a bulk read answers every key in order. A query finds exactly the entries carrying every asked tag (with the asked value where one is given), each once, as of the time of the query; stores are told apart by name regardless of case, share nothing, and are emptied by closing. Invalid requests (empty keys, nil values, tags with colons, malformed or unsupported queries) are refused and change nothing.",
  ["inputs", "histories"], "every history of operations and every query within the bound",
  "tests run a few fixed histories and single-condition queries",
  ["legacy/mem/mem.go"], ["store operations, tag matching, iterator snapshot"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
