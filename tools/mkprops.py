import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
S='src/'
p('C01','Every signature the signer produces verifies',
 "For every message, key (of a size the verifier accepts and large enough for the digest) and signing request that the signer accepts, each signature it outputs verifies successfully once it is put on top of the message and the matching key record is published, whatever the header selection, canonicalization, body length, copied headers, extension tags and output format, and however the body is cut into chunks on either side. Several signatures made in one signing run all verify together in the same message, unless one lists DKIM-Signature more often than the message had it, which any further signature breaks. Signing itself fails only when a requested exact body length exceeds the canonical body, or when no expiration after the timestamp can be represented.",
 ['inputs','configurations'],"all messages (headers and body bytes the types admit), all accepted signing requests (except ones that oversign DKIM-Signature itself, or whose expiry lies in the past), all key types and sizes at or above the minimum, all chunkings",
 "The tests sign a handful of fixed messages with default formatting; the guarantee ranges over messages, options and their combinations (e.g. narrow line widths with z=, odd tag orders, non-UTF-8 header bytes).",
 [S+'signer/mod.rs',S+'signer/sign.rs',S+'signer/format.rs',S+'verifier/verify.rs',S+'message_hash.rs',S+'canonicalize.rs'],
 [('hash computed over the formatted header with empty b=, data inserted at the recorded index','src/signer/sign.rs produce_signature; src/signer/format.rs insert_signature_data'),('same data hash routine on both sides','src/message_hash.rs compute_data_hash'),('b= removed from received header','src/verifier/verify.rs make_original_dkim_sig')],
 ['Signer::prepare_signing','Signer::sign','Verifier::verify_header','Verifier::finish'])
p('C02','No change to signed content goes unnoticed',
 "If, after signing, a header field instance covered by the signature, the covered part of the body, or any part of the signature header other than whitespace the canonicalization ignores and the content of b= is altered, removed or added in a way the chosen canonicalization does not ignore, verification of that signature does not succeed. Neither does it succeed with a changed b= value or with a key other than the signing key.",
 ['inputs','configurations'],"all signed messages, all single and combined alterations of signed content, including adding a field whose name is listed in h= more often than it occurred (oversigning), all keys other than the signing key",
 "Tests check a few fixed invalid signatures; the guarantee is about every alteration.",
 [S+'verifier/verify.rs',S+'verifier/mod.rs',S+'message_hash.rs',S+'canonicalize.rs',S+'crypto/rsa.rs',S+'crypto/ed25519.rs'],
 [('header data hash covers h= fields and the signature header itself','src/message_hash.rs compute_data_hash'),('body hash comparison','src/verifier/mod.rs verify_body_hash'),('public-key verification','src/verifier/verify.rs verify_signature')],
 ['VerificationResult.status'])
p('C03','Changes that canonicalization ignores never break a signature',
 "A signed message still verifies after any change that its canonicalization is defined to ignore: for relaxed headers, changed case of field names, refolding and changes of whitespace runs and of whitespace around the field value; for relaxed bodies, changed whitespace runs and added or removed trailing line whitespace; for both, added or removed empty lines at the end of the body, and re-splitting of the base64 whitespace inside b= in the signature header. Adding header fields that the signature does not cover, above or (when not named in h=) anywhere, and adding body content beyond the signed length do not break it either.",
 ['inputs','configurations'],"all signed messages and all compositions of such neutral changes",
 "Tests canonicalize a few fixed strings; end-to-end transport tolerance over arbitrary messages is not tested.",
 [S+'canonicalize.rs',S+'verifier/verify.rs',S+'tag_list.rs'],
 [('relaxed header and body canonicalization','src/canonicalize.rs'),('bottom-up instance selection','src/canonicalize.rs canonicalize_headers')],
 ['VerificationResult.status'])
p('C04','Body canonicalization is exactly that of RFC 6376',
 "For every body, the canonical form produced is the one RFC 6376 section 3.4 defines: simple keeps the body but reduces trailing empty lines to a single CRLF (and an empty body becomes CRLF); relaxed also drops line-end whitespace, reduces whitespace runs to one space, drops trailing empty lines, and completes a missing final CRLF unless nothing is left. Only CRLF ends a line; lone CR and lone LF are ordinary bytes.",
 ['inputs'],"all byte strings as bodies, in every chunking (the treatment of whitespace on an unterminated final line that has no other content is unspecified and excluded)",
 "Tests canonicalize about a dozen fixed strings; the canonicalizer is a byte state machine whose behaviour depends on every interleaving of CR, LF, WSP and other bytes.",
 [S+'canonicalize.rs'],[('byte state machine with pending empty-line counter','src/canonicalize.rs BodyCanonicalizer')],
 ['BodyCanonicalizer output','body hash results'],[('state','position within a line end or whitespace run','src/canonicalize.rs CanonState'),('empty_lines','pending empty lines','src/canonicalize.rs BodyCanonicalizer')])
p('C05','Chunking never matters, and a Done answer is final',
 "Results of signing, verifying and body hashing depend only on the concatenation of the body chunks fed in, not on how the body is cut (including empty chunks and cuts inside CRLF). Once feeding a chunk has answered that no more input is needed, feeding or omitting any further body content changes no result, and the answer stays the same.",
 ['inputs','histories'],"all bodies, all ways of cutting them into chunks, all sets of registered requests, all points at which Done is first answered and all continuations",
 "Tests feed a few bodies in one or two chunkings.",
 [S+'message_hash.rs',S+'canonicalize.rs',S+'crypto/hash.rs',S+'signer/mod.rs',S+'verifier/mod.rs'],
 [('stateful canonicalizers','src/canonicalize.rs'),('stance computation','src/message_hash.rs BodyHasher::hash_chunk'),('counting hasher','src/crypto/hash.rs CountingHasher')],
 ['process_body_chunk return value','finish results'])
p('C06','Signed header data is canonicalized and selected per RFC 6376',
 "For every header and every list of names, the data hashed contains, in the order of the list, for each listed name the bottom-most not yet used instance of that field (compared case-insensitively; the signature header itself is no such instance) and nothing for names without a remaining instance. Each instance appears in the canonical form of section 3.4.1 or 3.4.2 and is terminated by CRLF, and the signature header itself comes last, with its b= value emptied and without a trailing CRLF.",
 ['inputs'],"all header field lists with repeated names in any case, all name lists with repetitions, all field bodies",
 "Tests use a few fixed headers.",
 [S+'canonicalize.rs',S+'message_hash.rs',S+'verifier/verify.rs'],
 [('reverse scan with used-index set','src/canonicalize.rs canonicalize_headers'),('relaxed value canonicalization','src/canonicalize.rs canonicalize_header_relaxed')],
 ['canonicalize_headers','compute_data_hash','signatures checked with an independent verifier'])
p('C07','Simultaneous body hash requests are answered as if each were alone',
 "For any set of body hash requests (limit, hash, canonicalization) served in one pass over the body, each answer is the hash of the first so-many bytes of the canonical body with the number of bytes hashed, exactly as if that request had been the only one. A limit beyond the canonical body length is reported as insufficient input; with truncation forbidden, a limit short of it is reported as truncated input; a limit equal to it is neither.",
 ['inputs','configurations'],"all bodies, all sets of requests including limits at and around the canonical length, both truncation policies",
 "Tests register one or two requests on one body.",
 [S+'message_hash.rs',S+'crypto/hash.rs'],
 [('shared canonicalizers with per-request counting hashers','src/message_hash.rs BodyHasher')],
 ['BodyHashResults::get'])
p('C08','DKIM-Signature values parse exactly as the grammar says',
 "A DKIM-Signature value is accepted if and only if it is a well-formed tag list with no duplicate tags, all required tags, valid tag values, a signed From, an i= domain within d=, and an expiration after the timestamp; the parsed fields are then exactly the values that were written, with RFC defaults for absent tags and unknown tags kept in order. A rejected value is reported with an error kind naming a defect it really has, along with the raw a=, b=, d=, i= and s= values when the tag list itself is well-formed.",
 ['inputs'],"all header value strings (canonical base64 with padding; q= containing dns/txt)",
 "Tests parse a handful of strings; the accepted language is infinite and tags may come in any order with folding whitespace anywhere the grammar allows.",
 [S+'signature.rs',S+'tag_list.rs',S+'parse.rs',S+'quoted_printable.rs'],
 [('tag-list parser','src/tag_list.rs'),('tag interpretation and cross-checks','src/signature.rs from_tag_list_internal')],
 ['DkimSignature::from_str','DkimSignatureError'])
p('C09','Key records parse exactly as the grammar says',
 "A key record string is accepted if and only if it is a well-formed tag list without duplicates whose version tag, if present, comes first and is exactly DKIM1, whose p= is present and valid base64, whose key type is known, and whose hash, service and flag lists are well-formed with (for hashes and services) at least one recognised item. The parsed record holds exactly the written values, ignoring unrecognised list items, with RFC defaults for absent tags and unknown tags kept in order; a rejected record is reported with an error naming a defect it really has.",
 ['inputs','configurations'],"all TXT strings, with and without SHA-1 support compiled in",
 "Tests parse a handful of strings.",
 [S+'record.rs',S+'tag_list.rs',S+'quoted_printable.rs'],
 [('tag interpretation','src/record.rs DkimKeyRecord::from_tag_list')],
 ['DkimKeyRecord::from_str'])
p('C10','Signature headers produced are well-formed and honour the format',
 "Every signature header the signer outputs is a valid, CRLF-folded header field whose continuation lines start with exactly the requested indentation and are never blank, and which parses back to the signature data reported alongside it (domain names possibly in their other, ASCII or Unicode, form). Tags appear once each and in the requested order (a custom order being a total order); with ASCII-only output requested every byte is ASCII; lines stay within the requested width except where one value, or one header name, that is kept whole is itself too long for it, or by a single closing semicolon. Folding inside the value of an extension tag is the requester's own and is exempt from the indentation and width rules.",
 ['inputs','configurations'],"all accepted requests, including hostile header names, header bytes, identities, extension tags and line widths from 1 up",
 "Tests compare a few formatted headers with expected text.",
 [S+'signer/format.rs',S+'signer/sign.rs',S+'signer/mod.rs',S+'quoted_printable.rs'],
 [('line-filling formatter','src/signer/format.rs'),('request validation','src/signer/mod.rs validate_request')],
 ['SigningOutput.header_value','SigningOutput.signature'])
p('C11','The signer refuses unusable requests and tags reflect the request',
 "Signing preparation fails with the matching error, and only then, when the message has no From field, there are no requests or more than ten, or a request has a key of the wrong type, a manual selection without From or with a name containing a semicolon, an identity outside the domain, a validity below one second, malformed (for ASCII-only output also non-ASCII), duplicate or reserved extension tags, a wrong header name, or bad indentation. Otherwise each output's tags state exactly what was requested: algorithm, canonicalization, domain, selector, identity, timestamp, expiration equal to timestamp (or now) plus validity, body length equal to the bytes actually hashed when a length was asked for, body hash, extension tags, and copies of exactly the present fields whose names are signed when copying was requested.",
 ['inputs','configurations'],"all requests and request lists, valid and invalid in any single or combined way",
 "Tests try a few invalid requests and one or two valid ones.",
 [S+'signer/mod.rs',S+'signer/sign.rs'],
 [('eager validation','src/signer/mod.rs validate_request, prepare_signing'),('tag computation','src/signer/sign.rs perform_signing')],
 ['Signer::prepare_signing result','SigningOutput.signature'])
p('C12','Header coverage is as requested and policed as configured',
 "With automatic selection the signer covers every present instance of the default header set and nothing else, and with manual selection exactly the listed names in order; the selection helper yields exactly the matching instances bottom to top. A verifier reports a policy failure exactly when a required name is absent from h=, or a field that must not be unsigned occurs more often in the message than in h=, compared case-insensitively.",
 ['inputs','configurations'],"all headers with repeated fields, all selections, all required/forbidden lists",
 "Tests use fixed small headers.",
 [S+'signer/mod.rs',S+'signer/sign.rs',S+'verifier/header.rs'],
 [('select_headers','src/signer/mod.rs'),('validate_signed_headers','src/verifier/header.rs')],
 ['signature.signed_headers','PolicyError::RequiredHeaderNotSigned / UnsignedHeaderOccurrence'])
p('C13','Signature time limits are enforced exactly as configured',
 "Unless the configuration allows it, a signature fails as expired exactly when the current (or fixed) time has reached its expiration plus the tolerance, and as being in the future exactly when its timestamp lies later than the current time plus the tolerance. Signatures without these tags never fail for this reason, extreme values do not overflow, and the allowances affect only their own check.",
 ['inputs','configurations'],"all timestamps, expirations, tolerances, fixed times and allowance flags",
 "Tests try two or three instants.",
 [S+'verifier/header.rs',S+'verifier/mod.rs'],
 [('saturating comparisons in validate_signature','src/verifier/header.rs'),('current_timestamp','src/verifier/mod.rs')],
 ['PolicyError::SignatureExpired / TimestampInFuture'])
p('C14','Weak keys and SHA-1 are never accepted against policy',
 "A signature never passes with an RSA key whose modulus has fewer bits than the built-in minimum (1024, or 512 with pre-RFC 8301 support) or than the configured minimum, and key size alone never fails a key of at most 4096 bits that meets both; Ed25519 keys are not subject to it. SHA-1 signatures never pass unless pre-RFC 8301 support is compiled in and the configuration allows SHA-1.",
 ['inputs','configurations'],"all key sizes around the limits, all configured minimums, all algorithms, both feature sets",
 "Tests use one or two key sizes.",
 [S+'crypto/rsa.rs',S+'crypto/mod.rs',S+'verifier/header.rs',S+'signature.rs'],
 [('key size and minimum checks','src/crypto/mod.rs validate_min_key_size; src/verifier/header.rs validate_verifying_key'),('algorithm parsing','src/signature.rs SigningAlgorithm')],
 ['VerificationError::VerificationFailure(InsufficientKeySize)','PolicyError::KeyTooSmall / Sha1HashAlgorithm'])
p('C15','Body length limits are applied and policed exactly',
 "With a body length tag, exactly that many bytes of the canonical body are covered: content after it may change freely, content before it may not, and a message with less canonical content fails for insufficient content. When unsigned content is forbidden, a signature fails for that reason exactly when the canonical body is longer than its limit.",
 ['inputs','configurations'],"all bodies, all lengths from 0 past the canonical length, both policies, all chunkings",
 "Tests try one or two lengths.",
 [S+'message_hash.rs',S+'crypto/hash.rs',S+'verifier/mod.rs',S+'signer/sign.rs'],
 [('counting hasher with truncation flag','src/crypto/hash.rs; src/message_hash.rs')],
 ['VerificationError::InsufficientContent','PolicyError::UnsignedContent','BodyHashMismatch'])
p('C16','Key record restrictions bind',
 "A signature never passes under a key record that is revoked, is of another key type, excludes the signature's hash algorithm, or (with the no-subdomains flag) whose domain differs from the identity's domain; each case is reported by its own error. If a lookup returns several records, up to three are tried and the signature passes if any tried record verifies it, otherwise the last failure is reported along with the record it came from.",
 ['inputs','configurations','histories'],"all combinations of record restrictions and signatures, all multi-record answers",
 "Tests use a few single records.",
 [S+'verifier/header.rs',S+'verifier/query.rs',S+'record.rs'],
 [('validate_key_record','src/verifier/header.rs'),('record cycling','src/verifier/header.rs verify_task; src/verifier/query.rs look_up_records')],
 ['VerificationError::{KeyRevoked,WrongKeyType,DisallowedHashAlgorithm,DomainMismatch}','VerificationResult.key_record'])
p('C17','Key lookups go to the right name, once, only when needed, failures classed',
 "For every signature that is still undecided after its header checks exactly one TXT query per distinct selector and domain is made, for the absolute name selector._domainkey.domain. in ASCII form, and none is made for signatures already failed. An absent name or empty answer is reported as no key found, an unusable name as invalid key domain, a timeout as timeout, any other resolver error as a lookup failure, and an unreadable or non-UTF-8 record as a record format error.",
 ['inputs','fault_sequences'],"all sets of signatures sharing or not sharing selectors and domains in any case or IDNA form, all resolver outcomes",
 "Tests use a mock resolver with a few successful answers.",
 [S+'verifier/query.rs',S+'verifier/header.rs'],
 [('query deduplication','src/verifier/query.rs QueriesBuilder'),('error mapping','src/verifier/header.rs map_lookup_result_to_key_records')],
 ['names passed to LookupTxt','VerificationError'])
p('C18','Lookups are concurrent, and each is bounded by the lookup timeout',
 "A resolver that does not answer within the configured lookup timeout makes the affected signatures fail with the timeout error, no sooner than that timeout and without affecting other signatures. Lookups for different keys are in progress at the same time, so that verifying the header takes no longer than the slowest single lookup.",
 ['schedules','fault_sequences','configurations'],"all numbers of signatures, all resolver delays (including never answering) and orders of completion, all timeouts",
 "No test has a resolver with delays.",
 [S+'verifier/query.rs',S+'verifier/header.rs'],
 [('timeout around each lookup, joined lookups','src/verifier/query.rs spawn_all')],
 ['virtual time at which verify_header returns','resolver call/return events'])
p('C19','One result per signature, in order, each independent of the others',
 "Verification yields one result for each of the first so-many DKIM-Signature fields from the top (the configured maximum), in header order, each carrying the position of its field in the header, with the parsed signature attached whenever it parsed; with none there is no verifier. Each result is what that signature would get if it were the only one in the message, whatever the other signatures are.",
 ['inputs','configurations'],"all messages with any mix of valid, invalid, malformed and duplicated signatures, all limits",
 "Tests verify one or two signatures together.",
 [S+'verifier/mod.rs',S+'verifier/header.rs',S+'message_hash.rs'],
 [('task list per signature','src/verifier/header.rs find_signatures'),('final status assembly','src/verifier/mod.rs finish')],
 ['Vec<VerificationResult>'])
p('C20','Every outcome maps to the proper RFC 8601 result',
 "The summary result is pass exactly for success, fail exactly for cryptographic or body hash mismatch, policy exactly for local policy failures, temperror exactly for lookup failures and timeouts; unparseable or unsupported input is neutral, and signatures or records that violate the protocol are permerror. No failing verification ever maps to pass or none, and printed names are the RFC 8601 keywords.",
 ['inputs'],"all verification outcomes, as values and as reached by real verifications",
 "Tests map one or two values.",
 [S+'verifier/mod.rs'],[('to_dkim_result','src/verifier/mod.rs')],
 ['VerificationStatus::to_dkim_result','DkimResult Display'])
p('C21','Encodings round-trip',
 "Decoding what was encoded gives back the original bytes, for quoted-printable (any protected character, ASCII-only or not, with folding whitespace inserted between encoded characters) and for base64; encoded text uses only characters that are safe in a tag value. Malformed quoted-printable and malformed base64 (bad characters, bad padding) are rejected, and every algorithm and canonicalization keyword parses back to the value that printed it; result keywords print as RFC 8601 spells them.",
 ['inputs'],"all byte strings and all encoder options, all strings for the decoders",
 "Tests encode and decode a few fixed strings.",
 [S+'quoted_printable.rs',S+'util.rs',S+'signature.rs'],
 [('encode/decode','src/quoted_printable.rs'),('base64 helpers','src/util.rs')],
 ['quoted_printable::{encode,encode_ascii_only,decode,decode_qp_section}','encode_base64/decode_base64','Display/FromStr'])
p('C22','Domain names, selectors and identities are validated and compared properly',
 "A domain name or selector is accepted exactly when its ASCII form is a valid host-style name (labels of 1 to 63 letters, digits, hyphens and underscores without hyphens at the ends, at most 253 in total, for domains no all-numeric final label) and can be converted both ways; conversions preserve identity, and comparison and hashing ignore ASCII case. A name counts as equal to or below another exactly when its ASCII labels end in the other's labels; an identity is accepted exactly when it is an optional valid local-part of at most 64 bytes, an @ and a valid domain, and prints back to the same text.",
 ['inputs'],"all strings",
 "Tests try a few names.",
 [S+'signature.rs'],[('is_valid_domain_string, eq_or_subdomain_of, Identity::new','src/signature.rs')],
 ['DomainName','Selector','Identity'])
p('C23','No input crashes or hangs the library',
 "No message, signature header, key record, resolver answer, request or chunk sequence makes the library panic, abort, overflow an integer, read out of bounds or run away in time; every input is answered by a result or an error. This holds for each public entry point on its own as well as for complete signing and verification.",
 ['inputs','configurations'],"all byte strings and values at every public entry point",
 "Tests use well-behaved inputs.",
 [S+'lib.rs',S+'verifier/mod.rs',S+'signer/mod.rs',S+'tag_list.rs',S+'quoted_printable.rs',S+'signer/format.rs',S+'header.rs'],
 [('total parsers; validated invariants before unwrap/assert','whole crate')],
 ['panics, aborts and CPU time per call'])
p('C24','Memory stays bounded while a body is streamed',
 "Signing or verifying a message body of any size fed in chunks retains memory that does not grow with the amount of body processed, whatever the body content, number of requests and limits. Dropping or finishing a signer or verifier releases what it held.",
 ['inputs','histories'],"all body lengths and contents, all chunk sizes, all request sets",
 "No test measures memory.",
 [S+'message_hash.rs',S+'canonicalize.rs',S+'crypto/hash.rs'],
 [('counters instead of buffers for pending empty lines and whitespace','src/canonicalize.rs')],
 ['live heap bytes between chunks (counting allocator)'])
p('C25','Header fields are validated, parsed, compared and preserved faithfully',
 "A field name is accepted exactly when it is non-empty printable ASCII without colon, and compares and hashes ignoring case; a field body is accepted exactly when it has no control characters but tab, and breaks lines only by CRLF followed by whitespace and something other than whitespace. Header text parses into exactly its fields in order with bodies byte for byte (line ends normalised to CRLF), header collections are never empty, and all conversions preserve content and order.",
 ['inputs'],"all byte strings and all field lists",
 "Tests parse one or two headers.",
 [S+'header.rs'],[('FieldName::new, FieldBody::new, HeaderFields::from_str','src/header.rs')],
 ['FieldName','FieldBody','HeaderFields'])
p('C26','Key decoding and signature primitives agree with independent implementations',
 "RSA public keys are read from both SubjectPublicKeyInfo and RSAPublicKey form and Ed25519 keys from both raw and SubjectPublicKeyInfo form, giving the key that was encoded, and private keys from PKCS#8 PEM; other or damaged key data is rejected with an error. Signatures made are accepted by an independent implementation of RSASSA-PKCS1-v1_5 or Ed25519 for the same digest, a signature is accepted for exactly the digest, key and algorithm it was made with, and any changed digest, signature or key is rejected.",
 ['inputs'],"all keys, digests and signature byte strings",
 "Tests use one or two keys and digests.",
 [S+'crypto/mod.rs',S+'crypto/rsa.rs',S+'crypto/ed25519.rs',S+'crypto/hash.rs'],
 [('format fallbacks','src/crypto/rsa.rs read_rsa_public_key; src/crypto/ed25519.rs read_ed25519_verifying_key'),('PKCS#1 v1.5 with digest prefix','src/crypto/rsa.rs')],
 ['crypto::* functions','SigningKey::from_pkcs8_pem'])
p('C27','Concurrent sessions do not influence one another',
 "Any number of signing and verification sessions may run at the same time, on several threads or interleaved on one, sharing keys, configuration, headers and resolver, and each gives the result it gives when run alone. Sessions, their futures and results may move between threads, and keys, headers, configuration and results may be shared between them.",
 ['schedules','histories'],"all interleavings of any number of sessions over shared inputs",
 "Tests run single sessions.",
 [S+'signer/mod.rs',S+'verifier/mod.rs',S+'verifier/query.rs',S+'message_hash.rs'],
 [('no shared mutable state; owned per-session state','whole crate')],
 ['results of concurrent runs against solo runs'])
p('C28','Conforming signatures by other implementations verify',
 "A message signed in any way RFC 6376 and RFC 8463 allow verifies: any tag order, any folding whitespace the grammar permits, optional tags present or absent, any case of tag values that are case-insensitive, unknown tags, header names listed in h= in any case, repeatedly or without instance, key records in any permitted form and order of tags, and public keys in either encoding.",
 ['inputs'],"all conforming foreign signatures and key records over all messages",
 "Tests verify a few fixed messages produced by one or two signers.",
 [S+'verifier/mod.rs',S+'verifier/verify.rs',S+'verifier/header.rs',S+'signature.rs',S+'record.rs',S+'canonicalize.rs'],
 [('independent parsing and b= removal of the received header','src/verifier/verify.rs make_original_dkim_sig')],
 ['VerificationResult.status'])
p('C29','The documented defaults are in force',
 "A verifier with the default configuration behaves as documented: lookups time out after 10 seconds, at most 10 signatures are judged, no header but From is required to be signed and no occurrence of From may go unsigned, keys of 1024 bits are the smallest accepted, SHA-1 and expired or future signatures are refused with a tolerance of five minutes, content beyond the signed length is allowed, and the time is the actual time. A signing request left as constructed, with the default output format, signs the default set of header fields with relaxed/simple canonicalization, the actual time, an expiration five days later, no length, identity, copied headers or extra tags, in lines of at most 78 characters indented by a tab, with names in Unicode; what is left at its default gives the same as when it is spelled out.",
 ['inputs','configurations'],"all messages, signatures, key records and answers under the default configuration; all messages and keys under default requests",
 "Tests check one or two defaults on one message each, and never at their limits.",
 [S+'verifier/mod.rs',S+'signer/mod.rs',S+'signer/format.rs'],
 [('Default for Config','src/verifier/mod.rs'),('SignRequest::new, Default for OutputFormat, default_signed_headers','src/signer/mod.rs')],
 ['results of verification with Config::default()','signatures of SignRequest::new requests'])
p('C30','Private keys do not leak into anything the library prints or logs',
 "Nothing the library produces contains secret parts of a signing key (RSA private exponent, primes and what derives from them; Ed25519 seed and scalar) in any customary encoding: not signature headers and their data, not results and errors, not the debug text of keys, requests and results, not the trace log, whether signing or reading a key succeeds or fails.",
 ['inputs','histories'],"all keys, requests and messages, including unusable ones",
 "No test looks at log or debug text.",
 [S+'crypto/mod.rs',S+'signer/mod.rs',S+'signer/sign.rs'],
 [('Debug for SigningKey','src/crypto/mod.rs'),('trace logging of signing','src/signer/sign.rs')],
 ['all text printed or logged, searched for the secrets'])
p('C31','Logging and printing never disturb processing',
 "With trace logging on, signing and verifying give the results and make the lookups they give and make with logging off, and never panic or hang. Every value, result and error the library returns can be printed at any time, with any formatting flags: printing does not panic, gives the same text again, and an error and each of its causes has a text.",
 ['inputs','configurations'],"all messages, requests, configurations and values, with and without a trace subscriber",
 "Tests run without a subscriber and do not print, so that what is only evaluated then never runs.",
 [S+'signer/sign.rs',S+'verifier/mod.rs',S+'verifier/header.rs',S+'verifier/verify.rs',S+'verifier/query.rs',S+'signature.rs',S+'record.rs',S+'header.rs',S+'util.rs'],
 [('trace! calls','src/signer/sign.rs; src/verifier/'),('Display, Debug and Error::source','whole crate')],
 ['results with and without a subscriber','printed text'])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
