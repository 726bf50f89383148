"""Writes rules.json: what each check counts, requires to have observed, and assumes."""
import json, os
R = {}
def r(id, rule, events, assumptions=(), min_distinct=1000):
    R[id] = dict(rule=rule + ' Distinct by content, counted per build variant.', events=events,
                 assumptions=list(assumptions), min_distinct=min_distinct)
MODEL = "the harness's own model of RFC 6376 (harness/src/model.rs, refv.rs) is right where the RFC is clear; where it is not, either reading is accepted"
CRYPTO = 'sha2 and the big-integer arithmetic the model uses are right'
r('C01', 'Random messages, keys and signing requests, signed and then verified; non-trivial: a signature that was produced and put to verification.',
  ['verified', 'with copied headers', 'exact length', 'several signatures verified together', 'signature over signatures', 'non-ASCII signature'],
  ['the verifier configuration is one the signature should satisfy'])
r('C02', 'Signed messages with one or more alterations; non-trivial: an alteration the model says changes the signed data (or a key that is not the signing key).',
  ['change noticed', 'change: body byte changed', 'change: field value changed', 'change: tag repeated', 'change: like-named field added', 'change: field removed', 'noticed as BodyHashMismatch', 'noticed as VerificationFailure(VerificationFailure)'],
  [MODEL, 'no hash collisions are met'])
r('C03', 'Signed messages with compositions of changes that canonicalization ignores; non-trivial: message actually differs and the model says the signed data is the same.',
  ['change tolerated', 'change: b= refolded', 'change: equivalent body', 'change: field added on top', 'change: fields refolded and names recased', 'change: content beyond signed length replaced', 'change: empty lines appended'], [MODEL])
r('C04', 'Bodies (all short strings over the byte classes, random, large) in random chunkings; non-trivial: every canonical form compared with the model, by body and algorithm.',
  ['canonical form compared', 'bytes canonicalized'], [MODEL, 'white space on an unterminated final line with no other content: two forms accepted'])
r('C05', 'Bodies cut in several ways, fed on with the same, other, empty or no content after Done; non-trivial: each cut whose results are compared.',
  ['cut compared', 'done, rest fed', 'done, other content fed', 'done, rest omitted', 'done, empty chunks fed', 'signing results compared'])
r('C06', 'Headers, name lists and signatures; non-trivial: each canonical header, hash or signature compared with the model.',
  ['value canonicalized', 'instances selected', 'data hash compared', 'signature over specified data accepted', 'signature over other data refused', 'signature checked independently'], [MODEL, CRYPTO])
r('C07', 'Sets of body hash requests answered in one pass; non-trivial: each set and body compared with the model.',
  ['hash', 'truncated input', 'insufficient input', 'done before end of input', 'counting hasher finished'], [MODEL, CRYPTO])
r('C08', 'Signature values generated from the grammar, with one odd tag, mutated, or odd in structure, compared with an independent parser in acceptance, error class and every field; non-trivial: each value compared.',
  ['accepted', 'rejected TagListFormat', 'rejected InvalidBase64', 'rejected DomainMismatch', 'accepted with z', 'accepted with l', 'rejected InvalidCopiedHeaderField'],
  [MODEL, 'IDNA conversion is the idna crate\'s'])
r('C09', 'Key record texts generated from the grammar, with odd values, mutated, or odd in structure, compared with an independent parser; non-trivial: each text compared.',
  ['accepted', 'rejected TagListFormat', 'rejected InvalidBase64', 'accepted with flags', 'accepted with notes', 'accepted with empty key', 'rejected NoSupportedHashAlgorithms'], [MODEL])
r('C10', 'Signature headers produced for random requests and formats, checked by an independent parser and line scanner; non-trivial: each header checked.',
  ['header checked', 'continuation line', 'custom tag order', 'ASCII-only output', 'line within width'], [MODEL, 'custom tag orders are total orders'])
r('C11', 'Signing requests with defects, and outputs compared tag by tag with what was requested; non-trivial: each request judged.',
  ['accepted', 'refused MissingFromHeader', 'refused InvalidExtTags', 'refused DomainMismatch', 'refused IncompatibleKeyType', 'output checked', 'expiration checked', 'copied headers checked'], [MODEL])
r('C12', 'Header selections, and verifier policies on signed headers, compared with the model; non-trivial: each selection or verdict compared.',
  ['names covered', 'instances yielded', 'result Policy(RequiredHeaderNotSigned)', 'result Policy(UnsignedHeaderOccurrence)', 'covered instance changed', 'uncovered instance changed'], [MODEL])
r('C13', 'Signatures with times around the limits, verified at a fixed or the actual time; non-trivial: each verdict compared with the model.',
  ['exactly at expiration', 'exactly at timestamp limit', 'actual clock', 'result Policy(SignatureExpired)', 'result Policy(TimestampInFuture)', 'result Success'], [MODEL])
r('C14', 'Signatures by keys of sizes around the limits, and SHA-1 signatures; non-trivial: each verdict compared with the model.',
  ['result Success', 'result VerificationFailure(InsufficientKeySize)', 'result Policy(KeyTooSmall)', 'SHA-1 signature', 'key rsa1024', 'key rsa1023'], [MODEL, CRYPTO])
r('C15', 'Signatures with l= around the body length, verified with random policies and changed bodies; non-trivial: each verdict compared with the model.',
  ['result Success', 'result InsufficientContent', 'result Policy(UnsignedContent)', 'result BodyHashMismatch', 'changed body: Success'], [MODEL])
r('C16', 'Signatures verified against random sets of key records; non-trivial: each verdict compared with the model.',
  ['result Success', 'result DomainMismatch', 'result WrongKeyType', 'result KeyRevoked', '3 records, usable', 'result KeyRecordFormat(NoSupportedHashAlgorithms)'], [MODEL, CRYPTO])
r('C17', 'Messages with several signatures; every lookup made is recorded and compared with the set expected, and results with the model; non-trivial: each message judged.',
  ['queries', 'signatures sharing a query', 'signatures without query', 'result KeyLookup', 'result Timeout', 'result NoKeyFound', 'result InvalidKeyDomain'], [MODEL])
r('C18', 'Messages with several signatures whose lookups take chosen virtual times or never end; completion time and order of lookup events are checked; non-trivial: each schedule.',
  ['queries', 'result Timeout', 'lookups given up', '5 lookups at the same time', 'abandoned', 'completed'], ["tokio's paused clock stands for time"])
r('C19', 'Messages with several good and bad signatures, results compared with those of each signature alone; non-trivial: each message judged.',
  ['compared with alone', 'result Success', '4 of 4 signatures'], [MODEL], 500)
r('C20', 'Messages provoking every outcome, and the whole table of errors; non-trivial: each result mapped and compared with an independent table.',
  ['dkim=pass', 'dkim=fail', 'dkim=neutral', 'dkim=policy', 'dkim=temperror', 'dkim=permerror'], ['the table of RFC 8601 results in the harness'], 500)
r('C21', 'Byte strings encoded and decoded again, and texts compared with an independent decoder; non-trivial: each string.',
  ['round trips', 'base64 round trips', 'decoded', 'malformed rejected', 'keywords read', 'keywords printed'], [MODEL])
r('C22', 'Names and identities compared with independent rules; non-trivial: each name or pair.',
  ['DomainName accepted', 'DomainName rejected', 'identity accepted', 'identity rejected', 'below', 'not below', 'international name', 'Selector accepted'], ['IDNA conversion is the idna crate\'s'])
r('C23', 'Hostile and malformed input to every public entry point, with overflow and debug assertions on, watched for panics, crashes and runaway processor time; non-trivial: each distinct input.',
  ['signature rejected', 'record rejected', 'signature accepted', 'field body accepted', 'header accepted', 'signed', 'answers', 'key data rejected', 'large field'], ['stated preconditions of the API are kept', 'a case that takes over 60 s of processor time counts as not ending; no other time bound is claimed'])
r('C24', 'Bodies of megabytes streamed into signers, verifiers, hashers and canonicalizers, live heap measured by a counting allocator after each chunk, and sessions dropped at any stage; non-trivial: each session.',
  ['megabytes streamed', 'signer', 'verifier', 'body hasher', 'canonicalizer', 'signer dropped at stage 3'], ['memory is allocated through the global allocator'])
r('C25', 'Names, bodies, header texts and collections compared with independent rules; non-trivial: each distinct input.',
  ['name accepted', 'name rejected', 'body accepted', 'body rejected', 'text accepted', 'collection accepted', 'collection rejected', 'equal names', 'many lines'], [MODEL])
r('C26', 'Keys, digests and signatures, good and damaged, judged by independent implementations of RSA (PKCS #1 v1.5) and Ed25519; non-trivial: each key or signature judged.',
  ['signature accepted', 'changed signature rejected', 'signature with another key rejected', 'signature of another digest rejected', 'read rsa1024', 'read ed_a', 'rejected InvalidPemDocument'], [CRYPTO, 'Ed25519 points of small order are excluded'])
r('C27', 'Sessions interleaved on one thread, run on several at once, and moved between threads, each compared with the same session alone; non-trivial: each distinct interleaving or set of sessions. In the thorough tier also under ThreadSanitizer.',
  ['verifications compared', 'signings compared', 'sessions compared', 'moves', 'steps', 'sessions compared with a fresh process'], ['thread schedules are those the machine produces'], 500)
r('C28', 'Signatures made by an independent signer in many layouts; non-trivial: each message verified.',
  ['result Success', 'folding whitespace 100%', 'key rsa1024', 'key rsa4096', 'key ed_a'], [MODEL, CRYPTO])
r('C29', 'Messages verified with the default configuration, compared with a reference verifier configured as documented, and requests left at their defaults compared with the same spelled out; non-trivial: each message or signature judged.',
  ['number of signatures', 'duration of lookups', 'expiration', 'timestamp', 'actual clock', 'key size', 'SHA-1', 'body length', 'From instances', 'unsigned fields', 'signed', 'timestamp of now', 'verified at once', 'result Timeout', 'result Policy(SignatureExpired)'], [MODEL])
r('C30', 'Keys, requests and sessions, good and failing, whose every text (headers, results, errors, debug text, trace log) is searched for pieces of the private keys involved; non-trivial: each key or session. That the search finds a printed key is checked for every key.',
  ['keys', 'damaged keys', 'signatures', 'log events', 'refused'], ['encodings searched for: decimal, hexadecimal, byte and word lists, Base64'])
r('C31', 'Sessions run with and without a trace subscriber and compared, and values and errors of all types printed; non-trivial: each session with log events, and each set of values.',
  ['log events', 'verified', 'signed', 'values printed', 'errors with 0 causes', 'errors with 1 causes'])
json.dump(R, open(os.path.join(os.path.dirname(__file__), '..', 'rules.json'), 'w'), indent=1, ensure_ascii=False)
