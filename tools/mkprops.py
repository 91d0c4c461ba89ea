#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
L='oauth1-request/src/'
AUTH=L+'serializer/auth.rs'; URL=L+'serializer/urlencode.rs'; PCT=L+'util/percent_encoding.rs'; LIB=L+'lib.rs'
SM=L+'signature_method.rs'; DC=L+'signature_method/digest_common.rs'; HM=L+'signature_method/hmac_sha1.rs'
PT=L+'signature_method/plaintext.rs'; EI=L+'signature_method/either.rs'; RSA=L+'signature_method/rsa_sha1.rs'
PL=L+'request/parameter_list.rs'; RQ=L+'request.rs'; OP=L+'util/oauth_parameter.rs'; RC=L+'serializer/recorder.rs'
OC='oauth-credentials/src/lib.rs'; SD='oauth-credentials/src/serde_imp.rs'
DV='oauth1-request-derive/src/'

p('C01','Signature base string is exactly the one RFC 5849 section 3.4.1 defines',
 'For every HTTP method, query-less base URI, sorted list of request parameters with URI-safe names, credentials and choice of optional OAuth parameters, the data fed to the signature algorithm is exactly the RFC 5849 signature base string: percent-encoded method, "&", percent-encoded URI, "&", then the percent-encoded normalized parameter string. That string contains every request parameter and every oauth_* parameter that is sent (never oauth_signature), each once, values encoded twice in total (once for parameters supplied as already encoded), names and values sorted, joined by encoded "=" and "&".',
 ['inputs','configurations'],'all methods, URIs, parameter lists, credentials, nonce/timestamp/callback/verifier/version choices, header/form/query output modes',
 'Unit tests compare a handful of fixed ASCII requests; a byte value, a position of a parameter relative to oauth_*, an option combination or a value length outside those samples is never looked at.',
 [AUTH,SM,DC,PCT,RQ,OP],[('signing of each serialized parameter',AUTH),('double percent encoding',PCT),('interleaving of oauth_* parameters',RQ)],
 ['calls received by a user-defined signature algorithm','HMAC-SHA1 signature value'])

p('C02','HMAC-SHA1 signatures equal HMAC-SHA1 over the base string with the RFC key',
 'For every request, credentials of any length and any characters, with or without a token, the oauth_signature produced under HMAC-SHA1 is the percent-encoded Base64 of HMAC-SHA1 computed with the key "percent-encoded client secret & percent-encoded token secret" over the request\'s base string. This holds for keys shorter than, equal to and longer than the 64-byte hash block, and the text after "&" is empty when there is no token.',
 ['inputs'],'all client/token secrets (any byte values, lengths across the hash block boundary), all requests',
 'The tests sign a few fixed requests with short ASCII secrets; keys of exactly 64 or 65 encoded bytes, secrets whose encoding straddles the block, and reserved or non-ASCII characters are not sampled.',
 [HM,DC,SM],[('incremental signing key with block-size switch',HM),('key layout',SM),('base64 + percent encoding of the digest',DC)],
 ['oauth_signature in the Authorization header'])

p('C03','PLAINTEXT signatures are the RFC key text, correctly encoded on the wire',
 'Under PLAINTEXT, the oauth_signature value a server decodes from the Authorization header, form body or query string is exactly "percent-encoded client secret & percent-encoded token secret" (nothing after "&" without a token), for all secrets and any output buffer type. The value as transmitted is percent-encoded like any other parameter, so it never contains a raw "&" or other reserved character.',
 ['inputs','configurations'],'all client and token secrets, token present or absent, header/form/query output',
 'The tests never decode a PLAINTEXT signature from an output; which secrets contain which reserved characters is an input question.',
 [PT,SM,AUTH],[('signing key as signature',PT)],['oauth_signature in each output form'])

p('C04','Authorization header is well formed and cannot be injected into',
 'For every input, the Authorization value is "OAuth " followed by comma-separated name="value" pairs in which every byte of a value is an unreserved URI character or part of an upper-case %XX escape. It contains oauth_consumer_key, oauth_signature_method and oauth_signature (last) exactly once, each optional oauth_* parameter exactly once if and only if it is set or generated, nothing else (in particular no request parameter), and each value percent-decodes to the supplied string.',
 ['inputs','configurations'],'all identifier, nonce, verifier, callback, token and parameter strings (including quotes, commas, control and non-ASCII characters), all option subsets',
 'Existing tests assert a few complete header strings with benign values; they cannot show that no value can break out of its quotes or that no option subset drops or repeats a parameter.',
 [AUTH,PCT,LIB],[('header pair writer',AUTH),('percent encoding',PCT)],['return value of the authorize family'])

p('C05','Signed form and query outputs carry every request and OAuth parameter',
 'For every request, the signed x-www-form-urlencoded output is a "&"-joined list of name=value pairs containing each request parameter, each applicable oauth_* parameter and finally oauth_signature, each exactly once and in the order they were serialized. The signed query output is the given URI unchanged, followed by "?" and that same list.',
 ['inputs','configurations'],'all requests, URIs, credentials and option subsets, with and without request parameters before/after the oauth_* ones',
 'No test in the repository checks the output of a signed form or query at all.',
 [AUTH,URL,LIB],[('forwarding parameters to the urlencoder while signing',AUTH),('delimiter state machine',URL)],['return value of the to_form/to_query family of the builder'])

p('C06','What is sent is what was signed: a server can verify every request',
 'A verifier that sees only what goes over the wire (method, URI, request parameters, and the produced header, form body or query string) and the shared secrets, and that decodes, re-normalizes and signs as RFC 5849 prescribes, computes exactly the transmitted oauth_signature. This includes generated nonces and timestamps: the transmitted values are the signed ones.',
 ['inputs','configurations'],'all requests (including repeated names and any value characters), credentials, options and output modes',
 'Unit tests compare against precomputed client-side outputs, so an inconsistency between signed and transmitted data that is not in the sample is invisible.',
 [AUTH,RQ,PL,PCT],[('same value feeds output and signature',AUTH),('parameter ordering',PL)],['produced output + independent verifier'])

p('C07','Percent encoding is exact for every string and every way of formatting it',
 'Every parameter value is transmitted with ASCII letters, digits, "-", ".", "_" and "~" unchanged and every other byte as "%" and two upper-case hex digits, whatever its length, neighbours, or the pieces in which its Display implementation emits it; values declared as already encoded are passed through verbatim. Decoding the transmitted value yields the original text.',
 ['inputs'],'all Unicode strings (every byte value, 1- to 4-byte characters, any run structure) and all splits of the text into separate writes',
 'Tests check the single-byte tables, not runs, boundaries between encoded and plain runs, or values written in several pieces.',
 [PCT,URL,AUTH],[('encode map and run scanner',PCT)],['form, query and header output; base string'])

p('C08','A parameter list is always sorted and never loses or alters a parameter',
 'After any history of constructing a parameter list from an unsorted or sorted collection, collecting into it, extending it and defaulting it, its entries are exactly the multiset of entries put in, ordered by name and then by encoded value in byte order as RFC 5849 section 3.4.1.3.2 requires. Constructing from a collection claimed to be sorted succeeds if and only if it is sorted in that order.',
 ['inputs','histories'],'all entry collections (duplicates, prefixes, reserved and non-ASCII values, non-string Display values) and sequences of construct/extend operations',
 'Only a documentation example with three entries exercises the order; the comparison must be right for every pair of names and values.',
 [PL],[('sort and comparison',PL),('sortedness check',PL)],['iter/as_ref/into_inner and serialized output'])

p('C09','Every request type feeds all its parameters and each OAuth parameter once',
 'Serializing any sorted request (parameter list, sorted iterator, empty request, optional request, or references to them) calls the serializer with exactly its parameters in order, each of the eight OAuth parameters exactly once, the whole sequence in ascending order of names, and then finishes it once. An absent optional request behaves exactly like the empty request.',
 ['inputs','configurations'],'all sorted parameter lists, with names anywhere before, between, equal to and after the oauth_* names',
 'Tests use one or two fixed lists; where the OAuth names fall among arbitrary names is decided by string comparisons over all names.',
 [RQ,OP,L+'serializer.rs',PL],[('merge of request and OAuth names',RQ),('OAuth parameter order',OP)],['calls received by a user-defined serializer'])

p('C10','Derived requests serialize exactly the declared fields',
 'For a struct deriving the request trait, whatever its field values, each field that is not skipped is serialized exactly once under its (renamed, or raw-identifier-stripped) name in byte order, with its Display or custom-format text, encoded unless marked encoded; None fields and fields whose skip predicate holds are left out. The oauth_* parameters appear once each at their sorted position.',
 ['inputs','programs'],'all values of every field, over a corpus of struct definitions covering every attribute, their combinations, generics, lifetimes, raw identifiers and names around oauth_*',
 'The derive tests check one value per struct; presence/absence patterns across fields and the value text are quantified over all inputs.',
 [DV+'method_body.rs',DV+'method_body/helper.rs',DV+'field.rs',DV+'meta.rs',DV+'lib.rs',DV+'util/oauth_parameter.rs'],[('generated serialize body',DV+'method_body.rs')],['calls received by a user-defined serializer; to_form output'])

p('C11','Builder setters: last value wins, and authorizing does not disturb the builder',
 'After any sequence of setter calls (token, callback, verifier, nonce, timestamp, version; each may be set or unset repeatedly, interleaved with authorizations) the next output is the one obtained by setting only the final values on a fresh builder. Authorizing any number of times with fixed nonce and timestamp gives identical results and changes no later result.',
 ['histories','inputs'],'all sequences of setter and authorize operations up to a length bound, all values',
 'Tests set each option at most once and authorize once per builder.',
 [LIB,L+'util.rs',AUTH],[('option setters',L+'util.rs'),('builder setters',LIB)],['return values of authorize/to_form/to_query'])

p('C12','All equivalent entry points produce the same signed request',
 'For every input, each method-specific shorthand of the builder and of the crate root signs under its own HTTP method, and the consuming, caller-supplied-buffer, free-function and low-level serializer variants produce the same text as the plain call with the same arguments (appended to the buffer where one is given). Constructing a builder from a token equals constructing it from client credentials and then setting the token.',
 ['inputs','configurations'],'every public authorizing entry point, all arguments',
 'Only a few of the roughly forty entry points are called by any test.',
 [LIB,AUTH],[('shorthand macros',LIB),('variant constructors',AUTH)],['return values of every entry point'])

p('C13','Generated nonces are safe, fresh and keep all their entropy',
 'When no nonce is given, each authorization draws new randomness and the transmitted oauth_nonce is a non-empty string of unreserved ASCII characters that is an injective function of at least 64 random bits, so distinct draws give distinct nonces. A user-specified nonce is used verbatim instead and no randomness then enters the output.',
 ['inputs','histories'],'all values returned by the random source, all sequences of authorizations on one builder',
 'Tests always fix the nonce; generated ones are random and their encoding is never checked for all random values.',
 [AUTH],[('nonce generation',AUTH)],['oauth_nonce in output with a modelled random source'])

p('C14','Timestamps are positive seconds since the epoch and overridable',
 'When no timestamp is given, oauth_timestamp is the current system time in whole seconds since the Unix epoch written in decimal without leading zeros, and always a positive integer whatever the clock says (including at or before the epoch). A user-specified timestamp is transmitted and signed as given, for every non-zero 64-bit value.',
 ['inputs'],'all clock readings, all explicit timestamps',
 'Tests fix the timestamp to a constant; the clock path and boundary readings are never exercised deterministically.',
 [AUTH],[('current timestamp',AUTH)],['oauth_timestamp in output with a modelled clock'])

p('C15','Debug output never reveals shared secrets',
 'Formatting credentials, tokens or a builder with Debug (plain or pretty) gives output that does not depend on any shared secret, for all identifiers and secrets, while the identifiers remain visible.',
 ['inputs'],'all secrets and identifiers, both formatting modes, all credential-bearing types',
 'Non-interference relates two runs with different secrets; a test looks at one secret at a time.',
 [OC,LIB],[('hidden secret in Debug',OC)],['text produced by Debug'])

p('C16','Credential and token conversions never swap or alter their parts',
 'Every constructor, accessor, reference conversion and map on credentials and tokens keeps client identifier, client secret, token identifier and token secret each in its own place, applies the mapping function exactly once to each part it should transform and leaves the others untouched.',
 ['inputs','histories'],'all four strings, all conversions and compositions of them',
 'Tests construct tokens but never check all accessors after conversions for arbitrary strings.',
 [OC],[('conversions',OC)],['public fields and accessors'])

p('C17','Serialized credentials round-trip and malformed ones are rejected',
 'Deserializing credentials from a map succeeds exactly when the map has exactly one oauth_token and exactly one oauth_token_secret entry, in any order and among any other entries, and then yields those two values; duplicates and omissions are reported as errors naming the field. An error the format itself reports is returned, never taken for the end of the map. Serializing then deserializing gives the original credentials.',
 ['inputs','histories'],'all sequences of map entries with arbitrary key text (delivered as strings or bytes) and values',
 'Doc tests deserialize one well-formed response; orders, duplicates, near-miss names and missing fields are not sampled.',
 [SD],[('field visitor and map loop',SD)],['Deserialize/Serialize through a user-defined format'])

p('C18','A runtime-chosen signature method behaves exactly like the chosen one',
 'A signature method selected at run time between two alternatives gives, for every request, the same output as using the chosen alternative directly, including for user-defined methods that override any of the optional hooks (parameter-specific feeds, nonce and timestamp use).',
 ['inputs','configurations'],'all requests, both alternatives, all user-defined overrides',
 'No test uses the run-time choice with anything but default hooks.',
 [EI],[('delegation',EI)],['output and calls received by the chosen algorithm'])

p('C19','User-defined signature methods see a coherent protocol',
 'For every request, a user-defined signature algorithm receives the method first, then the URI, then each parameter with exactly one delimiter between consecutive parameters, through the parameter-specific feeds for oauth_* parameters, and is finished once. When it declares that it does not use nonces (or timestamps), that parameter is neither fed to it nor sent; and the method name it reports is the one sent and signed.',
 ['inputs','configurations'],'all requests and options, all combinations of nonce/timestamp use and overridden feeds',
 'The only custom algorithm in the tests prints its calls and checks nothing.',
 [SM,AUTH],[('default hooks',SM),('signing order',AUTH)],['calls received by a user-defined signature algorithm'])

p('C20','Misuse is detected in debug builds and valid use never panics',
 'In debug builds, authorizing panics if and only if the URI contains a "?", or (checked where an allocator is available) parameters are serialized out of order (a later name smaller than an earlier one). For every other input, of any length and characters (as long as buffers and values report no errors), no entry point panics, overflows or accesses memory out of bounds, in debug or release builds, and all text produced is valid UTF-8.',
 ['inputs','configurations'],'all URIs, names, values and credentials; debug and release builds',
 'Two panic cases are sampled; absence of panics and of undefined behaviour in the unchecked conversions is a statement about all inputs.',
 [AUTH,PCT,HM],[('query check and order check',AUTH),('unchecked UTF-8 conversions',PCT)],['panic or normal return of every entry point'])

p('C21','RSA-SHA1 signs the request base string and ignores shared secrets',
 'Under RSA-SHA1 (either supported key crate version), oauth_signature is the percent-encoded Base64 of the RSASSA-PKCS1-v1_5 SHA-1 signature, made with the given private key, of exactly the request\'s base string, and it does not depend on the client or token secret.',
 ['inputs','configurations'],'all requests and secrets for a fixed key',
 'One fixed request per key version is tested.',
 [RSA,DC],[('digest feeding and signing',RSA)],['oauth_signature in the output'])

p('C22','Recorded histories are faithful and their equality is exact',
 'The recording serializer returns exactly the sequence of operations performed on it with their names and value texts. Two records compare equal if and only if they are the same operation with the same name and the same value text, whatever types hold the name and value.',
 ['inputs','histories'],'all operation sequences, names and Display values',
 'Doc examples compare a few fixed records that are mostly equal.',
 [RC],[('history',RC),('record equality',RC)],['recorder output and == on records'])

p('C23','Unsigned form and query serialization is exact',
 'Without signing, a request becomes exactly its name=encoded-value pairs joined by "&", with no oauth_* parameter; the query variant is the given URI followed by "?" and those pairs, or the URI unchanged when the request has no parameter.',
 ['inputs','histories'],'all requests, URIs and values; all sequences of plain and pre-encoded parameters',
 'Tests compare a few fixed outputs.',
 [URL,LIB,RQ],[('delimiter state machine',URL)],['to_form/to_query and the urlencoding serializer'])

p('C24','Shared secrets influence nothing but the signature',
 'For any two runs that differ only in the client or token secret, everything in the output other than the oauth_signature value is identical, and presence of a token, not its secret, decides whether oauth_token is sent.',
 ['inputs'],'all pairs of secrets, all requests and output modes',
 'A relation between two runs over all secrets; tests look at single runs.',
 [AUTH,LIB],[('credentials split between output and signing',AUTH)],['header, form and query output'])

p('C25','Build configuration does not change what is signed or sent',
 'With nonce and timestamp given, every supported feature selection (standard library, allocator only, neither) and build profile (with or without debug assertions) produces byte-for-byte the output that RFC 5849 prescribes for the same inputs.',
 ['configurations','inputs'],'feature sets {std, alloc, none} x {debug assertions on, off}, all inputs',
 'The test suite runs in one feature configuration with debug assertions on.',
 [AUTH,PT,LIB,L+'util.rs'],[('feature-dependent code paths',AUTH)],['output in each configuration'])
p('C26','A failed write is never ignored: no truncated request is handed out',
 'If the caller\'s output buffer (when appended to), a PLAINTEXT key buffer, or the Display of a parameter value, URI or signature reports an error while text is being written to an output, a recording or into a signature, at whatever write that happens, the call panics: it never returns an output, recording or signature from which text is missing. What is handed to a user-defined signature algorithm passes on the errors of the buffer it is written to. When no error is reported, the call succeeds with the complete output.',
 ['inputs','fault_sequences'],'every write of every call as the one that fails, every capacity of a fixed-size buffer, errors in any pass over a value',
 'Tests write to Strings, which never fail; a fixed-size buffer (the way to use the crate without an allocator) that is full at one particular write is not tried at all.',
 [AUTH,URL,PT,DC,PCT,SM],[('unwrapped writes of header, form and query',AUTH),('error propagation through the encoders',PCT)],['whether a call returns, and its output, with a buffer or value that reports errors'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
